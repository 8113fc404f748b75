"""C13: the discovered datashape describes the value it was discovered from"""
from datetime import date, datetime, time, timedelta
import numpy as np

SCALARS = ['int', 'none', 'str', 'float', 'bool', 'date', 'datetime', 'complex', 'numstr']


def gen_scalar(h, name, kinds):
    k = h.pick(name, kinds)
    return {'none': None, 'float': 1.5, 'bool': True, 'date': date(2014, 1, 2),
            'datetime': datetime(2014, 1, 2, 3, 4, 5), 'str': 'abc', 'numstr': '12',
            'complex': 1j, 'time': time(1, 2, 3), 'timedelta': timedelta(3),
            'bytes': b'ab'}.get(k) if k != 'int' else h.int(name + '.v', -10 ** 30, 10 ** 18)


def number(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def fits(t, v):
    """is v a value of type t?  (texts may spell values, as discovery reads them)"""
    t = unwrap(t)
    if isinstance(t, CT.DataShape):
        if not isinstance(v, (list, tuple)):
            return False
        d = t[0]
        if type(d) is CT.Fixed:
            if d.val != len(v):
                return False
        elif type(d) is not CT.Var:
            return False
        rest = CT.DataShape(*t.parameters[1:])
        for x in v:
            if not fits(rest, x):
                return False
        return True
    if isinstance(t, CT.Option):
        return v is None or fits(t.ty, v)
    if isinstance(t, CT.Record):
        if not isinstance(v, dict):
            return False
        names = [n for n, x in t.fields]
        for k in v:
            if k not in names:
                return False
        for n, x in t.fields:
            if not fits(x, v.get(n)):
                return False
        return True
    if isinstance(t, CT.Tuple):
        if not isinstance(v, (list, tuple)) or len(v) != len(t.dshapes):
            return False
        for x, y in zip(t.dshapes, v):
            if not fits(x, y):
                return False
        return True
    if isinstance(v, (list, tuple, dict)):
        return False
    if t is CT.int64:
        return isinstance(v, int) and not isinstance(v, bool) or v == '12'
    if t is CT.float64:
        return number(v) or v == '12'
    if t is CT.bool_:
        return isinstance(v, bool)
    if t is CT.complex128:
        return isinstance(v, complex)
    if type(t) is CT.Date:
        return type(v) is date
    if type(t) is CT.DateTime:
        return isinstance(v, date)
    if type(t) is CT.Time:
        return isinstance(v, time)
    if type(t) is CT.TimeDelta:
        return isinstance(v, timedelta)
    if type(t) is CT.Null:
        return v is None
    if type(t) is CT.String:
        if t.encoding == 'A':
            return isinstance(v, bytes)
        return not isinstance(v, (complex, bytes))       # anything scalar has a text
    return False


def check_discover(h, v):
    t = ds.discover(v)
    h.check(isinstance(t, CT.Mono), 'a type', 'type')
    h.check(lambda: fits(t, v), 'the value does not fit the discovered type', 'fits')
    u = ds.discover(v)
    h.check(lambda: same(t, u) and t == u, 'discovered differently the second time', 'again')
    if isinstance(v, (list, tuple)) and len(v):
        h.check(isinstance(t, CT.DataShape) and len(t) > 1 or isinstance(unwrap(t), CT.Tuple),
                'a sequence has a dimension or is a tuple', 'sequence')
    return t


def scalars(h):
    """scalars of every kind, and the exact type of each"""
    k = h.pick('k', ['int', 'none', 'str', 'float', 'bool', 'date', 'datetime', 'complex',
                     'time', 'timedelta', 'bytes'])
    v = gen_scalar(h, k, [k])
    t = check_discover(h, v)
    want = {'int': CT.int64, 'none': CT.null, 'str': CT.string, 'float': CT.float64,
            'bool': CT.bool_, 'date': CT.date_, 'datetime': CT.datetime_,
            'complex': CT.complex128, 'time': CT.time_, 'timedelta': CT.TimeDelta('us'),
            'bytes': CT.String('A')}[k]
    h.check(lambda: same(t, want), 'type of a scalar')
    h.reach(k)


def flat(h):
    """sequences of scalars of any kinds"""
    n = h.choice('n', h.bound(4, 5))
    v = [gen_scalar(h, 'x%d' % i, SCALARS) for i in range(n)]
    if h.bool('tuple'):
        v = tuple(v)
    t = check_discover(h, v)
    if n and len(set(map(type, v))) == 1 and v[0] != '12' and v[0] != 'abc':
        h.check(lambda: same(t, CT.DataShape(CT.Fixed(n), unwrap(ds.discover(v[0])))),
                'items of one type', 'one type')
        h.reach('one type')
    h.reach('done')


def rows(h):
    """sequences of sequences, of equal or different length"""
    n = 1 + h.choice('n', 2)
    kinds = ['int', 'none', 'str', 'float', 'bool', 'date'] if h.tier == 'quick' else SCALARS
    v = []
    for i in range(n):
        row = [gen_scalar(h, 'x%d_%d' % (i, j), kinds)
               for j in range(h.choice('m%d' % i, 3))]
        v.append(tuple(row) if h.bool('t%d' % i) else row)
    check_discover(h, v)
    h.reach('done')


def columns(h):
    """tables of three rows: the type of a column holds all its items"""
    kinds = ['int', 'none', 'str', 'float', 'datetime', 'date', 'bool', 'numstr']
    v = [[gen_scalar(h, 'x%d' % i, kinds), h.int('y%d' % i, 0, 9)] for i in range(3)]
    t = check_discover(h, v)
    x = unwrap(t[1]) if len(t) == 2 else None
    if isinstance(x, CT.Tuple):
        c = unwrap(x.dshapes[0])
        h.check(lambda: same(unwrap(x.dshapes[1]), CT.int64), 'a column of integers')
        has_null = any(r[0] is None for r in v)
        all_null = all(r[0] is None for r in v)
        if not isinstance(c, CT.Tuple):
            h.check(lambda: isinstance(c, CT.Option) == (has_null and not all_null),
                    'missing values of a column')
        h.reach('tuple')
    h.reach('done')


def shapes(h):
    """regular arrays have fixed dimensions, ragged ones variable dimensions"""
    n = 1 + h.choice('n', 3)
    lens = [1 + h.choice('m%d' % i, 3) for i in range(n)]
    v = [[h.int('x%d_%d' % (i, j), -99, 99) for j in range(m)] for i, m in enumerate(lens)]
    deep = h.bool('deep')
    if deep:
        v = [v, v]
    t = check_discover(h, v)
    dims = [CT.Fixed(n), CT.Fixed(lens[0]) if all(m == lens[0] for m in lens) else CT.Var()]
    if deep:
        dims = [CT.Fixed(2)] + dims
    h.check(lambda: same(t, CT.DataShape(*dims + [CT.int64])), 'dimensions')
    h.reach('ragged' if type(dims[-1]) is CT.Var else 'regular')


def dicts(h):
    """mappings become records with their keys, in sorted order"""
    kinds = ['int', 'none', 'str', 'float']
    n = h.choice('n', 3)
    v = {}
    for k in ['b', 'a'][:n]:
        v[k] = gen_scalar(h, k, kinds)
    t = check_discover(h, v)
    h.check(t.names == sorted(v), 'fields of a mapping')
    for k in v:
        h.check(lambda: same(t.dict[k], ds.discover(v[k])), 'types of a mapping')
    h.reach('n%d' % n)


def mappings(h):
    """ordered mappings keep their order, read-only views are mappings"""
    from collections import OrderedDict
    from types import MappingProxyType
    order = h.pick('order', ['ba', 'ab', 'cab', 'bca'])
    items = [(k, gen_scalar(h, k, ['int', 'none', 'str'])) for k in order]
    t = ds.discover(OrderedDict(items))
    h.check(t.names == list(order), 'fields of an ordered mapping')
    h.check(lambda: fits(t, dict(items)), 'types of an ordered mapping')
    u = ds.discover(MappingProxyType(dict(items)))
    h.check(u.names == sorted(order), 'fields of a read-only mapping')
    h.check(lambda: same(u, ds.discover(dict(items))), 'types of a read-only mapping')
    v = ds.discover([OrderedDict(items), OrderedDict(items[::-1])])
    h.check(lambda: fits(v, [dict(items), dict(items)]), 'ordered mappings in a sequence')
    h.reach('done')


class Arraylike(object):
    def __init__(self, shape, dtype):
        self.shape = shape
        self.dtype = dtype


class Half(object):
    pass


def duck(h):
    """objects with shape and dtype are arrays; other objects are refused"""
    import warnings
    shape = tuple([h.int('s%d' % i, 0, 10 ** 20) for i in range(h.choice('rank', 3))])
    dt = np.dtype(h.pick('dtype', ['i4', 'f8', 'S3']))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t = ds.discover(Arraylike(shape, dt))
    h.check(lambda: same(t, CT.from_numpy(shape, dt)), 'an object with shape and dtype')
    e = raised(lambda: ds.discover(object()), NotImplementedError)
    h.check(e is not None, 'an unknown object')
    half = Half()
    setattr(half, *h.pick('half', [('shape', shape), ('dtype', dt)]))
    e = raised(lambda: ds.discover(half), NotImplementedError)
    h.check(e is not None, 'an object with only a shape or only a dtype')
    h.reach('done')


def dict_rows(h):
    """sequences of mappings with any keys: fields missing somewhere become optional"""
    n = 1 + h.choice('n', 3)
    kinds = ['int', 'none', 'str', 'float']
    v = []
    for i in range(n):
        d = {}
        for k in 'ab':
            if h.bool('has%d%s' % (i, k)):
                d[k] = gen_scalar(h, 'x%d%s' % (i, k), kinds) if k == 'a' else h.int(
                    'x%d%s' % (i, k), 0, 9)
        v.append(d)
    t = check_discover(h, v)
    m = unwrap(t[-1])
    if isinstance(m, CT.Record):
        keys = sorted(set(k for d in v for k in d))
        h.check(m.names == keys, 'fields of the union of the keys')
        for k in keys:
            missing = any(d.get(k) is None for d in v)
            if k == 'b':
                h.check(lambda: same(m.dict[k], CT.Option(CT.int64) if missing else CT.int64),
                        'type of a field')
        h.reach('record')
    h.reach('done')


def deep(h):
    """sequences, tuples and mappings inside each other"""
    def val(p, d):
        k = h.choice(p + 'k', 4 if d else 2)
        if k == 0:
            return h.int(p + 'i', 0, 9)
        if k == 1:
            return h.pick(p + 's', h.bound([None, 'abc'], [None, 'abc', 1.5]))
        if k == 2:
            return [val('%s%d' % (p, i), d - 1) for i in range(1 + h.choice(p + 'n', 2))]
        return dict((c, val(p + c, d - 1)) for c in 'xy'[:1 + h.choice(p + 'm', 2)])
    v = [val('a', h.bound(2, 2)), val('b', h.bound(1, 2))]
    check_discover(h, v)
    h.reach('done')


def arrays(h):
    """NumPy arrays and scalars have the datashape of their dtype and shape"""
    name = h.pick('dtype', ['?', 'i1', 'i4', 'u8', 'f2', 'f4', 'c16', 'S3', 'U4', 'M8[D]',
                            'M8[us]', 'm8[s]'])
    shape = tuple([h.choice('s%d' % i, 3) for i in range(h.choice('rank', 3))])
    a = np.zeros(shape, dtype=name)
    t = ds.discover(a)
    h.check(lambda: same(t, CT.from_numpy(shape, np.dtype(name))), 'datashape of an array')
    if name not in ('S3', 'U4', '?'):
        s = np.zeros((), dtype=name)[()]
        h.check(lambda: same(ds.discover(s), CT.from_numpy((), np.dtype(name))),
                'datashape of a NumPy scalar')
    o = np.array([h.pick('o', ['a', None, 3]), 'b', 1.5][:1 + h.choice('m', 3)], dtype='O')
    texts = all(isinstance(x, str) for x in o.tolist())
    h.check(lambda: same(ds.discover(o), CT.DataShape(CT.Fixed(len(o)), CT.string if texts
                                                      else CT.object_)),
            'an array of objects')
    h.reach('done')


def object_arrays(h):
    """an object among texts, at any place of a short array, makes it an array of objects"""
    n = 1 + h.choice('n', 5)
    j = h.choice('j', n + 1)
    col = ['a', '', 'bc', '12', 'x'][:n]
    if j < n:
        col[j] = h.pick('o', [None, 3, 1.5, b'a', ('a',)])
    x = np.empty(n, dtype='O')
    for i, v in enumerate(col):
        x[i] = v
    want = CT.object_ if j < n else CT.string
    k = h.choice('k', 3)
    if k == 0:
        h.check(lambda: same(ds.discover(x), CT.DataShape(CT.Fixed(n), want)), 'a column')
    elif k == 1:
        h.check(lambda: same(ds.discover(x.reshape(1, n)),
                             CT.DataShape(CT.Fixed(1), CT.Fixed(n), want)), 'a row')
    else:
        y = np.zeros(n, dtype=[('a', 'i4'), ('b', 'O')])
        y['b'] = x
        h.check(lambda: same(ds.discover(y), CT.DataShape(CT.Fixed(n), CT.Record(
            [('a', CT.int32), ('b', want)]))), 'a field')
    h.reach('texts' if j == n else 'objects')


object_arrays.reach = ['texts', 'objects']


def number_keys(h):
    """mappings with numbers as keys: fields are named by their text, in the order of the keys"""
    n = 1 + h.choice('n', 2)
    d = {}
    for i in range(n):
        k = h.int('k%d' % i, -99, 99)
        h.assume(k not in d)
        d[k] = h.pick('v%d' % i, [1, 'a', None])
    t = ds.discover(d)
    ks = sorted(d)
    h.check(lambda: t.names == [str(k) for k in ks], 'fields of a mapping')
    h.check(lambda: all(same(t.dict[str(k)], ds.discover(d[k])) for k in ks),
            'types of a mapping')
    e = dict(d)
    e.pop(ks[0])
    u = ds.discover([d, e])
    h.check(lambda: unwrap(u[1]).names == [str(k) for k in ks], 'fields of mappings')
    if n > 1 and d[ks[0]] is not None:
        h.check(lambda: isinstance(unwrap(unwrap(u[1]).dict[str(ks[0])]), CT.Option),
                'a field missing somewhere')
    h.reach('n%d' % n)


number_keys.reach = ['n1', 'n2']


def record_arrays(h):
    """structured arrays: fields of texts in object columns are strings"""
    n = 1 + h.choice('n', 3)
    dt, kinds = [], []
    for c in 'ab'[:1 + h.choice('m', 2)]:
        kinds.append(h.pick('k' + c, ['O', 'i4', 'S3', 'U2', 'f8']))
        dt.append((c, kinds[-1]))
    x = np.zeros(n, dtype=dt)
    want = []
    for (c, k) in dt:
        if k == 'O':
            col = [h.pick('v%s%d' % (c, i), ['a', None, 3]) for i in range(n)]
            x[c] = col
            texts = all(isinstance(v, str) for v in col)
            want.append((c, CT.string if texts else CT.object_))
            h.reach('texts' if texts else 'objects')
        else:
            want.append((c, CT.from_numpy((), np.dtype(k))))
    t = ds.discover(x)
    h.check(lambda: same(t, CT.DataShape(CT.Fixed(n), CT.Record(want))),
            'datashape of a structured array')
    h.reach('done')


def sets(h):
    """sets are sequences of their items, whatever order they come in"""
    kinds = ['int', 'none', 'str', 'float', 'bool']
    v = [gen_scalar(h, 'x%d' % i, kinds) for i in range(1 + h.choice('n', 2))]
    s = frozenset(v) if h.bool('frozen') else set(v)
    t = ds.discover(s)
    if len(s) == 1:
        h.check(lambda: same(t, ds.discover(v[:1])), 'a set of one item')
        h.reach('one')
    else:
        h.check(lambda: same(t, ds.discover(v)) or same(t, ds.discover(v[::-1])),
                'a set of two items')
        h.reach('two')
    h.check(lambda: same(ds.discover(CT.null), CT.null), 'the null type stands for no value')


scalars.reach = ['int', 'none', 'str', 'float', 'bool', 'date', 'datetime', 'complex', 'time',
                 'timedelta', 'bytes']
flat.reach = ['done', 'one type']
columns.reach = ['done', 'tuple']
shapes.reach = ['ragged', 'regular']
dicts.reach = ['n0', 'n1', 'n2']
dict_rows.reach = ['done', 'record']
mappings.reach = duck.reach = rows.reach = deep.reach = arrays.reach = ['done']
record_arrays.reach = ['done', 'texts', 'objects']
sets.reach = ['one', 'two']


def long_flat(h):
    """longer sequences of scalars of one kind, with one or two of other kinds anywhere"""
    kinds = SCALARS + ['time', 'timedelta', 'bytes']
    n = h.bound(6, 4) + h.choice('n', h.bound(3, 8))
    k = h.pick('k', kinds)
    v = [gen_scalar(h, 'x%d' % i, [k]) for i in range(n)]
    i = h.choice('i', n)
    v[i] = gen_scalar(h, 'y', kinds)
    if h.bool('two'):
        v[h.choice('j', n)] = gen_scalar(h, 'z', h.bound(['none', 'str'], kinds))
    t = check_discover(h, v)
    some, all_ = any(x is None for x in v), all(x is None for x in v)
    if len(t) == 2:
        h.check(lambda: t[0] == CT.Fixed(n), 'the length')
        h.check(lambda: isinstance(t[1], CT.Option) == (some and not all_), 'missing items')
    h.reach('dimension' if len(t) == 2 else 'tuple')


def long_rows(h):
    """tables of more rows and columns, with one item of another kind anywhere"""
    kinds = ['int', 'none', 'str', 'float', 'date', 'numstr']
    n, m = 2 + h.choice('n', h.bound(6, 8)), 1 + h.choice('m', h.bound(5, 7))
    col = [['int', 'str', 'float', 'bool', 'date'][j % 5] for j in range(m)]
    v = [[gen_scalar(h, 'x%d_%d' % (i, j), [col[j]]) for j in range(m)] for i in range(n)]
    i, j = h.choice('i', n), h.choice('j', m)
    k = h.pick('k', kinds + ['short', 'long', 'null row'])
    if k == 'short':
        v[i] = v[i][:j]
    elif k == 'long':
        v[i] = v[i] + [v[i][j]]
    elif k == 'null row':
        v[i] = None
    else:
        v[i][j] = gen_scalar(h, 'y', [k])
    form = h.choice('form', 3)
    if form:
        v = [r if r is None else tuple(r) for r in v]
        if form == 2:
            v = tuple(v)
    t = check_discover(h, v)
    if form:
        h.check(lambda: same(t, ds.discover([r if r is None else list(r) for r in v])),
                'the kind of sequence matters')
    x = unwrap(t[1]) if len(t) == 2 else None
    h.check(lambda: k not in kinds or t[0] == CT.Fixed(n), 'a dimension of rows')
    if k in kinds and isinstance(x, CT.Tuple):
        h.check(lambda: len(x.dshapes) == m, 'columns of a table')
        for c in range(m):
            if c != j:
                h.check(lambda: same(unwrap(x.dshapes[c]), unwrap(ds.discover(v[0][c]))),
                        'the type of a column of one kind')
            elif k == 'none':
                h.check(lambda: same(unwrap(x.dshapes[c]),
                                     CT.Option(unwrap(ds.discover(v[1 if i == 0 else 0][c])))),
                        'the type of a column with a missing item')
        h.reach('columns')
    h.reach('done')


def long_dicts(h):
    """longer sequences of mappings of more keys, one of them without a key, with another, with a
    missing value, or missing as a whole"""
    n, m = 2 + h.choice('n', h.bound(6, 8)), 1 + h.choice('m', h.bound(5, 7))
    keys = ['a', 'B', 'cc', 'aa', 'd1', 'Z z', '_'][:m]
    v = [dict((k, h.int('x%d%s' % (i, k), 0, 9) if j % 2 == 0 else 'abc')
              for j, k in enumerate(keys)) for i in range(n)]
    i, j = h.choice('i', n), h.choice('j', m)
    k = h.pick('k', ['without', 'other', 'none', 'text', 'order', 'missing', 'empty'])
    want = dict((c, CT.int64 if p % 2 == 0 else CT.string) for p, c in enumerate(keys))
    if k == 'without':
        del v[i][keys[j]]
    elif k == 'other':
        new = h.char('new', LOWER)
        h.assume(new not in keys)
        v[i][new] = 1.5
        want[new] = CT.Option(CT.float64)
    elif k == 'none':
        v[i][keys[j]] = None
    elif k == 'text':
        v[i][keys[j]] = 'abc'
        want[keys[j]] = CT.string
    elif k == 'order':
        v[i] = dict(sorted(v[i].items(), reverse=True))
    elif k == 'missing':
        v[i] = None
    else:
        v[i] = {}
        for c in keys:
            want[c] = CT.Option(want[c])
    if k in ('without', 'none'):
        want[keys[j]] = CT.Option(want[keys[j]])
    t = check_discover(h, v)
    rec = CT.Record([(c, want[c]) for c in sorted(want)])
    if k != 'missing':
        h.check(lambda: same(t, CT.DataShape(CT.Fixed(n), rec)), 'type of a sequence of mappings')
    h.reach(k)


def long_shapes(h):
    """arrays of more dimensions: the ones of differing lengths are variable"""
    d = 3 + h.choice('d', h.bound(3, 4))
    sizes = [1 + h.choice('s%d' % i, 2) for i in range(d)]

    def build(p, i):
        if i == d:
            return h.int('x' + p, -99, 99)
        return [build(p + str(q), i + 1) for q in range(sizes[i])]
    v = build('', 0)
    at = h.choice('at', d + 1)
    dims = [CT.Fixed(n) for n in sizes]
    if at < d:
        w = v
        for i in range(at):
            w = w[-1]
        w.append(w[0])
        other = False
        for n in sizes[:at]:
            other = other or n > 1
        dims[at] = CT.Var() if other else CT.Fixed(sizes[at] + 1)
    t = check_discover(h, v)
    ragged = any(type(x) is CT.Var for x in dims)
    if ragged and len(t) <= d:          # told apart: rows of a tuple, which the value fits
        h.check(isinstance(unwrap(t[-1]), CT.Tuple), 'dimensions')
        h.reach('apart')
    else:
        h.check(lambda: same(t, CT.DataShape(*dims + [CT.int64])), 'dimensions')
    h.reach('ragged' if ragged else 'regular')


def wide_mappings(h):
    """ordered mappings of more keys, of any lengths and kinds, keep their order; others are sorted"""
    from collections import OrderedDict
    keys = ['b', 'a', 'ab', 'B', 'c1', '', 'c', 'a b', '10', '9'][:2 + h.choice('n', h.bound(6, 9))]
    r = h.choice('r', len(keys))
    keys = keys[r:] + keys[:r]
    if h.bool('reverse'):
        keys.reverse()
    i = h.choice('i', len(keys))
    c = h.char('c', LOWER)
    h.assume(c not in keys)
    keys[i] = c
    items = [(k, gen_scalar(h, 'v', ['int', 'none', 'str']) if k == c else [1, 'u', 1.5][j % 3])
             for j, k in enumerate(keys)]
    want = [(k, ds.discover(x)) for k, x in items]
    h.check(lambda: same(ds.discover(OrderedDict(items)), CT.Record(want)),
            'type of an ordered mapping')
    h.check(lambda: same(ds.discover(dict(items)), CT.Record(sorted(want, key=lambda p: p[0]))),
            'type of a mapping')
    if h.bool('nested'):
        h.check(lambda: same(ds.discover({'o': OrderedDict(items)}),
                             CT.Record([('o', CT.Record(want))])), 'an ordered mapping in a mapping')
    h.reach('done')


def wide_record_arrays(h):
    """structured arrays of more fields and more dimensions, with an object at any place"""
    m = h.pick('m', h.bound([1, 2, 5, 7, 9], list(range(1, 12))))
    shape = [(4,), (2, 2), (1, 4), (1, 2, 2), (4, 1)][h.choice('shape', 5)]
    kinds = ['O', 'i4', 'O', 'S3', 'O', 'f8', 'O', '?', 'O', 'O', 'i8'][:m]
    x = np.zeros(shape, dtype=[('f%d' % i, k) for i, k in enumerate(kinds)])
    at, row = h.choice('at', (m + 1) // 2) * 2, h.choice('row', 5)
    for i, k in enumerate(kinds):
        if k == 'O':
            col = np.empty(4, dtype='O')
            col[:] = ['a', '', '12', 'b']
            if i == at and row < 4:
                col[row] = h.pick('odd', [None, 3, b'a', ('a',)])
            x['f%d' % i] = col.reshape(shape)
    want = []
    for i, k in enumerate(kinds):
        if k == 'O':
            want.append(('f%d' % i, CT.object_ if i == at and row < 4 else CT.string))
        else:
            want.append(('f%d' % i, CT.from_numpy((), np.dtype(k))))
    h.check(lambda: same(ds.discover(x), CT.DataShape(*[CT.Fixed(n) for n in shape] +
                                                      [CT.Record(want)])), 'a structured array')
    h.reach('done')


long_flat.reach = ['dimension', 'tuple']
long_rows.reach = ['columns', 'done']
long_dicts.reach = ['without', 'other', 'none', 'text', 'order', 'missing', 'empty']
long_shapes.reach = ['ragged', 'regular']
wide_mappings.reach = wide_record_arrays.reach = ['done']


def lists_of_arrays(h):
    """sequences of NumPy arrays, of the same or of different extents"""
    n = 1 + h.choice('n', h.bound(3, 4))
    r = 1 + h.choice('rank', h.bound(2, 3))
    shapes = [tuple(h.choice('s%d.%d' % (i, j), h.bound(4 - r, 3)) for j in range(r)) for i in range(n)]
    name = h.pick('dtype', ['i4', '?', 'f8'])
    m = CT.from_numpy((), np.dtype(name))
    odd = h.choice('odd', n) if h.bool('mixed') else None
    o = CT.int16
    v = [np.zeros(s, dtype='i2' if i == odd else name) for i, s in enumerate(shapes)]
    t = ds.discover(tuple(v) if h.bool('tuple') else v)
    if odd is not None and n > 1:
        h.check(lambda: isinstance(unwrap(t), CT.Tuple) or t is None, 'arrays of different types')
        h.check(lambda: same(list(unwrap(t).dshapes),
                             [CT.DataShape(*[CT.Fixed(k) for k in s] + [o if i == odd else m])
                              for i, s in enumerate(shapes)]), 'arrays of different types')
        h.reach('tuple')
        return
    m = o if odd is not None else m
    if all(s == shapes[0] for s in shapes):
        want = CT.DataShape(*[CT.Fixed(k) for k in (n,) + shapes[0]] + [m])
        h.reach('regular')
    elif all(s[1:] == shapes[0][1:] for s in shapes):
        want = CT.DataShape(*[CT.Fixed(n), CT.Var()] + [CT.Fixed(k) for k in shapes[0][1:]] + [m])
        h.reach('ragged')
    else:
        want = CT.Tuple([CT.DataShape(*[CT.Fixed(k) for k in s] + [m]) for s in shapes])
        h.reach('tuple')
    h.check(lambda: same(t, want), 'arrays')


lists_of_arrays.reach = ['regular', 'ragged', 'tuple']


def tall(h):
    """sequences of many rows, mappings or scalars, one of which is of another kind or length"""
    n = h.pick('n', h.bound([17, 33], [17, 33, 65, 129]))
    i = h.pick('i', [0, 1, 8, n // 2, n - 2, n - 1])
    form = h.pick('form', ['rows', 'tuples', 'mappings', 'items'])
    x = h.int('x', -99, 99)
    if form == 'items':
        v = list(range(n))
        v[i], want = h.pick('k', [(None, CT.Option(CT.int64)), (x, CT.int64), ('abc', None),
                                  (1.5, None), ([1], None), (True, None)])
        t = check_discover(h, v)
        if want is None:
            # nothing but a tuple tells items of different kinds apart
            h.check(lambda: isinstance(unwrap(t), CT.Tuple) and len(unwrap(t).dshapes) == n, 'a type of items')
        elif want == CT.int64:
            h.check(lambda: same(t, CT.DataShape(CT.Fixed(n), want)), 'a type of items')
        h.reach('items')
        return
    if form == 'mappings':
        v = [{'a': q, 'b': 'abc'} for q in range(n)]
        k, want = h.pick('k', [({'a': x, 'b': 'abc'}, (CT.int64, CT.string)),
                               ({'a': x}, (CT.int64, CT.Option(CT.string))),
                               ({'b': 'abc'}, (CT.Option(CT.int64), CT.string)),
                               ({'a': x, 'b': 'abc', 'c': 1.5}, (CT.int64, CT.string, CT.Option(CT.float64))),
                               ({'a': None, 'b': None}, (CT.Option(CT.int64), CT.Option(CT.string))),
                               ({'a': 1.5, 'b': x}, (CT.float64, CT.string))])
        v[i] = k
        t = check_discover(h, v)
        h.check(lambda: same(t, CT.DataShape(CT.Fixed(n), CT.Record(list(zip('abc', want))))), 'a type of mappings')
        h.reach('mappings')
        return
    kind = list if form == 'rows' else tuple
    v = [kind([q, 'abc', 1.5]) for q in range(n)]
    k, want = h.pick('k', [([x, 'abc', 1.5], (CT.int64, CT.string, CT.float64)),
                           ([None, 'abc', 1.5], (CT.Option(CT.int64), CT.string, CT.float64)),
                           ([1.5, 'abc', x], (CT.float64, CT.string, CT.float64)),
                           (['abc', 'abc', None], (CT.string, CT.string, CT.Option(CT.float64))),
                           ([x, 'abc'], None), ([x, 'abc', 1.5, 2], None), ([], None), (None, None)])
    v[i] = k if k is None else kind(k)
    t = check_discover(h, v)
    if want is not None:
        h.check(lambda: same(t, CT.DataShape(CT.Fixed(n), CT.Tuple(want))), 'a type of rows')
    else:
        h.check(lambda: not same(t, ds.discover(v[:i] + v[i + 1:])), 'the row that is different')
    h.reach('rows')


tall.reach = ['rows', 'mappings', 'items']


HARNESSES = [tall, scalars, flat, rows, columns, shapes, dicts, mappings, duck, dict_rows, deep, arrays,
             record_arrays, object_arrays, number_keys, sets, long_flat, long_rows, long_dicts,
             long_shapes, wide_mappings, wide_record_arrays, lists_of_arrays]
