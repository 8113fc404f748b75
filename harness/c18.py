"""C18: a value validates against a schema iff it has its shape, fields and element types"""
from datetime import date, datetime, time
import numpy as np
V = ds.user.validate
N = 10 ** 20
BASE = ['int64', 'float64', 'bool_', 'string', 'date_', 'datetime_', 'time_']


def value_of(h, name, kind):
    if kind == 'int64':
        return h.int(name, -N, N)
    return {'float64': 1.5, 'bool_': True, 'string': 'a', 'date_': date(2014, 1, 2),
            'datetime_': datetime(2014, 1, 2, 3), 'time_': time(1, 2, 3), 'none': None}[kind]


def scalar_ok(t, kind):
    """a datetime is a date, everything else is only what it is"""
    return t == kind or t == 'date_' and kind == 'datetime_'


def flag(h, got, want, what):
    h.check(bool(got) == bool(want), what)


def scalars(h):
    """scalars against element types and alternatives"""
    t, k = h.pick('t', BASE), h.pick('k', BASE + ['none'])
    v = value_of(h, 'v', k)
    want = scalar_ok(t, k)
    s = getattr(CT, t)
    flag(h, V(s, v), want, 'a scalar')
    flag(h, V(CT.DataShape(s), v), want, 'a scalar and a datashape')
    flag(h, V(str(s), v), want, 'a scalar and a text')
    u = h.pick('u', BASE)
    flag(h, V((s, getattr(CT, u)), v), want or scalar_ok(u, k), 'alternatives')
    flag(h, V((), v), False, 'no alternatives')
    flag(h, V(type(v), v), True, 'a class')
    flag(h, V(int, v), k in ('int64', 'bool_'), 'a class')
    w = h.pick('w', ['int8', 'int32', 'uint64', 'float32', 'complex64'])
    flag(h, V(getattr(CT, w), v), False, 'a narrower type')
    flag(h, V(CT.int64, [v]), False, 'a list is no scalar')
    h.reach('yes' if want else 'no')


def nested_ok(dims, m, v):
    if not dims:
        return not isinstance(v, list) and m == v_kind(v)
    if not isinstance(v, list):
        return False
    if type(dims[0]) is CT.Fixed and dims[0].val != len(v):
        return False
    for x in v:
        if not nested_ok(dims[1:], m, x):
            return False
    return True


def v_kind(v):
    return 'string' if isinstance(v, str) else 'int64' if isinstance(v, int) else 'float64'


def gen_nested(h, name, depth):
    k = h.choice(name + '.k', 3 if depth else 2)
    if k == 0:
        return h.int(name + '.i', -9, 9)
    if k == 1:
        return h.pick(name + '.s', ['x', 1.5])
    return [gen_nested(h, '%s.%d' % (name, i), depth - 1)
            for i in range(h.choice(name + '.n', h.bound(3, 4) if depth > 1 else 3))]


def arrays(h):
    """nested sequences against dimensions; every extent counts"""
    n = h.choice('rank', 3)
    dims = [gen_dim(h, 'd%d' % i, 'fv') for i in range(n)]
    m = h.pick('m', ['int64', 'string'])
    v = gen_nested(h, 'v', 2)
    x = CT.DataShape(*dims + [getattr(CT, m)])
    want = nested_ok(dims, m, v)
    flag(h, V(x, v), want, 'an array')
    if isinstance(v, list):
        flag(h, V(x, tuple(v)), want, 'a tuple')
    h.reach('yes' if want else 'no')


def extents(h):
    """an array of n items has the extent n only"""
    n = h.int('n', 0, N)
    k = h.choice('k', h.bound(4, 6))
    v = [h.int('v%d' % i, -N, N) for i in range(k)]
    flag(h, V(CT.DataShape(CT.Fixed(n), CT.int64), v), n == k, 'extent')
    flag(h, V(CT.DataShape(CT.Var(), CT.int64), v), True, 'any extent')
    flag(h, V(CT.DataShape(CT.Fixed(1), CT.Fixed(n), CT.int64), [v]), n == k, 'inner extent')
    flag(h, V(CT.DataShape(CT.Var(), CT.Fixed(n), CT.int64), [v, v]), n == k, 'inner extent')
    j = h.choice('j', k + 1)
    w = v[:j] + ['x'] + v[j:]
    flag(h, V(CT.DataShape(CT.Fixed(n), CT.int64), w), False, 'one wrong item')
    flag(h, V(CT.DataShape(CT.Var(), CT.int64), w), False, 'one wrong item')
    h.reach('equal' if n == k else 'other')


def long_arrays(h):
    """one wrong item in a long sequence, wherever it is"""
    n = h.bound(150, 700)
    j = h.choice('j', n)
    k = h.choice('k', 3)
    good = [1, {'a': 1}, [1, 2]][k]
    bad = ['x', {'b': 1}, [1, 's']][k]
    t = [CT.int64, CT.Record([('a', CT.int64)]), CT.DataShape(CT.Fixed(2), CT.int64)][k]
    v = [good] * n
    flag(h, V(CT.DataShape(CT.Var(), t) if k < 2 else CT.DataShape(CT.Var(), *t), v), True, 'all')
    v[j] = bad
    d = CT.Var() if h.bool('var') else CT.Fixed(n)
    x = CT.DataShape(d, t) if k < 2 else CT.DataShape(d, *t)
    flag(h, V(x, v), False, 'one wrong item')
    h.reach('done')


long_arrays.reach = ['done']


def records(h):
    """mappings and sequences against records"""
    n = h.choice('n', h.bound(3, 4))
    names = [h.char('f%d' % i, ((97 + 3 * i, 99 + 3 * i),)) for i in range(n)]
    types = [h.pick('t%d' % i, ['int64', 'string']) for i in range(n)]
    rec = CT.Record([(a, getattr(CT, t)) for a, t in zip(names, types)])
    m = h.choice('m', h.bound(3, 4))
    keys = [h.char('k%d' % i, ((97 + 3 * i, 99 + 3 * i),)) for i in range(m)]
    vals = [value_of(h, 'v%d' % i, h.pick('kind%d' % i, ['int64', 'string'])) for i in range(m)]
    d = dict(zip(keys, vals))
    want = True
    for a, t in zip(names, types):
        if a not in d or v_kind(d[a]) != t:
            want = False
    flag(h, V(rec, d), want, 'a mapping')
    flag(h, V(CT.DataShape(rec), d), want, 'a mapping and a datashape')
    ok = n == m and all(v_kind(v) == t for v, t in zip(vals, types))
    flag(h, V(rec, vals), ok, 'a list')
    flag(h, V(rec, tuple(vals)), ok, 'a tuple')
    x = CT.DataShape(CT.Var(), rec)
    flag(h, V(x, [d, d]), want, 'mappings')
    flag(h, V(x, [tuple(vals), d]), want and ok, 'mappings and tuples')
    flag(h, V(rec, 'abc'), False, 'a text is no record')
    h.reach('yes' if want else 'no')
    h.reach('yes seq' if ok else 'no seq')


def record_of_arrays(h):
    """records with array and record fields"""
    n, k = h.int('n', 0, N), h.choice('k', 3)
    inner = CT.Record([('x', CT.int64)])
    rec = CT.Record([('a', CT.DataShape(CT.Fixed(n), CT.int64)), ('b', inner)])
    v = [h.int('v%d' % i, -N, N) for i in range(k)]
    b = h.pick('b', [{'x': 1}, {'y': 1}, [1], ['s'], {}, 5, None])
    okb = b == {'x': 1} or b == [1]
    flag(h, V(rec, {'a': v, 'b': b}), n == k and okb, 'a record of arrays')
    flag(h, V(rec, (v, b)), n == k and okb, 'a record of arrays')
    flag(h, V(rec, {'b': b}), False, 'a missing field')
    h.reach('yes' if n == k and okb else 'no')


def arrays_of_numpy(h):
    """NumPy arrays validate against exactly their own datashape"""
    name = h.pick('dtype', ['i4', 'i8', 'f8', 'S3', '?'])
    shape = tuple([h.choice('s%d' % i, 3) for i in range(1 + h.choice('rank', 2))])
    a = np.zeros(shape, dtype=name)
    x = CT.from_numpy(shape, np.dtype(name))
    flag(h, V(x, a), True, 'its own datashape')
    dims = [CT.Fixed(h.int('d%d' % i, 0, 5)) for i in range(1 + h.choice('r2', 2))]
    t = h.pick('t', [CT.int32, CT.int64, CT.float64, CT.String(3, 'A'), CT.bool_])
    y = CT.DataShape(*dims + [t])
    flag(h, V(y, a), same(x, y), 'another datashape')
    cats = ['c%d' % q for q in range(13)]
    other = cats[:12] + [h.char('cat', LOWER)]
    flag(h, ds.issubschema(CT.DataShape(CT.Categorical(cats, CT.string)),
                           CT.DataShape(CT.Categorical(other, CT.string))), False, 'issubschema of categories')
    flag(h, ds.issubschema(x, y), same(x, y), 'issubschema')
    flag(h, ds.issubschema(str(x), y), same(x, y), 'issubschema of texts')
    h.reach('yes' if same(x, y) else 'no')


for f in (scalars, arrays, record_of_arrays, arrays_of_numpy):
    f.reach = ['yes', 'no']
extents.reach = ['equal', 'other']
records.reach = ['yes', 'no', 'yes seq', 'no seq']


def long_records(h):
    """records of many fields, one of which is wrong, missing or too many"""
    n, j = long_place(h, 'x')
    names = ['f%d' % i for i in range(n)]
    t = h.pick('t', BASE)
    types = [BASE[i % 4] for i in range(n)]
    types[j] = t
    k = h.pick('k', BASE + ['none'])
    want = scalar_ok(t, k)
    rec = CT.Record([(a, getattr(CT, b)) for a, b in zip(names, types)])
    vals = [value_of(h, 'v%d' % i, b) for i, b in enumerate(types)]
    vals[j] = value_of(h, 'w', k)
    d = dict(zip(names, vals))
    flag(h, V(rec, d), want, 'a mapping')
    flag(h, V(rec, vals), want, 'a list')
    flag(h, V(CT.DataShape(CT.Var(), rec), [d, tuple(vals)]), want, 'records')
    flag(h, V(rec, vals[:j]), False, 'too few items')
    flag(h, V(rec, vals + [1]), False, 'too many items')
    flag(h, V(rec, vals[:j] + vals[j + 1:]), False, 'too few items')
    e = dict(d)
    del e[names[j]]
    flag(h, V(rec, e), False, 'a missing field')
    for other in (names[j].upper(), names[j] + ' ', 'f', '', 'f%d' % n, j):
        e = dict(d)
        e[other] = e.pop(names[j])
        flag(h, V(rec, e), False, 'a missing field')
    h.reach('yes' if want else 'no')


def deep(h):
    """many levels of sequences or records, wrong at one of them"""
    n, j = long_place(h, 'x', (5, 8))
    t, k = h.pick('t', BASE), h.pick('k', BASE + ['none'])
    want = scalar_ok(t, k)
    v = value_of(h, 'v', k)
    m, w = CT.DataShape(getattr(CT, t)), v
    odd = w
    a = h.int('n', 0, 9)
    if h.bool('records'):
        for i in range(n):
            m = CT.DataShape(CT.Record([('a', CT.int64), ('b', m)]))
            w = {'a': 1, 'b': w} if i % 2 else (1, w)
            odd = {'a': 's' if i == j else 1, 'b': odd}
    else:
        for i in range(n):
            m = CT.DataShape(CT.Fixed(a) if i == j else CT.Fixed(2), *m)
            w = [w, w]
            odd = [odd, 1] if i == j else [odd, odd]
        want = want and a == 2
        # an item stands where a list is due, at the innermost level an integer is due
        if j == 0 and t == 'int64':
            odd = [w, 's']
    flag(h, V(m, w), want, 'many levels')
    flag(h, V(m, odd), False, 'one wrong item')
    h.reach('yes' if want else 'no')


def alternatives(h):
    """a value validates against a tuple of schemas iff it does against one of them"""
    n = h.choice('n', h.bound(3, 6))
    pool = [CT.int64, CT.string, CT.DataShape(CT.Var(), CT.int64), CT.Record([('a', CT.int64)]),
            CT.DataShape(CT.Fixed(2), CT.string), CT.float64]
    vals = [h.int('v', -N, N), 'a', [1, 2, 3], {'a': 1}, ['x', 'y'], 2.5]
    i = h.choice('i', len(pool))
    js = [h.choice('j%d' % q, len(pool)) for q in range(n)]
    flag(h, V(tuple([pool[q] for q in js]), vals[i]), i in js, 'alternatives')
    flag(h, V(pool[i], vals[i]), True, 'alone')
    h.reach('yes' if i in js else 'no')


def sequences(h):
    """what is no list is no array, and text is no list of characters"""
    x = h.pick('x', [CT.DataShape(CT.Var(), CT.string), CT.DataShape(CT.Fixed(2), CT.string),
                     CT.Record([('a', CT.string), ('b', CT.string)]), CT.DataShape(CT.Var(), CT.int64)])
    for v in ('ab', b'ab', {'a': 'x', 'c': 'y'}, None, 1, 1.5, {}, True, object()):
        flag(h, V(x, v), False, 'not of this shape')
    for v in (b'ab', 1, None, ['a'], ('a',), {'a': 'a'}):
        flag(h, V(CT.string, v), False, 'no text')
    h.reach('done')


long_records.reach = deep.reach = alternatives.reach = ['yes', 'no']
sequences.reach = ['done']


def names(h):
    """a mapping has the fields of a record under exactly their names; a sequence has as many items
    as the record fields, whatever they are called"""
    a, b = two_names(h, 'n')
    rec = CT.Record([(a, CT.int64), (b, CT.string)])
    k = h.text('k', 0, 1, PRINTABLE)
    flag(h, V(rec, {a: 1, b: 'x'}), True, 'a mapping')
    flag(h, V(rec, {k: 1, b: 'x'}), k == a, 'a mapping')
    h.assume(k != b or k == a)
    flag(h, V(rec, {a: 1, k: 'x'}), k == b, 'a mapping')
    for v in ([1, 'x'], (1, 'x')):
        flag(h, V(rec, v), True, 'a sequence')
    for v in ([1], ['x', 1], [1, 'x', 'x'], (1, 'x', None), (), [1, 'x', 1, 'x']):
        flag(h, V(rec, v), False, 'a sequence')
    h.reach('done')


def many_alternatives(h):
    """one of many alternatives is enough, wherever it stands"""
    n = h.bound(20, 40)
    i = h.choice('i', n + 1)
    pool = [CT.float64, CT.bool_, CT.date_, CT.Record([('a', CT.int64)]), 'json', CT.time_]
    s = [pool[q % 6] for q in range(n)]
    if i < n:
        s[i] = h.pick('s', [CT.string, 'string', str, CT.DataShape(CT.string), (CT.int8, CT.string)])
    flag(h, V(tuple(s), 'x'), i < n, 'many alternatives')
    h.reach('yes' if i < n else 'no')


def deep_arrays(h):
    """NumPy arrays of three and four dimensions"""
    r = 3 + h.choice('rank', h.bound(1, 2))
    shape = tuple(h.choice('s%d' % i, 3) for i in range(r))
    x = CT.from_numpy(shape, np.dtype('i4'))
    a = np.zeros(shape, dtype='i4')
    flag(h, V(x, a), True, 'its own datashape')
    y = CT.DataShape(*[CT.Fixed(h.int('d%d' % i, 0, 5)) for i in range(r)] + [CT.int32])
    flag(h, V(y, a), same(x, y), 'another datashape')
    flag(h, V(CT.DataShape(*list(y)[1:]), a), False, 'a dimension less')
    flag(h, V(CT.DataShape(CT.Fixed(1), *y), a), False, 'a dimension more')
    h.reach('yes' if same(x, y) else 'no')


names.reach = ['done']
many_alternatives.reach = deep_arrays.reach = ['yes', 'no']


HARNESSES = [scalars, arrays, extents, long_arrays, records, record_of_arrays, arrays_of_numpy,
             long_records, deep, alternatives, sequences, names, many_alternatives, deep_arrays]
