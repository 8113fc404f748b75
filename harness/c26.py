"""C26: results depend on the arguments alone, not on what was done before; nothing changes
a type once it is made"""
import numpy as np
NP = [np.int8, np.float64, np.bool_]


def view(x, d=9):
    """everything observable about a value, package objects by class and content"""
    if d == 0:
        return '...'
    if isinstance(x, CT.CType):
        return ('CType', x.name, x.itemsize, x.alignment)
    if isinstance(x, CT.Fixed):
        return ('Fixed', x.val)
    if isinstance(x, CT.Mono):
        return (type(x).__name__, [view(p, d - 1) for p in x.parameters])
    if isinstance(x, bool):
        return ('bool', x)
    if isinstance(x, (list, tuple)):
        return [view(y, d - 1) for y in x]
    if isinstance(x, dict):
        return [[view(k, d - 1), view(v, d - 1)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return ['set', len(x)]
    if isinstance(x, type):
        return x.__name__
    return x


def alike(a, b):
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not alike(x, y):
                return False
        return True
    if isinstance(a, float) != isinstance(b, float):
        return False
    return a == b


def result(f, *args):
    try:
        return ['value', view(f(*args))]
    except Exception as e:
        return ['error', type(e).__name__]


LEAF = ['int32', 'string[3]', 'float64', 'string', 'bool', 'date', 'int64']


def maker(h, p, rich):
    """builds a type, a fresh one on every call"""
    k = h.choice(p + '.k', 6) if rich else h.pick(p + '.k', [0, 2, 6, 1, 3][:h.bound(3, 5)])
    leaf = h.pick(p + '.leaf', LEAF if rich and k == 0 else LEAF[:h.bound(2, 4)])
    T = {'int32': CT.int32, 'int64': CT.int64, 'string': CT.string, 'bool': CT.bool_,
         'date': CT.date_, 'float64': CT.float64}
    base = lambda: T[leaf] if leaf in T else CT.String(3)
    n = h.int(p + '.n', 0, h.bound(2, 5)) if k in (1, 2) else 0
    c = h.char(p + '.c', ((97, 98),)) if k in (2, 3) else 'a'
    return [lambda: base(),
            lambda: CT.DataShape(CT.Fixed(n), base()),
            lambda: CT.DataShape(CT.Fixed(n), CT.Record([(c, base()), ('Z', CT.int8)])),
            lambda: CT.Record([(c, CT.Option(base()))]),
            lambda: CT.DataShape(CT.Var(), CT.Option(base())),
            lambda: CT.Tuple([base(), CT.Map(CT.string, base())]),
            lambda: CT.Option(base())][k]


OPS = [
    ('text', str, 1),
    ('repr', repr, 1),
    ('hash', lambda x: hash(x) == hash(x), 1),
    ('equal', lambda x, y: [x == y, x != y], 2),
    ('parts', lambda x: [x.shape, x.measure, len(x), x.parameters, x.info()[1]], 1),
    ('fields', lambda x: [x.measure.names, x.measure.types, x.measure.fields, x.measure.dict], 1),
    ('parse', lambda x: ds.dshape(str(x)), 1),
    ('dshape', lambda x: ds.dshape(x), 1),
    ('pprint', lambda x: ds.pprint(x, 30), 1),
    ('numpy', lambda x: ds.to_numpy_dtype(CT.DataShape(*x.parameters) if
                                          isinstance(x, CT.DataShape) else CT.DataShape(x)), 1),
    ('index', lambda x: [x.subshape[0], x.subshape[1:], x.subarray(1)], 1),
    ('multiply', lambda x, y: [3 * x, CT.Var() * y, CT.Option(x)], 2),
    ('predicates', lambda x: [ds.isscalar(x), ds.isrecord(x), ds.istabular(x), ds.iscollection(x),
                              ds.isnumeric(x), ds.isreal(x), ds.isboolean(x), ds.isdatelike(x),
                              ds.isfixed(x), ds.ishomogeneous(x), ds.has_var_dim(x),
                              ds.has_ellipsis(x)], 1),
    ('promote', lambda x, y: ds.promote(x, y), 2),
    ('optionify', lambda x, y: ds.promote(x, y, promote_option=False), 2),
    ('cat', lambda x, y: ds.util.cat_dshapes([x, y]), 2),
    ('assert', lambda x, y: ds.util.testing.assert_dshape_equal(x, y), 2),
    ('validate', lambda x: ds.validate(x, (1, 'a')), 1),
    ('typeset', lambda x: [x in ds.typesets.numeric, x in ds.typesets.real,
                           x in ds.typesets.integral], 1),
    ('matches', lambda x: ds.typesets.matches_typeset([x], ds.typesets.TypeSet(CT.int32)), 1),
    ('pickle', lambda x: [x.__getstate__()], 1),
]


def history(h, first, second, n1, n2, rich):
    a, b = maker(h, 'a', rich), maker(h, 'b', False)
    if n1 < 2 and n2 < 2 and not rich:
        b = a
    h.reset()
    x, y = a(), b()
    want = result(second, *[x, y][:n2])
    h.reset()
    x, y = a(), b()
    before = [view(x), view(y)]
    one = result(first, *[y, x][:n1])
    got = result(second, *([x, y] if h.bool('same') else [a(), b()])[:n2])
    h.check(lambda: alike(got, want), 'a result depends on an earlier call', 'result')
    h.check(lambda: alike(before, [view(x), view(y)]), 'an operand was changed', 'operand')
    again = result(first, *[y, x][:n1])
    h.check(lambda: alike(one, again), 'a call repeated has another result', 'repeated')
    h.reach(want[0])


def everything(y, x):
    return ([result(f, *[y, x][:n]) for name, f, n in OPS] +
            [result(f, x, y) for name, f, n in OPS if n == 2])


def one_call(h):
    """what a call returns is the same after the same call on other types"""
    name, f, n = h.pick('first', OPS)
    history(h, f, f, n, n, True)


def two_calls(h):
    """what a call returns is the same after any other calls on the same types"""
    name, second, n2 = h.pick('second', OPS)
    first, n1 = everything, 2
    if h.bound(False, True) and h.bool('single'):
        name, first, n1 = h.pick('first', OPS)
    history(h, first, second, n1, n2, False)


TEXTS = ['int%s', '%s', '%s * int8', '{%s: int8}', '?%s', '"%s', 'string[%s]', '(%s)', 'T * %s8',
         "datetime[tz='a%sb']", '%s... * int8']


def texts(h):
    """a text is read alike after any other text, be it refused or accepted"""
    def text(p):
        a, b = h.pick(p, TEXTS).split('%s')
        return h.join([a, h.text(p + '.c', 0, 1, ((32, 32), (48, 50), (63, 66), (91, 93), (97, 98))), b])
    s, t = text('s'), text('t')
    h.reset()
    want = result(ds.dshape, t)
    h.reset()
    one = result(ds.dshape, s)
    if h.bool('twice'):
        result(ds.dshapes, t, s)
    h.check(lambda: alike(result(ds.dshape, t), want), 'a text is read differently later', 'result')
    h.check(lambda: alike(result(ds.dshape, s), one), 'a text read again differs', 'repeated')
    h.reach(want[0])


def datum(h, p, depth):
    k = h.choice(p + '.k', 10 if depth else 6)
    if k == 0:
        return h.int(p + '.n', -1, 2)
    if k == 1:
        return h.bool(p + '.b')
    if k == 2:
        return [0.0, 1.0, 2.0, -1.0][h.choice(p + '.f', 4)]
    if k == 3:
        return h.text(p + '.s', 0, 1, ((48, 50), (97, 98)))
    if k == 4:
        return None
    if k == 5:
        return b'a'
    x = datum(h, p + '.x', depth - 1)
    y = datum(h, p + '.y', 0) if h.bool(p + '.two') else None
    if k == 6:
        return [x] if y is None else [x, y]
    if k == 7:
        return (x,) if y is None else (x, y)
    if k == 8:
        return {'a': x} if y is None else {'a': x, 'b': y}
    return [{'a': x}] if y is None else [{'a': x}, {'a': y}]


def values(h):
    """a value is discovered and validated alike after any other value"""
    v, w = datum(h, 'v', h.bound(0, 1)), datum(h, 'w', 1)
    t = h.pick('t', [CT.int64, CT.Option(CT.string), CT.Record([('a', CT.float64)])])
    h.reset()
    want = [result(ds.discover, w), result(ds.validate, t, w)]
    h.reset()
    one = [result(ds.discover, v), result(ds.validate, t, v)]
    h.check(lambda: alike([result(ds.discover, w), result(ds.validate, t, w)], want),
            'a value is judged differently later', 'result')
    h.check(lambda: alike([result(ds.discover, v), result(ds.validate, t, v)], one),
            'a value judged again differs', 'repeated')
    h.reach(want[0][0])


ATOMS = [0, 1, False, True, 0.0, 1.0, '0', '1', 'A', None]
MAKERS = [
    lambda v: CT.Categorical([v]),
    lambda v: CT.Categorical([v, 7]),
    lambda v: CT.Categorical(['x', v], ordered=True),
    lambda v: CT.Categorical((v,), CT.Option(CT.string)),
    lambda v: CT.Decimal(3, v),
    lambda v: CT.Decimal(v),
    lambda v: CT.String(v),
    lambda v: CT.String(5, v),
    lambda v: CT.Fixed(v),
    lambda v: CT.Time(v),
    lambda v: CT.DateTime(v),
    lambda v: CT.Units(v),
    lambda v: CT.TimeDelta(v),
    lambda v: CT.TypeVar(v),
    lambda v: CT.Ellipsis(v),
    lambda v: CT.Record([(v, CT.int8)]),
    lambda v: CT.R[v:CT.int8],
    lambda v: ds.dshape([v, CT.int8]),
    lambda v: v * CT.DataShape(CT.int8),
    lambda v: CT.DataShape(CT.Fixed(3), CT.int8).subshape[v],
    lambda v: ds.from_numpy((v,), np.dtype('int8')),
    lambda v: ds.discover([v]),
    lambda v: ds.discover([[v, v], [v, 7]]),
    lambda v: ds.discover({'a': v}),
    lambda v: ds.discover(frozenset([v])),
    lambda v: ds.validate(CT.DataShape(CT.Var(), CT.int64), [v]),
    lambda v: ds.dshape('2 * {a: 3 * int8}').subarray(v),
]


def constructed(h):
    """what is made of a parameter does not depend on an equal parameter of another kind that was
    used before"""
    f = h.pick('f', MAKERS)
    v, w = h.pick('v', ATOMS), h.pick('w', ATOMS)
    h.reset()
    want = result(f, w)
    h.reset()
    one = result(f, v)
    h.check(lambda: alike(result(f, w), want), 'a type depends on one made before', 'result')
    h.check(lambda: alike(result(f, v), one), 'a type made again differs', 'repeated')
    h.reach(want[0])


def shared(h):
    """types share no container with their user"""
    c, d = h.char('c', LOWER), h.char('d', LOWER)
    n = h.int('n', 0, 99)
    k = h.choice('k', 6)
    if k == 0:
        arg = [(c, CT.int8), ('Z', CT.string)]
        x = CT.Record(arg)
    elif k == 1:
        arg = [[c, CT.int8], ['Z', CT.string]]
        x = CT.Record(arg)
    elif k == 2:
        arg = [CT.int8, CT.DataShape(CT.Fixed(n), CT.string)]
        x = CT.Tuple(arg)
    elif k == 3:
        arg = [c, 'Z']
        x = CT.Categorical(arg)
    elif k == 4:
        arg = [n, 100]
        x = CT.Categorical(arg)
    else:
        arg = [n, CT.Var(), CT.int8]
        x = ds.dshape(arg)
    before, code, text = view(x), hash(x), str(x)
    how = h.choice('how', 4)
    if how == 0:
        arg.append(arg[0])
    elif how == 1:
        arg.reverse()
    elif how == 2:
        del arg[:]
    elif k == 1:
        arg[0][0] = d
        arg[1][1] = CT.date_
    else:
        arg[0] = arg[1]
    h.check(lambda: alike(view(x), before) and hash(x) == code and str(x) == text,
            'a type changes with the list it was made from', 'argument')
    if k < 2:
        e = x.dict
        e[d] = CT.date_
        e.pop(c, None)
        for y in (x.names, x.types):
            if isinstance(y, list):
                y.append(y[0])
                y.reverse()
        h.check(lambda: alike(view(x), before) and hash(x) == code and str(x) == text and
                x.names == [c, 'Z'] and sorted(x.dict) == sorted([c, 'Z']) and
                x.dict['Z'] == CT.string and x[c] == CT.int8,
                'a type changes with what it told about itself', 'results')
    h.reach('done')


constructed.reach = texts.reach = values.reach = ['value', 'error']
shared.reach = ['done']
one_call.reach = two_calls.reach = ['value', 'error']
REALIZE_FLIPS = 8


def handed(h):
    """a list, dict or pair of some length, and a function of it"""
    n = h.choice('n', h.bound(5, 7)) + 1
    at = h.choice('at', n)
    c = h.char('c', LOWER)
    x = h.int('x', -9, 9)
    k = h.choice('k', 16)
    if k == 0:
        return [CT.Fixed(3)] * (n - 1) + [CT.int8], ds.dshape
    if k == 1:
        return [x] + [2] * (n - 1) + [CT.int8], ds.dshape
    if k == 2:
        a = [CT.DataShape(CT.Fixed(i), CT.int8) for i in range(n)]
        a[at] = CT.DataShape(CT.Fixed(x + 9), CT.int8 if h.bool('ok') else CT.string)
        return a, ds.util.cat_dshapes
    if k == 3:
        a = [i for i in range(n)]
        a[at] = [x, 1.5, c, None, True][h.choice('odd', 5)]
        return a, [ds.discover, lambda y: ds.validate(CT.DataShape(CT.Fixed(n), CT.int64), y)][h.choice('f', 2)]
    if k == 4:
        a = [{'p': i, 'q': 'w'} for i in range(n)]
        a[at] = [{'q': 'w'}, {'p': None, c: 1}, {c: x, 'q': 'w', 'p': 1}, {}, None][h.choice('odd', 5)]
        return a, [ds.discover, lambda y: ds.validate(ds.dshape('var * {p: int64, q: string}'), y)][h.choice('f', 2)]
    if k == 5:
        a = [[i, 'w'] for i in range(n)]
        a[at] = [[x, None], [c, 1], [1], None, []][h.choice('odd', 5)]
        return a, [ds.discover, lambda y: ds.validate(ds.dshape('var * (int64, string)'), y)][h.choice('f', 2)]
    if k == 6:
        a = {chr(65 + i): i for i in range(n)}
        a[c] = [x]
        return a, [ds.discover, lambda y: ds.validate(ds.dshape('{A: int64}'), y)][h.choice('f', 2)]
    names = [chr(65 + i) for i in range(n)]
    names[at] = c
    pairs = [[m, CT.int8] for m in reversed(names)]
    kinds = [CT.int8, CT.DataShape(CT.Fixed(3), CT.float64), CT.Option(CT.int32), CT.string, CT.int64, CT.int8, CT.date_]
    if k == 7:
        return pairs, [CT.Record, lambda p: ds.promote(CT.Record(p), CT.Record(p))][h.choice('f', 2)]
    if k == 8:
        return kinds[:n], [CT.Tuple, lambda p: CT.Function(*p), CT.Option][h.choice('f', 3)]
    if k == 9:
        return names, [CT.Categorical, lambda p: ds.validate(CT.Record([(c, CT.int8)]), p)][h.choice('f', 2)]
    if k == 10:
        return kinds[:n], [lambda p: ds.typesets.matches_typeset(p, ds.typesets.TypeSet(CT.int8)),
                           lambda p: list(ds.util.collect(ds.isscalar, p)),
                           lambda p: ds.util.has(CT.Option, p), lambda p: ds.dshapes(*p),
                           ds.discovery.unite_identical, ds.discovery.unite_base,
                           ds.discovery.unite_merge_dimensions,
                           ds.discovery.do_one([ds.discovery.unite_identical, ds.discovery.unite_base]),
                           lambda p: ds.discovery.lowest_common_dshape(p)][h.choice('f', 9)]
    if k == 11:
        return [at + 1] * n, [lambda p: ds.from_numpy(p, np.dtype('int8')),
                              lambda p: ds.from_numpy(p, np.dtype([('a', 'int8')]))][h.choice('f', 2)]
    if k == 12:
        return [(lambda m: m > 0), (lambda m: True)], lambda p: ds.util.collect(p[0], CT.int8) and 0
    if k == 13:
        return [[[i, c] for i in range(n)]] * 2, ds.discover
    if k == 14:
        a = [(i, [i, {'k': i}]) for i in range(n)]
        a[at] = (x, [c, {'k': None}])
        return a, ds.discover
    return [[pairs, CT.Record([(m, CT.int8) for m in names])], [1, 2]], lambda p: ds.validate(p[0][1], p[1])


def arguments(h):
    """no call changes a list or a dict it is given, at any depth, nor answers otherwise when called
    with it again"""
    a, f = handed(h)
    before = view(a)
    inner = list(a.items() if isinstance(a, dict) else a)
    one = result(f, a)
    h.check(lambda: alike(view(a), before), 'a call changes what it was given', 'argument')
    now = list(a.items() if isinstance(a, dict) else a)
    if not isinstance(a, dict):
        h.check(lambda: len(now) == len(inner) and all(p is q for p, q in zip(now, inner)),
                'a call exchanges an item of what it was given', 'items')
    h.check(lambda: alike(result(f, a), one), 'a call repeated has another result', 'repeated')
    h.reach(one[0])


arguments.reach = ['value', 'error']


HARNESSES = [one_call, two_calls, texts, values, constructed, shared, arguments]
