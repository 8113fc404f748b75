"""C07: types are rebuilt from their parameters and survive pickling"""
LEAVES = ['int32', 'ctype', 'string', 'decimal', 'timedelta', 'time', 'datetime', 'units',
          'typevar']


def rebuild(x):
    if isinstance(x, CT.CType):
        return x                   # the one object per name, not made for reconstruction
    return type(x)(*x.parameters)


def check_copy(h, x, y, what):
    h.check(type(x) is type(y), what + ': another class', what)
    h.check(lambda: same(x, y, True), what + ': another structure', what)
    h.check(lambda: x == y and y == x and not x != y, what + ': not equal', what)
    h.check(lambda: hash(x) == hash(y), what + ': another hash', what)
    h.check(lambda: str(x) == str(y), what + ': prints differently', what)
    for a in ('composite', 'cls', 'itemsize', 'alignment'):
        v, w = [getattr(t, a, None) if a != 'itemsize' or isinstance(t, CT.CType) else None
                for t in (x, y)]
        h.check(lambda: v == w, what + ': another ' + a, what)
    h.check(lambda: list(x.shape) == list(y.shape) and len(x) == len(y), what + ': dimensions',
            what)


def both(h, x):
    used = h.bool('used')
    if used:
        hash(x), str(x), x == x    # whatever is cached must not leak into the copies
    check_copy(h, x, rebuild(x), 'rebuilt')
    check_copy(h, x, h.pickle(x), 'pickled')
    check_copy(h, x, h.pickle(rebuild(x)), 'rebuilt and pickled')
    h.reach('used' if used else 'fresh')


def scalars(h):
    """scalars with any contents"""
    x = gen_leaf(h, 'x', LEAVES)
    both(h, CT.DataShape(x) if h.bool('wrap') else x)


def dims(h):
    """any dimensions, alone and in front of a measure"""
    ds_ = [gen_dim(h, 'd%d' % i) for i in range(1 + h.choice('n', h.bound(2, 3)))]
    if h.bool('alone'):
        for d in ds_:
            check_copy(h, d, rebuild(d), 'rebuilt')
            check_copy(h, d, h.pickle(d), 'pickled')
    both(h, CT.DataShape(*ds_ + [CT.int8]))


def nested(h):
    """composite types of any kind"""
    d = h.bound(1, 2)
    x = gen_measure(h, 'x', d, ['int32'], ['option', 'tuple', 'record', 'map',
                                                     'function', 'units'], 'sv')
    both(h, x)


def records(h):
    """records with any field names, in any order"""
    n = h.choice('n', 4)
    names = [h.text('f%d' % i, 0, 1, UNICODE) for i in range(n)]
    for i in range(n):
        for j in range(i):
            h.assume(names[i] != names[j])
    both(h, CT.Record([(s, [CT.int8, CT.string, CT.Var() * CT.date_][i])
                       for i, s in enumerate(names)]))


def categoricals(h):
    """categories of either type"""
    k = h.choice('k', 3)
    if k == 0:
        cs = [h.text('c%d' % i, 0, 1, UNICODE) for i in range(1 + h.choice('n', 2))]
        t = CT.string
    else:
        cs = [h.int('c%d' % i, -99, 99) for i in range(1 + h.choice('n', 2))]
        t = CT.int64
    x = CT.Categorical(cs, t if k else h.pick('t', [CT.string, CT.json]), h.bool('o'))
    both(h, x)


def inside(h):
    """a copied type takes part in other types like the original"""
    x = gen_leaf(h, 'x', ['int32', 'string', 'decimal', 'datetime'])
    y = h.pickle(x) if h.bool('pickled') else rebuild(x)
    n = h.int('n', 0, 10 ** 6)
    for f in (lambda t: CT.DataShape(CT.Fixed(n), t), lambda t: CT.Option(t),
              lambda t: CT.Record([('a', t)]), lambda t: CT.Tuple([t, CT.int8]),
              lambda t: n * t):
        a, b = f(x), f(y)
        check_copy(h, a, b, 'composed')
        h.check(lambda: same(ds.dshape(str(b)), a), 'a copy prints like the original', 'text')
    h.reach('done')


def components(h):
    """every type as every part of every other"""
    f = any_whole(h, 'x')
    x = f(any_part(h, 'x', 1 if f is not WHOLES[-1] else 0))
    check_copy(h, x, rebuild(x), 'rebuilt')
    check_copy(h, x, h.pickle(x), 'pickled')
    h.reach('done')


components.reach = ['done']
scalars.reach = dims.reach = nested.reach = records.reach = categoricals.reach = ['used', 'fresh']
inside.reach = ['done']


def many(h):
    """types of many parts, dimensions and levels"""
    k, dims, j, x = long_type(h, 'x', dims='fvte')
    check_copy(h, x, rebuild(x), 'rebuilt')
    check_copy(h, x, h.pickle(x), 'pickled')
    n = len(dims)
    cs = list(range(n))
    cs[j] = h.int('c', 100, 999)
    y = CT.Categorical(cs, CT.int64, h.bool('o'))
    check_copy(h, y, rebuild(y), 'rebuilt')
    check_copy(h, y, h.pickle(y), 'pickled')
    h.reach('done')


many.reach = ['done']


HARNESSES = [scalars, dims, nested, records, categoricals, inside, components, many]
