"""C10: dimensions compose in front of a measure and come off again"""
N = 10 ** 20


def measures():
    return [CT.int32, CT.string, CT.Option(CT.float64), CT.Record([('a', CT.int8)]),
            CT.Tuple([CT.int8, CT.Var() * CT.date_]), CT.Map(CT.int8, CT.string),
            CT.TypeVar('T'), CT.json, CT.Decimal(3, 1), CT.Units('m'),
            CT.Categorical(['a'], CT.string), CT.null, CT.Function(CT.int8, CT.int8)]


MEASURES = measures()


def as_operand(h, name, d):
    """a fixed dimension may be given as an integer, any dimension as an object"""
    if type(d) is CT.Fixed and h.bool(name + '.int'):
        return d.val
    return d


def check_shape(h, x, dims, m, what):
    h.check(type(x) is CT.DataShape, what + ': a datashape')
    h.check(len(x.shape) == len(dims) and len(x) == len(dims) + 1, what + ': rank')
    for i, d in enumerate(dims):
        h.check(lambda: same(x.shape[i], d) and same(x[i], d), what + ': dimensions in order')
    h.check(lambda: same(x.measure, m) and same(x[-1], m), what + ': measure')
    ps = list(dims) + [m]
    h.check(lambda: same(list(x), ps) and same(list(reversed(list(x))), ps[::-1]),
            what + ': iteration')
    for i in range(len(ps)):
        h.check(lambda: same(list(x[i:]), ps[i:]) and same(list(x[:i]), ps[:i]) and
                same(x[i - len(ps)], ps[i]), what + ': parts')


def product(h):
    """d1 * (d2 * (... * m)) is the datashape of these dimensions, in every grouping"""
    n = 1 + h.choice('n', h.bound(3, 4))
    e = h.choice('e', n + 1)  # at most one wildcard, at any place
    dims = [gen_dim(h, 'd%d' % i, 'e' if i == e else 'fvt') for i in range(n)]
    m = h.pick('m', MEASURES)
    x = m
    for i in reversed(range(n)):
        x = as_operand(h, 'o%d' % i, dims[i]) * x
        check_shape(h, x, dims[i:], m, 'product')
    y = CT.DataShape(*dims + [m])
    h.check(lambda: same(x, y), 'product and constructor differ')
    # a datashape of dimensions and measure, prolonged at once
    j = h.choice('j', n)
    inner = CT.DataShape(*dims[j:] + [m])
    z = inner
    for d in reversed(dims[:j]):
        z = d * z
    check_shape(h, z, dims, m, 'prolonged')
    check_shape(h, inner, dims[j:], m, 'operand changed')
    check_shape(h, ds.dshape(dims + [m]), dims, m, 'from a list')
    h.reach('done')


def text_operands(h):
    """operands may be given as text"""
    n = h.int('n', 0, N)
    t, m = h.pick('t', [('int32', CT.int32), ('?string', CT.Option(CT.string)),
                        ('{a: int8}', CT.Record([('a', CT.int8)])), ('json', CT.json)])
    d = gen_dim(h, 'd')
    check_shape(h, d * t, [d], m, 'dimension times text')
    check_shape(h, d * h.join([str(n), ' * ', t]), [d, CT.Fixed(n)], m, 'dimension times text')
    check_shape(h, CT.DataShape(d, t), [d], m, 'constructor with text')
    check_shape(h, t * d, [d], m, 'text times dimension')
    check_shape(h, h.join([str(n), ' * ', t]) * d, [d, CT.Fixed(n)], m, 'text times dimension')
    check_shape(h, CT.DataShape(n, d, t), [CT.Fixed(n), d], m, 'constructor with integer')
    h.reach('done')


def subarrays(h):
    """subarray(k) removes the k leading dimensions"""
    n = h.choice('n', h.bound(4, 5))
    dims = [gen_dim(h, 'd%d' % i, 'fvt') for i in range(n)]
    m = h.pick('m', MEASURES[:4])
    x = CT.DataShape(*dims + [m])
    k = h.choice('k', n + 2)
    if k > n:
        e = raised(lambda: x.subarray(k), IndexError)
        h.check(e is not None, 'more dimensions removed than there are')
        e = raised(lambda: m.subarray(k - n), IndexError)
        h.check(e is not None, 'a measure has no dimensions')
        h.reach('too many')
        return
    check_shape(h, x.subarray(k), dims[k:], m, 'subarray')
    y = x.subarray(k)
    for d in reversed(dims[:k]):
        y = d * y
    h.check(lambda: same(x, y) and x == y, 'dimensions put back')
    check_shape(h, x, dims, m, 'operand changed')
    h.check(m.subarray(0) is m, 'nothing removed from a measure')
    if k + 1 <= n:
        h.check(lambda: same(x.subarray(k).subarray(1), x.subarray(k + 1)), 'in two steps')
    h.reach('done')


def wrong_places(h):
    """a dimension cannot be last, a measure not in front"""
    n = h.choice('n', h.bound(2, 3))
    dims = [gen_dim(h, 'd%d' % i, 'fv') for i in range(n)]
    m = h.pick('m', [x for x in EVERY if not isinstance(x, CT.TypeVar)] +
               [CT.DataShape(CT.Fixed(2), CT.int8), CT.Option(CT.DataShape(CT.Var(), CT.int8))])
    last = gen_dim(h, 'last', 'fv')
    e = raised(lambda: CT.DataShape(*dims + [last]), TypeError)
    h.check(e is not None, 'a dimension as measure')
    e = raised(lambda: CT.DataShape(*dims + [m, CT.int32]), TypeError)
    h.check(e is not None, 'a measure in front')
    dots = CT.Ellipsis(CT.TypeVar('A')) if h.bool('named') else CT.Ellipsis()
    e = raised(lambda: ds.dshape(dims + [dots]), TypeError)
    h.check(e is not None, 'a wildcard as measure')
    i = h.choice('i', n + 1)
    e = raised(lambda: CT.DataShape(*dims[:i] + [m] + dims[i:] + [CT.int32]), TypeError)
    h.check(e is not None, 'a measure between dimensions')
    e = raised(lambda: m * CT.int32, TypeError)
    h.check(e is not None, 'a measure times a measure')
    v = h.int('v', -N, -1)
    e = raised(lambda: CT.Fixed(v), ValueError)
    h.check(e is not None, 'a negative extent')
    e = raised(lambda: CT.DataShape(v, CT.int8), ValueError)
    h.check(e is not None, 'a negative extent')
    e = raised(lambda: CT.DataShape(), ValueError)
    h.check(e is not None, 'nothing')
    h.reach('done')


def fixed_numbers(h):
    """a fixed dimension is its extent"""
    n, k = h.int('n', 0, N), h.int('k', -5, N)
    f = CT.Fixed(n)
    h.check(lambda: f.val == n and int(f) == n and f.__index__() == n, 'value')
    h.check(lambda: (f == k) == (n == k) and (f != k) == (n != k), 'comparison with integers')
    h.check(lambda: (f == CT.Fixed(abs(k))) == (n == abs(k)), 'comparison')
    h.check(lambda: same(CT.Fixed(f), f), 'a dimension of a dimension')
    for w in (None, 'a', 1.5, []):
        h.check(raised(lambda: CT.Fixed(w), TypeError, ValueError) is not None, 'not an extent')
    h.reach('done')


for f in (product, text_operands, wrong_places, fixed_numbers):
    f.reach = ['done']
subarrays.reach = ['done', 'too many']
def every_measure(h):
    """whatever the measure is"""
    m = any_leaf(h, 'm')
    dims = [gen_dim(h, 'd%d' % i, 'fvt') for i in range(1 + h.choice('n', 2))]
    x = m
    for i, d in enumerate(reversed(dims)):
        x = as_operand(h, 'o%d' % i, d) * x
    check_shape(h, x, dims, m, 'product')
    check_shape(h, CT.DataShape(*dims + [m]), dims, m, 'constructor')
    check_shape(h, ds.dshape(dims + [m]), dims, m, 'from a list')
    if not isinstance(m, CT.Record):
        check_shape(h, dims[0] * str(m), dims[:1], m, 'with text')
    check_shape(h, x.subarray(len(dims)), [], m, 'subarray')
    check_shape(h, x.subarray(1), dims[1:], m, 'subarray')
    h.check(m.measure is m and len(m.shape) == 0, 'the measure alone')
    for y in CT.Option(x), CT.Option(CT.Option(x)):
        h.check(lambda: same(list(y.shape), dims), 'the shape of an option')
    h.reach('done')



every_measure.reach = ['done']


def long(h):
    """many dimensions"""
    n, j = long_place(h, 'x', (6, 9, 17), 10)
    dims = [CT.Fixed(q + 2) for q in range(n)]
    dims[j] = gen_dim(h, 'd', 'fvte')
    m = h.pick('m', MEASURES[:4]) if h.tier != 'quick' else MEASURES[j % 4]
    x = m
    for i, d in enumerate(reversed(dims)):
        x = as_operand(h, 'o', d) * x if i == n - 1 - j else d * x
    check_shape(h, x, dims, m, 'product')
    check_shape(h, CT.DataShape(*dims + [m]), dims, m, 'constructor')
    check_shape(h, ds.dshape(dims + [m]), dims, m, 'from a list')
    check_shape(h, ds.dshape(str(x)), dims, m, 'from text')
    check_shape(h, x.subarray(j), dims[j:], m, 'subarray')
    check_shape(h, x.subarray(n), [], m, 'subarray')
    check_shape(h, CT.Var() * x, [CT.Var()] + dims, m, 'prolonged')
    h.check(raised(lambda: x.subarray(n + 1), IndexError) is not None,
            'more dimensions removed than there are')
    for bad in EVERY[::h.bound(7, 1)]:
        h.check(isinstance(bad, CT.TypeVar) or
                raised(lambda: CT.DataShape(*dims[:j] + [bad] + dims[j + 1:] + [m]), TypeError)
                is not None, 'a measure between dimensions')
    h.reach('done')


long.reach = ['done']


HARNESSES = [product, text_operands, subarrays, wrong_places, fixed_numbers, every_measure, long]
