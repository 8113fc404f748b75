"""C09: concatenation adds the leading extents and nothing else"""
N = 10 ** 20


def rest(h, p, kinds='fv', most=2):
    n = h.choice(p + 'r', most + 1)
    dims = [gen_dim(h, '%s%d' % (p, i), kinds) for i in range(n)]
    m = h.pick(p + 'm', [CT.int32, CT.Option(CT.string), CT.Record([('a', CT.int8)]),
                         CT.Tuple([CT.int32, CT.date_])])
    return dims + [m]


def matching(h):
    """datashapes that differ in the leading extent only"""
    k = 1 + h.choice('k', h.bound(4, 6))
    tail = rest(h, 'x')
    ns = [h.int('n%d' % i, 0, N) for i in range(k)]
    xs = [CT.DataShape(*[CT.Fixed(n)] + tail) for n in ns]
    got = ds.cat_dshapes(xs)
    want = CT.DataShape(*[CT.Fixed(sum(ns))] + tail)
    h.check(lambda: same(got, want), 'concatenation')
    h.check(lambda: got[0].val == sum(ns), 'leading extent')
    for x, n in zip(xs, ns):
        h.check(lambda: same(x, CT.DataShape(*[CT.Fixed(n)] + tail)), 'operand changed')
    h.check(len(xs) == k, 'operand list changed')
    # in parts, and in another order
    if k > 1:
        j = 1 + h.choice('j', k - 1)
        parts = ds.cat_dshapes([ds.cat_dshapes(xs[:j]), ds.cat_dshapes(xs[j:])])
        h.check(lambda: same(parts, got), 'concatenation in parts')
        h.check(lambda: same(ds.cat_dshapes(xs[::-1]), got), 'concatenation in another order')
    h.reach('done')


def mismatching(h):
    """a difference behind the leading dimension is refused, whichever operand has it"""
    k = 2 + h.choice('k', 2)
    j = h.choice('j', k)
    tail, other = rest(h, 'x', 'sv', h.bound(1, 2)), rest(h, 'y', 'sv')
    differ = not same(tail, other)
    xs = [CT.DataShape(*[CT.Fixed(h.int('n%d' % i, 0, N))] + (other if i == j else tail))
          for i in range(k)]
    e = raised(lambda: ds.cat_dshapes(xs), ValueError)
    if differ:
        h.check(e is not None, 'a mismatch is accepted')
        h.reach('refused')
    else:
        h.check(e is None, 'equal tails are refused')
        h.reach('accepted')


def unknown_extent(h):
    """a leading dimension of unknown extent is refused, wherever it is"""
    k = 2 + h.choice('k', 2)
    j = h.choice('j', k)
    m = h.pick('m', [CT.int8, CT.Record([('a', CT.int8)]), CT.Option(CT.string)])
    tail = [CT.Fixed(3)] * h.choice('t', 2) + [m]
    d = h.pick('d', [CT.Var(), CT.TypeVar('N'), CT.Ellipsis(), CT.Ellipsis(CT.TypeVar('A')), None])
    odd = CT.DataShape(m) if d is None else CT.DataShape(d, *tail)
    # one of them, or all of them
    every = h.bool('every')
    xs = [odd if every or i == j else CT.DataShape(CT.Fixed(h.int('n%d' % i, 0, N)), *tail)
          for i in range(k)]
    e = raised(lambda: ds.cat_dshapes(xs), TypeError, ValueError)
    h.check(e is not None, 'an unknown extent is accepted')
    got = ds.cat_dshapes([odd])
    h.check(lambda: same(got, odd), 'one operand')
    e = raised(lambda: ds.cat_dshapes([]), ValueError)
    h.check(e is not None, 'nothing to concatenate')
    h.reach('done')


matching.reach = ['done']
mismatching.reach = ['refused', 'accepted']
unknown_extent.reach = ['done']
def every_measure(h):
    """whatever the elements are, they are kept, and no others are accepted"""
    n, m = h.int('n', 0, N), h.int('m', 0, N)
    e = any_part(h, 'x', 1)
    x, y = CT.DataShape(CT.Fixed(n), *e), CT.DataShape(CT.Fixed(m), *e)
    got = ds.cat_dshapes([x, y])
    h.check(lambda: same(got, CT.DataShape(CT.Fixed(n + m), *e)), 'concatenation')
    for o in EVERY:
        z = CT.DataShape(CT.Fixed(m), *list(e.shape) + [o])
        if not same(o, e.measure):
            h.check(raised(lambda: ds.cat_dshapes([x, z]), ValueError) is not None and
                    raised(lambda: ds.cat_dshapes([z, x]), ValueError) is not None and
                    raised(lambda: ds.cat_dshapes([x, y, z]), ValueError) is not None,
                    'other elements are accepted')
    h.check(raised(lambda: ds.cat_dshapes([x, CT.DataShape(*e)]), TypeError, ValueError) is not None
            if len(e) == 1 else True, 'elements alone are accepted')
    h.reach('done')



every_measure.reach = ['done']


def long(h):
    """many operands of many dimensions, one of which may be odd"""
    k, j = long_place(h, 'x')
    r, i = long_place(h, 'y')
    tail = [CT.Fixed(q + 2) for q in range(r)] + [CT.int32]
    d = gen_dim(h, 'd', 'fvt')
    n = h.int('n', 0, N)
    xs = [CT.DataShape(CT.Fixed(n if q == j else 10 ** q), *tail) for q in range(k)]
    got = ds.cat_dshapes(xs)
    want = CT.DataShape(CT.Fixed(n + sum([10 ** q for q in range(k) if q != j])), *tail)
    h.check(lambda: same(got, want), 'concatenation')
    other = tail[:i] + [d] + tail[i + 1:]
    zs = xs[:j] + [CT.DataShape(CT.Fixed(n), *other)] + xs[j + 1:]
    e = raised(lambda: ds.cat_dshapes(zs), ValueError)
    h.check((e is None) == same(d, tail[i]), 'a mismatch is accepted')
    o = gen_dim(h, 'o', 'vte')
    zs = xs[:j] + [CT.DataShape(o, *tail)] + xs[j + 1:]
    e = raised(lambda: ds.cat_dshapes(zs), TypeError, ValueError)
    h.check(e is not None, 'an unknown extent is accepted')
    zs = xs[:j] + [CT.DataShape(*tail)] + xs[j + 1:]
    e = raised(lambda: ds.cat_dshapes(zs), ValueError)
    h.check(e is not None, 'a missing dimension is accepted')
    h.reach('done')


long.reach = ['done']


HARNESSES = [matching, mismatching, unknown_extent, every_measure, long]
