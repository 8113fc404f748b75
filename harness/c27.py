"""C27: the representation of a type tells its class and every parameter"""
SLOTS = [('Fixed', ['val']), ('Time', ['tz']), ('DateTime', ['tz']), ('TimeDelta', ['unit']),
         ('Units', ['unit', 'tp']), ('Decimal', ['precision', 'scale']), ('TypeVar', ['symbol']),
         ('Option', ['ty']), ('Map', ['key', 'value']), ('Var', []), ('Date', []), ('Null', []),
         ('JSON', []), ('Bytes', [])]


def rep(h, t):
    """the representation, spelled out"""
    c = type(t).__name__
    if isinstance(t, (CT.CType, CT.String)):
        return h.join(['ctype("', str(t), '")'])
    if isinstance(t, (CT.DataShape, CT.Record, CT.Tuple)):
        s = CT.pprint(t) if not isinstance(t, CT.Tuple) else str(t)
        q = '"""' if '\n' in s else '"'
        return h.join(['dshape(', q, s, q, ')'])
    if isinstance(t, CT.Ellipsis):
        return h.join(["Ellipsis('", t.typevar.symbol if t.typevar is not None else '', "...')"])
    if isinstance(t, CT.Categorical):
        return h.join(['Categorical(categories=[', h.join(commas([repr(c) for c in t.categories])),
                       '], type=', rep(h, t.type), ', ordered=', str(t.ordered), ')'])
    if isinstance(t, CT.Function):
        return h.join(['Function('] + commas([rep(h, p) for p in t.parameters]) + [')'])
    for name, slots in SLOTS:
        if c == name:
            return h.join([c, '('] + commas([h.join([k, '=', value(h, getattr(t, k))])
                                             for k in slots]) + [')'])
    raise ValueError(c)


def value(h, x):
    return rep(h, x) if isinstance(x, CT.Mono) else repr(x)


def commas(xs):
    out = []
    for i, x in enumerate(xs):
        out.extend([', ', x] if i else [x])
    return out


ALPHA = ((32, 33), (35, 38), (40, 91), (93, 126))


def leaves(h):
    """types without components"""
    k = h.choice('k', 12)
    n, m = h.int('n', 0, 10 ** 6), h.int('m', -99, 99)
    s = h.text('s', 0, 2, ALPHA) if k in (3, 4, 5) else ''
    t = [lambda: CT.Fixed(n), lambda: CT.Decimal(n, m), lambda: CT.TimeDelta(h.pick('u', ['ns', 'D'])),
         lambda: CT.Time(s), lambda: CT.DateTime(s), lambda: CT.Units(s),
         lambda: CT.TypeVar(h.char('v', UPPER)), lambda: CT.Ellipsis(CT.TypeVar(h.char('v', UPPER))),
         lambda: CT.String(n, h.pick('e', ['A', 'U8', 'U16'])),
         lambda: getattr(CT, h.pick('c', SIMPLE)), lambda: CT.Var(),
         lambda: CT.Categorical([h.char('v', LOWER), 'Z'] if h.bool('str') else [n, -1], None,
                                h.bool('ordered'))][k]()
    h.check(lambda: repr(t) == rep(h, t), 'the representation')
    h.check(lambda: repr(CT.Option(t)) == h.join(['Option(ty=', rep(h, t), ')'])
            if k not in (0, 7, 10) else True, 'inside an option')
    h.reach('k%d' % k)


def composites(h):
    """types with components, and the text inside reads back"""
    x = gen_nest(h, 'x', h.bound(2, 3), ['option', 'record', 'map', 'function', 'tuple', 'units'],
                 h.pick('leaf', [CT.int32, CT.TypeVar('T'), CT.TimeDelta('ns')]), h.bound('sv', 'fv'))
    for t in (x, x.measure):
        r = repr(t)
        h.check(lambda: r == rep(h, t), 'the representation')
    r = repr(x)
    q = 3 if r[7:10] == '"""' else 1
    s = r[7 + q:-1 - q]
    h.check(lambda: same(ds.dshape(s), x), 'the text inside')
    h.reach('done')


def tuples(h):
    """tuples and records print as datashapes, in one line or several"""
    n = h.choice('n', h.bound(9, 14))
    t = h.pick('t', [CT.int8, CT.datetime_, CT.Option(CT.string)])
    ts = [t] * n
    x = CT.Tuple(ts) if h.bool('tuple') else CT.Record([('f%d' % i, t) for i in range(n)])
    d = CT.DataShape(CT.Fixed(h.int('n0', 0, 999)), *[CT.Var()] * h.choice('more', 3) + [x])
    for y in (x, d):
        h.check(lambda: repr(y) == rep(h, y), 'the representation')
    h.reach('long' if '\n' in repr(d) else 'short')


leaves.reach = ['k%d' % i for i in range(12)]
composites.reach = ['done']
tuples.reach = ['long', 'short']


def names(h):
    """names and texts of any printable characters inside"""
    a, b = two_names(h, 'f', h.bound(1, 2))
    x = CT.Record([(a, CT.int8), (b, CT.Time(b))])
    for t in (x, CT.DataShape(CT.Var(), x), CT.Tuple([x, CT.Units(a)])):
        h.check(lambda: repr(t) == rep(h, t), 'the representation')
    h.reach('done')


names.reach = ['done']
def every_part(h):
    """every type as every part of every other"""
    f = any_whole(h, 'x')
    x = f(any_part(h, 'x', 1 if f is not WHOLES[-1] else 0))
    for t in (x, CT.DataShape(CT.Fixed(3), *(x if isinstance(x, CT.DataShape) else [x]))):
        h.check(lambda: repr(t) == rep(h, t), 'the representation')
    h.reach('done')



every_part.reach = ['done']


def many(h):
    """types of many parts and levels"""
    k, dims, j, x = long_type(h, 'x', dims='svt')
    for t in (x, x.measure):
        h.check(lambda: repr(t) == rep(h, t), 'the representation')
    h.check(lambda: repr(CT.Option(x)) == h.join(['Option(ty=', rep(h, unwrap(x)), ')']),
            'inside an option')
    h.reach('done')


many.reach = ['done']


HARNESSES = [leaves, composites, tuples, every_part, many, names]
