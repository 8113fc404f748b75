"""C17: more than one wildcard in a shape is refused, wherever the shape is"""
NODES = ['option', 'tuple', 'record', 'map', 'function', 'argument', 'units']


def parts(t):
    if isinstance(t, CT.Record):
        return [x for n, x in t.fields]
    if isinstance(t, CT.Tuple):
        return list(t.dshapes)
    if isinstance(t, CT.Option):
        return [t.ty]
    if isinstance(t, CT.Map):
        return [t.key, t.value]
    if isinstance(t, CT.Function) or isinstance(t, CT.DataShape):
        return list(t.parameters)
    if isinstance(t, CT.Units):
        return [t.tp]
    if isinstance(t, CT.Categorical):
        return [t.type]
    return []


def wildcards(t):
    """the number of wildcards of the worst shape in t"""
    n = 0
    if isinstance(t, CT.DataShape):
        n = len([p for p in t.parameters[:-1] if isinstance(p, CT.Ellipsis)])
    for x in parts(t):
        k = wildcards(x)
        if k > n:
            n = k
    return n


def verdict(h, x):
    """validate and the parser accept x iff no shape has two wildcards"""
    bad = wildcards(x) > 1
    e = raised(lambda: ds.validation.validate(x), TypeError)
    h.check((e is not None) == bad, 'validate', 'validate')
    text = str(x)
    f = raised(lambda: ds.dshape(text), TypeError)
    h.check((f is not None) == bad, 'dshape of a text', 'text')
    if not bad:
        h.check(lambda: same(ds.dshape(text), x), 'the type of an accepted text', 'text')
    # a datashape is validated again when it becomes part of another one
    g = raised(lambda: ds.dshape([CT.Fixed(2)] + list(x.parameters)), TypeError)
    h.check((g is not None) == bad, 'dshape of a list', 'list')
    k = raised(lambda: ds.dshape((CT.Var(), CT.Tuple([x]))), TypeError)
    h.check((k is not None) == bad, 'dshape of a tuple', 'list')
    h.reach('refused' if bad else 'accepted')


def shapes(h):
    """shapes of any dimensions"""
    n = h.choice('rank', h.bound(5, 6))
    dims = [gen_dim(h, 'd%d' % i, 'cve') for i in range(n)]
    verdict(h, CT.DataShape(*dims + [h.pick('m', [CT.int32, CT.Option(CT.string)])]))


def named(h):
    """named wildcards are wildcards"""
    n = 1 + h.choice('rank', h.bound(3, 4))
    dims = [gen_dim(h, 'd%d' % i, h.bound('vea', 'veat')) for i in range(n)]
    verdict(h, CT.DataShape(*dims + [CT.int32]))


def nested(h):
    """a shape at any depth inside any composite type"""
    k = h.choice('rank', 4)
    m = CT.DataShape(*[gen_dim(h, 'i%d' % i, 've') for i in range(k)] + [CT.int32])
    if k == 0:
        m = CT.int32
    depth = h.bound(2, 3)
    for i in range(depth):
        p = 'n%d' % i
        x = m if isinstance(m, CT.DataShape) else CT.DataShape(m)
        if h.bool(p + '.dim') and len(x.parameters) == 1:
            x = CT.DataShape(CT.Ellipsis(), m)
        node = h.pick(p, NODES)
        first = h.bool(p + '.first') if node in ('record', 'tuple', 'map') else True
        if node == 'option':
            m = CT.Option(x)
        elif node == 'record':
            m = CT.Record([('a', x), ('b', CT.int32)] if first else [('a', CT.int32), ('b', x)])
        elif node == 'tuple':
            m = CT.Tuple([x, CT.int32] if first else [CT.int32, x])
        elif node == 'map':
            m = CT.Map(x, CT.int32) if first else CT.Map(CT.int32, x)
        elif node == 'function':
            m = CT.Function(CT.DataShape(CT.int32), x)
        elif node == 'units':
            m = CT.Units('m', x)
        else:
            m = CT.Function(x, CT.DataShape(CT.int32))
    verdict(h, CT.DataShape(m))


def siblings(h):
    """wildcards of different shapes do not add up"""
    n = 2 + h.choice('n', 2)
    xs = [CT.DataShape(*[CT.Ellipsis()] * h.choice('e%d' % i, 3) + [CT.int32])
          for i in range(n)]
    k = h.pick('k', ['tuple', 'record', 'map', 'function'])
    if k == 'tuple':
        m = CT.Tuple(xs)
    elif k == 'record':
        m = CT.Record([('abc'[i], x) for i, x in enumerate(xs)])
    elif k == 'map':
        m = CT.Map(xs[0], xs[1])
    else:
        m = CT.Function(*xs)
    x = CT.DataShape(CT.Ellipsis(), m) if h.bool('outer') else CT.DataShape(m)
    verdict(h, x)


def last(h):
    """a wildcard is no measure"""
    d = gen_dim(h, 'd', 'cve')
    e = h.pick('e', ['...', 'A...', 'Foo...'])
    n = h.choice('n', 3)
    text = h.join([str(d), ' * '] * n + [e])
    f = raised(lambda: ds.dshape(text), ds.error.DataShapeSyntaxError)
    h.check(f is not None, 'a wildcard as measure')
    h.reach('done')


for f in (shapes, named, nested, siblings):
    f.reach = ['refused', 'accepted']
last.reach = ['done']


def everywhere(h):
    """a bad shape around every type in every place of every other"""
    f = any_whole(h, 'x')
    x = any_part(h, 'x', 1 if f is not WHOLES[-1] else 0)
    i = h.choice('i', 3)
    dots = [[], [CT.Ellipsis()], [CT.Ellipsis(CT.TypeVar('A')), CT.Ellipsis()]][i]
    if f is WHOLES[-1]:
        # the type of categories is a measure
        x = CT.DataShape(CT.Record([('a', CT.DataShape(*dots + list(x)))]))
    else:
        x = CT.DataShape(*dots + list(x))
    t = f(x)
    verdict(h, t if isinstance(t, CT.DataShape) else CT.DataShape(t))


def many(h):
    """two wildcards among many dimensions, or in one of many parts"""
    n, j = long_place(h, 'x')
    i = h.choice('i', n)
    dims = [CT.Fixed(q + 2) for q in range(n)]
    dots = lambda: CT.Ellipsis() if h.bool('plain') else CT.Ellipsis(CT.TypeVar('A'))
    dims[j] = dots()
    dims[i] = CT.Ellipsis()
    k = h.pick('k', ['dims', 'part', 'deep'])
    if k == 'dims':
        x = CT.DataShape(*dims + [CT.int8])
    elif k == 'part':
        # two wildcards in the j-th part, one in each of the others
        parts = [CT.DataShape(CT.Ellipsis(), CT.int8)] * n
        if i:
            parts[j] = CT.DataShape(*dims + [CT.int8])
        x = CT.DataShape(CT.Record([('f%d' % q, p) for q, p in enumerate(parts)])
                         if h.bool('record') else CT.Function(*parts) if h.bool('function') else CT.Tuple(parts))
    else:
        x = CT.DataShape(CT.int8)
        for q in reversed(range(n)):
            x = CT.DataShape(*[CT.Ellipsis()] * (1 + (q == j and i > 0)) +
                             [CT.Record([('a', x)]) if i % 2 else CT.Option(x)])
    verdict(h, x)


everywhere.reach = many.reach = ['refused', 'accepted']


def names(h):
    """a bad shape is found in any field, whatever the fields are called"""
    a, b = two_names(h, 'n')
    e = CT.DataShape(CT.Ellipsis(), CT.int32)
    t = CT.DataShape(CT.Ellipsis(), CT.Ellipsis(), CT.int32) if h.bool('bad') else e
    r = CT.Record([(a, t), (b, e)] if h.bool('first') else [(a, e), (b, t)])
    k = h.choice('k', 3)
    x = CT.DataShape([lambda: r, lambda: CT.Option(r), lambda: CT.Record([('c', r)])][k]())
    bad = t is not e
    f = raised(lambda: ds.validation.validate(x), TypeError)
    h.check((f is not None) == bad, 'validate', 'validate')
    g = raised(lambda: ds.dshape([CT.Fixed(2)] + list(x.parameters)), TypeError)
    h.check((g is not None) == bad, 'dshape of a list', 'list')
    h.reach('refused' if bad else 'accepted')


names.reach = ['refused', 'accepted']


HARNESSES = [shapes, named, nested, siblings, last, everywhere, many, names]
