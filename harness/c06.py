"""C06: equality is identity of structure, and equal types hash alike"""
LEAVES = ['int32', 'string', 'decimal', 'timedelta', 'time', 'datetime', 'units', 'typevar']


def compare(h, x, y):
    """the two values against the structural reference"""
    want = same(x, y)
    eq = x == y
    h.check(eq is True or eq is False, 'equality is a truth value', 'bool')
    h.check(lambda: eq == want, 'equality differs from identity of structure', 'eq')
    h.check(lambda: (y == x) == want, 'equality is not symmetric', 'sym')
    h.check(lambda: (x != y) == (not want), '!= is not the negation of ==', 'ne')
    if want:
        h.check(lambda: hash(x) == hash(y), 'equal types hash differently', 'hash')
        h.reach('equal')
    else:
        h.reach('different')
    h.check(lambda: x == x and y == y and hash(x) == hash(x), 'not reflexive', 'refl')


def contents(h):
    """two types of one kind with independent contents"""
    k = h.pick('k', LEAVES)
    x, y = gen_leaf(h, 'x', [k]), gen_leaf(h, 'y', [k])
    w = h.choice('wrap', 4)
    if w == 1:
        x, y = CT.DataShape(x), CT.DataShape(y)
    elif w == 2:
        x, y = CT.DataShape(CT.Fixed(3), x), CT.DataShape(CT.Fixed(3), y)
    elif w == 3:
        x = CT.Record([('a', x)])
        y = CT.Record([('a', y)])
    compare(h, x, y)


def kinds(h):
    """scalars of any two kinds, bare or as datashapes of any dimensions"""
    kinds = ['int32', 'ctype', 'string', 'decimal', 'timedelta', 'units', 'typevar']
    x = gen_leaf(h, 'x', kinds)
    y = gen_leaf(h, 'y', kinds)
    compare(h, x if h.bool('bx') else CT.DataShape(x), y)


def dims(h):
    """any two lists of dimensions"""
    n, m = h.choice('n', 3), h.choice('m', 3)
    x = CT.DataShape(*[gen_dim(h, 'x%d' % i) for i in range(n)] + [CT.int32])
    y = CT.DataShape(*[gen_dim(h, 'y%d' % i) for i in range(m)] + [CT.int32])
    compare(h, x, y)
    if n and m:
        a, b = x[0], y[0]
        compare(h, a, b)
        if type(a) is CT.Fixed:
            i = h.int('i', -5, 10 ** 20)
            h.check(lambda: (a == i) == (a.val == i), 'a dimension and an integer', 'int')
            if a == i:
                h.check(lambda: hash(a) == hash(i), 'hash of dimension and integer', 'int')


def nested(h):
    """any two types of one level of structure"""
    nodes = ['option', 'tuple', 'record', 'map', 'function', 'units']
    x = gen_ds(h, 'x', 1, ['int32', 'string'] if h.tier != 'quick' else ['int32'], nodes, 'fv', 1)
    k = unwrap(x) if len(x) == 1 else x[-1]
    if h.bool('other'):
        y = gen_ds(h, 'y', 1, ['int32'], ['tuple', 'option', 'record'], 'f', 1)
    else:
        # the same kind of structure
        t = {CT.Option: 'option', CT.Tuple: 'tuple', CT.Record: 'record', CT.Map: 'map',
             CT.Function: 'function', CT.Units: 'units'}.get(type(k))
        h.assume(t is not None)
        y = gen_ds(h, 'y', 1, ['int32'], [t], 'fv', 1)
    compare(h, x, y)


def records(h):
    """records with any field names, any number and order of fields"""
    def rec(p):
        n = h.choice(p + 'n', 3)
        names = [h.text('%s%d' % (p, i), 0, h.bound(1, 2), UNICODE) for i in range(n)]
        h.assume(n < 2 or names[0] != names[1])
        return CT.Record([(s, [CT.int32, CT.int8][i] if h.bool('%st%d' % (p, i)) else CT.int8)
                          for i, s in enumerate(names)])
    compare(h, rec('x'), rec('y'))


def options(h):
    """options over arrays, arrays of options, at any place"""
    def side(p):
        m = CT.DataShape(CT.int32)
        for i in range(h.bound(3, 4)):
            k = h.choice('%s%d' % (p, i), 4)
            if k == 0:
                m = CT.DataShape(CT.Option(m))
            elif k == 1:
                m = CT.DataShape(CT.Fixed(h.int('%sn%d' % (p, i), 0, 9)), *m.parameters)
            elif k == 2:
                m = CT.DataShape(CT.Record([('a', m)]))
        return unwrap(m)
    compare(h, side('x'), side('y'))


def categoricals(h):
    """categories, their type and order all count"""
    def cat(p):
        cs = [h.char('%s%d' % (p, i), LOWER) for i in range(1 + h.choice(p + 'n', 2))]
        return CT.Categorical(cs, CT.string if h.bool(p + 't') else CT.json, h.bool(p + 'o'))
    compare(h, cat('x'), cat('y'))


def many(h):
    """types with many components: every single one counts"""
    n = 9 + h.choice('n', h.bound(5, 20))
    k = h.choice('k', n)
    c = h.char('c', LOWER)
    names = ['n%d' % i for i in range(n)]
    other = names[:k] + [c] + names[k + 1:]
    f = h.pick('f', [lambda ns: CT.Categorical(ns, CT.string),
                     lambda ns: CT.Record([(x, CT.int8) for x in ns]),
                     lambda ns: CT.Tuple([CT.Units(x) for x in ns]),
                     lambda ns: CT.Function(*[CT.Units(x) for x in ns])])
    compare(h, f(names), f(list(names)))
    compare(h, f(names), f(other))
    compare(h, f(names), f(names[:k] + names[k + 1:]))


def strangers(h):
    """no type equals something that is no type"""
    x = h.pick('x', [CT.int32, CT.Var(), CT.Tuple([CT.int8]), CT.Record([('a', CT.int8)]),
                     CT.DataShape(CT.Fixed(3), CT.int8), CT.Option(CT.int8)])
    y = h.pick('y', [None, 'int32', 3, 2.5, (), [], {}, object, ('a', 1)])
    h.check((x == y) is False and (y == x) is False and (x != y) is True,
            'a type equals something that is no type')
    h.reach('done')


def parts(h):
    """every type as every part of every other, against every other type there"""
    f = any_whole(h, 'x')
    rank = 1 if f is not WHOLES[-1] else 0
    x = any_part(h, 'x', rank)
    dims, m = list(x.shape), x.measure
    a = f(x)
    n = h.int('n', 0, 10 ** 6)
    for d in [[], [CT.Fixed(n)], [CT.Var()]][:1 + 2 * rank]:
        for y in EVERY:
            b = f(CT.DataShape(*d + [y]))
            want = same(d, dims) and same(y, m)
            h.check(lambda: (a == b) == want and (b == a) == want and (a != b) == (not want),
                    'equality differs from identity of structure', 'eq')
            if want:
                h.check(lambda: hash(a) == hash(b), 'equal types hash differently', 'hash')
                h.reach('equal')
            else:
                h.reach('different')


parts.reach = ['equal', 'different']
contents.reach = kinds.reach = dims.reach = nested.reach = records.reach = ['equal', 'different']
options.reach = many.reach = categoricals.reach = ['equal', 'different']
strangers.reach = ['done']


def long(h):
    """one part of many differs, is missing, or stands at another place"""
    k, dims, j, x = long_type(h, 'x', dims='fvt')
    compare(h, x, build_long(k, list(dims)))
    d = gen_dim(h, 'y', 'fvt')
    compare(h, x, build_long(k, dims[:j] + [d] + dims[j + 1:]))
    if k not in ('deep', 'options'):
        compare(h, x, build_long(k, dims[:j] + dims[j + 1:]))
    i = h.choice('i', len(dims)) if len(dims) < 10 else h.pick('i', [0, 8, len(dims) - 1])
    other = list(dims)
    other[i], other[j] = other[j], other[i]
    compare(h, x, build_long(k, other))
    compare(h, x, build_long(k, dims[:j] + [None] + dims[j + 1:]))


long.reach = ['equal', 'different']


HARNESSES = [contents, kinds, dims, nested, records, options, categoricals, many, strangers, parts,
             long]
