"""C01: a printed datashape parses back to the same datashape"""
TEXT = ((0, 0xd7ff), (0xe000, 0x10ffff))


def round_trip(h, x, site):
    s = str(x)
    y = ds.dshape(s)
    h.check(lambda: same(x, y), 'str() parses back to a different datashape', site)
    h.check(lambda: y == x, 'the datashape parsed back does not compare equal', site)
    h.check(lambda: str(y) == s, 'printing is not stable', site)
    h.reach(site)


def simple(h):
    """every measure with a name, under every combination of two dimensions"""
    m = getattr(CT, h.pick('m', SIMPLE))
    r = h.choice('rank', 3)
    dims = [gen_dim(h, 'd%d' % i, 'fvtEe' if i == 0 else 'fvt') for i in range(r)]
    round_trip(h, CT.DataShape(*dims + [m]), 'simple')


def dims(h):
    """any sequence of dimensions with symbolic sizes and type variable names"""
    n = h.bound(3, 4)
    r = h.choice('rank', n + 1)
    out = []
    for i in range(r):
        k = h.pick('k%d' % i, list('fvtEe'))
        if k == 'f':
            out.append(CT.Fixed(h.int('n%d' % i, 0, 10 ** h.bound(4, 18))))
        elif k == 'v':
            out.append(CT.Var())
        elif k == 'e':
            out.append(CT.Ellipsis())
        else:
            t = CT.TypeVar(typevar_name(h, 't%d' % i, 1 + (i == 0) * h.bound(2, 4)))
            out.append(t if k == 't' else CT.Ellipsis(t))
    h.assume(len([1 for d in out if type(d) is CT.Ellipsis]) < 2)
    round_trip(h, CT.DataShape(*out + [CT.int32]), 'dims')


def field_names(h):
    """records: the names are arbitrary unicode text"""
    n = h.bound(2, 3)
    a = h.text('a', 0, n, TEXT)
    x = CT.DataShape(CT.Record([(a, CT.int32)]))
    round_trip(h, x, 'field name')


def two_fields(h):
    a = h.text('a', 0, 1, TEXT)
    b = h.text('b', 0, 1, TEXT)
    h.assume(a != b)
    x = CT.DataShape(CT.Record([(a, CT.int32), (b, CT.DataShape(3, CT.string))]))
    round_trip(h, x, 'two fields')


def long_names(h):
    """names around the identifiers and the words the lexer treats specially"""
    w = h.pick('w', ['True', 'False', 'None', 'var', 'int', 'if', 'ellipsis'])
    p = h.text('p', 0, 1, TEXT)
    q = h.text('q', 0, 1, TEXT)
    s = h.join([p, w, q])
    round_trip(h, CT.DataShape(CT.Var(), CT.Record([(s, CT.int32)])), 'long name')


def texts(h):
    """time zones, units and categories hold arbitrary text"""
    k = h.pick('k', ['time', 'datetime', 'units', 'units2', 'cat'])
    s = h.text('s', 0, h.bound(1, 2), TEXT)
    if k == 'time':
        x = CT.Time(s)
    elif k == 'datetime':
        x = CT.DateTime(s)
    elif k == 'units':
        x = CT.Units(s)
    elif k == 'units2':
        x = CT.Units(s, CT.DataShape(CT.int32))
    else:
        x = CT.Categorical([s, 'b'], type=CT.string, ordered=h.bool('o'))
    round_trip(h, CT.DataShape(x), 'text')


def categories(h):
    k = h.pick('k', ['int', 'bool'])
    n = h.pick('n', [0, 1, 2, 3, 9, 10])
    if k == 'int':
        x = CT.Categorical([h.int('c%d' % i, -1000, 1000) if i < 3 else i for i in range(n)], type=CT.int64,
                           ordered=h.bool('o'))
    else:
        x = CT.Categorical([h.bool('c%d' % i) if i < 3 else i % 2 == 0 for i in range(n)], type=CT.bool_)
    round_trip(h, CT.DataShape(x), 'categories')


def numbers(h):
    """parameters that are numbers"""
    k = h.pick('k', ['string', 'decimal', 'timedelta'])
    round_trip(h, CT.DataShape(gen_leaf(h, 'm', [k])), 'numbers')


def nesting(h):
    """every way of nesting the type constructors"""
    x = gen_ds(h, 'x', h.bound(2, 3), ['int32'],
               ['option', 'tuple', 'record', 'map', 'function', 'units'], 'v', 1)
    round_trip(h, x, 'nesting')


def parts(h):
    """every type as every part of every other, with any dimensions"""
    f = any_whole(h, 'x')
    x = any_part(h, 'x', 2 if f is not WHOLES[-1] else 0)
    t = f(x)
    if h.bool('dim'):
        t = 3 * t
    round_trip(h, t, 'part')


for f in [simple, dims, two_fields]:
    f.reach = [f.__name__.replace('_', ' ')]


def many(h):
    """types of many parts, dimensions and levels"""
    k, dims, j, x = long_type(h, 'x', dims='fvte')
    round_trip(h, x, 'many')


many.reach = ['many']


HARNESSES = [simple, dims, field_names, two_fields, long_names, texts, categories, numbers,
             nesting, parts, many]
