"""C25: parameters of types are kept, brought to their canonical form, or refused"""
import numpy as np
ALIAS = {'A': 'A', 'ascii': 'A', 'U8': 'U8', 'utf-8': 'U8', 'utf_8': 'U8', 'utf8': 'U8',
         'U16': 'U16', 'utf-16': 'U16', 'utf_16': 'U16', 'utf16': 'U16', 'U32': 'U32',
         'utf-32': 'U32', 'utf_32': 'U32', 'utf32': 'U32'}
NAMES = sorted(ALIAS)
JUNK = [2.5, b'x', (), object, CT.int8]


def canonical(e):
    for n in NAMES:
        if e == n:
            return ALIAS[n]
    return None


def encodings(h):
    """encodings by any of their names, and every word close to one"""
    e = h.pick('e', NAMES + ['', 'latin1'])
    k = h.choice('k', len(e) + 3)
    if k < len(e):
        e = h.join([e[:k], h.char('c', PRINTABLE), e[k + 1:]])
    elif k == len(e):
        e = h.join([e, h.char('c', PRINTABLE)])
    elif k == len(e) + 1:
        e = e[1:]
    n = h.int('n', 0, 10 ** 6) if h.bool('fix') else None
    want = canonical(e) if e != '' else 'U8'
    out = []
    f = (lambda: out.append(CT.String(e))) if n is None and h.bool('one') else \
        (lambda: out.append(CT.String(n, e)))
    err = raised(f, ValueError)
    h.check((err is not None) == (want is None), 'an unknown encoding', 'encoding')
    if want is None:
        h.reach('refused')
        return
    t = out[0]
    h.check(lambda: t.encoding == want and t.fixlen is n or t.fixlen == n, 'canonical encoding',
            'canonical')
    h.check(lambda: t == CT.String(n, want) and hash(t) == hash(CT.String(n, want)),
            'spellings of one encoding differ', 'canonical')
    if "'" not in e and '\\' not in e and e != '':
        s = h.join(["string[", str(n) + ', ' if n is not None else '', "'", e, "']"])
        h.check(lambda: same(ds.dshape(s), t), 'spelled out', 'text')
    h.reach('accepted')


def strings(h):
    """length and encoding in any combination"""
    def arg(p):
        k = h.choice(p, 4)
        return [h.int(p + '.n', 0, 10 ** 20), None, h.pick(p + '.e', ['A', 'ascii', 'U16']),
                h.pick(p + '.j', JUNK)][k], 'nxej'[k]
    n = h.choice('args', 4)
    args, kinds = [], ''
    for i in range(n):
        a, k = arg('a%d' % i) if n < 3 else (None, 'x')
        args.append(a)
        kinds += k
    ok = kinds in ('', 'n', 'x', 'e', 'nx', 'xx', 'ne', 'xe')
    out = []
    e = raised(lambda: out.append(CT.String(*args)), TypeError, ValueError)
    if n == 2 and kinds[1] in 'nj' and not args[1]:
        return                      # an empty value for no encoding
    h.check((e is None) == ok, 'parameters of a string', 'accepted')
    if ok and kinds != '' and n == 2:
        h.check(raised(lambda: CT.String(h.pick('no', ['', 'A', b'', 2.5]), args[1]), TypeError,
                       ValueError) is not None, 'a length that is no number', 'accepted')
    if not ok:
        h.reach('refused')
        return
    t = out[0]
    h.check(lambda: t.fixlen == args[0] if 'n' in kinds else t.fixlen is None, 'length')
    h.check(lambda: t.encoding == (ALIAS[args[-1]] if 'e' in kinds else 'U8'), 'encoding')
    h.reach('accepted')


def zones(h):
    """time zones are texts"""
    c = h.pick('c', [CT.Time, CT.DateTime])
    tz = h.text('tz', 0, 2, UNICODE) if h.bool('text') else h.pick('j', JUNK + [None, 3])
    ok = tz is None or isinstance(tz, str)
    out = []
    e = raised(lambda: out.append(c(tz)), TypeError)
    h.check((e is None) == ok, 'a time zone')
    if ok:
        h.check(lambda: out[0].tz is None if tz is None else out[0].tz == tz, 'kept')
        h.check(lambda: same(out[0], c(tz=tz)), 'by name')
        h.reach('accepted')
    else:
        h.reach('refused')


def units(h):
    """units are texts, their type a datashape, floating by default"""
    u = h.text('u', 0, 2, UNICODE) if h.bool('text') else h.pick('j', [2.5, None, 3, CT.int8])
    k = h.choice('k', 5)
    tp = [None, CT.DataShape(CT.Fixed(h.int('n', 0, 99)), CT.int8), CT.DataShape(CT.float64),
          CT.int8, 'int8'][k]
    ok = isinstance(u, str) and k < 3
    out = []
    e = raised(lambda: out.append(CT.Units(u, tp) if k or h.bool('two') else CT.Units(u)), TypeError)
    h.check((e is None) == ok, 'parameters of units')
    if ok:
        x = out[0]
        h.check(lambda: x.unit == u, 'kept')
        h.check(lambda: same(x.tp, tp if k else CT.float64) and isinstance(x.tp, CT.DataShape),
                'type of a value with units')
        h.check(lambda: (x == CT.Units(u)) == (k in (0, 2)), 'the default type')
        h.reach('accepted')
    else:
        h.reach('refused')


def variables(h):
    """type variables begin with a capital letter"""
    s = h.text('s', 1, h.bound(2, 3), ((33, 126), (0xb5, 0xff), (0x3b1, 0x3c9), (0x391, 0x3a1)))
    c = s[0]
    ok = 'A' <= c <= 'Z' or '\xc0' <= c <= '\xde' and c != '\xd7' or '\u0391' <= c <= '\u03a1'
    out = []
    e = raised(lambda: out.append(CT.TypeVar(s)), ValueError)
    h.check((e is None) == ok, 'a type variable')
    if ok:
        h.check(lambda: out[0].symbol == s and str(out[0]) == s, 'kept')
        x = CT.Ellipsis(out[0])
        h.check(lambda: x.typevar is out[0] and str(x) == h.join([s, '...']), 'a named ellipsis')
        h.reach('accepted')
    else:
        h.reach('refused')


def extents(h):
    """extents are integers that are not negative"""
    n = h.int('n', -10 ** 30, 10 ** 30)
    out = []
    e = raised(lambda: out.append(CT.Fixed(n)), ValueError)
    h.check((e is None) == (n >= 0), 'an extent')
    if n >= 0:
        h.check(lambda: out[0].val == n and int(out[0]) == n and
                out[0].__index__() == n, 'kept')
        h.check(lambda: same(out[0] * CT.int8, n * CT.int8), 'as a number')
        h.reach('accepted')
    else:
        h.reach('refused')
    i = h.choice('np', 3)
    m = h.choice('m', 100)
    h.check(CT.Fixed([np.int8, np.uint64, np.int32][i](m)).val == m, 'a NumPy integer')
    j = h.pick('j', [2.5, '3', None, (), CT.int8])
    h.check(raised(lambda: CT.Fixed(j), TypeError) is not None, 'no integer')


def decimals(h):
    """precision and scale are kept"""
    p, q = h.int('p', 1, 10 ** 20), h.int('q', -10 ** 20, 10 ** 20)
    k = h.choice('k', 4)
    x = [lambda: CT.Decimal(p), lambda: CT.Decimal(p, q), lambda: CT.Decimal(precision=p, scale=q),
         lambda: CT.Decimal(p, scale=q)][k]()
    h.check(lambda: x.precision == p and x.scale == (q if k else 0), 'precision and scale')
    h.check(lambda: same(CT.DataShape(CT.Var(), x)[1], x), 'in an array')
    h.reach('done')


def components(h):
    """components may be given as types, datashapes or text"""
    k = h.choice('k', 6)
    n = h.int('n', 0, 99)
    a = CT.DataShape(CT.Fixed(n), CT.int8)
    forms = [(CT.int8, CT.int8), (CT.DataShape(CT.int8), CT.int8), ('int8', CT.int8),
             (a, a), ('2 * int8', CT.DataShape(CT.Fixed(2), CT.int8)),
             (CT.Option(CT.int8), CT.Option(CT.int8))]
    x, w = forms[k]
    y, v = forms[h.choice('l', 6)]
    h.check(lambda: same(CT.Option(x).ty, w), 'option')
    h.check(lambda: same(CT.Map(x, y).key, w) and same(CT.Map(x, y).value, v), 'map')
    h.check(lambda: same(CT.Record([('a', x), ('b', y)]).types, [w, v]), 'record')
    if k != 2 and k != 4:
        t = CT.Tuple([x])
        h.check(lambda: same(t.dshapes[0], w) and isinstance(t.dshapes[0], CT.DataShape), 'tuple')
    f = CT.Function(w, v)
    h.check(lambda: same(f.restype, v) and same(list(f.argtypes), [w]), 'function')
    j = h.pick('j', [None, 2.5, [], {}, object, [3, CT.int8], (n, CT.int8), [CT.int8],
                     {'a': CT.int8}, np.dtype('int8')])
    h.check(raised(lambda: CT.Option(j), TypeError) is not None and
            raised(lambda: CT.Map(j, x), TypeError) is not None and
            raised(lambda: CT.Map(x, j), TypeError) is not None and
            raised(lambda: CT.Record([('a', j)]), TypeError) is not None and
            raised(lambda: CT.DataShape(j), TypeError) is not None and
            raised(lambda: CT.Tuple([j]), TypeError) is not None, 'no type at all')
    h.reach('done')


def entry(h):
    """dshape() accepts text, types and lists of parts"""
    n, m = h.int('n', 0, 10 ** 20), h.int('m', 0, 10 ** 9)
    leaf, w = h.pick('leaf', [('int32', CT.int32), ('?string', CT.Option(CT.string)),
                              ('{a: 3 * int8}', CT.Record([('a', CT.DataShape(CT.Fixed(3), CT.int8))])),
                              ('(int8, json)', CT.Tuple([CT.int8, CT.json])),
                              ('map[int8, string]', CT.Map(CT.int8, CT.string))])
    want = CT.DataShape(CT.Fixed(n), CT.Var(), CT.Fixed(m), w)
    forms = [lambda: h.join([str(n), ' * var * ', str(m), ' * ', leaf]),
             lambda: want,
             lambda: [n, CT.Var(), m, w],
             lambda: (CT.Fixed(n), 'var' if False else CT.Var(), m, leaf),
             lambda: [n, CT.Var(), m, ds.dshape(leaf)],
             lambda: n * (CT.Var() * (m * w))]
    f = h.pick('f', forms)
    got = ds.dshape(f())
    h.check(lambda: same(got, want) and isinstance(got, CT.DataShape), 'one type in any form')
    h.check(lambda: same(ds.dshapes(f(), leaf)[0], want) and same(ds.dshapes(f(), leaf)[1], w),
            'several at once')
    h.check(lambda: same(ds.dshape(w), w) and same(ds.dshape([w]), w), 'a type')
    j = h.pick('j', [None, 2.5, 3, {}, object])
    h.check(raised(lambda: ds.dshape(j), TypeError) is not None, 'no type at all')
    h.check(raised(lambda: CT.DataShape(), ValueError) is not None and
            raised(lambda: CT.DataShape(leaf), TypeError) is not None, 'no parts')
    h.reach('done')


def categories(h):
    """categories are kept in order, their type is what they are unless it is given"""
    n = 1 + h.choice('n', h.bound(2, 3))
    k = h.choice('k', 3)
    if k == 0:
        cs = [h.int('i%d' % i, -9, 99) for i in range(n)]
        w = CT.int64
    elif k == 1:
        cs = [h.char('c%d' % i, LOWER) for i in range(n)]
        w = CT.string
    else:
        cs = [h.bool('b%d' % i) for i in range(n)]
        w = CT.bool_
    x = CT.Categorical(cs if h.bool('list') else tuple(cs))
    h.check(lambda: list(x.categories) == cs, 'categories')
    h.check(lambda: same(x.type, w) and x.ordered is False, 'type of categories')
    t = h.pick('t', [CT.json, CT.DataShape(CT.json)])
    y = CT.Categorical(cs, t, ordered=True)
    h.check(lambda: y.type is CT.json and y.ordered is True and list(y.categories) == cs, 'given')
    h.reach('done')


def every_part(h):
    """every type as a component reads back as given, as type, datashape or text"""
    x = any_part(h, 'x', 2)
    d = CT.DataShape(CT.Fixed(h.int('n', 0, 99)), CT.int16)
    bare = x.measure if len(x) == 1 else x
    for y in [x, bare, str(x)]:
        h.check(lambda: same(CT.Option(y).ty, x), 'option')
        h.check(lambda: same(CT.Map(y, d).key, x) and same(CT.Map(y, d).value, d) and
                same(CT.Map(d, y).value, x) and same(CT.Map(d, y).key, d), 'map')
        r = CT.Record([('b', d), ('a', y)])
        h.check(lambda: same(r.types, [d, x]) and same(r['a'], x) and same(r.dict['a'], x), 'record')
        h.check(lambda: same(ds.dshape(y), x), 'dshape()')
    for y in [x, bare]:
        t = CT.Tuple([y, d, y])
        h.check(lambda: same(t.dshapes, [x, d, x]), 'tuple')
        f = CT.Function(y, d, y)
        h.check(lambda: same(f.restype, x) and same(f.argtypes, [x, d]) and
                same(CT.Function(d, y).argtypes, [d]), 'function')
    u = CT.Units('m', x)
    h.check(lambda: same(u.tp, x) and u.unit == 'm', 'units')
    for o in (True, False):
        for cs in ([], ['a'], ['a', 'b']):
            c = CT.Categorical(cs, CT.DataShape(x.measure), o)
            h.check(lambda: same(c.type, x.measure) and c.ordered is o and
                    list(c.categories) == cs, 'categorical')
    h.check(lambda: same(ds.dshape([3] + list(x)), CT.DataShape(CT.Fixed(3), *x)) and
            same(3 * x, CT.DataShape(CT.Fixed(3), *x)), 'in an array')
    h.reach('done')


every_part.reach = ['done']
encodings.reach = strings.reach = zones.reach = units.reach = ['accepted', 'refused']
variables.reach = extents.reach = ['accepted', 'refused']
decimals.reach = components.reach = entry.reach = categories.reach = ['done']


def many(h):
    """many categories, with repetitions; many parts"""
    n, j = long_place(h, 'x')
    i = h.choice('i', n)
    if h.bool('text'):
        cs = ['c%d' % q for q in range(n)]
        w, v = CT.string, h.char('v', LOWER)
    else:
        cs = [3 * q - 7 for q in range(n)]
        w, v = CT.int64, h.int('v', -99, 99)
        if h.bool('odd'):
            # one of them of another kind: the type is that of all
            w, v = h.pick('kind', [(CT.float64, 2.5), (CT.string, 'a'), (CT.bool_, True)])
            w = CT.Tuple([w if q == j or q == i else CT.int64 for q in range(n)])
    cs[j] = v
    cs[i] = cs[j]
    x = CT.Categorical(cs)
    h.check(lambda: list(x.categories) == cs and same(x.type, w), 'categories')
    h.check(lambda: same(CT.Categorical(cs, ordered=True).type, w), 'categories in order')
    y = CT.Categorical(tuple(cs), CT.json, True)
    h.check(lambda: list(y.categories) == cs and y.type is CT.json and y.ordered is True, 'given')
    h.reach('done')


def many_parts(h):
    """every part of many is kept"""
    k, dims, j, x = long_type(h, 'y', ['dims', 'record', 'tuple', 'function'])
    parts = [CT.DataShape(d, CT.int8) for d in dims]
    if k == 'dims':
        h.check(lambda: same(list(x.shape), dims) and x.measure is CT.int32, 'dimensions')
    elif k == 'record':
        h.check(lambda: same(x.measure.types, parts), 'record')
    elif k == 'tuple':
        h.check(lambda: same(list(x.measure.dshapes), parts), 'tuple')
    else:
        h.check(lambda: same(list(x.measure.argtypes), parts[:-1]) and
                same(x.measure.restype, parts[-1]), 'function')
    h.reach('done')


many.reach = many_parts.reach = ['done']


HARNESSES = [encodings, strings, zones, units, variables, extents, decimals, components, entry, categories,
             every_part, many,
             many_parts]
