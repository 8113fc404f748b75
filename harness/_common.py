"""helpers shared by the harnesses (executed in every harness module's namespace)"""
CT = ds.coretypes
IDENT_FIRST = ((65, 90), (95, 95), (97, 122))
IDENT_REST = ((48, 57), (65, 90), (95, 95), (97, 122))
LOWER = ((97, 122),)
UPPER = ((65, 90),)
PRINTABLE = ((32, 126),)
BMP = ((0, 0xd7ff), (0xe000, 0xffff))
UNICODE = ((0, 0xd7ff), (0xe000, 0x10ffff))


def raised(f, *exc):
    """the exception of the given classes raised by f(), or None"""
    try:
        f()
    except exc as e:
        return e
    return None


def slice_count(n, a, b, c):
    """number of elements selected by [a:b:c] out of n (the language rule, spelled out)"""
    if c is None:
        c = 1
    if c > 0:
        if a is None:
            a = 0
        elif a < 0:
            a = a + n
            if a < 0:
                a = 0
        if b is None:
            b = n
        elif b < 0:
            b = b + n
        elif b > n:
            b = n
        if b <= a:
            return 0
        return (b - a + c - 1) // c
    c = -c
    if a is None:
        a = n - 1
    else:
        if a < 0:
            a = a + n
        elif a > n - 1:
            a = n - 1
    if b is None:
        b = -1
    elif b < 0:
        b = b + n
        if b < -1:
            b = -1
    if a <= b:
        return 0
    return (a - b + c - 1) // c


def unwrap(x):
    """a DataShape without dimensions stands for its measure"""
    if type(x) is CT.DataShape and len(x.parameters) == 1:
        return x.parameters[0]
    return x


def same(a, b, copies=False):
    """structural identity of two types, independent of the package's __eq__"""
    a, b = unwrap(a), unwrap(b)
    if isinstance(a, CT.CType) or isinstance(b, CT.CType):
        if copies:
            return (type(a) is type(b) and a.name == b.name and a.itemsize == b.itemsize and
                    a.alignment == b.alignment)
        return a is b
    if isinstance(a, CT.Mono) or isinstance(b, CT.Mono):
        if type(a) is not type(b):
            return False
        if type(a) is CT.Fixed:
            return a.val == b.val
        return same(list(a.parameters), list(b.parameters), copies)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not same(x, y, copies):
                return False
        return True
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


SIMPLE = ['bool_', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64',
          'float16', 'float32', 'float64', 'complex64', 'complex128', 'string', 'json',
          'date_', 'time_', 'datetime_', 'timedelta_', 'null', 'void', 'object_', 'bytes_',
          'char']


def name_text(h, name, lo, hi, alphabet=None):
    return h.text(name, lo, hi, alphabet or UNICODE)


def typevar_name(h, name, n):
    s = h.join([h.char(name + '0', UPPER)] +
               [h.char('%s%d' % (name, i), IDENT_REST) for i in range(1, n)])
    return s


def gen_dim(h, name, kinds='fvte'):
    k = h.pick(name + '.k', list(kinds))
    if k == 'f':
        return CT.Fixed(h.int(name + '.n', 0, 2 ** 62))
    if k == 's':
        return CT.Fixed(h.int(name + '.n', 0, 9))
    if k == 'c':
        return CT.Fixed(3)
    if k == 'v':
        return CT.Var()
    if k == 't':
        return CT.TypeVar(h.char(name + '.tv', UPPER))
    if k == 'e':
        return CT.Ellipsis()
    return CT.Ellipsis(CT.TypeVar(h.char(name + '.tv', UPPER)))


def gen_leaf(h, name, kinds):
    """a measure without components, contents symbolic"""
    k = h.pick(name + '.leaf', kinds)
    if k == 'int32':
        return CT.int32
    if k == 'str':
        return CT.string
    if k == 'ctype':
        return getattr(CT, h.pick(name + '.ct', SIMPLE))
    if k == 'string':
        enc = h.pick(name + '.enc', ['U8', 'A', 'U16', 'U32'])
        if h.bool(name + '.nolen'):
            return CT.String(enc)
        return CT.String(h.int(name + '.len', 0, 10 ** 20), enc)
    if k == 'decimal':
        return CT.Decimal(h.int(name + '.prec', 0, 10 ** 4), h.int(name + '.scale', -10 ** 3, 10 ** 3))
    if k == 'timedelta':
        return CT.TimeDelta(h.pick(name + '.unit', ['ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W',
                                                    'M', 'Y']))
    if k == 'time':
        return CT.Time(name_text(h, name + '.tz', 0, 1))
    if k == 'datetime':
        return CT.DateTime(name_text(h, name + '.tz', 0, 1))
    if k == 'units':
        return CT.Units(name_text(h, name + '.u', 0, 1))
    if k == 'typevar':
        return CT.TypeVar(h.char(name + '.tv', UPPER))
    raise ValueError(k)


def gen_measure(h, name, depth, leaves, nodes, dims='fv'):
    """a measure of at most the given nesting depth"""
    k = 'leaf'
    if depth > 0:
        k = h.pick(name + '.kind', ['leaf'] + nodes)
    if k == 'leaf':
        return gen_leaf(h, name, leaves)
    d = depth - 1
    if k == 'option':
        return CT.Option(gen_ds(h, name + '.o', d, leaves, nodes, dims, 1))
    if k == 'tuple':
        n = h.choice(name + '.n', 3)
        return CT.Tuple([gen_ds(h, '%s.%d' % (name, i), d, leaves, nodes, dims, 1)
                         for i in range(n)])
    if k == 'crecord':
        n = h.choice(name + '.n', 3)
        return CT.Record([('ab'[i], gen_ds(h, '%s.%d' % (name, i), d, leaves, nodes, dims, 1))
                          for i in range(n)])
    if k == 'record':
        n = h.choice(name + '.n', 3)
        return CT.Record([(gen_field(h, name, i), gen_ds(h, '%s.%d' % (name, i), d, leaves,
                                                        nodes, dims, 1))
                          for i in range(n)])
    if k == 'map':
        return CT.Map(gen_ds(h, name + '.key', d, leaves, nodes, dims, 0),
                      gen_ds(h, name + '.val', d, leaves, nodes, dims, 1))
    if k == 'function':
        n = h.choice(name + '.n', 2)
        return CT.Function(*[CT.DataShape(gen_measure(h, '%s.%d' % (name, i), d, leaves, nodes,
                                                      dims))
                             for i in range(n)] +
                           [gen_ds(h, name + '.r', d, leaves, nodes, dims, 1)])
    if k == 'units':
        return CT.Units(h.char(name + '.u', LOWER),
                        gen_ds(h, name + '.tp', d, leaves, nodes, dims, 0))
    raise ValueError(k)


def gen_field(h, name, i):
    """distinct field names of one letter"""
    c = h.char('%s.f%d' % (name, i), ((97 + 8 * i, 104 + 8 * i),))
    return c


def gen_ds(h, name, depth, leaves, nodes, dims='fv', rank=2):
    m = gen_measure(h, name, depth, leaves, nodes, dims)
    r = h.choice(name + '.rank', rank + 1)
    return CT.DataShape(*[gen_dim(h, '%s.d%d' % (name, i), dims) for i in range(r)] + [m])


def gen_nest(h, name, depth, nodes, leaf, dims='sv'):
    """a type nested `depth` deep along one branch, next to int32 siblings, with any
    dimension or none in front at every level"""
    m = leaf
    for i in range(depth):
        p = '%s%d' % (name, i)
        x = CT.DataShape(m)
        if h.bool(p + '.dim'):
            x = CT.DataShape(gen_dim(h, p + '.d', dims), m)
        k = h.pick(p + '.node', nodes)
        first = h.bool(p + '.first') if k in ('record', 'tuple', 'map') else True
        if k == 'option':
            m = CT.Option(x)
        elif k == 'record':
            m = CT.Record([('a', x), ('b', CT.int32)] if first else [('a', CT.int32), ('b', x)])
        elif k == 'tuple':
            m = CT.Tuple([x, CT.int32] if first else [CT.int32, x])
        elif k == 'map':
            m = CT.Map(x, CT.int32) if first else CT.Map(CT.int32, x)
        elif k == 'function':
            m = CT.Function(CT.DataShape(CT.int32), x)
        elif k == 'argument':
            m = CT.Function(x, CT.DataShape(CT.int32))
        else:
            m = CT.Units('m', x)
    if h.bool(name + '.dim'):
        return CT.DataShape(gen_dim(h, name + '.d', dims), m)
    return CT.DataShape(m)


OTHERS = ['string[0]', 'string[A]', 'string[7]', 'decimal', 'timedelta[D]', 'time[tz]',
          'datetime[tz]', 'units', 'typevar', 'categorical', 'option', 'record', 'record0',
          'tuple', 'tuple0', 'function', 'map']


FORMS = {'string[0]': lambda: CT.String(0), 'string[A]': lambda: CT.String('A'),
         'string[7]': lambda: CT.String(7, 'U16'), 'decimal': lambda: CT.Decimal(5, 2),
         'timedelta[D]': lambda: CT.TimeDelta('D'), 'time[tz]': lambda: CT.Time('UTC'),
         'datetime[tz]': lambda: CT.DateTime('UTC'), 'units': lambda: CT.Units('m'),
         'typevar': lambda: CT.TypeVar('T'),
         'categorical': lambda: CT.Categorical(['a', 'b'], CT.string),
         'option': lambda: CT.Option(CT.int8),
         'record': lambda: CT.Record([('b', CT.int8), ('a', CT.Option(CT.string))]),
         'record0': lambda: CT.Record([]), 'tuple': lambda: CT.Tuple([CT.int8, CT.bool_]),
         'tuple0': lambda: CT.Tuple([]), 'function': lambda: CT.Function(CT.int8, CT.bool_),
         'map': lambda: CT.Map(CT.string, CT.int8)}


def form(k):
    return getattr(CT, k) if k in SIMPLE else FORMS[k]()


EVERY = [form(k) for k in SIMPLE + OTHERS]


def any_leaf(h, name, skip=()):
    """every type of the language, each in one form"""
    return form(h.pick(name + '.leaf', [k for k in SIMPLE + OTHERS if k not in skip]))


def any_part(h, name, rank=2, skip=()):
    """every type of the language with any small dimensions in front"""
    m = any_leaf(h, name, skip)
    r = h.choice(name + '.rank', rank + 1)
    return CT.DataShape(*[gen_dim(h, '%s.d%d' % (name, i), 'cv' if i else 'sv')
                          for i in range(r)] + [m])


WHOLES = [lambda x: x, lambda x: CT.Option(x), lambda x: CT.Record([('a', x)]),
          lambda x: CT.Record([('b', CT.int32), ('a', x)]), lambda x: CT.Tuple([x]),
          lambda x: CT.Tuple([CT.int32, x]), lambda x: CT.Map(x, CT.int32),
          lambda x: CT.Map(CT.int32, x), lambda x: CT.Function(x, CT.DataShape(CT.int32)),
          lambda x: CT.Function(CT.DataShape(CT.int32), x), lambda x: CT.Units('m', x),
          lambda x: CT.Function(x), lambda x: CT.Categorical(['a', 'b'], x)]


def any_whole(h, name, skip=()):
    """every place a type can have a part in"""
    return WHOLES[h.pick(name + '.whole', [i for i in range(len(WHOLES)) if i not in skip])]


# what assert_dshape_equal can ignore
FLAGS = ['check_dim', 'check_tz', 'check_timedelta_unit', 'check_str_encoding',
         'check_str_fixlen', 'check_record_order']


def agree(a, b, fl):
    """are a and b equal up to the ignored aspects"""
    if isinstance(a, CT.DataShape) or isinstance(b, CT.DataShape):
        if fl['check_dim']:
            s, t = [x.shape if isinstance(x, CT.DataShape) else () for x in (a, b)]
            if len(s) != len(t):
                return False
            for x, y in zip(s, t):
                if not same(x, y):
                    return False
        return agree(a.measure, b.measure, fl)
    if type(a) is not type(b):
        return False
    if type(a) in (CT.Time, CT.DateTime):
        return not fl['check_tz'] or a.tz == b.tz
    if type(a) is CT.TimeDelta:
        return not fl['check_timedelta_unit'] or a.unit == b.unit
    if type(a) is CT.String:
        if fl['check_str_encoding'] and a.encoding != b.encoding:
            return False
        return not fl['check_str_fixlen'] or a.fixlen == b.fixlen
    if type(a) is CT.Units:
        return a.unit == b.unit and agree(a.tp, b.tp, fl)
    if type(a) is CT.Option:
        return agree(a.ty, b.ty, fl)
    if type(a) is CT.Map:
        return agree(a.key, b.key, fl) and agree(a.value, b.value, fl)
    if type(a) is CT.Categorical:
        return (len(a.categories) == len(b.categories) and
                all(x == y for x, y in zip(a.categories, b.categories)) and
                a.ordered == b.ordered and agree(a.type, b.type, fl))
    if type(a) is CT.Record:
        fa, fb = list(a.fields), list(b.fields)
        if len(fa) != len(fb):
            return False
        if not fl['check_record_order']:
            db = dict(fb)
            for n, x in fa:
                if n not in db or not agree(x, db[n], fl):
                    return False
            return True
        for (n, x), (m, y) in zip(fa, fb):
            if n != m or not agree(x, y, fl):
                return False
        return True
    if type(a) is CT.Tuple:
        return len(a.dshapes) == len(b.dshapes) and all(
            agree(x, y, fl) for x, y in zip(a.dshapes, b.dshapes))
    if type(a) is CT.Function:
        return len(a.parameters) == len(b.parameters) and all(
            agree(x, y, fl) for x, y in zip(a.parameters, b.parameters))
    return same(a, b)


LONG = ['dims', 'record', 'tuple', 'function', 'deep', 'options']


def build_long(kind, dims):
    """a type of many parts or levels, one for each dimension; None leaves one out"""
    parts = [CT.DataShape(CT.int8) if d is None else CT.DataShape(d, CT.int8) for d in dims]
    if kind == 'dims':
        return CT.DataShape(*[d for d in dims if d is not None] + [CT.int32])
    if kind == 'record':
        return CT.DataShape(CT.Record([('f%d' % i, p) for i, p in enumerate(parts)]))
    if kind == 'tuple':
        return CT.DataShape(CT.Tuple(parts))
    if kind == 'function':
        return CT.DataShape(CT.Function(*parts))
    m = CT.DataShape(CT.int32)
    for d in reversed(dims):
        front = [] if d is None else [d]
        if kind == 'deep':
            m = CT.DataShape(*front + [CT.Record([('a', CT.int8), ('b', m)])])
        else:
            m = CT.DataShape(*front + [CT.Option(m)])
    return m


def long_place(h, name, sizes=(5, 8, 17), most=9):
    """a number of parts, larger than anywhere in the tests, and one of the places"""
    n = h.pick(name + '.n', h.bound(list(sizes), list(range(2, most + 1)) +
                                    [i for i in (17, 33) if sizes[-1] == 17]))
    if n in (17, 33):
        return n, h.pick(name + '.j', [0, 1, n // 2, n - 2, n - 1])
    return n, h.choice(name + '.j', n)


def long_type(h, name, kinds=LONG, dims='fv', sizes=(5, 8, 17), most=9):
    """a type of many parts in one of which stands any dimension"""
    n, j = long_place(h, name, sizes, most)
    k = h.pick(name + '.long', kinds)
    out = [CT.Fixed(i + 2) for i in range(n)]
    out[j] = gen_dim(h, name + '.d', dims)
    return k, out, j, build_long(k, out)


def two_names(h, name, n=1):
    """two different field names of any printable characters"""
    a, b = [h.text('%s.%s' % (name, c), 0, n, PRINTABLE) for c in 'ab']
    h.assume(a != b)
    return a, b
