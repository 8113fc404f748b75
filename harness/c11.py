"""C11: conversion to and from NumPy keeps shape and element type"""
import numpy as np
N = 10 ** 20

SCALARS = [(CT.bool_, '?'), (CT.int8, 'i1'), (CT.int16, 'i2'), (CT.int32, 'i4'), (CT.int64, 'i8'),
           (CT.uint8, 'u1'), (CT.uint16, 'u2'), (CT.uint32, 'u4'), (CT.uint64, 'u8'),
           (CT.float16, 'f2'), (CT.float32, 'f4'), (CT.float64, 'f8'), (CT.complex64, 'c8'),
           (CT.complex128, 'c16'), (CT.object_, 'O'), (CT.date_, 'M8[D]'),
           (CT.datetime_, 'M8[us]'), (CT.TimeDelta('us'), 'm8[us]'), (CT.TimeDelta('ns'), 'm8[ns]'),
           (CT.TimeDelta('ms'), 'm8[ms]'), (CT.TimeDelta('s'), 'm8[s]'), (CT.TimeDelta('m'), 'm8[m]'),
           (CT.TimeDelta('h'), 'm8[h]'), (CT.TimeDelta('D'), 'm8[D]'), (CT.TimeDelta('W'), 'm8[W]'),
           (CT.TimeDelta('M'), 'm8[M]'), (CT.TimeDelta('Y'), 'm8[Y]'),
           (CT.String(7, 'A'), 'S7'), (CT.String(30, 'U32'), 'U30')]


def gen_shape(h, n):
    return tuple([h.int('n%d' % i, 0, N) for i in range(n)])


def scalars(h):
    """arrays of every scalar type, any shape"""
    m, name = h.pick('m', SCALARS)
    dt = np.dtype(name)
    shape = gen_shape(h, h.choice('rank', h.bound(4, 6)))
    x = CT.DataShape(*[CT.Fixed(n) for n in shape] + [m])
    got = CT.to_numpy(x)
    h.check(isinstance(got, tuple) and len(got) == 2, 'a pair')
    h.check(lambda: got[0] == shape, 'shape of an array')
    h.check(got[1] == dt and got[1].kind == dt.kind, 'element type')
    h.check(CT.to_numpy_dtype(x) == dt and CT.to_numpy_dtype(m) == dt, 'element type alone')
    h.check(lambda: CT.to_numpy(m) == ((), dt), 'a scalar has no dimensions')
    back = CT.from_numpy(shape, dt)
    h.check(lambda: same(back, x), 'from NumPy')
    h.check(lambda: back == x if shape else back == m, 'from NumPy, equal')
    h.check(lambda: same(CT.from_numpy(*CT.to_numpy(x)), x), 'there and back')
    h.check(lambda: same(CT.from_numpy(shape, dt.newbyteorder('>')), x) and
            same(CT.from_numpy(list(shape), name), x), 'from NumPy in another byte order')
    h.check(lambda: CT.to_numpy(CT.from_numpy(shape, dt))[0] == shape, 'back and there')
    h.check(CT.to_numpy(CT.from_numpy(shape, dt))[1] == dt, 'back and there')
    h.reach('done')


def strings(h):
    """text of fixed length in every encoding"""
    n = h.int('n', 1, 5 * 10 ** 8)
    enc = h.pick('enc', ['A', 'U8', 'U16', 'U32'])
    x = CT.String(n, enc)
    dt = x.to_numpy_dtype()
    if enc == 'A':
        h.check(lambda: dt.kind == 'S' and dt.itemsize == n, 'bytes of an ASCII string')
    else:
        h.check(lambda: dt.kind == 'U' and dt.itemsize == 4 * n, 'characters of a string')
    y = CT.from_numpy((), dt)
    h.check(lambda: same(y, CT.String(n, 'A' if enc == 'A' else 'U32')), 'string from NumPy')
    z = CT.CType.from_numpy_dtype(dt)
    h.check(lambda: same(z, y), 'string from a dtype')
    h.check(CT.String(enc).to_numpy_dtype().kind == 'O', 'text of any length is an object')
    h.reach('done')


def structs(h):
    """records become structured types, fields in order, and back"""
    k = 1 + h.choice('k', h.bound(2, 3))
    names = h.pick('names', [['b', 'a', 'c'], ['x y', '0', 'z']])
    fields, nf = [], []
    for i in range(k):
        j = h.choice('t%d' % i, 5)
        if j < 4:
            m, name = SCALARS[[2, 11, 27, 28][j]]
            dt = np.dtype(name)
        else:
            (m1, n1), (m2, n2) = SCALARS[3], SCALARS[15]
            m = CT.Record([('q', m1), ('p', m2)])
            dt = np.dtype([('q', n1), ('p', n2)])
        fields.append((names[i], m))
        nf.append((names[i], dt))
    shape = gen_shape(h, h.choice('rank', 3))
    rec = CT.Record(fields)
    dt = np.dtype(nf)
    x = CT.DataShape(*[CT.Fixed(n) for n in shape] + [rec])
    got = CT.to_numpy(x)
    h.check(lambda: got[0] == shape, 'shape of an array of records')
    h.check(got[1] == dt and got[1].names == dt.names, 'structured type')
    back = CT.from_numpy(shape, dt)
    h.check(lambda: same(back, x), 'record from NumPy')
    h.check(rec.names == names[:k], 'operand changed')
    tup = CT.Tuple([m for a, m in fields])
    td = tup.to_numpy_dtype()
    h.check(td == np.dtype([('f%d' % i, d) for i, (a, d) in enumerate(nf)]), 'tuple')
    h.reach('done')


def subarrays(h):
    """fields with dimensions of their own come from NumPy with these dimensions"""
    a, b = 1 + h.choice('a', 4), 1 + h.choice('b', 4)
    n = h.int('n', 0, N)
    m, name = SCALARS[[3, 11, 27, 15][h.choice('m', 4)]]
    shape = h.pick('shape', [(a,), (a, b), (a, 2, b), (2, b, a, 3)])
    k = h.choice('nest', 3)
    h.assume(len(shape) < 3 or a < 3 or b < 3)
    if k:
        # the elements of the field are records
        m = CT.Record([('q', m), ('p', CT.int8)])
        name = [('q', name), ('p', 'i1')]
    if k == 2:
        m = CT.Record([('r', CT.DataShape(CT.Fixed(b), m))])
        name = [('r', name, (b,))]
    dt = np.dtype([('x', name, shape), ('y', 'i2')])
    got = CT.from_numpy((n,), dt)
    want = CT.DataShape(CT.Fixed(n), CT.Record([
        ('x', CT.DataShape(*[CT.Fixed(k) for k in shape] + [m])), ('y', CT.int16)]))
    h.check(lambda: same(got, want), 'dimensions of fields')
    h.reach('done')


def layouts(h):
    """the layout of a structured type in memory does not matter: offsets in any order,
    gaps, titles, alignment, byte order"""
    k = 2 + h.choice('k', 2)
    codes = [h.pick('c%d' % i, ['i4', 'f8', 'i1']) for i in range(k)]
    types = {'i4': CT.int32, 'f8': CT.float64, 'i1': CT.int8}
    names = ['b', 'a', 'c'][:k]
    rest, offsets = list(range(k)), []
    for i in range(k):
        offsets.append(16 * rest.pop(h.choice('o%d' % i, len(rest))))
    order = h.pick('order', ['<', '>'])
    spec = {'names': names, 'formats': [order + c for c in codes], 'offsets': offsets}
    extra = h.choice('extra', 3)
    if extra == 1:
        spec['itemsize'] = 100
    elif extra == 2:
        spec['titles'] = ['title ' + n for n in names]
    dt = np.dtype(spec)
    n = h.int('n', 0, N)
    got = CT.from_numpy((n,), dt)
    want = CT.DataShape(CT.Fixed(n), CT.Record([(a, types[c]) for a, c in zip(names, codes)]))
    h.check(lambda: same(got, want), 'fields of a structured type')
    h.check(lambda: same(CT.from_numpy((), np.dtype(order + codes[0])), types[codes[0]]),
            'byte order')
    h.reach('done')


def dimensions(h):
    """type variables have unknown extent, variable dimensions none in NumPy"""
    n = 1 + h.choice('n', h.bound(3, 4))
    dims = [gen_dim(h, 'd%d' % i, 'fvt' if i else 'fvte') for i in range(n)]
    x = CT.DataShape(*dims + [CT.int32])
    if any(isinstance(d, (CT.Var, CT.Ellipsis)) for d in dims):
        h.check(raised(lambda: CT.to_numpy(x), TypeError) is not None,
                'a variable dimension is accepted')
        h.reach('refused')
    else:
        shape, dt = CT.to_numpy(x)
        want = tuple([d.val if type(d) is CT.Fixed else -1 for d in dims])
        h.check(lambda: shape == want, 'extents')
        h.check(dt == np.dtype('i4'), 'element type')
        h.reach('done')
    h.check(CT.to_numpy_dtype(x) == np.dtype('i4'), 'the element type alone')


def decimals(h):
    """the container of a decimal holds every value of its precision, and is the smallest"""
    p = h.int('p', 1, 100)
    s = h.int('s', -5, 100)
    x = CT.Decimal(p, s)
    try:
        dt = x.to_numpy_dtype()
    except TypeError:
        h.check(lambda: s == 0 and p > 18, 'a decimal that has a container is refused')
        h.reach('refused')
        return
    if s != 0:
        h.check(dt == np.dtype('f8'), 'decimals with scale are floats')
        h.reach('float')
        return
    h.check(dt.kind == 'i', 'an integer container')
    digits = {1: 2, 2: 4, 4: 9, 8: 18}[dt.itemsize]
    smaller = {1: 0, 2: 2, 4: 4, 8: 9}[dt.itemsize]
    h.check(lambda: p <= digits, 'the container is too small')
    h.check(lambda: p > smaller, 'a smaller container would do')
    h.check(10 ** digits - 1 <= np.iinfo(dt).max < 10 ** (digits + 1), 'digits of the container')
    h.reach('int%d' % dt.itemsize)


def options(h):
    """missing values exist in NumPy for dates and times only"""
    m, name = h.pick('m', SCALARS)
    n = h.int('n', 0, N)
    x = CT.DataShape(CT.Fixed(n), CT.Option(m))
    if np.dtype(name).kind in 'mM':
        got = CT.to_numpy(x)
        h.check(lambda: got[0] == (n,), 'shape')
        h.check(got[1] == np.dtype(name), 'element type')
        h.reach('done')
    else:
        h.check(raised(lambda: CT.to_numpy(x), TypeError) is not None,
                'missing values are accepted')
        h.reach('refused')
    for y in (CT.json, CT.null, CT.TypeVar('T'), CT.Units('m'), CT.Function(CT.int8, CT.int8)):
        h.check(raised(lambda: CT.to_numpy(CT.DataShape(CT.Fixed(n), y)), TypeError) is not None,
                'a type without NumPy counterpart is accepted')


def date_units(h):
    """units of dates and times as NumPy stores them"""
    u = h.pick('u', ['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns'])
    n = h.int('n', 0, N)
    x = CT.from_numpy((n,), np.dtype('M8[%s]' % u))
    h.check(lambda: same(x, CT.DataShape(CT.Fixed(n), CT.date_ if u in 'YMWD' else CT.datetime_)),
            'dates')
    y = CT.from_numpy((n,), np.dtype('m8[%s]' % u))
    h.check(lambda: same(y, CT.DataShape(CT.Fixed(n), CT.TimeDelta(u))), 'durations')
    h.reach('done')


for f in (scalars, strings, structs, subarrays, date_units):
    f.reach = ['done']
dimensions.reach = options.reach = ['done', 'refused']
decimals.reach = ['refused', 'float', 'int1', 'int2', 'int4', 'int8']
REALIZE_FLIPS = 24


SIZED = ['bool_', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16',
         'float32', 'float64', 'complex64', 'complex128', 'object_', 'c_long', 'c_short', 'c_ulong',
         'intptr', 'uintptr', 'c_size_t', 'c_ssize_t', 'real', 'int_', 'complex_', 'half', 'single',
         'double', 'c_byte', 'c_int', 'c_longlong', 'c_float', 'c_double', 'c_ubyte', 'c_ushort']
NATIVE = {'real': 'float64', 'int_': 'int32', 'complex_': 'complex128', 'half': 'float16',
          'single': 'float32', 'double': 'float64', 'c_byte': 'int8', 'c_int': 'int32',
          'c_longlong': 'int64', 'c_float': 'float32', 'c_double': 'float64', 'c_ubyte': 'uint8',
          'c_ushort': 'uint16', 'c_long': 'long', 'c_short': 'short', 'c_ulong': 'ulong',
          'c_size_t': 'uintp', 'c_ssize_t': 'intp', 'intptr': 'intp', 'uintptr': 'uintp',
          'bool_': 'bool', 'object_': 'O'}


def sizes(h):
    """native types have the size, alignment and NumPy type of what they name; an option
    has the size of its type, a map the NumPy type of its keys"""
    name = h.pick('name', SIZED)
    t = getattr(CT, name)
    dt = np.dtype(NATIVE.get(name, name))
    h.check(t.to_numpy_dtype() == dt, 'the NumPy type')
    h.check(t.itemsize == dt.itemsize and t.alignment == dt.alignment, 'size and alignment')
    h.check(CT.Option(t).itemsize == dt.itemsize, 'size of an option')
    h.check(same(CT.CType.from_numpy_dtype(dt), t), 'back from NumPy')
    n = h.int('n', 0, 10 ** 6)
    m = CT.Map(t, CT.DataShape(CT.Fixed(n), CT.string))
    h.check(lambda: ds.to_numpy_dtype(m) == dt and
            ds.to_numpy_dtype(CT.DataShape(CT.Fixed(n), m)) == dt and m.to_numpy_dtype() == dt,
            'the keys of a map')
    h.reach('done')


sizes.reach = ['done']
def container(t):
    """the NumPy type of a type; None where there is none"""
    if isinstance(t, CT.DataShape):
        return container(t.measure)
    if isinstance(t, CT.Option):
        t = t.ty
        return container(t) if type(t) in (CT.Date, CT.DateTime, CT.TimeDelta) else None
    if isinstance(t, CT.Map):
        return container(t.key)
    if isinstance(t, CT.Record) or isinstance(t, CT.Tuple):
        fs = (list(t.fields) if isinstance(t, CT.Record) else
              [('f%d' % i, x) for i, x in enumerate(t.dshapes)])
        ts = [(n, container(x)) for n, x in fs]
        if any(x is None for n, x in ts):
            return None
        return np.dtype(ts)
    if isinstance(t, CT.CType):
        return None if t is CT.char else np.dtype({'complex[float32]': 'c8', 'complex[float64]': 'c16'}.get(t.name, t.name))
    if isinstance(t, CT.String):
        return np.dtype('O' if not t.fixlen else '%s%d' % ('S' if t.encoding == 'A' else 'U', t.fixlen))
    if isinstance(t, CT.Decimal):
        return np.dtype('f8')
    if isinstance(t, CT.TimeDelta):
        return np.dtype('m8[%s]' % t.unit)
    if isinstance(t, CT.Date):
        return np.dtype('M8[D]')
    if isinstance(t, CT.DateTime):
        return np.dtype('M8[us]')
    return None


def everything(h):
    """every type in every place has its container, or is refused"""
    i = h.choice('f', 9)
    m = any_leaf(h, 'm', ['record0', 'tuple0'])
    x = [lambda: m, lambda: CT.Option(m), lambda: CT.Record([('b', m)]),
         lambda: CT.Record([('b', CT.int8), ('a', m)]), lambda: CT.Tuple([m, CT.int8]),
         lambda: CT.Tuple([CT.Option(CT.date_), m]), lambda: CT.Map(m, CT.int8),
         lambda: CT.Map(CT.int8, m), lambda: CT.Record([('r', CT.Record([('a', m)]))])][i]()
    n = h.int('n', 0, N)
    want = container(x)
    a = CT.DataShape(CT.Fixed(n), x)
    if want is None:
        for f in (lambda: CT.to_numpy(a), lambda: CT.to_numpy_dtype(a), lambda: CT.to_numpy_dtype(x),
                  lambda: x.to_numpy_dtype()):
            h.check(raised(f, TypeError) is not None, 'a type without NumPy counterpart is accepted')
        h.reach('refused')
    else:
        got = CT.to_numpy(a)
        h.check(lambda: got[0] == (n,), 'shape')
        h.check(got[1] == want and got[1].names == want.names, 'element type')
        h.check(CT.to_numpy_dtype(a) == want and CT.to_numpy_dtype(x) == want, 'element type alone')
        h.reach('done')



everything.reach = ['done', 'refused']


def many(h):
    """many dimensions, many fields"""
    n, j = long_place(h, 'x')
    shape = list(range(2, 2 + n))
    shape[j] = h.int('n', 0, N)
    m, name = h.pick('m', SCALARS[2:28:8])
    dt = np.dtype(name)
    x = CT.DataShape(*[CT.Fixed(i) for i in shape] + [m])
    h.check(lambda: CT.to_numpy(x) == (tuple(shape), dt), 'shape of an array')
    h.check(lambda: same(CT.from_numpy(tuple(shape), dt), x), 'from NumPy')
    bad = CT.DataShape(*[CT.Var() if i == j else CT.Fixed(d) for i, d in enumerate(shape)] + [m])
    h.check(raised(lambda: CT.to_numpy(bad), TypeError) is not None,
            'a variable dimension is accepted')
    fields = [('f%d' % (n - i), SCALARS[i % 8]) for i in range(n)]
    fields[j] = (fields[j][0], (m, name))
    rec = CT.Record([(a, t) for a, (t, q) in fields])
    want = np.dtype([(a, q) for a, (t, q) in fields])
    y = CT.DataShape(CT.Fixed(shape[j]), rec)
    got = CT.to_numpy(y)
    h.check(lambda: got[0] == (shape[j],), 'shape of an array of records')
    h.check(got[1] == want and got[1].names == want.names, 'structured type')
    h.check(lambda: same(CT.from_numpy((shape[j],), want), y), 'record from NumPy')
    h.reach('done')


many.reach = ['done']


def long_tuples(h):
    """the parts of a tuple are named by their places, however many there are"""
    n = h.pick('n', h.bound([12], [2, 9, 10, 11, 12, 21]))
    j = h.choice('j', n)
    m, name = h.pick('m', SCALARS[:h.bound(9, len(SCALARS))])
    parts = [CT.int16] * n
    parts[j] = m
    dt = CT.to_numpy_dtype(CT.Tuple(parts))
    h.check(dt.names == tuple('f%d' % i for i in range(n)), 'names of parts')
    h.check(all(dt[i] == np.dtype(name if i == j else 'i2') for i in range(n)), 'parts')
    k = h.int('k', 0, N)
    x = CT.to_numpy(CT.DataShape(CT.Fixed(k), CT.Tuple(parts)))
    h.check(lambda: x[0] == (k,) and x[1] == dt, 'an array of tuples')
    h.reach('done')


long_tuples.reach = ['done']


HARNESSES = [sizes, scalars, strings, structs, subarrays, layouts, dimensions, decimals, options,
             date_units, everything, many, long_tuples]
