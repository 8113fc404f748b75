"""C12: promotion yields the same least common type in either order"""
import numpy as np
NUMERIC = ['bool_', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64',
           'float16', 'float32', 'float64', 'complex64', 'complex128']


def option(h, name, t):
    return CT.Option(t) if h.bool(name) else t


def base(t):
    return t.ty if isinstance(t, CT.Option) else t


def laws(h, x, y):
    """what holds for every pair of operands"""
    a, b = ds.promote(x, y), ds.promote(y, x)
    h.check(lambda: same(a, b) and a == b, 'the order of the operands matters', 'order')
    opt = isinstance(x, CT.Option) or isinstance(y, CT.Option)
    h.check(isinstance(a, CT.Option) == opt, 'missing values', 'option')
    h.check(not isinstance(base(a), CT.Option), 'an option of an option', 'option')
    h.check(lambda: same(ds.promote(x, x), x) and same(ds.promote(y, y), y), 'idempotent',
            'idempotent')
    h.check(lambda: same(ds.promote(a, x), a) and same(ds.promote(y, a), a),
            'the common type absorbs its operands', 'absorb')
    c = ds.promote(x, y, promote_option=False)
    if not same(x, y):
        h.check(lambda: same(c, base(a)), 'promotion without options', 'plain')
        h.check(lambda: same(ds.promote(y, x, promote_option=False), c),
                'the order of the operands matters', 'order')
        h.check(lambda: same(ds.promote(base(x), base(y)), base(a)), 'options change the type',
                'independent')
    o = ds.optionify(x, y, c)
    h.check(lambda: same(o, a if not same(x, y) else o) and isinstance(o, CT.Option) == opt,
            'optionify', 'optionify')
    h.check(same(ds.optionify(x, y, CT.Option(CT.int8)), CT.Option(CT.int8)),
            'optionify makes an option of an option', 'optionify')
    d = CT.DataShape(CT.Var(), CT.Option(CT.int8))
    h.check(lambda: same(ds.optionify(x, y, d), d), 'optionify makes an option of options',
            'optionify')
    return a


def numeric(h):
    """every pair of numeric types, optional or not"""
    p, q = getattr(CT, h.pick('p', NUMERIC)), getattr(CT, h.pick('q', NUMERIC))
    a = base(laws(h, option(h, 'po', p), option(h, 'qo', q)))
    da, dp, dq = [np.dtype(str(CT.to_numpy_dtype(t))) for t in (a, p, q)]
    h.check(np.can_cast(dp, da, 'safe') and np.can_cast(dq, da, 'safe'),
            'the common type does not hold the values of its operands')
    for n in NUMERIC:
        t = CT.to_numpy_dtype(getattr(CT, n))
        if np.can_cast(dp, t, 'safe') and np.can_cast(dq, t, 'safe'):
            h.check(t.itemsize >= da.itemsize, 'a smaller common type exists')
    h.reach('done')


def other(h):
    """dates, texts and objects"""
    kinds = [CT.date_, CT.datetime_, CT.string, CT.object_, CT.TimeDelta('s'), CT.TimeDelta('D'),
             CT.TimeDelta('us')]
    i, j = h.choice('i', 7), h.choice('j', 7)
    g = [0, 0, 1, 2, 3, 3, 3]
    h.assume(g[i] == g[j])
    x, y = option(h, 'xo', kinds[i]), option(h, 'yo', kinds[j])
    a = base(laws(h, x, y))
    if i == j:
        h.check(lambda: same(a, kinds[i]), 'one type promotes to itself')
    if g[i] == 0 and i != j:
        h.check(lambda: same(a, CT.datetime_), 'a date and a time of day')
    h.reach('done')


def decimals(h):
    """decimals promote like their containers"""
    p, s = h.int('p', 1, 18), h.int('s', 0, 10)
    x = CT.Decimal(p, s)
    t = getattr(CT, h.pick('q', NUMERIC))
    a = ds.promote(option(h, 'xo', x), option(h, 'yo', t))
    c = CT.CType.from_numpy_dtype(x.to_numpy_dtype())
    h.check(lambda: same(base(a), ds.promote(c, t)), 'a decimal and a number')
    b = ds.promote(t, x)
    h.check(lambda: same(base(a), b), 'the order of the operands matters')
    q, r = h.int('q2', 1, 18), h.int('r', 0, 10)
    y = CT.Decimal(q, r)
    u, v = ds.promote(x, y), ds.promote(y, x)
    h.check(lambda: same(u, v), 'two decimals, either order')
    if x != y:
        d = CT.CType.from_numpy_dtype(y.to_numpy_dtype())
        h.check(lambda: same(u, ds.promote(c, d)), 'two decimals')
        h.reach('different')
    else:
        h.check(lambda: same(u, x), 'one type promotes to itself')
        h.reach('equal')


def texts(h):
    """texts of fixed length get the longer length, in ASCII only if both are"""
    n, m = h.int('n', 1, 10 ** 6), h.int('m', 1, 10 ** 6)
    e, f = h.pick('e', ['A', 'U8', 'U16', 'U32']), h.pick('f', ['A', 'U8', 'U16', 'U32'])
    x, y = CT.String(n, e), CT.String(m, f)
    a = ds.promote(x, y)
    h.check(lambda: same(a, ds.promote(y, x)), 'the order of the operands matters', 'order')
    xo, yo = h.bool('xo'), h.bool('yo')
    if xo or yo:
        u, v = CT.Option(x) if xo else x, CT.Option(y) if yo else y
        b = ds.promote(u, v)
        h.check(type(b) is CT.Option and same(b.ty, a), 'options change the type', 'option')
        if x != y:
            h.check(lambda: same(ds.promote(u, v, promote_option=False), a),
                    'promotion without options', 'plain')
    if x == y:
        h.check(lambda: same(a, x), 'one type promotes to itself')
        h.reach('equal')
        return
    h.check(type(a) is CT.String, 'a text')
    h.check(lambda: a.fixlen == (n if n > m else m), 'the longer length')
    h.check((a.encoding == 'A') == (e == f == 'A'), 'the encoding')
    h.reach('different')


texts.reach = ['equal', 'different']


def refused(h):
    """types without a NumPy counterpart have no common type"""
    x = h.pick('x', [CT.Record([('a', CT.json)]), CT.json, CT.null, CT.TypeVar('T'),
                     CT.Decimal(19 + h.int('n', 0, 99), 0)])
    y = getattr(CT, h.pick('q', NUMERIC))
    e = raised(lambda: ds.promote(x, y), TypeError)
    f = raised(lambda: ds.promote(y, x), TypeError)
    h.check(e is not None and f is not None, 'promoted')
    h.reach('done')


numeric.reach = other.reach = refused.reach = ['done']
decimals.reach = ['different', 'equal']


def outcome(x, y, **kw):
    out = []
    e = raised(lambda: out.append(ds.promote(x, y, **kw)), TypeError, NotImplementedError)
    return None if e is not None else out[0]


def every(h):
    """any two types of the language: the same outcome in either order, optional or not; a type by
    itself is its own common type"""
    x = any_leaf(h, 'x')
    xo = option(h, 'xo', x) if type(x) is not CT.Option else x
    own = bool(raised(lambda: CT.to_numpy_dtype(CT.DataShape(base(x))), TypeError, NotImplementedError))
    h.check(lambda: same(ds.promote(xo, xo), xo), 'idempotent', 'idempotent')
    for y in EVERY:
        yo = y if type(y) is CT.Option else CT.Option(y)
        for z in (y, yo):
            a, b = outcome(xo, z), outcome(z, xo)
            h.check(lambda: same([a], [b]), 'the order of the operands matters', 'order')
            if same(xo, z):
                h.check(lambda: same(a, xo), 'idempotent', 'idempotent')
                continue
            c = outcome(xo, z, promote_option=False)
            h.check((a is None) == (c is None), 'promotion without options', 'plain')
            if a is None:
                h.reach('refused')
                continue
            opt = type(xo) is CT.Option or type(z) is CT.Option
            h.check((type(a) is CT.Option) == opt and same(base(a), c), 'missing values', 'option')
            if same(base(xo), base(z)):
                h.check(lambda: same(c, base(xo)), 'an option promotes to its own type', 'own')
            else:
                h.check(not own, 'a type NumPy does not know is promoted', 'unknown')
            h.reach('promoted')


every.reach = ['refused', 'promoted']


def results(h):
    """the result of an operation is optional iff an operand is, whatever it is an array of"""
    x, y = option(h, 'xo', CT.int8), option(h, 'yo', any_leaf(h, 'y', ('option',)))
    opt = isinstance(x, CT.Option) or isinstance(y, CT.Option)
    m = any_leaf(h, 'm')
    dims = [gen_dim(h, 'd%d' % i, 'fvt') for i in range(h.choice('rank', h.bound(2, 3)))]
    r = CT.DataShape(*dims + [m]) if dims or h.bool('bare') else m
    for a, b in ((x, y), (y, x)):
        o = ds.optionify(a, b, r)
        if opt and type(m) is not CT.Option:
            h.check(lambda: type(o) is CT.Option and same(o.ty, r), 'a result', 'optionify')
            h.check(lambda: same(ds.optionify(a, b, o), o), 'an option of an option', 'optionify')
        else:
            h.check(lambda: same(o, r), 'a result', 'optionify')
    h.reach('optional' if opt else 'plain')


results.reach = ['optional', 'plain']


HARNESSES = [numeric, other, decimals, texts, refused, every, results]
