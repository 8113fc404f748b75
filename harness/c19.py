"""C19: assert_dshape_equal passes iff the types are equal up to what the flags ignore"""
A = ds.util.testing.assert_dshape_equal
def verdict(h, a, b, fl):
    """compare a and b both ways"""
    kw = dict((k, v) for k, v in fl.items() if not v)
    want = agree(a, b, fl)
    for x, y in ((a, b), (b, a)):
        e = raised(lambda: A(x, y, **kw), AssertionError)
        h.check((e is None) == want, 'the verdict is wrong: %s' % (
            'equal types differ' if want else 'different types are equal'), 'verdict')
        if e is not None:
            h.check(len(str(e)) > 0, 'a message')
    for x in (a, b):
        h.check(raised(lambda: A(x, x, **kw), AssertionError) is None, 'a type equals itself',
                'self')
    h.reach('equal' if want else 'different')
    if want and kw and not same(a, b):
        h.reach('ignored')


def all_flags():
    return dict((f, True) for f in FLAGS)


def one_flag(h):
    fl = all_flags()
    k = h.choice('flag', len(FLAGS) + 1)
    if k:
        fl[FLAGS[k - 1]] = False
    return fl


def leaf(h, p):
    k = h.pick(p, ['string', 'time', 'datetime', 'timedelta', 'units', 'int32', 'decimal',
                   'typevar'])
    if k == 'string':
        enc = h.pick(p + '.enc', ['U8', 'A', 'U16'])
        return CT.String(enc) if h.bool(p + '.nolen') else CT.String(h.int(p + '.len', 0, 999),
                                                                    enc)
    if k == 'time':
        return CT.Time(None if h.bool(p + '.notz') else h.char(p + '.tz', LOWER))
    if k == 'datetime':
        return CT.DateTime(None if h.bool(p + '.notz') else h.char(p + '.tz', LOWER))
    if k == 'timedelta':
        return CT.TimeDelta(h.pick(p + '.unit', ['ns', 'us', 'D']))
    if k == 'units':
        return CT.Units(h.char(p + '.u', LOWER), CT.DataShape(
            CT.String(h.int(p + '.len', 0, 99), 'A') if h.bool(p + '.tp') else CT.float64))
    if k == 'int32':
        return CT.int32
    if k == 'decimal':
        return CT.Decimal(h.int(p + '.prec', 1, 99), h.int(p + '.scale', 0, 9))
    return CT.TypeVar(h.char(p + '.tv', UPPER))


def leaves(h):
    """every pair of element types, with any one aspect ignored"""
    verdict(h, CT.DataShape(leaf(h, 'a')), CT.DataShape(leaf(h, 'b')), one_flag(h))


def all_ignored(h):
    """with any aspects ignored together"""
    fl = dict((f, h.bool(f)) for f in FLAGS[1:5])
    fl.update(check_dim=True, check_record_order=True)
    k = h.choice('k', 3)

    def mk(p):
        if k == 0:
            return CT.String(h.int(p + 'l', 0, 99), h.pick(p + 'e', ['U8', 'A']))
        if k == 1:
            return CT.DateTime(h.char(p + 'tz', LOWER))
        return CT.TimeDelta(h.pick(p + 'u', ['us', 'ns']))
    verdict(h, CT.DataShape(mk('a')), CT.DataShape(mk('b')), fl)


def dimensions(h):
    """shapes, whether dimensions are checked or not"""
    fl = all_flags()
    fl['check_dim'] = h.bool('dim')
    xs = [CT.DataShape(*[gen_dim(h, '%s%d' % (p, i), 'svtea' if i == 0 else 'svt') for i in range(h.choice(p, 3))] +
                       [h.pick(p + 'm', [CT.int32, CT.string])]) for p in 'ab']
    verdict(h, xs[0], xs[1], fl)


def wrap(h, kind, x, y=None):
    """x inside a composite type"""
    if kind == 'option':
        return CT.DataShape(CT.Option(x))
    if kind == 'record':
        return CT.DataShape(CT.Record([('k', CT.DataShape(CT.int8)), ('f', x)]))
    if kind == 'tuple':
        return CT.DataShape(CT.Tuple([CT.DataShape(CT.int8), x]))
    if kind == 'argument':
        return CT.DataShape(CT.Function(x, CT.DataShape(CT.int8)))
    if kind == 'result':
        return CT.DataShape(CT.Function(CT.DataShape(CT.int8), x))
    if kind == 'units':
        return CT.DataShape(CT.Units('m', x))
    if kind == 'key':
        return CT.DataShape(CT.Map(x, CT.DataShape(CT.int8)))
    if kind == 'categorical':
        return CT.DataShape(CT.Categorical(['k'], x.measure))
    return CT.DataShape(CT.Map(CT.DataShape(CT.int8), x))


def nested(h):
    """differences and flags reach into composite types"""
    kinds = ['option', 'record', 'tuple', 'argument', 'result', 'key', 'value', 'categorical']
    leafk = h.choice('leaf', 4)
    fl = one_flag(h)

    def base(p):
        if leafk == 0:
            return CT.DataShape(CT.String(h.int(p + 'l', 0, 99), h.pick(p + 'e', ['U8', 'A'])))
        if leafk == 1:
            return CT.DataShape(CT.DateTime(h.char(p + 'tz', LOWER)))
        if leafk == 2:
            return CT.DataShape(CT.TimeDelta(h.pick(p + 'u', ['us', 'ns'])))
        return CT.DataShape(*[gen_dim(h, p + 'd', 'fv')][h.choice(p + 'r', 2):] + [CT.int32])
    a, b = base('a'), base('b')
    for i in range(1 + h.choice('depth', h.bound(2, 3))):
        k = h.pick('w%d' % i, kinds)
        a, b = wrap(h, k, a), wrap(h, k, b)
    verdict(h, a, b, fl)


def field_orders(h):
    """fields in any order, of any names and types"""
    fl = all_flags()
    fl['check_record_order'] = h.bool('order')
    if h.bool('nolen'):
        fl['check_str_fixlen'] = False
    n = 1 + h.choice('n', h.bound(2, 3))

    def rec(p):
        cs = [h.char('%sf%d' % (p, i), ((65, 66), (97, 98))) for i in range(n)]
        for i in range(n):
            for j in range(i):
                h.assume(cs[i] != cs[j])
        return CT.Record([(c, CT.String(h.int('%sl%d' % (p, i), 0, 99), 'A'))
                          for i, c in enumerate(cs)])
    a, b = rec('a'), rec('b')
    if h.bool('nest'):
        a, b = CT.Record([('r', a)]), CT.Record([('r', b)])
    verdict(h, CT.DataShape(a), CT.DataShape(b), fl)


def kinds(h):
    """types of different kinds are different, with any flag"""
    def mk(p):
        k = h.choice(p, 12)
        d = CT.DataShape(CT.int32)
        return [CT.int32, CT.string, CT.DateTime('a'), CT.Time('a'), CT.TimeDelta('us'),
                CT.Option(CT.int32), CT.Record([('a', CT.int32)]), CT.Tuple([d]),
                CT.Function(d, d), CT.Map(CT.int32, CT.int32), CT.Units('m', d),
                CT.Categorical(['a'], CT.string)][k]
    a, b = mk('a'), mk('b')
    n = h.choice('rank', 2)
    dims = [CT.Fixed(h.int('n', 0, 9))] if n else []
    x, y = CT.DataShape(*dims + [a]), CT.DataShape(*dims + [b])
    bare = h.choice('bare', 4)
    verdict(h, a if bare & 1 else x, b if bare & 2 else y, one_flag(h))


def counts(h):
    """different numbers of fields, elements and arguments"""
    n, m = h.choice('n', 3), h.choice('m', 3)
    k = h.choice('k', 3)

    def mk(c):
        d = CT.DataShape(CT.int32)
        if k == 0:
            return CT.Record([('abc'[i], CT.int32) for i in range(c)])
        if k == 1:
            return CT.Tuple([d] * c)
        return CT.Function(*[d] * (c + 1))
    verdict(h, CT.DataShape(mk(n)), CT.DataShape(mk(m)), one_flag(h))


def categoricals(h):
    """categories and their order count whatever is ignored"""
    def mk(p):
        return CT.Categorical([h.char('%sc%d' % (p, i), LOWER) if h.bool('%st%d' % (p, i)) else
                               h.int('%sn%d' % (p, i), -3, 3)
                               for i in range(1 + h.choice(p + 'n', 2))],
                              CT.String(h.int(p + 'l', 0, 99), 'A'), ordered=h.bool(p + 'o'))
    verdict(h, CT.DataShape(mk('a')), CT.DataShape(mk('b')), one_flag(h))


leaves.reach = categoricals.reach = nested.reach = field_orders.reach = dimensions.reach = all_ignored.reach = [
    'equal', 'different', 'ignored']
kinds.reach = counts.reach = ['equal', 'different']
def everything(h):
    """every type as every part of every other, against every other type there"""
    f = any_whole(h, 'x')
    rank = 1 if f is not WHOLES[-1] else 0
    x = any_part(h, 'x', rank)
    a = f(x)
    fl = all_flags()
    for y in EVERY:
        b = f(CT.DataShape(*list(x.shape) + [y]))
        want = same(y, x.measure)
        for p, q in ((a, b), (b, a)):
            e = raised(lambda: A(p, q), AssertionError)
            h.check((e is None) == want, 'the verdict is wrong', 'verdict')
        if type(y) is type(x.measure):
            kw = dict((k, False) for k in FLAGS)
            for k in [None] + FLAGS:
                fl = all_flags()
                if k:
                    fl[k] = False
                e = raised(lambda: A(a, b, **({k: False} if k else {})), AssertionError)
                h.check((e is None) == agree(a, b, fl), 'the verdict is wrong', 'verdict')
    h.reach('done')



everything.reach = ['done']


def many(h):
    """types of many parts, one of which differs"""
    k, dims, j, x = long_type(h, 'x', dims='sv', sizes=(5, 17))
    fl = all_flags()
    fl['check_dim'] = h.bool('dim')
    d = gen_dim(h, 'y', 'svt')
    verdict(h, x, build_long(k, dims[:j] + [d] + dims[j + 1:]), fl)
    verdict(h, x, build_long(k, dims[:j] + [None] + dims[j + 1:]), fl)
    if k in ('record', 'tuple', 'function'):
        verdict(h, x, build_long(k, dims[:j] + dims[j + 1:]), fl)
    if k == 'record':
        r = x.measure
        i = h.choice('i', len(dims))
        fs = list(r.fields)
        fs[i], fs[j] = fs[j], fs[i]
        fl = all_flags()
        fl['check_record_order'] = False
        verdict(h, x, CT.DataShape(CT.Record(fs)), fl)


many.reach = ['equal', 'different', 'ignored']


def categories(h):
    """categoricals of more categories, one of which differs, is missing, or all in another order"""
    cats = [h.int('c0', 0, 9), 'b', 2, 'd', 4, 'f'][:2 + h.choice('cats', 5)]
    other = list(cats)
    at = h.choice('at', len(cats))
    how = h.choice('how', 3)
    if how == 0:
        other[at] = h.int('c1', 0, 9)
    elif how == 1:
        other.pop(at)
    else:
        other = other[at:] + other[:at]
    fl = all_flags()
    for k in [None] + FLAGS:
        fl = all_flags()
        if k:
            fl[k] = False
        verdict(h, CT.DataShape(CT.Categorical(cats, CT.string)),
                CT.DataShape(CT.Categorical(other, CT.string)), fl)


categories.reach = ['equal', 'different']


HARNESSES = [leaves, all_ignored, dimensions, nested, field_orders, kinds, counts, categoricals,
             everything, many, categories]
