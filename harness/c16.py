"""C16: predicates answer from the structure of the type alone"""
P_ = ds.predicates
U = ds.util
NUMBERS = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16',
           'float32', 'float64', 'complex64', 'complex128']
LEAVES = ['int32', 'str']
NODES = ['option', 'tuple', 'crecord', 'map']


def no_option(t):
    t = unwrap(t)
    return unwrap(t.ty) if isinstance(t, CT.Option) else t


def is_scalar(t):
    """a measure without components"""
    return isinstance(no_option(t), (CT.Unit, CT.Categorical))


def parts(t):
    """the components of a type"""
    if isinstance(t, CT.Record):
        return [x for n, x in t.fields]
    if isinstance(t, CT.Tuple):
        return list(t.dshapes)
    if isinstance(t, CT.Option):
        return [t.ty]
    if isinstance(t, CT.Map):
        return [t.key, t.value]
    if isinstance(t, CT.Function):
        return list(t.parameters)
    if isinstance(t, CT.DataShape):
        return list(t.parameters)
    if isinstance(t, CT.Units):
        return [t.tp]
    if isinstance(t, CT.Categorical):
        return [t.type]
    if isinstance(t, CT.Ellipsis):
        return [t.typevar] if t.typevar is not None else []
    return []


def anywhere(f, t):
    """does f hold for t or a component"""
    if f(t):
        return True
    for x in parts(t):
        if anywhere(f, x):
            return True
    return False


def outermost(f, t):
    """the outermost components for which f holds, in order"""
    if f(t):
        return [t]
    out = []
    for x in parts(t):
        out.extend(outermost(f, x))
    return out


def well_formed(t):
    """at most one wildcard in each shape"""
    if isinstance(t, CT.DataShape):
        n = 0
        for p in t.parameters:
            if isinstance(p, CT.Ellipsis):
                n = n + 1
        if n > 1:
            return False
    for y in parts(t):
        if not well_formed(y):
            return False
    return True


def forms(h, x):
    """the type as an object or as text"""
    h.assume(well_formed(x))
    if h.bool('text'):
        h.reach('text')
        return str(x)
    return x


def flag(h, got, want, what):
    h.check(bool(got) == bool(want), what)


def shape_predicates(h):
    """predicates on dimensions and measures"""
    x = CT.DataShape(*[gen_dim(h, 'd%d' % i, 'cve') for i in range(h.choice('rank', 3))] +
                     [gen_measure(h, 'x', h.bound(1, 2), LEAVES, NODES, 'v')])
    m = x.measure
    rank = len(x.parameters) - 1
    form = forms(h, x)
    flag(h, ds.isscalar(form), rank == 0 and is_scalar(m), 'isscalar')
    flag(h, ds.isrecord(form), rank == 0 and isinstance(no_option(m), CT.Record), 'isrecord')
    flag(h, ds.istabular(form), rank == 1 and isinstance(no_option(m), CT.Record), 'istabular')
    if not (rank == 0 and isinstance(m, CT.Record)):
        flag(h, ds.iscollection(form), rank > 0, 'iscollection')
    d = ds.dshape(form)
    h.check(lambda: same(d, x), 'the operand')
    h.reach('rank %d' % rank)


def tables(h):
    """records and other measures, optional or not, behind any dimensions"""
    r = CT.Record([(n, CT.int32) for n in ['a', 'b'][:h.choice('n', 3)]])
    m = [r, CT.Tuple([CT.DataShape(r)]), CT.Map(CT.int32, r), CT.DataShape(CT.Var(), r),
         CT.Categorical(['a'], CT.string), CT.Function(r, r), CT.Units('m')][h.choice('m', 7)]
    if h.bool('opt'):
        m = CT.Option(m)
    h.assume(not (isinstance(m, CT.DataShape) and len(m) > 1))
    x = CT.DataShape(*[gen_dim(h, 'd%d' % i, 'cvet') for i in range(h.choice('rank', 3))] + [m])
    rank = len(x.parameters) - 1
    form = forms(h, x)
    isrec = isinstance(no_option(m), CT.Record)
    flag(h, ds.isrecord(form), rank == 0 and isrec, 'isrecord')
    flag(h, ds.istabular(form), rank == 1 and isrec, 'istabular')
    flag(h, ds.isscalar(form), rank == 0 and is_scalar(m), 'isscalar')
    if rank == 0:
        flag(h, ds.isrecord(m), isrec, 'isrecord of a measure')
        flag(h, ds.isscalar(m), is_scalar(m), 'isscalar of a measure')
    for f in (ds.isnumeric, ds.isreal, ds.isboolean, ds.isdatelike):
        flag(h, f(form), False, 'a compound measure')
    h.reach('record' if isrec else 'other')


tables.reach = ['record', 'other']


def components(h):
    """has, collect and the predicates built on them see every component"""
    if h.bool('nest'):
        x = gen_nest(h, 'x', h.bound(2, 3), ['record'] + NODES[:2] + NODES[3:] + ['function', 'argument', 'units'],
                     h.pick('leaf', [CT.int32, CT.string, CT.TypeVar('T')]), h.bound('ve', 'cve'))
    else:
        x = gen_ds(h, 'x', 1, ['int32', 'string', 'typevar', 'units'][:h.bound(1, 4)],
                   NODES, h.bound('ve', 'cve'), 1)
    dim = lambda t: isinstance(t, (CT.Var, CT.Ellipsis))
    flag(h, ds.has_var_dim(x), anywhere(dim, x), 'has_var_dim')
    flag(h, ds.has_ellipsis(x), anywhere(lambda t: isinstance(t, CT.Ellipsis), x), 'has_ellipsis')
    for cls in (CT.Fixed, CT.TypeVar, CT.Record, CT.String, CT.DataShape, CT.Map):
        want = anywhere(lambda t: isinstance(t, cls), x)
        if cls is not CT.DataShape:
            flag(h, U.has(cls, x), want, 'has')
            got = list(U.collect(lambda t: isinstance(t, cls), x))
            w = outermost(lambda t: isinstance(t, cls), x)
            h.check(lambda: len(got) == len(w) and all(same(a, b) for a, b in zip(got, w)),
                    'collect')
            h.check(lambda: len(list(U.collect(lambda t: isinstance(t, cls), [x, (x,)]))) ==
                    2 * len(w), 'collect from a list')
    flag(h, U.has(CT.Var, [CT.int8, (x,)]), anywhere(lambda t: isinstance(t, CT.Var), x),
         'has in a list')
    h.reach('var' if anywhere(dim, x) else 'fixed')


def fixed(h):
    """a type is known to be fixed iff nothing anywhere in it is variable"""
    if h.bool('nest'):
        x = gen_nest(h, 'x', h.bound(2, 3), ['option', 'tuple', 'record'],
                     h.pick('leaf', [CT.int32, CT.TypeVar('T')]), 'cvet')
    else:
        x = gen_ds(h, 'x', 1, ['int32', 'str'][:h.bound(1, 2)],
                   ['option', 'tuple', 'crecord'],
                   'cve', h.bound(1, 2))
    # a type variable may stand for anything: such a type is never known to be fixed
    want = not anywhere(lambda t: isinstance(t, (CT.Var, CT.Ellipsis, CT.TypeVar)), x)
    form = forms(h, x)
    flag(h, ds.isfixed(form), want, 'isfixed')
    n = h.int('n', 0, 10 ** 6)
    flag(h, ds.isfixed(n * x), want, 'isfixed of an array')
    flag(h, ds.isfixed(CT.Var() * x), False, 'isfixed of a variable array')
    h.check(ds.isfixed(CT.TypeVar('T') * x) is None, 'a type variable leaves it open')
    h.reach('fixed' if want else 'not fixed')


def measures(h):
    """predicates on the kind of the measure, whatever the shape and optionality"""
    name = h.pick('m', NUMBERS + ['string', 'bool_', 'date_', 'datetime_', 'time_', 'json',
                                  'null', 'object_', 'bytes_', 'zoned'])
    t = CT.DateTime(h.pick('tz', ['UTC', 'a b', ''])) if name == 'zoned' else getattr(CT, name)
    m = CT.Option(t) if h.bool('opt') else t
    x = CT.DataShape(*[gen_dim(h, 'd%d' % i, 'fvt') for i in range(h.choice('rank', h.bound(2, 3)))] + [m])
    form = forms(h, x)
    if not h.bool('text2') and len(x.parameters) == 1:
        form = m
    flag(h, ds.isnumeric(form), name in NUMBERS, 'isnumeric')
    if name != 'float16':
        flag(h, ds.isreal(form), name in ('float32', 'float64'), 'isreal')
    flag(h, ds.isboolean(form), name == 'bool_', 'isboolean')
    flag(h, ds.isdatelike(form), name in ('date_', 'datetime_', 'zoned'), 'isdatelike')
    h.reach('numeric' if name in NUMBERS else 'other')


def compound_measures(h):
    """measures with components are of no scalar kind"""
    x = gen_ds(h, 'x', 1, ['int32'], ['record', 'tuple'], 'v', 1)
    m = no_option(x.measure)
    h.assume(isinstance(m, (CT.Record, CT.Tuple)))
    for f in (ds.isnumeric, ds.isreal, ds.isboolean, ds.isdatelike):
        flag(h, f(x), False, 'a compound measure')
    h.check(not ds.isscalar(x), 'a compound measure')
    h.reach('done')


def homogeneous(h):
    """only one element type in the whole type"""
    x = gen_ds(h, 'x', h.bound(1, 2), ['int32', 'str'], ['option', 'tuple', 'crecord'],
               h.bound('v', 'cv'), 1)

    def go(t):
        t = unwrap(t)
        if isinstance(t, CT.DataShape):
            return go(t.parameters[-1])
        if is_scalar(t):
            return [t]
        out = []
        for y in parts(t):
            out.extend(go(y))
        return out
    got = go(x)
    n = 0
    for i, t in enumerate(got):
        if not any(same(t, got[j]) for j in range(i)):
            n += 1
    flag(h, ds.ishomogeneous(forms(h, x)), n == 1, 'ishomogeneous')
    h.reach('%d' % min(n, 2))


def dimensions(h):
    """what counts as a dimension"""
    d = gen_dim(h, 'd', 'fve')
    h.check(ds.isdimension(d), 'a dimension')
    h.check(ds.isdimension(h.int('n', 0, 10 ** 20)), 'an extent')
    m = h.pick('m', [CT.int32, CT.string, CT.Record([('a', CT.int8)]), CT.Tuple([]), CT.json,
                     CT.Option(CT.int8), CT.DataShape(CT.int8), CT.null])
    h.check(not ds.isdimension(m), 'a measure')
    h.check(not ds.isdimension(d * CT.int8), 'a datashape')
    h.reach('done')


shape_predicates.reach = ['text', 'rank 0', 'rank 1', 'rank 2']
components.reach = ['var', 'fixed']
fixed.reach = ['text', 'fixed', 'not fixed']
measures.reach = ['numeric', 'other']
homogeneous.reach = ['0', '1', '2']
compound_measures.reach = dimensions.reach = ['done']
def everything(h):
    """every predicate on every type in every place"""
    f = any_whole(h, 'x')
    x = f(any_part(h, 'x', 1 if f is not WHOLES[-1] else 0))
    if not isinstance(x, CT.DataShape):
        x = CT.DataShape(x)
    k = h.choice('dim', h.bound(2, 3))
    if k:
        x = CT.DataShape([CT.Var(), CT.Fixed(3)][k - 1], *x)
    m, rank = x.measure, len(x) - 1
    k = no_option(m)
    one = lambda *names: any(k is getattr(CT, n) for n in names)
    for form in (x, str(x)) if h.tier != 'quick' or h.bool('text') else (x,):
        if not (isinstance(m, CT.Option) and not isinstance(m.ty, CT.Option) and len(m.ty.shape)):
            flag(h, ds.isscalar(form), rank == 0 and is_scalar(m), 'isscalar')
            flag(h, ds.isrecord(form), rank == 0 and isinstance(k, CT.Record), 'isrecord')
            flag(h, ds.istabular(form), rank == 1 and isinstance(k, CT.Record), 'istabular')
            flag(h, ds.isboolean(form), one('bool_'), 'isboolean')
            flag(h, ds.isdatelike(form), isinstance(k, (CT.Date, CT.DateTime)), 'isdatelike')
            if not one('float16'):
                flag(h, ds.isreal(form), one('float32', 'float64'), 'isreal')
            if not isinstance(k, (CT.TimeDelta, CT.Decimal)):
                flag(h, ds.isnumeric(form), one(*NUMBERS), 'isnumeric')
        if not (rank == 0 and isinstance(m, CT.Record)):
            flag(h, ds.iscollection(form), rank > 0, 'iscollection')
    dim = lambda t: isinstance(t, (CT.Var, CT.Ellipsis))
    flag(h, ds.has_var_dim(x), anywhere(dim, x), 'has_var_dim')
    flag(h, ds.has_ellipsis(x), False, 'has_ellipsis')
    for c in (CT.Option, CT.Record, CT.Tuple, CT.Function, CT.Map, CT.String, CT.CType, CT.Units,
              CT.Decimal, CT.TypeVar, CT.TimeDelta, CT.DateTime, CT.Time, CT.Date, CT.JSON):
        flag(h, U.has(c, x), anywhere(lambda t: isinstance(t, c), x), 'has')
        got = list(U.collect(lambda t: isinstance(t, c), x))
        w = outermost(lambda t: isinstance(t, c), x)
        h.check(lambda: len(got) == len(w) and all(same(a, b) for a, b in zip(got, w)), 'collect')
    h.reach('done')



everything.reach = ['done']


def many(h):
    """types of many parts, dimensions and levels, one of which counts"""
    k, dims, j, x = long_type(h, 'x', dims='cvte')
    d = dims[j]
    dim = lambda t: isinstance(t, (CT.Var, CT.Ellipsis))
    flag(h, ds.has_var_dim(x), dim(d), 'has_var_dim')
    flag(h, ds.has_ellipsis(x), isinstance(d, CT.Ellipsis), 'has_ellipsis')
    flag(h, U.has(CT.TypeVar, x), isinstance(d, CT.TypeVar), 'has')
    flag(h, U.has(CT.Var, [CT.int8] * j + [x] + [CT.int8] * 5), isinstance(d, CT.Var),
         'has in a list')
    h.check(lambda: same(list(U.collect(lambda t: isinstance(t, (CT.Fixed, CT.Var, CT.TypeVar,
                                                                CT.Ellipsis)), x)), dims),
            'collect')
    if k != 'function':
        flag(h, ds.isfixed(x), isinstance(d, CT.Fixed), 'isfixed')
        h.check(isinstance(d, CT.TypeVar) and j == 0 and k in ('dims', 'deep', 'options') or
                ds.isfixed(x) is isinstance(d, CT.Fixed) or isinstance(d, CT.TypeVar), 'isfixed')
    parts = [CT.int8] * len(dims)
    h.check(ds.ishomogeneous(CT.Record([('f%d' % i, t) for i, t in enumerate(parts)])) and
            ds.ishomogeneous(CT.Tuple(parts)), 'ishomogeneous')
    parts[j] = h.pick('odd', [CT.int16, CT.string, CT.Option(CT.string), CT.DateTime('UTC')])
    h.check(not ds.ishomogeneous(CT.Record([('f%d' % i, t) for i, t in enumerate(parts)])) and
            not ds.ishomogeneous(CT.Tuple(parts)), 'ishomogeneous')
    if k == 'dims':
        opt = h.bool('opt')
        for m, f in ((CT.int8, ds.isnumeric), (CT.bool_, ds.isboolean), (CT.date_, ds.isdatelike),
                     (CT.float64, ds.isreal)):
            y = CT.DataShape(*dims + [CT.Option(m) if opt else m])
            flag(h, f(y), True, 'the measure behind many dimensions')
            flag(h, ds.isscalar(y) or ds.istabular(y), False, 'many dimensions')
            flag(h, ds.iscollection(y) or isinstance(dims[0], CT.TypeVar), True,
                 'many dimensions')
        y = CT.DataShape(*dims + [CT.Record([('a', CT.int8)])])
        flag(h, ds.istabular(y) or ds.isrecord(y) or ds.isscalar(y), False, 'many dimensions')
    h.reach('done')


many.reach = ['done']


def names(h):
    """what a record's fields are called is no matter to any predicate"""
    a, b = two_names(h, 'n', h.bound(1, 2))
    k = h.choice('k', 6)
    t = [CT.DataShape(CT.Var(), CT.int8), CT.DataShape(CT.string), CT.DataShape(CT.TypeVar('T'), CT.int8),
         CT.DataShape(CT.Option(CT.int8)), CT.DataShape(CT.Ellipsis(), CT.int8),
         CT.DataShape(CT.int8)][k]
    e = CT.DataShape(CT.int8)
    first = h.bool('first')
    r = CT.Record([(a, t), (b, e)] if first else [(a, e), (b, t)])
    i = h.choice('in', 3)
    x = CT.DataShape([lambda: r, lambda: CT.Option(r), lambda: CT.Tuple([e, r])][i]())
    flag(h, ds.has_var_dim(x), k in (0, 4), 'has_var_dim')
    flag(h, ds.has_ellipsis(x), k == 4, 'has_ellipsis')
    flag(h, U.has(CT.String, x), k == 1, 'has')
    flag(h, U.has(CT.TypeVar, x), k == 2, 'has')
    flag(h, U.has(CT.Option, x), k == 3 or i == 1, 'has')
    h.check(len(list(U.collect(lambda q: isinstance(q, CT.CType), x))) ==
            2 - (k == 1) + (i == 2), 'collect')
    flag(h, ds.isfixed(x), k not in (0, 2, 4), 'isfixed')
    flag(h, ds.isrecord(x), i < 2, 'isrecord')
    flag(h, ds.istabular(CT.DataShape(CT.Var(), r)), True, 'istabular')
    if i != 1 and k not in (2, 4):
        flag(h, ds.ishomogeneous(x), k not in (1, 3), 'ishomogeneous')
    h.reach('done')


names.reach = ['done']


HARNESSES = [shape_predicates, tables, components, fixed, measures, compound_measures, homogeneous,
             dimensions, everything, many, names]
