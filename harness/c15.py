"""C15: types that meet are united to their least common generalisation"""
D = ds.discovery
#            0        1       2        3       4       5       6       7       8
KNOWN = [CT.int32, CT.int64, CT.float64, CT.date_, CT.datetime_, CT.timedelta_, CT.bool_,
         CT.null, CT.string]
UP = [1, 2, 8, 4, 8, 8, 8, 8, None]       # the next more general type
UNKNOWN = [CT.int8, CT.json, CT.TimeDelta('D'), CT.complex128]


def chain_of(i):
    out = []
    while i is not None:
        out.append(i)
        i = UP[i]
    return out


def join(idx):
    """the least type at or above all of them"""
    for i in chain_of(idx[0]):
        if all(i in chain_of(j) for j in idx):
            return i
    raise AssertionError


def lowest(h):
    """the lowest common type of any types, in any order"""
    n = 1 + h.choice('n', h.bound(3, 4))
    idx = [h.choice('t%d' % i, len(KNOWN)) for i in range(n)]
    got = D.lowest_common_dshape([KNOWN[i] for i in idx])
    h.check(same(got, KNOWN[join(idx)]), 'lowest common type')
    h.reach('done')


def unknown(h):
    """types the relation does not know are refused"""
    n = 1 + h.choice('n', 2)
    j = h.choice('j', n)
    xs = [KNOWN[h.choice('t%d' % i, len(KNOWN))] for i in range(n)]
    xs[j] = h.pick('u', UNKNOWN)
    e = raised(lambda: D.lowest_common_dshape(xs), ValueError)
    h.check(e is not None, 'an unknown type is united')
    h.reach('done')


def expected_base(xs):
    """the type of a column of scalars and records, None if there is none"""
    good = [x for x in xs if x is not CT.null]
    if not good:
        return CT.null
    opt = len(good) < len(xs)
    if all(isinstance(x, CT.Record) for x in good):
        names = good[0].names
        if any(x.names != names for x in good):
            return None
        t = []
        for k in names:
            c = expected_base([unwrap(x.dict[k]) for x in good])
            t.append((k, c))
        t = CT.Record(t)
    elif any(isinstance(x, CT.Record) for x in good):
        return None
    else:
        t = KNOWN[join([[y is x for y in KNOWN].index(True) for x in good])]
    return CT.Option(t) if opt else t


def scalars(h):
    """columns of scalars with missing values"""
    n = 1 + h.choice('n', h.bound(3, 4))
    xs = [KNOWN[h.choice('t%d' % i, len(KNOWN))] for i in range(n)]
    arg = [CT.DataShape(x) if h.bool('w') else x for x in xs[:1]] + xs[1:]
    got = D.unite_base(arg)
    want = expected_base(xs)
    h.check(lambda: same(got, n * want), 'type of a column')
    h.check(lambda: same(D.unite_base(arg[::-1]), n * want), 'the order of a column matters')
    h.reach('null' if want is CT.null else 'option' if isinstance(want, CT.Option) else 'plain')


def records(h):
    """columns of records"""
    n = 1 + h.choice('n', h.bound(2, 3))
    xs = []
    for i in range(n):
        k = h.choice('k%d' % i, 4)
        if k == 0:
            xs.append(h.pick('s%d' % i, [CT.null, CT.int64]))
        else:
            fs = [('a', h.pick('a%d' % i, [CT.int64, CT.null, CT.string, CT.float64]))]
            if k == 2:
                fs.append(('b', h.pick('b%d' % i, [CT.date_, CT.datetime_])))
            if k == 3:
                fs = [('c', CT.bool_)] + fs
            xs.append(CT.Record(fs))
    got = D.unite_base(xs)
    want = expected_base(xs)
    if want is None:
        h.check(not got, 'records and others are united')
        h.reach('none')
    else:
        h.check(lambda: same(got, n * want), 'type of a column of records')
        h.reach('record' if isinstance(want, CT.Record) else 'other')


def rows(h):
    """columns of records of the same fields, in any order and with any repetition"""
    n = 3 + h.choice('n', h.bound(1, 2))
    two = h.bool('two')
    some = [CT.int64, CT.float64, CT.string, CT.null, CT.int32, CT.date_][:h.bound(4, 6)]
    xs = []
    for i in range(n):
        fs = [('a', h.pick('a%d' % i, some))]
        if two:
            fs.append(('b', h.pick('b%d' % i, [CT.date_, CT.datetime_])))
        xs.append(CT.Record(fs))
    if h.bool('missing'):
        xs[h.choice('at', n)] = CT.null
    want = expected_base(xs)
    deep = h.bool('deep')
    if deep:
        want = expected_base([x if x is CT.null else CT.Record([('r', x)]) for x in xs])
        xs = [x if x is CT.null else CT.Record([('r', x)]) for x in xs]
    h.check(lambda: same(D.unite_base(xs), n * want), 'type of a column of records')
    h.check(lambda: same(D.unite_base(xs[1:] + xs[:1]), n * want), 'the order of a column matters')
    h.check(lambda: same(D.unite_base(xs + xs[:2]), (n + 2) * want), 'a repetition matters')
    h.reach('option' if isinstance(want, CT.Option) else 'plain')


def identical(h):
    """only identical types are united as they are"""
    n = 1 + h.choice('n', h.bound(3, 4))
    xs = [CT.DataShape(gen_dim(h, 'd%d' % i, 'sv'), h.pick('m%d' % i, [CT.int32, CT.string]))
          for i in range(n)]
    got = D.unite_identical(xs)
    if all(same(x, xs[0]) for x in xs):
        h.check(lambda: same(got, n * xs[0]), 'identical types')
        h.reach('identical')
    else:
        h.check(not got, 'different types are united')
        h.reach('different')


def merged(h):
    """arrays of one element type: equal extents stay, others become variable"""
    n = 1 + h.choice('n', h.bound(3, 4))
    dims = [gen_dim(h, 'd%d' % i, 'fv') for i in range(n)]
    base = [h.pick('m%d' % i, [CT.int32, CT.Option(CT.string)]) for i in range(n)]
    inner = h.bool('inner')
    xs = [CT.DataShape(*[d] + ([CT.Fixed(2)] if inner else []) + [m]) for d, m in zip(dims, base)]
    got = D.unite_merge_dimensions(xs)
    if all(same(m, base[0]) for m in base):
        d = dims[0] if all(same(x, dims[0]) for x in dims) else CT.Var()
        rest = ([CT.Fixed(2)] if inner else []) + [base[0]]
        h.check(lambda: same(got, CT.DataShape(*[CT.Fixed(n), d] + rest)), 'merged dimensions')
        h.reach('merged')
    else:
        h.check(not got, 'different element types are merged')
        h.reach('not')
    k = h.choice('k', n)
    xs[k] = CT.int32
    h.check(not D.unite_merge_dimensions(xs), 'a scalar is merged')


lowest.reach = unknown.reach = ['done']
scalars.reach = ['null', 'option', 'plain']
rows.reach = ['option', 'plain']
records.reach = ['none', 'record', 'other']
identical.reach = ['identical', 'different']
merged.reach = ['merged', 'not']


def count(h, n):
    """a number of items: n, or many more"""
    return h.pick('many', [n, 17] + h.bound([], [33, 65])) if n % 3 == 0 else n


def place(h, name, n):
    """one of n places"""
    return h.choice(name, n) if n < 17 else h.pick(name, [0, 8, n - 2, n - 1])


def long_columns(h):
    """longer columns of scalars of one type with one or two of other types anywhere"""
    n = count(h, h.bound(5, 4) + h.choice('n', h.bound(3, 6)))
    idx = [h.choice('t', len(KNOWN))] * n
    i, j = place(h, 'i', n), place(h, 'j', n)
    idx[i] = h.choice('ti', len(KNOWN))
    if j != i:
        h.assume(j > i)
        idx[j] = h.pick('tj', h.bound([0, 3, 7], list(range(len(KNOWN)))))
    xs = [KNOWN[k] for k in idx]
    h.check(lambda: same(D.lowest_common_dshape(xs), KNOWN[join(idx)]), 'lowest common type')
    want = expected_base(xs)
    h.check(lambda: same(D.unite_base(xs), n * want), 'type of a column')
    h.reach('null' if want is CT.null else 'option' if isinstance(want, CT.Option) else 'plain')


def long_records(h):
    """longer columns of records of more fields, one of them with another type in one field, a
    missing field, fields in another order, or no record at all"""
    n, m = count(h, 2 + h.choice('n', h.bound(5, 7))), 1 + h.choice('m', h.bound(5, 7))
    names = ['b', 'a', 'C', 'dd', 'e', 'f', 'g'][:m]
    types = [CT.int64, CT.string, CT.date_, CT.float64, CT.bool_, CT.int32, CT.datetime_][:m]
    i, j = place(h, 'i', n), h.choice('j', m)
    fs = list(zip(names, types))
    xs = [CT.Record(fs) for q in range(n)]
    k = h.choice('k', 6)
    if k == 0:
        fs[j] = (names[j], h.pick('t', KNOWN))
    elif k == 1:
        fs[j] = ('zz', types[j])
    elif k == 2:
        fs = fs[j:] + fs[:j]
    elif k == 3:
        fs = fs[:j] + fs[j + 1:]
    elif k == 4:
        fs = fs + [('zz', CT.int64)]
    xs[i] = CT.Record(fs) if k < 5 else h.pick('u', [CT.null, CT.int64, CT.string])
    got = D.unite_base(xs)
    want = expected_base(xs)
    if want is None:
        h.check(not got, 'records and others are united')
        h.reach('none')
    else:
        h.check(lambda: same(got, n * want), 'type of a column of records')
        h.reach('option' if isinstance(want, CT.Option) else 'plain')


def long_merged(h):
    """more arrays of more dimensions: equal extents stay, others become variable"""
    n, d = count(h, 2 + h.choice('n', h.bound(6, 8))), 1 + h.choice('d', h.bound(3, 5))
    rest = [CT.Fixed(2 + q) for q in range(d - 1)]
    base = h.pick('m', [CT.int32, CT.Option(CT.string), CT.Record([('a', CT.int8)])])
    e, f = h.int('e', 0, 9), h.int('f', 0, 9)
    i = place(h, 'i', n)
    k = h.choice('k', 5)
    xs = [CT.DataShape(*[CT.Fixed(e)] + rest + [base]) for q in range(n)]
    first, odd = CT.Fixed(e), CT.DataShape(*[CT.Fixed(f)] + rest + [base])
    if k == 1:
        first, odd = CT.Var(), CT.DataShape(*[CT.Var()] + rest + [base])
    elif k == 2:
        odd = CT.DataShape(*[CT.Fixed(e)] + rest + [CT.Fixed(7), base])
    elif k == 3:
        odd = CT.DataShape(*[CT.Fixed(e)] + rest + [CT.int64])
    elif k == 4:
        odd = CT.DataShape(*[CT.Fixed(e)] + rest[:-1] + [CT.Fixed(f), base]) if rest else base
    xs[i] = odd
    got = D.unite_merge_dimensions(xs)
    like = k == 0 and e == f or k == 4 and bool(rest) and f == d
    if like:
        h.check(lambda: same(got, CT.DataShape(*[CT.Fixed(n), CT.Fixed(e)] + rest + [base])),
                'merged dimensions')
        h.reach('fixed')
    elif k < 2:
        h.check(lambda: same(got, CT.DataShape(*[CT.Fixed(n), CT.Var()] + rest + [base])),
                'merged dimensions')
        h.reach('variable')
    else:
        h.check(not got, 'different element types are merged')
        h.reach('not')
    h.check((like and True) == bool(D.unite_identical(xs)), 'only identical types are united')


long_columns.reach = ['null', 'option', 'plain']
long_records.reach = ['none', 'option', 'plain']
long_merged.reach = ['fixed', 'variable', 'not']


HARNESSES = [lowest, unknown, scalars, records, rows, identical, merged, long_columns,
             long_records, long_merged]
