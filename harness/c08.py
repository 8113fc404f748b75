"""C08: subshape indexing follows the language's indexing rules"""
import numpy as np
N = 10 ** 20


def opt_int(h, name, lo, hi):
    if h.bool(name + '.none'):
        return None
    return h.int(name, lo, hi)


def any_slice(h, name, lim):
    return slice(opt_int(h, name + 'a', -2 * lim, 2 * lim),
                 opt_int(h, name + 'b', -2 * lim, 2 * lim),
                 h.pick(name + 'c', [None, 1, 2, 3, -1, -2, 7, -5]))


def fixed_slice(h):
    """[a:b:c] of a fixed dimension selects what it selects from range(n)"""
    n = h.int('n', 0, N)
    m = h.int('m', 0, N)
    s = any_slice(h, 's', N)
    x = CT.DataShape(CT.Fixed(n), CT.Fixed(m), CT.int32)
    want = slice_count(n, s.start, s.stop, s.step)
    r = x.subshape[s]
    h.check(isinstance(r, CT.DataShape) and len(r.shape) == 2, 'rank after a slice')
    h.check(type(r[0]) is CT.Fixed, 'a sliced fixed dimension stays fixed')
    h.check(lambda: r[0].val == want, 'extent of a slice of a fixed dimension')
    h.check(lambda: r[1].val == m and r[2] is CT.int32, 'inner dimensions untouched')
    h.check(lambda: x[0].val == n and x[1].val == m and len(x) == 3, 'operand untouched')
    h.reach('done')


def var_slice(h):
    """a slice of a var dimension: exact for bounded forward slices (the documented
    reading), otherwise var"""
    a = opt_int(h, 'a', -N, N)
    b = opt_int(h, 'b', -N, N)
    c = h.pick('c', [None, 1, 2, 3, -1, -2])
    m = h.int('m', 0, N)
    x = CT.DataShape(CT.Var(), CT.Fixed(m), CT.float64)
    r = x.subshape[a:b:c]
    h.check(len(r.shape) == 2 and type(r[1]) is CT.Fixed and r[2] is CT.float64,
            'inner dimensions untouched')
    h.check(lambda: r[1].val == m, 'inner dimensions untouched')
    start = 0 if a is None else a
    step = 1 if c is None else c
    if b is not None and start >= 0 and b >= 0 and step > 0:
        h.check(type(r[0]) is CT.Fixed, 'bounded slice of var is fixed')
        h.check(lambda: r[0].val == (0 if b <= start else (b - start + step - 1) // step),
                'extent of a bounded slice of var')
        h.reach('fixed')
    else:
        h.check(type(r[0]) is CT.Var, 'a slice of unknown extent is var')
        h.reach('var')


def gen_dims(h, n):
    return [CT.Fixed(h.int('n%d' % i, 0, N)) if h.bool('f%d' % i) else CT.Var()
            for i in range(n)]


def multi(h):
    """an index per dimension: integers drop, lists replace by their length, slices
    cut, None inserts, missing ones keep -- as in NumPy, from left to right"""
    r = 1 + h.choice('rank', h.bound(2, 3))
    dims = gen_dims(h, r)
    x = CT.DataShape(*dims + [CT.int64])
    k = 1 + h.choice('k', h.bound(3, 4))
    ix, want, pos, consumed = [], [], 0, False
    for i in range(k):
        kind = h.pick('kind%d' % i, ['int', 'slice', 'list', 'none', 'all'])
        if kind == 'none':
            ix.append(None)
            want.append(1)
            continue
        h.assume(pos < r)
        d = dims[pos]
        pos += 1
        if kind == 'int':
            ix.append(h.int('i%d' % i, -N, N))
        elif kind == 'list':
            n = h.choice('l%d' % i, 4)
            ix.append([h.int('l%d.%d' % (i, j), -N, N) for j in range(n)])
            want.append(n)
        elif kind == 'all':
            ix.append(slice(None))
            want.append(d.val if type(d) is CT.Fixed else None)
        else:
            a, b = h.int('a%d' % i, 0, N), h.int('b%d' % i, 0, N)
            ix.append(slice(a, b))
            if type(d) is CT.Fixed:
                want.append(slice_count(d.val, a, b, None))
            else:
                want.append(b - a if b > a else 0)
    ix = tuple(ix)
    got = x.subshape[ix]
    for d in dims[pos:]:
        want.append(d.val if type(d) is CT.Fixed else None)
    h.check(got[-1] is CT.int64, 'the measure is kept')
    h.check(len(got) - 1 == len(want), 'rank after indexing')
    for i, w in enumerate(want):
        if w is None:
            h.check(type(got[i]) is CT.Var, 'a var dimension stays var')
        else:
            h.check(type(got[i]) is CT.Fixed, 'a dimension is fixed')
            h.check(lambda: got[i].val == w, 'extent of dimension after indexing')
    h.check(len(x) == r + 1, 'operand untouched')
    h.reach('done')


def gen_record(h, k):
    names = h.pick('names', [['a', 'b', 'c', 'd'], ['d', 'b', 'a', 'c'], ['x y', '0', 'a', 'B']])
    types = [CT.DataShape(CT.Fixed(h.int('t%d' % i, 0, N)), CT.int32) if i == 1 else
             [CT.int8, None, CT.string, CT.float64][i] for i in range(k)]
    return CT.Record(list(zip(names[:k], types))), names[:k], types


def record_fields(h):
    """fields of a record by name, by position, by lists of both, by slice"""
    k = 1 + h.choice('k', 4)
    rec, names, types = gen_record(h, k)
    outer = h.bool('outer')
    n = h.int('n', 0, N)
    x = CT.DataShape(CT.Fixed(n), rec) if outer else CT.DataShape(rec)
    kind = h.pick('kind', ['name', 'int', 'list', 'slice'])
    if kind == 'name':
        j = h.choice('j', k)
        ix, want = names[j], types[j]
    elif kind == 'int':
        j = h.int('j', -k, k - 1)
        ix, want = j, types[j]
    elif kind == 'list':
        m = h.choice('m', 3)
        sel = []
        for i in range(m):
            j = h.choice('j%d' % i, k)
            h.assume(all(j != u for u in sel))
            sel.append(j)
        ix = [names[j] if h.bool('byname%d' % i) else j for i, j in enumerate(sel)]
        want = [(names[j], types[j]) for j in sel]
    else:
        ix = slice(opt_int(h, 'a', -6, 6), opt_int(h, 'b', -6, 6),
                   h.pick('c', [None, 1, 2, -1]))
        want = list(zip(names, types))[ix]
    arg = (slice(None), ix) if outer else ix
    keep = list(arg) if isinstance(arg, list) else None
    got = x.subshape[arg]
    if keep is not None:
        h.check(lambda: keep == arg, 'the index list is not changed')
    if outer:
        h.check(isinstance(got, CT.DataShape), 'outer dimension kept')
        h.check(lambda: got[0].val == n, 'outer dimension kept')
        got = got.subarray(1)
    if kind in ('name', 'int'):
        h.check(lambda: same(got, want), 'type of the selected field')
    else:
        rec2 = unwrap(got)
        h.check(type(rec2) is CT.Record, 'a record of the selected fields')
        h.check(lambda: rec2.names == [a for a, b in want], 'selected names in order')
        h.check(lambda: same(list(rec2.types), [b for a, b in want]), 'selected types')
    h.check(lambda: rec.names == names and same(list(rec.types), types), 'operand untouched')
    h.reach(kind)


def missing(h):
    """a name that is no field, and an index a type has no dimension for, are refused"""
    k = 1 + h.choice('k', 2)
    rec, names, types = gen_record(h, k)
    if h.bool('near'):
        # the name of a field in capitals, or with a blank more
        names = [h.char('c%d' % i, ((65, 90),) if i else ((65, 90), (97, 122))) for i in range(k)]
        h.assume(k == 1 or names[0] != names[1])
        rec = CT.Record(list(zip(names, types)))
    s = h.text('s', 0, 2, PRINTABLE)
    h.assume(all(s != n for n in names))
    x = CT.DataShape(rec)
    e = raised(lambda: x.subshape[s], Exception)
    h.check(isinstance(e, (KeyError, ValueError, TypeError)), 'an unknown field is refused')
    y = CT.DataShape(CT.Fixed(h.int('n', 0, N)), CT.int32)
    i, j = h.int('i', -9, 9), h.int('j', -9, 9)
    e = raised(lambda: y.subshape[i, j], Exception)
    h.check(isinstance(e, (TypeError, IndexError)), 'too many indices are refused')
    for ix in ((i, slice(None)), (slice(None), i), (slice(None), slice(None)), (i, [j]), (None, i, slice(1, 2))):
        e = raised(lambda: y.subshape[ix], Exception)
        h.check(isinstance(e, (TypeError, IndexError)), 'too many indices are refused')
    e = raised(lambda: x.subshape[[names[0], s]], Exception)
    h.check(isinstance(e, (KeyError, ValueError, TypeError)), 'an unknown field is refused')
    e = raised(lambda: CT.DataShape(CT.int32).subshape[i], Exception)
    h.check(isinstance(e, (TypeError, IndexError)), 'a scalar has no items')
    h.reach('done')


def outside(h):
    """positions in front of and behind the fields of a record are refused"""
    k = h.choice('k', 3)
    x = CT.DataShape(CT.Record([('abc'[i], CT.int8) for i in range(k)]))
    p = h.pick('p', [-k - 1, k, -k - 2, k + 1, -k - 9, k + 9])
    if h.bool('outer'):
        y = CT.DataShape(CT.Fixed(h.int('n', 0, N)), x[0])
        get = lambda ix: y.subshape[:, ix]
    else:
        get = lambda ix: x.subshape[ix]
    e = raised(lambda: get(p), Exception)
    h.check(isinstance(e, (IndexError, TypeError)), 'a position outside the fields is accepted')
    e = raised(lambda: get([p, 0] if h.bool('first') else [0, p]), Exception)
    h.check(isinstance(e, (IndexError, TypeError)), 'a position outside the fields is accepted')
    h.reach('done')


outside.reach = ['done']


def zero_step(h):
    """a step of zero selects nothing that could be counted"""
    d = CT.Fixed(h.int('n', 0, N)) if h.bool('fixed') else CT.Var()
    z = slice(opt_int(h, 'a', -9, 9), opt_int(h, 'b', -9, 9), 0)
    k = h.choice('k', 3)
    x = [CT.DataShape(d, CT.int32), CT.DataShape(CT.Var(), d, CT.int32),
         CT.DataShape(CT.Record([('a', CT.int8)]))][k]
    e = raised(lambda: x.subshape[(slice(None), z) if k == 1 else z], Exception)
    h.check(isinstance(e, ValueError), 'a step of zero')
    h.reach('done')


zero_step.reach = fixed_slice.reach = ['done']
var_slice.reach = ['fixed', 'var']
multi.reach = ['done']
record_fields.reach = ['name', 'int', 'list', 'slice']
missing.reach = ['done']
REALIZE_FLIPS = 32
def every_measure(h):
    """whatever the elements are, indexing gives them and slicing keeps them"""
    n = h.int('n', 0, 10 ** 6)
    e = any_part(h, 'x', 1)
    x = CT.DataShape(CT.Fixed(n), *e)
    i = h.int('i', 0, 99)
    h.check(lambda: same(x.subshape[i], e), 'an element')
    h.check(lambda: same(x.subshape[:], x), 'all elements')
    h.check(lambda: same(x.subshape[[0, i, 1]], CT.DataShape(CT.Fixed(3), *e)), 'some elements')
    v = CT.DataShape(CT.Var(), *e)
    h.check(lambda: same(v.subshape[0], e) and same(v.subshape[1:], v) and
            same(v.subshape[0:i], CT.DataShape(CT.Fixed(i), *e)), 'a variable dimension')
    y = CT.DataShape(CT.Fixed(4), *x)
    h.check(lambda: same(y.subshape[i, 0], e) and same(y.subshape[1:3, 0], CT.DataShape(CT.Fixed(2), *e)),
            'two indices')
    h.reach('done')



every_measure.reach = ['done']


def long(h):
    """an index behind many others"""
    n, j = long_place(h, 'x')
    dims = [CT.Fixed(i + 2) for i in range(n)]
    dims[j] = gen_dim(h, 'd', 'fv')
    x = CT.DataShape(*dims + [CT.int64])
    a, b = h.int('a', 0, N), h.int('b', 0, N)
    if type(dims[j]) is CT.Fixed:
        cut = CT.Fixed(slice_count(dims[j].val, a, b, None))
    else:
        cut = CT.Fixed(b - a if b > a else 0)
    k = h.pick('k', ['ints', 'slices', 'none', 'lists'])
    if k == 'ints':
        got = x.subshape[(0,) * j + (slice(a, b),)]
        want = [cut] + dims[j + 1:]
        h.check(lambda: same(x.subshape[(0,) * n], CT.DataShape(CT.int64)), 'an element')
        e = raised(lambda: x.subshape[(0,) * (n + 1)], Exception)
        h.check(isinstance(e, (TypeError, IndexError)), 'too many indices are refused')
    elif k == 'slices':
        got = x.subshape[(slice(None),) * j + (slice(a, b),) + (0,) * (n - j - 1)]
        want = dims[:j] + [cut]
    elif k == 'none':
        got = x.subshape[(None,) * j + (slice(a, b), None)]
        want = [CT.Fixed(1)] * j + [cut, CT.Fixed(1)] + dims[1:] if j == 0 else None
        if j:
            d = dims[0]
            c = slice_count(d.val, a, b, None)
            want = [CT.Fixed(1)] * j + [CT.Fixed(c), CT.Fixed(1)] + dims[1:]
    else:
        got = x.subshape[([0, 1],) * j + (list(range(n)),) + (slice(None),) * (n - j - 1)]
        want = [CT.Fixed(2)] * j + [CT.Fixed(n)] + dims[j + 1:]
    h.check(lambda: same(got, CT.DataShape(*want + [CT.int64])), 'many indices')
    h.check(lambda: same(x, CT.DataShape(*dims + [CT.int64])), 'operand untouched')
    h.reach(k)


def long_record(h):
    """any of many fields"""
    n, j = long_place(h, 'x', (5, 17))
    names = ['f%d' % i for i in range(n)]
    types = [CT.DataShape(CT.Fixed(i + 2), CT.int8) for i in range(n)]
    rec = CT.Record(list(zip(names, types)))
    x = CT.DataShape(rec)
    a = h.int('a', -n - 2, n + 2)
    i = h.choice('i', n) if n < 10 else h.pick('i', [0, 8, n - 1])
    for ix in (names[j], j, j - n):
        h.check(lambda: same(x.subshape[ix], types[j]), 'a field')
    got = x.subshape[names[j:] + names[:j]]
    h.check(lambda: same(got, CT.Record(list(zip(names, types))[j:] + list(zip(names, types))[:j])),
            'all fields in another order')
    got = x.subshape[[names[j], i]] if i != j else x.subshape[[i]]
    h.check(lambda: same(got, CT.Record([(names[q], types[q]) for q in ([j, i] if i != j else [i])])),
            'two fields')
    got = x.subshape[j:]
    h.check(lambda: same(got, CT.Record(list(zip(names, types))[j:])), 'the last fields')
    got = x.subshape[:j]
    h.check(lambda: same(got, CT.Record(list(zip(names, types))[:j])), 'the first fields')
    y = CT.DataShape(*[CT.Fixed(q) for q in range(n)] + [rec])
    h.check(lambda: same(y.subshape[(slice(None),) * n + (names[j],)],
                         CT.DataShape(*[CT.Fixed(q) for q in range(n)] + list(types[j]))),
            'a field of the elements')
    h.check(lambda: same(y.subshape[(0,) * j + (names[i],)] if False else rec[names[i]], types[i]),
            'a field')
    h.reach('done')


long.reach = ['ints', 'slices', 'none', 'lists']
long_record.reach = ['done']



def numpy_bounds(h):
    """bounds of a slice given as NumPy integers, narrow ones included, are the integers they are"""
    kinds = h.bound([np.int8, np.uint64], [int, np.int8, np.uint8, np.int64, np.uint64])
    n = h.int('n', 0, N)
    d = CT.Fixed(n) if h.bool('fixed') else CT.Var()
    a = h.pick('a', [None, 3, 100])
    b = h.pick('b', [None, 90, 127])
    c = h.pick('c', [None, 2, 100])
    ka, kb, kc = h.pick('ka', kinds), h.pick('kb', kinds), h.pick('kc', kinds)
    at = lambda k, x: None if x is None else k(x)
    x = CT.DataShape(d, CT.Fixed(2), CT.Record([('a', CT.int8), ('b', CT.bool_)]))
    got = x.subshape[at(ka, a):at(kb, b):at(kc, c)]
    want = x.subshape[a:b:c]
    h.check(lambda: got == want and hash(got) == hash(want) and str(got) == str(want),
            'a slice with NumPy bounds')
    r = CT.Record([('f%d' % i, CT.int8) for i in range(5)])
    got = CT.DataShape(r).subshape[[at(ka, 4), 1, at(kb, 0)]][0]
    h.check(lambda: got.names == ['f4', 'f1', 'f0'], 'positions of fields as NumPy integers')
    h.reach('done')


def no_index(h):
    """what is neither a position, a slice, a name, a list nor a tuple of them is refused"""
    x = CT.DataShape(h.pick('x', [CT.Fixed(4), CT.Var(), CT.Fixed(N)]), CT.int8)
    if h.bool('two'):
        x = 3 * x
    bad = h.pick('bad', [None, 2.0, Ellipsis, 'a', {'a': 1}, b'a', slice(0, 2.5), slice('a', 'b'), {1}, 1j, slice(0, 3, 1.0)])
    if h.bool('tuple'):
        h.assume(bad is not None)
        bad = (bad,)
    e = raised(lambda: x.subshape[bad], Exception)
    h.check(isinstance(e, TypeError), 'an index that is none')
    h.reach('done')


numpy_bounds.reach = no_index.reach = ['done']


HARNESSES = [fixed_slice, var_slice, multi, record_fields, missing, outside, zero_step,
             every_measure, long, long_record, numpy_bounds, no_index]
