"""C02: the print width changes layout, never meaning"""


def strip_layout(s):
    """the text without blanks and line breaks (names used here contain none)"""
    return s.replace('\n', '').replace(' ', '')


def check_width(h, x, w):
    s = CT.pprint(x, width=w)
    one = CT.pprint(x, width=10 ** 6)
    h.check('\n' not in one, 'an unlimited width still breaks lines', 'wide')
    h.check(lambda: strip_layout(s) == strip_layout(one), 'the width changes the printed text',
            'layout')
    y = ds.dshape(s)
    h.check(lambda: same(x, y), 'printed at some width it parses to a different datashape',
            'parse')
    if len(one) < w:
        h.check(lambda: s == one, 'lines are broken although everything fits', 'fits')
        h.reach('fits')
    else:
        h.reach('broken')


LEAVES = ['int32']


def shallow(h):
    """records and tuples of up to two levels, any width"""
    x = gen_ds(h, 'x', 2, LEAVES, ['record', 'tuple', 'option'], 'v', 1)
    w = h.int('w', 0, 80)
    check_width(h, x, w)


def sizes(h):
    """field names and dimensions of varying length under any width"""
    names = ['a' * (1 + 4 * h.choice('la', 3)), 'b c']
    k = 1 + h.choice('k', 2)
    dims = [CT.Fixed(h.int('n%d' % i, 0, 10 ** h.bound(4, 9))) for i in range(h.choice('r', 2))]
    fields = []
    for i in range(k):
        t = CT.DataShape(CT.Fixed(h.int('m%d' % i, 0, h.bound(99, 999))), CT.int32)
        if i == 1:
            t = CT.Tuple([t, CT.int64])
        fields.append((names[i], t))
    x = CT.DataShape(*dims + [CT.Record(fields)])
    check_width(h, x, h.int('w', 0, 100))


def long_record(h, name):
    """a record with fields of a symbolic extent, between a few and many columns long"""
    k = h.pick(name + '.k', h.bound([0, 2], [0, 1, 2]))
    n = h.int(name + '.n', 0, h.bound(9, 999))
    return CT.Record([('field %d' % i, CT.DataShape(CT.Fixed(n), CT.datetime_))
                      for i in range([1, 2, 6][k])])


def places(h):
    """records and tuples inside every other type are laid out for the same width"""
    f = any_whole(h, 'x')
    m = long_record(h, 'r')
    if h.bool('tuple'):
        m = CT.Tuple([m, CT.int8])
    x = f(CT.DataShape(*[gen_dim(h, 'd', 'fv')][h.choice('rank', 2) if f is not WHOLES[-1] else 1:] +
                       [m]))
    if h.bool('rows'):
        x = CT.DataShape(CT.Var(), CT.Record([('rows', x)]))
    w = h.int('w', 0, 400)
    s = CT.pprint(x, width=w)
    one = CT.pprint(x, width=10 ** 6)
    h.check('\n' not in one, 'an unlimited width still breaks lines', 'wide')
    h.check(lambda: s.replace('\n', '').replace(' ', '') == one.replace(' ', ''),
            'the width changes the printed text', 'layout')
    h.check(lambda: same(ds.dshape(s), x) and same(ds.dshape(one), x),
            'printed at some width it parses to a different datashape', 'parse')
    if len(one) < w:
        h.check(lambda: s == one, 'lines are broken although everything fits', 'fits')
        h.reach('fits')
    else:
        h.reach('broken')


def parts(h):
    """every type as every part of every other, at any width"""
    f = any_whole(h, 'x')
    x = f(any_part(h, 'x', h.bound(0, 1) if f is not WHOLES[-1] else 0))
    x = CT.DataShape(CT.Fixed(h.int('n', 0, h.bound(9, 99))), CT.Record([('a b', x), ('c', CT.int8)]))
    check_width(h, x, h.int('w', 0, 90))


shallow.reach = ['fits', 'broken']
sizes.reach = ['fits', 'broken']
places.reach = parts.reach = ['fits', 'broken']


def many(h):
    """types of many parts and levels, at any width"""
    k, dims, j, x = long_type(h, 'x', dims='sv', sizes=(4, 7, 17))
    check_width(h, x, h.int('w', 0, 300))


many.reach = ['fits', 'broken']


HARNESSES = [shallow, sizes, places, parts, many]
