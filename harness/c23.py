"""C23: a record has exactly the fields it was given, in their order, each name once"""
from collections import OrderedDict
TYPES = [CT.int8, 'int16', CT.string, CT.Option(CT.int32), '3 * int8', CT.Record([('q', CT.int8)])]
WANT = [CT.int8, CT.int16, CT.string, CT.Option(CT.int32),
        CT.DataShape(CT.Fixed(3), CT.int8), CT.Record([('q', CT.int8)])]


def typ(h, name, most):
    i = h.choice(name, most)
    return (TYPES[i], WANT[i]) if i or not h.bool(name + '.w') else (CT.DataShape(CT.int8), CT.int8)


def distinct(names):
    for i in range(len(names)):
        for j in range(i):
            if names[i] == names[j]:
                return False
    return True


def look(h, rec, names, want):
    """everything the record tells about its fields"""
    h.check(lambda: rec.names == names, 'names in order', 'names')
    h.check(lambda: len(rec.types) == len(want) and same(rec.types, want), 'types in order',
            'types')
    h.check(lambda: len(rec.fields) == len(names) and
            same([list(f) for f in rec.fields], [list(f) for f in zip(names, want)]), 'fields',
            'fields')
    d = rec.dict
    h.check(len(d) == len(names), 'fields as a mapping', 'dict')
    for n, t in zip(names, want):
        h.check(lambda: same(rec[n], t) and same(d[n], t), 'a field by name', 'lookup')
    h.check(lambda: rec == CT.Record(list(zip(names, want))) and
            hash(rec) == hash(CT.Record(list(zip(names, want)))), 'equal fields', 'equal')
    h.check(lambda: rec.measure is rec and rec.shape == () and len(rec) == 1, 'a measure')


def built(h):
    """from any kind of sequence of pairs, with any names"""
    n = h.choice('n', h.bound(3, 4))
    names = [h.text('s%d' % i, 0, h.bound(1, 2), UNICODE) for i in range(n)]
    types, want = [], []
    for i in range(n):
        t, w = typ(h, 't%d' % i, h.bound(3, 6))
        types.append(t)
        want.append(w)
    pairs = list(zip(names, types))
    how = h.pick('how', ['list', 'tuple', 'lists', 'zip', 'ordered', 'literal'])
    ok = distinct(names)
    if how == 'ordered':
        h.assume(ok)
        make = lambda: CT.Record(OrderedDict(pairs))
    elif how == 'literal':
        h.assume(n > 0)
        make = lambda: CT.R[tuple([slice(a, t) for a, t in pairs])]
    else:
        arg = {'list': list(pairs), 'tuple': tuple(pairs), 'lists': [list(p) for p in pairs],
               'zip': zip(names, types)}[how]
        make = lambda: CT.Record(arg)
    out = []
    e = raised(lambda: out.append(make()), ValueError)
    h.check((e is not None) == (not ok), 'a name that occurs twice is refused, others are not',
            'duplicates')
    if not ok:
        h.reach('duplicate')
        return
    look(h, out[0], names, want)
    k = h.text('k', 0, 1, UNICODE)
    miss = all(k != a for a in names)
    # positions are no names
    p = h.int('p', -3, 3)
    for bad in (p, None, (k,), slice(0, 1)):
        e = raised(lambda: out[0][bad], Exception)
        h.check(isinstance(e, (KeyError, TypeError)), 'what is no name')
    e = raised(lambda: out[0][k], KeyError)
    h.check((e is not None) == miss, 'a name that is no field', 'missing')
    e = raised(lambda: CT.DataShape(out[0]).subshape[k], KeyError)
    h.check((e is not None) == miss, 'a name that is no field', 'missing')
    h.reach('record')


def kept_names(h):
    """names of several characters, blanks and strange ones included, are kept as they are"""
    a = h.text('a', 0, h.bound(2, 3), UNICODE)
    b = h.text('b', 0, h.bound(1, 2), UNICODE)
    types, want = [CT.int8, CT.string], [CT.int8, CT.string]
    if a == b:
        h.check(raised(lambda: CT.Record([(a, CT.int8), (b, CT.string)]), ValueError) is not None,
                'a name twice', 'duplicates')
        h.reach('duplicate')
        return
    look(h, CT.Record([(a, CT.int8), (b, CT.string)]), [a, b], want)
    h.check(lambda: CT.R[a:CT.int8, b:CT.string].names == [a, b], 'names of a literal', 'names')
    h.reach('record')


def one_literal(h):
    """a literal of one field, and every malformed literal"""
    def part(p):
        start = h.pick(p + 'a', ['a', 'b', None, 3, CT.int8])
        stop = h.pick(p + 'b', [CT.int8, 'int8', None])
        step = h.pick(p + 'c', [None, 'int8', 0])
        s = slice(start, stop, step)
        return s, type(start) is str and stop is not None and step is None
    n = 1 + h.choice('n', 2)
    parts = [part('p%d' % i) for i in range(n)]
    junk = h.pick('junk', [None, 'a', 3, ('a', 'int8'), CT.int8])
    items = [s for s, ok in parts]
    good = all([ok for s, ok in parts])
    if junk is not None:
        items.insert(h.choice('at', n + 1), junk)
        good = False
    arg = items[0] if len(items) == 1 else tuple(items)
    out = []
    if good and n == 2 and items[0].start == items[1].start:
        h.check(raised(lambda: CT.R[arg], ValueError) is not None, 'a name twice')
        h.reach('refused')
        return
    e = raised(lambda: out.append(CT.R[arg]), TypeError)
    h.check((e is None) == good, 'a malformed literal', 'literal')
    if good:
        look(h, out[0], [s.start for s in items], [CT.int8] * n)
        h.reach('record')
    else:
        h.reach('refused')


def converted(h):
    """names that are no texts are named by their text"""
    n = 1 + h.choice('n', h.bound(2, 3))
    raw, names = [], []
    for i in range(n):
        x = h.int('i%d' % i, -9, 99)
        if h.bool('str%d' % i):
            raw.append(str(x))
        else:
            raw.append(x)
        names.append(str(x))
    ok = distinct(names)
    out = []
    e = raised(lambda: out.append(CT.Record([(a, CT.int8) for a in raw])), ValueError)
    h.check((e is not None) == (not ok), 'a name that occurs twice is refused, others are not',
            'duplicates')
    if ok:
        look(h, out[0], names, [CT.int8] * n)
        h.reach('record')
    else:
        h.reach('duplicate')


def parsed(h):
    """records in text have the fields written there"""
    n = 1 + h.choice('n', h.bound(2, 3))
    names, parts = [], []
    for i in range(n):
        s = h.join([h.char('s%d' % i, LOWER), h.text('r%d' % i, 0, 1, IDENT_REST)])
        names.append(s)
        q = h.pick('q%d' % i, ['', '"', "'"])
        parts.append(h.join([q, s, q, ': int8' if i else ': 2 * int16']))
    text = h.join(['{'] +
                  [x for i, p in enumerate(parts) for x in ([', '] if i else []) + [p]] +
                  [h.pick('end', ['}', ',}'])])
    ok = distinct(names)
    out = []
    e = raised(lambda: out.append(ds.dshape(text)), ValueError)
    h.check((e is not None) == (not ok), 'a name that occurs twice is refused, others are not',
            'duplicates')
    if ok:
        look(h, unwrap(out[0]), names, [CT.DataShape(CT.Fixed(2), CT.int16)] + [CT.int8] * (n - 1))
        h.reach('record')
    else:
        h.reach('duplicate')


def independent(h):
    """a record does not change with what it was made from, or what it gave away"""
    names = [h.char('a', LOWER), h.char('b', LOWER)]
    h.assume(names[0] != names[1])
    pairs = [[names[0], CT.int8], [names[1], CT.int16]]
    rec = CT.Record(pairs)
    which = h.choice('which', 6)
    if which == 0:
        pairs.append(['zz', CT.int8])
    elif which == 1:
        pairs[0][1] = CT.string
    elif which == 2:
        rec.names.append('zz')
    elif which == 3:
        rec.names.reverse()
    elif which == 4:
        rec.types.reverse()
    else:
        rec.dict[names[0]] = CT.string
    look(h, rec, names, [CT.int8, CT.int16])
    h.reach('done')


built.reach = converted.reach = parsed.reach = kept_names.reach = ['record', 'duplicate']
one_literal.reach = ['record', 'refused']
independent.reach = ['done']


def many(h):
    """any of many fields"""
    n, j = long_place(h, 'x', (6, 9, 17), 10)
    names = ['f%d' % (n - i) for i in range(n)]
    names[j] = h.join(['f', h.text('s', 0, 2, ((48, 57),))])
    want = [CT.DataShape(CT.Fixed(i), CT.int8) for i in range(n)]
    pairs = list(zip(names, want))
    how = h.pick('how', ['list', 'literal', 'text'])
    make = {'list': lambda: CT.Record(pairs),
            'literal': lambda: CT.R[tuple([slice(a, t) for a, t in pairs])],
            'text': lambda: unwrap(ds.dshape(h.join(
                ['{'] + [x for i, a in enumerate(names) for x in (a, ': %d * int8, ' % i)] +
                ['}'])))}[how]
    ok = distinct(names)
    out = []
    e = raised(lambda: out.append(make()), ValueError)
    h.check((e is not None) == (not ok), 'a name that occurs twice is refused, others are not',
            'duplicates')
    if ok:
        look(h, out[0], names, want)
        h.reach('record')
    else:
        h.reach('duplicate')


many.reach = ['record', 'duplicate']


HARNESSES = [built, kept_names, one_literal, converted, parsed, independent, many]
