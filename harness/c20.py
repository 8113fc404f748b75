"""C20: type sets are sets of types, and the widest type of a kind stays in the kind"""
import pickle
TS = ds.typesets
NUM = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32',
       'float64', 'complex64', 'complex128', 'bool_']
KIND = {'i': 'signed', 'u': 'unsigned', 'f': 'floating', 'c': 'complexes', 'b': 'boolean'}
MEMBERS = {'signed': NUM[:4], 'unsigned': NUM[4:8], 'integral': NUM[:8], 'floating': NUM[8:10],
           'complexes': NUM[10:12], 'boolean': NUM[12:], 'real': NUM[:10], 'numeric': NUM[:12],
           'scalar': NUM}
NAMED = sorted(MEMBERS)
OTHERS = ['string', 'date_', 'json', 'float16', 'null']


def typ(h, name, names):
    n = h.pick(name, names)
    return n, getattr(CT, n)


def members(h):
    """the predefined sets hold exactly their types"""
    s = h.pick('s', NAMED)
    n, t = typ(h, 't', NUM + OTHERS)
    x = getattr(TS, s)
    h.check((t in x) == (n in MEMBERS[s]), 'membership', 'membership')
    h.check(TS.matches_typeset(t, x) == (n in MEMBERS[s]), 'a type and a set', 'match')
    h.check(len(x) == len(MEMBERS[s]) and len(list(x)) == len(MEMBERS[s]), 'size')
    h.check(TS.lookup(s) is x and TS.registry[s] is x, 'looked up by name')
    h.check(repr(x) == '{%s}' % s, 'printed')
    c = CT.DataShape(t) if h.bool('wrapped') else pickle.loads(pickle.dumps(t))
    h.check((c in x) == (n in MEMBERS[s]), 'membership of an equal type')
    h.check(CT.Option(t) not in x, 'an option is no member')
    m = h.int('m', 0, 99)
    h.check(CT.DataShape(CT.Fixed(m), t) not in x and CT.Tuple([t]) not in x,
            'no type of more than one value is a member')
    u = h.pick('u', NAMED)
    y = getattr(TS, u)
    h.check((x == y) == (s == u) and (x != y) == (s != u), 'equality of sets', 'equality')
    h.check(s != u or hash(x) == hash(y), 'hashes')
    z = x | y
    h.check((t in z) == (n in MEMBERS[s] or n in MEMBERS[u]), 'union')
    h.check(len(z) == len(set(MEMBERS[s]) | set(MEMBERS[u])), 'size of a union')
    h.reach('in' if n in MEMBERS[s] else 'out')


def signatures(h):
    """argument types match a signature position by position"""
    n = 1 + h.choice('n', h.bound(2, 3))
    names, types, sig = [], [], []
    want = True
    for i in range(n):
        a, t = typ(h, 'a%d' % i, h.bound(['int8', 'int64', 'uint8', 'float32', 'bool_', 'string'],
                                         NUM + OTHERS))
        types.append(t)
        if h.bool('set%d' % i):
            s = h.pick('s%d' % i, ['signed', 'integral', 'real', 'boolean'])
            sig.append(getattr(TS, s))
            ok = a in MEMBERS[s]
        else:
            b, u = typ(h, 'b%d' % i, ['int8', 'int64', 'float32', 'string'])
            sig.append(u)
            ok = a == b
        want = want and ok
    h.check(TS.matches_typeset(types, sig) == want, 'a signature')
    h.check(TS.matches_typeset(tuple(types), tuple(sig)) == want, 'a signature')
    h.reach('match' if want else 'no match')


def widest(h):
    """maxtype and supertype of every scalar type"""
    n, t = typ(h, 't', NUM)
    o = h.bool('opt')
    x = CT.Option(t) if o else t
    kind = KIND[CT.to_numpy_dtype(t).kind]
    h.check(TS.supertype(x) is getattr(TS, kind), 'supertype')
    m = TS.maxtype(x)
    h.check(isinstance(m, CT.Option) == o, 'missing values')
    b = m.ty if o else m
    h.check(b in getattr(TS, kind), 'the widest type has the same kind')
    for k in MEMBERS[kind]:
        u = getattr(CT, k)
        h.check(u.itemsize <= b.itemsize, 'a wider type exists')
    h.check(same(TS.maxtype(m), m), 'the widest type of the widest type')
    k = h.choice('n', 3)
    d = CT.DataShape(*[CT.Fixed(h.int('d%d' % i, 0, 10 ** 20)) for i in range(k)] + [x])
    h.check(same(TS.maxtype(d), m), 'the widest type of an array')
    h.reach('option' if o else 'plain')


def kept(h):
    """decimals and time differences are as wide as they are"""
    if h.bool('dec'):
        t = CT.Decimal(h.int('p', 1, 10 ** 6), h.int('s', -10 ** 3, 10 ** 3))
    else:
        t = CT.TimeDelta(h.pick('u', ['ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y']))
    h.check(lambda: same(TS.maxtype(t), t), 'kept')
    h.check(lambda: same(TS.maxtype(CT.Option(t)), CT.Option(t)), 'kept')
    h.reach('done')


def refused(h):
    """other types have no widest type"""
    x = h.pick('x', [CT.string, CT.json, CT.date_, CT.datetime_, CT.Record([('a', CT.int8)]),
                     CT.Tuple([CT.int8]), CT.null, CT.TypeVar('T'), CT.object_, CT.bytes_])
    if h.bool('opt'):
        x = CT.Option(x)
    e = raised(lambda: TS.maxtype(x), TypeError)
    h.check(e is not None, 'a type without a kind')
    h.reach('done')


def new_sets(h):
    """sets of any types: members, order, equality, registration"""
    def mk(p, **kw):
        ts = [h.pick('%s%d' % (p, i), ['int8', 'int16', 'string']) for i in range(h.choice(p, 3))]
        return ts, TS.TypeSet(*[getattr(CT, t) for t in ts], **kw)
    reg = TS.TypesetRegistry()
    a, x = mk('a')
    b, y = mk('b')
    for t in ('int8', 'int16', 'string'):
        h.check((getattr(CT, t) in x) == (t in a), 'membership')
        h.check((getattr(CT, t) in (x | y)) == (t in a or t in b), 'union')
    h.check(len(x) == len(set(a)), 'size')
    h.check((x == y) == (a == b), 'equality of sets')
    h.check(a != b or hash(x) == hash(y), 'hashes')
    h.check(list(x) == [getattr(CT, t) for t in a], 'order')
    n = h.chars('n', 2, LOWER)
    m = h.chars('m', 2, LOWER)
    h.check(reg.register_typeset(n, x) is x, 'registered')
    e = raised(lambda: reg.register_typeset(m, y), TypeError)
    h.check((e is not None) == (n == m), 'one set per name')
    h.check(reg[n] is x and reg.lookup(n) is x, 'the first set stays')
    h.check(n == m or reg[m] is y, 'the second set')
    k = h.chars('k', 2, LOWER)
    e = raised(lambda: reg[k], KeyError)
    h.check((e is not None) == (k != n and k != m), 'unknown names')
    h.reach('same' if n == m else 'different')


members.reach = ['in', 'out']
signatures.reach = ['match', 'no match']
widest.reach = ['option', 'plain']
kept.reach = refused.reach = ['done']
new_sets.reach = ['same', 'different']


def many(h):
    """long signatures and large sets, with any difference at any place"""
    k, j = long_place(h, 'x', (5, 8), 9)
    pool = NUM[:8]
    types = [getattr(CT, pool[i % 8]) for i in range(k)]
    sig = [getattr(TS, KIND[CT.to_numpy_dtype(t).kind]) if i % 2 else t
           for i, t in enumerate(types)]
    h.check(TS.matches_typeset(types, sig) is True, 'a signature')
    n, t = typ(h, 't', ['int8', 'int64', 'uint8', 'float32', 'string'])
    other = types[:j] + [t] + types[j + 1:]
    p = pool[j % 8]
    want = (n in MEMBERS[KIND[CT.to_numpy_dtype(types[j]).kind]] if j % 2 else n == p)
    h.check(bool(TS.matches_typeset(other, sig)) == want, 'a signature')
    # sets
    names = [NUM[i] for i in range(k)]
    x = TS.TypeSet(*[getattr(CT, q) for q in names])
    h.check(len(x) == k and list(x) == [getattr(CT, q) for q in names], 'members')
    for q in NUM + OTHERS:
        h.check((getattr(CT, q) in x) == (q in names), 'membership')
    ms = names[:j] + [n] + names[j + 1:]
    y = TS.TypeSet(*[getattr(CT, q) for q in ms])
    h.check((x == y) == (ms == names) and (x != y) == (ms != names), 'equality of sets')
    h.check(ms != names or hash(x) == hash(y), 'hashes')
    i = h.choice('i', k)
    ps = list(names)
    ps[i], ps[j] = ps[j], ps[i]
    h.check((x == TS.TypeSet(*[getattr(CT, q) for q in ps])) == (i == j), 'equality of sets')
    u = x | y
    h.check(len(u) == len(set(names) | set(ms)), 'size of a union')
    for q in NUM + OTHERS:
        h.check((getattr(CT, q) in u) == (q in names or q in ms), 'union')
    h.check(not TS.TypeSet(*[getattr(CT, q) for q in names[:j]]) == x, 'equality of sets')
    h.reach('match' if want else 'no match')


many.reach = ['match', 'no match']


HARNESSES = [members, signatures, widest, kept, refused, new_sets, many]
