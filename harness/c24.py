"""C24: a name denotes one type: nothing replaces it, and tables do not leak into each other"""
T = ds.type_symbol_table
P = ds.parser.parse
ERR = ds.DataShapeSyntaxError


class scratch(object):
    """the global registry of types is left as it was"""
    def __enter__(self):
        self.saved = dict(CT.Type._registry)

    def __exit__(self, *a):
        r = CT.Type._registry
        for k in list(r):
            if k not in self.saved:
                del r[k]
        for k in self.saved:
            r[k] = self.saved[k]
        return False


def registry(h):
    """any sequence of registrations under any names"""
    if not hasattr(CT.Type, '_registry'):
        h.reach('taken')                # no way to leave the global registry as it was
        h.reach('done')
        return
    with scratch():
        known = []
        for i in range(h.bound(3, 4)):
            k = h.choice('k%d' % i, 5)
            if k == 4 and not known:
                k = 3
            if k == 4:                  # the type that is there, once more
                n = known[-1][0]
            elif k == 3:
                n = h.pick('p%d' % i, ['int8', 'Record', 'string'])
            else:
                n = h.join(['Zq', h.char('c%d' % i, ((9, 126),))])
            old = [t for a, t in known if a == n]
            if k == 3:
                old = [CT.Type.lookup_type(n)]
            out = []
            if k == 0:
                t = CT.JSON()
                e = raised(lambda: CT.Type.register(n, t), TypeError)
            elif k == 4:
                t = old[0]
                e = raised(lambda: CT.Type.register(n, t), TypeError)
            else:
                size = h.int('z%d' % i, 1, 64)
                e = raised(lambda: out.append(CT.CType(n, size, size)), TypeError)
                t = out[0] if out else None
            h.check((e is not None) == bool(old), 'a taken name is refused, a free one is not',
                    'taken')
            if old:
                h.check(lambda: CT.Type.lookup_type(n) is old[0], 'a type is replaced', 'replaced')
                h.reach('taken')
            else:
                known.append((n, t))
                h.check(lambda: CT.Type.lookup_type(n) is t, 'a registered type', 'lookup')
                if out:
                    h.check(lambda: t.itemsize == size and t.alignment == size and str(t) == n,
                            'what it was made of')
        for n, t in known:
            h.check(lambda: CT.Type.lookup_type(n) is t, 'a type is replaced', 'replaced')
        q = h.join(['Zq', h.char('q', ((9, 126),))])
        miss = all(q != n for n, t in known)
        e = raised(lambda: CT.Type.lookup_type(q), KeyError)
        h.check((e is not None) == miss, 'a name nobody registered', 'unknown')
    h.reach('done')


def own_names(h):
    """a table knows the names given to it and no others; other tables do not"""
    a, b = T.TypeSymbolTable(), T.TypeSymbolTable(bare=h.bool('bare'))
    base = ['zq', 'int8', 'var']
    n = h.pick('n', base)
    k = h.choice('k', len(n))
    n = h.join([n[:k], h.char('c', ((48, 57), (65, 90), (95, 95), (97, 122)) if k else LOWER),
                n[k + 1:]])
    x = CT.Categorical(['u', 'v'], CT.string)
    kind = h.pick('kind', ['dtype', 'dim', 'constr'])
    before = P_or_none(n, T.sym)
    if kind == 'dtype':
        a.dtype[n] = x
        got = P(n, a)
        h.check(lambda: same(got, x), 'a name of the table', 'own')
    elif kind == 'dim':
        a.dim[n] = CT.Fixed(7)
        got = P(h.join([n, ' * int8']), a)
        h.check(lambda: same(got, CT.DataShape(CT.Fixed(7), CT.int8)), 'a name of the table', 'own')
    else:
        a.dtype_constr[n] = lambda i, j: CT.Decimal(i, j)
        i, j = h.int('i', 0, 99), h.int('j', -9, 99)
        got = P(h.join([n, '[', str(i), ', ', str(j), ']']), a)
        h.check(lambda: same(got, CT.Decimal(i, j)), 'a name of the table', 'own')
    after = P_or_none(n, T.sym)
    h.check(lambda: same([before], [after]), 'another table knows the name', 'leak')
    h.check(lambda: same([P_or_none(n, b)],
                         [before if b.dtype else None]), 'another table knows the name', 'leak')
    c = T.TypeSymbolTable()
    h.check(lambda: same([P_or_none(n, c)], [before]), 'a later table knows the name', 'leak')
    k = h.choice('kq', len(n))
    q = h.join([n[:k], h.char('q', ((48, 57), (65, 90), (95, 95), (97, 122)) if k else LOWER),
                n[k + 1:]])
    if q != n:
        h.check(lambda: same([P_or_none(q, a)], [P_or_none(q, T.sym)]), 'a name nobody gave',
                'unknown')
    h.reach('known' if before is not None else 'new')


def P_or_none(s, table):
    out = []
    raised(lambda: out.append(P(s, table)), ERR)
    return out[0] if out else None


# text, what it denotes, the entries it needs
TEXTS = [
    ('int8', ['dtype.int8']), ('3 * int8', ['dim_constr.fixed', 'dtype.int8']),
    ('var * int8', ['dim.var', 'dtype.int8']), ('A * int8', ['dim_constr.typevar', 'dtype.int8']),
    ('A', ['dtype_constr.typevar']), ('... * int8', ['dim.ellipsis', 'dtype.int8']),
    ('A... * int8', ['dim_constr.ellipsis', 'dtype.int8']),
    ('?int8', ['dtype_constr.option', 'dtype.int8']),
    ('option[int8]', ['dtype_constr.option', 'dtype.int8']),
    ('{a: int8}', ['dtype_constr.struct', 'dtype.int8']),
    ('(int8)', ['dtype_constr.tuple', 'dtype.int8']),
    ('(int8) -> int8', ['dtype_constr.funcproto', 'dtype.int8']),
    ('decimal[3]', ['dtype_constr.decimal']),
    ('var * {a: ?(3 * int8)}', ['dim.var', 'dtype_constr.struct', 'dtype_constr.option',
                                'dtype_constr.tuple', 'dim_constr.fixed', 'dtype.int8']),
]
ENTRIES = sorted(set([e for s, es in TEXTS for e in es]))


def missing(h):
    """notations need the entries of the table that build them, and no others"""
    full = T.TypeSymbolTable()
    bare = h.bool('bare')
    a = T.TypeSymbolTable(bare=bare)
    gone = []
    for e in ENTRIES:
        kind, name = e.split('.')
        if h.bool(e):
            if not bare:
                del getattr(a, kind)[name]
            gone.append(e)
        elif bare:
            getattr(a, kind)[name] = getattr(full, kind)[name]
    i = h.choice('i', len(TEXTS))
    s, need = TEXTS[i]
    want = P(s, T.sym)
    got = P_or_none(s, a)
    if any([e in gone for e in need]):
        h.check(got is None, 'a text is accepted without its entries', 'refused')
        h.reach('refused')
    else:
        h.check(lambda: same(got, want), 'a text does not need other entries', 'accepted')
        h.reach('accepted')


registry.reach = ['taken', 'done']
own_names.reach = ['known', 'new']
missing.reach = ['refused', 'accepted']


def many(h):
    """one more name after many"""
    n = h.pick('n', h.bound([4, 9], list(range(1, 10))))
    a = T.TypeSymbolTable()
    base = len(a.dtype)
    for i in range(n):
        a.dtype['zq%d' % i] = CT.Decimal(i + 1, 0)
    c = h.char('c', ((48, 57),))
    s = h.join(['zq', c])
    got = P_or_none(s, a)
    i = ord(c) - 48
    h.check((got is None) == (i >= n), 'a name of the table', 'own')
    if i < n:
        h.check(lambda: got.measure.precision == i + 1, 'a name of the table', 'own')
    h.check(P_or_none(s, T.sym) is None and P_or_none(s, T.TypeSymbolTable()) is None,
            'another table knows the name', 'leak')
    if hasattr(CT.Type, '_registry'):
        with scratch():
            ts = [CT.CType('Zq%d' % i, i + 1, 1) for i in range(n)]
            s = h.join(['Zq', c])
            out = []
            k = h.pick('k', [lambda: out.append(CT.CType(s, 77, 1)),
                             lambda: CT.Type.register(s, CT.int8)])
            e = raised(k, TypeError)
            h.check((e is not None) == (i < n), 'a taken name is refused, a free one is not',
                    'taken')
            for q in range(n):
                h.check(CT.Type.lookup_type('Zq%d' % q) is ts[q], 'a type is replaced', 'replaced')
            for q in SIMPLE:
                x = getattr(CT, q)
                if isinstance(x, CT.CType):
                    h.check(CT.Type.lookup_type(x.name) is x, 'a type is replaced', 'replaced')
    h.reach('taken' if i < n else 'done')


many.reach = ['taken', 'done']


def aliases(h):
    """a datashape with a name of its own prints as it and is found under it"""
    if not hasattr(CT.Type, '_registry'):
        h.reach('done')                 # no way to leave the global registry as it was
        return
    n = h.join(['Zq', h.char('c', ((9, 126),)), h.pick('s', ['', 'x'])])
    k = h.choice('k', 3)
    dims = [CT.Fixed(h.int('d%d' % i, 0, 99)) for i in range(k)]
    m = h.pick('m', [CT.int8, CT.string, CT.Record([('a', CT.int8)]), CT.Decimal(3, 0)])
    with scratch():
        t = CT.DataShape(*dims + [m], **{'name': n})
        u = CT.DataShape(*dims + [m])
        h.check(lambda: str(t) == n and str(u) != n, 'printed')
        h.check(lambda: CT.Type.lookup_type(n) is t, 'a name', 'lookup')
        h.check(lambda: t == u and u == t and not t != u and hash(t) == hash(u),
                'the name does not make another type')
        h.check(lambda: same(list(t), list(u)) and len(t) == len(u), 'parts')
        e = raised(lambda: CT.Type.register(n, CT.int8), TypeError)
        h.check(e is not None, 'a taken name is refused, a free one is not', 'taken')
        h.check(lambda: CT.Type.lookup_type(n) is t, 'a type is replaced', 'replaced')
        q = h.join(['Zq', h.char('q', ((9, 126),))])
        e = raised(lambda: CT.Type.lookup_type(q), KeyError)
        h.check((e is not None) == (q != n), 'a name nobody registered', 'unknown')
    h.reach('done')


aliases.reach = ['done']


HARNESSES = [registry, own_names, missing, many, aliases]
