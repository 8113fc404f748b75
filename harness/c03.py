"""C03: the parser accepts the documented grammar and builds the type it denotes"""
ERR = ds.error.DataShapeSyntaxError


class Con(CT.Mono):
    """what the test constructor builds: it records its arguments"""
    cls = CT.MEASURE

    def __init__(self, *args, **kwargs):
        self.args = args
        self.kwargs = kwargs
        self._parameters = (args, tuple(sorted(kwargs.items())))


def table():
    t = ds.type_symbol_table.TypeSymbolTable(bare=True)
    t.dtype['i'] = CT.int32
    t.dtype['f'] = CT.float64
    t.dim['v'] = CT.Var()
    t.dim['ellipsis'] = CT.Ellipsis()
    t.dtype_constr.update({'c': Con, 'struct': lambda n, d: CT.Record(list(zip(n, d))),
                           'tuple': CT.Tuple, 'typevar': CT.TypeVar, 'option': CT.Option,
                           'funcproto': lambda a, r: CT.Function(*(list(a) + [r]))})
    t.dim_constr.update({'fixed': CT.Fixed, 'typevar': CT.TypeVar,
                         'ellipsis': lambda n: CT.Ellipsis(CT.TypeVar(n))})
    return t


# ---- reference: the documented grammar, all parses by nondeterministic descent -------
class Bad(Exception):
    pass


class Toks(object):
    """lazily produced tokens of a text in the alphabet of these harnesses"""

    def __init__(self, s):
        self.s, self.i, self.t = s, 0, []

    def at(self, k):
        while len(self.t) <= k:
            self.t.append(self.next())
        return self.t[k]

    def next(self):
        s, n = self.s, len(self.s)
        while self.i < n and s[self.i] == ' ':
            self.i += 1
        if self.i >= n:
            return 'END', None
        i = self.i
        c = s[i]
        j = i + 1
        if 'a' <= c <= 'z' or 'A' <= c <= 'Z' or c == '_':
            while j < n and ('a' <= s[j] <= 'z' or 'A' <= s[j] <= 'Z' or s[j] == '_' or
                             '0' <= s[j] <= '9'):
                j += 1
            self.i = j
            if s[i:j] == 'True' or s[i:j] == 'False':
                return 'BOOL', s[i:j] == 'True'
            return ('LO' if 'a' <= c <= 'z' else 'UP' if 'A' <= c <= 'Z' else 'OT'), s[i:j]
        if '0' <= c <= '9' or c == '-' and j < n and '1' <= s[j] <= '9':
            neg = c == '-'
            if c == '0':
                if j < n and '0' <= s[j] <= '9':
                    raise Bad()
            else:
                while j < n and '0' <= s[j] <= '9':
                    j += 1
            v = 0
            for k in range(i + 1 if neg else i, j):
                v = v * 10 + (ord(s[k]) - 48)
            self.i = j
            return 'INT', -v if neg else v
        if c == '"':
            while j < n and s[j] != '"':
                j += 1
            if j >= n:
                raise Bad()
            self.i = j + 1
            return 'STR', s[i + 1:j]
        if c == '-':
            if j < n and s[j] == '>':
                self.i = j + 1
                return '->', None
            raise Bad()
        if c == '.':
            if s[i:i + 3] == '...':
                self.i = i + 3
                return '...', None
            raise Bad()
        for p in '*,=:[]{}()?':
            if c == p:
                self.i = j
                return p, None
        raise Bad()


DT = {'i': CT.int32, 'f': CT.float64}


def r_datashape(t, k):
    """-> (type, next position) or None; the grammar needs one token of lookahead"""
    if t.at(k)[0] == '?':
        r = r_nooption(t, k + 1)
        if r is None:
            raise Bad()
        return CT.DataShape(CT.Option(r[0])), r[1]
    return r_nooption(t, k)


def r_nooption(t, k):
    kind, val = t.at(k)
    dim = None
    if kind == 'UP':
        if t.at(k + 1)[0] == '...':
            dim, nxt = CT.Ellipsis(CT.TypeVar(val)), k + 2
        else:
            dim, nxt = CT.TypeVar(val), k + 1
    elif kind == 'LO' and val == 'v':
        dim, nxt = CT.Var(), k + 1
    elif kind == 'INT':
        if t.at(k + 1)[0] == '*':
            if val < 0:
                raise ValueError('negative')
            dim, nxt = CT.Fixed(val), k + 1
    elif kind == '...':
        dim, nxt = CT.Ellipsis(), k + 1
    if dim is not None and t.at(nxt)[0] == '*':
        r = r_datashape(t, nxt + 1)
        if r is None:
            raise Bad()
        return CT.DataShape(dim, *r[0].parameters), r[1]
    r = r_dtype(t, k)
    return None if r is None else (CT.DataShape(r[0]), r[1])


def r_list(t, k, item, close):
    """<item> {, <item>} [,] up to the closing token"""
    out = []
    while t.at(k)[0] != close:
        r = item(t, k)
        if r is None:
            raise Bad()
        out.append(r[0])
        k = r[1]
        if t.at(k)[0] == ',':
            k += 1
        elif t.at(k)[0] != close:
            raise Bad()
    return out, k + 1


def r_field(t, k):
    kind, val = t.at(k)
    if kind not in ('LO', 'UP', 'OT', 'STR') or t.at(k + 1)[0] != ':':
        raise Bad()
    r = r_datashape(t, k + 2)
    if r is None:
        raise Bad()
    return (val, r[0]), r[1]


def r_dtype(t, k):
    kind, val = t.at(k)
    if kind == 'UP':
        return CT.TypeVar(val), k + 1
    if kind == 'LO':
        if t.at(k + 1)[0] == '[':
            if val != 'c':
                return None
            return r_args(t, k + 2)
        for n in 'if':
            if val == n:
                return DT[n], k + 1
        return None
    if kind == '{':
        fields, k = r_list(t, k + 1, r_field, '}')
        return CT.Record(fields), k
    if kind == '(':
        items, k = r_list(t, k + 1, r_datashape, ')')
        if t.at(k)[0] == '->':
            r = r_datashape(t, k + 1)
            if r is None:
                raise Bad()
            return CT.Function(*(items + [r[0]])), r[1]
        return CT.Tuple(items), k
    return None


def r_arg(t, k):
    r = r_datashape(t, k)
    if r is not None:
        return r
    kind, val = t.at(k)
    if kind in ('INT', 'STR', 'BOOL'):
        return val, k + 1
    if kind == '[':
        k += 1
        if t.at(k)[0] == ']':
            return [], k + 1
        out = []
        first = None
        while True:
            r = r_datashape(t, k)
            if r is not None:
                what, v, k = 'ds', r[0], r[1]
            elif t.at(k)[0] in ('INT', 'STR', 'BOOL'):
                what, v = t.at(k)
                k += 1
            else:
                raise Bad()
            if first is None:
                first = what
            if what != first:
                raise Bad()
            out.append(v)
            if t.at(k)[0] == ']':
                return out, k + 1
            if t.at(k)[0] != ',':
                raise Bad()
            k += 1
    return None


def r_args(t, k):
    args, kwargs = [], {}
    named = False
    while True:
        kind, val = t.at(k)
        if kind == ']' and (args and not named):
            break                  # a comma after the last positional argument
        if kind == 'LO' and t.at(k + 1)[0] == '=' and (named or not (val == 'i' or val == 'f')):
            r = r_arg(t, k + 2)
            if r is None:
                raise Bad()
            named = True
            if val in kwargs:
                raise Bad()
            kwargs[val] = r[0]
            k = r[1]
        else:
            r = None if named else r_arg(t, k)
            if r is None:
                raise Bad()
            args.append(r[0])
            k = r[1]
        if t.at(k)[0] == ',':
            k += 1
        elif t.at(k)[0] == ']':
            break
        else:
            raise Bad()
    return Con(*args, **kwargs), k + 1


def reference(s):
    t = Toks(s)
    try:
        r = r_datashape(t, 0)
        if r is None or t.at(r[1])[0] != 'END':
            return None
        return r[0]
    except Bad:
        return None


def same_con(a, b):
    return same(a, b)


def compare(h, s):
    other = None
    try:
        want = reference(s)
    except (ValueError, TypeError) as e:
        want, other = None, e
    try:
        got = ds.parser.parse(s, table())
    except ERR:
        h.check(want is None, 'a text of the language is refused', 'refused')
        h.reach('refused')
        return
    except (ValueError, TypeError):
        # types refuse what the grammar allows: repeated fields, negative dimensions
        h.check(want is None, 'a text of the language is refused', 'refused')
        h.reach('invalid')
        return
    h.check(want is not None, 'a text outside the language is accepted', 'accepted')
    h.check(type(got) is CT.DataShape, 'a datashape is returned', 'datashape')
    h.check(lambda: same(got, want), 'the text denotes another type', 'denotation')
    h.reach('accepted')


ALPHA = ((32, 32), (34, 34), (40, 42), (44, 46), (48, 50), (58, 58), (61, 63), (84, 84),
         (91, 91), (93, 93), (95, 95), (99, 99), (105, 105), (107, 107), (118, 118),
         (123, 123), (125, 125))


def any_text(h):
    """every text up to a length over the alphabet of the language"""
    compare(h, h.text('s', 0, h.bound(4, 5), ALPHA))


CONTEXTS = ['c[%s]', 'c[i,%s]', '{k:%s}', '{k:i,%s', '(%s)', '(i,%s', '3*%s', 'T*%s',
            '()->%s', 'c[[%s]]', 'c[k=%s]', 'c[[i,%s', '?%s', 'c[[3,%s', 'c[["a",%s',
            '%s*i', '{%s:i}', '(%s)->i', '...*%s', 'T...%s', 'c[%s=3]', 'c[k=2,%s', '(i)%s',
            'i%s', '{i:v*?i,%s:f}', 'c[i,k=2,%s]', '3%si', 'v%si', 'T...%si', '...%si', '3%s*i',
            'v%s', 'c[k=2,%s=i]', 'c[k=2,k%s', '{k:i,%s:i}']


def in_context(h):
    """every short text inside every construct"""
    c = h.pick('c', CONTEXTS)
    a, b = c.split('%s')
    compare(h, h.join([a, h.text('s', 0, h.bound(3, 4), ALPHA), b]))


def lists(h):
    """items, separators and what ends a list, in every kind of list"""
    a, item = h.pick('c', [('{', 'k:i'), ('(', 'i'), ('c[', 'i'), ('c[', 'k=i'), ('c[[', 'i'),
                           ('c[[', '3'), ('c[["a",', '"b"')])
    n = h.choice('n', h.bound(5, 6))
    out = [a]
    for i in range(n):
        if i:
            out.append(h.char('s%d' % i, ((32, 32), (44, 44))))
        out.append(item.replace('k', 'klmnop'[i]))
    compare(h, h.join(out + [h.text('e', 0, 4, ((41, 41), (44, 44), (93, 93), (125, 125)))]))


lists.reach = ['accepted', 'refused']


def no_arguments(h):
    """brackets without arguments belong to no type"""
    name = h.pick('name', [n for n in sorted(ds.type_symbol_table.sym.dtype_constr)])
    s = h.join([name, '[', h.text('t', 0, 2, ((9, 10), (32, 33), (44, 44), (59, 59))), ']'])
    h.check(raised(lambda: ds.dshape(s), ERR, TypeError, ValueError, NotImplementedError) is not None,
            'an empty list of arguments')
    h.reach('done')


no_arguments.reach = ['done']
DOCUMENTED = [
    ('bool', 'bool_'), ('int8', 'int8'), ('int16', 'int16'), ('int32', 'int32'),
    ('int64', 'int64'), ('uint8', 'uint8'), ('uint16', 'uint16'), ('uint32', 'uint32'),
    ('uint64', 'uint64'), ('float16', 'float16'), ('float32', 'float32'),
    ('float64', 'float64'), ('int', 'int32'), ('real', 'float64'), ('complex', 'complex128'),
    ('intptr', 'intptr'), ('uintptr', 'uintptr'), ('complex64', 'complex64'),
    ('complex128', 'complex128'), ('string', 'string'), ('char', 'char'), ('bytes', 'bytes_'),
    ('date', 'date_'), ('time', 'time_'), ('datetime', 'datetime_'),
    ('timedelta', 'timedelta_'), ('json', 'json'), ('void', 'void'), ('null', 'null'),
    ('object', 'object_')]


def type_names(h):
    """every type name denotes its type; any other name of its length does not"""
    name, obj = h.pick('name', DOCUMENTED)
    want = getattr(CT, obj)
    got = ds.dshape(name)
    h.check(same(got, want), 'a type name denotes another type')
    i = h.choice('i', len(name) + 1)
    c = h.text('x', 0, 1, ((48, 57), (95, 95), (97, 122)))
    s = h.join([name[:i], c, name[i + h.choice('cut', 2):]])
    if not s[:1].isalpha():
        h.reach('unknown')
        return
    for n, o in DOCUMENTED:
        if s == n:
            h.check(lambda: same(ds.dshape(s), getattr(CT, o)), 'a name denotes another type')
            h.reach('known')
            return
    e = raised(lambda: ds.dshape(s), ERR)
    h.check(e is not None, 'an unknown name is accepted')
    h.reach('unknown')


NEAR = [('var', ' * int8', 'var * int8'), ('fixed', '[3]', None), ('typevar', '[3]', None),
        ('ellipsis', ' * int8', '... * int8'), ('option', '[int8]', '?int8'),
        ('struct', '[["a"], [int8]]', '{a: int8}'), ('tuple', '[[int8]]', '(int8)'),
        ('funcproto', '[[int8], int8]', '(int8) -> int8'), ('map', '[int8, int8]', 'map[int8, int8]'),
        ('decimal', '[3]', 'decimal[3, 0]'), ('string', '[3]', 'string[3, "U8"]'),
        ('units', '["m"]', 'units["m", float64]'), ('complex', '[float32]', 'complex64'),
        ('datetime', '["u"]', 'datetime[tz="u"]'),
        ('time', '["u"]', 'time[tz="u"]'), ('timedelta', '["s"]', 'timedelta[unit="s"]'),
        ('categorical', '[["a"]]', 'categorical[["a"], type=string, ordered=False]'),
        ('bytes', '[3]', None), ('int8', '[3]', None), ('json', '[3]', None), ('var', '[3]', None)]


def constructor_names(h):
    """every name of a dimension and of a constructor denotes it; any near name does not"""
    name, rest, want = h.pick('name', NEAR)
    if want is None:
        h.check(lambda: raised(lambda: ds.dshape(name + rest), ERR, NotImplementedError) is not None,
                'no such constructor')
    else:
        h.check(lambda: same(ds.dshape(name + rest), ds.dshape(want)),
                'a constructor denotes another type')
    i = h.choice('i', len(name) + 1)
    c = h.text('x', 0, 1, ((48, 57), (95, 95), (97, 122)))
    s = h.join([name[:i], c, name[i + h.choice('cut', 2):]])
    if all(s != n for n, r, w in NEAR) and s[:1].isalpha():
        h.check(lambda: raised(lambda: ds.dshape(h.join([s, rest])), ERR) is not None,
                'an unknown constructor is accepted')
        h.reach('unknown')
    else:
        h.reach('known')


PARTS = ['int32', '?string', 'N * float64', '2 * var * {a: bool}', '(int8, date)',
         'A... * T', 'map[int8, string[3]]', '(int8) -> int8']


def part(h, name):
    return h.pick(name, PARTS)


def sugar(h):
    """notations that the documentation declares equivalent"""
    a, b = part(h, 'a'), part(h, 'b')
    u = h.char('u', UPPER)
    n = h.int('n', 0, 10 ** 20)
    f = h.char('f', LOWER)
    g = h.char('g', UPPER)
    k = h.choice('k', 12)
    x, y = [
        (['{', f, ': ', a, ', ', g, ': ', b, '}'],
         ['struct[["', f, '", "', g, '"], [', a, ', ', b, ']]']),
        (['{"', f, '": ', a, ', \'', g, '\': ', b, ',}'],
         ['{', f, ' : ', a, ',\n', g, ':', b, '}']),
        (['(', a, ', ', b, ')'], ['tuple[[', a, ', ', b, ']]']),
        (['(', a, ', ', b, ',)'], ['( ', a, ' , ', b, ' )']),
        (['(', a, ', ', b, ') -> int8'], ['funcproto[[', a, ', ', b, '], int8]']),
        ([u, '*', u], [' ', u, ' * ', u, '# comment']),
        (['?', a], ['option[', a, ']']) if a[0] != '?' else (['?int8'], ['option[int8]']),
        (['2 * ?3 * ', u], ['2 * option[3 * ', u, ']']),
        (['... * 3 * ', u], ['ellipsis * 3 * ', u]),
        ([str(n), '*', a], [str(n), ' * ', a, '\n']),
        (['(', a, ')'], ['tuple[[', a, ']]']),
        (['(', a, ') -> ', b], ['funcproto[[', a, '], ', b, ']']),
    ][k]
    p, q = ds.dshape(h.join(x)), ds.dshape(h.join(y))
    h.check(lambda: same(p, q), 'equivalent notations denote different types')
    h.reach('k%d' % k)


def built(h):
    """texts denote what the constructors build"""
    k = h.choice('k', 16)
    n, m = h.int('n', 0, 10 ** 20), h.int('m', -99, 99)
    t = h.char('t', ((32, 33), (35, 38), (40, 91), (93, 0x2ff)))
    enc = h.pick('enc', ['A', 'ascii', 'U8', 'utf-8', 'utf_8', 'utf8', 'U16', 'utf-16', 'utf_16',
                         'utf16', 'U32', 'utf-32', 'utf_32', 'utf32']) if k < 3 else 'A'
    N, M = str(n), str(m)
    canon = {'A': 'A', 'a': 'A', '8': 'U8', '6': 'U16', '2': 'U32'}
    e = 'A' if enc[0] in 'aA' else canon[enc[-1]]
    text, want = [
        (['string[', N, ']'], lambda: CT.String(n)),
        (['string["', enc, '"]'], lambda: CT.String(None, e)),
        (['string[', N, ', "', enc, '"]'], lambda: CT.String(n, e)),
        (['decimal[', N, ']'], lambda: CT.Decimal(n, 0)),
        (['decimal[', N, ', ', M, ']'], lambda: CT.Decimal(n, m)),
        (['decimal[scale=', M, ', precision=', N, ']'], lambda: CT.Decimal(n, m)),
        (['datetime[tz="', t, '"]'], lambda: CT.DateTime(t)),
        (['datetime["', t, '"]'], lambda: CT.DateTime(t)),
        (['time[tz=\'', t, '\']'], lambda: CT.Time(t)),
        (['units["', t, '"]'], lambda: CT.Units(t, CT.DataShape(CT.float64))),
        (['units["', t, '", ', N, ' * int8]'],
         lambda: CT.Units(t, CT.DataShape(CT.Fixed(n), CT.int8))),
        (['map[string, ', N, ' * int8]'],
         lambda: CT.Map(CT.string, CT.DataShape(CT.Fixed(n), CT.int8))),
        (['map[value=int8, key=date]'], lambda: CT.Map(CT.date_, CT.int8)),
        (['complex[float32]'], lambda: CT.complex64),
        (['complex[float64]'], lambda: CT.complex128),
        (['categorical[["', t, '", "zz"], type=string, ordered=True]'],
         lambda: CT.Categorical([t, 'zz'], CT.string, True)),
    ][k]
    got = ds.dshape(h.join(text))
    w = want()
    h.check(lambda: same(got, w), 'a text denotes another type than the constructor builds')
    if k == 1 or k == 2:
        h.check(got.measure.encoding == e, 'canonical encoding')
    h.reach('k%d' % k)


def invalid(h):
    """what types refuse is refused with an error of the documented kinds"""
    t = h.text('t', 0, 3, ((35, 38), (40, 91), (93, 126)))
    n = h.int('n', 0, 999)
    k = h.choice('k', 8)
    text = [
        ['complex[', h.pick('w', ['int8', 'int16', 'int32', 'int64', '%d * float32' % n, '?float32',
                                  'float16', 'var * float64', '{a: float32}', '(float64)', 'T', 'json',
                                  '[float32]', '"float32"', 'float', 'complex64', str(n)]), ']'],
        ['string["', t, '"]'],
        ['timedelta[unit="', t, '"]'],
        ['{', h.char('a', LOWER), ': int8, ', h.char('b', LOWER), ': int8}'],
        ['-', str(n), ' * int8'],
        ['string[', str(n), ', 4, 5]'],
        ['datetime[', str(n), ']'],
        ['units[', str(n), ']'],
    ][k]
    s = h.join(text)
    try:
        ds.dshape(s)
        h.reach('valid')
        h.check(k in (1, 2, 3, 4), 'invalid parameters are accepted')
        if k == 4:
            h.check(lambda: n == 0, 'negative dimension accepted')
    except (ValueError, TypeError, ERR):
        h.reach('refused')


any_text.reach = ['accepted', 'refused', 'invalid']
in_context.reach = ['accepted', 'refused', 'invalid']
constructor_names.reach = ['known', 'unknown']
type_names.reach = ['known', 'unknown']
sugar.reach = ['k%d' % i for i in range(10)]
built.reach = ['k%d' % i for i in range(16)]
invalid.reach = ['valid', 'refused']


LISTS = [('{', ['%s:i' % c for c in 'klmnopqrs'], '}'), ('(', ['i'] * 9, ')'),
         ('(', ['3*f'] * 9, ')->i'), ('c[', ['i'] * 9, ']'), ('c[', ['3'] * 9, ']'),
         ('c[i,', ['%s=3' % c for c in 'klmnopqrs'], ']'), ('c[[', ['i'] * 9, ']]'),
         ('c[[', [str(i) for i in range(9)], ']]'), ('c[[', ['"%s"' % c for c in 'abcdefghj'], ']]')]


def long_lists(h):
    """one item of a long list is any short text"""
    n, j = long_place(h, 'x', (4, 7))
    a, items, b = h.pick('c', LISTS)
    items = list(items[:n])
    items[j] = h.text('s', 0, h.bound(1, 3), ALPHA)
    out = [a]
    for i, s in enumerate(items):
        out.extend([',', s] if i else [s])
    compare(h, h.join(out + [b]))


def long_texts(h):
    """one place of a long or deep text is any short text"""
    n, j = long_place(h, 'x', (4, 7, 17))
    s = h.text('s', 0, h.bound(1, 3), ALPHA)
    k = h.pick('k', ['dims', 'parens', 'records', 'options', 'functions', 'arguments'])
    if k == 'dims':
        parts = [x for i in range(n) for x in ([s if i == j else '37'[i % 2]], ['*'])]
        parts = [x for p in parts for x in p] + ['i']
    elif k == 'parens':
        parts = ['('] * j + [s] + ['('] * (n - j) + ['i'] + [')'] * n
    elif k == 'records':
        parts = ['{k:'] * j + [s] + ['{k:'] * (n - j) + ['i'] + ['}'] * n
    elif k == 'options':
        parts = ['3*?'] * j + [s] + ['v*?'] * (n - j) + ['i']
    elif k == 'functions':
        parts = ['(i)->'] * j + [s] + ['()->'] * (n - j) + ['i']
    else:
        parts = ['c[k='] * j + [s] + ['c[3,'] * (n - j) + ['i'] + [']'] * n
    compare(h, h.join(parts))


long_lists.reach = long_texts.reach = ['accepted', 'refused']


ITEMS = ['True', 'False', '0', '-7', '"a"', '"True"', 'i', '3*f', 'T', 'Truth', '', '[True]', '[]']


def values(h):
    """arguments and lists of any values: numbers, texts, booleans, types"""
    n = h.choice('n', 4)
    items = [h.pick('v%d' % i, ITEMS if i < 2 else h.bound(ITEMS[:7:2], ITEMS)) for i in range(n)]
    a, b = h.pick('c', [('c[[', ']]'), ('c[', ']'), ('c[k=[', ']]'), ('c[i,[', '],k=False]'),
                        ('{k:c[True,', ']}'), ('c[k=', ']'), ('(', ')')])
    compare(h, h.join([a, ','.join(items), b]))


def boolean_words(h):
    """True and False are booleans, any other word is none"""
    w = h.pick('w', ['True', 'False'])
    i = h.choice('i', len(w) + 1)
    c = h.char('c', ((32, 32), (48, 48), (65, 66), (84, 84), (95, 95), (97, 98), (105, 105), (116, 117)))
    w = h.join([w[:i], c, w[i + h.choice('cut', 2):]])
    a, b = h.pick('c2', [('c[', ']'), ('c[[', ']]'), ('c[[', ',True]]'), ('c[k=', ']'), ('{', ':i}'),
                         ('', ''), ('', '*i'), ('', '...*i'), ('c[', '=3]')])
    compare(h, h.join([a, w, b]))


values.reach = boolean_words.reach = ['accepted', 'refused']


def long_names(h):
    """quoted names in long records, texts in long lists of arguments are kept as they are"""
    n, j = long_place(h, 'x', (7, 12), 14)
    s = h.text('s', 0, 2, ((32, 33), (35, 38), (40, 91), (93, 126)))
    q = h.pick('q', '"\'')
    names = ['f%d' % i for i in range(n)]
    h.assume(all(s != a for a in names))
    k = h.choice('k', 3)
    if k == 0:
        parts = ['"%s": int8' % a for a in names]
        parts[j] = h.join([q, s, q, ': int8'])
        got = ds.dshape(h.join(['{', h.join([', '.join(parts[:j] + ['']), parts[j]] +
                                            [', ' + p for p in parts[j + 1:]]), '}']))
        names[j] = s
        want = CT.Record([(a, CT.int8) for a in names])
    elif k == 1:
        got = ds.dshape(h.join(['categorical[[', ''.join('"%s", ' % a for a in names[:j]), q, s, q,
                                ''.join(', "%s"' % a for a in names[j + 1:]),
                                '], type=string, ordered=False]']))
        names[j] = s
        want = CT.Categorical(names, CT.string)
    else:
        got = ds.dshape(h.join(['{' + a + ': ?' for a in names[:j]] + ['datetime[tz=', q, s, q, ']'] +
                               ['}'] * j))
        want = CT.DateTime(s)
        for a in reversed(names[:j]):
            want = CT.Record([(a, CT.Option(want))])
    h.check(lambda: same(got, want), 'the text denotes another type', 'denotation')
    h.reach('k%d' % k)


long_names.reach = ['k0', 'k1', 'k2']


def kept(h):
    """quoted texts are kept as they are, whatever comments, blanks and lines surround them"""
    c = h.char('c', ((9, 9), (11, 12), (28, 33), (35, 91), (93, 0xd7ff)))
    s = h.join([h.pick('a', ['', 'x', ' ', 'ab ', '#']), c, h.pick('b', ['', 'y', ' ', '# '])])
    gap = h.pick('gap', [' ', '\n', ' # x\n', '\t# "\n\t', '\r\n'])
    k = h.choice('k', 3)
    if k == 0:
        text, want = ['{', gap, 'first: int8,', gap, '"', s, '":', gap, 'int8', gap, '}'], CT.Record(
            [('first', CT.int8), (s, CT.int8)])
    elif k == 1:
        text, want = [gap, '3', gap, '*', gap, 'datetime[', gap, 'tz=', "'" if c != "'" else '"', s,
                      "'" if c != "'" else '"', gap, ']'], CT.DataShape(CT.Fixed(3), CT.DateTime(s))
    else:
        text, want = ['categorical[[', gap, '"', s, '",', gap, '"b\tb"], type=', gap, 'string]', gap], \
            CT.Categorical([s, 'b\tb'], CT.string)
    got = ds.dshape(h.join(text))
    h.check(lambda: same(got, want), 'a quoted text is changed', 'denotation')
    h.reach('done')


kept.reach = ['done']


HARNESSES = [any_text, in_context, lists, no_arguments, type_names, sugar, built, invalid,
             long_lists, long_texts, constructor_names, values, boolean_words, long_names, kept]
