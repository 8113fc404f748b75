"""C04: the lexer follows the documented token grammar"""
SPACE = ((9, 13), (32, 32))
TEXT = ((9, 13), (32, 126))
CHARS = ((1, 0x24f), (0x3b1, 0x3c9), (0x660, 0x669), (0xff10, 0xff21), (0x2000, 0x20ff), (0x3000, 0x3002), (0x10000, 0x10010))

PUNCT = [('*', 'ASTERISK'), (',', 'COMMA'), ('=', 'EQUAL'), (':', 'COLON'),
         ('[', 'LBRACKET'), (']', 'RBRACKET'), ('{', 'LBRACE'), ('}', 'RBRACE'),
         ('(', 'LPAREN'), (')', 'RPAREN'), ('?', 'QUESTIONMARK')]
NAMES = ['BOOLEAN', 'NAME_LOWER', 'NAME_UPPER', 'NAME_OTHER', 'ASTERISK', 'COMMA', 'EQUAL',
         'COLON', 'LBRACKET', 'RBRACKET', 'LBRACE', 'RBRACE', 'LPAREN', 'RPAREN', 'ELLIPSIS',
         'RARROW', 'QUESTIONMARK', 'INTEGER', 'STRING']


def lower(c):
    return 'a' <= c <= 'z'


def upper(c):
    return 'A' <= c <= 'Z'


def digit(c):
    return '0' <= c <= '9'


def word(c):
    return lower(c) or upper(c) or digit(c) or c == '_'


def hexdigit(c):
    return digit(c) or 'a' <= c <= 'f' or 'A' <= c <= 'F'


def hexval(c):
    if digit(c):
        return ord(c) - 48
    if c >= 'a':
        return ord(c) - 87
    return ord(c) - 55


ESC = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}


def ref_string(s, i, n):
    """(end, value) of the string literal at i, or None"""
    q = s[i]
    out = []
    i += 1
    while i < n:
        c = s[i]
        if c == q:
            return i + 1, out
        if c == '\n' or c == '\r':
            return None
        if c != '\\':
            out.append(ord(c))
            i += 1
            continue
        if i + 1 >= n:
            return None
        e = s[i + 1]
        if e == q:
            out.append(ord(q))
            i += 2
        elif e == 'u':
            if i + 6 > n:
                return None
            v = 0
            for c in s[i + 2:i + 6]:
                if not hexdigit(c):
                    return None
                v = v * 16 + hexval(c)
            out.append(v)
            i += 6
        else:
            for k in 'bfnrt':
                if e == k:
                    out.append(ord(ESC[k]))
                    break
            else:
                return None
            i += 2
    return None


def ref_lex(s):
    """-> (tokens as (name, start, end, value), error position or None)"""
    n = len(s)
    i = 0
    toks = []
    while True:
        while i < n:
            c = s[i]
            if c == '#':
                while i < n and s[i] != '\n':
                    i += 1
            elif c.isspace():
                i += 1
            else:
                break
        if i >= n:
            return toks, None
        c = s[i]
        j = i + 1
        val = None
        if lower(c) or upper(c) or c == '_':
            while j < n and word(s[j]):
                j += 1
            t = s[i:j]
            name = 'NAME_LOWER' if lower(c) else 'NAME_UPPER' if upper(c) else 'NAME_OTHER'
            val = t
            if t == 'True':
                name, val = 'BOOLEAN', True
            elif t == 'False':
                name, val = 'BOOLEAN', False
        elif digit(c):
            if c == '0':
                if j < n and digit(s[j]):
                    return toks, i
            else:
                while j < n and digit(s[j]):
                    j += 1
            name = 'INTEGER'
            val = 0
            for k in range(i, j):
                val = val * 10 + (ord(s[k]) - 48)
        elif c == '-':
            if j < n and s[j] == '>':
                name = 'RARROW'
                j += 1
            elif j < n and digit(s[j]) and s[j] != '0':
                name = 'INTEGER'
                val = 0
                while j < n and digit(s[j]):
                    val = val * 10 - (ord(s[j]) - 48)
                    j += 1
            else:
                return toks, i
        elif c == '"' or c == "'":
            r = ref_string(s, i, n)
            if r is None:
                return toks, i
            j, val = r
            name = 'STRING'
        elif c == '.':
            if s[i:i + 3] != '...':
                return toks, i
            name = 'ELLIPSIS'
            j = i + 3
        else:
            for p, name in PUNCT:
                if c == p:
                    break
            else:
                return toks, i
        toks.append((name, i, j, val))
        i = j


def check_lex(h, s):
    want, bad = ref_lex(s)
    got = []
    err = None
    try:
        for t in ds.lexer.lex(s):
            got.append(t)
    except ds.error.DataShapeSyntaxError as e:
        err = e
    h.check(len(got) == len(want), 'number of tokens', 'count')
    for t, (name, a, b, val) in zip(got, want):
        h.check(t.name == name, 'kind of token', 'kind')
        h.check(t.id == NAMES.index(name) + 1 and t.id == getattr(ds.lexer, name),
                'token id', 'id')
        h.check(lambda: t.span == (a, b), 'extent of token', 'span')
        if name == 'STRING':
            h.check(lambda: [ord(c) for c in t.val] == val, 'value of string', 'value')
        else:
            h.check(lambda: t.val == val, 'value of token', 'value')
            h.check(type(t.val) is type(val) or not isinstance(val, bool),
                    'type of token value', 'value')
        h.reach(name)
    h.check((err is None) == (bad is None), 'acceptance', 'acceptance')
    if err is not None:
        h.check(lambda: err.lexpos == bad, 'position of the invalid token', 'error position')
        h.reach('error')


def short(h):
    """any short text of any characters"""
    s = h.text('s', 0, 2, CHARS)
    check_lex(h, s)


def three(h):
    """any text of three characters"""
    s = h.chars('s', h.bound(3, 4), TEXT)
    check_lex(h, s)


def wordlike(h):
    """names, booleans and numbers and what follows them"""
    alpha = ((45, 45), (48, 57), (65, 90), (95, 95), (97, 122), (32, 32), (0xb2, 0xba),
             (0xe9, 0xea), (0x660, 0x661), (0xff21, 0xff21))
    p = h.pick('p', ['', 'True', 'False', 'Tru', 'Fals', '0', '-', 'a', 'A', '_', '12345678'])
    s = h.join([p, h.text('s', 0, h.bound(2, 3), alpha)])
    check_lex(h, s)


def numbers(h):
    """any run of digits"""
    n = h.pick('n', h.bound([1, 2, 3, 4, 9, 10, 11, 18, 19, 20, 21, 30], list(range(1, 41))))
    s = h.join([h.pick('sign', ['', '-']), h.chars('d', n, ((48, 57),)),
                h.pick('after', ['', ' ', '*', 'a', '\u0663', '\xb2', '_'])])
    check_lex(h, s)


def strings(h):
    """string literals: ordinary characters and every escape"""
    alpha = ((1, 0x17f), (0x2028, 0x2029), (0x4e00, 0x4e00), (0x10000, 0x10010))
    q = h.pick('q', ['"', "'"])
    parts = [q]
    for i in range(1 + h.choice('n', 2)):
        k = h.pick('k%d' % i, ['c', 'e', 'u'])
        if k == 'c':
            parts.append(h.char('c%d' % i, alpha))
        elif k == 'e':
            parts.extend(['\\', h.char('c%d' % i, TEXT)])
        else:
            parts.extend(['\\u', '' if i == 0 else h.bound('00', ''),
                          h.chars('c%d' % i, 4 if i == 0 else h.bound(2, 4),
                                  ((48, 57), (65, 71), (97, 103)))])
    parts.append(h.pick('end', ['"', "'", '', q + 'a']))
    s = h.join(parts)
    check_lex(h, s)


def comments(h):
    """comments run to the end of the line"""
    s = h.join([h.pick('p', ['', 'a', '"', '#']), '#', h.text('s', 0, 2, CHARS),
                h.pick('e', ['', '\n', '\nb', 'c', '\r d'])])
    check_lex(h, s)


def layout(h):
    """blanks, line breaks and comments between tokens do not matter"""
    toks = h.pick('toks', [['a', '*', 'b'], ['3', '*', '-1'], ['{', '"x y"', ':', 'A', '}'],
                           ['(', ')', '->', '...', 'True']])
    parts = []
    for i, t in enumerate(toks):
        sep = h.pick('sep%d' % i, [' ', '\n', '#'])
        if sep == '#':
            parts.append(h.join([' # ', h.char('c%d' % i, ((32, 126),)), '\n']))
        elif sep == ' ':
            parts.append(h.char('c%d' % i, ((9, 13), (28, 32))))
        else:
            parts.append(sep)
        parts.append(t)
    a = [(t.id, t.val) for t in ds.lexer.lex(h.join(parts))]
    b = [(t.id, t.val) for t in ds.lexer.lex(' '.join(toks))]
    h.check(lambda: a == b, 'layout changes the tokens')
    h.reach('done')


short.reach = ['error', 'NAME_LOWER', 'NAME_UPPER', 'NAME_OTHER', 'INTEGER', 'RARROW', 'STRING']
three.reach = NAMES[1:] + ['error']
wordlike.reach = ['BOOLEAN', 'INTEGER', 'NAME_UPPER']
numbers.reach = ['INTEGER', 'error']
strings.reach = ['STRING', 'error']
comments.reach = ['NAME_LOWER', 'error']
layout.reach = ['done']


SAMPLES = ['*', ',', '=', ':', '[', ']', '{', '}', '(', ')', '?', '...', '->', 'True', 'False', 'a',
           'Bc', '_d', 'a' * 31, 'T_' * 20, '0', '12', '-7', '9' * 25, '"x"', "'y y'",
           '"' + 'y' * 40 + '"', '#c']


def pairs(h):
    """every token, any character, and another token"""
    p = h.pick('p', SAMPLES)
    q = h.pick('q', h.bound(SAMPLES[1:27:5], SAMPLES))
    check_lex(h, h.join([p, h.text('c', 0, h.bound(1, 2), CHARS), q]))


def long_text(h):
    """any character in a long text"""
    n, j = long_place(h, 'x', (9,), 12)
    parts = [SAMPLES[3 * i % 27] + ' ' for i in range(n)]
    parts[j] = h.text('c', 1, 2, CHARS)
    check_lex(h, h.join(parts))


def long_strings(h):
    """any character in a long string"""
    n, j = long_place(h, 'x', (12,), 20)
    q = h.pick('q', ['"', "'"])
    parts = [q] + ['a', '\\n', '\\u0041', 'b '] * 5
    parts[1 + j] = h.text('c', 1, 2, ((1, 0x7f), (0x4e00, 0x4e00)))
    check_lex(h, h.join(parts + [q, ' a']))


pairs.reach = NAMES + ['error']
long_text.reach = long_strings.reach = ['STRING', 'error']


HARNESSES = [short, three, wordlike, numbers, strings, comments, layout, pairs, long_text,
             long_strings]
