"""C05: syntax errors point at the place they are about"""
TEXT = ((9, 10), (13, 13), (32, 126), (0x85, 0x85), (0xe9, 0xe9), (0x2028, 0x2029))


def ref_place(text, pos):
    """-> (line number, line, column) of a position"""
    lineno, start = 1, 0
    for i in range(len(text)):
        if i >= pos:
            break
        if text[i] == '\n':
            lineno += 1
            start = i + 1
    end = start
    while end < len(text) and text[end] != '\n':
        end += 1
    return lineno, text[start:end], pos - start


def check_error(h, e, text):
    lineno, line, col = ref_place(text, e.lexpos)
    h.check(lambda: e.lineno == lineno, 'line number', 'lineno')
    h.check(lambda: e.line == line, 'line', 'line')
    h.check(lambda: e.col_offset == col, 'column', 'column')
    h.check(lambda: e.text == text, 'text', 'text')
    shown = str(e)
    want = ('\n\n  File %s, line %d\n    %s\n    %s^\n\nDataShapeSyntaxError: %s\n'
            % (e.filename, lineno, line, ' ' * col, e.msg))
    h.check(lambda: shown == want, 'the message shows line and column', 'message')
    h.check(lambda: repr(e) == want, 'the message shows line and column', 'message')


def anywhere(h):
    """any position in any text"""
    text = h.text('s', 0, h.bound(5, 7), ((9, 10), (13, 13), (32, 126), (0x2028, 0x2028)))
    pos = h.pin(h.int('pos', 0, len(text)))
    msg = h.pick('msg', [None, '', 'some message'])
    e = ds.error.DataShapeSyntaxError(pos, '<nofile>', text, msg)
    h.check(isinstance(e, SyntaxError), 'a SyntaxError')
    h.check(e.msg == (msg or 'invalid syntax'), 'message')
    h.check(e.filename == '<nofile>', 'filename')
    h.check(lambda: e.lexpos == pos, 'position')
    check_error(h, e, text)
    h.reach('line %d' % ref_place(text, pos)[0])


def far(h):
    """positions far into long lines and long texts"""
    n = h.pick('n', h.bound([85, 1100], [20, 85, 300, 1100, 4200]))
    fill = h.pick('fill', ['int32, ', 'x\n', 'a\r\n', '\x0b\x1c', '\u2028\x85'])
    head = (fill * n)[:n]
    c = h.char('c', ((9, 13), (28, 30), (32, 126), (0x85, 0x85), (0x2028, 0x2029)))
    tail = h.pick('tail', ['', 'y\nz', ' * int32'])
    text = h.join([head, c, tail])
    pos = n + h.pick('pos', [-3, -1, 0, 1])
    e = ds.error.DataShapeSyntaxError(pos, '<nofile>', text, 'm')
    # where the lines of the concrete part begin
    lineno, start = 1 + head.count('\n', 0, pos), head.rfind('\n', 0, pos) + 1
    if pos > n and c == '\n':
        lineno, start = lineno + 1, n + 1
    h.check(lambda: e.lineno == lineno, 'line number', 'lineno')
    h.check(lambda: e.col_offset == pos - start, 'column', 'column')
    rest = h.join([head[start:], c, tail]) if start <= n else tail
    end = 0
    while end < len(rest) and (rest[end] != '\n' or start + end < pos):
        end += 1
    line = rest[:end]
    h.check(lambda: e.line == line, 'line', 'line')
    want = ('\n\n  File <nofile>, line %d\n    %s\n    %s^\n\nDataShapeSyntaxError: m\n'
            % (lineno, line, ' ' * (pos - start)))
    h.check(lambda: str(e) == want, 'the message shows line and column', 'message')
    h.reach('done')


far.reach = ['done']


PIECES = [('int32 int32', 6), ('{a: int32, b}', 12), ('{a: int32, b: }', 14), ('(int32, 3)', 8),
          ('3 * foo', 4), ('3 *', 3), ('foo', 0), ('string[', 7), ('?', 1), ('{a int32}', 3),
          ('int32 )', 6), ('(int32) -> 3', 11), ('map[]', 4), ('3 * $', 4), ('"abc', 0),
          ('decimal[precision=]', 18), ('string[[1, "a"]]', 11), ('{', 1), ('(int32', 6),
          ('string[a=1, 3]', 12), ('', 0), ('3', 0), ('{a: int32,, b: int32}', 10)]


def parse_errors(h):
    """errors of the parser in the middle of a larger text, any layout around them"""
    k = h.choice('piece', len(PIECES))
    text, pos = PIECES[k]
    # blanks, comments and line breaks of any kind before the text
    pre = []
    for i in range(h.choice('n', h.bound(3, 4))):
        if h.bool('comment%d' % i):
            pre.extend(['#', h.char('c%d' % i, ((32, 126), (0x2028, 0x2029))), '\n'])
        else:
            pre.append(h.char('b%d' % i, ((9, 13), (32, 32))))
    post = h.pick('post', ['', '\n', ' \n\n # end'])
    full = h.join(pre + [text, post])
    off = sum(len(p) for p in pre)
    e = raised(lambda: ds.dshape(full), ds.error.DataShapeSyntaxError)
    h.check(e is not None, 'refused')
    if text:
        h.check(lambda: e.lexpos == pos + off, 'the error is where the mistake is', 'where')
    check_error(h, e, full)
    h.reach('done')


def typo(h):
    """one character of a valid text replaced by any other: accepted, or refused with a
    syntax error whose place is consistent"""
    base = h.pick('base', ['3 * var * {a: int32, b: ?string}', '(int32, 2 * A... * T) -> bool',
                           'string[10, "A"]\n', 'map[int8,\n {x: date}]'])
    i = h.choice('i', len(base))
    c = h.char('c', TEXT)
    text = h.join([base[:i], c, base[i + 1:]])
    try:
        ds.dshape(text)
        h.reach('accepted')
    except ds.error.DataShapeSyntaxError as e:
        h.check(lambda: 0 <= e.lexpos <= len(text), 'position inside the text', 'inside')
        check_error(h, e, text)
        h.reach('refused')
    except (TypeError, ValueError, NotImplementedError):
        h.reach('other')


anywhere.reach = ['line 1', 'line 2', 'line 3']
parse_errors.reach = ['done']
typo.reach = ['accepted', 'refused']


def long_texts(h):
    """a text of many tokens that breaks off, or has a character that begins no token, anywhere"""
    n = h.pick('n', h.bound([3, 9], list(range(2, 13))))
    parts = [h.pick('open', ['{', '3 * {', '?{', '({'])]
    for i in range(n):
        parts += ['f%d' % i, ':', ' ', 'int32', ',', ['\n', ' # x\n', '', '\r\n'][(i + n) % 4]]
    i = h.choice('i', len(parts))
    if h.bool('break'):
        text, pos = ''.join(parts[:i + 1]), 0
        # the end of the last token
        pos = len(''.join(parts[:i + 1 - (i > 0 and i % 6 in (0, 3))]))
        text = h.join([text, h.char('b', ((9, 13), (32, 32)))])
    else:
        pos = len(''.join(parts[:i]))
        c = h.char('c', ((33, 33), (36, 38), (43, 43), (47, 47), (59, 60), (62, 62), (64, 64),
                         (124, 124), (126, 126), (161, 0xd7ff)))
        h.assume(not c.isspace())
        text = h.join([''.join(parts[:i]), c, ''.join(parts[i:]), '}'])
    e = raised(lambda: ds.dshape(text), ds.error.DataShapeSyntaxError)
    h.check(e is not None, 'refused')
    h.check(lambda: e.lexpos == pos, 'the error is where the mistake is', 'where')
    check_error(h, e, text)
    h.reach('done')


long_texts.reach = ['done']


def wrong_token(h):
    """a token where the grammar has another: the error is at this token, whatever surrounds it"""
    n = h.pick('n', h.bound([1, 3], [1, 2, 3, 4, 6]))
    tup = h.bool('tuple')
    i = h.choice('i', n)
    toks = ['(' if tup else '{']
    marks = []
    for k in range(n):
        if not tup:
            toks += [h.pick('name', ['x', 'Ab', '_', '"x y"', 'f_1']) if k == i else 'f%d' % k]
            marks.append(('colon', len(toks)))
            toks += [':']
        marks.append(('type', len(toks)))
        toks += [h.pick('type', ['int32', '3 * int8', '?real', '()', 'string[4]', 'N', '{}', 'var * ?bool'])
                 if k == i else 'int64']
        marks.append(('after', len(toks)))
        toks += [',' if k < n - 1 else ')' if tup else '}']
    kind = h.pick('kind', ['type', 'after'] if tup else ['colon', 'type', 'after'])
    at = [m for what, m in marks if what == kind][i]
    wrong = h.pick('wrong', {
        'colon': ['=', ',', '*', '->', '?', '}', ']', ')', '[', '{', '(', '...', '7', '"x"', 'True', 'a', '_', 'A'],
        'type': [':', '=', '*', '->', ']', '[', '7', '"x"', 'True', '_q', 'nope', '-1'] + (['}'] if tup else [')']),
        'after': [':', '=', '->', '?', ']', '{', '(', '7', '"x"', 'True', 'a', '_'] + (['}'] if tup else [')'])}[kind])
    h.assume(not (wrong == '->' and toks[at - 1].endswith(')')))
    gap = h.pick('gap', [' ', '\n', ' # x\n  ', '\t'])
    toks[at] = wrong
    text = gap.join(toks)
    pos = len(gap.join(toks[:at])) + len(gap)
    e = raised(lambda: ds.dshape(text), ds.error.DataShapeSyntaxError)
    h.check(e is not None, 'refused')
    h.check(lambda: e.lexpos == pos, 'the error is at the wrong token', 'where')
    check_error(h, e, text)
    h.reach('done')


wrong_token.reach = ['done']


HARNESSES = [far, anywhere, parse_errors, typo, long_texts, wrong_token]
