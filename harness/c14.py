"""C14: text is discovered as the value it spells, and never fails"""
import re
from datetime import datetime, timezone
DIGIT = ((48, 57),)
UNITS = {'ns': 'ns', 'us': 'us', 'ms': 'ms', 's': 's', 'm': 'm', 'h': 'h', 'D': 'D', 'W': 'W',
         'M': 'M', 'Y': 'Y'}
NAMES = {'year': 'Y', 'week': 'W', 'day': 'D', 'date': 'D', 'hour': 'h', 'second': 's',
         'millisecond': 'ms', 'microsecond': 'us', 'nanosecond': 'ns'}
SPACES = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0'
MISSING = object()
STAMPS = [datetime(2014, 1, 2), datetime(2014, 1, 2, 3), datetime(2014, 1, 2, 0, 4),
          datetime(2014, 1, 2, 0, 0, 5), datetime(2014, 1, 2, 0, 0, 0, 6),
          datetime(2014, 1, 2, tzinfo=timezone.utc)]


def unit_of(u):
    """the unit a word stands for, or None"""
    if u in UNITS:
        return UNITS[u]
    for n in range(len(u), 2, -1):
        # 'day', 'days', ... with any number of s at the end
        if u[:n] in NAMES and u[n:] == 's' * (len(u) - n):
            return NAMES[u[:n]]
    for n in range(len(u), 1, -1):
        if u[:n] in UNITS and u[n:] == 's' * (len(u) - n):
            return UNITS[u[:n]]
    return None


def words(s):
    """the words of a text"""
    out, w = [], ''
    for c in s:
        if c in SPACES or c.isspace():
            if len(w):
                out.append(w)
            w = ''
        else:
            w = w + c
    if len(w):
        out.append(w)
    return out


def clock(s):
    """is s a time of day: H:M:S with an optional fraction of at most six digits"""
    m = re.match(r'([0-9]{1,2}):([0-9]{1,2}):([0-9]{1,2})(\.[0-9]{1,6})?\Z', s)
    return (m is not None and int(m.group(1)) < 24 and int(m.group(2)) < 60
            and int(m.group(3)) < 60)


def number(f, s):
    try:
        return f(s)
    except ValueError:
        return MISSING


def expected(s):
    """the type a text spells, None if only the date parser can tell"""
    if len(s) == 0:
        return CT.null
    if number(int, s) is not MISSING:
        return CT.int64
    if number(float, s) is not MISSING:
        return CT.float64
    if s == 'True' or s == 'true' or s == 'False' or s == 'false':
        return CT.bool_
    w = words(s)
    if len(w) == 2:
        x = number(float, w[0])
        u = unit_of(w[1])
        if x is not MISSING and u is not None and x.is_integer() and \
                -2 ** 63 <= int(x) < 2 ** 63:
            return CT.TimeDelta(u)
    if clock(s):
        return CT.time_
    if s.isalpha() or s.isspace():
        return CT.string
    return None


def check_text(h, s, dates=True, must=False):
    """discover(s) with every behaviour of the date parser"""
    calls = []
    k = h.choice('dateparser', 2 + len(STAMPS)) if dates else 0

    def stub(text, *a, **kw):
        calls.append(text)
        if k == 0:
            raise ValueError('no date')
        if k == 1:
            raise OverflowError('no date')
        return STAMPS[k - 2]
    mod = ds.discovery
    old = getattr(mod, 'dateparse', None)
    mod.dateparse = stub
    try:
        t = ds.discover(s)
    finally:
        mod.dateparse = old
    want = expected(s)
    if want is not None:
        h.check(lambda: same(t, want), 'type of a text')
        return want
    if calls or must:
        h.check(not calls or len(calls) == 1 and calls[0] == s, 'the date parser sees another text')
        if k < 2:
            w = CT.string
        elif k == 2 or k == 7:
            w = CT.date_
        else:
            w = CT.datetime_
        h.check(lambda: same(t, w), 'type of a text with a date')
        h.reach('date parser %d' % min(k, 3))
    else:
        h.check(t is CT.string or same(t, CT.date_) or same(t, CT.datetime_),
                'type of another text')
    return None


def any_text(h):
    """any text of up to three characters"""
    s = h.text('s', 0, h.bound(2, 3), h.bound(BMP, UNICODE))
    check_text(h, s, False)
    h.reach('len %d' % len(s))


def ascii_text(h):
    """any printable text of up to four characters from the alphabet of numbers"""
    s = h.text('s', 0, h.bound(4, 5), ((32, 32), (43, 43), (45, 46), (48, 49), (58, 58), (69, 69),
                                       (95, 95), (101, 101)))
    check_text(h, s, False)
    h.reach('len %d' % len(s))


def dates(h):
    """texts only the date parser understands: with every answer it can give"""
    n = h.choice('n', 2)
    s = h.join([h.chars('y', 4, DIGIT), h.pick('sep', '-/'), h.chars('m', 2, DIGIT), '-',
                h.chars('d', 2, DIGIT)] + ([h.pick('t', [' ', 'T']), h.chars('h', 2, DIGIT), ':',
                                            h.chars('i', 2, DIGIT)] if n else []))
    check_text(h, s, must=True)
    h.reach('done')


def glued_dates(h):
    """dates without separators, and months as words"""
    y, m = h.join(['20', h.chars('y', 2, DIGIT)]), h.pick('m', ['01', '12'])
    d = h.join([h.pick('d0', ['0', '1']), h.char('d', ((49, 56),))])
    mon = h.pick('mon', ['Jan', 'December', 'may'])
    s = h.join([
        [y, m, d, 'T', h.pick('h', ['00', '23']), h.pick('i', ['0000', '15', '595959'])],
        [d, mon, y], [mon, d], [d, ' ', mon, ' ', y], [mon, ' ', d, ', ', y],
        [y, '-', m, '-', d, 'T12:00:00Z'], [mon, ' ', y], [y, m, d, 'T10:00'],
        [m, '/', d, '/', y], [d, '.', m, '.', y], ['Mon ', d, ' ', mon, ' ', y, ' 10pm'],
        [' ', y, '-', m, '-', d, '\n']][h.choice('k', 12)])
    s = h.join([s, h.pick('end', h.bound(['', '.'], ['', '.', ',', ' ', ')']))])
    check_text(h, s, must=True)
    h.reach('done')


def numbers(h):
    """integers and decimal numbers of any digits"""
    sign = h.pick('sign', ['', '-', '+'])
    a = h.text('a', 0, h.bound(4, 19), DIGIT)
    k = h.choice('kind', 4)
    parts = [sign, a]
    if k:
        parts += ['.', h.text('b', 0, 3, DIGIT)]
    if k >= 2:
        parts += [h.pick('e', ['e', 'E', 'e-', 'E+']), h.chars('x', 2, DIGIT)]
    if k == 3:
        parts += [h.pick('junk', ['x', '.', '-'])]
    if h.bool('pad'):
        parts = [' '] + parts + ['\n']
    t = check_text(h, h.join(parts), False)
    if t is CT.int64:
        h.reach('int')
    elif t is CT.float64:
        h.reach('float')
    else:
        h.reach('neither')


def deltas(h):
    """a number and a unit"""
    a = h.join([h.pick('sign', ['', '-']), h.text('a', 1, h.bound(3, 6), DIGIT)])
    if h.bool('frac'):
        a = h.join([a, '.', h.text('b', 1, 2, DIGIT)])
    u = h.pick('u', sorted(UNITS) + sorted(NAMES) + [n + 's' for n in sorted(NAMES)] + [
        'minute', 'month', 'dayss', 'Day', 'das', 'ss', 'foo', 'x'])
    gap = h.pick('gap', [' ', '  ', '\t', '', '\xa0'])
    s = h.join([a, gap, u])
    if h.bool('pad'):
        s = h.join([' ', s, ' '])
    t = check_text(h, s, False)
    h.reach('delta' if isinstance(t, CT.TimeDelta) else 'none')


def unit_texts(h):
    """one and a word of up to four letters"""
    u = h.text('u', 1, h.bound(3, 5), ((65, 90), (97, 122)))
    t = check_text(h, h.join(['1 ', u]), False)
    h.reach('delta' if isinstance(t, CT.TimeDelta) else 'none')


def large_deltas(h):
    """magnitudes beyond 64 bits"""
    s = h.pick('s', ['1e300 days', '-1e300 days', '9223372036854775808 s', '1e18 ns', 'inf days',
                     'nan days', '-inf s', '9e18 s', '-9e18 us', '1e19 D', '1_0 s', '1e400 s',
                     '1e-400 s', '-0 s', '.0 m', '0x1 s'])
    check_text(h, s, False)
    h.reach('done')


def clocks(h):
    """times of day"""
    w = [1 + h.choice(n, 2) for n in 'abc']
    parts = [h.chars('h', w[0], DIGIT), ':', h.chars('m', w[1], DIGIT), ':',
             h.chars('s', w[2], DIGIT)]
    k = h.choice('frac', h.bound(3, 8))
    if k:
        parts += ['.', h.chars('f', k if k < 7 and h.tier != 'quick' else 3 * k, DIGIT)]
    if h.bool('junk'):
        parts += [h.pick('j', ['Z', ' ', ':1', ' pm'])]
    t = check_text(h, h.join(parts))
    h.reach('time' if t is not None and same(t, CT.time_) else 'none')


def letters(h):
    """words are texts, whatever the date parser would make of them"""
    s = h.text('s', 1, h.bound(4, 6), ((65, 90), (97, 122)))
    t = check_text(h, s)
    h.check(t is not None, 'a word is a text, a number or a truth value')
    for w, x in [('True', CT.bool_), ('false', CT.bool_), ('nan', CT.float64), ('inf', CT.float64),
                 ('INFINITY', CT.float64), ('Sunday', CT.string), ('may', CT.string),
                 ('   ', CT.string), ('\t\n', CT.string), ('null', CT.string),
                 ('NaT', CT.string), ('None', CT.string)]:
        h.check(same(ds.discover(w), x), 'type of a word', w)
    h.reach('done')


any_text.reach = ['len 0', 'len 1', 'len 2']
ascii_text.reach = ['len 4']
numbers.reach = ['int', 'float', 'neither']
deltas.reach = unit_texts.reach = ['delta', 'none']
clocks.reach = ['time', 'none']
glued_dates.reach = dates.reach = large_deltas.reach = letters.reach = ['done']


WORDS = ['1', '-2.0', '3.5', 'days', 's', 'ns', 'True', 'a', '12:30:45', '2014', 'May', 'x', '-', '1e3']


def phrases(h):
    """texts of one to five words: only a number and a unit make a time difference"""
    n = 1 + h.choice('n', h.bound(4, 5))
    parts = [h.pick('lead', ['', ' '])]
    gap = h.pick('gap', [' ', '\t '])
    first, last = h.pick('first', WORDS), h.pick('last', WORDS)
    mid = h.pick('mid', h.bound(['1', 'days', 'x', 'True'], WORDS)) if n > 2 else ''
    for w in [first] + [mid] * (n - 2) + ([last] if n > 1 else []):
        parts += [w, gap]
    if h.bool('glue'):
        parts[-1] = h.pick('end', ['', '.', ',', ';', '"'])
    t = check_text(h, h.join(parts), h.bool('dates') if n < 3 else False)
    h.reach('delta' if isinstance(t, CT.TimeDelta) else 'none')


def long_numbers(h):
    """numbers of many digits, grouped or not"""
    n = h.pick('n', h.bound([9, 15, 16, 17, 18, 19, 20, 24, 40], list(range(5, 45))))
    k = h.choice('k', 24)
    d = h.pick('d1', '0149') if k == 8 or 13 <= k < 16 else h.char('d', DIGIT)
    a = h.join([h.pick('sign', ['', '-']), d, h.pick('fill', ['0', '92']) * (n // 2), '7'])
    s = [[a], [a, '.'], ['.', a], [a, '.0'], [a, '.', a], [a, 'e5'], [a, 'e-', a], [a, 'x'], [a, ' ', a],
         [a, '_', d], [a, '__', d], ['_', a], [a, '_'], [a, ' s'], [a, '.000 days'], [a, '.500 days'],
         [a, 'L'], ['0', a], ['0x', a], [a, ','], [a, ':', d], ['$', a], [a, '%'], [a, 'j']]
    t = check_text(h, h.join(s[k]), False)
    h.reach('int' if t is CT.int64 else 'float' if t is CT.float64 else
            'delta' if isinstance(t, CT.TimeDelta) else 'neither')


def long_words(h):
    """longer words, with a character of any kind anywhere"""
    n = h.pick('n', h.bound([5, 21], list(range(5, 30))))
    w = h.pick('w', ['abcdefghijklmnopqrstuvwxyzabcd', 'True' * 8, 'days ' * 6, 'false' * 6,
                     'Sunday' * 5])[:n]
    i = h.choice('i', n + 1)
    s = h.join([w[:i], h.char('c', BMP), w[i + h.choice('cut', 2):]])
    if h.bool('upper'):
        s = h.join([' ', s])
    check_text(h, s, False)
    h.reach('done')


def spelled(h):
    """the words for truth values, missing and special numbers, with any one letter changed"""
    w = h.pick('w', ['True', 'False', 'true', 'false', 'TRUE', 'nan', 'inf', 'infinity', '-inf', 'None', 'null',
                     'NaN', 'NA', 'yes', 'no', '0x10', '1e5', '1_000', '10 days', '00:00:00', '23:59:59',
                     '1 nanoseconds', '12:00', '2014'])
    i = h.choice('i', len(w) + 1)
    s = h.join([w[:i], h.text('c', 0, 1, PRINTABLE if ':' in w else BMP), w[i + h.choice('cut', 2):]])
    check_text(h, s, False)
    h.reach('done')


phrases.reach = ['delta', 'none']
long_numbers.reach = ['int', 'float', 'delta', 'neither']
long_words.reach = spelled.reach = ['done']


HARNESSES = [any_text, ascii_text, dates, glued_dates, numbers, deltas, unit_texts, large_deltas,
             clocks, letters, phrases, long_numbers, long_words, spelled]
