"""Backtracking regular-expression matcher over symbolic strings.

Works on CPython's own parse tree (re._parser), so the semantics (ordered
alternation, greedy/lazy repeats, anchors, look-around, flags) follow the
pattern text in /repo's source.  Each character test becomes one decision on a
set of code points.
"""
import re
import re._constants as C
import re._parser as P

from . import expr as X

_cache = {}
_sets = {}
MAXU = 0x10ffff


def _predset(name, pred):
    from . import proxies
    return proxies.charset(name, pred)


_WORD = lambda c: c.isalnum() or c == '_'


def category(cat, ascii_):
    n = str(cat)
    inv = 'NOT_' in n
    if 'DIGIT' in n:
        s = ((48, 57),) if ascii_ else _predset('decimal', str.isdecimal)
    elif 'SPACE' in n:
        s = ((9, 13), (32, 32)) if ascii_ else _predset('space', str.isspace)
    elif 'WORD' in n:
        s = ((48, 57), (65, 90), (95, 95), (97, 122)) if ascii_ else _predset('word', _WORD)
    else:
        raise NotImplementedError(n)
    return X.iv_sub(((0, MAXU),), s) if inv else s


def _fold(ivs, flags):
    """close a set under simple case folding"""
    if not flags & re.I:
        return ivs
    out = list(ivs)
    for lo, hi in ivs:
        for c in range(lo, min(hi, 0x24f) + 1):
            for d in (chr(c).lower(), chr(c).upper()):
                if len(d) == 1:
                    out.append((ord(d), ord(d)))
    return X.iv_norm(out)


def charset_of(items, flags):
    inv = False
    ivs = []
    for op, av in items:
        if op is C.NEGATE:
            inv = True
        elif op is C.LITERAL:
            ivs.append((av, av))
        elif op is C.RANGE:
            ivs.append(av)
        elif op is C.CATEGORY:
            ivs.extend(category(av, flags & re.A))
        else:
            raise NotImplementedError(str(op))
    s = _fold(X.iv_norm(ivs), flags)
    return X.iv_sub(((0, MAXU),), s) if inv else s


class SxPattern(object):
    """stands for re.Pattern"""

    def __init__(self, pattern, flags=0):
        self._re = re.compile(pattern, flags)
        self.pattern = self._re.pattern
        self.flags = self._re.flags
        self.groups = self._re.groups
        self.groupindex = self._re.groupindex
        self._tree = None

    @property
    def __class__(self):
        return re.Pattern

    def __eq__(self, o):
        return isinstance(o, SxPattern) and self._re == o._re

    def __hash__(self):
        return hash(self._re)

    def __repr__(self):
        return repr(self._re)

    def __reduce__(self):
        return (re.compile, (self.pattern, self.flags))

    def tree(self):
        if self._tree is None:
            self._tree = _prep(list(P.parse(self.pattern, self.flags & ~re.U)), self.flags)
        return self._tree

    # -- API -----------------------------------------------------------
    def _run(self, s, pos, endpos, mode):
        from .proxies import SymStr, cv_pin
        if type(s) is not SymStr:
            pos = cv_pin(pos)
            if endpos is None:
                return getattr(self._re, mode)(s, pos)
            return getattr(self._re, mode)(s, pos, cv_pin(endpos))
        n = len(s.cs)
        pos = max(0, min(n, cv_pin(pos)))
        endpos = n if endpos is None else max(0, min(n, cv_pin(endpos)))
        starts = range(pos, endpos + 1) if mode == 'search' else [pos]
        for st in starts:
            m = _Matcher(self, s.cs, endpos)
            e = m.run(self.tree(), st, mode == 'fullmatch')
            if e is not None:
                return SxMatch(self, s, st, e, m.groups, m.lastindex, pos, endpos)
        return None

    def match(self, string, pos=0, endpos=None):
        return self._run(string, pos, endpos, 'match')

    def search(self, string, pos=0, endpos=None):
        return self._run(string, pos, endpos, 'search')

    def fullmatch(self, string, pos=0, endpos=None):
        return self._run(string, pos, endpos, 'fullmatch')

    def finditer(self, string, pos=0, endpos=None):
        from .proxies import SymStr
        if type(string) is not SymStr:
            return iter(list(self._re.finditer(string, pos)))
        out, i, n = [], pos, len(string.cs)
        last_empty_ok = True
        while i <= n:
            m = self.search(string, i)
            if m is None:
                break
            b, e = m.span()
            out.append(m)
            if e == b:
                # empty match: advance (CPython >= 3.7 also retries for a
                # non-empty match at the same place; not needed by patterns here)
                i = e + 1
            else:
                i = e
                # an empty match adjacent to a previous non-empty one is allowed
        return iter(out)

    def findall(self, string, pos=0, endpos=None):
        from .proxies import SymStr
        if type(string) is not SymStr:
            return self._re.findall(string, pos)
        out = []
        for m in self.finditer(string, pos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else '')
            else:
                out.append(tuple(g if g is not None else '' for g in m.groups()))
        return out

    def split(self, string, maxsplit=0):
        from .proxies import SymStr, mkstr
        if type(string) is not SymStr:
            return self._re.split(string, maxsplit)
        out, i, k = [], 0, 0
        for m in self.finditer(string):
            if maxsplit and k >= maxsplit:
                break
            b, e = m.span()
            out.append(mkstr(string.cs[i:b]))
            out.extend(m.groups())
            i = e
            k += 1
        out.append(mkstr(string.cs[i:]))
        return out

    def sub(self, repl, string, count=0):
        from .proxies import SymStr, mkstr, chars
        from . import models
        if type(string) is not SymStr and not models.has_sym(repl):
            return self._re.sub(models.wrapf(repl) if callable(repl) else repl, string, count)
        if type(string) is not SymStr:
            string = SymStr(chars(string))
        out, i, k = [], 0, 0
        for m in self.finditer(string):
            if count and k >= count:
                break
            b, e = m.span()
            out.extend(string.cs[i:b])
            if callable(repl):
                out.extend(chars(models.call(repl, m)))
            elif type(repl) is str and '\\' in repl:
                out.extend(chars(_expand(repl, m)))
            else:
                out.extend(chars(repl))
            i = e
            k += 1
        out.extend(string.cs[i:])
        return mkstr(out)

    def subn(self, repl, string, count=0):
        return (self.sub(repl, string, count), len(list(self.finditer(string))))


def _expand(t, m):
    from . import models
    parts = re.split(r'\\(?:g<(\w+)>|(\d))', t)
    out = []
    for i in range(0, len(parts), 3):
        out.append(parts[i].replace('\\n', '\n').replace('\\\\', '\\'))
        if i + 2 < len(parts):
            g = parts[i + 1] or parts[i + 2]
            v = m.group(int(g) if g.isdigit() else g)
            out.append('' if v is None else v)
    return models.cat(*out)


class SxMatch(object):
    """stands for re.Match on a symbolic string"""

    def __init__(self, pat, s, b, e, groups, lastindex, pos, endpos):
        self.re, self.string, self._b, self._e = pat, s, b, e
        self._g = dict(groups)
        self._g[0] = (b, e)
        self.lastindex = lastindex
        self.pos, self.endpos = pos, endpos

    @property
    def __class__(self):
        return re.Match

    @property
    def lastgroup(self):
        for n, i in self.re.groupindex.items():
            if i == self.lastindex:
                return n
        return None

    def _ix(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        if not 0 <= g <= self.re.groups:
            raise IndexError('no such group')
        return g

    def span(self, g=0):
        return self._g.get(self._ix(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g):
        sp = self._g.get(self._ix(g))
        return None if sp is None else self.string[sp[0]:sp[1]]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(default if self._one(i) is None else self._one(i)
                     for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((n, default if self._one(i) is None else self._one(i))
                    for n, i in self.re.groupindex.items())

    def __bool__(self):
        return True

    def expand(self, t):
        return _expand(t, self)


# ----------------------------------------------------------------------
# matcher: nodes prepared as tuples, matched in continuation style
# ----------------------------------------------------------------------

def _prep(seq, flags):
    out = []
    for op, av in seq:
        if op is C.LITERAL:
            out.append(('set', _fold(((av, av),), flags)))
        elif op is C.NOT_LITERAL:
            out.append(('set', X.iv_sub(((0, MAXU),), _fold(((av, av),), flags))))
        elif op is C.ANY:
            out.append(('set', ((0, MAXU),) if flags & re.S else
                        ((0, 9), (11, MAXU))))
        elif op is C.IN:
            out.append(('set', charset_of(av, flags)))
        elif op is C.BRANCH:
            out.append(('alt', [_prep(list(b), flags) for b in av[1]]))
        elif op is C.SUBPATTERN:
            g, add, dele, p = av
            out.append(('grp', g, _prep(list(p), (flags | add) & ~dele)))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT, getattr(C, 'POSSESSIVE_REPEAT', None)):
            lo, hi, p = av
            hi = None if hi is C.MAXREPEAT else hi
            kind = ('max' if op is C.MAX_REPEAT else
                    'min' if op is C.MIN_REPEAT else 'poss')
            out.append(('rep', kind, lo, hi, _prep(list(p), flags)))
        elif op is getattr(C, 'ATOMIC_GROUP', None):
            out.append(('atomic', _prep(list(av), flags)))
        elif op is C.AT:
            out.append(('at', str(av), flags))
        elif op is C.ASSERT:
            out.append(('look', av[0], _prep(list(av[1]), flags), True))
        elif op is C.ASSERT_NOT:
            out.append(('look', av[0], _prep(list(av[1]), flags), False))
        elif op is C.GROUPREF:
            out.append(('ref', av))
        else:
            raise NotImplementedError('regex op %s' % op)
    return out


def _width(seq):
    w = 0
    for n in seq:
        if n[0] == 'set':
            w += 1
        elif n[0] == 'grp':
            w += _width(n[2])
        elif n[0] == 'rep' and n[2] == n[3]:
            w += n[2] * _width(n[4])
        elif n[0] == 'alt':
            ws = set(_width(b) for b in n[1])
            if len(ws) != 1:
                raise NotImplementedError('variable look-behind')
            w += ws.pop()
        elif n[0] in ('at', 'look'):
            pass
        else:
            raise NotImplementedError('look-behind')
    return w


class _Matcher(object):
    def __init__(self, pat, cs, end):
        self.cs, self.end = cs, end
        self.groups = {}
        self.lastindex = None

    def test(self, i, ivs):
        from .proxies import ch_test
        return ch_test(self.cs[i], ivs)

    def run(self, tree, start, full):
        def done(i):
            return i if (not full or i == self.end) else None
        return self.seq(tree, 0, start, done)

    def seq(self, nodes, k, i, cont):
        if k == len(nodes):
            return cont(i)
        n = nodes[k]
        op = n[0]
        if op == 'set':
            if i < self.end and self.test(i, n[1]):
                return self.seq(nodes, k + 1, i + 1, cont)
            return None
        if op == 'alt':
            for b in n[1]:
                saved = dict(self.groups), self.lastindex
                r = self.seq(b, 0, i, lambda j: self.seq(nodes, k + 1, j, cont))
                if r is not None:
                    return r
                self.groups, self.lastindex = saved
            return None
        if op == 'grp':
            g = n[1]

            def after(j):
                if g is None:
                    return self.seq(nodes, k + 1, j, cont)
                saved = dict(self.groups), self.lastindex
                self.groups[g] = (i, j)
                self.lastindex = g
                r = self.seq(nodes, k + 1, j, cont)
                if r is None:
                    self.groups, self.lastindex = saved
                return r
            return self.seq(n[2], 0, i, after)
        if op == 'rep':
            _, kind, lo, hi, body = n
            rest = lambda j: self.seq(nodes, k + 1, j, cont)
            if kind == 'max' and len(body) == 1 and body[0][0] == 'set':
                # iterative greedy run of a single character class
                j, c = i, 0
                while j < self.end and (hi is None or c < hi) and self.test(j, body[0][1]):
                    j += 1
                    c += 1
                while c >= lo:
                    r = rest(j)
                    if r is not None:
                        return r
                    j -= 1
                    c -= 1
                return None
            if kind == 'poss':
                j, c = i, 0
                while hi is None or c < hi:
                    e = self.seq(body, 0, j, lambda q: q)
                    if e is None or e == j:
                        break
                    j, c = e, c + 1
                return rest(j) if c >= lo else None
            return self.rep(kind, lo, hi, body, 0, i, -1, rest)
        if op == 'atomic':
            e = self.seq(n[1], 0, i, lambda q: q)
            return None if e is None else self.seq(nodes, k + 1, e, cont)
        if op == 'at':
            return self.seq(nodes, k + 1, i, cont) if self.at(n[1], n[2], i) else None
        if op == 'look':
            if n[1] >= 0:
                saved = dict(self.groups), self.lastindex
                r = self.seq(n[2], 0, i, lambda q: q)
                if not n[3]:
                    self.groups, self.lastindex = saved
            else:
                w = _width(n[2])
                r = None
                if i - w >= 0:
                    r = self.seq(n[2], 0, i - w, lambda q: q if q == i else None)
            if (r is not None) == n[3]:
                return self.seq(nodes, k + 1, i, cont)
            return None
        if op == 'ref':
            from .proxies import seq_eq_cond, br, cv
            sp = self.groups.get(n[1])
            if sp is None:
                return None
            a = self.cs[sp[0]:sp[1]]
            b = self.cs[i:i + len(a)]
            if len(b) != len(a) or i + len(a) > self.end:
                return None
            if not br(seq_eq_cond(a, b), [cv(x) for x in a] == [cv(x) for x in b]):
                return None
            return self.seq(nodes, k + 1, i + len(a), cont)
        raise NotImplementedError(op)

    def rep(self, kind, lo, hi, body, c, i, last, rest):
        if c < lo:
            return self.seq(body, 0, i,
                            lambda j: self.rep(kind, lo, hi, body, c + 1, j, i, rest))
        more = (hi is None or c < hi) and i != last
        if kind == 'max':
            if more:
                saved = dict(self.groups), self.lastindex
                r = self.seq(body, 0, i, lambda j: None if j == i else
                             self.rep(kind, lo, hi, body, c + 1, j, i, rest))
                if r is not None:
                    return r
                self.groups, self.lastindex = saved
            return rest(i)
        r = rest(i)
        if r is not None:
            return r
        if more:
            return self.seq(body, 0, i, lambda j: None if j == i else
                            self.rep(kind, lo, hi, body, c + 1, j, i, rest))
        return None

    def at(self, name, flags, i):
        nl = ((10, 10),)
        if name in ('AT_BEGINNING_STRING',):
            return i == 0
        if name == 'AT_BEGINNING':
            if flags & re.M:
                return i == 0 or self.test(i - 1, nl)
            return i == 0
        if name == 'AT_END_STRING':
            return i == self.end
        if name == 'AT_END':
            if i == self.end:
                return True
            if flags & re.M:
                return self.test(i, nl)
            return i == self.end - 1 and self.test(i, nl)
        if name in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
            w = category('WORD', flags & re.A)
            a = i > 0 and self.test(i - 1, w)
            b = i < self.end and self.test(i, w)
            return (a != b) == (name == 'AT_BOUNDARY')
        raise NotImplementedError(name)


# ----------------------------------------------------------------------
# module-level functions
# ----------------------------------------------------------------------

def compile(pattern, flags=0):
    from .proxies import cv_pin
    if isinstance(pattern, SxPattern):
        return pattern
    pattern = cv_pin(pattern)
    if isinstance(pattern, re.Pattern):
        return SxPattern(pattern.pattern, pattern.flags & ~re.U)
    if isinstance(pattern, bytes):
        return re.compile(pattern, flags)
    key = (pattern, int(flags))
    p = _cache.get(key)
    if p is None:
        p = _cache[key] = SxPattern(pattern, flags)
    return p


def mod_match(p, s, flags=0):
    return compile(p, flags).match(s)


def mod_search(p, s, flags=0):
    return compile(p, flags).search(s)


def mod_fullmatch(p, s, flags=0):
    return compile(p, flags).fullmatch(s)


def mod_split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


def mod_sub(p, repl, s, count=0, flags=0):
    return compile(p, flags).sub(repl, s, count)


def mod_findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def mod_finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)
