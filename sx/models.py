"""Call interception and models of builtins / library functions.

`call(f, *a, **k)` replaces every call in instrumented code.  Instrumented
functions run as they are; builtins that would see a proxy are modelled; an
unmodelled native callable gets *pinned* (concretised, with the equality added
to the path condition) arguments, so the path stays sound and only the part of
the input space behind that call is split value by value.
"""
import builtins
import collections
import functools
import itertools
import keyword
import math
import operator
import re
import string as _string
import types

from . import expr as X
from .engine import Engine, STATS
from .proxies import (SymInt, SymStr, SymRatio, SymFloat, SymHash, SymRange, SymEscaped, SymOpaque,
                      SYMSET, cv, cv_pin, mkstr, chars, isstr, br, ch_test, ch_eq, seq_eq_cond,
                      slice_indices, mk, cs_space, cs_decimal, cs_print, _lin, _isnum)
from . import regex

MARK = '__sx_instrumented__'


# ----------------------------------------------------------------------
# symbolic content detection / concretisation
# ----------------------------------------------------------------------

def has_sym(x, depth=5):
    t = type(x)
    if t in SYMSET or t is SymDtype or t is SymRecDtype:
        return True
    if depth and (t is tuple or t is list or t is set or t is frozenset):
        for y in x:
            if has_sym(y, depth - 1):
                return True
    elif t is slice:
        return has_sym(x.start) or has_sym(x.stop) or has_sym(x.step)
    elif depth and isinstance(x, dict):
        if isinstance(x, _SxMap) and x._sx:
            return True
        for k in dict.keys(x):
            if has_sym(k, depth - 1) or has_sym(dict.__getitem__(x, k), depth - 1):
                return True
    elif isinstance(x, _SxSetBase):
        if x._sx:
            return True
    elif depth and isinstance(x, tuple):
        for y in tuple.__iter__(x):
            if has_sym(y, depth - 1):
                return True
    return False


def concretise(x):
    t = type(x)
    if t in SYMSET:
        return x.pin()
    if t is SymDtype or t is SymRecDtype:
        return x.pin()
    if not has_sym(x):
        return x
    if t is tuple:
        return tuple(concretise(y) for y in x)
    if t is list:
        return [concretise(y) for y in x]
    if t is slice:
        return slice(concretise(x.start), concretise(x.stop), concretise(x.step))
    if isinstance(x, dict):
        return type(x)((concretise(k), concretise(v)) for k, v in x.items())
    if isinstance(x, _SxSetBase) or t in (set, frozenset):
        return t(concretise(y) for y in x)
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return t(*[concretise(y) for y in x])
    return x


# ----------------------------------------------------------------------
# hash
# ----------------------------------------------------------------------

def sx_hash(x):
    t = type(x)
    if t is SymInt:
        if x == -1:
            return -2
        return x
    if t is SymStr:
        return SymHash('str', (x,))
    if t is SymHash:
        return x
    if t in SYMSET:
        return hash(x.pin())
    if t is tuple or (isinstance(x, tuple) and type(x).__hash__ is tuple.__hash__):
        parts = [sx_hash(y) for y in tuple.__iter__(x)]
        if any(type(p) in SYMSET for p in parts):
            return SymHash('tuple', parts)
        return hash(x)
    if isinstance(x, SxFrozenSet):
        if x._sx:
            return SymHash('fset', [sx_hash(y) for y in x])
        return frozenset.__hash__(x)
    h = type(x).__hash__
    if h is None:
        raise TypeError('unhashable type: %r' % type(x).__name__)
    if isinstance(h, types.FunctionType):
        r = h(x)
        return r
    return hash(x)


# ----------------------------------------------------------------------
# dict / set with symbolic keys
# ----------------------------------------------------------------------

def _concrete_key(k):
    """k can go in the native table: its hash does not depend on an input"""
    t = type(k)
    if t is int or t is str or t is bool or k is None or t is type:
        return True
    if t in SYMSET:
        return False
    return type(sx_hash(k)) not in SYMSET


def _key_eq(a, b):
    """dict key identity: equal hash and (identical or equal)"""
    if a is b:
        return True
    if type(a) in SYMSET or type(b) in SYMSET:
        return a == b          # hash consistent with == for int/str
    ta, tb = type(a), type(b)
    if isinstance(a, (int, str, type)) and isinstance(b, (int, str, type)):
        return a == b
    if isinstance(a, str) != isinstance(b, str) or (a is None) != (b is None):
        return False
    if not (a == b):
        return False
    return sx_hash(a) == sx_hash(b)


class _SxMap(object):
    """mixin over dict/OrderedDict: keys whose hash is symbolic are found by an
    equality scan.  Insertion order is kept with the native table: a symbolic
    key is stored under a private token."""

    def _find(self, k):
        """-> stored native key or None"""
        if _concrete_key(k):
            if self._native_has(k):
                return (k,)
            if not self._sx:
                return None
            for tok in list(self._sx):
                if _key_eq(tok.key, k):
                    return (tok,)
            return None
        for kk in list(self._native_keys()):
            if type(kk) is _Tok:
                if _key_eq(kk.key, k):
                    return (kk,)
            elif _key_eq(kk, k):
                return (kk,)
        return None


class _Tok(object):
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key


def _mkmap(base):
    class SxMap(_SxMap, base):
        def __init__(self, *a, **k):
            self._sx = []
            base.__init__(self)
            self.update(*a, **k)

        def _native_has(self, k):
            return base.__contains__(self, k)

        def _native_keys(self):
            return base.__iter__(self)

        def __getitem__(self, k):
            f = self._find(k)
            if f is None:
                m = getattr(type(self), '__missing__', None)
                if m is not None:
                    return m(self, k)
                raise KeyError(k)
            return base.__getitem__(self, f[0])

        def __setitem__(self, k, v):
            f = self._find(k)
            if f is not None:
                base.__setitem__(self, f[0], v)
            elif _concrete_key(k):
                base.__setitem__(self, k, v)
            else:
                t = _Tok(k)
                self._sx.append(t)
                base.__setitem__(self, t, v)

        def __delitem__(self, k):
            f = self._find(k)
            if f is None:
                raise KeyError(k)
            if type(f[0]) is _Tok:
                self._sx.remove(f[0])
            base.__delitem__(self, f[0])

        def __contains__(self, k):
            return self._find(k) is not None

        def __iter__(self):
            for k in base.__iter__(self):
                yield k.key if type(k) is _Tok else k

        def __reversed__(self):
            for k in list(base.__iter__(self))[::-1]:
                yield k.key if type(k) is _Tok else k

        def keys(self):
            if not self._sx:
                return base.keys(self)
            return _View(list(self))

        def values(self):
            if not self._sx:
                return base.values(self)
            return [base.__getitem__(self, k) for k in base.__iter__(self)]

        def items(self):
            if not self._sx:
                return base.items(self)
            return _View([(k.key if type(k) is _Tok else k, base.__getitem__(self, k))
                          for k in list(base.__iter__(self))])

        def get(self, k, d=None):
            f = self._find(k)
            return d if f is None else base.__getitem__(self, f[0])

        def setdefault(self, k, d=None):
            f = self._find(k)
            if f is None:
                self[k] = d
                return d
            return base.__getitem__(self, f[0])

        def pop(self, k, *d):
            f = self._find(k)
            if f is None:
                if d:
                    return d[0]
                raise KeyError(k)
            v = base.__getitem__(self, f[0])
            del self[k]
            return v

        def popitem(self, *a, **kw):
            k, v = base.popitem(self, *a, **kw)
            if type(k) is _Tok:
                self._sx.remove(k)
                k = k.key
            return k, v

        def clear(self):
            self._sx = []
            base.clear(self)

        def update(self, *a, **k):
            if a:
                o = a[0]
                if hasattr(o, 'keys'):
                    for kk in o.keys():
                        self[kk] = o[kk]
                else:
                    for kk, v in o:
                        self[kk] = v
            for kk, v in k.items():
                self[kk] = v

        def copy(self):
            return type(self)(self.items())

        __copy__ = copy

        @classmethod
        def fromkeys(cls, it, v=None):
            return cls([(k, v) for k in it])

        def __eq__(self, o):
            if not isinstance(o, dict):
                return NotImplemented
            if len(self) != len(o):
                return False
            for k in self:
                if k not in o:
                    return False
                if not self[k] == o[k]:
                    return False
            return True

        def __ne__(self, o):
            r = self.__eq__(o)
            return r if r is NotImplemented else not r

        __hash__ = None

        def __or__(self, o):
            r = self.copy()
            r.update(o)
            return r

        def __ior__(self, o):
            self.update(o)
            return self

        def __repr__(self):
            return sx_repr(self)

        def __reduce_ex__(self, p):
            return (dict, (list(self.items()),))

    return SxMap


class _View(list):
    """list standing for a dict view"""

    def __and__(self, o):
        return SxSet(self) & SxSet(o)

    def __or__(self, o):
        return SxSet(self) | SxSet(o)

    def __sub__(self, o):
        return SxSet(self) - SxSet(o)

    def __xor__(self, o):
        return SxSet(self) ^ SxSet(o)

    def __eq__(self, o):
        return SxSet(self) == SxSet(o)


SxDict = _mkmap(dict)
SxDict.__name__ = SxDict.__qualname__ = 'dict'
SxOrderedDict = _mkmap(collections.OrderedDict)
SxOrderedDict.__name__ = SxOrderedDict.__qualname__ = 'OrderedDict'


def _od_eq(self, o):
    if isinstance(o, collections.OrderedDict):
        return list(self.items()) == list(o.items())
    return SxDict.__eq__(self, o)


SxOrderedDict.__eq__ = _od_eq


class SxDefaultDict(SxDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SxDict.__init__(self, *a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self[k] = call(self.default_factory)
        return v

    def copy(self):
        return SxDefaultDict(self.default_factory, self.items())


class _SxSetBase(object):
    pass


def _mkset(base):
    class S(_SxSetBase, base):
        def __new__(cls, it=()):
            # concrete elements go native; symbolic ones to _sx; the first of equal
            # elements stays
            conc, syms = set(), []
            for x in it:
                if _concrete_key(x):
                    if x not in conc and not any(_key_eq(y, x) for y in syms):
                        conc.add(x)
                elif not any(_key_eq(y, x) for y in conc) and \
                        not any(_key_eq(y, x) for y in syms):
                    syms.append(x)
            self = base.__new__(cls, conc)
            if base is set:
                set.__init__(self, conc)
            self._sx = syms
            return self

        def __init__(self, it=()):
            pass

        def __contains__(self, x):
            if _concrete_key(x):
                if base.__contains__(self, x):
                    return True
                for y in self._sx:
                    if _key_eq(y, x):
                        return True
                return False
            for y in base.__iter__(self):
                if _key_eq(y, x):
                    return True
            for y in self._sx:
                if _key_eq(y, x):
                    return True
            return False

        def __iter__(self):
            if not self._sx:
                return base.__iter__(self)
            return iter(list(base.__iter__(self)) + list(self._sx))

        def __len__(self):
            return base.__len__(self) + len(self._sx)

        def __bool__(self):
            return len(self) > 0

        def copy(self):
            return type(self)(self)

        __copy__ = copy

        def union(self, *os):
            out = list(self)
            for o in os:
                out.extend(o)
            return type(self)(out)

        def intersection(self, *os):
            out = list(self)
            for o in os:
                o = o if isinstance(o, (_SxSetBase, set, frozenset, dict)) else SxSet(o)
                out = [x for x in out if contains(o, x)]
            return type(self)(out)

        def difference(self, *os):
            out = list(self)
            for o in os:
                o = o if isinstance(o, (_SxSetBase, set, frozenset, dict)) else SxSet(o)
                out = [x for x in out if not contains(o, x)]
            return type(self)(out)

        def symmetric_difference(self, o):
            o = SxSet(o)
            return type(self)(list(self.difference(o)) + list(o.difference(self)))

        def issubset(self, o):
            o = o if isinstance(o, (_SxSetBase, set, frozenset)) else SxSet(o)
            return all(contains(o, x) for x in self)

        def issuperset(self, o):
            return all(x in self for x in o)

        def isdisjoint(self, o):
            return not any(x in self for x in o)

        def __or__(self, o):
            if not isinstance(o, (set, frozenset, _View)):
                return NotImplemented
            return self.union(o)

        __ror__ = __or__

        def __and__(self, o):
            if not isinstance(o, (set, frozenset, _View)):
                return NotImplemented
            return self.intersection(o)

        __rand__ = __and__

        def __sub__(self, o):
            if not isinstance(o, (set, frozenset, _View)):
                return NotImplemented
            return self.difference(o)

        def __rsub__(self, o):
            return SxSet(o).difference(self)

        def __xor__(self, o):
            if not isinstance(o, (set, frozenset)):
                return NotImplemented
            return self.symmetric_difference(o)

        def __le__(self, o):
            return len(self) <= len(o) and self.issubset(o)

        def __lt__(self, o):
            return len(self) < len(o) and self.issubset(o)

        def __ge__(self, o):
            return self.issuperset(o)

        def __gt__(self, o):
            return len(self) > len(o) and self.issuperset(o)

        def __eq__(self, o):
            if not isinstance(o, (set, frozenset)):
                return NotImplemented
            return len(self) == len(o) and self.issubset(o)

        def __ne__(self, o):
            r = self.__eq__(o)
            return r if r is NotImplemented else not r

        def __hash__(self):
            if base is set:
                raise TypeError("unhashable type: 'set'")
            if self._sx:
                return hash(base(concretise(x) for x in self))
            return base.__hash__(self)

        def __repr__(self):
            return sx_repr(self)

        def __reduce_ex__(self, p):
            return (base, (list(self),))

        if base is set:
            def add(self, x):
                if _concrete_key(x) and not self._sx:
                    set.add(self, x)
                elif x not in self:
                    if _concrete_key(x):
                        set.add(self, x)
                    else:
                        self._sx.append(x)

            def _rm(self, x):
                for y in list(self._sx):
                    if _key_eq(y, x):
                        self._sx.remove(y)
                        return True
                for y in list(set.__iter__(self)):
                    if _key_eq(y, x):
                        set.discard(self, y)
                        return True
                return False

            def remove(self, x):
                if not self._rm(x):
                    raise KeyError(x)

            def discard(self, x):
                self._rm(x)

            def pop(self):
                if set.__len__(self):
                    return set.pop(self)
                if self._sx:
                    return self._sx.pop()
                raise KeyError('pop from an empty set')

            def clear(self):
                self._sx = []
                set.clear(self)

            def update(self, *os):
                for o in os:
                    for x in o:
                        self.add(x)

            def __ior__(self, o):
                self.update(o)
                return self

            def difference_update(self, *os):
                for o in os:
                    for x in list(o):
                        self.discard(x)

            def __isub__(self, o):
                self.difference_update(o)
                return self

            def intersection_update(self, *os):
                r = self.intersection(*os)
                self.clear()
                self.update(r)

            def __iand__(self, o):
                self.intersection_update(o)
                return self

            def symmetric_difference_update(self, o):
                r = self.symmetric_difference(o)
                self.clear()
                self.update(r)

            def __ixor__(self, o):
                self.symmetric_difference_update(o)
                return self
    return S


SxSet = _mkset(set)
SxSet.__name__ = SxSet.__qualname__ = 'set'
SxSet.__hash__ = None
SxFrozenSet = _mkset(frozenset)
SxFrozenSet.__name__ = SxFrozenSet.__qualname__ = 'frozenset'


# ----------------------------------------------------------------------
# operators hooked by the loader
# ----------------------------------------------------------------------

def contains(c, x):
    """x in c"""
    t = type(c)
    if t is str:
        if type(x) is SymStr:
            return x.v in c if False else _in_str(c, x)
        return x in c
    if t is SymStr:
        return x in c
    if isinstance(c, (_SxMap, _SxSetBase)):
        if type(x) is SymStr and not c._sx:
            return _in_keys(list(c), x)
        return x in c
    if t in _NATIVE_KEYED or isinstance(c, (dict, set, frozenset, types.MappingProxyType)):
        if type(x) in SYMSET or not _concrete_key(x):
            if type(x) is SymStr:
                return _in_keys(list(c), x)
            for k in list(c):
                if _key_eq(k, x):
                    return True
            return False
        return x in c
    if t is range and type(x) is SymInt:
        return x in SymRange(c.start, c.stop, c.step)
    if (t is list or t is tuple) and type(x) is SymStr and all(type(y) is str for y in c):
        return _in_keys(c, x)
    return x in c


_NATIVE_KEYED = {dict, set, frozenset, types.MappingProxyType}


def _in_str(c, x):
    s = chars(c)
    n = len(x.cs)
    cond = X.disj([seq_eq_cond(s[i:i + n], x.cs) for i in range(len(s) - n + 1)])
    return br(cond, x.v in c)


def _in_keys(keys, x):
    strs = [k for k in keys if isstr(k)]
    cond = X.disj([seq_eq_cond(chars(k), x.cs) for k in strs])
    return br(cond, any(cv(k) == x.v for k in strs))


def getitem(o, k):
    t = type(o)
    if t is list or t is tuple:
        return o[k]
    if t is str and (type(k) is SymInt or type(k) is slice and has_sym(k)):
        return SymStr(chars(o))[k] if o else o[concretise(k)]
    if (t is dict or t is collections.OrderedDict or t is types.MappingProxyType) \
            and (type(k) in SYMSET or not _concrete_key(k)):
        for kk in list(o):
            if _key_eq(kk, k):
                return o[kk]
        raise KeyError(k)
    if has_sym(k) and not _is_instrumented_obj(o):
        if t in SYMSET or isinstance(o, (_SxMap, SymMatch)):
            return o[k]
        return o[concretise(k)]
    return o[k]


def mod(a, b):
    if isinstance(a, str):
        if type(a) is SymStr or has_sym(b) or _objs_with_str(b):
            return percent(a, b)
    return a % b


def _objs_with_str(b):
    if type(b) is tuple:
        return any(_is_instrumented_obj(x) or isinstance(x, (list, dict, set, tuple)) for x in b)
    return _is_instrumented_obj(b) or isinstance(b, (list, dict, set))


def _is_instrumented_obj(x):
    return getattr(type(x), '__module__', '').startswith(_PREFIXES)


_PREFIXES = ('sxds', 'sxh_')


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            val, conv, spec = p
            if conv == 'r':
                val = sx_repr(val)
            elif conv == 's':
                val = sx_str(val)
            elif conv == 'a':
                val = ascii(cv_pin(sx_repr(val)))
            out.append(sx_format(val, spec))
        else:
            out.append(p)
    return SymStr(()).join(out) if not all(type(o) is str for o in out) else ''.join(out)


def truth(x):
    return bool(x)


# ----------------------------------------------------------------------
# str / repr / format
# ----------------------------------------------------------------------

_INTREPR = int.__repr__


def int_str(n):
    """decimal rendering of a symbolic integer"""
    if type(n) is not SymInt:
        return str(n)
    if n < 0:
        m = -n
        return mkstr((45,) + chars(_nat_str(m)))
    return _nat_str(n)


def _nat_str(n):
    if type(n) is not SymInt:
        return str(n)
    d = 1
    while n >= 10 ** d:
        d += 1
    l, v = n.l, n.v
    if d == 1:
        # single digit: the value itself
        return mkstr((n + 48,))
    out = []
    top = X.atom('top', (l, d - 1), 0, 9, l.vars)
    path = Engine.cur
    dd = path.dom.get(top)
    if dd is None:
        path.dom[top] = ((1, 9),)
    out.append(SymInt(X.lin(48, ((top, 1),)), 48 + v // 10 ** (d - 1)))
    for k in range(d - 2, -1, -1):
        a = X.atom('dig', (l, k), 0, 9, l.vars)
        out.append(SymInt(X.lin(48, ((a, 1),)), 48 + v // 10 ** k % 10))
    return mkstr(out)


def _digits_value(ds):
    """value of a list of digit characters; recognises a rendered integer"""
    first = ds[0]
    if len(ds) > 1 and type(first) is SymInt and len(first.l.t) == 1 and first.l.c == 48:
        a, k = first.l.t[0]
        if a.op == 'top' and k == 1 and a.args[1] == len(ds) - 1:
            l = a.args[0]
            ok = True
            for i, c in enumerate(ds[1:]):
                if not (type(c) is SymInt and c.l.c == 48 and len(c.l.t) == 1 and
                        c.l.t[0][1] == 1 and c.l.t[0][0].op == 'dig' and
                        c.l.t[0][0].args[0] is l and
                        c.l.t[0][0].args[1] == len(ds) - 2 - i):
                    ok = False
                    break
            if ok:
                val = 0
                for c in ds:
                    val = val * 10 + (cv(c) - 48)
                return mk(l, val)
    val = 0
    for c in ds:
        val = val * 10 + (c - 48)
    return val


_ZEROS = []


def ascii_digit(c):
    """the ASCII digit with the value of a decimal digit character"""
    import unicodedata
    if type(c) is int:
        return 48 + unicodedata.decimal(chr(c))
    if not _ZEROS:
        _ZEROS.extend([a for lo, hi in cs_decimal() for a in range(lo, hi + 1)
                       if unicodedata.decimal(chr(a)) == 0])
    lo, hi = 0, len(_ZEROS) - 1
    while lo < hi:
        mid = (lo + hi) // 2
        if ch_test(c, ((0, _ZEROS[mid] + 9),)):
            hi = mid
        else:
            lo = mid + 1
    return c - _ZEROS[lo] + 48


def str_int(s, base=10):
    """int(text)"""
    if type(s) is not SymStr:
        return int(s, base)
    base = cv_pin(base)
    if base in (2, 8, 16):
        return _str_int_pow2(s, base)
    if base != 10:
        return int(s.pin(), base)
    bad = ValueError('invalid literal for int() with base 10: %s' % repr(s.v))
    t = s.strip()
    cs = chars(t)
    neg = False
    i = 0
    if not cs:
        raise bad
    if ch_test(cs[0], ((43, 43), (45, 45))):
        neg = ch_test(cs[0], ((45, 45),))
        i = 1
    digits = []
    prev_us = True          # a digit must come first
    while i < len(cs):
        c = cs[i]
        if ch_test(c, ((48, 57),)):
            digits.append(c)
            prev_us = False
        elif ch_test(c, ((95, 95),)):
            if prev_us:
                raise bad
            prev_us = True
        elif ch_test(c, cs_decimal()):
            digits.append(ascii_digit(c))
            prev_us = False
        else:
            raise bad
        i += 1
    if prev_us:
        raise bad
    r = _digits_value(digits)
    return -r if neg else r


def _hexdigit(c):
    """value of a hexadecimal digit character, None for another character"""
    t = c.l.t if type(c) is SymInt else ()
    if len(t) == 1 and t[0][0].op == 'hex' and t[0][1] == 1 and not c.l.c:
        return SymInt(t[0][0].args[0], int(chr(c.v), 16))
    if ch_test(c, ((48, 57),)):
        return c - 48
    if ch_test(c, ((97, 102),)):
        return c - 87
    if ch_test(c, ((65, 70),)):
        return c - 55
    return None


def _str_int_pow2(s, base):
    """int(text, 2 | 8 | 16) of plain digits; other text is concretised"""
    val = 0
    if not s.cs:
        return int('', base)
    for c in s.cs:
        d = _hexdigit(c)
        if d is None or d >= base:
            return int(s.pin(), base)
        val = val * base + d
    return val


_D = r'[0-9](?:_?[0-9])*'
_FLOAT = (r'[+-]?(?:(?:%s(?:\.(?:%s)?)?|\.%s)(?:[eE][+-]?%s)?'
          r'|[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN])' % (_D, _D, _D, _D))


def str_float(s):
    if type(s) is not SymStr:
        return float(s)
    t = s.strip()
    if type(t) is SymStr:
        cs = list(t.cs)
        for i, c in enumerate(cs):
            if type(c) is SymInt and not ch_test(c, ((0, 127),)) and ch_test(c, cs_decimal()):
                cs[i] = ascii_digit(c)
        t = mkstr(cs)
    if type(t) is not SymStr:
        return float(t)
    if regex.SxPattern(_FLOAT).fullmatch(t) is None:
        raise ValueError('could not convert string to float: %s' % repr(s.v))
    parts = None
    m = regex.SxPattern(r'([+-]?)([0-9]*)(?:\.([0-9]*))?').fullmatch(t)
    if m is not None:
        sign, a, b = m.group(1), m.group(2), m.group(3)
        if len(a) + (len(b) if b is not None else 0) <= 15:
            parts = (sign == '-', chars(a), chars(b) if b is not None else ())
    return SymFloat(t, float(t.v), parts)


_STRP = {'H': (r'(?P<H>2[0-3]|[0-1]\d|\d)'), 'M': r'(?P<M>[0-5]\d|\d)',
         'S': r'(?P<S>6[0-1]|[0-5]\d|\d)', 'f': '(?P<f>[0-9]{1,6})'}


def m_strptime(s, fmt):
    """datetime.strptime for formats of %H %M %S %f (CPython's _strptime)"""
    import datetime as dt
    if type(s) is not SymStr or type(fmt) is not str or \
            re.fullmatch(r'(?:[^%\s]|%[HMSf])*', fmt) is None:
        return native(dt.datetime.strptime, (s, fmt), {})
    pat, names = '', []
    i = 0
    while i < len(fmt):
        if fmt[i] == '%':
            pat += _STRP[fmt[i + 1]]
            names.append(fmt[i + 1])
            i += 2
        else:
            pat += re.escape(fmt[i])
            i += 1
    m = regex.SxPattern(pat).match(s)
    if m is None:
        raise ValueError('time data %r does not match format %r' % (s.v, fmt))
    if not m.end() == len(s.cs):
        raise ValueError('unconverted data remains: %s' % s.v[cv(m.end()):])
    val = {'H': 0, 'M': 0, 'S': 0, 'f': 0}
    for n in names:
        t = m.group(n)
        x = str_int(t) if type(t) is SymStr else int(t)
        if n == 'f':
            x = x * 10 ** (6 - len(t))
        val[n] = x
    if val['S'] > 59:
        raise ValueError('second must be in 0..59')
    v = dt.datetime.strptime(s.v, fmt)
    at = {'hour': val['H'], 'minute': val['M'], 'second': val['S'], 'microsecond': val['f'],
          'tzinfo': None, 'fold': 0}
    tm = SymOpaque(dt.time, v.time(), (s,), at)
    return SymOpaque(dt.datetime, v, (s,), dict(at, year=1900, month=1, day=1,
                                                time=lambda: tm))


def m_timedelta64(*a):
    import numpy as np
    if len(a) == 2 and type(a[0]) is SymInt and type(a[1]) is str:
        x = a[0]
        if not (-2 ** 63 <= x and x < 2 ** 63):
            raise OverflowError('Python int too large to convert to C long')
        v = np.timedelta64(x.v, a[1])
        return SymOpaque(np.timedelta64, v, (x,), {'dtype': v.dtype, 'ndim': 0, 'shape': (),
                                                   'itemsize': 8})
    return native(np.timedelta64, a, {})


def sx_str(x=NotImplemented, *enc):
    if x is NotImplemented:
        return ''
    t = type(x)
    if t is str:
        return x
    if t is SymStr:
        return x
    if t is SymInt:
        return int_str(x)
    if t in SYMSET:
        return str(x.pin())
    if enc:
        return str(x, *enc)
    s = getattr(t, '__str__', None)
    if isinstance(s, types.FunctionType):
        r = s(x)
        if not isinstance(r, str):
            raise TypeError('__str__ returned non-string (type %s)' % type(r).__name__)
        return r
    if isinstance(x, BaseException):
        if not has_sym(x.args):
            return str(x)
        if len(x.args) == 1:
            return sx_str(x.args[0])
        return sx_repr(x.args)
    if t in (list, tuple, dict, set, frozenset) or isinstance(
            x, (list, tuple, dict, set, frozenset)):
        return sx_repr(x)
    if s is object.__str__:
        return sx_repr(x)
    return str(x)


def _repr_str(x):
    has_sq = SymStr.__contains__(x, "'")
    if has_sq and not SymStr.__contains__(x, '"'):
        q = 34
    else:
        q = 39
    out = [q]
    for c in x.cs:
        if type(c) is int:
            ch = chr(c)
            if c == q or c == 92:
                out.extend((92, c))
            elif ch in '\n\r\t' or not ch.isprintable():
                out.extend(map(ord, repr(ch)[1:-1]))
            else:
                out.append(c)
        elif ch_test(c, ((q, q),)) or ch_test(c, ((92, 92),)):
            out.extend((92, c))
        elif ch_test(c, cs_print()):
            out.append(c)
        elif ch_test(c, ((10, 10),)):
            out.extend((92, 110))
        elif ch_test(c, ((13, 13),)):
            out.extend((92, 114))
        elif ch_test(c, ((9, 9),)):
            out.extend((92, 116))
        elif c < 256:
            out.extend((92, 120) + _hex(c, 2))
        elif c < 65536:
            out.extend((92, 117) + _hex(c, 4))
        else:
            out.extend((92, 85) + _hex(c, 8))
    out.append(q)
    return mkstr(out)


def _hex(c, n):
    out = []
    for k in range(n - 1, -1, -1):
        d = c // 16 ** k if k == n - 1 else (c // 16 ** k) % 16    # c < 16**n here
        if type(d) is SymInt and d.l.lo >= 0 and d.l.hi <= 15:
            out.append(SymInt(X.hexchar(d.l), ord('%x' % d.v)))
        elif d <= 9:
            out.append(d + 48)
        else:
            out.append(d + 87)
    return tuple(out)


def sx_repr(x):
    t = type(x)
    if t is SymStr:
        return _repr_str(x)
    if t is SymInt:
        return int_str(x)
    if t in SYMSET:
        return repr(x.pin())
    if isinstance(x, (_SxMap, _SxSetBase)) or t in (list, tuple, dict, set, frozenset):
        if not has_sym(x) and not _deep_instr(x):
            if isinstance(x, _SxMap):
                return repr(dict(dict.items(x))) if isinstance(x, SxDict) else \
                    'OrderedDict(%s)' % sx_repr(dict(dict.items(x)))
            if isinstance(x, SxSet):
                return repr(set(x))
            if isinstance(x, SxFrozenSet):
                return repr(frozenset(x))
            return repr(x)
        if isinstance(x, dict):
            body = SymStr(()).join(_interleave(
                [cat(sx_repr(k), ': ', sx_repr(v)) for k, v in x.items()]))
            return cat('{', body, '}')
        if isinstance(x, (set, frozenset)):
            body = SymStr(()).join(_interleave([sx_repr(y) for y in x]))
            if isinstance(x, frozenset):
                return cat('frozenset({', body, '})')
            return cat('{', body, '}')
        body = SymStr(()).join(_interleave([sx_repr(y) for y in x]))
        if t is list:
            return cat('[', body, ']')
        return cat('(', body, ',)' if len(x) == 1 else ')')
    r = getattr(t, '__repr__', None)
    if isinstance(r, types.FunctionType) and not isinstance(x, (SymDtype, SymRecDtype)):
        return r(x)
    if t is slice and has_sym(x):
        return cat('slice(', sx_repr(x.start), ', ', sx_repr(x.stop), ', ', sx_repr(x.step), ')')
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return cat(t.__name__, '(', SymStr(()).join(_interleave(
            [cat(f, '=', sx_repr(v)) for f, v in zip(x._fields, x)])), ')')
    return repr(x)


def _deep_instr(x, d=4):
    if isinstance(x, dict):
        return any(_deep_instr(k, d - 1) or _deep_instr(v, d - 1) for k, v in x.items()) if d else False
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(_deep_instr(y, d - 1) for y in x) if d else False
    return _is_instrumented_obj(x)


def _interleave(xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(', ')
        out.append(x)
    return out


def cat(*parts):
    return mkstr(itertools.chain.from_iterable(chars(p) for p in parts))


def sx_format(x, spec=''):
    if type(spec) is SymStr:
        spec = spec.pin()
    if spec == '' or spec == 's' and isinstance(x, str) or spec == 'd' and type(x) is SymInt:
        f = getattr(type(x), '__format__', None)
        if isinstance(f, types.FunctionType) and type(x) not in SYMSET:
            return f(x, spec)
        return sx_str(x)
    f = getattr(type(x), '__format__', None)
    if isinstance(f, types.FunctionType) and type(x) not in SYMSET:
        return f(x, spec)
    m = re.match(r'^(.?[<>^])?(\d+)?s?$', spec)
    if m and isinstance(x, str) and m.group(2):
        w = int(m.group(2))
        fill, al = (' ', '<') if not m.group(1) else (
            (m.group(1)[0], m.group(1)[1]) if len(m.group(1)) == 2 else (' ', m.group(1)))
        pad = max(0, w - len(x))
        if al == '<':
            return cat(x, fill * pad)
        if al == '>':
            return cat(fill * pad, x)
        return cat(fill * (pad // 2), x, fill * (pad - pad // 2))
    return format(cv_pin(x), spec)


_PCT = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?'
                  r'(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>.)', re.S)


def percent(fmt, args):
    """fmt % args"""
    if type(fmt) is SymStr:
        fs = []
        for c in fmt.cs:        # a symbolic char in a format must not be '%'
            if type(c) is SymInt and ch_test(c, ((37, 37),)):
                c = 37
            fs.append(c)
        # split on literal % only
        text = ''.join(chr(c) if type(c) is int else '\ue000' for c in fs)
        syms = [c for c in fs if type(c) is not int]
    else:
        text, syms = fmt, []
    isdict = isinstance(args, dict)
    tup = args if isinstance(args, tuple) else None
    out = []
    pos = 0
    ai = 0
    si = [0]

    def lit(s):
        if not syms:
            return s
        r = []
        for ch in s:
            if ch == '\ue000':
                r.append(syms[si[0]])
                si[0] += 1
            else:
                r.append(ord(ch))
        return mkstr(r)

    def nxt():
        nonlocal ai
        if tup is not None:
            if ai >= len(tup):
                raise TypeError('not enough arguments for format string')
            ai += 1
            return tup[ai - 1]
        if ai:
            raise TypeError('not enough arguments for format string')
        ai += 1
        return args
    while True:
        i = text.find('%', pos)
        if i < 0:
            out.append(lit(text[pos:]))
            break
        out.append(lit(text[pos:i]))
        m = _PCT.match(text, i)
        if not m:
            raise ValueError('incomplete format')
        pos = m.end()
        conv = m.group('conv')
        if conv == '%':
            out.append('%')
            continue
        if m.group('key') is not None:
            if not isdict:
                raise TypeError('format requires a mapping')
            val = args[m.group('key')]
            ai = 1
        else:
            width = m.group('width')
            if width == '*':
                width = cv_pin(nxt())
            prec = m.group('prec')
            if prec == '*':
                prec = cv_pin(nxt())
            val = nxt()
        width, prec, flags = m.group('width'), m.group('prec'), m.group('flags')
        if conv in 'sra':
            s = sx_str(val) if conv == 's' else sx_repr(val)
            if conv == 'a':
                s = ascii(cv_pin(val))
            if prec is not None:
                s = s[:int(prec)]
            if width:
                s = (SymStr(chars(s)).ljust(int(width)) if '-' in flags
                     else SymStr(chars(s)).rjust(int(width)))
            out.append(s)
        elif conv in 'diu':
            if type(val) is SymInt:
                if not flags and not width and prec is None:
                    out.append(int_str(val))
                else:
                    out.append(m.group(0) % val.pin())
            else:
                v = cv_pin(val)
                if not isinstance(v, (int, float)) and not hasattr(type(v), '__int__') \
                        and not hasattr(type(v), '__index__'):
                    raise TypeError('%%%s format: a real number is required, not %s'
                                    % (conv, type(v).__name__))
                if _is_instrumented_obj(v):
                    v = call(int, v)
                    out.append(int_str(v))
                else:
                    out.append(m.group(0) % v)
        else:
            out.append(m.group(0) % cv_pin(val))
    if tup is not None and ai < len(tup):
        raise TypeError('not all arguments converted during string formatting')
    if tup is None and not isdict and ai == 0 and not isinstance(args, (list,)):
        raise TypeError('not all arguments converted during string formatting')
    return mkstr(itertools.chain.from_iterable(chars(p) for p in out))


def str_format(fmt, a, k):
    out = []
    auto = 0
    for litr, field, spec, conv in _string.Formatter().parse(fmt):
        if litr:
            out.append(litr)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        first, rest = _fmtsplit(field)
        obj = a[first] if isinstance(first, int) else k[first]
        for is_attr, name in rest:
            obj = getattr(obj, name) if is_attr else obj[name]
        if conv == 'r':
            obj = sx_repr(obj)
        elif conv == 's':
            obj = sx_str(obj)
        elif conv == 'a':
            obj = ascii(cv_pin(obj))
        if spec and '{' in spec:
            spec = cv_pin(str_format(spec, a, k))
        out.append(sx_format(obj, spec))
    return mkstr(itertools.chain.from_iterable(chars(p) for p in out))


def _fmtsplit(field):
    import _string as cs
    return cs.formatter_field_name_split(field)


# ----------------------------------------------------------------------
# numpy dtypes with a symbolic length
# ----------------------------------------------------------------------

class SymDtype(object):
    """np.dtype('S%d' % n) / np.dtype('U%d' % n) with symbolic n"""

    def __init__(self, kind, n):
        self.kind, self.n = kind, n

    @property
    def __class__(self):
        import numpy as np
        return np.dtype

    def pin(self):
        import numpy as np
        return np.dtype('%s%d' % (self.kind, cv_pin(self.n)))

    @property
    def itemsize(self):
        return self.n * 4 if self.kind == 'U' else self.n

    @property
    def type(self):
        import numpy as np
        return np.str_ if self.kind == 'U' else np.bytes_

    @property
    def name(self):
        bits = self.itemsize * 8
        if bits == 0:
            return 'str' if self.kind == 'U' else 'bytes'
        return cat('str' if self.kind == 'U' else 'bytes', int_str(bits))

    @property
    def str(self):
        return cat('<U' if self.kind == 'U' else '|S', int_str(self.n))

    char = property(lambda self: self.kind)
    fields = names = subdtype = metadata = None
    shape = ()
    ndim = 0
    base = property(lambda self: self)
    hasobject = False
    isbuiltin = 0
    isnative = True
    alignment = property(lambda self: 4 if self.kind == 'U' else 1)

    def __eq__(self, o):
        import numpy as np
        if type(o) is SymDtype:
            return self.kind == o.kind and self.n == o.n
        try:
            o = np.dtype(o)
        except TypeError:
            return False
        return o.kind == self.kind and self.itemsize == o.itemsize

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.pin())

    def __str__(self):
        return str(self.pin())

    def __repr__(self):
        return repr(self.pin())

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.pin(), name)


class SymRecDtype(object):
    """structured dtype with symbolic names and/or SymDtype fields"""
    kind = 'V'
    shape = ()
    subdtype = metadata = None
    base = property(lambda self: self)

    def __init__(self, fields):
        self._f = fields
        self.names = tuple(f[0] for f in fields)
        self.fields = SxDict()
        for f in fields:
            if contains(self.fields, f[0]):
                raise ValueError('field %s occurs more than once' % repr(cv(f[0])))
            self.fields[f[0]] = (f[1], 0)

    @property
    def __class__(self):
        import numpy as np
        return np.dtype

    @property
    def type(self):
        import numpy as np
        return np.void

    def pin(self):
        import numpy as np
        return np.dtype([(cv_pin(n), d.pin() if hasattr(d, 'pin') else d) for n, d in self._f])

    def __eq__(self, o):
        if type(o) is SymRecDtype:
            return self._f == o._f
        return self.pin() == o

    def __hash__(self):
        return hash(self.pin())

    def __getitem__(self, k):
        return self.fields[k][0]

    def __len__(self):
        return len(self._f)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.pin(), name)


def m_dtype(*a, **k):
    import numpy as np
    if a and not k:
        x = a[0]
        if type(x) in (SymDtype, SymRecDtype):
            return x
        if type(x) is SymOpaque and 'dtype' in x.attrs:
            return np.dtype(x.v)
        if type(x) is SymStr:
            s = x
            if len(s.cs) and ch_test(s.cs[0], ((60, 60), (61, 61), (62, 62), (124, 124))):
                s = s[1:]
            if len(s) > 1 and type(s) is SymStr:
                c0 = s.cs[0]
                if type(c0) is int and chr(c0) in 'SU':
                    if all(ch_test(c, ((48, 57),)) for c in s.cs[1:]):
                        n = str_int(s[1:])
                        return SymDtype(chr(c0), n) if type(n) is SymInt else \
                            np.dtype('%s%d' % (chr(c0), n))
        if type(x) is list and has_sym(x) and all(
                type(f) is tuple and len(f) == 2 for f in x):
            fs = []
            for n, d in x:
                fs.append((n, d if type(d) in (SymDtype, SymRecDtype) else np.dtype(concretise(d))))
            if len(fs):
                for n, _ in fs:
                    if not len(n):
                        return np.dtype(concretise(x))
                return SymRecDtype(fs)
    return np.dtype(*concretise(a), **concretise(k))


def m_issubdtype(a, b):
    import numpy as np
    if type(a) in (SymDtype, SymRecDtype):
        a = a.type
    if type(b) in (SymDtype, SymRecDtype):
        b = b.type
    return np.issubdtype(concretise(a), concretise(b))


def m_result_type(*a):
    import numpy as np
    if len(a) == 2 and any(type(x) is SymDtype for x in a):
        x, y = a
        if type(x) is not SymDtype:
            x, y = y, x
        if type(y) is not SymDtype:
            y = np.dtype(y)
            if y.kind in 'SU':
                yk, yn = y.kind, y.itemsize // (4 if y.kind == 'U' else 1)
            elif y.kind in 'biufc':
                r = np.result_type(y, x.kind + '1')
                yk, yn = r.kind, r.itemsize // (4 if r.kind == 'U' else 1)
            else:
                return np.result_type(x.pin(), y)
        else:
            yk, yn = y.kind, y.n
        k = 'U' if 'U' in (x.kind, yk) else 'S'
        n = x.n if x.n >= yn else yn
        return SymDtype(k, n) if type(n) is SymInt else np.dtype('%s%d' % (k, n))
    return np.result_type(*concretise(list(a)))


# ----------------------------------------------------------------------
# models of builtins
# ----------------------------------------------------------------------

def m_type(*a):
    if len(a) != 1:
        return type(*a)
    t = type(a[0])
    if t in SYMSET or t is SymDtype or t is SymRecDtype:
        return a[0].__class__
    if t is SxDict:
        return dict
    if t is SxSet:
        return set
    if t is SxFrozenSet:
        return frozenset
    if t is SxOrderedDict:
        return collections.OrderedDict
    if t is SxDefaultDict:
        return collections.defaultdict
    if t is regex.SxPattern:
        return re.Pattern
    if t is SymMatch:
        return re.Match
    return t


def m_int(x=0, *base, **kw):
    t = type(x)
    if t is SymInt:
        return x
    if t is SymStr:
        return str_int(x, *base, **kw)
    if t is SymRatio:
        return x.__trunc__()
    if t is SymFloat:
        return x.trunc()
    if t in SYMSET:
        return int(x.pin(), *base, **kw)
    if not base and not isinstance(x, (int, float, str, bytes)):
        for n in ('__int__', '__index__', '__trunc__'):
            m = getattr(t, n, None)
            if isinstance(m, types.FunctionType):
                return m(x)
    return int(x, *base, **kw)


def m_index(x):
    t = type(x)
    if t is SymInt:
        return x
    m = getattr(t, '__index__', None)
    if isinstance(m, types.FunctionType) and t not in SYMSET:
        r = m(x)
        if not isinstance(r, int):
            raise TypeError('__index__ returned non-int (type %s)' % type(r).__name__)
        return r
    if t in SYMSET and t is not SymHash:
        raise TypeError("'%s' object cannot be interpreted as an integer" % x.__class__.__name__)
    return operator.index(x)


def m_len(x):
    t = type(x)
    if t is SymRange:
        return x.size()
    m = getattr(t, '__len__', None)
    if isinstance(m, types.FunctionType):
        return m(x)
    return len(x)


def m_bool(*a):
    return bool(*a)


def m_float(x=0.0):
    t = type(x)
    if t is SymStr:
        return str_float(x)
    if t is SymRatio or t is SymFloat:
        return x
    return float(cv_pin(x))


def m_range(*a):
    if any(type(x) is SymInt for x in a):
        a = [m_index(x) for x in a]
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        if len(a) == 2:
            return SymRange(a[0], a[1], 1)
        if a[2] == 0:
            raise ValueError('range() arg 3 must not be zero')
        return SymRange(*a)
    return range(*[m_index(x) if _is_instrumented_obj(x) else x for x in a])


def m_dict(*a, **k):
    return SxDict(*a, **k)


def m_set(*a):
    return SxSet(*a)


def m_frozenset(*a):
    return SxFrozenSet(*a)


def m_ordered(*a, **k):
    return SxOrderedDict(*a, **k)


def m_map(f, *its):
    f = wrapf(f)
    return map(f, *its)


def m_filter(f, it):
    return filter(f if f is None else wrapf(f), it)


def wrapf(f):
    if f is None:
        return None
    return functools.partial(call, f)


def m_sorted(it, key=None, reverse=False):
    return sorted(it, key=wrapf(key), reverse=reverse)


def m_minmax(g):
    def f(*a, **k):
        if k.get('key') is not None:
            k['key'] = wrapf(k['key'])
        return g(*a, **k)
    return f


def m_reduce(f, *a):
    return functools.reduce(wrapf(f), *a)


def m_partial(f, *a, **k):
    if isinstance(f, types.FunctionType) and MARK in f.__globals__:
        return functools.partial(f, *a, **k)
    return functools.partial(call, f, *a, **k)


def m_chr(x):
    if type(x) is SymInt:
        if x < 0 or x > 0x10ffff:
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr((x,))
    return chr(x)


def m_ord(x):
    if type(x) is SymStr:
        if len(x.cs) != 1:
            raise TypeError('ord() expected a character')
        return x.cs[0]
    return ord(x)


def m_isinstance(x, t):
    return isinstance(x, t)


def m_slice(*a):
    return slice(*a)


def m_literal_eval(s):
    import ast
    if type(s) is SymStr:
        if s == 'True':
            return True
        if s == 'False':
            return False
        if s == 'None':
            return None
        cs = s.cs
        if len(cs) >= 2 and ch_test(cs[0], ((34, 34), (39, 39))):
            r = py_string_literal(s)
            if r is not None:
                return r
        return ast.literal_eval(s.pin())
    return ast.literal_eval(s)


class _AstNode(object):
    def __init__(self, **k):
        self.__dict__.update(k)


_SIMPLE = {110: 10, 116: 9, 114: 13, 98: 8, 102: 12, 97: 7, 118: 11,
           92: 92, 39: 39, 34: 34}


def py_string_literal(s):
    """value of a simple (single-quoted-style, non-raw) python string literal,
    or None when the text is outside that fragment"""
    cs = list(s.cs)
    if cs and type(cs[0]) is int and chr(cs[0]) in 'uU':
        cs = cs[1:]
    if len(cs) < 2:
        return None
    q = cs[0]
    if not (ch_test(q, ((34, 34),)) or ch_test(q, ((39, 39),))):
        return None
    qv = cv(q)
    body = cs[1:-1]
    if not ch_test(cs[-1], ((qv, qv),)):
        return None
    # triple quotes
    if len(body) >= 2 and ch_test(body[0], ((qv, qv),)):
        return None
    out = []
    i = 0
    n = len(body)
    while i < n:
        c = body[i]
        if ch_test(c, ((qv, qv),)):
            return None
        if ch_test(c, ((10, 10), (13, 13), (0, 0))):
            return None
        if ch_test(c, ((0xd800, 0xdfff),)):
            return None
        if not ch_test(c, ((92, 92),)):
            out.append(c)
            i += 1
            continue
        if i + 1 >= n:
            return None
        e = body[i + 1]
        done = False
        if type(e) is int:
            if e in _SIMPLE:
                out.append(_SIMPLE[e])
                done = True
        else:
            for k, v in _SIMPLE.items():
                if ch_test(e, ((k, k),)):
                    out.append(v)
                    done = True
                    break
        if done:
            i += 2
            continue
        w = None
        for k, width in ((120, 2), (117, 4), (85, 8)):
            if ch_test(e, ((k, k),)):
                w = width
                break
        if w is None:
            return None
        if i + 2 + w > n:
            return None
        val = 0
        for c in body[i + 2:i + 2 + w]:
            d = _hexdigit(c)
            if d is None:
                return None
            val = val * 16 + d
        if val > 0x10ffff:
            return None
        out.append(val)
        i += 2 + w
    return mkstr(out)


def m_ast_parse(src, *a, **k):
    import ast
    if type(src) is SymStr:
        r = py_string_literal(src)
        if r is not None:
            node = _AstNode(s=r, value=r)
            return _AstNode(body=[_AstNode(value=node)])
        return ast.parse(src.pin(), *a, **k)
    return ast.parse(src, *a, **k)


def m_ceil(x):
    if type(x) in SYMSET:
        return x.__ceil__()
    return math.ceil(x)


def m_floor(x):
    if type(x) in SYMSET:
        return x.__floor__()
    return math.floor(x)


def m_lru_cache(maxsize=128, typed=False):
    def deco(fn):
        cache = SxDict()

        @functools.wraps(fn)
        def wrapper(*a, **k):
            key = (a, tuple(k.items())) if k else a
            if typed:
                key = (key, tuple(m_type(x) for x in a))
            f = cache._find(key)
            if f is not None:
                return dict.__getitem__(cache, f[0])
            r = fn(*a, **k)
            cache[key] = r
            return r
        wrapper.cache_clear = cache.clear
        wrapper.cache_info = lambda: None
        wrapper.__wrapped__ = fn
        wrapper._sx_cache = cache
        CACHES.append(cache)
        return wrapper
    if callable(maxsize) and not isinstance(maxsize, int):
        fn, maxsize = maxsize, 128
        return deco(fn)
    return deco


CACHES = []


def m_cache(fn):
    return m_lru_cache(None)(fn)


def deco(d):
    """decorator expressions go through the models too"""
    if d is functools.lru_cache:
        return m_lru_cache
    if d is getattr(functools, 'cache', None):
        return m_cache
    return d


def m_hash(x):
    return sx_hash(x)


def m_getattr(o, name, *d):
    if type(name) is SymStr:
        name = name.pin()
    return getattr(o, name, *d)


def m_setattr(o, name, v):
    return setattr(o, cv_pin(name), v)


def m_hasattr(o, name):
    return hasattr(o, cv_pin(name))


def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def m_abs(x):
    return abs(x)


def m_round(x, *a):
    return round(x, *a)


def m_pow(*a):
    return pow(*a)


def m_divmod(a, b):
    return divmod(a, b)


def m_enumerate(it, start=0):
    return enumerate(it, cv_pin(start))


def m_list(*a):
    return list(*a)


def m_tuple(*a):
    return tuple(*a)


def m_repr(x):
    return sx_repr(x)


def m_format(x, spec=''):
    return sx_format(x, spec)


def m_iskeyword(s):
    if type(s) is SymStr:
        return contains(frozenset(keyword.kwlist), s)
    return keyword.iskeyword(s)


SymMatch = regex.SxMatch

PASS = set()
MODELS = {}


def _install():
    import ast
    import copy
    import numpy as np
    M = MODELS
    for f, m in [
        (type, m_type), (int, m_int), (str, sx_str), (repr, m_repr), (len, m_len),
        (bool, m_bool), (float, m_float), (range, m_range), (dict, m_dict), (set, m_set),
        (frozenset, m_frozenset), (collections.OrderedDict, m_ordered), (map, m_map),
        (filter, m_filter), (sorted, m_sorted), (min, m_minmax(min)), (max, m_minmax(max)),
        (functools.reduce, m_reduce), (functools.partial, m_partial), (chr, m_chr),
        (ord, m_ord), (operator.index, m_index), (hash, m_hash), (format, m_format),
        (ast.literal_eval, m_literal_eval), (ast.parse, m_ast_parse),
        (math.ceil, m_ceil), (math.floor, m_floor), (math.trunc, lambda x: m_int(x)),
        (functools.lru_cache, m_lru_cache), (functools.cache, m_cache),
        (getattr, m_getattr), (setattr, m_setattr), (hasattr, m_hasattr), (sum, m_sum),
        (np.dtype, m_dtype), (np.issubdtype, m_issubdtype), (np.result_type, m_result_type),
        (np.promote_types, lambda a, b: m_result_type(a, b)),
        (np.timedelta64, m_timedelta64),
        (collections.defaultdict, SxDefaultDict), (enumerate, m_enumerate),
        (re.compile, regex.compile), (re.match, regex.mod_match), (re.search, regex.mod_search),
        (re.fullmatch, regex.mod_fullmatch), (re.split, regex.mod_split),
        (re.sub, regex.mod_sub), (re.findall, regex.mod_findall),
        (re.finditer, regex.mod_finditer),
        (keyword.iskeyword, m_iskeyword),
        (copy.copy, lambda x: copy.copy(x)),
    ]:
        M[f] = m
    # operator functions
    for name, fn in [('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b),
                     ('lt', lambda a, b: a < b), ('le', lambda a, b: a <= b),
                     ('gt', lambda a, b: a > b), ('ge', lambda a, b: a >= b),
                     ('add', lambda a, b: a + b), ('sub', lambda a, b: a - b),
                     ('mul', lambda a, b: a * b), ('mod', lambda a, b: mod(a, b)),
                     ('floordiv', lambda a, b: a // b), ('truediv', lambda a, b: a / b),
                     ('neg', lambda a: -a), ('not_', lambda a: not a),
                     ('contains', lambda a, b: contains(a, b)),
                     ('getitem', lambda a, b: getitem(a, b)),
                     ('truth', lambda a: bool(a))]:
        M[getattr(operator, name)] = fn
    for f in [list, tuple, zip, reversed, iter, next, any, all, isinstance, issubclass,
              callable, id, super, property, staticmethod, classmethod, object, abs, divmod,
              round, pow, vars, dir, print, slice, operator.itemgetter, operator.attrgetter,
              operator.methodcaller, itertools.chain, itertools.islice, itertools.product,
              itertools.starmap, itertools.takewhile, itertools.dropwhile, itertools.count,
              itertools.repeat, itertools.cycle, itertools.permutations,
              itertools.combinations, itertools.tee, itertools.zip_longest,
              itertools.accumulate, itertools.groupby, collections.deque,
              types.MappingProxyType, types.SimpleNamespace, delattr]:
        PASS.add(f)
    for n in dir(builtins):
        o = getattr(builtins, n)
        if isinstance(o, type) and issubclass(o, BaseException):
            PASS.add(o)


_PASS_METHODS = {list: True, tuple: True, types.GeneratorType: True,
                 collections.deque: True}

_MODELLED_NATIVE = {str: SymStr, dict: SxDict, set: SxSet, frozenset: SxFrozenSet,
                    int: SymInt, collections.OrderedDict: SxOrderedDict}


def call(f, *a, **k):
    t = type(f)
    if t is types.FunctionType:
        if MARK in f.__globals__:
            return f(*a, **k)
        return call_py(f, a, k)
    if t is types.MethodType:
        fn = f.__func__
        if type(fn) is types.FunctionType:
            if MARK in fn.__globals__ or type(f.__self__) in SYMSET:
                return f(*a, **k)
            return call_py(f, a, k)
        return call(fn, f.__self__, *a, **k)
    if t is type or isinstance(f, type):
        try:
            m = MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*a, **k)
        if f in PASS:
            return f(*a, **k)
        if getattr(f, '__module__', '').startswith(_PREFIXES):
            return f(*a, **k)
        if issubclass(f, tuple) and hasattr(f, '_fields'):
            return f(*a, **k)
        if f in SYMSET or isinstance(f, type) and issubclass(f, (_SxMap, _SxSetBase)):
            return f(*a, **k)
        return native(f, a, k)
    if t is types.BuiltinFunctionType or t is types.BuiltinMethodType:
        try:
            m = MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*a, **k)
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            if f in PASS:
                return f(*a, **k)
            return native(f, a, k)
        return call_bound(f, s, a, k)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType \
            or t is types.ClassMethodDescriptorType:
        return call_descr(f, a, k)
    if t is types.MethodWrapperType:
        s = f.__self__
        name = f.__name__
        if type(s) in (str, int, tuple, dict, set, frozenset) and has_sym(a):
            if name == '__contains__':
                return contains(s, a[0])
            if name == '__getitem__':
                return getitem(s, a[0])
            if name == '__eq__':
                return s == a[0]
            if type(s) in _MODELLED_NATIVE and type(s) is str:
                return getattr(SymStr(chars(s)), name)(*a, **k)
        return f(*a, **k)
    if t is functools.partial:
        kk = dict(f.keywords)
        kk.update(k)
        return call(f.func, *(f.args + a), **kk)
    if t.__name__ == 'Dispatcher' and t.__module__.startswith('multipledispatch'):
        return call_dispatcher(f, a, k)
    if t is operator.itemgetter or t is operator.attrgetter:
        return f(*a, **k)
    if t is operator.methodcaller:
        _, (name, *margs) = f.__reduce__()[0], f.__reduce__()[1]
        return call(getattr(a[0], name), *margs)
    if t in (regex.SxPattern,):
        return f(*a, **k)
    if getattr(t, '__module__', '').startswith(_PREFIXES) or t.__module__.startswith('sx.'):
        return f(*a, **k)
    try:
        m = MODELS.get(f)       # array functions of NumPy have a type of their own
        if m is None and f in PASS:
            m = f
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    return native(f, a, k)


def call_py(f, a, k):
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    g = getattr(getattr(f, '__func__', f), '__globals__', None)
    if g is not None and g.get('__name__', '').startswith('sx.'):
        return f(*a, **k)
    return native(f, a, k)


def native(f, a, k):
    """an unmodelled native callable"""
    if (a and has_sym(a)) or (k and has_sym(tuple(k.values()))):
        NATIVE_PINS[getattr(f, '__name__', repr(f))] = \
            NATIVE_PINS.get(getattr(f, '__name__', repr(f)), 0) + 1
        import os
        if os.environ.get('SX_PINS'):
            import traceback
            print('PIN', f, a, ''.join(traceback.format_stack(limit=8)[:-1]), flush=True)
        a = concretise(a)
        k = dict((n, concretise(v)) for n, v in k.items())
    return f(*a, **k)


NATIVE_PINS = {}

_STR_CONSUMERS = {'join'}


def call_bound(f, s, a, k):
    """bound builtin method"""
    ts = type(s)
    name = f.__name__
    if ts is str:
        if name == 'join':
            items = list(a[0])
            for x in items:
                if type(x) is SymStr:
                    return SymStr(chars(s)).join(items)
            return s.join(items)
        if name == 'format':
            return str_format(s, a, k)
        if has_sym(a) or (k and has_sym(tuple(k.values()))):
            if name == '__mod__':
                return percent(s, a[0])
            return getattr(SymStr(chars(s)), name)(*a, **k)
        return f(*a, **k)
    if ts is list or ts is tuple or ts is types.GeneratorType or ts is collections.deque:
        if name == 'sort' and k.get('key') is not None:
            k['key'] = wrapf(k['key'])
        if name == 'index' and len(a) == 1 and has_sym(a):
            # without the native message, which needs the representation of the value
            for i, y in enumerate(s):
                if y is a[0] or y == a[0]:
                    return i
            raise ValueError(cat(sx_repr(a[0]), ' is not in list') if ts is list else
                             'tuple.index(x): x not in tuple')
        return f(*a, **k)
    if ts is slice:
        if name == 'indices' and (has_sym(s) or has_sym(a)):
            return slice_indices(s, *a)
        return f(*a, **k)
    if isinstance(s, (_SxMap, _SxSetBase)):
        return f(*a, **k)
    if ts is type or isinstance(s, type):
        # classmethods: dict.fromkeys, __new__ of builtins, object.__new__ ...
        if name == 'fromkeys':
            return (SxOrderedDict if issubclass(s, collections.OrderedDict) else SxDict
                    ).fromkeys(*a, **k)
        if name == 'from_iterable':
            return f(*a, **k)
        if name == 'strptime' and s.__module__ == 'datetime' and s.__name__ == 'datetime':
            return m_strptime(*a, **k)
        if name in ('__new__', 'mro', '__subclasses__', '__prepare__', '__subclasshook__',
                    '__instancecheck__', '__subclasscheck__'):
            return f(*a, **k)
        return native(f, a, k)
    if ts in (dict, collections.OrderedDict, types.MappingProxyType):
        if a and (type(a[0]) in SYMSET or (name in _KEYED and not _safe_concrete(a[0]))):
            if name == 'get':
                if contains_find(s, a[0]) is None:
                    return a[1] if len(a) > 1 else None
                return s[contains_find(s, a[0])]
            if name in ('__contains__', 'has_key'):
                return contains(s, a[0])
            if name == '__getitem__':
                return getitem(s, a[0])
        return f(*a, **k)
    if ts in (set, frozenset):
        if a and (has_sym(a) or any(isinstance(x, _SxSetBase) and x._sx for x in a)
                  or not _safe_concrete(a[0])):
            if name == '__contains__':
                return contains(s, a[0])
            return getattr((SxSet if ts is set else SxFrozenSet)(s), name)(*a, **k)
        return f(*a, **k)
    if ts in SYMSET:
        return f(*a, **k)
    if ts is itertools.chain or _is_instrumented_obj(s):
        return f(*a, **k)
    return native(f, a, k)


_KEYED = {'get', 'pop', 'setdefault', '__contains__', '__getitem__'}


def _safe_concrete(k):
    try:
        return _concrete_key(k)
    except TypeError:
        return True


def contains_find(d, k):
    for kk in list(d):
        if _key_eq(kk, k):
            return kk
    return None


def call_descr(f, a, k):
    """unbound builtin method: set.intersection(s, t), str.join(',', xs) ..."""
    name = f.__name__
    cls = f.__objclass__ if hasattr(f, '__objclass__') else None
    if a and cls in (str, dict, set, frozenset, int, collections.OrderedDict):
        s = a[0]
        if type(s) in SYMSET or isinstance(s, (_SxMap, _SxSetBase)):
            if name in ('__init__', '__new__', '__setattr__', '__getattribute__'):
                return f(*a, **k)
            m = getattr(s, name)
            return m(*a[1:], **k)
        if has_sym(a[1:]) or name == 'join':
            return call(getattr(s, name), *a[1:], **k)
        if cls in (set, frozenset) and any(isinstance(x, _SxSetBase) for x in a[1:]):
            return getattr((SxSet if cls is set else SxFrozenSet)(s), name)(*a[1:], **k)
    return f(*a, **k)


def call_dispatcher(d, a, k):
    """multipledispatch.Dispatcher.__call__ over the classes of the arguments"""
    from multipledispatch.dispatcher import MDNotImplementedError
    types_ = tuple(m_type(x) for x in a)
    func = d.dispatch(*types_)
    if not func:
        raise NotImplementedError('Could not find signature for %s: <%s>' % (
            d.name, ', '.join(t.__name__ for t in types_)))
    try:
        return call(func, *a, **k)
    except MDNotImplementedError:
        for func in list(d.dispatch_iter(*types_))[1:]:
            try:
                return call(func, *a, **k)
            except MDNotImplementedError:
                pass
        raise NotImplementedError('Matching functions for %s found, but none completed '
                                  'successfully' % d.name)


_install()
