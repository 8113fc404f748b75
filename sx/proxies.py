"""Symbolic proxies.  Each carries a concrete value (.v) and a symbolic term.

Proxies are not subclasses of the types they stand for (their ``__class__``
says they are), so C code can never silently read a concrete value: it either
calls back into the proxy (``__index__``, ``__hash__``, ``__str__`` ... which
*pin* the value, i.e. add the equality to the path condition) or fails.
"""
import math
import operator

from . import expr as X
from .engine import Engine, STATS

NONE = object()


def ctx():
    return Engine.cur


def _lin(x):
    return x.l if type(x) is SymInt else X.const(int(x))


def _isnum(x):
    t = type(x)
    return t is SymInt or t is int or t is bool


def mk(l, v):
    if not l.t:
        return l.c
    return SymInt(l, v)


def cv(x):
    """shallow concrete value"""
    t = type(x)
    if t is SymInt or t is SymStr or t is SymRatio or t is SymFloat or t is SymHash \
            or t is SymOpaque:
        return x.v
    return x


class SymInt(object):
    __slots__ = ('l', 'v')

    def __init__(self, l, v):
        self.l = l
        self.v = v

    @property
    def __class__(self):
        return int

    # -- conversions that leave the symbolic world ---------------------
    def pin(self):
        ctx().pin(self.l, self.v)
        return self.v

    __index__ = pin
    __int__ = pin

    def __hash__(self):
        return hash(self.pin())

    def __float__(self):
        return float(self.pin())

    def __str__(self):
        return str(self.pin())

    def __repr__(self):
        return repr(self.pin())

    def __format__(self, spec):
        return format(self.pin(), spec)

    def __bool__(self):
        return ctx().branch(X.neg(X.eq(self.l)), self.v != 0)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(int, name):
            raise AttributeError("'int' object has no attribute %r" % name)
        if name in ('real', 'numerator'):
            return self
        if name == 'imag':
            return 0
        if name == 'denominator':
            return 1
        if name == 'is_integer':
            return lambda: True
        if name == 'conjugate':
            return lambda: self
        return getattr(self.pin(), name)

    def __reduce_ex__(self, proto):
        return (int, (self.pin(),))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- comparisons ---------------------------------------------------
    def __eq__(self, o):
        if _isnum(o):
            return ctx().branch(X.eq(X.add(self.l, _lin(o), -1)), self.v == cv(o))
        if isinstance(o, float):
            if type(o) is float and o.is_integer():
                return self == int(o)
            if type(o) is float:
                return False
            return NotImplemented       # the symbolic float compares
        if type(o) is SymHash:
            return o == self
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        if _isnum(o):
            return ctx().branch(X.le(X.add(self.l, _lin(o), -1)), self.v <= cv(o))
        if type(o) is float:
            if o != o:
                return False
            if math.isinf(o):
                return o > 0
            return self <= math.floor(o)
        return NotImplemented

    def __lt__(self, o):
        if _isnum(o):
            return ctx().branch(X.le(X.add(X.add(self.l, _lin(o), -1), X.const(1))),
                                self.v < cv(o))
        if type(o) is float:
            if o != o:
                return False
            if math.isinf(o):
                return o > 0
            return self < math.ceil(o)
        return NotImplemented

    def __ge__(self, o):
        if _isnum(o):
            return ctx().branch(X.le(X.add(_lin(o), self.l, -1)), self.v >= cv(o))
        if type(o) is float:
            if o != o:
                return False
            return not self < o
        return NotImplemented

    def __gt__(self, o):
        if _isnum(o):
            return ctx().branch(X.le(X.add(X.add(_lin(o), self.l, -1), X.const(1))),
                                self.v > cv(o))
        if type(o) is float:
            if o != o:
                return False
            return not self <= o
        return NotImplemented

    # -- arithmetic ----------------------------------------------------
    def __add__(self, o):
        if _isnum(o):
            return mk(X.add(self.l, _lin(o)), self.v + cv(o))
        if type(o) is float:
            return self.pin() + o
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if _isnum(o):
            return mk(X.add(self.l, _lin(o), -1), self.v - cv(o))
        if type(o) is float:
            return self.pin() - o
        return NotImplemented

    def __rsub__(self, o):
        if _isnum(o):
            return mk(X.add(_lin(o), self.l, -1), cv(o) - self.v)
        if type(o) is float:
            return o - self.pin()
        return NotImplemented

    def __mul__(self, o):
        if _isnum(o):
            return mk(X.mul(self.l, _lin(o)), self.v * cv(o))
        if type(o) is float:
            return self.pin() * o
        if isinstance(o, (str, list, tuple, bytes)):
            return o * self.pin()
        return NotImplemented

    __rmul__ = __mul__

    def __neg__(self):
        return mk(X.scale(self.l, -1), -self.v)

    def __pos__(self):
        return self

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        return -self if self < 0 else self

    def __floordiv__(self, o):
        if not _isnum(o):
            if type(o) is float:
                return self.pin() // o
            return NotImplemented
        return _divmod(self, o)[0]

    def __rfloordiv__(self, o):
        if not _isnum(o):
            if type(o) is float:
                return o // self.pin()
            return NotImplemented
        return _divmod(o, self)[0]

    def __mod__(self, o):
        if not _isnum(o):
            if type(o) is float:
                return self.pin() % o
            return NotImplemented
        return _divmod(self, o)[1]

    def __rmod__(self, o):
        if not _isnum(o):
            if type(o) is float:
                return o % self.pin()
            return NotImplemented
        return _divmod(o, self)[1]

    def __divmod__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _divmod(self, o)

    def __rdivmod__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _divmod(o, self)

    def __truediv__(self, o):
        if not _isnum(o):
            if type(o) is float:
                return self.pin() / o
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError('division by zero')
        return SymRatio(self, o)

    def __rtruediv__(self, o):
        if not _isnum(o):
            if type(o) is float:
                return o / self.pin()
            return NotImplemented
        if self == 0:
            raise ZeroDivisionError('division by zero')
        return SymRatio(o, self)

    def __pow__(self, o, m=None):
        if m is None and type(o) is int and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        if m is None:
            return pow(self.pin(), cv_pin(o))
        return pow(self.pin(), cv_pin(o), cv_pin(m))

    def __rpow__(self, o):
        return pow(o, self.pin())

    def _bit(name):
        def f(self, o):
            if type(o) is SymHash or isinstance(o, SymHash):
                return SymHash(name, (self, o))
            if not _isnum(o):
                return NotImplemented
            if type(o) is int and name in ('__and__', '__rand__'):
                if o >= 0 and not o & (o + 1):          # the low bits
                    return self % (o + 1)
                if o > 0 and not o & (o - 1):           # one bit
                    return self % (2 * o) - self % o
                if o < 0 and not ~o & (~o + 1):         # all but the low bits
                    return self - self % -o
            return getattr(self.pin(), name)(cv_pin(o))
        return f

    def __lshift__(self, o):
        if type(o) is int and o >= 0:
            return self * (1 << o)
        if _isnum(o):
            return self.pin() << cv_pin(o)
        return NotImplemented

    def __rlshift__(self, o):
        return o << self.pin()

    def __rshift__(self, o):
        if type(o) is int and o >= 0:
            return self // (1 << o)
        if _isnum(o):
            return self.pin() >> cv_pin(o)
        return NotImplemented

    def __rrshift__(self, o):
        return o >> self.pin()

    __and__ = _bit('__and__')
    __rand__ = _bit('__rand__')
    __or__ = _bit('__or__')
    __ror__ = _bit('__ror__')
    __xor__ = _bit('__xor__')
    __rxor__ = _bit('__rxor__')
    del _bit

    def __ceil__(self):
        return self

    __floor__ = __ceil__
    __trunc__ = __ceil__

    def __round__(self, n=None):
        return self


def cv_pin(x):
    t = type(x)
    if t is SymInt or t is SymStr or t is SymFloat or t is SymRatio or t is SymHash:
        return x.pin()
    return x


def _divmod(a, b):
    """python floor divmod, at least one side symbolic"""
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if b < 0:
        q, r = _divmod(-a, -b)
        return q, -r
    la, lb = _lin(a), _lin(b)
    va, vb = cv(a), cv(b)
    if lb.const:
        return (mk(X.floordiv_const(la, lb.c), va // vb),
                mk(X.mod_const(la, lb.c), va % vb))
    return (mk(X.floordiv_sym(la, lb), va // vb), mk(X.mod_sym(la, lb), va % vb))


class SymRatio(object):
    """a / b for integers, b != 0, as an exact rational.

    CPython's int/int true division is correctly rounded; ceil/floor/compare of
    the float agree with the exact rational whenever |a|, |b| < 2**26, which is
    far above every bound used in the harnesses (checked here)."""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        if b < 0:
            a, b = -a, -b
        self.a, self.b = a, b
        for x in (a, b):
            l = _lin(x)
            if l.lo < -(1 << 26) or l.hi > (1 << 26):
                cv_pin(x)

    @property
    def __class__(self):
        return float

    @property
    def v(self):
        return cv(self.a) / cv(self.b)

    def pin(self):
        return cv_pin(self.a) / cv_pin(self.b)

    def __ceil__(self):
        return -((-self.a) // self.b)

    def __floor__(self):
        return self.a // self.b

    def __trunc__(self):
        if self.a < 0:
            return -((-self.a) // self.b)
        return self.a // self.b

    __int__ = __trunc__

    def is_integer(self):
        return self.a % self.b == 0

    def __bool__(self):
        return self.a != 0

    def __eq__(self, o):
        if _isnum(o):
            return self.a == o * self.b
        if type(o) is SymRatio:
            return self.a * o.b == o.a * self.b
        return self.pin() == cv_pin(o)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        if _isnum(o):
            return self.a < o * self.b
        return self.pin() < cv_pin(o)

    def __le__(self, o):
        if _isnum(o):
            return self.a <= o * self.b
        return self.pin() <= cv_pin(o)

    def __gt__(self, o):
        return not self <= o

    def __ge__(self, o):
        return not self < o

    def __neg__(self):
        return SymRatio(-self.a, self.b)

    def __add__(self, o):
        if _isnum(o):
            return SymRatio(self.a + o * self.b, self.b)
        return self.pin() + cv_pin(o)

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __hash__(self):
        return hash(self.pin())

    def __float__(self):
        return self.pin()

    def __str__(self):
        return str(self.pin())

    __repr__ = __str__

    def __format__(self, spec):
        return format(self.pin(), spec)

    def __getattr__(self, name):
        if name.startswith('__') and name not in ('__mul__', '__rmul__'):
            raise AttributeError(name)
        return getattr(self.pin(), name)

    def __mul__(self, o):
        return self.pin() * cv_pin(o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.pin() / cv_pin(o)

    def __rtruediv__(self, o):
        return cv_pin(o) / self.pin()


class SymFloat(object):
    """float parsed from a symbolic string; only its type is symbolic-free,
    any look at the value pins the text it came from"""
    __slots__ = ('src', 'v', 'parts')

    def __init__(self, src, v, parts=None):
        self.src, self.v = src, v
        self.parts = parts      # (negative, integer digits, fraction digits) of a
        #                         short decimal text, whose value is then exact enough

    @property
    def __class__(self):
        return float

    def kind(self):
        """'text': digits; 'int': an integral value; 'sign': only the sign is known"""
        if self.parts is None:
            return None
        return self.parts[0] if isinstance(self.parts[0], str) else 'text'

    def is_integer(self):
        k = self.kind()
        if k == 'int':
            return True
        if k != 'text':
            return self.pin().is_integer()
        for c in self.parts[2]:
            if not c == 48:
                return False
        return True

    def trunc(self):
        k = self.kind()
        if k == 'int':
            return self.parts[1]
        if k != 'text':
            return int(self.pin())
        n = 0
        for c in self.parts[1]:
            n = n * 10 + (c - 48)
        return -n if self.parts[0] else n

    def scaled(self):
        """(value * 10**k, k) for a short decimal text"""
        if self.kind() != 'text':
            return self.parts[1], 0
        n = 0
        for c in tuple(self.parts[1]) + tuple(self.parts[2]):
            n = n * 10 + (c - 48)
        return (-n if self.parts[0] else n), len(self.parts[2])

    def _cmp(self, o, op):
        # at most 15 significant digits: distinct texts, distinct doubles, and the
        # rounding is monotone, so the order to a number of that kind is that of the texts
        if type(o) is float and o.is_integer():
            o = int(o)
        k = self.kind()
        if k == 'sign' and not (type(o) is int and o == 0):
            k = None
        if k is not None and type(o) is SymFloat and o.kind() in ('text', 'int'):
            (n, i), (m, j) = self.scaled(), o.scaled()
            return getattr(operator, op)(n * 10 ** j, m * 10 ** i)
        if k is None or not _isnum(o):
            return getattr(self.pin(), op)(cv_pin(o))
        n, k = self.scaled()
        return getattr(operator, op)(n, o * 10 ** k)

    def pin(self):
        self.src.pin()
        return self.v

    def __bool__(self):
        k = self.kind()
        if k is None:
            return bool(self.pin())
        if k != 'text':
            return bool(self.parts[1] != 0)
        return any(not c == 48 for c in tuple(self.parts[1]) + tuple(self.parts[2]))

    def __mod__(self, o):
        if type(o) in (int, float) and o == 1 and self.kind() in ('text', 'int'):
            if self.is_integer():
                return 0.0
            # between 0 and 1, which is all that parts have to tell
            return SymFloat(self.src, self.v % o, (False, (48,), self.parts[2]))
        return self.pin() % cv_pin(o)

    def __floordiv__(self, o):
        if type(o) in (int, float) and o == 1 and self.kind() in ('text', 'int'):
            return SymFloat(self.src, self.v // o, ('int', self.__floor__()))
        return self.pin() // cv_pin(o)

    def __divmod__(self, o):
        return self // o, self % o

    def __sub__(self, o):
        # whether it is zero, and on which side of it
        if _isnum(o) and type(o) is not float and self.kind() in ('text', 'int'):
            n, k = self.scaled()
            return SymFloat(self.src, self.v - cv(o), ('sign', n - o * 10 ** k))
        return self.pin() - cv_pin(o)

    def __neg__(self):
        k = self.kind()
        if k is None:
            return -self.pin()
        if k != 'text':
            return SymFloat(self.src, -self.v, (k, -self.parts[1]))
        return SymFloat(self.src, -self.v, (not self.parts[0],) + tuple(self.parts[1:]))

    def __abs__(self):
        k = self.kind()
        if k is None:
            return abs(self.pin())
        if k != 'text':
            return SymFloat(self.src, abs(self.v), (k, abs(self.parts[1])))
        return SymFloat(self.src, abs(self.v), (False,) + tuple(self.parts[1:]))

    def __trunc__(self):
        return self.trunc()

    def __floor__(self):
        k = self.kind()
        if k == 'int':
            return self.parts[1]
        if k != 'text':
            return math.floor(self.pin())
        return self.trunc() - (1 if self.parts[0] and not self.is_integer() else 0)

    def __ceil__(self):
        k = self.kind()
        if k == 'int':
            return self.parts[1]
        if k != 'text':
            return math.ceil(self.pin())
        return self.trunc() + (1 if not self.parts[0] and not self.is_integer() else 0)

    def __round__(self, *a):
        if self.kind() in ('text', 'int') and not a and self.is_integer():
            return self.trunc()
        return round(self.pin(), *map(cv_pin, a))

    def __hash__(self):
        return hash(self.pin())

    def __float__(self):
        return self.pin()

    def __int__(self):
        return int(self.pin())

    def __str__(self):
        return str(self.pin())

    def __repr__(self):
        return repr(self.pin())

    def __format__(self, spec):
        return format(self.pin(), spec)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.pin(), name)


def _fl(name):
    def f(self, *o):
        return getattr(self.pin(), name)(*[cv_pin(x) for x in o])
    f.__name__ = name
    return f


for _n in ('__add__ __radd__ '
           '__rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ '
           '__rfloordiv__ __rmod__ __pow__ __rpow__').split():
    setattr(SymFloat, _n, _fl(_n))
for _n in '__eq__ __ne__ __lt__ __le__ __gt__ __ge__'.split():
    setattr(SymFloat, _n, lambda self, o, _n=_n: self._cmp(o, _n))


class SymOpaque(object):
    """an object of another library built from symbolic parts: `attrs` are known
    without looking at the parts, anything else pins them"""
    __slots__ = ('_cls', 'v', 'src', 'attrs')

    def __init__(self, cls, v, src, attrs):
        self._cls, self.v, self.src, self.attrs = cls, v, src, attrs

    @property
    def __class__(self):
        return self._cls

    def pin(self):
        for x in self.src:
            if type(x) in SYMSET:
                x.pin()
        return self.v

    def __bool__(self):
        return bool(self.pin())

    def __hash__(self):
        return hash(self.pin())

    def __str__(self):
        return str(self.pin())

    def __repr__(self):
        return repr(self.pin())

    def __format__(self, spec):
        return format(self.pin(), spec)

    def __getattr__(self, name):
        if name in self.attrs:
            return self.attrs[name]
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.pin(), name)


class _H(object):
    __slots__ = ('h',)

    def __init__(self, h):
        self.h = h

    def __hash__(self):
        return self.h


class SymHash(object):
    """result of hash() on something symbolic: an opaque term.  Two terms are
    equal when built the same way from equal leaves; otherwise they are taken
    to differ (a reported difference is confirmed on the real hash)."""
    __slots__ = ('op', 'parts')

    def __init__(self, op, parts):
        self.op, self.parts = op, tuple(parts)

    @property
    def __class__(self):
        return int

    @property
    def v(self):
        vals = [cv(p) for p in self.parts]
        if self.op == 'tuple':
            return hash(tuple(_H(x) for x in vals))
        if self.op == 'str':
            return hash(vals[0])
        if self.op == 'fset':
            return hash(frozenset(_H(x) for x in vals))
        r = getattr(vals[0], self.op)(*vals[1:])
        return r

    def pin(self):
        for p in self.parts:
            cv_pin(p)
        return self.v

    __index__ = pin
    __int__ = pin

    def __hash__(self):
        return hash(self.pin())

    def __str__(self):
        return str(self.pin())

    __repr__ = __str__

    def __bool__(self):
        return bool(self.pin())

    def _same(self, o):
        if self.op != o.op or len(self.parts) != len(o.parts):
            return False
        for a, b in zip(self.parts, o.parts):
            if not a == b:
                return False
        return True

    def __eq__(self, o):
        if type(o) is SymHash:
            if self._same(o):
                return True
            if self.op == '__xor__' and o.op == '__xor__':
                return self._same(SymHash(o.op, o.parts[::-1]))
            return False
        if isinstance(o, int):
            return self.pin() == cv_pin(o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _op(name, swap=False):
        def f(self, o):
            if isinstance(o, int):
                return SymHash(name, (o, self) if swap else (self, o))
            return NotImplemented
        return f

    __xor__ = _op('__xor__')
    __rxor__ = _op('__xor__')
    __add__ = _op('__add__')
    __radd__ = _op('__add__', True)
    __mul__ = _op('__mul__')
    __rmul__ = _op('__mul__', True)
    __and__ = _op('__and__')
    __or__ = _op('__or__')
    __mod__ = _op('__mod__')
    __sub__ = _op('__sub__')
    __rsub__ = _op('__sub__', True)
    __floordiv__ = _op('__floordiv__')
    __lshift__ = _op('__lshift__')
    __rshift__ = _op('__rshift__')
    del _op


# ----------------------------------------------------------------------
# characters and strings
# ----------------------------------------------------------------------

_charsets = {}
_MAXU = 0x10ffff


def charset(name, pred):
    s = _charsets.get(name)
    if s is None:
        out = []
        start = None
        for i in range(_MAXU + 2):
            ok = i <= _MAXU and pred(chr(i))
            if ok and start is None:
                start = i
            elif not ok and start is not None:
                out.append((start, i - 1))
                start = None
        s = _charsets[name] = tuple(out)
    return s


def cs_space():
    return charset('space', str.isspace)


def cs_alpha():
    return charset('alpha', str.isalpha)


def cs_alnum():
    return charset('alnum', str.isalnum)


def cs_digit():
    return charset('digit', str.isdigit)


def cs_decimal():
    return charset('decimal', str.isdecimal)


def cs_upper():
    return charset('upper', str.isupper)


def cs_lower():
    return charset('lower', str.islower)


def cs_title():
    return charset('title', lambda c: c.istitle() and not c.isupper())


def cs_print():
    return charset('print', str.isprintable)


def cs_numeric():
    return charset('numeric', str.isnumeric)


ASCII_DIGITS = ((48, 57),)


def ch_in(c, ivs):
    """condition: code point c (int or SymInt) lies in ivs"""
    if type(c) is int:
        return X.TRUE if X.iv_has(ivs, c) else X.FALSE
    return X.lin_in(c.l, ivs)


def br(cond, val):
    return ctx().branch(cond, val)


def ch_test(c, ivs):
    """branch on c in ivs"""
    if type(c) is int:
        return X.iv_has(ivs, c)
    return br(X.lin_in(c.l, ivs), X.iv_has(ivs, c.v))


def ch_eq(a, b):
    if type(a) is int and type(b) is int:
        return X.TRUE if a == b else X.FALSE
    return X.eq(X.add(_lin(a), _lin(b), -1))


def chars(s):
    t = type(s)
    if t is SymStr:
        return s.cs
    return tuple(map(ord, s))


def mkstr(cs):
    cs = tuple(cs)
    for c in cs:
        if type(c) is not int:
            return SymStr(cs)
    return ''.join(map(chr, cs))


def isstr(x):
    t = type(x)
    return t is SymStr or t is str or (t is not SymInt and isinstance(x, str))


def seq_eq_cond(a, b):
    if len(a) != len(b):
        return X.FALSE
    return X.conj([ch_eq(x, y) for x, y in zip(a, b)])


class SymStr(object):
    __slots__ = ('cs', '_v')

    def __init__(self, cs):
        self.cs = cs
        self._v = None

    @property
    def __class__(self):
        return str

    @property
    def v(self):
        if self._v is None:
            self._v = ''.join(chr(cv(c)) for c in self.cs)
        return self._v

    def pin(self):
        for c in self.cs:
            if type(c) is SymInt:
                c.pin()
        return self.v

    __str__ = pin

    def __repr__(self):
        return repr(self.pin())

    def __hash__(self):
        return hash(self.pin())

    def __format__(self, spec):
        return format(self.pin(), spec)

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __iter__(self):
        for c in self.cs:
            yield mkstr((c,))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, proto):
        return (str, (self.pin(),))

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*[None if x is None else cv_pin(x)
                        for x in (k.start, k.stop, k.step)])
            return mkstr(self.cs[k])
        if isinstance(k, int):
            try:
                return mkstr((self.cs[cv_pin(k)],))
            except IndexError:
                raise IndexError('string index out of range')
        if hasattr(type(k), '__index__'):
            return mkstr((self.cs[k.__index__()],))
        raise TypeError('string indices must be integers')

    def __add__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkstr(self.cs + chars(o))

    def __radd__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkstr(chars(o) + self.cs)

    def __mul__(self, n):
        if not isinstance(n, int):
            return NotImplemented
        return mkstr(self.cs * cv_pin(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        from . import models
        return models.percent(self, args)

    def __rmod__(self, fmt):
        from . import models
        if isstr(fmt):
            return models.percent(fmt, self)
        return NotImplemented

    def __eq__(self, o):
        if not isstr(o):
            return NotImplemented
        return br(seq_eq_cond(self.cs, chars(o)), self.v == cv(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _ltc(self, o, or_equal):
        a, b = self.cs, chars(o)
        n = min(len(a), len(b))
        if len(a) < len(b):
            res = X.TRUE
        elif len(a) > len(b):
            res = X.FALSE
        else:
            res = X.TRUE if or_equal else X.FALSE
        for i in range(n - 1, -1, -1):
            d = X.add(_lin(a[i]), _lin(b[i]), -1)
            lt = X.le(X.add(d, X.const(1)))
            res = X.disj([lt, X.conj([X.eq(d), res])])
        return res

    def __lt__(self, o):
        if not isstr(o):
            return NotImplemented
        return br(self._ltc(o, False), self.v < cv(o))

    def __le__(self, o):
        if not isstr(o):
            return NotImplemented
        return br(self._ltc(o, True), self.v <= cv(o))

    def __gt__(self, o):
        if not isstr(o):
            return NotImplemented
        return br(X.neg(self._ltc(o, True)), self.v > cv(o))

    def __ge__(self, o):
        if not isstr(o):
            return NotImplemented
        return br(X.neg(self._ltc(o, False)), self.v >= cv(o))

    def __contains__(self, sub):
        if not isstr(sub):
            raise TypeError("'in <string>' requires string as left operand")
        s = chars(sub)
        n = len(s)
        c = X.disj([seq_eq_cond(self.cs[i:i + n], s)
                    for i in range(len(self.cs) - n + 1)])
        return br(c, cv(sub) in self.v)

    # -- predicates ----------------------------------------------------
    def _all(self, ivs, val):
        if not self.cs:
            return False
        return br(X.conj([ch_in(c, ivs) for c in self.cs]), val)

    def isalpha(self):
        return self._all(cs_alpha(), self.v.isalpha())

    def isalnum(self):
        return self._all(cs_alnum(), self.v.isalnum())

    def isdigit(self):
        return self._all(cs_digit(), self.v.isdigit())

    def isdecimal(self):
        return self._all(cs_decimal(), self.v.isdecimal())

    def isnumeric(self):
        return self._all(cs_numeric(), self.v.isnumeric())

    def isspace(self):
        return self._all(cs_space(), self.v.isspace())

    def isascii(self):
        return br(X.conj([ch_in(c, ((0, 127),)) for c in self.cs]), self.v.isascii())

    def isprintable(self):
        return br(X.conj([ch_in(c, cs_print()) for c in self.cs]), self.v.isprintable())

    def isupper(self):
        bad = X.iv_norm(cs_lower() + cs_title())
        c = X.conj([X.disj([ch_in(x, cs_upper()) for x in self.cs])] +
                   [X.neg(ch_in(x, bad)) for x in self.cs])
        return br(c, self.v.isupper())

    def islower(self):
        bad = X.iv_norm(cs_upper() + cs_title())
        c = X.conj([X.disj([ch_in(x, cs_lower()) for x in self.cs])] +
                   [X.neg(ch_in(x, bad)) for x in self.cs])
        return br(c, self.v.islower())

    def isidentifier(self):
        if not self.cs:
            return False
        first = charset('idstart', str.isidentifier)
        rest = charset('idcont', lambda c: ('a' + c).isidentifier())
        c = X.conj([ch_in(self.cs[0], first)] + [ch_in(x, rest) for x in self.cs[1:]])
        return br(c, self.v.isidentifier())

    # -- search --------------------------------------------------------
    def _range(self, start, end):
        n = len(self.cs)
        start = 0 if start is None else cv_pin(start)
        end = n if end is None else cv_pin(end)
        return slice(start, end).indices(n)[:2]

    def _at(self, i, s, end=None):
        """branch: s occurs at position i"""
        part = self.cs[i:i + len(s)]
        if len(part) != len(s) or (end is not None and i + len(s) > end):
            return False
        c = seq_eq_cond(part, s)
        return br(c, all(cv(x) == cv(y) for x, y in zip(part, s)))

    def find(self, sub, start=None, end=None):
        if not isstr(sub):
            raise TypeError('must be str, not %s' % type(sub).__name__)
        n = len(self.cs)
        st = 0 if start is None else cv_pin(start)
        if st > n:
            return -1
        i, e = self._range(start, end)
        s = chars(sub)
        while i + len(s) <= e:
            if self._at(i, s, e):
                return i
            i += 1
        return -1

    def rfind(self, sub, start=None, end=None):
        if not isstr(sub):
            raise TypeError('must be str, not %s' % type(sub).__name__)
        n = len(self.cs)
        st = 0 if start is None else cv_pin(start)
        if st > n:
            return -1
        b, e = self._range(start, end)
        s = chars(sub)
        i = e - len(s)
        while i >= b:
            if self._at(i, s, e):
                return i
            i -= 1
        return -1

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub, start=None, end=None):
        n = len(self.cs)
        st = 0 if start is None else cv_pin(start)
        i, e = self._range(start, end)
        s = chars(sub)
        if not s:
            return max(0, e - i + 1) if st <= n else 0
        k = 0
        while i + len(s) <= e:
            if self._at(i, s, e):
                k += 1
                i += len(s)
            else:
                i += 1
        return k

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        if not isstr(p):
            raise TypeError('startswith first arg must be str or a tuple of str')
        b, e = self._range(start, end)
        if e < b:
            return False
        return self._at(b, chars(p), e)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(q, start, end) for q in p)
        if not isstr(p):
            raise TypeError('endswith first arg must be str or a tuple of str')
        b, e = self._range(start, end)
        i = e - len(chars(p))
        if i < b:
            return False
        return self._at(i, chars(p), e)

    # -- splitting -----------------------------------------------------
    def _stripset(self, chs):
        if chs is None:
            return lambda c: ch_test(c, cs_space())
        cc = chars(chs)
        if all(type(c) is int for c in cc):
            ivs = X.iv_norm([(c, c) for c in cc])
            return lambda c: ch_test(c, ivs)
        return lambda c: br(X.disj([ch_eq(c, d) for d in cc]),
                            cv(c) in [cv(d) for d in cc])

    def lstrip(self, chs=None):
        f = self._stripset(chs)
        i = 0
        while i < len(self.cs) and f(self.cs[i]):
            i += 1
        return mkstr(self.cs[i:])

    def rstrip(self, chs=None):
        f = self._stripset(chs)
        i = len(self.cs)
        while i > 0 and f(self.cs[i - 1]):
            i -= 1
        return mkstr(self.cs[:i])

    def strip(self, chs=None):
        f = self._stripset(chs)
        i, j = 0, len(self.cs)
        while i < j and f(self.cs[i]):
            i += 1
        while j > i and f(self.cs[j - 1]):
            j -= 1
        return mkstr(self.cs[i:j])

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.cs) - len(p)] if len(p) and self.endswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        out = []
        maxsplit = cv_pin(maxsplit)
        if sep is None:
            i, n = 0, len(self.cs)
            while True:
                while i < n and ch_test(self.cs[i], cs_space()):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mkstr(self.cs[i:]).rstrip())
                    return out
                j = i
                while j < n and not ch_test(self.cs[j], cs_space()):
                    j += 1
                out.append(mkstr(self.cs[i:j]))
                i = j
        if not len(sep):
            raise ValueError('empty separator')
        i = 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(mkstr(self.cs[i:j]))
            i = j + len(sep)
        out.append(mkstr(self.cs[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if cv(maxsplit) < 0:
            return self.split(sep)
        return [x for x in self.pin().rsplit(cv_pin(sep), cv_pin(maxsplit))]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (mkstr(self.cs[:i]), sep, mkstr(self.cs[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (mkstr(self.cs[:i]), sep, mkstr(self.cs[i + len(sep):]))

    def splitlines(self, keepends=False):
        brk = X.iv_norm([(10, 13), (0x1c, 0x1e), (0x85, 0x85), (0x2028, 0x2029)])
        out, i, n = [], 0, len(self.cs)
        while i < n:
            j = i
            while j < n and not ch_test(self.cs[j], brk):
                j += 1
            e = j
            if j < n:
                if (j + 1 < n and ch_test(self.cs[j], ((13, 13),)) and
                        ch_test(self.cs[j + 1], ((10, 10),))):
                    j += 2
                else:
                    j += 1
            out.append(mkstr(self.cs[i:j if keepends else e]))
            i = j
        return out

    def replace(self, old, new, count=-1):
        count = cv_pin(count)
        o, nw = chars(old), chars(new)
        if not o:
            return self.pin().replace(cv_pin(old), cv_pin(new), count)
        out, i, k = [], 0, 0
        while i < len(self.cs):
            if (count < 0 or k < count) and self._at(i, o):
                out.extend(nw)
                i += len(o)
                k += 1
            else:
                out.append(self.cs[i])
                i += 1
        return mkstr(out)

    def join(self, items):
        out = []
        first = True
        for x in items:
            if not isstr(x):
                raise TypeError('sequence item 0: expected str instance, %s found'
                                % x.__class__.__name__)
            if not first:
                out.extend(self.cs)
            out.extend(chars(x))
            first = False
        return mkstr(out)

    # -- case ----------------------------------------------------------
    def _case(self, to):
        out = []
        for c in self.cs:
            if type(c) is int:
                out.extend(map(ord, getattr(chr(c), to)()))
            elif c.l.hi < 128:
                if to == 'lower' or to == 'casefold':
                    out.append(c + 32 if ch_test(c, ((65, 90),)) else c)
                else:
                    out.append(c - 32 if ch_test(c, ((97, 122),)) else c)
            elif ch_test(c, ((0, 127),)):
                if to == 'lower' or to == 'casefold':
                    out.append(c + 32 if ch_test(c, ((65, 90),)) else c)
                else:
                    out.append(c - 32 if ch_test(c, ((97, 122),)) else c)
            else:
                out.extend(map(ord, getattr(chr(c.pin()), to)()))
        return mkstr(out)

    def lower(self):
        return self._case('lower')

    def upper(self):
        return self._case('upper')

    def casefold(self):
        return self._case('casefold')

    def capitalize(self):
        if not self.cs:
            return ''
        return mkstr(chars(mkstr(self.cs[:1]).upper()) + chars(mkstr(self.cs[1:]).lower()))

    # -- justification -------------------------------------------------
    def ljust(self, w, fill=' '):
        w = cv_pin(w)
        return mkstr(self.cs + chars(fill) * max(0, w - len(self.cs)))

    def rjust(self, w, fill=' '):
        w = cv_pin(w)
        return mkstr(chars(fill) * max(0, w - len(self.cs)) + self.cs)

    def format(self, *a, **k):
        from . import models
        return models.str_format(self.pin(), a, k)

    def encode(self, *a, **k):
        enc = a[0] if a else k.get('encoding', 'utf-8')
        if enc == 'unicode_escape':
            return SymEscaped(self)
        if str(enc).lower().replace('_', '-') in ('ascii', 'us-ascii', 'utf-8', 'utf8', 'latin-1',
                                                  'latin1'):
            if all(ch_test(c, ((0, 127),)) for c in self.cs):
                return SymBytes(self)
        return self.pin().encode(*a, **k)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)
        return getattr(self.pin(), name)


class SymBytes(object):
    """ascii text in bytes"""

    def __init__(self, s):
        self.s = s

    @property
    def __class__(self):
        return bytes

    def decode(self, enc='utf-8', errors='strict'):
        e = enc.lower().replace('_', '-')
        if e in ('ascii', 'us-ascii', 'utf-8', 'utf8', 'latin-1', 'latin1'):
            return self.s
        if e == 'unicode-escape' and not any(ch_test(c, ((34, 34), (10, 10), (13, 13)))
                                             for c in self.s.cs):
            from . import models
            r = models.py_string_literal(mkstr((34,) + tuple(self.s.cs) + (34,)))
            if r is not None:
                return r
        return self.s.pin().encode('ascii').decode(enc, errors)

    def __len__(self):
        return len(self.s.cs)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.s.pin().encode('ascii'), name)


class SymEscaped(object):
    """s.encode('unicode_escape') waiting for .decode('ascii')"""

    def __init__(self, s):
        self.s = s

    @property
    def __class__(self):
        return bytes

    def decode(self, enc='utf-8', errors='strict'):
        out = []
        for c in self.s.cs:
            if type(c) is int:
                out.extend(map(ord, chr(c).encode('unicode_escape').decode('ascii')))
            elif ch_test(c, ((92, 92),)):
                out.extend((92, 92))
            elif ch_test(c, ((32, 126),)):
                out.append(c)
            else:
                out.extend(map(ord, chr(c.pin()).encode('unicode_escape').decode('ascii')))
        return mkstr(out)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.s.pin().encode('unicode_escape'), name)


# ----------------------------------------------------------------------
# ranges and slices
# ----------------------------------------------------------------------

class SymRange(object):
    """range() with a symbolic bound (step sign decided by branching)"""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    @property
    def __class__(self):
        return range

    def size(self):
        if self.step > 0:
            d = self.stop - self.start
            if d <= 0:
                return 0
            return (d + self.step - 1) // self.step
        d = self.start - self.stop
        if d <= 0:
            return 0
        s = -self.step
        return (d + s - 1) // s

    def __len__(self):
        return cv_pin(self.size())

    def __bool__(self):
        return self.size() != 0

    def __iter__(self):
        i = self.start
        up = self.step > 0
        while (i < self.stop) if up else (i > self.stop):
            yield i
            i = i + self.step

    def __getitem__(self, k):
        if isinstance(k, slice):
            return range(cv_pin(self.start), cv_pin(self.stop), cv_pin(self.step))[
                slice(*[None if x is None else cv_pin(x) for x in (k.start, k.stop, k.step)])]
        n = self.size()
        if k < 0:
            k = k + n
        if k < 0 or k >= n:
            raise IndexError('range object index out of range')
        return self.start + k * self.step

    def __contains__(self, x):
        if not _isnum(x):
            return False
        if self.step > 0:
            if x < self.start or x >= self.stop:
                return False
        elif x > self.start or x <= self.stop:
            return False
        return (x - self.start) % self.step == 0

    def __eq__(self, o):
        if not isinstance(o, range):
            return NotImplemented
        a, b = self.size(), (o.size() if type(o) is SymRange else len(o))
        if a != b:
            return False
        if a == 0:
            return True
        if self.start != o.start:
            return False
        return True if a == 1 else self.step == o.step

    def __hash__(self):
        return hash(range(cv_pin(self.start), cv_pin(self.stop), cv_pin(self.step)))

    def count(self, x):
        return 1 if x in self else 0


def slice_indices(s, n):
    """slice.indices with symbolic parts (PySlice_Unpack/AdjustIndices)"""
    def ix(x):
        if _isnum(x):
            return x
        return x.__index__()
    n = ix(n)
    if n < 0:
        raise ValueError('length should not be negative')
    step = 1 if s.step is None else ix(s.step)
    if step == 0:
        raise ValueError('slice step cannot be zero')
    negstep = step < 0
    if negstep:
        lower, upper = -1, n - 1
    else:
        lower, upper = 0, n

    def clip(x, default):
        if x is None:
            return default
        x = ix(x)
        if x < 0:
            x = x + n
            if x < lower:
                x = lower
        elif x > upper:
            x = upper
        return x
    start = clip(s.start, upper if negstep else lower)
    stop = clip(s.stop, lower if negstep else upper)
    return (start, stop, step)


for _n in '__eq__ __ne__ __lt__ __le__ __gt__ __ge__ __add__ __radd__ __sub__ __rsub__'.split():
    setattr(SymOpaque, _n, _fl(_n))

SYM = (SymInt, SymStr, SymRatio, SymFloat, SymHash, SymRange, SymEscaped, SymOpaque)
SYMSET = set(SYM)
