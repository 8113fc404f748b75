"""The interface harnesses are written against.  The same harness source runs
instrumented with SymH (inputs are proxies) and natively with NatH (inputs are
the concrete values of one path)."""
from . import expr as X
from .engine import STATS, Engine, AssumeFailed, CheckFailed, Abort
from .proxies import SymInt, SymStr, mkstr, cv, SYMSET, mk

__sx_instrumented__ = True      # calls into this module are passed through


RESET = {}      # native or not -> bring the package back to its state after import
DOMS = {}       # harness -> variable -> domain, as the native runs see them


class HBase(object):
    def __init__(self, tier):
        self.tier = tier
        self._obs = []
        self.reached = set()

    def bound(self, quick, thorough):
        return quick if self.tier == 'quick' else thorough

    def bool(self, name):
        return self.choice(name, 2) == 1

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def text(self, name, lo, hi, alphabet):
        n = lo + self.choice(name + '.len', hi - lo + 1) if hi > lo else lo
        return self.join([self.char('%s[%d]' % (name, i), alphabet) for i in range(n)])

    def chars(self, name, n, alphabet):
        return self.join([self.char('%s[%d]' % (name, i), alphabet) for i in range(n)])

    def check(self, cond, msg, site=None):
        """property assertion; a callable is evaluated in assertion mode"""
        if not self.native:
            STATS.asserts += 1
        if callable(cond):
            cond = self._assert(cond)
        if not cond:
            raise CheckFailed(site or msg, msg)

    def eq(self, a, b, msg, site=None):
        self.check(lambda: a == b, msg, site)

    def fail(self, msg, site=None):
        raise CheckFailed(site or msg, msg)

    def reset(self):
        """forget everything the package remembers from earlier calls"""
        RESET[self.native]()

    def reach(self, tag):
        self.reached.add(tag)

    def obs(self, *xs):
        for x in xs:
            self._obs.append(_plain(x))


def _plain(x, d=6):
    x = cv(x)
    if isinstance(x, bool) or x is None or isinstance(x, (int, float)):
        return x if not isinstance(x, float) else repr(x)
    if isinstance(x, str):
        return x
    if isinstance(x, (list, tuple)) and d:
        return [_plain(y, d - 1) for y in x]
    if isinstance(x, type):
        return x.__name__
    return type(x).__name__


class SymH(HBase):
    native = False

    def __init__(self, tier, path):
        HBase.__init__(self, tier)
        self.path = path

    def int(self, name, lo, hi, default=None):
        if lo == hi:
            return lo
        a, v = self.path.new_var(name, lo, hi, default)
        return SymInt(X.of_atom(a), v)

    def choice(self, name, n):
        if n <= 1:
            return 0
        a, v = self.path.new_var(name, 0, n - 1)
        lo, hi = 0, n - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if self.path.branch(X.isin(a, ((lo, mid),)), v <= mid):
                hi = mid
            else:
                lo = mid + 1
        return lo

    def char(self, name, alphabet):
        alphabet = X.iv_norm(alphabet)
        lo, hi = alphabet[0][0], alphabet[-1][1]
        if lo == hi:
            return chr(lo)
        a, v = self.path.new_var(name, lo, hi)
        if not X.iv_has(alphabet, v):
            raise AssumeFailed('alphabet')
        if len(alphabet) > 1:
            self.path.branch(X.isin(a, alphabet), True, 'n')
        return mkstr((SymInt(X.of_atom(a), v),))

    def join(self, parts):
        out = []
        for p in parts:
            out.extend(p.cs if type(p) is SymStr else map(ord, p))
        return mkstr(out)

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def _assert(self, f):
        old = self.path.in_assert
        self.path.in_assert = True
        try:
            return bool(f())
        finally:
            self.path.in_assert = old

    def pin(self, x):
        """continue with the concrete value (splits the path value by value)"""
        return x.pin() if type(x) in SYMSET else x

    def show(self, x):
        return '<sym>'

    def pickle(self, x):
        """pickle.loads(pickle.dumps(x, protocol)) for package objects, following
        copyreg.__reduce_ex__(2) / __getstate__ / __setstate__"""
        from . import models

        def go(v):
            t = type(v)
            if t is tuple:
                return tuple([go(y) for y in v])
            if t is list:
                return [go(y) for y in v]
            if isinstance(v, dict):
                return models.SxDict([(go(k), go(y)) for k, y in v.items()])
            if isinstance(v, type) or not models._is_instrumented_obj(v):
                return v
            if '__reduce__' in _mro_dict(t) or '__reduce_ex__' in _mro_dict(t):
                r = v.__reduce_ex__(2) if '__reduce_ex__' in _mro_dict(t) else v.__reduce__()
                if isinstance(r, str):
                    return v
                o = models.call(r[0], *[go(y) for y in r[1]])
                if len(r) > 2 and r[2] is not None:
                    o.__setstate__(go(r[2]))
                return o
            args = ()
            gna = getattr(v, '__getnewargs__', None)
            if gna is not None:
                args = go(gna())
            state = v.__getstate__()
            new = t.__new__(t, *args)
            if state is not None:
                state = go(state)
                if hasattr(new, '__setstate__'):
                    new.__setstate__(state)
                elif isinstance(state, dict):
                    new.__dict__.update(state)
            return new
        return go(x)


def _mro_dict(t):
    out = set()
    for c in t.__mro__:
        if c is object:
            continue
        out.update(c.__dict__)
    return out


class NatH(HBase):
    native = True

    def __init__(self, tier, values, name=None):
        HBase.__init__(self, tier)
        self.doms = DOMS.setdefault(name, {})
        self.values = values
        self.used = {}

    def int(self, name, lo, hi, default=None):
        if lo == hi:
            return lo
        self.doms[name] = (lo, hi)
        v = self.values.get(name)
        if v is None or not lo <= v <= hi:
            v = lo if default is None else default
        self.used[name] = v
        return v

    def choice(self, name, n):
        return self.int(name, 0, n - 1) if n > 1 else 0

    def char(self, name, alphabet):
        alphabet = X.iv_norm(alphabet)
        lo, hi = alphabet[0][0], alphabet[-1][1]
        v = self.int(name, lo, hi)
        if not X.iv_has(alphabet, v):
            raise AssumeFailed('alphabet')
        return chr(v)

    def join(self, parts):
        return ''.join(parts)

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def _assert(self, f):
        return bool(f())

    def pin(self, x):
        return x

    def show(self, x):
        return repr(x)

    def pickle(self, x):
        import pickle
        return pickle.loads(pickle.dumps(x, 2))
