"""Hash-consed integer / boolean expressions, interval sets, z3 conversion.

Integer expressions are kept in linear normal form over *atoms*:

    Lin(const, ((atom, coef), ...))        atoms sorted by id

An atom is a variable or a non-linear term (product of two symbolic terms,
floor division / modulus by a constant, decimal digit of a term).  All
expressions are interned in process-wide tables so that structurally equal
conditions met on different paths share one object, one z3 AST and one entry
in the query cache.
"""
import zlib

import z3

_ids = [0]


def _next():
    _ids[0] += 1
    return _ids[0]


# --------------------------------------------------------------------------
# interval sets: sorted tuples of disjoint (lo, hi), both inclusive
# --------------------------------------------------------------------------

def iv_norm(pairs):
    out = []
    for lo, hi in sorted(pairs):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def iv_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = a[i][0] if a[i][0] > b[j][0] else b[j][0]
        hi = a[i][1] if a[i][1] < b[j][1] else b[j][1]
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def iv_sub(a, b):
    out = []
    j = 0
    for lo, hi in a:
        cur = lo
        while j < len(b) and b[j][1] < cur:
            j += 1
        k = j
        while k < len(b) and b[k][0] <= hi:
            if b[k][0] > cur:
                out.append((cur, b[k][0] - 1))
            if b[k][1] + 1 > cur:
                cur = b[k][1] + 1
            k += 1
        if cur <= hi:
            out.append((cur, hi))
    return tuple(out)


def iv_has(a, x):
    for lo, hi in a:
        if lo <= x <= hi:
            return True
    return False


def iv_size(a):
    return sum(hi - lo + 1 for lo, hi in a)


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------

class Atom(object):
    __slots__ = ('id', 'k', 'op', 'args', 'lo', 'hi', 'vars', '_z')

    def __repr__(self):
        if self.op == 'var':
            return self.args[0]
        return '%s%r' % (self.op, self.args)

    def z(self):
        if self._z is None:
            op, args = self.op, self.args
            if op == 'var':
                self._z = z3.Int('%s@%d..%d' % (args[0], self.lo, self.hi))
            elif op == 'mul':
                self._z = args[0].z() * args[1].z()
            elif op == 'div':        # floor division by positive constant
                self._z = args[0].z() / args[1]
            elif op == 'mod':        # modulus by positive constant
                self._z = args[0].z() % args[1]
            elif op == 'top':        # leading decimal digit e // 10**k
                self._z = args[0].z() / (10 ** args[1])
            elif op == 'dig':        # decimal digit (e // 10**k) % 10
                self._z = (args[0].z() / (10 ** args[1])) % 10
            elif op == 'sdiv':       # floor division symbolic by symbolic > 0
                self._z = args[0].z() / args[1].z()
            elif op == 'smod':
                self._z = args[0].z() % args[1].z()
            elif op == 'hex':        # character of a hexadecimal digit
                d = args[0].z()
                self._z = z3.If(d <= 9, d + 48, d + 87)
            else:
                raise AssertionError(op)
        return self._z


_atoms = {}


def atom(op, args, lo, hi, vars):
    key = (op, tuple(a.id if isinstance(a, (Lin, Atom)) else a for a in args), lo, hi)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = _next()
        # the same in every process, so that normal forms are
        a.k = zlib.crc32(repr((op, [b.k if isinstance(b, (Lin, Atom)) else b for b in args],
                               lo, hi)).encode())
        a.op, a.args, a.lo, a.hi = op, args, lo, hi
        a._z = None
        a.vars = vars if vars is not None else frozenset((a,))
        _atoms[key] = a
    return a


def var(name, lo, hi):
    return atom('var', (name,), lo, hi, None)


# --------------------------------------------------------------------------
# linear expressions
# --------------------------------------------------------------------------

class Lin(object):
    __slots__ = ('id', 'k', 'c', 't', 'lo', 'hi', 'vars', '_z')

    def __repr__(self):
        return ' + '.join(['%d' % self.c] + ['%d*%r' % (k, a) for a, k in self.t])

    def z(self):
        if self._z is None:
            terms = []
            for a, k in self.t:
                terms.append(a.z() if k == 1 else a.z() * k)
            r = terms[0] if len(terms) == 1 else z3.Sum(terms) if terms else z3.IntVal(0)
            if self.c or not terms:
                r = r + self.c if terms else z3.IntVal(self.c)
            self._z = r
        return self._z

    @property
    def const(self):
        return not self.t


_lins = {}


def _recombine(terms):
    """m*k*(y // k) + m*(y % k)  ->  m*y"""
    d = dict(terms)
    c = 0
    again = True
    while again:
        again = False
        for a, m in list(d.items()):
            if a.op != 'mod':
                continue
            y, k = a.args
            q = floordiv_const(y, k)
            if len(q.t) == 1 and not q.c and d.get(q.t[0][0]) == m * k * q.t[0][1]:
                del d[a]
                del d[q.t[0][0]]
                c += m * y.c
                for b, n in y.t:
                    d[b] = d.get(b, 0) + m * n
                    if not d[b]:
                        del d[b]
                again = True
                break
    return c, d.items()


def lin(c, terms):
    terms = tuple(sorted(((a, k) for a, k in terms if k), key=lambda p: p[0].k))
    if len(terms) > 1 and any(a.op == 'mod' for a, k in terms):
        e, terms = _recombine(terms)
        c += e
        terms = tuple(sorted(terms, key=lambda p: p[0].k))
    key = (c, tuple((a.id, k) for a, k in terms))
    l = _lins.get(key)
    if l is None:
        l = Lin()
        l.id = _next()
        l.k = zlib.crc32(repr((c, [(a.k, k) for a, k in terms])).encode())
        l.c, l.t = c, terms
        lo = hi = c
        vs = frozenset()
        for a, k in terms:
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
            vs |= a.vars
        l.lo, l.hi, l.vars = lo, hi, vs
        l._z = None
        _lins[key] = l
    return l


def const(c):
    return lin(c, ())


def of_atom(a):
    return lin(0, ((a, 1),))


def add(x, y, s=1):
    if not y.t:
        return lin(x.c + s * y.c, x.t)
    d = dict(x.t)
    for a, k in y.t:
        d[a] = d.get(a, 0) + s * k
    return lin(x.c + s * y.c, d.items())


def scale(x, k):
    return lin(x.c * k, tuple((a, c * k) for a, c in x.t))


def mul(x, y):
    if not x.t:
        return scale(y, x.c)
    if not y.t:
        return scale(x, y.c)
    if x.k > y.k:
        x, y = y, x
    ps = (x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi)
    return of_atom(atom('mul', (x, y), min(ps), max(ps), x.vars | y.vars))


def floordiv_const(x, k):
    """x // k for constant k > 0 (python floor semantics == z3 div for k>0)."""
    assert k > 0
    if k == 1:
        return x
    if x.lo // k == x.hi // k:
        return const(x.lo // k)
    if len(x.t) == 1 and not x.c and x.t[0][1] == 1 and x.t[0][0].op == 'div':
        y, j = x.t[0][0].args
        return floordiv_const(y, j * k)
    if all(c % k == 0 for _, c in x.t):
        return lin(x.c // k, tuple((a, c // k) for a, c in x.t))
    return of_atom(atom('div', (x, k), x.lo // k, x.hi // k, x.vars))


def mod_const(x, k):
    assert k > 0
    if k == 1:
        return const(0)
    y = lin(x.c % k, tuple((a, c % k) for a, c in x.t))
    if not y.t:
        return const(y.c % k)
    if y.lo >= 0 and y.hi < k:
        return y
    return of_atom(atom('mod', (y, k), 0, k - 1, y.vars))


HEXDIGITS = ((48, 57), (97, 102))


def hexchar(d):
    """character code of the lower-case hexadecimal digit d"""
    if d.const:
        return const(d.c + 48 if d.c <= 9 else d.c + 87)
    if d.lo < 0 or d.hi > 15:
        raise ValueError('not a digit')
    return of_atom(atom('hex', (d,), 48 if d.lo <= 9 else 97, 57 if d.hi <= 9 else 102, d.vars))


def floordiv_sym(x, y):
    m = max(abs(x.lo), abs(x.hi))
    return of_atom(atom('sdiv', (x, y), -m - 1, m + 1, x.vars | y.vars))


def mod_sym(x, y):
    return of_atom(atom('smod', (x, y), 0, max(0, y.hi - 1), x.vars | y.vars))


# --------------------------------------------------------------------------
# boolean conditions
# --------------------------------------------------------------------------

class Cond(object):
    """op: 'in' (atom, intervals) | 'le' (lin <= 0) | 'eq' (lin == 0)
           | 'and' | 'or' | 'not'   -- 'T'/'F' are the singletons TRUE/FALSE"""
    __slots__ = ('id', 'op', 'args', 'vars', '_z', '_neg')

    def __repr__(self):
        return '%s%r' % (self.op, self.args)

    def z(self):
        if self._z is None:
            op, args = self.op, self.args
            if op == 'in':
                x = args[0].z()
                parts = []
                for lo, hi in args[1]:
                    if lo == hi:
                        parts.append(x == lo)
                    elif lo <= args[0].lo:
                        parts.append(x <= hi)
                    elif hi >= args[0].hi:
                        parts.append(x >= lo)
                    else:
                        parts.append(z3.And(x >= lo, x <= hi))
                self._z = parts[0] if len(parts) == 1 else z3.Or(parts)
            elif op == 'le':
                self._z = args[0].z() <= 0
            elif op == 'eq':
                self._z = args[0].z() == 0
            elif op == 'and':
                self._z = z3.And([a.z() for a in args])
            elif op == 'or':
                self._z = z3.Or([a.z() for a in args])
            elif op == 'not':
                self._z = z3.Not(args[0].z())
            elif op == 'T':
                self._z = z3.BoolVal(True)
            elif op == 'F':
                self._z = z3.BoolVal(False)
        return self._z


_conds = {}


def _cond(op, args, vars):
    key = (op,) + tuple(a.id if isinstance(a, (Lin, Atom, Cond)) else a for a in args)
    c = _conds.get(key)
    if c is None:
        c = Cond()
        c.id = _next()
        c.op, c.args, c.vars = op, args, vars
        c._z = None
        c._neg = None
        _conds[key] = c
    return c


TRUE = _cond('T', (), frozenset())
FALSE = _cond('F', (), frozenset())


def isin(a, ivs):
    """atom a lies in interval set ivs"""
    ivs = iv_and(ivs, ((a.lo, a.hi),))
    if not ivs:
        return FALSE
    if ivs == ((a.lo, a.hi),):
        return TRUE
    return _cond('in', (a, ivs), a.vars)


def lin_in(l, ivs):
    """linear expression lies in interval set"""
    if not l.t:
        return TRUE if iv_has(ivs, l.c) else FALSE
    if len(l.t) == 1 and l.t[0][1] in (1, -1):
        a, k = l.t[0]
        if k == 1:
            return isin(a, tuple((lo - l.c, hi - l.c) for lo, hi in ivs))
        return isin(a, iv_norm([(l.c - hi, l.c - lo) for lo, hi in ivs]))
    parts = []
    for lo, hi in ivs:
        parts.append(conj([le(add(const(lo), l, -1)), le(add(l, const(hi), -1))]))
    return disj(parts)


def le(l):
    """l <= 0"""
    if l.hi <= 0:
        return TRUE
    if l.lo > 0:
        return FALSE
    if len(l.t) == 1:
        a, k = l.t[0]
        if k > 0:       # k*a <= -c   -> a <= floor(-c/k)
            return isin(a, ((a.lo, (-l.c) // k),)) if (-l.c) // k >= a.lo else FALSE
        # -|k| a <= -c -> a >= ceil(c/|k|)
        b = -((-l.c) // (-k))
        return isin(a, ((b, a.hi),)) if b <= a.hi else FALSE
    return _cond('le', (l,), l.vars)


def eq(l):
    if not l.t:
        return TRUE if l.c == 0 else FALSE
    if l.lo > 0 or l.hi < 0:
        return FALSE
    if len(l.t) == 1:
        a, k = l.t[0]
        if l.c % k:
            return FALSE
        v = -l.c // k
        return isin(a, ((v, v),))
    if l.t[0][1] < 0:
        l = scale(l, -1)
    return _cond('eq', (l,), l.vars)


def neg(c):
    if c._neg is None:
        if c is TRUE:
            r = FALSE
        elif c is FALSE:
            r = TRUE
        elif c.op == 'in':
            a = c.args[0]
            r = isin(a, iv_sub(((a.lo, a.hi),), c.args[1]))
        elif c.op == 'le':      # not (l <= 0)  ->  1 - l <= 0
            r = le(add(const(1), c.args[0], -1))
        elif c.op == 'not':
            r = c.args[0]
        else:
            r = _cond('not', (c,), c.vars)
        c._neg = r
        if r._neg is None:
            r._neg = c
    return c._neg


def conj(cs):
    out, seen = [], set()
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE or c.id in seen:
            continue
        if c.op == 'and':
            for d in c.args:
                if d.id not in seen:
                    seen.add(d.id)
                    out.append(d)
            continue
        seen.add(c.id)
        out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    vs = frozenset()
    for c in out:
        vs |= c.vars
    return _cond('and', tuple(out), vs)


def disj(cs):
    out, seen = [], set()
    ins = {}
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE or c.id in seen:
            continue
        seen.add(c.id)
        if c.op == 'in':
            a = c.args[0]
            if a in ins:
                i, ivs = ins[a]
                ivs = iv_norm(ivs + c.args[1])
                ins[a] = (i, ivs)
                r = isin(a, ivs)
                if r is TRUE:
                    return TRUE
                out[i] = r
                continue
            ins[a] = (len(out), c.args[1])
        out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    vs = frozenset()
    for c in out:
        vs |= c.vars
    return _cond('or', tuple(out), vs)


# --------------------------------------------------------------------------
# concrete evaluation (used to validate models before they are run)
# --------------------------------------------------------------------------

def eval_atom(a, env):
    op, args = a.op, a.args
    if op == 'var':
        return env[a]
    if op == 'mul':
        return eval_lin(args[0], env) * eval_lin(args[1], env)
    if op == 'div':
        return eval_lin(args[0], env) // args[1]
    if op == 'mod':
        return eval_lin(args[0], env) % args[1]
    if op == 'top':
        return eval_lin(args[0], env) // 10 ** args[1]
    if op == 'dig':
        return eval_lin(args[0], env) // 10 ** args[1] % 10
    if op == 'hex':
        d = eval_lin(args[0], env)
        return d + 48 if d <= 9 else d + 87
    if op == 'sdiv':
        d = eval_lin(args[1], env)
        return eval_lin(args[0], env) // d if d else 0
    if op == 'smod':
        d = eval_lin(args[1], env)
        return eval_lin(args[0], env) % d if d else 0
    raise AssertionError(op)


def eval_lin(l, env):
    return l.c + sum(k * eval_atom(a, env) for a, k in l.t)


def eval_cond(c, env):
    op, args = c.op, c.args
    if op == 'in':
        return iv_has(args[1], eval_atom(args[0], env))
    if op == 'le':
        return eval_lin(args[0], env) <= 0
    if op == 'eq':
        return eval_lin(args[0], env) == 0
    if op == 'and':
        return all(eval_cond(a, env) for a in args)
    if op == 'or':
        return any(eval_cond(a, env) for a in args)
    if op == 'not':
        return not eval_cond(args[0], env)
    return op == 'T'
