"""Concolic path engine: path context, branch recording, solver queries.

One *path* is one run of a harness over the instrumented code with proxies
standing for the inputs.  Every decision that depends on an input is recorded
as a condition over the input variables; after the run each recorded decision
is negated under its prefix and handed to the solver: `sat` gives the input of
a new path, `unsat` closes that alternative for every value of the inputs.
When nothing is left to explore the harness has been decided for all inputs
within its bounds.
"""
import os
import time
import zlib
import z3

from . import expr as X


class Abort(BaseException):
    """engine control flow; instrumented code never swallows it"""


class AssumeFailed(Abort):
    pass


class PathLimit(Abort):
    pass


class CheckFailed(Abort):
    pass


class Engine(object):
    """the single current path (per process)"""
    cur = None


class Rec(object):
    __slots__ = ('cond', 'kind', 'alt', 'atom')


def _sig(o):
    """process-independent signature of an expression"""
    s = _sigs.get(o.id)
    if s is None:
        if isinstance(o, X.Atom):
            key = ('A', o.op, o.lo, o.hi) + tuple(
                _sig(a) if isinstance(a, (X.Lin, X.Atom)) else a for a in o.args)
        elif isinstance(o, X.Lin):
            key = ('L', o.c) + tuple(sorted((_sig(a), k) for a, k in o.t))
        else:
            key = ('C', o.op) + tuple(sorted(
                repr(_sig(a)) if isinstance(a, (X.Lin, X.Atom, X.Cond)) else repr(a)
                for a in o.args))
        s = zlib.crc32(repr(key).encode())
        _sigs[o.id] = s
    return s


_sigs = {}


DEBUG_SLOW = float(os.environ.get('SX_SLOW', '0'))


class Stats(object):
    FIELDS = ('paths', 'steps', 'branches', 'interval_decided', 'queries',
              'sat', 'unsat', 'unknown', 'cache_hits', 'solver_s',
              'asserts', 'assert_queries', 'assert_unsat',
              'audits', 'audit_failures', 'realized', 'realize_capped', 'native_runs', 'agree', 'disagree',
              'assume_cut', 'path_limit', 'diverged', 'engine_errors')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def add(self, other):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(other, f))

    def as_dict(self):
        d = dict((f, getattr(self, f)) for f in self.FIELDS)
        d['solver_s'] = round(d['solver_s'], 3)
        return d


STATS = Stats()


class Path(object):
    audit = 199

    def __init__(self, assignment, max_recs=4000, deadline=None, pins=None):
        self.given = assignment          # name -> int
        self.pins = pins or {}           # rec index -> values already explored
        self.env = {}                    # atom -> int
        self.names = {}                  # name -> atom
        self.dom = {}                    # atom -> intervals known on this path
        self.known = {}                  # cond id -> bool
        self.recs = []
        self.audits = []
        self.in_assert = False
        self.max_recs = max_recs
        self.deadline = deadline
        self.reached = set()
        self.realized = 0
        self.quiet = False

    # -- inputs --------------------------------------------------------
    def new_var(self, name, lo, hi, default=None):
        if name in self.names:
            raise RuntimeError('input %r created twice' % name)
        a = X.var(name, lo, hi)
        v = self.given.get(name)
        if v is None or not lo <= v <= hi:
            v = lo if default is None else default
        self.names[name] = a
        self.env[a] = v
        return a, v

    # -- decisions -----------------------------------------------------
    def decide(self, c):
        """three-valued verdict from what the path already fixes"""
        if c is X.TRUE:
            return True
        if c is X.FALSE:
            return False
        k = self.known.get(c.id)
        if k is not None:
            return k
        op = c.op
        if op == 'in':
            a, ivs = c.args
            d = self.dom.get(a)
            if d is None:
                if a.op != 'hex':
                    return None
                d = X.HEXDIGITS
            inter = X.iv_and(d, ivs)
            if not inter:
                return False
            if inter == d:
                return True
            return None
        if op == 'not':
            r = self.decide(c.args[0])
            return None if r is None else not r
        if op == 'and':
            res = True
            for d in c.args:
                r = self.decide(d)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if op == 'or':
            res = False
            for d in c.args:
                r = self.decide(d)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        return None

    def _simplify(self, c):
        if c.op == 'and':
            return X.conj([self._simplify(d) for d in c.args if self.decide(d) is None])
        if c.op == 'or':
            return X.disj([self._simplify(d) for d in c.args if self.decide(d) is None])
        return c

    def _learn(self, c, val):
        self.known[c.id] = val
        op = c.op
        if op == 'in':
            a, ivs = c.args
            d = self.dom.get(a) or (X.HEXDIGITS if a.op == 'hex' else ((a.lo, a.hi),))
            self.dom[a] = X.iv_and(d, ivs) if val else X.iv_sub(d, ivs)
        elif op == 'not':
            self._learn(c.args[0], not val)
        elif op == 'and' and val:
            for d in c.args:
                self._learn(d, True)
        elif op == 'or' and not val:
            for d in c.args:
                self._learn(d, False)

    def branch(self, c, val, kind='b'):
        """record that the path takes `val` on condition c; returns val"""
        r = self.decide(c)
        if r is not None:
            if r != val:
                raise RuntimeError('engine: inconsistent decision %r is %r, path says %r'
                                   % (c, val, r))
            STATS.interval_decided += 1
            if c.vars and not STATS.interval_decided % self.audit:
                # let the solver confirm the verdict of the interval propagation
                self.audits.append((len(self.recs), c if val else X.neg(c)))
            return val
        c = self._simplify(c)
        rec = Rec()
        rec.kind = 'a' if (self.in_assert and kind == 'b') else kind
        rec.cond = c if val else X.neg(c)
        rec.alt = None
        rec.atom = None
        if c.op == 'in':
            a, ivs = c.args
            d = self.dom.get(a) or (X.HEXDIGITS if a.op == 'hex' else ((a.lo, a.hi),))
            rec.alt = X.iv_sub(d, ivs) if val else X.iv_and(d, ivs)
            rec.atom = a
        self._learn(c, val)
        self.recs.append(rec)
        STATS.branches += 1
        if len(self.recs) > self.max_recs:
            raise PathLimit('too many decisions')
        if self.deadline and not len(self.recs) & 31 and time.time() > self.deadline:
            raise PathLimit('path time limit')
        return val

    def pin(self, l, v):
        """concretise: the path continues with linear expression l == v"""
        if l.const:
            return
        c = X.eq(X.add(l, X.const(-v)))
        if self.decide(c) is None:
            STATS.realized += 1
            self.realized += 1
            base = len(self.recs)
            done = self.pins.get(base, ())
            for u in done:
                if u != v:
                    self.branch(X.eq(X.add(l, X.const(-u))), False, 'n')
            if self.decide(c) is None:
                self.branch(c, True, 'r')
                rec = self.recs[-1]
                rec.alt = (base, tuple(done) + (v,), l)
                rec.atom = None


# ----------------------------------------------------------------------
# flipping decisions
# ----------------------------------------------------------------------

FAR = (2 ** 53 + 1, 2 ** 64 + 1, 2 ** 31)


def _far(l, n):
    """where the n-th other value of a concretised integer is looked for first: beyond the
    exact floats, the machine words, zero"""
    if l.hi < FAR[-1]:
        return None
    fars = [X.le(X.add(X.const(t), l, -1)) for t in FAR if t <= l.hi]
    if l.lo < 0:
        fars.insert(1, X.le(X.add(l, X.const(1))))
    return fars[n - 1] if n <= len(fars) else None


class Comp(object):
    __slots__ = ('vars', 'conds', 'multi')


class Flipper(object):
    def __init__(self, timeout_ms=4000, realize_flips=6, crosscheck=False):
        self.solver = z3.SolverFor('QF_NIA') if False else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.cache = {}
        self.realize_flips = realize_flips
        self.crosscheck = crosscheck

    def query(self, conds, env):
        """satisfiability of a set of conditions -> dict atom->value | None | 'unknown'"""
        key = frozenset(c.id for c in conds)
        if key in self.cache:
            STATS.cache_hits += 1
            return self.cache[key]
        s = self.solver
        vs = set()
        for c in conds:
            vs |= c.vars
        t = time.time()
        s.push()
        for a in vs:
            z = a.z()
            s.add(z >= a.lo, z <= a.hi)
        dom = {}
        for c in conds:
            if c.op == 'in':
                a = c.args[0]
                d = dom.get(a)
                dom[a] = c.args[1] if d is None else X.iv_and(d, c.args[1])
            else:
                s.add(c.z())
        empty, wide = False, []
        for a, d in dom.items():
            if not d:
                empty = True
                break
            if len(d) > 12:
                wide.append((a, d))
                continue
            c = X.isin(a, d)
            s.add(c.z())
        if empty:
            r = z3.unsat
        else:
            r = None
            if wide:
                # a model is usually found among the larger ranges
                s.push()
                for a, d in wide:
                    big = sorted(d, key=lambda p: p[0] - p[1])[:3]
                    s.add(X.isin(a, X.iv_norm(big)).z())
                r = s.check()
                if r == z3.sat:
                    m = s.model()
                else:
                    r = None
                s.pop()
                if r is None:
                    for a, d in wide:
                        s.add(X.isin(a, d).z())
            if r is None:
                r = s.check()
                if r == z3.sat:
                    m = s.model()
        STATS.queries += 1
        if r == z3.sat:
            STATS.sat += 1
            out = {}
            for a in vs:
                v = m.eval(a.z(), model_completion=True)
                out[a] = v.as_long()
            if not all(X.eval_cond(c, out) for c in conds):
                # the solver and the evaluator disagree: never trust silently
                STATS.engine_errors += 1
                out = 'unknown'
        elif r == z3.unsat:
            STATS.unsat += 1
            out = None
        else:
            STATS.unknown += 1
            out = 'unknown'
        s.pop()
        STATS.solver_s += time.time() - t
        if DEBUG_SLOW and time.time() - t > DEBUG_SLOW:
            print('SLOW %.3f %s' % (time.time() - t, r), [x for x in conds if x.op != 'in'],
                  [(a, len(d), d[:3]) for a, d in dom.items()], flush=True)
        self.cache[key] = out
        return out

    def children(self, path, bound):
        """work items for every feasible alternative of the decisions >= bound"""
        comp = {}
        base = dict((a.args[0], v) for a, v in path.env.items())
        sig = 0
        out = []
        for n, c in path.audits:
            if n < bound:
                continue
            STATS.audits += 1
            m = self.query([r.cond for r in path.recs[:n]] + [X.neg(c)], path.env)
            if m is not None:
                STATS.audit_failures += 1
                STATS.engine_errors += m != 'unknown'
        for i, rec in enumerate(path.recs):
            c = rec.cond
            vs = c.vars
            if i >= bound:
                comps = []
                for v in vs:
                    k = comp.get(v)
                    if k is not None and k not in comps:
                        comps.append(k)
                ncond = X.neg(c)
                model = None
                skip = rec.kind == 'n'
                if rec.kind == 'r':
                    if len(rec.alt[1]) > self.realize_flips:
                        STATS.realize_capped += 1
                        skip = True
                if skip:
                    pass
                else:
                    conds = [ncond]
                    for k in comps:
                        conds.extend(k.conds)
                    if rec.kind == 'a':
                        STATS.assert_queries += 1
                    model = None
                    if rec.kind == 'r':
                        far = _far(rec.alt[2], len(rec.alt[1]))
                        if far is not None:
                            model = self.query(conds + [far], path.env)
                            if model == 'unknown':
                                model = None
                    if model is None:
                        model = self.query(conds, path.env)
                    if model is None and rec.kind == 'a':
                        STATS.assert_unsat += 1
                if model is not None and model != 'unknown':
                    asg = dict(base)
                    for a, v in model.items():
                        asg[a.args[0]] = v
                    s2 = (sig * 1000003 + _sig(ncond)) & 0xffffffff
                    pins = dict((k, v) for k, v in path.pins.items() if k <= i)
                    if rec.kind == 'r':
                        pins[rec.alt[0]] = rec.alt[1]
                    out.append((asg, i + 1, s2, pins))
            # merge components
            if len(vs) == 1:
                (v,) = vs
                k = comp.get(v)
                if k is None:
                    k = Comp()
                    k.vars, k.conds, k.multi = {v}, [], False
                    comp[v] = k
                k.conds.append(c)
                if c.op != 'in' or c.args[0].op != 'var':
                    k.multi = True
            else:
                k = Comp()
                k.vars, k.conds, k.multi = set(vs), [c], True
                seen = []
                for v in vs:
                    o = comp.get(v)
                    if o is not None and o not in seen:
                        seen.append(o)
                        k.vars |= o.vars
                        k.conds.extend(o.conds)
                for v in k.vars:
                    comp[v] = k
            sig = (sig * 1000003 + _sig(c)) & 0xffffffff
        return out

    @staticmethod
    def prefix_sig(path, n):
        sig = 0
        for rec in path.recs[:n]:
            sig = (sig * 1000003 + _sig(rec.cond)) & 0xffffffff
        return sig
