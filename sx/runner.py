"""Runs the harnesses of one property: parallel path exploration, native
differential of every path, replay of violations, evidence."""
import json
import mmap
import os
import random
import signal
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')

warnings.simplefilter('ignore')

from . import engine, hapi, loader, models       # noqa: E402
from .engine import (Engine, Path, Flipper, Stats, Abort, AssumeFailed, CheckFailed,
                     PathLimit)                   # noqa: E402


class NativeTimeout(BaseException):
    pass


NATIVE_LIMIT = 20.0
PATH_LIMIT = 40.0
STUCK = 120.0


def load(prop):
    inst, nat = loader.load_packages(REPO)
    f = os.path.join(VERIF, 'harness', prop.lower() + '.py')
    hs = loader.load_harness(f, prop.lower(), inst, True)
    hn = loader.load_harness(f, prop.lower(), nat, False)
    native_reset()
    return inst, nat, hs, hn


def native_reset():
    hapi.RESET[True] = loader.Snapshot('datashape').restore


def run_native(fn, tier, values, limit=NATIVE_LIMIT, name=None):
    """-> (kind, detail, obs, reached)"""
    h = hapi.NatH(tier, values, name)

    def onalarm(*a):
        raise NativeTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        fn(h)
        out = ('ok', '')
    except AssumeFailed:
        out = ('assume', '')
    except CheckFailed as e:
        out = ('check', e.args)
    except NativeTimeout:
        out = ('exc', ('no termination', 'did not terminate within %g s' % limit))
    except RecursionError as e:
        out = ('exc', ('RecursionError', 'RecursionError: %s' % e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for fr in tb:
            if '/datashape/' in fr.filename:
                where = '%s:%s' % (os.path.basename(fr.filename), fr.name)
        out = ('exc', ('%s in %s' % (type(e).__name__, where),
                       '%s: %s (%s)' % (type(e).__name__, str(e)[:300], where)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return out[0], out[1], h._obs, h.reached


def run_symbolic(fn, tier, path, snap):
    h = hapi.SymH(tier, path)

    def reset():
        snap.restore()
        for c in models.CACHES:
            c.clear()
    hapi.RESET[False] = reset
    reset()
    Engine.cur = path

    def onalarm(*a):
        raise PathLimit('path time limit')
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, PATH_LIMIT)
    try:
        fn(h)
        out = ('ok', '')
    except AssumeFailed:
        out = ('assume', '')
    except CheckFailed as e:
        out = ('check', e.args)
    except PathLimit as e:
        out = ('limit', str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' < '.join('%s:%d' % (os.path.basename(fr.filename), fr.lineno)
                           for fr in reversed(tb[-6:]))
        try:
            msg = str(e)
        except BaseException:
            msg = '?'
        out = ('exc', ('%s' % type(e).__name__, '%s: %s @ %s' % (
            type(e).__name__, msg[:200], where)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        Engine.cur = None
    return out[0], out[1], h._obs, h.reached


class Ctx(object):
    pass


def exec_item(cx, item):
    """run one work item; -> (children, report)"""
    hi, asg, bound, sig, pins = item
    name, fs, fn = cx.harn[hi]
    st = engine.STATS
    path = Path(asg, pins=pins)
    kind, detail, obs, reached = run_symbolic(fs, cx.tier, path, cx.snap)
    st.paths += 1
    rep = {}
    if bound and sig is not None and Flipper.prefix_sig(path, bound) != sig:
        st.diverged += 1
        if os.environ.get('SX_DEBUG'):
            rep['diverged'] = (name, asg)
    values = dict((a.args[0], v) for a, v in path.env.items())
    nk, nd, nobs, nreach = run_native(fn, cx.tier, values, name=name)
    st.native_runs += 1
    if len(cx.history) < 4000:
        cx.history.append((hi, values))
    if kind == 'assume':
        st.assume_cut += 1
    if kind == 'limit':
        st.path_limit += 1
        rep['limit'] = (name, detail)
    elif kind == nk and (kind != 'ok' or obs == nobs) and (
            kind != 'check' or detail[0] == nd[0]):
        st.agree += 1
    else:
        st.disagree += 1
        rep['disagree'] = (name, values, kind, repr(detail)[:500], nk, repr(nd)[:300],
                           repr(obs)[:300], repr(nobs)[:300])
    if nk in ('check', 'exc'):
        rep['violation'] = (name, values, nd[0], nd[1])
    rep['reach'] = [(name, r) for r in nreach if r in reached]
    if kind == 'ok' and nk == 'ok' and not rep.get('disagree'):
        rep['okvals'] = (name, values)
    children = [(hi, a, b, s, p) for a, b, s, p in cx.flip.children(path, bound)]
    return children, rep


NOTE = 1 << 18
MEMORY = 3 << 30


def limit_memory():
    """a run that eats all memory ends in MemoryError, not in the end of the sandbox"""
    import resource
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, hard))


def worker(cx, conn, note):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(6000)
    limit_memory()
    cx.history = []
    Path.audit = 29 if cx.crosscheck else 199
    cx.flip = Flipper(realize_flips=cx.realize_flips, crosscheck=cx.crosscheck)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        items, slice_s, maxn = msg
        engine.STATS.__init__()
        models.NATIVE_PINS.clear()
        hapi.DOMS.clear()
        t0 = time.time()
        out = {'viol': [], 'disagree': [], 'reach': set(), 'limit': [], 'ok': None,
               'per': {}, 'div': []}
        done = 0
        while items and done < maxn and (time.time() - t0 < slice_s or done == 0):
            it = items.pop()
            # what is being run, for the case that the interpreter itself dies on it
            text = json.dumps([it[0], it[1]]).encode()
            if len(text) < NOTE - 8:
                note[:8 + len(text)] = len(text).to_bytes(8, 'little') + text
            try:
                ch, rep = exec_item(cx, it)
            except Exception:
                engine.STATS.engine_errors += 1
                out['limit'].append((cx.harn[it[0]][0],
                                     'engine error ' + traceback.format_exc()[-700:]))
                done += 1
                continue
            done += 1
            out['per'][it[0]] = out['per'].get(it[0], 0) + 1
            items.extend(ch)
            if 'violation' in rep:
                if len(out['viol']) < 20:
                    out['viol'].append(rep['violation'] + (list(cx.history),)
                                       if len(out['viol']) < 2 else rep['violation'] + (None,))
                # keep going: other violations may be new
            if 'disagree' in rep and len(out['disagree']) < 5:
                out['disagree'].append(rep['disagree'])
            if 'limit' in rep and len(out['limit']) < 5:
                out['limit'].append(rep['limit'])
            if 'diverged' in rep:
                out['div'].append(rep['diverged'])
            out['reach'].update(rep['reach'])
            if 'okvals' in rep:
                out['ok'] = rep['okvals']
        if len(cx.flip.cache) > 300000:
            cx.flip.cache.clear()
        out['stats'] = engine.STATS
        out['pins'] = dict(models.NATIVE_PINS)
        out['doms'] = {k: dict(v) for k, v in hapi.DOMS.items()}
        out['items'] = items
        out['fns'] = sorted(cx.fns)
        conn.send(out)


def trace_functions(cx):
    """names of the repo functions executed symbolically (sys.monitoring)"""
    cx.fns = set()
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, 'sx')
    except ValueError:
        return
    root = os.path.join(REPO, 'datashape') + os.sep

    def start(code, off):
        if Engine.cur is not None and code.co_filename.startswith(root):
            cx.fns.add(code.co_filename[len(root):] + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def note_of(note):
    n = int.from_bytes(note[:8], 'little')
    try:
        return json.loads(note[8:8 + n].decode())
    except ValueError:
        return None, None


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def replay_file(prop, tier, name, values, site, msg, history=None):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    import zlib
    key = '%08x' % (zlib.crc32(repr((prop, name, sorted(values.items()))).encode()))
    p = os.path.join(d, '%s-%s.json' % (prop, key))
    with open(p, 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'harness': name, 'inputs': values,
                   'site': site, 'message': msg, 'history': history}, f, indent=1,
                  sort_keys=True)
    return p


def confirm(path):
    """does the replay fail on the real package in a fresh process?"""
    try:
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'replay.py'), path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=45,
                           preexec_fn=limit_memory,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    except subprocess.TimeoutExpired:
        return True, 'did not terminate'
    return r.returncode == 1 or r.returncode < 0, r.stdout.decode('utf-8', 'replace')


def run_property(prop, tier, seed):
    import multiprocessing as mp
    t0 = time.time()
    cx = Ctx()
    cx.tier = tier
    trace_functions(cx)
    inst, nat, hs, hn = load(prop)
    cx.fns.clear()
    sys.monitoring.restart_events()
    cx.snap = loader.Snapshot('sxds')
    names = [f.__name__ for f in hs.HARNESSES]
    cx.harn = [(n, getattr(hs, n), getattr(hn, n)) for n in names]
    cx.realize_flips = getattr(hs, 'REALIZE_FLIPS', 6 if tier == 'quick' else 24)
    cx.crosscheck = tier == 'thorough'
    only = os.environ.get('SX_ONLY')
    nw = int(os.environ.get('SX_WORKERS', '8'))
    budget = float(os.environ.get('SX_BUDGET', getattr(hs, 'BUDGET', {}).get(
        tier, 150 if tier == 'quick' else 780)))
    maxpaths = getattr(hs, 'MAXPATHS', {}).get(tier)
    rng = random.Random(seed)
    mpx = mp.get_context('fork')
    workers = []
    notes = {}

    def start_worker():
        a, b = mpx.Pipe()
        note = mmap.mmap(-1, NOTE)
        p = mpx.Process(target=worker, args=(cx, b, note), daemon=True)
        p.start()
        b.close()
        workers.append([p, a, False])
        notes[p.pid] = note

    for _ in range(nw):
        start_worker()
    queue = [(i, {}, 0, None, {}) for i in range(len(names)) if not only or names[i] in only.split(',')]
    total = Stats()
    reach, viols, disagree, limits, pins, fns, oks, div = set(), [], [], [], {}, set(), {}, []
    per = {}
    doms = {}
    crashes, since = [], {}
    knowns = [k for k in known_findings() if k['property'] == prop]
    knownhit = {}
    stop = None
    deadline = t0 + budget
    from multiprocessing.connection import wait
    npaths = 0
    last = time.time()
    dead = 0
    while True:
        idle = [w for w in workers if not w[2]]
        if not stop and queue:
            per_w = max(1, len(queue) // (2 * max(1, len(idle)))) if idle else 0
            for w in idle:
                if not queue:
                    break
                k = min(len(queue), max(1, min(64, per_w)))
                batch = []
                for _ in range(k):
                    if rng.random() < 0.15 and len(queue) > 1:
                        j = rng.randrange(len(queue))
                        queue[j], queue[-1] = queue[-1], queue[j]
                    batch.append(queue.pop())
                slice_s = 0.05 if len(queue) < 4 * nw else 0.4
                try:
                    w[1].send((batch, slice_s, 100000))
                    w[2] = True
                    since[w[0].pid] = time.time()
                    w.append(batch)
                except (BrokenPipeError, OSError):
                    queue.extend(batch)
                    dead += 1
                    w[2] = 'dead'
        busy = [w for w in workers if w[2] is True]
        if not busy:
            if stop or not queue or all(w[2] == 'dead' for w in workers):
                break
            continue
        now = time.time()
        for w in busy:
            # a run that neither ends nor can be interrupted
            if now - since[w[0].pid] > STUCK or now > deadline + 45:
                w[0].kill()
        for c in wait([w[1] for w in busy], timeout=1.0):
            w = [x for x in busy if x[1] is c][0]
            try:
                out = c.recv()
            except (EOFError, OSError):
                w[2] = 'dead'
                dead += 1
                w[0].join(5)
                hi, asg = note_of(notes[w[0].pid])
                limits.append(('?', 'worker died (%s)' % w[0].exitcode))
                if hi is not None and time.time() < deadline + 45:
                    v = (names[hi], asg, 'interpreter died',
                         'the interpreter died (exit code %s)' % w[0].exitcode, None)
                    crashes.append(v)
                if dead <= 2 * nw and not stop:
                    start_worker()
                continue
            w[2] = False
            total.add(out['stats'])
            reach |= out['reach']
            disagree.extend(out['disagree'])
            limits.extend(out['limit'])
            div.extend(out['div'])
            fns |= set(out['fns'])
            for k, v in out['doms'].items():
                doms.setdefault(k, {}).update(v)
            for k, v in out['pins'].items():
                pins[k] = pins.get(k, 0) + v
            for k, v in out['per'].items():
                per[names[k]] = per.get(names[k], 0) + v
            if out['ok']:
                oks.setdefault(out['ok'][0], out['ok'][1])
            queue.extend(out['items'])
            for v in out['viol']:
                kf = match_known(knowns, v)
                if kf is not None:
                    knownhit.setdefault(kf['id'], v)
                else:
                    viols.append(v)
        npaths = total.paths
        if viols and not stop and not os.environ.get('SX_ALL'):
            stop = 'violation'
        if time.time() > deadline and not stop:
            stop = 'time budget'
        if maxpaths and npaths > maxpaths and not stop:
            stop = 'path budget'
        if os.environ.get('SX_VERBOSE') and time.time() - last > 2:
            last = time.time()
            sys.stderr.write('[%5.1fs] paths=%d queue=%d q=%d unsat=%d dis=%d viol=%d %r\n' % (
                time.time() - t0, npaths, len(queue), total.queries, total.unsat,
                total.disagree, len(viols), per))
    for w in workers:
        try:
            w[1].send(None)
        except Exception:
            pass
    for w in workers:
        w[0].join(1)
        if w[0].is_alive():
            w[0].terminate()
    exhausted = not queue and not stop and not dead
    incomplete = []
    if dead:
        incomplete.append('%d workers died' % dead)
    if total.path_limit:
        incomplete.append('%d paths cut by a path limit' % total.path_limit)
    if total.realize_capped:
        incomplete.append('%d concretised values not split further' % total.realize_capped)
    if total.unknown:
        incomplete.append('%d solver answers unknown' % total.unknown)
    if total.diverged:
        incomplete.append('%d paths did not follow their prediction' % total.diverged)
    if total.disagree:
        incomplete.append('%d paths where instrumented and native run differ '
                          '(inconclusive)' % total.disagree)
    if total.engine_errors:
        incomplete.append('%d engine errors' % total.engine_errors)
    if stop:
        incomplete.append('stopped: %s, %d alternatives left' % (stop, len(queue)))

    # -- violations ----------------------------------------------------
    confirmed = []
    unreproduced = []
    seen_sites = set()
    for name, values, site, msg, hist in crashes[:8]:
        # a worker that died while it ran the real code is a finding only when the
        # real code dies on that input by itself
        if (name, site) in seen_sites:
            continue
        p = replay_file(prop, tier, name, values, site, msg)
        ok, txt = confirm(p)
        if ok:
            seen_sites.add((name, site))
            confirmed.append((p, name, values, site, msg))
    for name, values, site, msg, hist in viols:
        if (name, site) in seen_sites or len(confirmed) >= 5:
            continue
        p = replay_file(prop, tier, name, values, site, msg)
        ok, txt = confirm(p)
        if not ok and hist:
            h2 = [[names[i], v] for i, v in hist]
            p = replay_file(prop, tier, name, values, site, msg, h2)
            ok, txt = confirm(p)
        if ok:
            seen_sites.add((name, site))
            confirmed.append((p, name, values, site, msg))
        else:
            unreproduced.append((name, values, site, msg))
    # -- reachability --------------------------------------------------
    want = set((f.__name__, t) for f in hs.HARNESSES for t in getattr(f, 'reach', ())
               if not only or f.__name__ in only.split(','))
    missing = sorted(want - reach)

    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total.paths,
            'transitions': total.branches,
            'traces_validated_against_impl': total.agree,
            'samples': [{'harness': n, 'inputs': v} for n, v in sorted(oks.items())][:12]
            or [{'harness': n} for n in names],
            'exhaustive': bool(exhausted and not incomplete),
            'explanation': 'states = symbolic paths of the real code (each stands for all '
                           'inputs that satisfy its path condition), transitions = '
                           'input-dependent decisions recorded on them',
            'harness_paths': per,
            'functions_encoded': sorted(fns),
            'bounds': bounds_of(hs, doms),
            'outside_bounds': getattr(hs, 'OUTSIDE', OUTSIDE),
            'solver': {'queries': total.queries, 'sat': total.sat, 'unsat': total.unsat,
                       'unknown': total.unknown, 'cache_hits': total.cache_hits,
                       'assertions_evaluated': total.asserts,
                       'assertion_queries': total.assert_queries,
                       'assertion_unsat': total.assert_unsat,
                       'interval_decided': total.interval_decided,
                       'interval_audits': total.audits,
                       'interval_audit_failures': total.audit_failures,
                       'solver_s': round(total.solver_s, 3)},
            'native_runs': total.native_runs,
            'disagreements': [list(map(str, d)) for d in disagree[:5]],
            'incomplete': incomplete,
            'limits': [list(l) for l in limits[:5]],
            'pinned_at_native_calls': pins,
            'reached': sorted('%s:%s' % r for r in reach),
            'not_reached': ['%s:%s' % m for m in missing],
            'cut_by_assumptions': total.assume_cut,
            'known_findings_hit': sorted(knownhit),
            'unreproduced': [list(map(str, u)) for u in unreproduced[:5]],
        },
        'assumptions': list(getattr(hs, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s %s: %d paths, %d decisions, %d solver queries (%d unsat, %d unknown), '
          'assertions %d/%d unsat, native agree %d/%d, %s, %.1fs' % (
              prop, tier, total.paths, total.branches, total.queries, total.unsat,
              total.unknown, total.assert_unsat, total.assert_queries, total.agree,
              total.native_runs, 'exhausted' if exhausted else 'not exhausted', wall))
    for i in incomplete:
        print('INCOMPLETE: ' + i)
    if os.environ.get('SX_VERBOSE'):
        print('per harness', per)
        print('pins', pins)
        for d in disagree[:5]:
            print('DISAGREE', d)
        for l in limits[:5]:
            print('LIMIT', l)
        for l in div[:5]:
            print('DIVERGED', l)
    for k in knowns:
        if k['id'] in knownhit:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for p, name, values, site, msg in confirmed:
        print('  %s: %s' % (name, msg))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    for u in unreproduced[:5]:
        print('UNREPRODUCED %r' % (u,))
    if confirmed:
        return 1
    if unreproduced:
        print('ERROR: a counterexample did not reproduce in a fresh process')
        return 2
    if total.agree == 0:
        print('ERROR: nothing was decided')
        return 2
    if missing and exhausted and not incomplete:
        print('ERROR: not reached: %s' % (missing,))
        return 2
    return 0


OUTSIDE = ('values of an input outside its range, longer texts, deeper nesting and more '
           'components than the listed inputs describe; recursion and memory limits of the '
           'interpreter')


def bounds_of(hs, doms):
    """the symbolic inputs of each harness and their ranges, as met on this run"""
    import re
    out = {}
    for f in hs.HARNESSES:
        g = {}
        for k, (lo, hi) in doms.get(f.__name__, {}).items():
            k = re.sub(r'\d+', '#', k)
            n, a, b = g.get(k, (0, lo, hi))
            g[k] = (n + 1, min(a, lo), max(b, hi))
        out[f.__name__] = {
            'about': (f.__doc__ or '').strip(),
            'inputs': {k: '%s%d..%d' % ('%d x ' % n if n > 1 else '', a, b)
                       for k, (n, a, b) in sorted(g.items())}}
    return out


def match_known(knowns, v):
    name, values, site, msg = v[:4]
    for k in knowns:
        if k.get('harness') not in (None, name):
            continue
        if k.get('site') is not None and k['site'] != site:
            continue
        if k.get('inputs') is not None and any(values.get(a) != b
                                               for a, b in k['inputs'].items()):
            continue
        if k.get('site') is None and k.get('inputs') is None:
            continue
        return k
    return None
