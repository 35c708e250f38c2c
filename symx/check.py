"""Common plumbing of the checks: obligations, solver queries, replays, evidence, exit codes."""
import json
import math
import os
import signal
import sys
import threading
import time
import traceback
from . import build

ROOT = build.HERE


class Report:
    def __init__(self, prop, title):
        self.prop = prop
        self.title = title
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.obl = []            # dicts
        self.queries = 0
        self.solver_s = 0.0
        self.funcs = {}
        self.bounds = []
        self.assume = []
        self.violations = []
        self.known = []
        self.inconclusive = []
        self.replays = 0
        self.witnesses = 0
        self.validated = 0
        self.steps = 0
        self.kf = load_known(prop)
        self.budget = 840 if self.tier == 'quick' else 6 * 3600

    # ---- accounting
    def quick(self):
        return self.tier != 'thorough'

    def left(self):
        return self.budget - (time.time() - self.t0)

    def note_exec(self, ex):
        for k, v in ex.called.items():
            d = ex.dem(k)
            self.funcs[d] = self.funcs.get(d, 0) + v
        self.steps += ex.steps

    def query(self, s, *extra):
        """run a z3 solver (or callable) under the clock"""
        t = time.time()
        r = s.check(*extra)
        self.solver_s += time.time() - t
        self.queries += 1
        return r

    def ok(self, name, n=1):
        self.obl.append((name, 'held', n))

    def witness(self, name, reached):
        """vacuity guard: the twin with the final assertion negated must be reachable"""
        self.witnesses += 1
        if not reached:
            self.unknown(name, 'vacuity witness not reached')

    def unknown(self, name, why):
        self.obl.append((name, 'inconclusive', 1))
        self.inconclusive.append('%s: %s' % (name, why))
        print('INCONCLUSIVE property=%s %s: %s' % (self.prop, name, str(why)[:600]))

    def known_or_violation(self, name, key, what, replay):
        """replay: dict with the concrete input and what the real code returned for it"""
        if key in self.kf:
            if key not in [k for k, _ in self.known]:
                self.known.append((key, self.kf[key]))
                print('KNOWN-FINDING: property=%s %s' % (self.prop, self.kf[key]))
            self.obl.append((name, 'known finding', 1))
            return
        self.violate(name, what, replay)

    def violate(self, name, what, replay):
        os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
        p = os.path.join(ROOT, 'evidence', 'replay', '%s.%d.json' % (self.prop, len(self.violations)))
        with open(p, 'w') as f:
            json.dump({'property': self.prop, 'obligation': name, 'what': what, 'replay': replay}, f, indent=1,
                      default=str)
        self.violations.append((name, what, p))
        self.obl.append((name, 'violated', 1))
        print('  %s: %s' % (name, what))
        print('VIOLATION property=%s replay=%s' % (self.prop, p))

    def done(self):
        wall = time.time() - self.t0
        n = sum(o[2] for o in self.obl)
        held = sum(o[2] for o in self.obl if o[1] == 'held')
        names = sorted(self.funcs)
        expl = ('Symbolic execution of the LLVM IR compiled from the current sources (%d functions encoded, %d IR '
                'instructions executed); %d obligations, %d held, %d known findings, %d inconclusive, %d violated; '
                '%d solver queries in %.1f s; %d vacuity witnesses reached; %d counterexample replays; translator '
                'validated against the native code on %d points.' % (
                    len(names), self.steps, n, held, len(self.known), len(self.inconclusive), len(self.violations),
                    self.queries, self.solver_s, self.witnesses, self.replays, self.validated))
        ev = {'property': self.prop, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
              'seed': self.seed, 'level': 'other',
              'coverage': {'explanation': expl, 'ir_instructions_executed': self.steps,
                           'native_points_validated': self.validated, 'replays': self.replays,
                           'vacuity_witnesses': self.witnesses,
                           'samples': [
                               {'obligation': o[0], 'result': o[1], 'count': o[2]} for o in self.obl[:60]], 'functions_encoded': names[:400], 'bounds': self.bounds,
                           'queries': self.queries, 'solver_s': round(self.solver_s, 2),
                           'obligations': n, 'discharged': held,
                           'inconclusive': self.inconclusive[:40],
                           'known_findings': [k for k, _ in self.known]},
              'wall_s': round(wall, 2), 'assumptions': self.assume or ['see DESIGN.md'],
              'violations': len(self.violations),
              'violation_list': [{'obligation': v[0], 'what': v[1], 'replay': v[2]} for v in self.violations]}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s %s: %s' % (self.prop, self.title, expl))
        print('wall %.1f s' % wall)
        return 1 if self.violations else 0



def load_known(prop):
    d = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            f = ln.strip().split(' ', 3)
            if len(f) == 4 and f[0] == 'finding:' and f[1] == 'property=' + prop and f[2].startswith('key='):
                d[f[2][4:]] = f[3]
    return d


def main(prop, title, parts):
    """parts: [(name, callable(report))]; an error inside one part leaves it inconclusive"""
    sys.setrecursionlimit(100000)
    r = Report(prop, title)
    only = os.environ.get('SYMX_ONLY')
    if threading.current_thread() is threading.main_thread():
        def ring(*_):
            raise TimeoutError('time budget used up')
        signal.signal(signal.SIGALRM, ring)
        signal.alarm(int(r.budget))
    for name, fn in parts:
        if only and only not in name:
            continue
        t = time.time()
        try:
            fn(r)
        except Exception as e:      # honest: no verdict for this part
            if os.environ.get('SYMX_TRACE'):
                traceback.print_exc()
            r.unknown(name, '%s: %s' % (type(e).__name__, e))
        if os.environ.get('SYMX_TRACE'):
            print('   [%s %.1fs]' % (name, time.time() - t))
    signal.alarm(0)
    sys.exit(r.done())


def close(a, b, rel=1e-9, ab=1e-12):
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))


class Sub(Report):
    """report of a worker process; events are applied by the parent"""

    def __init__(self, parent):
        super().__init__(parent.prop, parent.title)
        self.tier = parent.tier
        self.budget = parent.budget
        self.t0 = parent.t0
        self.ev = []

    def ok(self, name, n=1):
        self.ev.append(('ok', name, n))

    def unknown(self, name, why):
        self.ev.append(('unknown', name, str(why)))

    def known_or_violation(self, name, key, what, replay):
        self.ev.append(('kv', name, key, what, replay))

    def violate(self, name, what, replay):
        self.ev.append(('violate', name, what, replay))

    def pack(self):
        return (self.ev, self.queries, self.solver_s, self.funcs, self.replays, self.witnesses, self.validated,
                self.steps)


def _work(a):
    fn, item, parent = a
    signal.alarm(0)
    sys.setrecursionlimit(100000)
    s = Sub(parent)
    try:
        fn(s, item)
    except Exception as e:
        if os.environ.get('SYMX_TRACE'):
            traceback.print_exc()
        s.unknown(str(item), '%s: %s' % (type(e).__name__, e))
    return s.pack()


def parallel(report, fn, items, workers=8):
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures.process import BrokenProcessPool
    items = list(items)
    sys.stdout.flush()
    pool = ProcessPoolExecutor(min(workers, max(1, len(items))), mp_context=mp.get_context('fork'))
    try:
        futs = {pool.submit(_work, (fn, it, report)): it for it in items}
        for f in as_completed(futs):
            try:
                ev, q, ss, fu, rp, wi, va, stp = f.result()
            except BrokenProcessPool:
                report.unknown(str(futs[f])[:60], 'the process deciding it died')
                continue
            report.queries += q
            report.solver_s += ss
            report.replays += rp
            report.witnesses += wi
            report.validated += va
            report.steps += stp
            for k, v in fu.items():
                report.funcs[k] = report.funcs.get(k, 0) + v
            for e in ev:
                {'ok': report.ok, 'unknown': report.unknown, 'kv': report.known_or_violation,
                 'violate': report.violate}[e[0]](*e[1:])
            if len(report.violations) >= 20:
                print('  ... stopping after %d violations' % len(report.violations))
                break
    finally:
        procs = list((pool._processes or {}).values())
        pool.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            p.kill()
