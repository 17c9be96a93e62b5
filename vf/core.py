"""Runner for the monitored workloads.

A property module (vf/props/pNN.py) defines FAMILIES, an ordered dict

    name -> (case_function, quick_count, thorough_count)

`case_function(rng, rec)` drives the real qsymm code of /repo on inputs drawn
from `rng`, records what the monitors saw on `rec`, and decides with oracles
that are independent of qsymm (`rec.check`, `rec.close`, ...).  The runner
distributes the cases statically over worker processes, so a run is a
deterministic function of (property, tier, VERIF_SEED), including the order in
which one process executes cases (the history seen by qsymm's caches).

Verdicts are three valued: a failed check or an unexpected exception is a
violation, `rec.skip` is inconclusive (counted, reported in the evidence, never
turned into either of the others), everything else is held-on-this-execution.
"""
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import zlib
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
CASE_CPU_S = float(os.environ.get('VERIF_CASE_CPU', '100'))
MAX_REPORTED = 6


class Violated(Exception):
    """Raised by a recorder check; carries the witness."""


class Skip(Exception):
    """Inconclusive case."""


class CpuBound(BaseException):
    """The case used two orders of magnitude more CPU time than it should."""


class Recorder:
    def __init__(self, prop=None):
        self.known_keys = set(known_findings(prop)) if prop else set()
        self.events = Counter()
        self.sigs = set()
        self.samples = []
        self.skipped = Counter()
        self.margin = {}
        self.context = []
        self.known = Counter()

    # -- bookkeeping -------------------------------------------------------
    def begin(self):
        self.context = []
        self.ncase_checks = 0

    def event(self, kind, n=1):
        self.events[kind] += n

    def sig(self, *parts):
        """Register an observed, nontrivial state of this execution."""
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
        self.sigs.add(h)

    def note(self, **kw):
        """Description of the current case: witness and sample."""
        self.context.append(kw)

    def skip(self, reason):
        raise Skip(reason)

    # -- oracles -----------------------------------------------------------
    def check(self, cond, msg, **witness):
        self.events['oracle verdicts'] += 1
        self.ncase_checks += 1
        if not cond:
            raise Violated(msg + ((': ' + short(witness)) if witness else ''))

    def close(self, a, b, msg, tol=1e-7, scale=None, **witness):
        """|a-b| <= tol*max(scale,1) elementwise, shapes must agree."""
        import numpy as np
        self.events['oracle verdicts'] += 1
        self.ncase_checks += 1
        a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
        if a.shape != b.shape:
            raise Violated('%s: shapes %s != %s %s' % (msg, a.shape, b.shape, short(witness)))
        if a.size == 0:
            return
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            raise Violated('%s: non-finite values %s %s %s' % (msg, short(a), short(b), short(witness)))
        if scale is None:
            scale = max(np.max(np.abs(a)), np.max(np.abs(b)))
        err = np.max(np.abs(a - b)) / max(scale, 1.)
        self.margin[msg] = max(self.margin.get(msg, 0.), float(err))
        if not err <= tol:
            raise Violated('%s: relative deviation %.3g > %.3g\n  got      %s\n  expected %s %s'
                           % (msg, err, tol, short(a), short(b), short(witness)))

    def known_or(self, key, cond, msg, **witness):
        """check(), except that a failure matching the listed finding `key` is
        counted instead (the finding is identified by the precise condition at
        the call site of this method).  Returns cond."""
        if not cond and key in self.known_keys:
            self.events['oracle verdicts'] += 1
            self.ncase_checks += 1
            self.known[key] += 1
            return False
        self.check(cond, msg, **witness)
        return True

    def raises(self, exc, func, msg):
        self.events['oracle verdicts'] += 1
        self.ncase_checks += 1
        try:
            r = func()
        except exc:
            return
        except Exception as ex:
            raise Violated('%s: expected %s, got %r' % (msg, exc, ex))
        raise Violated('%s: expected %s, but call returned %s' % (msg, exc, short(r)))


def short(x, n=1500):
    try:
        if isinstance(x, dict):
            s = ', '.join('%s=%s' % (k, short(v, n // 2)) for k, v in x.items())
        else:
            s = repr(x)
    except Exception as ex:
        s = '<unprintable %r>' % ex
    return s if len(s) <= n else s[:n] + '...'


def load(prop):
    return importlib.import_module('vf.props.' + prop.lower())


def case_rng(seed, prop, family, idx):
    import numpy as np
    return np.random.default_rng([seed, zlib.crc32(prop.encode()), zlib.crc32(family.encode()), idx])


def case_list(mod, tier, only=None):
    out = []
    for name, (func, nq, nt) in mod.FAMILIES.items():
        if only and name != only:
            continue
        out += [(name, i) for i in range(nq if tier == 'quick' else nt)]
    return out


def run_case(mod, prop, seed, family, idx, rec):
    """-> None or a violation record"""
    import numpy as np
    rng = case_rng(seed, prop, family, idx)
    np.random.seed(zlib.crc32(('%s %s %d %d' % (prop, family, seed, idx)).encode()))
    rec.begin()

    def on_timer(sig, frame):
        raise CpuBound()

    signal.signal(signal.SIGPROF, on_timer)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S * getattr(mod, 'CPU_FACTOR', 1))
    t0 = time.process_time()
    try:
        mod.FAMILIES[family][0](rng, rec)
        rec.events['cases held'] += 1
        if rec.ncase_checks == 0:
            rec.skipped['no oracle reached'] += 1
    except Skip as ex:
        rec.skipped[str(ex)] += 1
    except CpuBound:
        return dict(family=family, idx=idx, kind='no progress',
                    msg='case still running after %.0f s of CPU time' % (time.process_time() - t0),
                    context=short(rec.context, 4000))
    except Violated as ex:
        return dict(family=family, idx=idx, kind='oracle', msg=str(ex),
                    context=short(rec.context, 4000), tb=traceback.format_exc(limit=-6))
    except Exception as ex:
        return dict(family=family, idx=idx, kind='exception',
                    msg='%s: %s' % (type(ex).__name__, short(str(ex), 800)),
                    context=short(rec.context, 4000), tb=traceback.format_exc(limit=-8))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if len(rec.samples) < 3 and rec.context:
        rec.samples.append(dict(family=family, idx=idx, case=short(rec.context, 600)))
    return None


def setup_process():
    import warnings
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    import qsymm
    where = os.path.realpath(qsymm.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('qsymm imported from %s instead of %s' % (where, REPO))


def worker(w, nproc, prop, tier, seed, deadline, only, queue):
    faulthandler.enable()
    rec = Recorder(prop)
    violations = []
    times = Counter()
    ncase = Counter()
    late = 0
    try:
        mod = load(prop)
        if hasattr(mod, 'worker_init'):
            mod.worker_init(rec, seed * 1000 + w)
        cases = case_list(mod, tier, only)[w::nproc]
        for family, idx in cases:
            if time.time() > deadline:
                late += 1
                continue
            t0 = time.time()
            v = run_case(mod, prop, seed, family, idx, rec)
            times[family] += time.time() - t0
            ncase[family] += 1
            if v:
                violations.append(v)
                if len(violations) >= 8:
                    break
        if hasattr(mod, 'worker_done'):
            mod.worker_done(rec)
    except BaseException as ex:
        violations.append(dict(family='<worker>', idx=w, kind='exception',
                               msg='%s: %s' % (type(ex).__name__, short(str(ex))),
                               tb=traceback.format_exc(limit=-8)))
    queue.put(dict(w=w, events=rec.events, sigs=rec.sigs, samples=rec.samples, skipped=rec.skipped,
                   margin=rec.margin, violations=violations, times=times, ncase=ncase, late=late,
                   known=rec.known))


def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: '):
                f = line[len('finding: '):].split(None, 2)
                if f[0] == 'property=' + prop and f[1].startswith('key='):
                    out[f[1][4:]] = f[2]
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--family')
    ap.add_argument('--idx', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--times', action='store_true')
    a = ap.parse_args(argv)
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'

    if a.replay:
        r = json.load(open(a.replay))
        seed, a.family, a.idx = r['seed'], r['family'], r['idx']
        tier = r['tier']
        print('replaying', {k: r[k] for k in ('seed', 'family', 'idx', 'tier')})
    try:
        setup_process()
        mod = load(prop)
    except Exception:
        # the code under test cannot even be imported or driven
        return report(prop, tier, seed, [dict(family='<import>', idx=0, kind='exception',
                      msg='import of the code under test failed', tb=traceback.format_exc(limit=-6))],
                      {}, t0, None)
    if a.idx is not None:
        rec = Recorder(prop)
        if hasattr(mod, 'worker_init'):
            mod.worker_init(rec, seed * 1000)
        v = run_case(mod, prop, seed, a.family, a.idx, rec)
        print('context:', short(rec.context, 6000))
        print('events:', dict(rec.events), 'skipped:', dict(rec.skipped))
        if v:
            print(v['kind'], v['msg'])
            print(v.get('tb', ''))
            print('VIOLATION property=%s replay=%s' % (prop, a.replay or '-'))
            return 1
        print('held')
        return 0

    budget = float(os.environ.get('VERIF_BUDGET_S', '600' if tier == 'quick' else '14400'))
    deadline = t0 + budget
    ctx = mp.get_context('fork')
    queue = ctx.Queue()
    procs = [ctx.Process(target=worker, args=(w, NPROC, prop, tier, seed, deadline, a.family, queue))
             for w in range(NPROC)]
    for p in procs:
        p.start()
    results, dead = [], []
    pending = set(range(NPROC))
    while pending:
        try:
            r = queue.get(timeout=1.)
            results.append(r)
            pending.discard(r['w'])
        except Exception:
            for w in list(pending):
                if not procs[w].is_alive():
                    # give the queue a last chance
                    try:
                        while True:
                            r = queue.get(timeout=1.)
                            results.append(r)
                            pending.discard(r['w'])
                    except Exception:
                        pass
                    if w in pending:
                        dead.append(w)
                        pending.discard(w)
        if time.time() > deadline + 200:
            for w in pending:
                procs[w].kill()
            dead += list(pending)
            break
    for p in procs:
        p.join(10)
    tot = dict(events=Counter(), sigs=set(), samples=[], skipped=Counter(), margin={}, times=Counter(),
               ncase=Counter(), late=0, known=Counter())
    violations = []
    for r in sorted(results, key=lambda r: r['w']):
        tot['events'] += r['events']
        tot['sigs'] |= r['sigs']
        tot['samples'] += r['samples']
        tot['skipped'] += r['skipped']
        tot['times'] += r['times']
        tot['ncase'] += r['ncase']
        tot['late'] += r['late']
        tot['known'] += r['known']
        for k, m in r['margin'].items():
            tot['margin'][k] = max(tot['margin'].get(k, 0.), m)
        violations += r['violations']
    for w in dead:
        violations.append(dict(family='<worker>', idx=w, kind='crash',
                               msg='worker process %d died or hung (exit code %s)' % (w, procs[w].exitcode)))
    if a.times:
        for k, v in tot['times'].most_common():
            print('  %-28s n=%-6d %.2f s cpu, %.4f s/case' % (k, tot['ncase'][k], v, v / max(1, tot['ncase'][k])))
        print('  events', dict(tot['events']), 'distinct', len(tot['sigs']), 'skipped', dict(tot['skipped']))
        print('  margins', {k: '%.1e' % v for k, v in sorted(tot['margin'].items(), key=lambda x: -x[1])[:12]})
        print('  late', tot['late'], 'wall %.1f' % (time.time() - t0))
    return report(prop, tier, seed, violations, tot, t0, mod)


def report(prop, tier, seed, violations, tot, t0, mod):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = tot.get('events', Counter())
    held = ev.get('cases held', 0)
    required = getattr(mod, 'REQUIRED_EVENTS', ()) if mod else ()
    coverage = dict(
        evaluations=int(sum(tot.get('ncase', {}).values())),
        distinct_nontrivial=len(tot.get('sigs', ())),
        rule=(mod.RULE if mod else 'the code under test could not be imported'),
        samples=tot.get('samples', [])[:6] or [dict(note='no case completed')],
        monitor_events={k: int(v) for k, v in sorted(ev.items())},
        cases_per_workload={k: int(v) for k, v in sorted(tot.get('ncase', {}).items())},
        inconclusive={k: int(v) for k, v in sorted(tot.get('skipped', {}).items())},
        not_started_before_deadline=int(tot.get('late', 0)),
        largest_numerical_deviation={k: v for k, v in sorted(tot.get('margin', {}).items(),
                                                            key=lambda x: -x[1])[:20]},
    )
    out = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=coverage,
               assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) if mod else [],
               wall_s=round(time.time() - t0, 2), violations=len(violations))
    known = known_findings(prop)
    for key in sorted(known):
        if tot.get('known', {}).get(key):
            print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(out, f, indent=1)
    if violations:
        d = os.path.join(VERIF, 'replays', prop)
        os.makedirs(d, exist_ok=True)
        for v in violations[:MAX_REPORTED]:
            path = os.path.join(d, '%s-%s-s%d-%s.json' % (
                ''.join(c if c.isalnum() else '_' for c in v['family']), v['idx'], seed, tier))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, **v,
                               rerun='cd %s && ./check %s --replay %s' % (VERIF, prop, path)), f, indent=1)
            print('%s case %s/%s [%s]' % (prop, v['family'], v['idx'], v['kind']))
            print('   ' + v['msg'].replace('\n', '\n   ')[:1800])
            print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, VERIF)))
        print('%d violations, %d cases held' % (len(violations), held))
        return 1
    missing = [e for e in required if not ev.get(e)]
    if missing or not held:
        print('INCONCLUSIVE property=%s monitors never reached: %s' % (prop, missing or 'no case held'))
        return 2
    print('OK property=%s tier=%s seed=%d: %d executions held, %d oracle verdicts, %d distinct states, '
          '%d inconclusive, %.1f s' % (prop, tier, seed, held, ev['oracle verdicts'],
                                      len(tot['sigs']), sum(tot['skipped'].values()), time.time() - t0))
    return 0
