"""Bounded-exhaustive explorer: enumerate every case of a check, run each on the
real code, compare with a reference, count what was covered.

A check is a module mc/props/cXX.py with

    BOUNDS = {...}                    # stated bounds, copied into the evidence
    def cases(tier): yield case ...   # JSON-able, simplest first, deterministic
    def run(ctx, case): ...           # drives the real code; ctx.fail(...) on a violation

Every process enumerates the same sequence of cases and takes its own stride.
An exception that escapes run() is a violation of its own (the reference defines
a result for every case, so the code under test must produce one).
"""
import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT = 90          # seconds one case may take before it counts as not terminating
MAX_FAILS = 3            # failures kept per worker


class Hang(Exception):
    pass


class Violation(Exception):
    pass


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


class Ctx(object):
    """What a case reports to."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.outcomes = {}
        self.samples = []
        self.fails = []
        self.known = []
        self.notes = {}
        self.index = None
        self.case = None
        self.loc = None

    def state(self, *key):
        """A distinct state of the system under test was reached; True if new."""
        k = h64(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def step(self, n=1):
        """n operations were executed on the real code."""
        self.transitions += n

    def trace(self, outcome='ok'):
        """One complete execution was compared with the reference."""
        self.traces += 1
        o = str(outcome)
        self.outcomes[o] = self.outcomes.get(o, 0) + 1

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def fail(self, msg, key=None, **detail):
        raise Violation(json.dumps(dict(msg=msg, key=key, detail=jsonable(detail))))

    def check(self, cond, msg, key=None, **detail):
        if not cond:
            self.fail(msg, key=key, **detail)


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, complex):
        return 'complex(%r,%r)' % (x.real, x.imag)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


@contextlib.contextmanager
def quiet():
    """Capture standard output of the code under test."""
    old = sys.stdout
    sys.stdout = buf = io.StringIO()
    try:
        yield buf
    finally:
        sys.stdout = old


def _alarm(signum, frame):
    raise Hang('case did not finish within %d s' % CASE_LIMIT)


def worker(mod, prop, tier, seed, wid, nw, deadline, only=None):
    import numpy as np
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    signal.signal(signal.SIGALRM, _alarm)
    ctx = Ctx(prop, tier, seed)
    capped = None
    total = 0
    for i, case in enumerate(mod.cases(tier)):
        total = i + 1
        if i % nw != wid:
            continue
        if only is not None and i != only:
            continue
        if time.time() > deadline:
            capped = i
            break
        if len(ctx.fails) >= MAX_FAILS:
            break
        ctx.index, ctx.case = i, case
        ctx.evals += 1
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
        try:
            with quiet():
                mod.run(ctx, case)
        except Violation as e:
            d = json.loads(str(e))
            d.update(index=i, case=jsonable(case))
            ctx.fails.append(d)
        except Hang as e:
            ctx.fails.append(dict(msg=str(e), key=None, detail={}, index=i, case=jsonable(case)))
        except Exception as e:
            ctx.fails.append(dict(msg='unexpected %s: %s' % (type(e).__name__, e), key=None,
                                  detail=dict(traceback=traceback.format_exc().splitlines()[-12:]),
                                  index=i, case=jsonable(case)))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(states=ctx.states, transitions=ctx.transitions, traces=ctx.traces, evals=ctx.evals,
                outcomes=ctx.outcomes, samples=ctx.samples, fails=ctx.fails, notes=ctx.notes,
                capped=capped, total=total)


def _child(args):
    mod, prop, tier, seed, wid, nw, deadline = args
    try:
        return worker(mod, prop, tier, seed, wid, nw, deadline)
    except BaseException as e:        # enumeration itself failed: an error of the check
        return dict(error=traceback.format_exc())


def known_findings(prop):
    out = {}
    p = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('{'):
                continue
            d = json.loads(line)
            if d['property'] == prop and d.get('status') == 'known':
                out[d['key']] = d['what']
    return out


def explore(mod, prop, level, tier, seed, jobs=8, budget=None):
    t0 = time.time()
    deadline = t0 + (budget or (780 if tier == 'quick' else 6 * 3600))
    args = [(mod, prop, tier, seed, w, jobs, deadline) for w in range(jobs)]
    if jobs == 1:
        parts = [_child(args[0])]
    else:
        parts = _fork_map(args)
    errs = [p['error'] for p in parts if 'error' in p]
    if errs:
        sys.stderr.write(errs[0])
        return 2
    states = set()
    tot = dict(transitions=0, traces=0, evals=0)
    outcomes, notes, samples, fails = {}, {}, [], []
    capped = None
    for p in parts:
        states |= p['states']
        for k in tot:
            tot[k] += p[k]
        for k, v in p['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in p['notes'].items():
            notes[k] = notes.get(k, 0) + v
        samples += p['samples']
        fails += p['fails']
        if p['capped'] is not None:
            capped = p['capped'] if capped is None else min(capped, p['capped'])
    kf = known_findings(prop)
    real = sorted((f for f in fails if f['key'] not in kf), key=lambda f: f['index'])
    for k, v in kf.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, v))
    wall = time.time() - t0
    cov = dict(samples=(samples + [dict(outcomes=outcomes)])[:6], bounds=getattr(mod, 'BOUNDS', {}),
               exhaustive=capped is None and not real, outcomes=outcomes, notes=notes)
    if level == 'fault_enumeration':
        cov.update(evaluations=tot['traces'], distinct_nontrivial=len(states),
                   rule=getattr(mod, 'RULE', 'distinct (system, solver, options, fault point) executions'))
    else:
        cov.update(states=len(states), transitions=tot['transitions'],
                   traces_validated_against_impl=tot['traces'], cases=tot['evals'])
    if capped is not None:
        cov['capped_at_case'] = capped
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(real))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(jsonable(ev), f, indent=1)
        f.write('\n')
    print('%s tier=%s cases=%d states=%d transitions=%d traces=%d wall=%.1fs%s' % (
        prop, tier, tot['evals'], len(states), tot['transitions'], tot['traces'], wall,
        '' if capped is None else ' CAPPED at case %d' % capped))
    top = sorted(outcomes.items(), key=lambda kv: -kv[1])[:12]
    print('  outcomes: ' + ', '.join('%s=%d' % kv for kv in top))
    if notes:
        print('  notes: ' + ', '.join('%s=%d' % kv for kv in sorted(notes.items())))
    if not real:
        return 0
    os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
    path = os.path.join('replay', '%s-%d.json' % (prop, real[0]['index']))
    with open(os.path.join(ROOT, path), 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, how='./check %s --tier %s --replay %s' % (prop, tier, path),
                       failures=real[:10]), f, indent=1)
        f.write('\n')
    for f in real[:3]:
        print('  case %d %s: %s' % (f['index'], json.dumps(f['case'])[:300], f['msg'][:500]))
        if f['detail']:
            print('    ' + json.dumps(f['detail'])[:1500])
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def _fork_map(args):
    """Run _child for every argument in a process of its own."""
    import pickle
    procs = []
    for a in args:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                data = pickle.dumps(_child(a))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        procs.append((pid, r))
    out = []
    for pid, r in procs:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.append(pickle.loads(data) if data else dict(error='worker %d died\n' % pid))
    return out


def replay(mod, prop, tier, seed, path):
    d = json.load(open(path))
    rc = 0
    for f in d['failures']:
        r = worker(mod, prop, d['tier'], d['seed'], 0, 1, time.time() + 3600, only=f['index'])
        for g in r['fails']:
            rc = 1
            print(json.dumps(g, indent=1))
    if rc:
        print('VIOLATION property=%s replay=%s' % (prop, path))
    return rc
