"""Exploration engine: enumerate jobs in parallel worker processes, evaluate an
oracle on every enumerated state, collect violations, write replay files and
evidence.  Nothing here is sampled; every enumerated state is evaluated."""
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
from multiprocessing import get_context

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('KIUTILS_REPO', '/repo')
sys.path[:0] = [HERE, os.path.join(REPO, 'src')]

from model import Q, Node, V, MODELS          # noqa: E402

WORKERS = int(os.environ.get('MC_WORKERS', '8'))
MAX_VIOL = 3            # per job; a job stops early once it has shown the property broken
HANG_S = 60

ORACLES = {}            # name -> fn(*args) -> None | message


def oracle(fn):
    ORACLES[fn.__name__] = fn
    return fn


class Hang(BaseException):
    pass


def _on_alarm(*_):
    raise Hang()


# ------------------------------------------------------------------ JSON form
def enc(x):
    if isinstance(x, V):
        return {'V': x.c, 'd': {k: enc(v) for k, v in x.d.items()}}
    if isinstance(x, Q):
        return {'Q': str(x)}
    if isinstance(x, Node):
        return {'N': [enc(e) for e in x], 'a': [x.nfixed, x.open, x.rigid, list(x.groups)]}
    if isinstance(x, dict):
        return {'D': [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, tuple):
        return {'T': [enc(e) for e in x]}
    if isinstance(x, list):
        return [enc(e) for e in x]
    if isinstance(x, bytes):
        return {'B': x.decode('latin-1')}
    return x


def dec(x):
    if isinstance(x, list):
        return [dec(e) for e in x]
    if isinstance(x, dict):
        if 'V' in x:
            return V(x['V'], {k: dec(v) for k, v in x['d'].items()})
        if 'Q' in x:
            return Q(x['Q'])
        if 'N' in x:
            a = x['a']
            return Node([dec(e) for e in x['N']], a[0], a[1], a[2], tuple(a[3]))
        if 'D' in x:
            return {dec(k): dec(v) for k, v in x['D']}
        if 'T' in x:
            return tuple(dec(e) for e in x['T'])
        if 'B' in x:
            return x['B'].encode('latin-1')
    return x


# ------------------------------------------------------------------- workers
class Tally:
    def __init__(self):
        self.transitions = self.traces = 0
        self.seen = set()       # hashes of the distinct states
        self.viol = []
        self.samples = []
        self.extra = {}

    @property
    def states(self):
        return len(self.seen)

    def ev(self, name, *args, transitions=1, traces=1, sample=None):
        """evaluate one oracle on one state; True when it held.  states: distinct model states; traces: executions of
        the real code compared with the model (several oracles can replay one state); transitions: library calls in them"""
        self.seen.add(hash(repr(args)))
        self.transitions += transitions
        self.traces += traces
        signal.setitimer(signal.ITIMER_REAL, HANG_S)
        try:
            msg = ORACLES[name](*args)
        except Hang:
            msg = f'no result within {HANG_S} s'
        except Exception as e:        # an oracle only lets unexpected errors of the code through
            msg = f'{type(e).__name__}: {e}'[:300] + ' @ ' + where(e)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if msg:
            self.viol.append((name, args, str(msg)[:2000]))
        if len(self.samples) < 3:
            self.samples.append(sample if sample is not None else f'{name}{args!r}'[:300])
        return not msg

    @property
    def full(self):
        return len(self.viol) >= MAX_VIOL

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-3:][::-1])


def _work(job):
    fn, args = job
    signal.signal(signal.SIGALRM, _on_alarm)
    t = Tally()
    t0 = time.time()
    try:
        getattr(importlib.import_module(fn[0]), fn[1])(t, *args)
    except Exception as e:
        t.viol.append(('crash', (list(fn), list(args)), f'{type(e).__name__}: {e} @ {where(e)}'))
    return (t.states, t.transitions, t.traces, [(n, enc(list(a)), m) for n, a, m in t.viol], t.samples, t.extra, fn[1], args, time.time() - t0)


@oracle
def crash(fn, args):
    t = Tally()
    getattr(importlib.import_module(fn[0]), fn[1])(t, *args)
    return t.viol[0][2] if t.viol else None


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.viol, self.samples, self.extra = [], [], {}
        self.assumptions, self.bounds, self.known = [], {}, []
        self.jobs = 0

    def explore(self, module, fn, argslist):
        """run fn(tally, *args) of checks module `module` for every args tuple"""
        jobs = [((module, fn), tuple(a)) for a in argslist]
        self.run(jobs)

    def run(self, jobs):
        self.jobs += len(jobs)
        ctx = get_context('fork')
        prof = os.environ.get('MC_PROFILE')
        with ctx.Pool(min(WORKERS, max(1, len(jobs))), maxtasksperchild=1) as pool:
            for st, tr, ts, vi, sa, ex, name, args, dt in pool.imap_unordered(_work, jobs, chunksize=1):
                if prof:
                    print(f'{dt:7.2f}s {st:8d} {name}{args}', file=sys.stderr)
                self.states += st
                self.transitions += tr
                self.traces += ts
                self.viol += vi
                for k, v in ex.items():
                    self.extra[k] = self.extra.get(k, 0) + v
                self.samples.append((str(name), str(args), sa))
        self.samples.sort()

    # ---------------------------------------------------------------- output
    def finish(self):
        known = load_known()
        rest, seen = [], {}
        for n, a, m in sorted(self.viol, key=lambda x: json.dumps(x, sort_keys=True, default=str)):
            for k in known:
                if k['property'] == self.prop and k['oracle'] == n and k['match'] in m:
                    seen[k['id']] = k
                    break
            else:
                rest.append((n, a, m))
        for k in known:
            if k['property'] == self.prop and k['id'] in seen:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        paths = []
        for n, a, m in rest[:5]:
            d = os.path.join(VERIF, 'evidence', 'replays')
            os.makedirs(d, exist_ok=True)
            body = {'property': self.prop, 'oracle': n, 'args': a, 'message': m, 'run': f'python3 mc/run.py --replay <this file>'}
            h = hashlib.sha1(json.dumps([n, a], sort_keys=True).encode()).hexdigest()[:12]
            p = os.path.join(d, f'{self.prop}-{h}.json')
            with open(p, 'w') as f:
                json.dump(body, f, indent=1, ensure_ascii=True)
            paths.append(p)
            print(f'{self.prop}: {n}: {m[:600]}')
            print(f'VIOLATION property={self.prop} replay={p}')
        samples = [s for _, _, sa in self.samples for s in sa]
        step = max(1, len(samples) // 12)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': dict({'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
                              'jobs': self.jobs, 'exhaustive': not rest, 'bounds': self.bounds, 'samples': samples[::step][:12]}, **self.extra),
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(rest),
            'known_findings': sorted(seen),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print(f'{self.prop} [{self.tier}] states={self.states} transitions={self.transitions} wall={ev["wall_s"]}s violations={len(rest)}')
        return 1 if rest else 0


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']
