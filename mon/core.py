'''Verdicts, counters, replay files and evidence.'''
import collections
import hashlib
import json
import os
import time
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('PYORB_EVIDENCE_DIR') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
MAX_VIOLATIONS = 5
# quick checks that are fast take a larger workload
SCALE = dict(C01=2, C03=2, C07=2, C08=3, C10=3, C11=6, C12=6, C13=8, C14=3, C16=4, C17=4, O09=2, O14=3)


class StopRun(Exception):
    pass


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.dtype == np.longdouble:
            x = x.astype(np.float64)
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        if isinstance(x, np.longdouble):
            return float(x)
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            # known: property=<id> mechanism=<key> <what fails>
            if line.startswith('known:'):
                w = line.split(None, 3)
                d = dict(x.split('=', 1) for x in w[1:3])
                out[(d['property'], d['mechanism'])] = w[3]
    return out


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.bins = collections.Counter()
        self.floors = {}
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.nviol = 0
        self.known = load_known()
        self.known_hit = {}
        self.case = None
        self.rule = ''
        self.assumptions = []
        self.worst = {}
        self.replaying = False
        self.extra = {}
        self.quiet = False

    # ---- random streams: one per purpose, so that adding cases to one
    # purpose does not shift another
    def rng(self, *names):
        key = [self.seed] + [zlib.crc32(str(n).encode()) for n in (self.prop,) + names]
        return np.random.default_rng(key)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else min(thorough, quick*SCALE.get(self.prop, 1))

    # ---- counting
    def count(self, name, n=1):
        self.bins[name] += int(n)

    def need(self, name, n):
        self.floors[name] = n

    def judged(self, key, n=1, sample=None):
        '''A verdict was reached by the oracle on n cases; key identifies
        the case (anything hashable to bytes).'''
        self.evals += n
        if isinstance(key, np.ndarray):
            key = key.tobytes()
        elif not isinstance(key, bytes):
            key = repr(key).encode()
        self.distinct.add(hashlib.blake2b(key, digest_size=8).digest())
        if sample is not None:
            self.sample(sample)

    def judged_cols(self, arr, mask=None, tag=b''):
        arr = np.asarray(arr)
        cols = np.ascontiguousarray(arr.T)
        if mask is None:
            mask = np.ones(len(cols), bool)
        for k in np.nonzero(mask)[0]:
            self.evals += 1
            self.distinct.add(hashlib.blake2b(tag + cols[k].tobytes(), digest_size=8).digest())

    def sample(self, obj, cap=6):
        if len(self.samples) < cap:
            self.samples.append(jsonable(obj))

    def ratio(self, name, err, tol):
        '''Track how close to the tolerance the observations came.'''
        err = np.asarray(err, dtype=np.float64)
        tol = np.asarray(tol, dtype=np.float64)
        if err.size:
            with np.errstate(all='ignore'):
                r = np.nanmax(np.where(err == 0, 0.0, err/tol)) if np.any(np.isfinite(err)) else np.nan
            if np.isfinite(r) and r > self.worst.get(name, -1):
                self.worst[name] = float(r)

    # ---- verdicts
    def violate(self, mech, msg, **detail):
        k = (self.prop, mech)
        if k in self.known:
            if k not in self.known_hit:
                print(f'KNOWN-FINDING: property={self.prop} {self.known[k]}', flush=True)
            self.known_hit[k] = self.known_hit.get(k, 0) + 1
            return
        self.nviol += 1
        os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
        path = os.path.join(EVID, 'replays', f'{self.prop}-{self.tier}-{self.seed}-{self.nviol}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed,
                           mechanism=mech, message=msg,
                           case=jsonable(self.case), detail=jsonable(detail)), f, indent=1)
        print(f'VIOLATION property={self.prop} replay={path}')
        print(f'  {mech}: {msg}', flush=True)
        if detail:
            print('  ' + json.dumps(jsonable(detail))[:1500], flush=True)
        if self.nviol >= MAX_VIOLATIONS:
            raise StopRun()

    def check(self, ok, mech, msg, **detail):
        if not ok:
            self.violate(mech, msg, **detail)
        return bool(ok)

    def within(self, name, err, tol, msg, skip=None, **detail):
        '''Vector comparison err <= tol, NaN err counts as violation.'''
        err = np.atleast_1d(np.asarray(err, dtype=np.float64))
        tol = np.atleast_1d(np.asarray(tol, dtype=np.float64))
        err, tol = np.broadcast_arrays(err, tol)
        ok = err <= tol
        if skip is not None:
            ok = ok | skip
            self.ratio(name, np.where(skip, 0, err), tol)
        else:
            self.ratio(name, err, tol)
        if not np.all(ok):
            k = int(np.argmin(ok.ravel()))
            self.violate(name, msg, error=err.ravel()[k], tolerance=tol.ravel()[k],
                         index=k, n_bad=int(np.sum(~ok)),
                         **{a: (f(k) if callable(f) else f) for a, f in detail.items()})
            return False
        return True

    # ---- the same monitors in several processes
    def export(self):
        return dict(bins=self.bins, evals=self.evals, distinct=self.distinct, worst=self.worst, known_hit=self.known_hit,
                    calls=self.extra.get('library_calls_observed', {}))

    def merge(self, d):
        self.bins.update(d['bins'])
        self.evals += d['evals']
        self.distinct |= d['distinct']
        for k, v in d['worst'].items():
            self.worst[k] = max(v, self.worst.get(k, v))
        for k, v in d['known_hit'].items():
            self.known_hit[k] = self.known_hit.get(k, 0) + v
        calls = self.extra.setdefault('library_calls_observed', {})
        for k, v in d['calls'].items():
            calls[k] = calls.get(k, 0) + v

    # ---- finish
    def evidence_wall(self):
        return time.time() - self.t0

    def inconclusive(self):
        return {k: (self.bins.get(k, 0), v) for k, v in self.floors.items()
                if self.bins.get(k, 0) < v}

    def write_evidence(self):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(evaluations=self.evals,
                   distinct_nontrivial=len(self.distinct),
                   rule=self.rule,
                   samples=self.samples or [dict(note='no case was judged')],
                   observed=dict(sorted(self.bins.items())),
                   required=dict(sorted(self.floors.items())),
                   largest_error_over_tolerance={k: float('%.3g' % v) for k, v in sorted(self.worst.items())},
                   known_findings_hit={' '.join(k): v for k, v in self.known_hit.items()})
        cov.update(self.extra)
        d = dict(property=self.prop, tier=self.tier, seed=self.seed,
                 level='exploration', coverage=jsonable(cov),
                 assumptions=self.assumptions,
                 wall_s=round(time.time() - self.t0, 3), violations=self.nviol)
        tmp = os.path.join(EVID, f'.{self.prop}.{os.getpid()}.tmp')
        with open(tmp, 'w') as f:
            json.dump(d, f, indent=1)
        os.replace(tmp, os.path.join(EVID, f'{self.prop}.json'))
