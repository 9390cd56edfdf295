'''O15: orbit objects beside one another.'''
import copy
import gc
import os
import pickle
import subprocess
import sys
import tempfile
import threading

import numpy as np

from . import inst
from . import orb as W
from .orb import Gen, Obs, apply, bits, cp, make
from .orb_checks import Hist

OPS = ['kepler', 'kepler6', 'elem', 'elem', 'cartesian', 'cartesian6', 'row', 'part', 'velocity', 'anomaly', 'period', 'mean_motion', 'equinoctial',
       'type', 'type', 'propagate', 'propagate', 'propagate', 'mass', 'recalc', 'read', 'mode', 'copy', 'delete', 'subset', 'add', 'update']
DERIVED = ('true_anomaly', 'eccentric_anomaly', 'mean_anomaly', 'period', 'mean_motion', 'speed', 'velocity', 'periapsis', 'apoapsis', 'mean_longitude', 'r', 'v')


def fresh_library():
    '''The library as a process finds it that has done nothing with it yet.'''
    mine = lambda: [k for k in sys.modules if k == 'pyorb' or k.startswith('pyorb.')]
    saved = {k: sys.modules.pop(k) for k in mine()}
    try:
        import pyorb
        assert os.path.realpath(pyorb.__file__).startswith(inst.REPO + os.sep)
        import pyorb.kepler
        return pyorb
    finally:
        for k in mine():
            del sys.modules[k]
        sys.modules.update(saved)


def look(orb):
    '''All that can be read, as bytes, from a copy.'''
    a = copy.deepcopy(orb)
    out = [('kepler', bits(a.kepler)), ('cartesian', bits(a.cartesian)), ('m', bits(a.m)), ('settings', repr(sorted(W.settings(orb).items())))]
    with np.errstate(all='ignore'):
        for q in DERIVED:
            out.append((q, bits(getattr(a, q))))
        if a.num:
            out.append(('equinoctial', bits(a.equinoctial)))
    return out


def start(P, seed):
    rng = np.random.default_rng(seed)
    # the solvers seldom reach their tolerance in single precision, which is slow
    dt = ([None]*11 + [np.float32] + [np.longdouble]*4)[rng.integers(16)]
    a, L, mode = make(rng, P, num=W.size(rng, 1, 6), dtype=dt)
    return rng, a, L


def record(P, seed, steps):
    '''A history on its own: the operations and what was seen after each.'''
    rng, a, L = start(P, seed)
    g = Gen(rng, L)
    ops, seen = [], [look(a)]
    for _ in range(steps):
        d = g.op(Obs(a, False), OPS)
        ops.append(copy.deepcopy(d))
        a = apply(a, d)
        seen.append(look(a))
    return ops, seen


def replay(P, seed, ops):
    rng, a, L = start(P, seed)
    yield look(a)
    for d in ops:
        a = apply(a, copy.deepcopy(d))
        yield look(a)


CHILD = '''
import os, pickle, sys, warnings
warnings.simplefilter('ignore')
from mon import inst
import pyorb
from mon.orb_more import replay
with open(sys.argv[1], 'rb') as f:
    jobs = pickle.load(f)
with open(sys.argv[2], 'wb') as f:
    pickle.dump([list(replay(pyorb, seed, ops)) for seed, ops in jobs], f)
'''


class O15(Hist):
    rule = ('one case is one orbit object at one point of its history; it counts when everything that can be read from it was compared, bit for bit, '
            'with the same history run alone in a freshly loaded library; distinct by history and step')
    assumptions = ['histories that run alone in a freshly loaded copy of the library are the reference',
                   'the same calculation on the same numbers gives the same bits on one machine']
    quick, deep = 130, 4000
    kinds = ('beside', 'beside', 'threads', 'beside', 'again', 'beside', 'process')

    def setup(self):
        for k in ('beside', 'threads', 'again', 'process', 'discarded', 'tampered settings'):
            self.ctx.need(k, 20 if k != 'process' else 4)
        self.processes = 0

    def differs(self, want, got, what, seed, ops, step):
        for (nm, u), (_, w) in zip(want, got):
            if u != w:
                show = lambda b: b if not isinstance(b, tuple) or b[1] == 'float128' else np.frombuffer(b[2], dtype=b[1]).reshape(b[0])
                self.ctx.violate(what, f'{nm} of an object is not what its own history gives', alone=show(u), got=show(w), step=step,
                                 history=[W.describe(d) for d in ops[max(0, step - 6):step]], seed=seed)
                return True
        return False

    def reference(self, rng, n):
        out = []
        for _ in range(n):
            seed = int(rng.integers(2**31))
            ops, seen = record(fresh_library(), seed, int(rng.integers(3, 12)))
            out.append((seed, ops, seen))
        return out

    def counted(self, kind, seed, n):
        self.ctx.count(kind, n)
        for k in range(n):
            self.ctx.judged((kind, seed, k))

    def noise(self, rng):
        '''Other use of the library: objects made, changed and thrown away.'''
        P, ctx = self.pyorb, self.ctx
        c = rng.integers(5)
        if c == 0:
            make(rng, P)
            ctx.count('discarded')
        elif c == 1:
            o, _, _ = make(rng, P, num=1)
            o.solver_options['tol'] = 1e-3
            o.solver_options['max_iter'] = 3
            o.G, o.M0 = o.G*2, o.M0*3
            o.degrees = not o.degrees
            o.cartesian
            ctx.count('tampered settings')
        elif c == 2:
            o = P.Orbit(2.0, G=3.0, solver_options=dict(tol=1e-2, degree=3), type='mean', degrees=True, num=2,
                        a=rng.uniform(1, 2, 2), e=0.5, i=10.0, omega=20.0, Omega=30.0, anom=40.0)
            o.propagate(1.0)
            ctx.count('tampered settings')
        elif c == 3:
            e = rng.uniform(0, 0.9)
            P.mean_to_eccentric(1.0, e, solver_options=dict(tol=0.1, max_iter=2, degree=2))
            P.cart_to_kep(rng.normal(size=(6, 3)))
            ctx.count('discarded')
        else:
            gc.collect()

    def do_beside(self, rng):
        refs = self.reference(rng, int(rng.integers(2, 5)))
        runs = [[replay(self.pyorb, seed, ops), 0] for seed, ops, _ in refs]
        live = list(range(len(refs)))
        while live:
            j = live[int(rng.integers(len(live)))]
            seed, ops, seen = refs[j]
            r = runs[j]
            try:
                got = next(r[0])
            except StopIteration:
                live.remove(j)
                self.counted('beside', seed, len(seen))
                continue
            if self.differs(seen[r[1]], got, 'beside', seed, ops, r[1]):
                return
            r[1] += 1
            if rng.random() < 0.3:
                self.noise(rng)

    def do_again(self, rng):
        '''The same history a second and a third time.'''
        (seed, ops, seen), = self.reference(rng, 1)
        for _ in range(2):
            for k, got in enumerate(replay(self.pyorb, seed, ops)):
                if self.differs(seen[k], got, 'again', seed, ops, k):
                    return
            self.noise(rng)
        self.counted('again', seed, len(seen))

    def do_threads(self, rng):
        refs = self.reference(rng, 3)
        P = fresh_library()
        out = [None]*len(refs)
        gate = threading.Barrier(len(refs))

        def work(j):
            seed, ops, _ = refs[j]
            try:
                gate.wait()
                out[j] = list(replay(P, seed, ops))
            except Exception as e:
                out[j] = e
        old = sys.getswitchinterval()
        sys.setswitchinterval(2e-6)
        try:
            ts = [threading.Thread(target=work, args=(j,)) for j in range(len(refs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        for (seed, ops, seen), got in zip(refs, out):
            if isinstance(got, Exception):
                self.ctx.violate('threads', 'an object fails when others are used by other threads', error=repr(got))
                return
            for k in range(len(seen)):
                if self.differs(seen[k], got[k], 'threads', seed, ops, k):
                    return
            self.counted('threads', seed, len(seen))

    def do_process(self, rng):
        '''In another process, with other leftovers in its memory and other hashes.'''
        if self.processes >= (8 if self.ctx.tier == 'quick' else 80):
            return self.do_again(rng)
        self.processes += 1
        refs = self.reference(rng, 4)
        with tempfile.TemporaryDirectory() as d:
            with open(d + '/in', 'wb') as f:
                pickle.dump([(seed, ops) for seed, ops, _ in refs], f)
            here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
            env = dict(os.environ, PYTHONPATH=here, PYTHONHASHSEED=str(int(rng.integers(1, 10**6))), MALLOC_PERTURB_=str(int(rng.integers(1, 255))),
                       PYORB_REPO=inst.REPO, PYTHONDONTWRITEBYTECODE='1')
            p = subprocess.run([sys.executable, '-c', CHILD, d + '/in', d + '/out'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            if not self.ctx.check(p.returncode == 0, 'process', 'a history that works here fails in another process', output=p.stdout[-800:]):
                return
            with open(d + '/out', 'rb') as f:
                got = pickle.load(f)
        for (seed, ops, seen), g in zip(refs, got):
            for k in range(len(seen)):
                if self.differs(seen[k], g[k], 'process', seed, ops, k):
                    return
            self.counted('process', seed, len(seen))


CHECKS = dict(O15=O15)
