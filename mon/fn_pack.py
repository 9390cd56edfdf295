'''C07 packaging of inputs, C08 degrees, C09 purity.'''
import copy
import sys
import threading
import types

import numpy as np

from . import gen, inst, oracle as O
from .base import Check, arr
from .specs import BOUND_MILD, ELEM, ELEM_BY, HAS_MU, VEC, kep_mild, vec_col

LD = O.LD
LOOSE = 1e-4        # packaging mistakes are gross; rounding is not the subject


def call_vec(K, name, x, mu, deg, **kw):
    if name in HAS_MU:
        return getattr(K, name)(x, mu=mu, degrees=deg, **kw)
    return getattr(K, name)(x, degrees=deg, **kw)


def to_state(name, out, mu, deg):
    '''Compare results through the state they denote.'''
    if name in ('kep_to_cart', 'equi_to_cart'):
        return O.ld(out)
    if name in ('cart_to_kep', 'equi_to_kep'):
        return O.kep_state(out, mu, deg)
    return O.equi_state(out, mu, deg, mean=(name == 'cart_to_equi'))


def vec_error(name, out, ref, mu, deg):
    '''Relative distance of the states denoted by results, per column.'''
    mu = np.broadcast_to(O.ld(mu), (out.shape[1],))
    with np.errstate(all='ignore'):
        a, b = to_state(name, out, mu, deg), to_state(name, ref, mu, deg)
        d = np.maximum(O.norm(a[:3] - b[:3])/O.norm(b[:3]), O.norm(a[3:] - b[3:])/O.norm(b[3:]))
    return np.asarray(d, dtype=float)


def layouts(rng, x):
    '''The same numbers in different memory.'''
    x = np.array(x)
    yield 'C', np.ascontiguousarray(x)
    yield 'F', np.asfortranarray(x)
    big = np.full(tuple(2*s for s in x.shape), 77.0, dtype=x.dtype)
    big[tuple(slice(None, None, 2) for _ in x.shape)] = x
    yield 'strided', big[tuple(slice(None, None, 2) for _ in x.shape)]
    rev = np.ascontiguousarray(x[..., ::-1])
    yield 'reversed', rev[..., ::-1]
    if x.ndim > 1:
        up = np.ascontiguousarray(x[::-1])
        yield 'flipped rows', up[::-1]
        t = np.ascontiguousarray(x.T)
        yield 'transposed', t.T
    ro = np.ascontiguousarray(x)
    ro.flags.writeable = False
    yield 'readonly', ro
    off = np.zeros(x.size + 3, dtype=x.dtype)
    v = off[3:].reshape(x.shape)
    v[...] = x
    yield 'offset', v
    yield 'big-endian', x.astype(x.dtype.newbyteorder('>'))


def elem_values(spec, rng, n, deg):
    cols = [spec.gen(rng) for _ in range(n)]
    if spec.bound_arg and rng.random() < 0.4:
        # one conic type only: batches of those may take other paths
        j = spec.args.index(spec.bound_arg)
        kind = np.sign(cols[0][j] - 1)
        for k in range(1, n):
            while np.sign(cols[k][j] - 1) != kind:
                cols[k] = spec.gen(rng)
    a = [np.array([float(c[k]) for c in cols]) for k in range(len(spec.args))]
    if rng.random() < 0.08:
        # every angle of the call is small, also counted in degrees
        for k, nm in enumerate(spec.args):
            if nm in spec.angles:
                a[k] = np.clip(a[k], -0.1, 0.1)*rng.uniform(0.1, 1, n)
    if deg:
        for k, nm in enumerate(spec.args):
            if nm in spec.angles:
                a[k] = np.degrees(a[k])
    return a


def elem_error(spec, got, ref, deg, e=None):
    got, ref = O.ld(got), O.ld(ref)
    with np.errstate(all='ignore'):
        d = got - ref
        if spec.out in ('angle', 'turn'):
            turn = 360 if deg else O.TWOPI
            w = O.wrap_diff(got, ref, turn)
            d = w if spec.out == 'turn' else np.where(O.ld(e) < 1, w, d)
            scale = np.maximum(57 if deg else 1, np.abs(ref))
        else:
            scale = np.abs(ref) + (1e-9 if spec.name.startswith('stumpff') else 0) + 1e-300
        r = np.abs(d)/scale
    r = np.where((got == ref) | (np.isnan(got) & np.isnan(ref)), 0, r)
    return np.asarray(r, dtype=float)


def int_types(*xs):
    '''Integer types that hold all the values (numpy computes with shorter ones in single precision or less).'''
    lo, hi = min(np.min(x) for x in xs), max(np.max(x) for x in xs)
    return [t for t in (np.int64, np.int32, np.uint64, np.uint32)
            if np.iinfo(t).min <= lo and hi <= np.iinfo(t).max]


class C07(Check):
    rule = ('one case is one object of one call of a public conversion in some packaging (batch, layout, number type, '
            'scalar/array mix, one or many gravitational parameters); it counts when its result was compared with the '
            'result of converting that object alone as contiguous doubles; distinct by function, packaging and value')
    assumptions = ['results are compared through the state or value they denote, to 1e-4 (vectors) and 1e-8 (element-wise); '
                   'single precision inputs to 1e-2']

    def setup(self):
        c = self.ctx
        for n in VEC:
            c.need('vector ' + n, 200)
        for s in ELEM:
            c.need('element ' + s.name, 100)
        for k in ('mixed batch', 'undefined columns', 'far company', 'far objects', 'integers', 'float32', 'longdouble', 'empty', 'refused', 'orbit columns',
                  'scalar mix', 'mu array', 'mu scalar', 'big batch', '2d', 'readonly', 'strided', 'F', 'reversed', 'transposed', 'big-endian'):
            c.need(k, 10)

    def cases(self):
        rng = self.ctx.rng('packaging')
        for b in range(self.ctx.n(240, 5000)):
            yield dict(kind='vec', f=VEC[b % len(VEC)], seed=int(rng.integers(2**31)))
        for b in range(self.ctx.n(6*len(ELEM), 120*len(ELEM))):
            yield dict(kind='elem', f=ELEM[b % len(ELEM)].name, seed=int(rng.integers(2**31)))
        for b in range(self.ctx.n(60, 600)):
            yield dict(kind='refuse', seed=int(rng.integers(2**31)))
        for b in range(self.ctx.n(80, 2000)):
            yield dict(kind='orbit', seed=int(rng.integers(2**31)))
        for b in range(self.ctx.n(6, 60)):
            yield dict(kind='big', f=VEC[b % len(VEC)], seed=int(rng.integers(2**31)))
        for b in range(self.ctx.n(60, 1000)):
            yield dict(kind='euler', seed=int(rng.integers(2**31)))

    def execute(self, case):
        rng = np.random.default_rng(case['seed'])
        getattr(self, 'do_' + case['kind'])(rng, case)

    # ---- (6,) and (6, N)
    def ref_cols(self, name, X, mus, deg):
        out = np.array([call_vec(self.K, name, np.array(X[:, k]), float(mus[k]), deg) for k in range(X.shape[1])])
        return out.T

    def cmp(self, name, how, out, ref, X, mus, deg, tol=LOOSE, tag=None):
        ctx = self.ctx
        if not ctx.check(isinstance(out, np.ndarray) and out.shape == ref.shape, 'shape', f'{name} ({how}): wrong shape',
                         got=np.shape(out), want=ref.shape):
            return
        if out.shape[1] == 0:
            return
        good = np.all(np.isfinite(ref), axis=0)
        err = vec_error(name, np.asarray(out, dtype=LD), ref, mus, deg)
        ctx.within(f'{name}', np.where(good, err, 0), tol, f'{name}: result depends on packaging ({how})',
                   case_=lambda k: dict(how=how, x=X[:, k], mu=float(np.broadcast_to(mus, (out.shape[1],))[k]), degrees=deg, got=out[:, k], alone=ref[:, k]))
        ctx.count('vector ' + name, np.sum(good))
        ctx.count(tag or how, np.sum(good))
        ctx.judged_cols(X, good, tag=(name + how).encode())

    def do_vec(self, rng, case):
        name, K, ctx = case['f'], self.K, self.ctx
        deg = bool(rng.integers(2))
        n = int(rng.choice([1, 2, 3, 6, 7, 16]))
        cs = [vec_col(rng, name, deg) for _ in range(n)]
        X = np.array([c[0] for c in cs]).T.copy()
        mus = np.array([c[1] for c in cs])
        if name in HAS_MU and name != 'kep_to_cart' and rng.random() < 0.5:
            pass
        ref = self.ref_cols(name, X, mus, deg)
        ctx.sample(dict(function=name, first=X[:, 0], columns=n, degrees=deg), cap=4)
        # the batch against each alone
        out = call_vec(K, name, X.copy(), mus.copy(), deg)
        self.cmp(name, 'mixed batch', out, ref, X, mus, deg)
        ctx.count('mu array', n)
        # permuted and taken apart
        p = rng.permutation(n)
        self.cmp(name, 'permuted', call_vec(K, name, X[:, p], mus[p], deg), ref[:, p], X[:, p], mus[p], deg)
        # one column
        self.cmp(name, 'one column', call_vec(K, name, X[:, :1].copy(), float(mus[0]), deg), ref[:, :1], X[:, :1], mus[:1], deg)
        v = call_vec(K, name, X[:, 0].copy(), mus[:1].copy(), deg)
        if ctx.check(np.shape(v) == (6,), 'shape', f'{name}: a 6-vector does not give a 6-vector', got=np.shape(v)):
            self.cmp(name, 'vector', v[:, None], ref[:, :1], X[:, :1], mus[:1], deg)
        # memory layouts
        for lay, x in layouts(rng, X):
            m = mus.copy()
            if rng.random() < 0.5:
                m = np.repeat(mus, 2)[::2]
            if lay == 'readonly':
                m.flags.writeable = False
            self.cmp(name, lay, call_vec(K, name, x, m, deg), ref, X, mus, deg)
        # strided single vectors
        v = np.zeros((6, 3))
        v[:, 1] = X[:, 0]
        self.cmp(name, 'strided vector', call_vec(K, name, v[:, 1], float(mus[0]), deg)[:, None], ref[:, :1], X[:, :1], mus[:1], deg)
        # one mu for all
        m0 = float(mus[0])
        Y = X.copy()
        if name in ('cart_to_kep', 'cart_to_equi'):
            Y[3:] *= np.sqrt(m0/mus)
        r0 = self.ref_cols(name, Y, np.full(n, m0), deg)
        for how, m in (('mu scalar', m0), ('mu numpy scalar', np.float64(m0)), ('mu full array', np.full(n, m0))):
            self.cmp(name, how, call_vec(K, name, Y.copy(), m, deg), r0, Y, m0, deg)
        # undefined columns between the defined ones
        Z = np.full((6, 2*n + 1), np.nan)
        Z[:, 1::2] = X
        mz = np.full(2*n + 1, 1.0)
        mz[1::2] = mus
        far = 0
        for k in range(0, 2*n + 1, 2):
            c = rng.integers(4)
            if c == 1:
                Z[:, k] = X[:, rng.integers(n)]
                Z[rng.integers(6), k] = np.nan
            elif c == 2:
                Z[:, k] = 0.0
            elif c == 3:
                Z[:, k] = X[:, rng.integers(n)]
                mz[k] = np.nan
        # and objects far larger or smaller than the others
        for k in range(0, 2*n + 1, 2):
            if rng.random() < 0.3:
                j = int(rng.integers(n))
                Z[:, k] = X[:, j]
                q = 10.0**rng.choice([-60, -20, -8, 8, 20, 60])
                Z[:3 if name.startswith('cart') else 1, k] *= q
                mz[k] = mus[j]*q
                far += 1
        ctx.count('far objects', far)
        out = call_vec(K, name, Z.copy(), mz.copy(), deg)
        if ctx.check(np.shape(out) == Z.shape, 'shape', f'{name}: wrong shape with undefined columns', got=np.shape(out)):
            self.cmp(name, 'undefined columns', out[:, 1::2], ref, X, mus, deg)
        # number types
        with np.errstate(all='ignore'):
            X32 = X.astype(np.float32)
            ok32 = np.all(np.isfinite(X32), axis=0) & np.all((np.abs(X32) > 1e-30) | (X32 == 0), axis=0) & (mus < 1e30)
        ok32 = ok32 & self.mild32(name, X, mus, deg)
        if ok32.any():
            Xs, ms = X32[:, ok32], mus[ok32]
            o = call_vec(K, name, Xs.copy(), ms, deg)
            self.cmp(name, 'float32', o, ref[:, ok32], X[:, ok32], ms, deg, tol=2e-2)
        self.cmp(name, 'longdouble', call_vec(K, name, X.astype(LD), mus, deg), ref, X, mus, deg)
        # integers are the equal floats
        XI = self.int_cols(rng, name, n, deg)
        mi = int(rng.integers(1, 5))
        if rng.random() < 0.5:
            # lengths (and with them mu) of any magnitude
            S = int(rng.choice([7, 100, 50000, 10**7, 3*10**9, 10**12, 10**14]))
            XI[:3 if name.startswith('cart') else 1] *= S
            mi *= S
        rI = self.ref_cols(name, XI.astype(float), np.full(n, float(mi)), deg)
        for dt in int_types(XI):
            for m in (float(mi), mi, np.full(n, mi)):
                self.cmp(name, f'{np.dtype(dt).name} mu {type(m).__name__}', call_vec(K, name, XI.astype(dt), m, deg), rI, XI.astype(float), mi, deg, tag='integers')
            o = call_vec(K, name, XI[:, 0].astype(dt), mi, deg)
            self.cmp(name, f'{np.dtype(dt).name} vector', o[:, None], rI[:, :1], XI[:, :1].astype(float), mi, deg, tag='integers')
        # none
        for m in (1.0, np.zeros(0)):
            o = call_vec(K, name, np.zeros((6, 0)), m, deg)
            ctx.check(np.shape(o) == (6, 0), 'shape', f'{name}: no objects do not give none', got=np.shape(o))
            ctx.count('empty')

    def mild32(self, name, X, mus, deg):
        '''Orbits whose single-precision rounding moves the state little.'''
        if name in ('kep_to_cart', 'kep_to_equi'):
            e = X[1]
            return (np.abs(e - 1) > 0.2) & (np.abs(X[5]) < (800 if deg else 14)) & (np.abs(X[3]) < (800 if deg else 14)) & \
                (np.abs(X[4]) < (800 if deg else 14)) & (X[2] < (165 if deg else 2.9)) & \
                (1 + e*np.cos(O.rad(X[5], deg).astype(float)) > 0.1*np.maximum(1, e)) & (X[0] < 1e9) & (X[0] > 1e-6) & (mus < 1e12) & (mus > 1e-6)
        if name in ('cart_to_kep', 'cart_to_equi'):
            el = O.elements(X, mus)
            rn, vn = el['rn'], el['vn']
            m = (el['e'] > 0.05) & (np.abs(el['e'] - 1) > 0.2) & (el['e'] < 5) & (np.sin(el['i']) > 0.05) & (el['hn'] > 0.2*rn*vn)
            return np.asarray(m & (rn < 1e9) & (rn > 1e-6) & (vn < 1e9) & (vn > 1e-6) & (mus < 1e12) & (mus > 1e-6))
        e = np.hypot(X[1], X[2])
        return (e > 0.05) & (e < 0.6) & (np.hypot(X[3], X[4]) > 0.05) & (np.hypot(X[3], X[4]) < 5) & (X[0] < 1e9) & (X[0] > 1e-6) & (mus < 1e12) & (mus > 1e-6)

    def int_cols(self, rng, name, n, deg):
        cs = []
        for _ in range(n):
            if name in ('kep_to_cart', 'kep_to_equi'):
                e = int(rng.choice([0, 0, 1, 2, 3])) if name == 'kep_to_cart' else 0
                lim = 1 if e > 1 else (2 if e == 1 else 6)
                if deg:
                    nu = int(rng.integers(-60*lim//6 if e else -300, (60*lim//6 if e else 300) + 1))
                    cs.append([int(rng.integers(1, 9)), e, int(rng.integers(0, 170)), int(rng.integers(0, 360)), int(rng.integers(0, 360)), nu])
                else:
                    cs.append([int(rng.integers(1, 9)), e, int(rng.integers(0, 3)), int(rng.integers(0, 7)), int(rng.integers(0, 7)), int(rng.integers(-lim, lim + 1))])
            elif name in ('cart_to_kep', 'cart_to_equi'):
                while True:
                    x = rng.integers(-3, 4, 6)
                    if name == 'cart_to_equi':
                        x[:3] *= 5
                        x[3:] = rng.integers(-1, 2, 3)
                        r, v = x[:3], x[3:]
                        if not r.any():
                            continue
                        # bound for mu >= 1 and not close to retrograde planar
                        x[:3] = rng.integers(-1, 2, 3)
                        x[3:] = rng.integers(-1, 2, 3)
                        if not x[:3].any():
                            continue
                        if (x[3:]**2).sum()/2 >= 0.9/np.sqrt((x[:3]**2).sum()):
                            continue
                    h = np.cross(x[:3], x[3:])
                    if h.any() and (name == 'cart_to_kep' or h[2] > -0.9*np.sqrt((h**2).sum())):
                        break
                cs.append(x)
            else:
                lam = int(rng.integers(0, 350 if deg else 6))
                cs.append([int(rng.integers(1, 9)), 0, 0, int(rng.integers(-2, 3)), int(rng.integers(-2, 3)), lam])
        return np.array(cs).T.copy()

    def do_big(self, rng, case):
        name, ctx = case['f'], self.ctx
        deg = bool(rng.integers(2))
        n = 23
        cs = [vec_col(rng, name, deg) for _ in range(n)]
        X = np.array([c[0] for c in cs]).T
        mus = np.array([c[1] for c in cs])
        ref = self.ref_cols(name, X, mus, deg)
        N = int(rng.choice([1000, 1023, 1025, 4099])) if name in ('kep_to_cart', 'cart_to_kep', 'kep_to_equi', 'equi_to_kep') else 1025
        idx = rng.integers(0, n, N)
        self.cmp(name, 'big batch', call_vec(self.K, name, X[:, idx], mus[idx], deg), ref[:, idx], X[:, idx], mus[idx], deg)

    # ---- element-wise functions
    def do_elem(self, rng, case):
        spec, K, ctx = ELEM_BY[case['f']], self.K, self.ctx
        f = getattr(K, spec.name)
        deg = spec.deg and bool(rng.integers(2))
        kw = dict(degrees=deg) if spec.deg else {}
        n = int(rng.choice([1, 4, 12]) if rng.random() < 0.8 else rng.choice([2, 3, 6]))
        a = elem_values(spec, rng, n, deg)
        ei = spec.args.index(spec.bound_arg) if spec.bound_arg else None
        ref = np.array([np.asarray(f(*[float(x[k]) for x in a], **kw)) for k in range(n)], dtype=LD).reshape(n)
        ctx.sample(dict(function=spec.name, arguments=[x[0] for x in a]), cap=6)

        def cmp(how, got, ref, shape, e=None, tol=1e-8, tag=None):
            if not ctx.check(np.shape(got) == shape, 'shape', f'{spec.name} ({how}): wrong shape', got=np.shape(got), want=shape):
                return
            g = np.asarray(got).ravel()
            r = np.asarray(ref).ravel()
            if g.size == 0:
                return
            ee = None if e is None else np.asarray(e).ravel()
            err = elem_error(spec, g, r, deg, ee)
            fin = np.isfinite(np.asarray(r, dtype=float))
            ctx.within(spec.name, np.where(fin, err, 0), tol, f'{spec.name}: result depends on packaging ({how})',
                       case_=lambda k: dict(how=how, got=g[k], alone=r[k], degrees=deg))
            ctx.count('element ' + spec.name, np.sum(fin))
            ctx.count(tag or how, np.sum(fin))
            for k in range(g.size):
                ctx.judged((spec.name, how, float(g[k])))
        ee = a[ei] if ei is not None else None
        idx = gen.many(rng, n, 0.02, (100, 257, 1025))
        if not isinstance(idx, slice):
            cmp('long batch', f(*[x[idx] for x in a], **kw), ref[idx], (len(idx),), None if ee is None else ee[idx], tag='batch')
        cmp('batch', f(*[x.copy() for x in a], **kw), ref, (n,), ee)
        cmp('numpy scalars', np.array([np.asarray(f(*[x[k] for x in a], **kw)) for k in range(n)]).reshape(n), ref, (n,), ee)
        for j in range(4):
            ls = [list(layouts(rng, x)) for x in a]
            pick = [l[rng.integers(len(l))] for l in ls]
            cmp('readonly' if all(p[0] == 'readonly' for p in pick) else pick[0][0], f(*[p[1] for p in pick], **kw), ref, (n,), ee)
        # more dimensions
        if n % 4 == 0:
            sh = (2, n//2) if rng.random() < 0.7 else (2, 2, n//4)
            g = [x.reshape(sh) for x in a]
            cmp('2d', f(*g, **kw), ref, sh, ee)
            ls = [list(layouts(rng, x)) for x in g]
            pick = [l[rng.integers(len(l))] for l in ls]
            cmp('2d', f(*[p[1] for p in pick], **kw), ref, sh, ee)
        # one argument scalar, the others arrays
        if len(a) > 1:
            for j in range(len(a)):
                g = [np.full(n, x[0]) if i == j else x for i, x in enumerate(a)]
                e2 = g[ei] if ei is not None else None
                if not self.elem_ok(spec, g, deg):
                    continue
                r2 = np.array([np.asarray(f(*[float(x[k]) for x in g], **kw)) for k in range(n)], dtype=LD).reshape(n)
                for s in (float(a[j][0]), np.float64(a[j][0])):
                    h = [s if i == j else x.copy() for i, x in enumerate(g)]
                    cmp('scalar mix', f(*h, **kw), r2, (n,), e2)
                    if n % 4 == 0:
                        h = [s if i == j else np.asfortranarray(x.reshape(2, n//2)) for i, x in enumerate(g)]
                        cmp('scalar mix', f(*h, **kw), r2, (2, n//2), e2)
                # the reverse: all scalar but one
                g = [x if i == j else np.full(n, x[0]) for i, x in enumerate(a)]
                if not self.elem_ok(spec, g, deg):
                    continue
                e2 = g[ei] if ei is not None else None
                r2 = np.array([np.asarray(f(*[float(x[k]) for x in g], **kw)) for k in range(n)], dtype=LD).reshape(n)
                h = [x.copy() if i == j else float(x[0]) for i, x in enumerate(g)]
                cmp('scalar mix', f(*h, **kw), r2, (n,), e2)
        # integers
        I = self.int_args(rng, spec, 6, deg)
        rI = np.array([np.asarray(f(*[float(x[k]) for x in I], **kw)) for k in range(6)], dtype=LD).reshape(6)
        eI = I[ei].astype(float) if ei is not None else None
        for dt in int_types(*I):
            cmp(np.dtype(dt).name, f(*[x.astype(dt) for x in I], **kw), rI, (6,), eI, tag='integers')
        for t in range(4):
            dts = [(lambda l: l[rng.integers(len(l))])(int_types(x)) for x in I]
            cmp('/'.join(np.dtype(d).name for d in dts), f(*[x.astype(d) for x, d in zip(I, dts)], **kw), rI, (6,), eI, tag='integers')
        cmp('python ints', np.array([np.asarray(f(*[int(x[k]) for x in I], **kw)) for k in range(6)]).reshape(6), rI, (6,), eI, tag='integers')
        for j in range(len(I)):
            h = [x.astype(float) if i == j else x.copy() for i, x in enumerate(I)]
            cmp('ints and floats', f(*h, **kw), rI, (6,), eI, tag='integers')
            if len(I) > 1:
                g = [np.full(6, x[0]) if i == j else x for i, x in enumerate(I)]
                if not self.elem_ok(spec, [x.astype(float) for x in g], deg):
                    continue
                e2 = g[ei].astype(float) if ei is not None else None
                r2 = np.array([np.asarray(f(*[float(x[k]) for x in g], **kw)) for k in range(6)], dtype=LD).reshape(6)
                cmp('int scalar mix', f(*[int(x[0]) if i == j else x.astype(float) for i, x in enumerate(g)], **kw), r2, (6,), e2, tag='integers')
                cmp('int array, float scalar', f(*[float(x[0]) if i == j else x for i, x in enumerate(g)], **kw), r2, (6,), e2, tag='integers')
        # integers of one argument with any numbers for the others
        for j in range(len(I) if len(I) > 1 else 0):
            g = [I[i].astype(float) if i == j else np.resize(x, 6) for i, x in enumerate(a)]
            for scalars in (False, True):
                if scalars:
                    g = [x if i == j else np.full(6, x[0]) for i, x in enumerate(g)]
                if not self.elem_ok(spec, g, deg):
                    continue
                e2 = g[ei] if ei is not None else None
                r2 = np.array([np.asarray(f(*[float(x[k]) for x in g], **kw)) for k in range(6)], dtype=LD).reshape(6)
                dt = int_types(g[j])
                dt = dt[int(rng.integers(len(dt)))]
                cmp('ints with floats', f(*[x.astype(dt) if i == j else float(x[0]) if scalars else x for i, x in enumerate(g)], **kw), r2, (6,), e2, tag='integers')
                if scalars:
                    # the one integer a number, the others arrays
                    h = [np.full(6, x[0]) if i == j else np.resize(a[i], 6) for i, x in enumerate(g)]
                    if not self.elem_ok(spec, h, deg):
                        continue
                    e3 = h[ei] if ei is not None else None
                    r3 = np.array([np.asarray(f(*[float(x[k]) for x in h], **kw)) for k in range(6)], dtype=LD).reshape(6)
                    cmp('int number with floats', f(*[int(x[0]) if i == j else x for i, x in enumerate(h)], **kw), r3, (6,), e3, tag='integers')
        # single and extended precision
        if spec.name != 'kepler_guess':
            with np.errstate(all='ignore'):
                g32 = [x.astype(np.float32) for x in a]
            mild = self.mild32_elem(spec, a, deg) & np.all([np.isfinite(x) for x in g32], axis=0)
            if mild.any():
                kw32 = dict(kw, solver_options=dict(tol=1e-5)) if spec.solver else kw
                got = f(*[x[mild] for x in g32], **kw32)
                cmp('float32', got, ref[mild], (int(mild.sum()),), None if ei is None else a[ei][mild], tol=2e-2)
            cmp('longdouble', f(*[x.astype(LD) for x in a], **kw), ref, (n,), ee)
        # undefined values in between
        z = [np.insert(x, np.arange(n), np.nan) for x in a]
        if len(a) > 1:
            # only one of the arguments undefined
            j = int(rng.integers(len(a)))
            for i in range(len(a)):
                if i != j:
                    z[i][::2] = a[i]
        got = f(*[x.copy() for x in z], **kw)
        if ctx.check(np.shape(got) == (2*n,), 'shape', f'{spec.name}: wrong shape with undefined values', got=np.shape(got)):
            cmp('undefined columns', np.asarray(got)[1::2], ref, (n,), ee)
            if spec.name != 'kepler_guess':
                bad = np.asarray(got)[::2]
                ctx.check(bool(np.all(np.isnan(np.asarray(bad, dtype=float)))), 'undefined', f'{spec.name}: an undefined argument gives a defined result',
                          arguments=[x[::2] for x in z], got=bad)
        # values far from the others in between
        z = [np.repeat(x, 2) for x in a]
        for k in range(0, 2*n, 2):
            for i, nm in enumerate(spec.args):
                if rng.random() < 0.5:
                    z[i][k] = self.far(rng, spec, nm, z[i][k], deg)
        z = [np.append(x, x[0]) for x in z]
        got = f(*[x.copy() for x in z], **kw)
        if ctx.check(np.shape(got) == (2*n + 1,), 'shape', f'{spec.name}: wrong shape', got=np.shape(got)):
            cmp('far company', np.asarray(got)[1:-1:2], ref, (n,), ee)
        got = f(*[np.zeros(0) for _ in a], **kw)
        ctx.check(np.shape(got) == (0,), 'shape', f'{spec.name}: no objects do not give none', got=np.shape(got))
        ctx.count('empty')

    def far(self, rng, spec, nm, x, deg):
        '''A value of the argument in the function's domain, far from the usual.'''
        if nm == 'e':
            if x < 1:
                return rng.choice([0.0, 1e-300, 1e-12, 0.99, 1 - 1e-9])
            if x > 1:
                return rng.choice([1 + 1e-9, 1e3, 1e8])
            return x
        if nm in ('nu', 'E', 'M'):
            return rng.choice([0.0, -0.0, 1e-300, -1e-300]) if rng.random() < 0.5 else x*rng.choice([1e-9, 0.5, -1, -1e-3])
        if nm == 'x':
            return rng.choice([0.0, 1e-300, 1e-9, -1e-9, 4.0, 100.0, -100.0])
        return x*10.0**rng.choice([-60, -20, -8, 8, 20, 60])

    def elem_ok(self, spec, g, deg):
        '''Recombined arguments still in the (mild) domain.'''
        d = dict(zip(spec.args, g))
        e = d.get('e')
        with np.errstate(all='ignore'):
            if 'nu' in d and e is not None:
                nu = O.rad(d['nu'], deg).astype(float)
                if np.any((e >= 1) & (1 + e*np.cos(nu) < 0.05*e)):
                    return False
            if 'E' in d and np.any((e > 1) & (np.abs(O.rad(d['E'], deg)) > 5)):
                return False
            if spec.name == 'orbital_speed':
                return bool(np.all(2/d['r'] - 1/d['a'] > 0.1/d['r']))
            if spec.name == 'orbit_total_angular_momentum':
                return bool(np.all(d['a']*(1 - e*e) > 0))
        return True

    def mild32_elem(self, spec, g, deg):
        d = dict(zip(spec.args, g))
        m = np.ones(len(g[0]), bool)
        e = d.get('e')
        if e is not None:
            m &= (np.abs(e - 1) > 0.2) & (e < 5)
        for nm in spec.angles:
            m &= np.abs(O.rad(d[nm], deg).astype(float)) < 12
        if 'nu' in d and e is not None:
            m &= 1 + e*np.cos(O.rad(d['nu'], deg).astype(float)) > 0.2*np.maximum(1, e)
        if spec.name.startswith('stumpff'):
            m &= np.abs(d['x']) < 5
        if spec.name == 'orbital_period' or spec.name == 'semi_major_axis':
            m &= True
        if spec.name == 'parabolic_radius':
            m &= 1 + np.cos(O.rad(d['nu'], deg).astype(float)) > 0.2
        return m

    def int_args(self, rng, spec, n, deg):
        u = 40 if deg else 1
        out = []
        for nm in spec.args:
            if nm == 'e':
                if spec.name in ('elliptic_radius',):
                    v = np.zeros(n, int)
                elif spec.name in ('hyperbolic_radius', 'true_of_the_asymptote'):
                    v = rng.integers(2, 5, n)
                elif spec.name == 'kepler_guess':
                    v = rng.choice([0, 2, 3], n)
                elif spec.name == 'orbit_total_angular_momentum':
                    v = np.zeros(n, int)
                else:
                    v = rng.choice([0, 1, 2, 3], n)
            elif nm in ('nu', 'E', 'M'):
                v = rng.integers(-u, u + 1, n)
            elif nm == 'x':
                v = rng.integers(-20, 21, n)
            elif spec.name == 'orbital_speed' and nm == 'a':
                v = rng.choice([-3, -1, 20, 50], n)
            else:
                v = rng.integers(1, 9, n)
            out.append(np.asarray(v, dtype=np.int64))
        if rng.random() < 0.5:
            # lengths (and with them mu) of any magnitude; int8 sums of angles
            S = int(rng.choice([7, 100, 3000, 50000, 10**7, 3*10**9, 10**12, 10**14]))
            out = [v*S if nm not in ('e', 'nu', 'E', 'M', 'x') else v for nm, v in zip(spec.args, out)]
        return out

    # ---- refusals
    def do_refuse(self, rng, case):
        K, ctx = self.K, self.ctx
        deg = bool(rng.integers(2))
        for name in VEC:
            good = [vec_col(rng, name, deg) for _ in range(4)]
            X = np.array([c[0] for c in good]).T
            bad = [('five rows', X[:5]), ('seven rows', np.vstack([X, X[:1]])), ('five-vector', X[:5, 0]),
                   ('seven-vector', np.append(X[:, 0], 1.0)), ('transposed', X.T), ('a list', X.tolist()), ('a list vector', X[:, 0].tolist()),
                   ('a tuple', tuple(X[:, 0])), ('a number', 3.0), ('none', None), ('no numbers', np.zeros(0)), ('columns of two', X[:2]),
                   ('twelve-vector', np.append(X[:, 0], X[:, 1]))]
            for how, x in bad:
                self.refused(lambda: call_vec(K, name, x, 1.0, deg), f'{name} accepts {how}', shape=np.shape(x))
            if name in HAS_MU:
                for how, m in (('two mu for four', np.ones(2)), ('three mu for four', np.ones(3)), ('five mu for four', np.ones(5)),
                               ('a column of mu', np.ones((4, 1)))):
                    self.refused(lambda: call_vec(K, name, X.copy(), m, deg), f'{name} accepts {how}')
                for how, m in (('two mu for a vector', np.ones(2)), ('four mu for a vector', np.ones(4))):
                    self.refused(lambda: call_vec(K, name, X[:, 0].copy(), m, deg), f'{name} accepts {how}')
                    self.refused(lambda: call_vec(K, name, X[:, :1].copy(), m, deg), f'{name} accepts {how} (one column)')
        for spec in ELEM:
            if len(spec.args) != 2 or spec.bound_arg is None:
                continue
            f = getattr(K, spec.name)
            a = elem_values(spec, rng, 4, False)
            for how, x, y in (('four and three', a[0], a[1][:3]), ('one and four', a[0][:1], a[1]), ('four and one', a[0], a[1][:1]),
                              ('two and four', a[0][:2], a[1]), ('a row and a column', a[0][None, :], a[1][:, None]),
                              ('two by two and four', a[0].reshape(2, 2), a[1]), ('two by two and two', a[0].reshape(2, 2), a[1][:2]),
                              ('none and four', a[0][:0], a[1]), ('one by four and four', a[0][None, :], a[1])):
                self.refused(lambda: f(x.copy(), y.copy()), f'{spec.name} accepts shapes of {how}')

    def refused(self, call, msg, **d):
        import contextlib
        import io
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = call()
        except Exception:
            self.ctx.count('refused')
            self.ctx.judged(msg)
            return
        self.ctx.violate('not refused', msg, result_shape=np.shape(r), **d)

    # ---- an orbit object of many against objects of one
    def do_orbit(self, rng, case):
        ctx = self.ctx
        n = int(rng.choice([2, 3, 8]))
        deg = bool(rng.integers(2))
        typ = ['true', 'eccentric', 'mean'][rng.integers(3)]
        ks = [kep_mild(rng, deg=deg)[0] for _ in range(n)]
        X = np.array(ks).T
        mode = dict(direct_update=bool(rng.integers(2)))
        G, M0 = float(rng.choice([1.0, 39.5])), float(rng.uniform(0.5, 3))
        X[0] = 10**rng.uniform(-1, 1, n)
        m = rng.uniform(0, 1, n)*M0
        nu = O.rad(X[5], deg)
        X[5] = O.unrad(O.convert('true', typ, nu, X[1]), deg).astype(float)
        mk = lambda N, m, k: self.pyorb.Orbit(M0, G=G, num=N, m=m, degrees=deg, type=typ, **mode)
        many = mk(n, m, X)
        many.kepler = X.copy()
        ones = []
        for k in range(n):
            o = mk(1, m[k:k + 1], None)
            o.kepler = X[:, k].copy()
            ones.append(o)
        dt = float(rng.uniform(-3, 3))
        mu = G*(M0 + m)

        def look(tag):
            A = many.cartesian
            B = np.concatenate([o.cartesian for o in ones], axis=1)
            d = vec_error('kep_to_cart', A, B, mu, deg)
            ctx.within('orbit state', d, 1e-7, f'state of an orbit depends on the other orbits of the object ({tag})',
                       case_=lambda k: dict(kepler=X[:, k], type=typ, degrees=deg, together=A[:, k], alone=B[:, k]))
            ctx.count('orbit columns', n)
            ctx.judged_cols(A, tag=b'orbit' + tag.encode())
            for q in ('true_anomaly', 'eccentric_anomaly', 'mean_anomaly', 'period', 'mean_motion', 'speed', 'velocity', 'periapsis', 'apoapsis', 'mean_longitude'):
                P = getattr(many, q)
                Q = np.concatenate([np.atleast_1d(getattr(o, q)) for o in ones])
                if not ctx.check(np.shape(P) == (n,), 'orbit shape', f'{q} of {n} orbits has shape {np.shape(P)}'):
                    continue
                turn = 360 if deg else O.TWOPI
                e = many.e
                dd = np.abs(O.ld(P) - O.ld(Q))
                if 'anomaly' in q or 'longitude' in q:
                    dd = np.where((e < 1) | ('true' in q), np.abs(O.wrap_diff(P, Q, turn)), dd)
                tolq = 1e-7*(np.abs(Q) + (57 if deg else 1)*('anomaly' in q or 'longitude' in q))
                ctx.within('orbit ' + q, dd, tolq, f'{q} depends on the other orbits of the object ({tag})',
                           skip=~np.isfinite(Q), case_=lambda k: dict(kepler=X[:, k], type=typ, degrees=deg, together=P[k], alone=Q[k]))
        look('assigned')
        many.propagate(dt)
        for o in ones:
            o.propagate(dt)
        look('propagated')
        A = np.asarray(many.cartesian)
        A[3:] *= 1.01
        many.cartesian = A
        for k, o in enumerate(ones):
            o.cartesian = A[:, k].copy()
        K1 = many.kepler
        K2 = np.concatenate([o.kepler for o in ones], axis=1)
        nu1 = O.convert(typ, 'true', O.rad(K1[5], deg), K1[1])
        nu2 = O.convert(typ, 'true', O.rad(K2[5], deg), K2[1])
        s1 = O.state(K1[0], K1[1], *[O.rad(x, deg) for x in K1[2:5]], nu1, mu)
        s2 = O.state(K2[0], K2[1], *[O.rad(x, deg) for x in K2[2:5]], nu2, mu)
        d = vec_error('kep_to_cart', s1, s2, mu, deg)
        near = np.abs(K2[1] - 1) < 1e-6
        ctx.within('orbit elements', d, LOOSE, 'elements of an orbit depend on the other orbits of the object', skip=near,
                   case_=lambda k: dict(state=A[:, k], type=typ, degrees=deg, together=K1[:, k], alone=K2[:, k]))

    # ---- rotation matrices of many orbits
    def do_euler(self, rng, case):
        K, ctx = self.K, self.ctx
        deg = bool(rng.integers(2))
        n = int(rng.choice([1, 2, 3, 5, 6]))
        u = 180/np.pi if deg else 1
        i, w, W = [rng.uniform(-7, 7, n)*u for _ in range(3)]
        for rep in range(24):
            how, ints = rep % 8, rep // 8
            if rep == 8:
                # whole numbers, for some of the arguments only or for all
                i, w, W = [rng.integers(-120, 121, n) if deg else rng.integers(-7, 8, n) for _ in range(3)]
            a = [x.astype(float) if ints == 1 and rng.random() < 0.5 else x for x in (i, w, W)]
            if ints:
                a = [x.astype(int_types(x)[rng.integers(len(int_types(x)))]) if x.dtype.kind == 'i' else x for x in a]
            a = [x.copy() if how >> j & 1 else x[0].item() for j, x in enumerate(a)]
            R = K.euler_rotation_matrix(*a, degrees=deg)
            want = (3, 3) if how == 0 else (3, 3, n)
            if not ctx.check(np.shape(R) == want, 'shape', 'euler_rotation_matrix: wrong shape', got=np.shape(R), want=want, arrays=how):
                continue
            for k in range(n):
                r = K.euler_rotation_matrix(*[float(np.atleast_1d(x)[k if np.ndim(x) else 0]) for x in a], degrees=deg)
                g = R if how == 0 else R[:, :, k]
                ctx.within('euler', np.max(np.abs(g - r)), 1e-12, 'rotation matrix depends on packaging', arrays=how, k=k)
                ctx.judged(('euler', how, float(i[k])))


# --------------------------------------------------------------------- C08

class C08(Check):
    rule = ('one case is one object of one call of a function made once in degrees and once in radians on the converted '
            'angles, or one step of a history applied to an orbit object in degrees and one in radians; it counts when the '
            'two results were compared; distinct by function and value')
    assumptions = ['results compared to the rounding of the unit conversion (1e-9 relative, 1e-7 turns through arc cosines)']

    def setup(self):
        c = self.ctx
        for n in VEC:
            c.need('vector ' + n, 50)
        for s in ELEM:
            if s.deg:
                c.need('element ' + s.name, 50)
        c.need('twin steps', 300)
        c.need('small angles', 20)
        c.need('euler', 50)

    def cases(self):
        rng = self.ctx.rng('units')
        names = [s.name for s in ELEM if s.deg]
        for b in range(self.ctx.n(80*len(names), 800*len(names))):
            yield dict(kind='elem', f=names[b % len(names)], seed=int(rng.integers(2**31)))
        for b in range(self.ctx.n(240, 6000)):
            yield dict(kind='vec', f=VEC[b % len(VEC)], seed=int(rng.integers(2**31)))
        for b in range(self.ctx.n(250, 3000)):
            yield dict(kind='twin', seed=int(rng.integers(2**31)))
        for b in range(self.ctx.n(60, 1000)):
            yield dict(kind='euler', seed=int(rng.integers(2**31)))

    def execute(self, case):
        getattr(self, 'do_' + case['kind'])(np.random.default_rng(case['seed']), case)

    def do_elem(self, rng, case):
        spec, K, ctx = ELEM_BY[case['f']], self.K, self.ctx
        f = getattr(K, spec.name)
        n = int(rng.choice([1, 6]))
        r = elem_values(spec, rng, n, False)
        d = [np.degrees(x) if nm in spec.angles else x for nm, x in zip(spec.args, r)]
        ei = spec.args.index(spec.bound_arg) if spec.bound_arg else None
        how = rng.integers(3)
        if how == 0:
            R = np.array([np.asarray(f(*[float(x[k]) for x in r])) for k in range(n)]).reshape(n)
            D = np.array([np.asarray(f(*[float(x[k]) for x in d], degrees=True)) for k in range(n)]).reshape(n)
        elif how == 1:
            R, D = f(*r), f(*d, degrees=True)
        else:
            # scalar/array mix
            j = int(rng.integers(len(r)))
            R = np.array([np.asarray(f(*[x[:1] if i == j else float(x[0]) for i, x in enumerate(r)]))]).reshape(1)
            D = np.array([np.asarray(f(*[x[:1] if i == j else float(x[0]) for i, x in enumerate(d)], degrees=True))]).reshape(1)
            r = [x[:1] for x in r]
        R, D = np.atleast_1d(R), np.atleast_1d(D)
        if spec.out in ('angle', 'turn'):
            D2 = np.radians(np.asarray(D, dtype=float))
        else:
            D2 = D
        err = elem_error(spec, D2, R, False, None if ei is None else r[ei])
        ctx.within(spec.name, err, 1e-8, f'{spec.name}: degrees and radians differ',
                   case_=lambda k: dict(radians=[x[k] for x in r], in_degrees=D[k], in_radians=R[k]))
        ctx.count('element ' + spec.name, len(R))
        for k in range(len(R)):
            ctx.judged((spec.name, float(r[0][k])))
        ctx.sample(dict(function=spec.name, radians=[x[0] for x in r], result_degrees=D[0], result_radians=R[0]), cap=4)

    def do_vec(self, rng, case):
        name, K, ctx = case['f'], self.K, self.ctx
        n = int(rng.choice([1, 5]))
        cs = [vec_col(rng, name, False) for _ in range(n)]
        X = np.array([c[0] for c in cs]).T.copy()
        mu = np.array([c[1] for c in cs])
        if rng.random() < 0.12:
            if name in ('kep_to_cart', 'kep_to_equi'):
                X[2:] = np.clip(X[2:], -0.1, 0.1)*rng.uniform(0.1, 1, (4, n))
            elif name in ('equi_to_kep', 'equi_to_cart'):
                X[5] = np.clip(X[5], -0.1, 0.1)*rng.uniform(0.1, 1, n)
                if rng.random() < 0.5:
                    X[[2, 4]] = np.abs(X[[2, 4]])
                    X[1:5] *= [[0.1], [1], [0.1], [1]]
            ctx.count('small angles', n)
        Y = X.copy()
        if name in ('kep_to_cart', 'kep_to_equi'):
            Y[2:] = np.degrees(Y[2:])
        if name in ('equi_to_kep', 'equi_to_cart'):
            Y[5] = np.degrees(Y[5])
        if n == 1 and rng.random() < 0.5:
            R = call_vec(K, name, X[:, 0].copy(), float(mu[0]), False)[:, None]
            D = call_vec(K, name, Y[:, 0].copy(), float(mu[0]), True)[:, None]
        else:
            R, D = call_vec(K, name, X.copy(), mu, False), call_vec(K, name, Y.copy(), mu, True)
        if not ctx.check(R.shape == D.shape, 'shape', f'{name}: shape depends on the unit'):
            return
        D2 = np.array(D, dtype=float)
        if name in ('cart_to_kep', 'equi_to_kep'):
            D2[2:] = np.radians(D2[2:])
            rows = (2, 3, 4, 5)
        elif name in ('kep_to_equi', 'cart_to_equi'):
            D2[5] = np.radians(D2[5])
            rows = (5,)
        else:
            rows = ()

        def show(k):
            return dict(function=name, x=X[:, k], mu=mu[k], in_degrees=D[:, k], in_radians=R[:, k])
        with np.errstate(all='ignore'):
            err = vec_error(name, D2, R, mu, False)
        ctx.within(name, np.where(np.isfinite(err), err, 0), 1e-7, f'{name}: degrees and radians denote different orbits', case_=show)
        # element by element: angles convert, the others are untouched
        for q in range(6):
            if q in rows:
                e = np.abs(O.wrap_diff(D2[q], R[q]))
                t = 1e-7
                if name == 'equi_to_kep' and q in (3, 5):
                    continue
            else:
                e = np.abs(D2[q] - R[q])
                s = O.norm(R[:3]) if name.endswith('cart') and q < 3 else O.norm(R[3:]) if name.endswith('cart') else np.maximum(np.abs(R[q]), 1 if name.endswith('equi') and q else 0)
                t = 1e-9*np.asarray(s, dtype=float)
                if name.endswith('equi') and q in (3, 4):
                    t = 1e-9*np.hypot(R[3], R[4])
                if name == 'cart_to_equi' and q in (1, 2):
                    t = 1e-7
                if name.endswith('equi') and q == 0 or name.endswith('kep') and q < 2:
                    t = 1e-12*np.abs(R[q]) + (1e-14 if q else 0)
            ctx.within(f'{name} element {q}', e, t, f'{name}: element {q} differs between degrees and radians', skip=~np.isfinite(R[q]), case_=show)
        ctx.count('vector ' + name, n)
        ctx.judged_cols(X, tag=name.encode())

    def do_euler(self, rng, case):
        a = rng.uniform(-7, 7, 3)*(0.01 if rng.random() < 0.2 else 1)
        if rng.random() < 0.5:
            a = [np.array([x, x/2]) for x in a]
        R = self.K.euler_rotation_matrix(*a)
        D = self.K.euler_rotation_matrix(*[np.degrees(x) for x in a], degrees=True)
        self.ctx.within('euler', np.max(np.abs(R - D)), 1e-12, 'rotation matrix differs between degrees and radians', angles=list(a))
        self.ctx.count('euler')
        self.ctx.judged(('euler', repr(a)))

    def do_twin(self, rng, case):
        '''One history, two units.'''
        ctx = self.ctx
        n = int(rng.choice([1, 2, 3, 4, 6]))
        typ = ['true', 'eccentric', 'mean'][rng.integers(3)]
        kw = dict(G=1.0, num=n, type=typ, direct_update=bool(rng.integers(2)))
        m = rng.uniform(0, 1, n)
        D = self.pyorb.Orbit(1.0, degrees=True, m=m.copy(), **kw)
        R = self.pyorb.Orbit(1.0, degrees=False, m=m.copy(), **kw)
        mu = 1.0 + m
        bound = rng.random() < 0.6
        tiny = rng.random() < 0.1
        log = []

        def fresh():
            # away from the limits, where rounding decides between conventions
            ks = []
            while len(ks) < n:
                k = kep_mild(rng, BOUND_MILD if bound else ['ell', 'hyp', 'par'], equi=bound)[0]
                if k[1] > 0.02 and 0.02 < k[2] < 3.1:
                    ks.append(k)
            X = np.array(ks).T
            if tiny:
                # small numbers in degrees as well
                X[2:5] = rng.uniform(0.03, 0.1, (3, n))
                X[5] = rng.uniform(0.001, 0.1, n)*(1 if bound else rng.choice([-1, 1], n))
            X[0] = 10**rng.uniform(-0.5, 0.5, n)
            nu = X[5].copy()
            X[5] = O.convert('true', typ, O.ld(X[5]), X[1]).astype(float)
            return X, nu

        def deg(X):
            Y = X.copy()
            Y[2:] = np.degrees(Y[2:])
            return Y
        X, _ = fresh()
        D.kepler, R.kepler = deg(X), X.copy()
        ops = ['kepler', 'i', 'omega', 'Omega', 'anom', 'true_anomaly', 'type', 'propagate', 'cartesian', 'v', 'a', 'update', 'add']
        if bound:
            ops += ['equinoctial', 'mean_anomaly', 'eccentric_anomaly', 'period', 'mean_motion', 'speed']
        for step in range(int(rng.integers(4, 10))):
            op = ops[rng.integers(len(ops))]
            if self.twin_limit(D, R).any():
                # rounding decides which side of the parabola an orbit is on,
                # and the two histories may part from there: start again
                op = 'kepler'
            log.append(op)
            if op == 'kepler':
                X, _ = fresh()
                D.kepler, R.kepler = deg(X), X.copy()
            elif op in ('i', 'omega', 'Omega', 'mean_anomaly', 'eccentric_anomaly') or (op in ('anom', 'true_anomaly') and bound):
                x = rng.uniform(0.05, 2.9 if op == 'i' else 6, n)
                setattr(D, op, np.degrees(x))
                setattr(R, op, x)
            elif op in ('anom', 'true_anomaly'):
                x = rng.uniform(-1, 1, n)
                setattr(D, op, np.degrees(x))
                setattr(R, op, x)
            elif op == 'type':
                typ = ['true', 'eccentric', 'mean'][rng.integers(3)]
                D.type = typ
                R.type = typ
            elif op == 'propagate':
                dt = float(rng.uniform(-5, 5))
                D.propagate(dt)
                R.propagate(dt)
            elif op == 'cartesian':
                X, nu = fresh()
                x = np.asarray(O.state(X[0], X[1], X[2], X[3], X[4], nu, mu[:n]), dtype=float)
                D.cartesian, R.cartesian = x.copy(), x.copy()
            elif op == 'v':
                f = rng.uniform(0.95, 1.02) if bound else 1.1
                D.v, R.v = D.v*f, R.v*f
            elif op == 'a':
                x = rng.uniform(0.5, 2, n)
                D.a, R.a = x, x
            elif op == 'update':
                x = float(rng.uniform(0.1, 2.8))
                k = int(rng.integers(n))
                key = ['i', 'omega', 'Omega'][rng.integers(3)]
                D.update(inds=k, **{key: np.degrees(x)})
                R.update(inds=k, **{key: x})
            elif op == 'add':
                if n > 6:
                    continue
                X, _ = fresh()
                Y = deg(X[:, :1])
                nm = ('a', 'e', 'i', 'omega', 'Omega', 'anom')
                D.add(num=1, **{k: v for k, v in zip(nm, Y[:, 0])})
                R.add(num=1, **{k: v for k, v in zip(nm, X[:, 0])})
                n += 1
                mu = np.append(mu, 1.0)
            elif op == 'equinoctial':
                X, _ = fresh()
                X[5] = rng.uniform(0, 6, n)
                a, e, i, w, W, M = X
                q = np.array([a, e*np.sin(w + W), e*np.cos(w + W), np.tan(i/2)*np.sin(W), np.tan(i/2)*np.cos(W), np.mod(w + W + M, 2*np.pi)])
                p = q.copy()
                p[5] = np.degrees(p[5])
                D.equinoctial, R.equinoctial = p, q
            elif op == 'period':
                x = rng.uniform(2, 20, n)
                D.period, R.period = x, x
            elif op == 'mean_motion':
                x = rng.uniform(0.3, 3, n)
                D.mean_motion, R.mean_motion = np.degrees(x), x
            self.twin_look(D, R, mu, n, log, typ, bound)

    @staticmethod
    def twin_limit(D, R):
        '''Orbits closer to the parabola than rounding can tell apart (the
        parabola itself, set as such on both objects, is not meant).'''
        p, q = D.kepler[1], R.kepler[1]
        return ((np.abs(p - 1) < 0.01) | (np.abs(q - 1) < 0.01) | np.isnan(p) | np.isnan(q)) & ~((p == 1) & (q == 1))

    def twin_look(self, D, R, mu, n, log, typ, bound):
        ctx = self.ctx
        A, B = D.cartesian, R.cartesian
        err = vec_error('kep_to_cart', A, B, mu, False)
        show = lambda k: dict(history=log, type=typ, radians=R.kepler[:, k], degrees=D.kepler[:, k], state_degrees=A[:, k], state_radians=B[:, k])
        bad = ~np.all(np.isfinite(B), axis=0)
        ctx.within('twin state', np.where(bad & ~np.all(np.isfinite(A), axis=0), 0, err), 1e-5, 'orbit objects in degrees and radians diverge', case_=show)
        P, Q = D.kepler, R.kepler
        limit = self.twin_limit(D, R)
        for q in range(2):
            ctx.within('twin element', np.abs(P[q] - Q[q]), 1e-5*(np.abs(Q[q]) + 1e-2), f'element {q} differs between units', case_=show, skip=bad | limit)
        ecc = (Q[1] > 0.01) & (np.sin(Q[2]) > 0.01) & ~bad
        for q in range(2, 6):
            d = O.wrap_diff(np.radians(P[q]), Q[q])
            if q == 5:
                d = np.where((Q[1] < 1) | (typ == 'true'), d, np.radians(P[q]) - Q[q])
            near = limit | (np.abs(Q[1] - 1) < 0.01)
            ctx.within('twin angle', np.abs(d), 1e-4, f'angle {q} differs between units', case_=show, skip=~ecc | near)
        for q in ('true_anomaly', 'eccentric_anomaly', 'mean_anomaly', 'mean_longitude', 'mean_motion'):
            p, r = np.radians(getattr(D, q)), getattr(R, q)
            d = p - r if q == 'mean_motion' else np.where((Q[1] < 1) | (q == 'true_anomaly'), O.wrap_diff(p, r), p - r)
            near = limit | (np.abs(Q[1] - 1) < 0.01)
            sk = ~ecc | near
            if q == 'mean_motion':
                sk = bad | near
            if q == 'mean_longitude':
                sk = sk | (Q[1] >= 1)
            ctx.within('twin ' + q, np.abs(d), 1e-4*np.maximum(1, np.abs(r)), f'{q} differs between units', case_=show, skip=sk | ~np.isfinite(r))
        for q in ('period', 'speed', 'velocity', 'periapsis'):
            p, r = getattr(D, q), getattr(R, q)
            near = limit | (np.abs(Q[1] - 1) < 0.01)
            ctx.within('twin ' + q, np.abs(p - r), 1e-5*np.abs(r), f'{q} differs between units', case_=show, skip=bad | near | ~np.isfinite(r))
        if bound and not bad.any() and np.all(Q[1] < 0.99) and not limit.any() and np.all(Q[2] < 3.0):
            p, r = np.array(D.equinoctial).reshape(6, -1), np.array(R.equinoctial).reshape(6, -1)
            p[5] = np.radians(p[5])
            for q in range(6):
                d = O.wrap_diff(p[q], r[q]) if q == 5 else p[q] - r[q]
                ctx.within('twin equinoctial', np.abs(d), 1e-5*np.maximum(1, np.abs(r[q])) + (1e-4 if q in (1, 2, 5) else 0), 'equinoctial elements differ between units', case_=show)
        ctx.count('twin steps')
        ctx.judged_cols(B, tag=b'twin')


# --------------------------------------------------------------------- C09

def collect_arrays(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (tuple, list)):
        return [a for y in x for a in collect_arrays(y)]
    return []


def same_bits(a, b):
    A, B = collect_arrays(a), collect_arrays(b)
    if A or B:
        if len(A) != len(B):
            return False
        return all(x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y, equal_nan=True) for x, y in zip(A, B))
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same_bits(x, y) for x, y in zip(a, b))
    try:
        return bool(np.array_equal(np.asarray(a, dtype=LD), np.asarray(b, dtype=LD), equal_nan=True))
    except Exception:
        return a == b


def dirty_heap(pattern, sizes):
    '''Leave the pattern in freed blocks of the sizes the call will use.'''
    blocks = []
    for n in sizes:
        for _ in range(6):
            a = np.empty(n)
            a.fill(pattern)
            blocks.append(a)
    del blocks


class C09(Check):
    rule = ('one case is one call of one public function on one set of arguments; it counts when all monitors judged it: '
            'arguments compared byte for byte before, during (after every executed line) and after the call, memory overlap of '
            'result and arguments, equality of repeated calls, of calls under two patterns of uninitialised memory and of calls '
            'with read-only arguments; distinct by function and arguments')
    assumptions = ['uninitialised memory is modelled by patterns in np.empty/np.empty_like and in freed heap blocks',
                   'functions that share state between threads would do so within a few hundred interleaved calls']

    def setup(self):
        c = self.ctx
        for n in VEC:
            c.need('calls ' + n, 10)
        for s in ELEM:
            c.need('calls ' + s.name, 5)
        for n in ('euler_rotation_matrix', 'stumpff', 'laguerre_solve_kepler', 'rot_mat_x', 'rot_mat_y', 'rot_mat_z', 'kep_equivalent'):
            c.need('calls ' + n, 5)
        c.need('lines watched', 20000)
        c.need('fresh module', 200)
        c.need('changed between calls', 100)
        c.need('poisoned allocations', 500)
        c.need('thread calls', 200)
        c.need('option dictionaries', 20)

    def cases(self):
        rng = self.ctx.rng('purity')
        names = VEC*5 + [s.name for s in ELEM]*2 + ['euler_rotation_matrix', 'stumpff', 'laguerre_solve_kepler', 'rot_mat_x', 'rot_mat_y', 'rot_mat_z', 'kep_equivalent']
        for b in range(self.ctx.n(80*len(names), 600*len(names))):
            yield dict(kind='one', f=names[b % len(names)], seed=int(rng.integers(2**31)))
        for b in range(self.ctx.n(40, 300)):
            yield dict(kind='threads', seed=int(rng.integers(2**31)))
        for b in range(self.ctx.n(30, 400)):
            yield dict(kind='options', seed=int(rng.integers(2**31)))

    def execute(self, case):
        getattr(self, 'do_' + case['kind'])(np.random.default_rng(case['seed']), case)

    def make(self, rng, name):
        '''(args, kwargs) with arrays wherever possible.'''
        deg = bool(rng.integers(2))
        n = int(rng.choice([1, 2, 5, 9]) if rng.random() < 0.93 else rng.choice([6, 40, 70, 130]))
        if name in VEC:
            cs = [vec_col(rng, name, deg) for _ in range(n)]
            X = np.array([c[0] for c in cs]).T.copy()
            mu = np.array([c[1] for c in cs])
            c = rng.integers(8)
            if c == 0:
                X = X[:, 0].copy()
                mu = float(mu[0])
            elif c == 1:
                X[rng.integers(6), rng.integers(n)] = np.nan
            elif c == 2:
                X[:, rng.integers(n)] = np.nan
            elif c == 3 and name in HAS_MU:
                mu[rng.integers(n)] = np.nan
            elif c == 4:
                X = np.asfortranarray(X)
            elif c == 5:
                X = np.round(X).astype(np.int64) if np.all(np.abs(X) < 1e15) else X
            elif c == 6:
                X = X.astype(np.float32)
                if name == 'equi_to_cart':
                    return [X], dict(degrees=deg, mu=mu, solver_options=dict(max_iter=30))
            elif rng.random() < 0.3:
                X = X[:, :0].copy()
                mu = mu[:0].copy()
            kw = dict(degrees=deg)
            if name in HAS_MU:
                kw['mu'] = mu
            return [X], kw
        if name in ELEM_BY:
            spec = ELEM_BY[name]
            a = elem_values(spec, rng, n, spec.deg and deg)
            kw = dict(degrees=deg) if spec.deg else {}
            c = rng.integers(8)
            if c == 0:
                a = [float(x[0]) for x in a]
            elif c == 1:
                j = rng.integers(len(a))
                a[j][rng.integers(n)] = np.nan
            elif c == 2 and len(a) > 1:
                j = rng.integers(len(a))
                a[j] = float(a[j][0])
            elif c == 3:
                a = [x.reshape(1, n) for x in a]
            elif c == 4:
                a = [np.round(x).astype(np.int64) if np.all(np.abs(x) < 1e15) else x for x in a]
            elif c == 5:
                a = [x.astype(np.float32) for x in a]
                if spec.solver:
                    kw['solver_options'] = dict(max_iter=30)
            return a, kw
        if name == 'euler_rotation_matrix':
            return [rng.uniform(-7, 7, n) if rng.random() < 0.8 else float(rng.uniform(0, 6)) for _ in range(3)], dict(degrees=deg)
        if name == 'stumpff':
            x = rng.choice([-1, 1], n)*10**rng.uniform(-8, 2, n)
            x[rng.random(n) < 0.2] = 0
            x[rng.random(n) < 0.1] = np.nan
            return [x], {}
        if name == 'laguerre_solve_kepler':
            e = float(rng.choice([0.0, 0.3, 0.9, 0.999, 1.5, 3.0]))
            a = [float(rng.uniform(-5, 5)), float(rng.uniform(-5, 5)), e]
            if rng.random() < 0.5:
                a = [np.array(x) for x in a]
            return a, {}
        if name == 'kep_equivalent':
            k, _ = kep_mild(rng)
            k2, _ = kep_mild(rng)
            if rng.random() < 0.6:
                k2 = list(k)
                k2[3] += 0.5
                k2[5] -= 0.5
                k[1] = k2[1] = float(rng.choice([0.0, 0.2]))
                k[2] = k2[2] = float(rng.choice([0.0, 0.2]))
            return [np.array(k), np.array(k2)], {}
        return [float(rng.uniform(-7, 7))], {}

    def do_one(self, rng, case):
        name, ctx = case['f'], self.ctx
        f = self.bus.orig.get(name) or getattr(self.K, name)
        args, kw = self.make(rng, name)
        arrays = [a for a in list(args) + list(kw.values()) if isinstance(a, np.ndarray)]
        sizes = sorted({1, 2, 3, 6, 9} | {m*max(a.size//6, 1) for a in arrays for m in (1, 2, 3, 6, 9)} | {a.size for a in arrays})
        d = dict(function=name, args=args, kwargs=kw)

        def call(a=None, k=None):
            with np.errstate(all='ignore'):
                try:
                    return f(*(args if a is None else a), **(kw if k is None else k))
                except BaseException as e:
                    if isinstance(e, (inst.BudgetExceeded, KeyboardInterrupt)):
                        raise
                    # refused arguments must be refused every time
                    return ('raised', type(e).__name__)
        before = [inst.fingerprint(a) for a in arrays]
        err0 = np.geterr()
        first = call()
        raised = isinstance(first, tuple) and len(first) == 2 and isinstance(first[0], str)
        ctx.check([inst.fingerprint(a) for a in arrays] == before, 'argument mutated', f'{name} changed an array it was given', **d)
        ctx.check(np.geterr() == err0, 'error state', f'{name} changed the floating-point error handling', **d)
        if raised:
            self.ctx.violate('exception', f'{name} failed: {first[1]}', **d)
            return
        # aliasing
        outs = collect_arrays(first)
        for o in outs:
            for a in arrays:
                ctx.check(not np.shares_memory(o, a), 'result aliases argument', f'the result of {name} shares memory with an argument', **d)
        for i in range(len(outs)):
            for j in range(i):
                ctx.check(not np.shares_memory(outs[i], outs[j]), 'results alias', f'results of {name} share memory', **d)
        keep = copy.deepcopy(first)
        # during
        state = dict(bad=None, n=0)

        def on_line(frame):
            state['n'] += 1
            if state['bad'] is None and [inst.fingerprint(a) for a in arrays] != before:
                state['bad'] = f'{frame.f_code.co_name}:{frame.f_lineno}'
        with inst.Trace(on_line, budget=3000000):
            second = call()
        ctx.count('lines watched', state['n'])
        ctx.check(state['bad'] is None, 'argument mutated during call', f'{name} changes an array it was given while it runs', at=state['bad'], **d)
        ctx.check(same_bits(keep, second), 'not repeatable', f'{name} gives different results for the same arguments', first=keep, second=second, **d)
        ctx.check(same_bits(keep, first), 'result changed later', f'a later call of {name} changed an earlier result', **d)
        for o in collect_arrays(second):
            for p in outs:
                ctx.check(not np.shares_memory(o, p), 'results alias', f'results of two calls of {name} share memory', **d)
        # changing a result must not change later ones
        for o in collect_arrays(second):
            if o.flags.writeable and o.size:
                o[...] = 12345.0 if o.dtype.kind == 'f' else 1
        third = call()
        ctx.check(same_bits(keep, third), 'not repeatable', f'{name} depends on what was done to its earlier results', **d)
        ctx.check([inst.fingerprint(a) for a in arrays] == before, 'result aliases argument', f'changing a result of {name} changed an argument', **d)
        # uninitialised memory
        for pat in (0.4, float('nan'), -7.25e11):
            dirty_heap(pat, sizes)
            with inst.Poison(pat) as P:
                r = call()
            ctx.count('poisoned allocations', P.allocs)
            ctx.check(same_bits(keep, r), 'uninitialised memory', f'{name} returns values from uninitialised memory', pattern=pat, clean=keep, poisoned=r, **d)
        # read-only arguments
        ro = []
        for a in args:
            if isinstance(a, np.ndarray):
                a = a.copy(order='K')
                a.flags.writeable = False
            ro.append(a)
        rk = {}
        for k, a in kw.items():
            if isinstance(a, np.ndarray):
                a = a.copy()
                a.flags.writeable = False
            rk[k] = a
        r = call(ro, rk)
        ctx.check(same_bits(keep, r), 'read-only arguments', f'{name} does not accept read-only arrays', result=r, **d)
        # values almost the same before these must not matter, nor must anything called earlier in the process
        near = lambda a: a*(1 + 1e-11) if isinstance(a, float) or isinstance(a, np.ndarray) and a.dtype.kind == 'f' else a
        call([near(a) for a in args], {k: near(a) if k == 'mu' else a for k, a in kw.items()})
        r = call([copy.copy(a) for a in args], {k: copy.copy(a) for k, a in kw.items()})
        f, kept = getattr(self.fresh(), name), f
        want = call()
        f = kept
        ctx.check(same_bits(want, r) and same_bits(want, keep), 'history', f'{name} gives another result than in a fresh module', got=r, fresh=want, **d)
        ctx.count('fresh module')
        # the same arrays with other values in them
        for a in arrays:
            if a.ndim and a.flags.writeable:
                a[...] = np.flip(a, axis=-1).copy()
        r = call()
        f = getattr(self.fresh(), name)
        want = call([copy.copy(a) for a in args], {k: copy.copy(a) for k, a in kw.items()})
        ctx.check(same_bits(want, r), 'history', f'{name} does not see that an array was changed between two calls', got=r, fresh=want, **d)
        ctx.count('changed between calls', any(a.ndim and a.shape[-1] > 1 for a in arrays))
        ctx.count('calls ' + name)
        ctx.judged((name, [inst.fingerprint(a) for a in arrays], repr(args), repr(kw)))
        if name in VEC:
            ctx.sample(dict(function=name, arguments=[np.shape(a) for a in args], lines_watched=state['n']), cap=4)

    def fresh(self):
        '''The conversions as they are in a process that has done nothing yet.'''
        if not hasattr(self, '_code'):
            with open(self.K.__file__) as fh:
                self._code = compile(fh.read(), self.K.__file__, 'exec')
        mod = types.ModuleType('pyorb.kepler')
        mod.__package__, mod.__file__ = 'pyorb', self.K.__file__
        exec(self._code, mod.__dict__)
        return mod

    def do_threads(self, rng, case):
        ctx = self.ctx
        jobs = []
        names = list(rng.choice(VEC, 3)) + list(rng.choice([s.name for s in ELEM], 3))
        for nm in names:
            f = self.bus.orig[nm]
            a, k = self.make(rng, nm)
            for x in list(a) + list(k.values()):
                if isinstance(x, np.ndarray):
                    x.flags.writeable = False
            with np.errstate(all='ignore'):
                jobs.append((nm, f, a, k, f(*a, **k)))
        bad = []
        done = [0]
        lock = threading.Lock()
        start = threading.Barrier(4)

        def work(seed):
            r = np.random.default_rng(seed)
            start.wait()
            c = 0
            for _ in range(12):
                nm, f, a, k, ref = jobs[r.integers(len(jobs))]
                try:
                    with np.errstate(all='ignore'):
                        out = f(*a, **k)
                    if not same_bits(ref, out):
                        bad.append((nm, repr(out)[:300], repr(ref)[:300]))
                except Exception as e:
                    bad.append((nm, repr(e), ''))
                c += 1
            with lock:
                done[0] += c
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(int(rng.integers(2**31)),)) for _ in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        ctx.count('thread calls', done[0])
        ctx.check(not bad, 'threads', 'a function gives another result when several threads use the same arrays', first=bad[:1])
        ctx.judged(('threads', case['seed']))

    def do_options(self, rng, case):
        ctx, K = self.ctx, self.K
        o = dict(tol=float(rng.choice([1e-9, 1e-5])), max_iter=int(rng.choice([100, 7])), degree=int(rng.choice([3, 5])))
        drop = rng.integers(4)
        if drop < 3:
            o.pop(['tol', 'max_iter', 'degree'][drop])
        o0 = dict(o)
        M, e = rng.uniform(0, 6, 3), rng.uniform(0, 0.8, 3)
        K.mean_to_eccentric(M, e, solver_options=o)
        ctx.check(o == o0, 'options', 'mean_to_eccentric changed the option dictionary', options=o, before=o0)
        K.mean_to_true(float(M[0]), float(e[0]), solver_options=o)
        ctx.check(o == o0, 'options', 'mean_to_true changed the option dictionary', options=o, before=o0)
        q, mu = vec_col(rng, 'equi_to_cart')
        K.equi_to_cart(q, mu=mu, solver_options=o)
        ctx.check(o == o0, 'options', 'equi_to_cart changed the option dictionary', options=o, before=o0)
        orb = self.pyorb.Orbit(1.0, G=1.0, solver_options=o, type='mean', num=3)
        orb.kepler = np.array([np.ones(3), e, e, e, e, M])
        orb.cartesian
        orb.type = 'true'
        orb.propagate(1.0)
        orb2 = orb.copy()
        ctx.check(o == o0, 'options', 'an orbit object changed the option dictionary it was given', options=o, before=o0)
        orb.solver_options['tol'] = 0.5
        ctx.check(o == o0, 'options', 'an orbit object shares the option dictionary it was given', options=o, before=o0)
        ctx.check(orb2.solver_options.get('tol') != 0.5, 'options', 'a copy shares the option dictionary')
        other = self.pyorb.Orbit(1.0)
        ctx.check(other.solver_options.get('tol') == 1e-12 and other.solver_options.get('max_iter') == 5000, 'options',
                  'default options depend on earlier objects', options=other.solver_options)
        ctx.count('option dictionaries')
        ctx.judged(('options', repr(sorted(o0.items())), float(M[0])))


CHECKS = dict(C07=C07, C08=C08, C09=C09)
