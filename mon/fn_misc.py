'''C10 equinoctial elements, C11 scalar relations, C12 rotations, C13 Stumpff
functions, C14 unit systems, C15 constants, C16 angle-unit wrapper,
C17 equivalence.'''
import itertools
import os
import subprocess
import sys

import numpy as np

from . import gen, inst, oracle as O
from .base import ANOMS, Check, arr, bcast_mu, cols, regime
from .fn_conv import ILL, c2k_domain, eps_of, equi_extra, mu_kw, sub

LD = O.LD


# ------------------------------------------------------------------ C10

def judge_k2e(ctx, kep, deg, out):
    kep0 = kep
    if not ctx.check(isinstance(out, np.ndarray) and out.shape == kep0.shape, 'k2e-shape', 'wrong shape',
                     got=np.shape(out), want=kep0.shape):
        return
    eps = eps_of(kep)
    kep, out = cols(kep), cols(out)
    k = O.ld(kep)
    with np.errstate(all='ignore'):
        inc = O.rad(k[2], deg)
        ok = np.all(np.isfinite(k), axis=0) & (k[0] > 0) & (k[1] >= 0) & (k[1] < 1) & (np.abs(inc) < O.PI - 1e-9)
    if not ok.any():
        return
    k, o, inc = k[:, ok], O.ld(out[:, ok]), inc[ok]
    w, W, an = O.rad(k[3], deg), O.rad(k[4], deg), O.rad(k[5], deg)
    turn = 360.0 if deg else O.TWOPI
    u = 180/O.PI if deg else 1

    def show(n):
        return dict(kepler=k[:, n], degrees=bool(deg), equinoctial=o[:, n])
    ctx.within('k2e-a', np.abs(o[0] - k[0]), 4*eps*k[0], 'semi-major axis changed', case_=show)
    th = eps*(8 + 4*np.abs(w) + 4*np.abs(W))*k[1]
    ctx.within('k2e-h', np.abs(o[1] - k[1]*np.sin(w + W)), th, 'h is not e sin(w + W)', case_=show)
    ctx.within('k2e-k', np.abs(o[2] - k[1]*np.cos(w + W)), th, 'k is not e cos(w + W)', case_=show)
    t = np.tan(inc/2)
    tp = eps*(np.abs(t)*(8 + 4*np.abs(W)) + (1 + t*t)*4*np.abs(inc))
    ctx.within('k2e-p', np.abs(o[3] - t*np.sin(W)), tp, 'p is not tan(i/2) sin W', case_=show)
    ctx.within('k2e-q', np.abs(o[4] - t*np.cos(W)), tp, 'q is not tan(i/2) cos W', case_=show)
    lam = w + W + an
    tl = eps*(16*O.PI + 8*(np.abs(w) + np.abs(W) + np.abs(an)))
    ctx.within('k2e-lam', np.abs(O.wrap_diff(o[5], lam*u, turn)), tl*u, 'longitude is not w + W + anomaly', case_=show)
    bad = ~((o[5] >= 0) & (o[5] <= turn*(1 + 4*eps)))
    ctx.within('k2e-range', np.where(bad, 1, 0), 0, 'longitude outside one turn', case_=show)
    ctx.judged_cols(np.asarray(k, dtype=float), tag=b'k2e')
    ctx.count('kep_to_equi judged', k.shape[1])
    for n in range(k.shape[1]):
        ctx.count('regime ' + regime(k[1, n]))
        ctx.count('plane ' + ('prograde' if abs(inc[n]) < 1e-9 else 'inclined'))


def judge_e2k(ctx, equi, deg, out):
    equi0 = equi
    if not ctx.check(isinstance(out, np.ndarray) and out.shape == equi0.shape, 'e2k-shape', 'wrong shape',
                     got=np.shape(out), want=equi0.shape):
        return
    eps = eps_of(equi)
    q, o = O.ld(cols(equi)), O.ld(cols(out))
    with np.errstate(all='ignore'):
        e = np.hypot(q[1], q[2])
        t = np.hypot(q[3], q[4])
        ok = np.all(np.isfinite(q), axis=0) & (q[0] > 0) & (e < 1 - 1e-9) & (t < 1e9)
    if not ok.any():
        return
    q, o, e, t = q[:, ok], o[:, ok], e[ok], t[ok]
    turn = 360.0 if deg else O.TWOPI

    def show(n):
        return dict(equinoctial=q[:, n], degrees=bool(deg), kepler=o[:, n])
    bad = ~(np.all(np.isfinite(o), axis=0) & (o[1] >= 0) & (o[2] >= 0) & (o[2] <= turn/2*(1 + 4*eps)))
    for r in (3, 4, 5):
        bad |= ~((o[r] >= 0) & (o[r] <= turn*(1 + 4*eps)))
    ctx.within('e2k-range', np.where(bad, 1, 0), 0, 'elements outside their range', case_=show)
    ctx.within('e2k-a', np.abs(o[0] - q[0]), 4*eps*q[0], 'semi-major axis changed', case_=show)
    ctx.within('e2k-e', np.abs(o[1] - e), 8*eps*e, 'eccentricity is not the length of (h, k)', case_=show)
    fin = np.all(np.isfinite(o), axis=0)
    mu = np.ones(q.shape[1])
    ref = O.equi_state(q, mu, deg)
    x, tr, tv = O.kep_state_tol(np.where(fin, o, 0.5), mu, deg, eps, dang=16*eps*(8 + np.abs(O.rad(q[5], deg))))
    rn, vn = O.norm(ref[:3]), O.norm(ref[3:])
    lim = np.where(e <= 1.1e-9, 4e-9, 0)
    ctx.within('e2k-position', O.norm(x[:3] - ref[:3])/rn, tr/rn + lim, 'elements denote another position', skip=~fin, case_=show)
    ctx.within('e2k-velocity', O.norm(x[3:] - ref[3:])/vn, tv/vn + lim, 'elements denote another velocity', skip=~fin, case_=show)
    ctx.judged_cols(np.asarray(q, dtype=float), tag=b'e2k')
    ctx.count('equi_to_kep judged', q.shape[1])


def judge_c2e(ctx, cart, mu, deg, out):
    cart0 = cart
    if not ctx.check(isinstance(out, np.ndarray) and out.shape == cart0.shape, 'c2e-shape', 'wrong shape',
                     got=np.shape(out), want=cart0.shape):
        return
    eps = eps_of(cart)
    cart, q = O.ld(cols(cart)), O.ld(cols(out))
    n = cart.shape[1]
    if n == 0 or eps != O.EPS:
        return
    mu = bcast_mu(mu, n)
    ok, el = c2k_domain(cart, mu)
    with np.errstate(all='ignore'):
        dang, da, de = O.c2k_errors(el)
        ok &= (el['e'] < 0.9999) & (el['i'] < O.PI - 1e-8) & (dang < 1e-3) & (da < 1e-3)
    if not ok.any():
        return
    cart, q, mu, el, dang, da, de = cart[:, ok], q[:, ok], mu[ok], sub(el, ok), dang[ok], da[ok], de[ok]

    def show(k):
        return dict(cartesian=cart[:, k], mu=float(mu[k]), degrees=bool(deg), equinoctial=q[:, k])
    x = O.equi_state(q, mu, deg, mean=True)
    fin = np.all(np.isfinite(x), axis=0)
    ctx.within('c2e-defined', np.where(fin, 0, 1), 0, 'undefined equinoctial element for a valid state', case_=show)
    k = O.equi_kep(q, deg, mean=True)
    ext = equi_extra(el)
    _, tr, tv = O.kep_state_tol(np.where(fin, k, 0.5), mu, False, eps, K=3.0, dang=dang, da=da, de=de)
    lim = np.where(el['e'] < 1.1e-9, 8e-9, 0) + np.where(np.sin(el['i']) < 4e-9, 1.6e-8, 0) + ext
    rn, vn = el['rn'], el['vn']
    tr, tv = tr/rn + lim, tv/vn + lim
    ill = ~((tr < ILL) & (tv < ILL))
    ctx.count('ill-conditioned', np.sum(ill))
    ctx.within('c2e-position', O.norm(x[:3] - cart[:3])/rn, tr, 'equinoctial elements do not denote the position', skip=ill | ~fin, case_=show)
    ctx.within('c2e-velocity', O.norm(x[3:] - cart[3:])/vn, tv, 'equinoctial elements do not denote the velocity', skip=ill | ~fin, case_=show)
    turn = 360.0 if deg else O.TWOPI
    ctx.within('c2e-range', np.where((q[5] >= 0) & (q[5] <= turn*(1 + 4*eps)), 0, 1), 0, 'longitude outside one turn', case_=show)
    ctx.judged_cols(np.asarray(cart, dtype=float), ~ill, tag=b'c2e')
    ctx.count('cart_to_equi judged', np.sum(~ill))


def judge_e2c(ctx, equi, mu, deg, opts, out):
    equi0 = equi
    if not ctx.check(isinstance(out, np.ndarray) and out.shape == equi0.shape, 'e2c-shape', 'wrong shape',
                     got=np.shape(out), want=equi0.shape):
        return
    eps = eps_of(equi)
    q, x = O.ld(cols(equi)), O.ld(cols(out))
    n = q.shape[1]
    if n == 0 or eps != O.EPS or opts:
        return
    mu = bcast_mu(mu, n)
    with np.errstate(all='ignore'):
        e = np.hypot(q[1], q[2])
        t = np.hypot(q[3], q[4])
        ok = np.all(np.isfinite(q), axis=0) & (q[0] > 0) & (e < 0.9999) & (t < 1e9) & (mu > 0)
    if not ok.any():
        return
    q, x, mu, e, t = q[:, ok], x[:, ok], mu[ok], e[ok], t[ok]

    def show(k):
        return dict(equinoctial=q[:, k], mu=float(mu[k]), degrees=bool(deg), cartesian=x[:, k])
    k0 = O.equi_kep(q, deg)
    wr = k0[5] - O.TWOPI*np.round(k0[5]/O.TWOPI)
    nu, tn = O.anom_tol('mean', 'true', wr, e, eps, dx=16*eps*(8 + np.abs(O.rad(q[5], deg))))
    k = k0.copy()
    k[5] = nu
    ref, tr, tv = O.kep_state_tol(k, mu, False, eps, dang=16*eps*8)
    a2, tr2, tv2 = O.kep_state_tol(np.array([k[0], k[1], k[2], k[3], k[4], nu + tn]), mu, False, eps)
    a3, _, _ = O.kep_state_tol(np.array([k[0], k[1], k[2], k[3], k[4], nu - tn]), mu, False, eps)
    tr = tr + 2*np.maximum(O.norm(a2[:3] - ref[:3]), O.norm(a3[:3] - ref[:3]))
    tv = tv + 2*np.maximum(O.norm(a2[3:] - ref[3:]), O.norm(a3[3:] - ref[3:]))
    rn, vn = O.norm(ref[:3]), O.norm(ref[3:])
    lim = np.where(e <= 1.1e-9, 8e-9, 0)
    tr, tv = tr/rn + lim, tv/vn + lim
    ill = ~((tr < ILL) & (tv < ILL))
    ctx.count('ill-conditioned', np.sum(ill))
    ctx.within('e2c-position', O.norm(x[:3] - ref[:3])/rn, tr, 'state is not the position of the elements with mean longitude', skip=ill, case_=show)
    ctx.within('e2c-velocity', O.norm(x[3:] - ref[3:])/vn, tv, 'state is not the velocity of the elements with mean longitude', skip=ill, case_=show)
    ctx.judged_cols(np.asarray(q, dtype=float), ~ill, tag=b'e2c')
    ctx.count('equi_to_cart judged', np.sum(~ill))


class C10(Check):
    rule = ('one case is one orbit handed to one of the four equinoctial conversions, directly (batches of mixed regimes, '
            'both units) or from inside an orbit object; it counts when the result was compared with the definition or '
            'with the reference state; distinct by conversion and value')
    assumptions = ['extended-precision reference formulas', 'e up to 0.9999 for conversions that solve for the mean longitude; '
                   'inclination up to 3e-8 radians short of half a turn', 'an object holding one orbit returns a 6-vector']

    def setup(self):
        def on(f):
            def cb(ev):
                if ev.exc is None:
                    f(ev)
            return cb
        c = self.ctx
        self.bus.subscribe('kep_to_equi', on(lambda ev: judge_k2e(c, ev.arg('kep'), ev.arg('degrees'), ev.ret)))
        self.bus.subscribe('equi_to_kep', on(lambda ev: judge_e2k(c, ev.arg('equi'), ev.arg('degrees'), ev.ret)))
        self.bus.subscribe('cart_to_equi', on(lambda ev: judge_c2e(c, ev.arg('cart'), ev.arg('mu'), ev.arg('degrees'), ev.ret)))
        self.bus.subscribe('equi_to_cart', on(lambda ev: judge_e2c(c, ev.arg('equi'), ev.arg('mu'), ev.arg('degrees'), ev.arg('solver_options'), ev.ret)))
        for k in ('kep_to_equi judged', 'equi_to_kep judged', 'cart_to_equi judged', 'equi_to_cart judged'):
            c.need(k, 500)
        for k in ('e=0', 'e<=limit', 'e<1e-6', 'elliptic', 'e->1-'):
            c.need('regime ' + k, 30)
        c.need('plane prograde', 30)
        c.need('orbit reads', 60)
        c.need('default mu', 10)
        c.need('orbit writes', 60)

    def cases(self):
        rng = self.ctx.rng('equi')
        for b in range(self.ctx.n(260, 8000)):
            deg = bool(rng.integers(2))
            n = int(rng.choice([1, 1, 2, 5, 20, 50]))
            same = bool(rng.integers(2))
            k, mu = gen.kep_batch(rng, n, kinds=gen.BOUND_E, degrees=deg, same_mu=same)
            h = 180.0 if deg else np.pi
            k[2] = np.where(k[2] > h*(1 - 1e-8), h - k[2], k[2])
            if b % 10 == 0:
                same, mu = True, 1.32712440018e20
            vec = n == 1 and rng.random() < 0.5
            if n > 2:
                idx = gen.many(rng, n, 0.02)
                k, mu = k[:, idx], mu if same else mu[idx]
            yield dict(kind='batch', kep=k.tolist(), mu=mu if same else mu.tolist(), deg=deg, vec=vec,
                       direct=bool(rng.integers(2)), seed=int(rng.integers(2**31)))
        for b in range(self.ctx.n(120, 2500)):
            yield dict(kind='orbit', seed=int(rng.integers(2**31)))

    def execute(self, case):
        K, ctx = self.K, self.ctx
        rng = np.random.default_rng(case['seed'])
        if case['kind'] == 'orbit':
            return self.orbit(rng)
        kep, deg = arr(case['kep']), case['deg']
        mu = arr(case['mu']) if isinstance(case['mu'], list) else case['mu']
        if case['vec']:
            kep = kep[:, 0].copy()
            mu = float(np.atleast_1d(mu)[0])
        q = K.kep_to_equi(kep, degrees=deg)
        ctx.sample(dict(kepler=cols(kep)[:, 0], degrees=deg, equinoctial=cols(q)[:, 0]), cap=4)
        if case['direct']:
            # elements that were not computed by the library
            q = q.copy()
            turn = 360.0 if deg else 2*np.pi
            q[5] = q[5] + turn*rng.integers(-3, 4)
            if rng.random() < 0.4:
                z = rng.random(q.shape[1:]) < 0.4
                q[1] = np.where(z, 0.0, q[1])
                z = rng.random(q.shape[1:]) < 0.4
                q[2] = np.where(z, -0.0, q[2])
            if rng.random() < 0.4:
                z = rng.random(q.shape[1:]) < 0.4
                q[3] = np.where(z, 0.0, q[3])
                z = rng.random(q.shape[1:]) < 0.4
                q[4] = np.where(z, 0.0, q[4])
        K.equi_to_kep(q.copy(), degrees=deg)
        m = mu_kw(ctx, mu)
        x = K.equi_to_cart(q.copy(), degrees=deg, **m)
        K.cart_to_equi(x.copy(), degrees=deg, **m)
        x = K.kep_to_cart(kep, mu=mu, degrees=deg)
        K.cart_to_equi(x, degrees=deg, **m)

    def orbit(self, rng):
        ctx = self.ctx
        num = int(rng.integers(1, 5))
        deg, typ = bool(rng.integers(2)), ANOMS[rng.integers(3)]
        G = float(rng.choice([1.0, 39.478, 0.01]))
        orb = self.pyorb.Orbit(float(rng.uniform(0.5, 3)), G=G, num=num, degrees=deg, type=typ,
                               m=rng.uniform(0, 1, num), direct_update=bool(rng.integers(2)))
        mu = orb.G*(orb.M0 + orb.m)
        k = np.array([gen.kep_col(rng, ['ell', 'small', 'circ'], False)[0] for _ in range(num)]).T
        k[0] = 10**rng.uniform(-1, 1, num)
        k[2] = np.minimum(k[2], 2.8)
        nu = k[5].copy()
        k[5] = np.asarray(O.convert('true', typ, nu, k[1]), dtype=float)
        kd = k.copy()
        if deg:
            kd[2:] = np.degrees(kd[2:])
        if rng.random() < 0.5:
            orb.kepler = kd
        else:
            orb.cartesian = np.asarray(O.kep_state(np.vstack([k[:5], nu]), mu), dtype=float)
        want = O.kep_state(np.vstack([k[:5], nu]), mu)
        q = orb.equinoctial
        if not ctx.check(q.shape == ((6,) if num == 1 else (6, num)), 'orbit-shape', 'equinoctial elements read with the wrong shape', got=q.shape, num=num):
            return
        got = O.equi_state(cols(q), mu, deg, mean=True)

        def cmp(tag, a, b, kk):
            d = np.maximum(O.norm(a[:3] - b[:3])/O.norm(b[:3]), O.norm(a[3:] - b[3:])/O.norm(b[3:]))
            # angles come from arc cosines when read from a state
            tol = 2e-6/(1 - kk[1])**2
            ctx.within('orbit-' + tag, d, tol, f'equinoctial elements {tag} an orbit object are not those of its orbit',
                       case_=lambda n: dict(kepler=kk[:, n], type=typ, degrees=deg, equinoctial=cols(q)[:, n]))
            ctx.count('orbit reads' if tag.startswith('read') else 'orbit writes', len(d))
        cmp('read from', got, want, k)
        # assign
        k2 = np.array([gen.kep_col(rng, ['ell', 'small', 'circ'], False)[0] for _ in range(num)]).T
        k2[0] = 10**rng.uniform(-1, 1, num)
        k2[2] = np.minimum(k2[2], 2.8)
        w = k2[3] + k2[4]
        t = np.tan(k2[2]/2)
        M = np.asarray(O.convert('true', 'mean', k2[5], k2[1]), dtype=float)
        lam = np.mod(w + M, 2*np.pi)
        q2 = np.array([k2[0], k2[1]*np.sin(w), k2[1]*np.cos(w), t*np.sin(k2[4]), t*np.cos(k2[4]), np.degrees(lam) if deg else lam])
        orb.equinoctial = q2[:, 0] if num == 1 and rng.random() < 0.5 else q2
        want = O.kep_state(k2, mu)
        if rng.random() < 0.5:
            got = O.ld(orb.cartesian)
        else:
            kk = orb.kepler
            if deg:
                kk[2:] = np.radians(kk[2:])
            kk[5] = np.asarray(O.convert(orb.type, 'true', kk[5], kk[1]), dtype=float)
            got = O.kep_state(kk, mu)
        q = q2
        cmp('written to', got, want, k2)
        ctx.judged(np.concatenate([k, k2]).tobytes(), 2*num)


# ------------------------------------------------------------------ C11

def pack(rng, *xs):
    '''Scalars, arrays, broadcastable mixes of equal meaning.'''
    return [x if isinstance(x, float) else np.array(x) for x in xs]


class C11(Check):
    rule = ('one case is one orbit and position for which a scalar relation was evaluated and compared with the same '
            'quantity of the reference state; relations and packaging (scalars, arrays, degrees) vary; distinct by '
            'relation and value')
    assumptions = ['extended-precision reference states']

    def setup(self):
        self.rel = ('speed', 'speed parabola', 'elliptic_radius', 'parabolic_radius', 'hyperbolic_radius', 'distance',
                    'momentum', 'momentum parabola', 'asymptote', 'period', 'axis', 'period inverse', 'axis inverse')
        for r in self.rel:
            self.ctx.need('relation ' + r, 60)
        for r in ('ellipse', 'parabola', 'hyperbola'):
            self.ctx.need('distance ' + r, 60)
        for r in ('scalar', 'array'):
            self.ctx.need(r, 100)

    def cases(self):
        rng = self.ctx.rng('scalar')
        for b in range(self.ctx.n(600, 12000)):
            yield dict(seed=int(rng.integers(2**31)))

    def execute(self, case):
        rng = np.random.default_rng(case['seed'])
        K, ctx = self.K, self.ctx
        n = int(rng.choice([1, 1, 4, 16]))
        kind = [['ell', 'small', 'circ', 'high'], ['par'], ['hyp', 'nearhyp', 'bighyp']][rng.integers(3)]
        ks, mu = gen.kep_batch(rng, n, kinds=kind)
        ok = O.kep_valid(ks, mu, margin=1e-3)
        ks, mu = ks[:, ok], mu[ok]
        n = ks.shape[1]
        if n == 0:
            return
        if n > 2:
            idx = gen.many(rng, n, 0.03)
            ks, mu = ks[:, idx], mu[idx]
            n = ks.shape[1]
        scalar = n == 1 and rng.random() < 0.7
        ctx.count('scalar' if scalar else 'array')
        deg = bool(rng.integers(2))
        a, e, nu = ks[0], ks[1], ks[5]
        x, tr, tv = O.kep_state_tol(ks, mu)
        r, v = O.norm(x[:3]), O.norm(x[3:])
        p = O.semi_latus(a, e)
        h = np.sqrt(O.ld(mu)*p)
        eps = O.EPS

        def S(y):
            y = np.asarray(y, dtype=float)
            return float(y[0]) if scalar else y.copy()

        def cmp(name, got, want, tol):
            got = np.atleast_1d(np.asarray(got, dtype=LD))
            if not ctx.check(got.shape == (n,), 'shape', f'{name}: wrong shape', got=got.shape, n=n):
                return
            want = np.broadcast_to(O.ld(want), (n,))
            tol = np.broadcast_to(O.ld(tol), (n,))
            ill = ~(tol < ILL)
            with np.errstate(all='ignore'):
                err = np.abs(got/want - 1)
            ctx.within(name, err, tol, f'{name} does not agree with the two-body state', skip=ill,
                       case_=lambda k: dict(elements=ks[:, k], mu=mu[k], got=got[k], want=want[k]))
            ctx.count('relation ' + name, np.sum(~ill))
            ctx.judged_cols(np.vstack([ks, mu]), ~ill, tag=name.encode())
        with np.errstate(all='ignore'):
            one = O.ld(8*eps*np.maximum(1, e*e)/np.abs(1 - e*e))      # rounding of 1 - e^2
            tden = 8*eps*(1 + e*(1 + np.abs(nu)))/(1 + e*np.cos(nu))
        ang = np.degrees(nu) if deg else nu
        reg = 'ellipse' if e[0] < 1 else 'parabola' if e[0] == 1 else 'hyperbola'
        if reg != 'parabola':
            sa = np.where(e > 1, -a, a)
            # vis viva, cancels when r is near 2a
            with np.errstate(all='ignore'):
                tolv = 8*eps*(1 + (2/r + 1/a)/np.abs(2/r - 1/sa)) + tr/r*(2/r)/np.abs(2/r - 1/sa) + tv/v
            cmp('speed', K.orbital_speed(S(r), S(sa), S(mu)), v, tolv)
            cmp('momentum', K.orbit_total_angular_momentum(S(sa), S(e), S(mu)), h, 8*eps + one)
        else:
            cmp('speed parabola', K.orbital_speed(S(r), np.inf if scalar else np.full(n, np.inf), S(mu)), v, 16*eps + tr/r + tv/v)
            cmp('momentum parabola', K.parabolic_total_angular_momentum(S(a), S(mu)), h, 16*eps)
        hs = S(h)
        cmp('distance', K.orbital_distance(hs, S(mu), S(e), S(ang), degrees=deg), r, 16*eps + tden)
        ctx.count('distance ' + reg, n)
        if reg == 'ellipse':
            E = np.asarray(O.nu_to_E(nu, e), dtype=float)
            Ea = np.degrees(E) if deg else E
            with np.errstate(all='ignore'):
                tE = 8*eps*(1 + e*(1 + np.abs(E)))/(1 - e*np.cos(E))
            # distance of the rounded eccentric anomaly itself
            cmp('elliptic_radius', K.elliptic_radius(S(Ea), S(a), S(e), degrees=deg),
                O.norm(O.state(a, e, ks[2], ks[3], ks[4], O.E_to_nu(E, e), mu)[:3]), 8*eps + tE + one)
        elif reg == 'parabola':
            cmp('parabolic_radius', K.parabolic_radius(S(ang), S(a), degrees=deg), r, 8*eps + tden)
        else:
            cmp('hyperbolic_radius', K.hyperbolic_radius(S(ang), S(a), S(e), degrees=deg), r, 8*eps + tden + one)
            th = np.atleast_1d(K.true_of_the_asymptote(S(e), degrees=deg))
            t = O.rad(th, deg)
            # the conic distance diverges: 1 + e cos = 0, in the outgoing half
            with np.errstate(all='ignore'):
                bad = ~((t > O.PI/2) & (t <= O.PI*(1 + 4*eps)))
            ctx.within('asymptote', np.abs(1 + O.ld(e)*np.cos(t)), 16*eps*(1 + e), 'the distance does not diverge at the asymptote',
                       case_=lambda k: dict(e=e[k], got=th[k], degrees=deg))
            ctx.within('asymptote-side', np.where(bad, 1, 0), 0, 'asymptote is not the outgoing one', case_=lambda k: dict(e=e[k], got=th[k], degrees=deg))
            ctx.count('relation asymptote', n)
            ctx.judged_cols(e[None], tag=b'asy')
        # period: time of one turn at the mean motion of the state
        P = O.TWOPI*np.sqrt(O.ld(a)**3/mu)
        got = K.orbital_period(S(a), S(mu))
        cmp('period', got, P, 32*eps)
        cmp('period inverse', K.semi_major_axis(got, S(mu)), a, 64*eps)
        T = 10**rng.uniform(-6, 12, n)
        ax = K.semi_major_axis(S(T), S(mu))
        cmp('axis', ax, np.cbrt(O.ld(mu)*(O.ld(T)/O.TWOPI)**2), 32*eps)
        cmp('axis inverse', K.orbital_period(ax, S(mu)), T, 64*eps)
        ctx.sample(dict(elements=ks[:, 0], mu=mu[0], r=r[0], v=v[0]), cap=4)


# ------------------------------------------------------------------ C12

def rot(axis, t):
    '''Right-handed rotation about a coordinate axis (Rodrigues).'''
    t = O.ld(t)
    k = np.zeros((3, 3), dtype=LD)
    i, j = (axis + 1) % 3, (axis + 2) % 3
    k[j, i], k[i, j] = 1, -1
    return np.eye(3, dtype=LD) + np.sin(t)*k + (1 - np.cos(t))*(k @ k)


class C12(Check):
    rule = ('one case is one rotation matrix (axis and angle, or one column of an orbital-plane matrix) compared with the '
            'rotation it documents; distinct by kind and angles')
    assumptions = ['reference rotation by the Rodrigues formula']

    def setup(self):
        for k in ('x', 'y', 'z', 'euler scalar', 'euler array', 'euler mixed', 'dtype', 'additive', 'kinds of number'):
            self.ctx.need(k, 50)

    def cases(self):
        rng = self.ctx.rng('rot')
        for b in range(self.ctx.n(1200, 20000)):
            yield dict(kind='axis', axis=int(b % 3), t=gen.angle_of(rng), u=gen.angle_of(rng), dt=['float64', 'float32', 'longdouble', None][rng.integers(4)])
        for b in range(self.ctx.n(1500, 15000)):
            yield dict(kind='euler', seed=int(rng.integers(2**31)))
        for t in range(-40, 400, self.ctx.n(5, 1)):
            yield dict(kind='kinds', t=t)

    def proper(self, R, t, name, eps):
        R = O.ld(R)
        self.ctx.within('orthogonal', np.max(np.abs(R @ R.T - np.eye(3))), 16*eps, f'{name}: not orthogonal', angle=t)
        det = R[0] @ np.array([R[1, 1]*R[2, 2] - R[1, 2]*R[2, 1], R[1, 2]*R[2, 0] - R[1, 0]*R[2, 2], R[1, 0]*R[2, 1] - R[1, 1]*R[2, 0]])
        self.ctx.within('determinant', abs(det - 1), 16*eps, f'{name}: not a proper rotation', angle=t)

    def execute(self, case):
        ctx, K = self.ctx, self.K
        if case['kind'] == 'kinds':
            # the angle may be any kind of number
            t = case['t']
            for x in (int(t), np.int64(t), np.int32(t), np.array(float(t)), np.array(int(t)), np.float64(t), np.float32(t)):
                for ax in range(3):
                    nm = 'rot_mat_' + 'xyz'[ax]
                    R = getattr(K, nm)(x)
                    v = float(x)
                    one = isinstance(x, np.float32)
                    if ctx.check(isinstance(R, np.ndarray) and R.shape == (3, 3), 'matrix', f'{nm}: wrong shape', angle=v, type=type(x).__name__):
                        ctx.within(nm, np.max(np.abs(O.ld(R) - rot(ax, v))), 8*(O.EPS32*(1 + abs(v)) if one else O.EPS), f'{nm} is not the right-handed rotation by the angle', angle=v, type=type(x).__name__, got=R)
            for deg in (False, True):
                for args in ([int(t), 2, 3], [np.array([int(t)]), np.array([2]), np.array([3])], [np.array([int(t)]), 2, 3.0], [1, np.array([int(t), 2]), 0.5], [np.int64(t), 2.5, np.array([1, 2, 3])]):
                    R = K.euler_rotation_matrix(*args, degrees=deg)
                    n = max(np.size(a) for a in args)
                    full = np.array([np.broadcast_to(np.asarray(a, dtype=float), (n,)) for a in args])
                    if not ctx.check(R.shape == ((3, 3, n) if any(isinstance(a, np.ndarray) for a in args) else (3, 3)), 'euler-shape', 'wrong shape', got=R.shape, angles=full):
                        continue
                    R = R.reshape(3, 3, -1)
                    ang = O.rad(full, deg)
                    for c in range(R.shape[2]):
                        want = rot(2, ang[2, c]) @ rot(0, ang[0, c]) @ rot(2, ang[1, c])
                        ctx.within('euler', np.max(np.abs(O.ld(R[:, :, c]) - want)), O.EPS*(12 + 4*float(np.sum(np.abs(ang[:, c])))),
                                   'not the z-x-z composition of node, inclination and argument of periapsis', angles=full[:, c], degrees=deg, got=R[:, :, c])
            ctx.count('kinds of number')
            ctx.judged(('kinds', t))
            return
        if case['kind'] == 'axis':
            ax, t = case['axis'], case['t']
            nm = 'rot_mat_' + 'xyz'[ax]
            f = getattr(K, nm)
            dt = case['dt']
            R = f(t) if dt is None else f(t, dtype=np.dtype(dt))
            eps = O.EPS32 if dt == 'float32' else O.EPS
            if not ctx.check(R.shape == (3, 3) and R.dtype == np.dtype(dt or 'float64'), 'matrix', f'{nm}: wrong shape or type', dtype=R.dtype, shape=R.shape):
                return
            if dt is not None:
                ctx.count('dtype')
            ctx.within(nm, np.max(np.abs(O.ld(R) - rot(ax, t))), 4*eps, f'{nm} is not the right-handed rotation by the angle', angle=t, got=R)
            self.proper(R, t, nm, eps)
            u = case['u']
            R2, R3 = f(u), f(t + u)
            ctx.within('additive', np.max(np.abs(O.ld(f(t)) @ O.ld(R2) - O.ld(R3))), O.EPS*(8 + 2*(abs(t) + abs(u))), f'{nm}: rotations about one axis do not add up', angles=[t, u])
            ctx.count('additive')
            ctx.count('xyz'[ax])
            ctx.judged((nm, t, u, dt))
            ctx.sample(dict(axis='xyz'[ax], angle=t, matrix=R), cap=3)
            return
        rng = np.random.default_rng(case['seed'])
        n = int(rng.choice([1, 2, 3, 9])) if rng.random() < 0.99 else int(rng.integers(60, 1100))
        deg = bool(rng.integers(2))
        full = np.array([[gen.angle_of(rng, deg) for _ in range(n)] for _ in range(3)])
        isarr = rng.random(3) < 0.6
        args = [full[q].copy() if isarr[q] else float(full[q, 0]) for q in range(3)]
        for q in range(3):
            if not isarr[q]:
                full[q] = full[q, 0]
        R = K.euler_rotation_matrix(*args, degrees=deg)
        shape = (3, 3, n) if isarr.any() else (3, 3)
        if not ctx.check(R.shape == shape, 'euler-shape', 'wrong shape', got=R.shape, want=shape, arrays=isarr):
            return
        R = R.reshape(3, 3, -1)
        ang = O.rad(full, deg)
        for c in range(R.shape[2]):
            inc, om, Om = ang[:, c]
            want = rot(2, Om) @ rot(0, inc) @ rot(2, om)
            tol = O.EPS*(12 + 4*float(np.sum(np.abs(ang[:, c]))))
            ctx.within('euler', np.max(np.abs(O.ld(R[:, :, c]) - want)), tol, 'not the z-x-z composition of node, inclination and argument of periapsis',
                       angles=full[:, c], degrees=deg, arrays=isarr, got=R[:, :, c])
            self.proper(R[:, :, c], full[:, c], 'euler', 2*O.EPS)
            ctx.judged(full[:, c].tobytes() + bytes([deg]) + isarr.tobytes())
        ctx.count('euler ' + ('array' if isarr.all() else 'mixed' if isarr.any() else 'scalar'))


# ------------------------------------------------------------------ C13

def stumpff_ref(n, x):
    '''Series for small arguments, closed forms with half angles elsewhere.'''
    x = LD(x)
    if abs(x) < 2:
        f = LD(1)
        for k in range(2, n + 1):
            f /= k
        s = LD(0)
        for j in range(0, 24):
            s += f
            f = -f*x/((n + 2*j + 1)*(n + 2*j + 2))
        return s
    if x > 0:
        q = np.sqrt(x)
        return (np.cos(q), np.sin(q)/q, 2*np.sin(q/2)**2/x, (q - np.sin(q))/(q*x))[n]
    y = -x
    q = np.sqrt(y)
    return (np.cosh(q), np.sinh(q)/q, 2*np.sinh(q/2)**2/y, (np.sinh(q) - q)/(q*y))[n]


class C13(Check):
    rule = ('one case is one argument of one Stumpff function compared with the defining series; arguments sweep sign, '
            'magnitude from the smallest subnormal to 4.9e5 and exact special values, alone and in arrays; distinct by '
            'function and argument')
    assumptions = ['series in extended precision (argument below 2) and closed forms in extended precision above']

    def setup(self):
        for k in ('tiny', 'small', 'medium', 'large', 'zero', 'positive', 'negative', 'undefined', 'identity', 'scalar', 'array', 'integer'):
            self.ctx.need(k, 20)

    def arg(self, rng):
        c = rng.integers(10)
        s = rng.choice([-1, 1])
        if c == 0:
            return 0.0 if s > 0 else -0.0
        if c == 1:
            return float(s*rng.choice([5e-324, 1e-320, 2.3e-308, 1e-300, 1e-200, 1e-100, 1e-30]))
        if c <= 4:
            return float(s*10**rng.uniform(-20, -1))
        if c == 5:
            return float(s*rng.choice([1.0, 4.0, np.pi**2, 4*np.pi**2, np.pi**2/4, 0.25, 1e-8, 0.5, 2.0, 0.1, 0.01, 1e-3, 1e-4, 1e-6]))
        if c <= 8:
            return float(s*10**rng.uniform(-1, 3))
        return float(s*10**rng.uniform(3, 5.69))

    def cases(self):
        rng = self.ctx.rng('stumpff')
        for b in range(self.ctx.n(700, 12000)):
            n = int(rng.choice([1, 1, 3, 10])) if rng.random() < 0.995 else int(rng.integers(60, 1100))
            xs = [self.arg(rng) for _ in range(n)]
            if rng.random() < 0.15:
                xs[rng.integers(n)] = float('nan')
            form = ['float', 'array0', 'array', '2d', 'int', 'stumpff'][rng.integers(6)]
            if form == 'int':
                xs = [float(np.round(np.clip(x, -1000, 1000))) if np.isfinite(x) else 1.0 for x in xs]
            yield dict(xs=[x.hex() for x in xs], form=form)

    def execute(self, case):
        ctx, K = self.ctx, self.K
        xs = np.array([float.fromhex(x) for x in case['xs']])
        form = case['form']
        fs = [K.stumpff0, K.stumpff1, K.stumpff2, K.stumpff3]
        n = len(xs)
        if form in ('float', 'array0'):
            a = float(xs[0]) if form == 'float' else np.array(xs[0])
            xs = xs[:1]
            ctx.count('scalar')
        elif form == '2d':
            a = np.stack([xs, xs[::-1]])
            xs = a.copy()
        elif form == 'int':
            a = xs.astype(int) if n > 1 else int(xs[0])
            ctx.count('integer')
        else:
            a = xs.copy()
            ctx.count('array')
        if form == 'stumpff':
            out = K.stumpff(a)
            ctx.check(isinstance(out, tuple) and len(out) == 4, 'tuple', 'stumpff does not return the four functions')
        else:
            out = [f(a) for f in fs]
        vals = []
        for k in range(4):
            ctx.check(np.shape(out[k]) == np.shape(a), 'shape', f'stumpff{k}: wrong shape', got=np.shape(out[k]), want=np.shape(a))
            vals.append(np.asarray(out[k], dtype=LD).reshape(-1))
        flat = np.asarray(a, dtype=float).reshape(-1)
        for m, x in enumerate(flat):
            if np.isnan(x):
                for k in range(4):
                    ctx.check(np.isnan(vals[k][m]), 'undefined', f'stumpff{k}: a value for an undefined argument', got=vals[k][m])
                ctx.count('undefined')
                ctx.judged(('nan', form, m, n))
                continue
            q = np.sqrt(abs(LD(x)))
            for k in range(4):
                want = stumpff_ref(k, x)
                # conditioning: derivative of the oscillating or exponential part
                if abs(x) < 1:
                    tol = 16*O.EPS*abs(want)
                elif x < 0:
                    tol = O.EPS*(8 + 4*q)*abs(want)
                else:
                    amp = (1, 1/q, 2/LD(x), (q + 1)/(q*x))[k]
                    tol = O.EPS*(8 + 4*q)*amp
                ctx.within(f'stumpff{k}', abs(vals[k][m] - want), tol, f'stumpff{k} is not the defining series', x=float(x).hex(), got=vals[k][m], want=want, form=form)
                ctx.judged((k, x))
            b = abs(x)
            ctx.count('zero' if b == 0 else 'tiny' if b < 1e-20 else 'small' if b < 0.1 else 'medium' if b < 100 else 'large')
            ctx.count('positive' if x > 0 else 'negative' if x < 0 else 'zero')
            # identities on the library's own values
            if b < 1e5:
                c = [v[m] for v in vals]
                s = max(abs(c[0]), 1) + b*abs(c[2])
                ctx.within('c0 = 1 - x c2', abs(c[0] - (1 - LD(x)*c[2])), O.EPS*(16 + 8*q)*s, 'identity broken', x=x)
                s = max(abs(c[1]), 1) + b*abs(c[3])
                ctx.within('c1 = 1 - x c3', abs(c[1] - (1 - LD(x)*c[3])), O.EPS*(16 + 8*q)*s, 'identity broken', x=x)
                ctx.count('identity')
        ctx.sample(dict(x=flat[0], form=form, values=[v[0] for v in vals]), cap=4)


# ------------------------------------------------------------------ C14

MASS = {'kg': 1.0, 'g': 1e-3, 'msun': None, 'msol': None}
TIME = {'s': 1.0, 'h': 3600.0, 'd': 86400.0, 'y': 31557600.0}
LENGTH = {'m': 1.0, 'cm': 1e-2, 'km': 1e3, 'au': None, 'pc': 3.0856775814913673e16}


def recase(rng, s):
    return ''.join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


def resep(rng, s):
    out = ''
    for c in s:
        while rng.random() < 0.25:
            out += str(rng.choice(['_', ' ', '-']))
        out += c
    return out + str(rng.choice(['', '', ' ', '_', '-']))


class C14(Check):
    rule = ('one case is one unit system (names in random case and separators, or numbers) whose gravitational constant was '
            'compared with the SI constant scaled by the exact unit ratios, or one unsupported unit that has to be refused; '
            'distinct by argument triple')
    assumptions = ['G, solar mass and astronomical unit are those the library publishes (sanity-checked to 1e-3)',
                   'refusal is not judged for integer, boolean and numpy scalar units']

    def setup(self):
        for k in ('names', 'numbers', 'mixed', 'refused', 'scaling'):
            self.ctx.need(k, 40)

    def cases(self):
        rng = self.ctx.rng('units')
        for l, m, t in itertools.product(LENGTH, MASS, TIME):
            yield dict(kind='combo', units=[l, m, t])
            for _ in range(self.ctx.n(2, 20)):
                yield dict(kind='combo', units=[recase(rng, l), resep(rng, recase(rng, m)), recase(rng, t)])
        for b in range(self.ctx.n(1500, 20000)):
            u = []
            for names in (LENGTH, MASS, TIME):
                if rng.random() < 0.5:
                    u.append(float(10**rng.uniform(-10, 20)) if rng.random() < 0.9 else float(rng.choice([1.0, 0.5, 2.0])))
                else:
                    u.append(recase(rng, str(rng.choice(list(names)))))
            yield dict(kind='combo', units=u)
        for b in range(self.ctx.n(300, 3000)):
            yield dict(kind='refuse', pos=int(b % 3), seed=int(rng.integers(2**31)))

    def value(self, pos, u):
        if isinstance(u, float):
            return LD(u)
        c = self.pyorb.const
        if pos == 0:
            u = u.lower()
            return LD(c.AU) if u == 'au' else LD(LENGTH[u])
        if pos == 1:
            u = u.lower().replace('_', '').replace(' ', '').replace('-', '')
            return LD(c.M_sol) if u in ('msun', 'msol') else LD(MASS[u])
        return LD(TIME[u.lower()])

    def execute(self, case):
        ctx = self.ctx
        get_G = self.pyorb.get_G
        c = self.pyorb.const
        if case['kind'] == 'combo':
            if ctx.bins['sanity'] == 0:
                ctx.count('sanity')
                for nm, v in (('G', 6.6743e-11), ('AU', 1.495978707e11), ('M_sol', 1.98847e30)):
                    ctx.within('constant', abs(getattr(c, nm)/v - 1), 1e-3, f'{nm} is not the published constant', got=getattr(c, nm))
            u = case['units']
            want = LD(c.G)*self.value(1, u[1])*self.value(2, u[2])**2/self.value(0, u[0])**3
            got = get_G(*u)
            tol = 1e-9 if isinstance(u[0], str) and u[0].lower() == 'pc' else 32*O.EPS
            if not ctx.check(isinstance(got, (float, np.floating)), 'type', 'not a number', units=u, got=got):
                return
            ctx.within('G', abs(LD(got)/want - 1), tol, 'not the SI constant scaled to the unit system', units=u, got=got, want=want)
            g2 = get_G(length=u[0], mass=u[1], time=u[2])
            ctx.check(g2 == got, 'keywords', 'keyword arguments give another value', units=u, got=[got, g2])
            k = sum(isinstance(x, str) for x in u)
            ctx.count('names' if k == 3 else 'numbers' if k == 0 else 'mixed')
            ctx.judged(repr(u))
            # exact scaling of one numeric unit by a power of two
            for pos, pw in ((0, -3), (1, 1), (2, 2)):
                if isinstance(u[pos], float):
                    v = list(u)
                    v[pos] = u[pos]*2
                    ctx.within('scaling', abs(LD(get_G(*v))/got/LD(2)**pw - 1), 8*O.EPS, 'does not scale with the unit', units=u, position=pos)
                    ctx.count('scaling')
            ctx.sample(dict(units=u, G=got), cap=4)
            return
        rng = np.random.default_rng(case['seed'])
        pos = case['pos']
        u = [str(rng.choice(list(LENGTH))), str(rng.choice(list(MASS))), str(rng.choice(list(TIME)))]
        names = [LENGTH, MASS, TIME]
        good = str(rng.choice(list(names[pos])))
        other = [x for q in range(3) if q != pos for x in names[q] if x not in names[pos]]
        bad = [str(rng.choice(other)), good + 'x', 'x' + good, good*2 if good*2 not in names[pos] else 'zz', '', 'mm', 'kms', 'meter', 'kilogram', 'second', 'earth', '1', '1.0',
               'mearth', 'yr', 'min', 'sec', 'ly', 'ms', 'tonne', 'solar',
               None, [1.0], (1.0,), {}, b'kg', 1j, object, np.array([1.0, 2.0]), good.encode()]
        if pos != 1:
            bad += [' ' + good, good + ' ', good[0] + '_' + good[1:] if len(good) > 1 else '_' + good, '-' + good]
        b = bad[rng.integers(len(bad))]
        if isinstance(b, str):
            low = b.lower() if pos != 1 else b.lower().replace('_', '').replace(' ', '').replace('-', '')
            if low in names[pos]:
                return
        u[pos] = b
        try:
            got = get_G(*u)
        except TypeError:
            got = None
        except Exception as e:
            ctx.violate('refusal', f'unsupported unit raises {type(e).__name__} instead of TypeError', units=[repr(x) for x in u])
            return
        ctx.check(got is None, 'refusal', 'an unsupported unit is accepted', units=[repr(x) for x in u], got=got)
        ctx.count('refused')
        ctx.judged(repr([repr(x) for x in u]))


# ------------------------------------------------------------------ C15

OTHER_ORDER = r'''
import sys
sys.path.insert(0, sys.argv[1])
import importlib
first = sys.argv[2]
c = importlib.import_module(first)
import pyorb.const as c1
import pyorb
from pyorb import const as c2
import pyorb.kepler, pyorb.unit, pyorb.orbit
assert pyorb.const is c1 is c2 is sys.modules['pyorb.const'], 'several constant modules'
import numpy as np
ok = True
for name, val in list(vars(c1).items()):
    if name.startswith('__') or not isinstance(val, (int, float)):
        continue
    for new in (val*2 + 1, 'x', None):
        try:
            setattr(c1, name, new)
        except TypeError:
            pass
        else:
            print('REBOUND', name); ok = False
    try:
        delattr(c1, name)
    except TypeError:
        pass
    else:
        print('DELETED', name); ok = False
    if getattr(c2, name, None) != val:
        print('CHANGED', name); ok = False
print('names', sum(isinstance(v, (int, float)) for v in vars(c1).values()))
print('DONE' if ok else 'BAD')
'''


class C15(Check):
    rule = ('one case is one attempt to rebind, delete or re-assign a constant through one access path, one consistency '
            'relation, or one snapshot comparison after a piece of library use; distinct by constant, path and attempt')
    assumptions = ['tampering with the attribute dictionary itself is outside the guarantee']
    INDEX = dict(zip('K_a K_e K_i K_om K_OM K_nu E_a E_h E_k E_p E_q E_lam'.split(), list(range(6))*2))

    def setup(self):
        for k in ('rebind', 'delete', 'same value', 'consistency', 'snapshot', 'fresh process'):
            self.ctx.need(k, 2)
        self.ctx.need('rebind', 100)
        self.const = self.pyorb.const
        self.names = sorted(n for n, v in vars(self.const).items() if isinstance(v, (int, float)) and not n.startswith('__'))
        self.before = {n: getattr(self.const, n) for n in self.names}

    def cases(self):
        rng = self.ctx.rng('const')
        yield dict(kind='consistency')
        for n in self.names:
            for path in range(4):
                yield dict(kind='rebind', name=n, path=path)
        for b in range(self.ctx.n(40, 400)):
            yield dict(kind='use', seed=int(rng.integers(2**31)))
        yield dict(kind='consistency')
        for first in ('pyorb.const', 'pyorb.unit', 'pyorb.kepler', 'pyorb.orbit', 'pyorb'):
            yield dict(kind='process', first=first)
        for n in self.names:
            yield dict(kind='rebind', name=n, path=0)

    def module(self, path):
        import pyorb.const as direct
        from pyorb import const as fromimp
        return [self.pyorb.const, direct, fromimp, sys.modules['pyorb.const']][path]

    def unchanged(self, what):
        for p in range(4):
            m = self.module(p)
            for n, v in self.before.items():
                got = getattr(m, n, None)
                if not (type(got) is type(v) and got == v):
                    self.ctx.violate('changed', f'constant {n} changed after {what}', got=got, was=v)
                    return
        self.ctx.check(sorted(k for k in self.before) == sorted(
            n for n, v in vars(self.const).items() if isinstance(v, (int, float)) and not n.startswith('__')),
            'names', f'set of constants changed after {what}')
        self.ctx.count('snapshot')

    def execute(self, case):
        ctx, c, P = self.ctx, self.const, self.pyorb
        k = case['kind']
        if k == 'rebind':
            n, m = case['name'], self.module(case['path'])
            v = self.before[n]
            for new in (v*1.5 + 1, -v if v else 7, v*(1 + 1e-12) if isinstance(v, float) else v + 3, None, 'x', float('nan'), [v], np.float64(v)*2 + 1):
                try:
                    setattr(m, n, new)
                    ctx.violate('rebind', f'constant {n} can be rebound', new=repr(new))
                    c.__dict__[n] = v
                except TypeError as e:
                    ctx.check(isinstance(e, c.ConstError), 'error type', 'rebinding raises something else than the documented error', got=repr(e))
                ctx.count('rebind')
                ctx.judged((n, case['path'], repr(new)))
            for same in (v, type(v)(v), np.float64(v)):
                try:
                    setattr(m, n, same)
                except Exception as e:
                    ctx.violate('same value', f'assigning the same value to {n} is refused', error=repr(e))
                ctx.count('same value')
                ctx.check(getattr(c, n) == v and type(getattr(c, n)) is type(v), 'same value', f'assigning the same value to {n} changed it', got=repr(getattr(c, n)))
            try:
                delattr(m, n)
                ctx.violate('delete', f'constant {n} can be deleted')
                c.__dict__[n] = v
            except TypeError:
                pass
            except Exception as e:
                ctx.violate('delete', f'deleting {n} raises {type(e).__name__}')
            ctx.count('delete')
            ctx.judged((n, case['path'], 'delete'))
            self.unchanged('an attempt to change it')
        elif k == 'consistency':
            rel = [('wgs84_f', c.wgs84_f*c.wgs84_invf, 1.0, 1e-14), ('wgs84_M_earth', c.wgs84_M_earth*c.G, c.wgs84_GM, 1e-14),
                   ('GM_sol', c.G*c.M_sol, c.GM_sol, 1e-3), ('_2pi', c._2pi, 2*np.pi, 1e-15), ('_4pi', c._4pi, 4*np.pi, 1e-15),
                   ('pi', c.pi, np.pi, 0), ('e', c.e, np.e, 0),
                   ('G', P.G, c.G, 0), ('AU', P.AU, c.AU, 0), ('M_sol', P.M_sol, c.M_sol, 0), ('GM_sol export', P.GM_sol, c.GM_sol, 0),
                   ('GM_earth', P.GM_earth, c.wgs84_GM, 0), ('M_earth', P.M_earth, c.wgs84_M_earth, 0),
                   ('unit G', P.get_G(1.0, 1.0, 1.0), c.G, 1e-15), ('solar day', P.get_G('au', 'msol', 'd'), c.G*c.M_sol*86400.0**2/c.AU**3, 1e-14),
                   ('e_lim', P.e_lim, P.kepler.e_lim, 0), ('i_lim', P.i_lim, P.kepler.i_lim, 0)]
            # published values
            for nm, v in (('c', 299792458.0), ('G', 6.6743e-11), ('wgs84_a', 6378137.0), ('wgs84_invf', 298.257223563), ('wgs84_omega', 7.292115e-5),
                          ('wgs84_GM', 3.986004418e14), ('AU', 1.495978707e11), ('M_sol', 1.98847e30), ('GM_sol', 1.32712440018e20)):
                rel.append((nm + ' value', getattr(c, nm), v, 1e-4))
            for nm, a, b, tol in rel:
                ctx.within('consistency', abs(a/b - 1), tol, f'{nm} does not agree', got=a, want=b)
                ctx.count('consistency')
                ctx.judged(('rel', nm))
            for nm, v in self.INDEX.items():
                ctx.check(getattr(c, nm) == v, 'index', f'{nm} is not the documented row', got=getattr(c, nm), want=v)
                ctx.count('consistency')
            ctx.check(list(P.Orbit.KEPLER) == ['a', 'e', 'i', 'omega', 'Omega', 'anom'], 'index', 'order of element names changed', got=P.Orbit.KEPLER)
            # the row a named index points to is that element
            kep = np.array([2.0, 0.1, 0.5, 0.3, 0.7, 1.1])
            orb = P.Orbit(1.0, G=1.0)
            orb.kepler = kep[:, None]
            for nm, at in (('K_a', 'a'), ('K_e', 'e'), ('K_i', 'i'), ('K_om', 'omega'), ('K_OM', 'Omega'), ('K_nu', 'anom')):
                ctx.check(float(np.ravel(getattr(orb, at))[0]) == kep[getattr(c, nm)], 'index', f'{nm} does not index {at}')
            q = P.kep_to_equi(kep)
            ref = dict(E_a=2.0, E_h=0.1*np.sin(1.0), E_k=0.1*np.cos(1.0), E_p=np.tan(.25)*np.sin(.7), E_q=np.tan(.25)*np.cos(.7), E_lam=2.1)
            for nm, v in ref.items():
                ctx.within('index-equi', abs(q[getattr(c, nm)] - v), 1e-12, f'{nm} does not index that element')
        elif k == 'use':
            rng = np.random.default_rng(case['seed'])
            use_library(P, rng)
            self.unchanged('using the library')
            ctx.judged(('use', case['seed']))
        else:
            env = dict(os.environ)
            r = subprocess.run([sys.executable, '-c', OTHER_ORDER, inst.REPO, case['first']], capture_output=True, text=True, env=env, timeout=300)
            ctx.check(r.returncode == 0 and 'DONE' in r.stdout, 'process', 'constants can be changed in a fresh process',
                      out=r.stdout[-800:], err=r.stderr[-800:])
            ctx.count('fresh process')
            ctx.judged(('process', case['first']))
        ctx.sample(case, cap=5)


def use_library(P, rng):
    '''A short tour through the whole library.'''
    K = P.kepler
    n = int(rng.integers(1, 5))
    kep, mu = gen.kep_batch(rng, n, kinds=['ell', 'small', 'circ'])
    kep[2] = np.minimum(kep[2], 2.9)
    for deg in (False, True):
        k = kep.copy()
        if deg:
            k[2:] = np.degrees(k[2:])
        x = K.kep_to_cart(k, mu=mu, degrees=deg)
        K.cart_to_kep(x, mu=mu, degrees=deg)
        q = K.cart_to_equi(x, mu=mu, degrees=deg)
        K.equi_to_cart(q, mu=mu, degrees=deg)
        K.kep_to_cart(k, degrees=deg)
    P.get_G('au', 'msun', 'y')
    orb = P.Orbit(P.M_sol, G=P.G, num=n, degrees=bool(rng.integers(2)), a=P.AU, e=0.1, i=0.2, omega=0.3, Omega=0.4, anom=0.5)
    orb.propagate(1e6)
    orb.cartesian
    orb.kepler
    orb.G *= 2
    orb.M0 = orb.M0*1.5
    orb.calculate_cartesian()
    orb.a *= 1.1
    orb.period, orb.speed, orb.equinoctial
    str(orb)
    a = P.const
    orb.M0 = a.M_sol
    orb.m = np.full(n, a.wgs84_M_earth)
    orb.m *= 3
    K.stumpff(np.array([0.1, -1.0]))
    K.euler_rotation_matrix(a.pi, 1.0, 2.0)


# ------------------------------------------------------------------ C16

class C16(Check):
    rule = ('one case is one call of a freshly wrapped recording function with random marks, defaults and arguments; it '
            'counts when what the function received and what the caller got were both compared; distinct by configuration '
            'and values')
    assumptions = ['marked positional arguments are passed by position; marks are non-negative positions']

    def setup(self):
        for k in ('in degrees', 'in radians', 'default degrees', 'absent keyword', 'no return', 'whole return', 'partial return', 'array', 'no marks', 'out false', 'error passed on', 'too few'):
            self.ctx.need(k, 20)

    def cases(self):
        rng = self.ctx.rng('wrap')
        for b in range(self.ctx.n(3000, 60000)):
            yield dict(seed=int(rng.integers(2**31)))

    def val(self, rng):
        c = rng.integers(6)
        if c == 0:
            return float(rng.choice([0.0, 90.0, -180.0, 360.0]))
        if c == 1:
            return int(rng.integers(-400, 400))
        if c == 2:
            return rng.uniform(-400, 400, int(rng.integers(1, 4)))
        if c == 3:
            return rng.uniform(-400, 400, (2, 2))
        return float(rng.uniform(-400, 400))

    def execute(self, case):
        ctx = self.ctx
        rng = np.random.default_rng(case['seed'])
        angle_units = self.pyorb.unit.angle_units
        npos = int(rng.integers(0, 5))
        nkey = int(rng.integers(0, 4))
        keys = ['k%d' % q for q in range(nkey)]
        marked = [q for q in range(npos) if rng.random() < 0.5]
        mkeys = [q for q in keys if rng.random() < 0.6] + (['absent'] if rng.random() < 0.4 else [])
        in_inds = None if not marked and rng.random() < 0.5 else (marked if rng.random() < 0.5 else tuple(marked))
        in_keys = None if not mkeys and rng.random() < 0.5 else (mkeys if rng.random() < 0.5 else tuple(mkeys))
        default = bool(rng.integers(2))
        calls = [[None, False, True][rng.integers(3)] for _ in range(4)]
        nret = int(rng.integers(1, 4))
        shape = ['none', 'value', 'tuple', 'list'][rng.integers(4)]
        if shape == 'value':
            ret = self.val(rng)
            out = [None, True, False][rng.integers(3)]
        elif shape == 'none':
            ret = None
            out = [None, True, False, [0]][rng.integers(4)]
        else:
            ret = [self.val(rng) for _ in range(nret)]
            if shape == 'tuple':
                ret = tuple(ret)
            out = [None, False, [q for q in range(nret) if rng.random() < 0.6], tuple(q for q in range(nret) if rng.random() < 0.6)][rng.integers(4)]
        args = [self.val(rng) if q in marked or rng.random() < 0.6 else ['text', None, {'a': 1}][rng.integers(3)] for q in range(npos)]
        kw = {q: (self.val(rng) if q in mkeys or rng.random() < 0.6 else ['text', None, [1]][rng.integers(3)]) for q in keys}
        if rng.random() < 0.3:
            kw['extra'] = 'y'
        seen = {}
        fail = rng.random() < 0.05

        def func(*a, **k):
            seen['a'], seen['k'] = a, dict(k)
            if fail:
                raise KeyError('mine')
            return ret
        f = angle_units(in_inds, in_keys, out, degrees=default)(func) if rng.random() < 0.8 or default else angle_units(in_inds, in_keys, out)(func)
        fa = [inst.fingerprint(a) for a in args]
        fk = {k: inst.fingerprint(v) for k, v in kw.items()}
        fr = repr(ret)
        before = []
        for call in calls:
            # the same wrapped function called in turn with and without the option
            seen.clear()
            eff = default if call is None else call
            extra = {} if call is None else dict(degrees=call)
            cfg = dict(in_arg_inds=in_inds, in_arg_keys=in_keys, out_arg_inds=out, default=default, calls_before=before[:], call=call, args=args, kwargs=kw, ret=ret)
            before.append(call)
            try:
                got = f(*args, **kw, **extra)
            except KeyError as e:
                ctx.check(fail and e.args == ('mine',), 'error', 'an error was raised that the wrapped function did not raise', error=repr(e), **cfg)
                ctx.count('error passed on')
                got = None
                failed = True
            else:
                ctx.check(not fail, 'error', 'an error of the wrapped function was swallowed', **cfg)
                failed = False
            if 'a' not in seen:
                ctx.violate('call', 'the wrapped function was not called', **cfg)
                return
            a, k = seen['a'], seen['k']
            ok = len(a) == npos and set(k) == set(kw)
            ctx.check(ok, 'arguments', 'the wrapped function received other arguments', got=[a, k], **cfg)
            if not ok:
                return
            for q in range(npos):
                self.compare('positional', q, a[q], args[q], eff and q in marked, np.radians, cfg)
            for q in kw:
                self.compare('keyword', q, k[q], kw[q], eff and q in mkeys, np.radians, cfg)
            if not failed:
                if ret is None:
                    ctx.check(got is None, 'result', 'a result appeared', got=got, **cfg)
                    ctx.count('no return')
                elif not eff or out is None or out is False:
                    ctx.check(got is ret or repr(got) == repr(ret), 'result', 'an unmarked result was changed', got=got, **cfg)
                elif out is True:
                    self.compare('result', 0, got, ret, True, np.degrees, cfg)
                    ctx.count('whole return')
                else:
                    if not ctx.check(isinstance(got, (tuple, list)) and len(got) == nret, 'result', 'wrong number of results', got=got, **cfg):
                        return
                    for q in range(nret):
                        self.compare('result', q, got[q], ret[q], q in out, np.degrees, cfg)
                    ctx.count('partial return')
            ctx.check([inst.fingerprint(x) for x in args] == fa and {x: inst.fingerprint(v) for x, v in kw.items()} == fk and repr(ret) == fr,
                      'modified', "the caller's or function's objects were modified", **cfg)
            ctx.count('in degrees' if eff else 'in radians')
            if default and call is None:
                ctx.count('default degrees')
            if 'absent' in mkeys and eff:
                ctx.count('absent keyword')
            if out is False and eff:
                ctx.count('out false')
            ctx.judged(repr(cfg))
        self.too_few(rng, f, args, kw, marked if in_inds else [], mkeys if in_keys else [], default, fail, seen)
        if any(isinstance(x, np.ndarray) for x in args):
            ctx.count('array')
        if in_inds is None and in_keys is None:
            ctx.count('no marks')
        ctx.sample(dict(marks=[in_inds, in_keys, out], default=default, call=call, args=args), cap=4)

    def too_few(self, rng, f, args, kw, marked, mkeys, default, fail, seen):
        '''Fewer positional arguments than are marked: an error, or those
        that are there converted.'''
        ctx = self.ctx
        if fail or not marked:
            return
        n = int(rng.integers(0, max(marked) + 1))
        call = [None, True][rng.integers(2)]
        if not (default if call is None else call):
            return
        seen.clear()
        cfg = dict(in_arg_inds=marked, in_arg_keys=mkeys, given=args[:n], kwargs=kw)
        try:
            f(*args[:n], **kw, **({} if call is None else dict(degrees=call)))
        except Exception:
            pass
        ctx.count('too few')
        if 'a' in seen:
            ok = len(seen['a']) == n and set(seen['k']) == set(kw)
            if not ctx.check(ok, 'arguments', 'the wrapped function received other arguments', got=[seen['a'], seen['k']], **cfg):
                return
            for q in range(n):
                self.compare('positional', q, seen['a'][q], args[q], q in marked, np.radians, cfg)
            for q in kw:
                self.compare('keyword', q, seen['k'][q], kw[q], q in mkeys, np.radians, cfg)

    def compare(self, what, q, got, given, convert, conv, cfg):
        if not convert:
            self.ctx.check(got is given or (type(got) is type(given) and inst.fingerprint(got) == inst.fingerprint(given)), what + ' untouched', f'unmarked {what} {q} was changed', got=got, **cfg)
            return
        want = np.asarray(given, dtype=LD)*(O.PI/180 if conv is np.radians else 180/O.PI)
        if not self.ctx.check(np.shape(got) == want.shape, what + ' shape', f'marked {what} {q}: wrong shape', got=got, **cfg):
            return
        self.ctx.within(what, np.ravel(np.abs(np.asarray(got, dtype=LD) - want)), np.ravel(8*O.EPS*np.abs(want)), f'marked {what} {q} was not converted', position=q, got=got, **{k: v for k, v in cfg.items() if not callable(v)})


# ------------------------------------------------------------------ C17

VISIBLE = 5e-5


class C17(Check):
    rule = ('one case is one pair of element sets: pairs built to denote the same orbit and position by a documented '
            're-parametrisation have to be equivalent, pairs whose reference states differ visibly (more than 0.005 percent) '
            'have to be different, both in both orders; distinct by pair')
    assumptions = ['pairs between rounding size and 0.005 percent are not judged']

    def setup(self):
        for k in ('identical', 'circular', 'planar', 'retrograde planar', 'circular planar', 'circular retrograde', 'turns',
                  'different', 'differs in size', 'differs in shape', 'differs in inclination', 'differs in node', 'differs in periapsis', 'differs in anomaly',
                  'trade not allowed', 'scaled size', 'barely visible'):
            self.ctx.need(k, 30)

    def cases(self):
        rng = self.ctx.rng('pairs')
        for b in range(self.ctx.n(9000, 160000)):
            yield dict(kind=['same', 'diff'][b % 2], seed=int(rng.integers(2**31)))

    def base(self, rng):
        e = [0.0, 5e-10, 9e-10, 1e-5, 0.1, 0.5, 0.9, 1.0, 1.2, 2.5][rng.integers(10)]
        if e > 1e-3 and e != 1 and rng.random() < 0.5:
            e = float(rng.uniform(0.01, 0.9) if rng.random() < 0.6 else rng.uniform(1.1, 3))
        if rng.random() < 0.3:
            e = float(10**rng.uniform(-8, -0.1))
        c = rng.integers(8)
        il = self.K.i_lim
        inc = [0.0, 0.5*il, np.pi, np.pi - 0.5*il, float(rng.uniform(0.05, 3.0)), float(rng.uniform(0.05, 3.0)),
               float(10**rng.uniform(-8, 0)), float(np.pi - 10**rng.uniform(-8, 0))][c]
        a = float(10**rng.uniform(-10, 13))
        while True:
            k = np.array([a, e, inc, rng.uniform(0, 2*np.pi), rng.uniform(0, 2*np.pi), 0.0])
            if e < 1:
                k[5] = rng.uniform(0, 2*np.pi)
            else:
                lim = np.arccos(-1/e)
                k[5] = rng.uniform(-0.8, 0.8)*lim
            return k

    def both(self, k1, k2, want, what):
        ctx, K = self.ctx, self.K
        for x, y in ((k1, k2), (k2, k1)):
            got = K.kep_equivalent(x.copy(), y.copy())
            ctx.check(isinstance(got, (bool, np.bool_)), 'type', 'the answer is not a truth value', got=repr(got))
            ctx.check(bool(got) == want, what, f'{what}: reported as {"different" if want else "equivalent"}', first=x, second=y)
        ctx.count(what)
        ctx.judged(np.concatenate([k1, k2]).tobytes())

    def execute(self, case):
        rng = np.random.default_rng(case['seed'])
        ctx = self.ctx
        k1 = self.base(rng)
        e, inc = k1[1], k1[2]
        circ = e < 0.95e-9
        pro, ret = inc < 0.9*self.K.i_lim, inc > np.pi - 0.9*self.K.i_lim
        d = float(rng.choice([0.1, 0.5, 1.0, 2.5, -0.7, -2.0]))
        if case['kind'] == 'same':
            k2 = k1.copy()
            what = 'identical'
            opts = ['identical']
            if circ:
                opts.append('circular')
            if pro:
                opts += ['planar', 'planar']
            if ret:
                opts += ['retrograde planar', 'retrograde planar']
            if circ and pro:
                opts += ['circular planar']*2
            if circ and ret:
                opts += ['circular retrograde']*2
            what = opts[rng.integers(len(opts))]
            f = float(rng.choice([0.3, 1.0, -0.6]))
            if what == 'circular':
                k2[3] += d
                k2[5] -= d
            elif what == 'planar':
                k2[4] += d
                k2[3] -= d
            elif what == 'retrograde planar':
                k2[4] += d
                k2[3] += d
            elif what == 'circular planar':
                k2[4] += d
                k2[3] += f
                k2[5] -= d + f
            elif what == 'circular retrograde':
                k2[4] += d
                k2[3] += f
                k2[5] -= f - d
            if e < 1 and rng.random() < 0.4:
                # the same angles a turn on
                k2[3:] += 2*np.pi*rng.integers(-1, 2, 3)
                if rng.random() < 0.1:
                    k2[3:] += 2*np.pi*rng.integers(-1000, 1000, 3)
                    if what == 'identical':
                        k1 = k2.copy()
                ctx.count('turns')
            elif e < 1 and rng.random() < 0.5 and what != 'identical':
                k2[3:] = np.mod(k2[3:], 2*np.pi)
                ctx.count('turns')
            if rng.random() < 0.3:
                k2[0] *= 1 + 1e-13
            self.both(k1, k2, True, what)
            return
        # visibly different
        what = ['size', 'shape', 'inclination', 'node', 'periapsis', 'anomaly', 'trade', 'all', 'near one'][rng.integers(9)]
        k2 = k1.copy()
        s = float(rng.choice([0.03, 0.1, 0.5, -0.03, -0.2]))
        if rng.random() < 0.5:
            s = float(rng.choice([-1, 1])*10**rng.uniform(-4.2, -1))
        if what == 'size':
            k2[0] *= 1 + s
            if k1[0] < 1e-6:
                ctx.count('scaled size')
        elif what == 'shape':
            k2[1] = abs(e + s) if e > 1 else (1.2 if e == 1 else min(0.93, abs(e + s)))
        elif what == 'inclination':
            k2[2] = inc + s if 0 <= inc + s <= np.pi else inc - s
        elif what == 'node':
            k2[4] += s
        elif what == 'periapsis':
            k2[3] += s
        elif what == 'anomaly':
            k2[5] += s
        elif what == 'trade':
            # trades that do change the orbit unless it is of that kind
            t = rng.integers(5)
            if t == 0:
                k2[3] += d
                k2[5] -= d
            elif t == 1:
                k2[4] += d
                k2[3] -= d
            elif t == 2:
                k2[4] += d
                k2[3] += d
            elif t == 3:
                k2[4] += d
                k2[5] -= d
            else:
                k2[4] += d
                k2[5] += d
        elif what == 'near one':
            k1[1] = float(rng.choice([1.0, 1 - 1e-6, 1 + 1e-6, 1 - 1e-7]))
            k1[5] = rng.uniform(-2, 2)
            k2 = k1.copy()
            if k1[1] == 1:
                k2[1] = float(rng.choice([1 - 1e-6, 1 + 1e-6]))
            else:
                k2[1] = 1.0
        else:
            k2[2:] = [rng.uniform(0, 3.1), rng.uniform(0, 6.2), rng.uniform(0, 6.2), k1[5]]
        mu = 1.0
        x = O.kep_state(np.stack([k1, k2], axis=1), mu)
        val = O.kep_valid(np.stack([k1, k2], axis=1), np.ones(2), margin=0.05)
        if not val.all():
            return
        dr = O.norm(x[:3, 0] - x[:3, 1])/min(O.norm(x[:3, 0]), O.norm(x[:3, 1]))
        dv = O.norm(x[3:, 0] - x[3:, 1])/min(O.norm(x[3:, 0]), O.norm(x[3:, 1]))
        if max(dr, dv) < (1e-2 if what == 'near one' else VISIBLE):
            ctx.count('not visibly different')
            return
        self.both(k1, k2, False, 'different')
        if max(dr, dv) < 1e-3:
            ctx.count('barely visible')
        if what in ('size', 'shape', 'inclination', 'node', 'periapsis', 'anomaly'):
            ctx.count('differs in ' + what)
        if what == 'trade':
            ctx.count('trade not allowed')
        ctx.sample(dict(first=k1, second=k2, what=what), cap=5)


CHECKS = dict(C10=C10, C11=C11, C12=C12, C13=C13, C14=C14, C15=C15, C16=C16, C17=C17)
