'''Workload and observation of orbit objects, through the public interface.'''
import copy

import numpy as np

from . import oracle as O
from .base import ANOMS

LD = O.LD
KEP = ['a', 'e', 'i', 'omega', 'Omega', 'anom']
CART = ['x', 'y', 'z', 'vx', 'vy', 'vz']
ANOM_ATTR = dict(true='true_anomaly', eccentric='eccentric_anomaly', mean='mean_anomaly')
DERIVED = ['mean_motion', 'period', 'apoapsis', 'periapsis', 'mean_longitude', 'velocity', 'speed',
           'true_anomaly', 'eccentric_anomaly', 'mean_anomaly', 'equinoctial']
READS = ['kepler', 'cartesian', 'r', 'v'] + KEP + CART + DERIVED
MODES = dict(direct=(True, True), lazy=(True, False), direct2=(False, True), manual=(False, False))
TOL = 1e-5          # two-body state of the elements against the state, well conditioned orbits


def kin(kt, typ, deg):
    '''True anomaly in radians -> as stored in an object.'''
    k = np.array(kt, dtype=LD)
    k[5] = O.convert('true', typ, k[5], k[1])
    if deg:
        k[2:] = O.unrad(k[2:], True)
    return np.asarray(k, dtype=np.float64)


def kout(k, typ, deg):
    k = np.array(k, dtype=LD)
    if deg:
        k[2:] = O.rad(k[2:], True)
    with np.errstate(all='ignore'):
        k[5] = O.convert(typ, 'true', k[5], k[1])
    return k


def good(x, mu):
    '''States of well-conditioned orbits.'''
    x = O.ld(x)
    with np.errstate(all='ignore'):
        el = O.elements(x, O.ld(mu))
        e = el['e']
        g = np.all(np.isfinite(x), axis=0)
        g &= ((e > 0.03) & (e < 0.93)) | ((e > 1.07) & (e < 4))
        g &= (el['i'] > 0.04) & (el['i'] < 3.1)
        g &= el['hn'] > 0.05*el['rn']*el['vn']
        g &= el['p'] > 0.08*el['rn']
    return g


def rand_kep(rng, n, L=1.0, kinds=('ell', 'ell', 'hyp')):
    '''(6, n) well-conditioned orbits, true anomaly, radians.'''
    k = np.empty((6, n))
    for c in range(n):
        while True:
            kind = kinds[rng.integers(len(kinds))]
            e = rng.uniform(0.05, 0.9) if kind == 'ell' else 1.0 if kind == 'par' else rng.uniform(1.15, 2.5)
            if kind == 'ell':
                nu = rng.uniform(0, 2*np.pi)
            else:
                nu = rng.uniform(-0.7, 0.7)*np.arccos(-1/e)
            k[:, c] = [L*rng.uniform(0.5, 5), e, rng.uniform(0.1, 3.0), rng.uniform(0, 2*np.pi), rng.uniform(0, 2*np.pi), nu]
            if kind == 'par' or good(O.kep_state(k[:, c:c+1], 1.0), np.ones(1))[0]:
                break
    return k


class Obs:
    '''Everything that can be read from an object, read from two deep copies
    in opposite order so that the object itself is not touched.'''

    def __init__(self, orb, both=True):
        # settings are read from the object itself: a deep copy has its own
        self.set = settings(orb)
        self.M0, self.G = orb.M0, orb.G
        self.typ, self.deg = orb.type, orb.degrees
        a = copy.deepcopy(orb)
        self.kep = a.kepler
        self.cart = a.cartesian
        if both:
            b = copy.deepcopy(orb)
            self.cart2 = b.cartesian
            self.kep2 = b.kepler
        self.num = a.num
        self.len = len(a)
        self.m = np.array(a.m)
        self.mu = O.ld(self.G)*(O.ld(self.M0) + O.ld(self.m))

    def kt(self):
        return kout(self.kep, self.typ, self.deg)

    def state(self):
        return O.kep_state(self.kt(), self.mu)

    def same(self, o):
        return (bits(self.kep) == bits(o.kep) and bits(self.cart) == bits(o.cart) and bits(self.m) == bits(o.m)
                and self.set == o.set and self.num == o.num)


def bits(a):
    a = np.asarray(a)
    b = np.where(np.isnan(a), np.nan, a).tobytes()
    if a.dtype.char == 'g':
        # ten bytes of value, six of padding
        b = np.frombuffer(b, dtype=np.uint8).reshape(-1, a.dtype.itemsize)[:, :10].tobytes()
    return (a.shape, str(a.dtype), b)


def settings(a):
    return dict(M0=float(a.M0), G=float(a.G), type=a.type, degrees=bool(a.degrees), dtype=str(np.dtype(a.dtype)), epoch=repr(a.epoch),
                solver_options=tuple(sorted(a.solver_options.items())), auto_update=bool(a.auto_update), direct_update=bool(a.direct_update),
                kepler_read_only=bool(a.kepler_read_only), cartesian_read_only=bool(a.cartesian_read_only))


def size(rng, lo, hi):
    '''The number of orbits in an object: mostly a few, now and then many.'''
    big = rng.random()
    if big >= 0.994:
        return int(rng.choice([65, 101, 130, 257]))
    if big >= 0.97:
        return int(rng.integers(9, 40))
    if big >= 0.92:
        # as many as there are elements or coordinates
        return int(rng.choice([3, 6, 6]))
    return int(rng.integers(lo, hi)) if hi > lo else int(rng.choice([1, 1, 2, 3, 5]))


def make(rng, P, num=None, typ=None, deg=None, mode=None, dtype=None, kinds=('ell', 'ell', 'hyp'), fill=True, wide=True, mass=True, solver=True, via=None):
    '''A random object holding well-conditioned orbits, and its length scale.'''
    if num is None:
        num = size(rng, 0, 0)
    typ = ANOMS[rng.integers(3)] if typ is None else typ
    deg = bool(rng.integers(2)) if deg is None else deg
    mode = ['direct', 'lazy', 'direct', 'lazy', 'direct2'][rng.integers(5)] if mode is None else mode
    if wide and rng.random() < 0.4:
        G, M0 = [(6.6743e-11, 1.98847e30), (39.478, 1.0), (6.6743e-11, 5.97e24), (1e-3, 10.0)][rng.integers(4)]
        # up to 1e13 m around the Sun
        L = (G*M0)**(1/3)*10**rng.uniform(-1, 2 if rng.random() < 0.5 else 6.5)
    else:
        G, M0, L = float(rng.uniform(0.5, 2)), float(rng.uniform(0.5, 2)), 1.0
    kw = dict(G=G, num=num, degrees=deg, type=typ)
    m = rng.uniform(0, 1, num)*M0 if mass and rng.random() < 0.7 else None
    if m is not None:
        kw['m'] = m
    if dtype is not None:
        kw['dtype'] = dtype
    if solver and rng.random() < 0.2:
        kw['solver_options'] = dict(max_iter=int(rng.integers(500, 900)))
    kw['auto_update'], kw['direct_update'] = MODES[mode]
    if rng.random() < 0.3:
        kw['epoch'] = float(rng.integers(50000, 60000))
    via = ['names', 'kepler', 'cartesian', 'assign', 'assign cart'][rng.integers(5)] if via is None else via
    if not fill or num == 0:
        return P.Orbit(M0, **kw), L, mode
    kt = rand_kep(rng, num, L, kinds)
    mm = np.zeros(num) if m is None else m
    ks = kin(kt, typ, deg)
    if dtype is not None:
        ks = ks.astype(dtype)
    if via == 'names':
        orb = P.Orbit(M0, **kw, **{n: ks[q] for q, n in enumerate(KEP)})
    elif via == 'kepler':
        orb = P.Orbit(M0, kepler=ks, **kw)
    elif via == 'assign':
        orb = P.Orbit(M0, **kw)
        orb.kepler = ks
    else:
        x = np.asarray(O.kep_state(kt, O.ld(G)*(O.ld(M0) + mm)), dtype=np.float64 if dtype is None else dtype)
        if via == 'cartesian':
            orb = P.Orbit(M0, cartesian=x, **kw)
        else:
            orb = P.Orbit(M0, **kw)
            orb.cartesian = x
    return orb, L, mode


def select(rng, n, dup=False, empty=True):
    '''A selection of orbits: how to write it, and which it is.'''
    c = rng.integers(12)
    if n == 0:
        return slice(None), []
    if c == 0:
        k = int(rng.integers(n))
        return k, [k]
    if c == 8:
        k = int(rng.integers(n))
        return np.int64(k if rng.random() < 0.5 else k - n), [k]
    if c == 9:
        # also counted from the end
        ks = [int(x) for x in rng.permutation(n)[:rng.integers(1, n + 1)]]
        neg = rng.random(len(ks)) < 0.5
        s = [k - n if b else k for k, b in zip(ks, neg)]
        return (s if rng.random() < 0.5 else np.array(s)), ks
    if c == 10:
        m = [bool(x) for x in rng.random(n) < 0.5]
        if not empty and not any(m):
            m[0] = True
        return m, [k for k in range(n) if m[k]]
    if c == 11:
        a, b = sorted(int(x) for x in rng.integers(0, n + 1, 2))
        if a == b:
            a, b = 0, n
        return range(a, b), list(range(a, b))
    if c == 1:
        k = int(rng.integers(1, n + 1))
        return -k, [n - k]
    if c == 2:
        ks = [int(x) for x in rng.permutation(n)[:rng.integers(0 if empty else 1, n + 1)]]
        return ks, ks
    if c == 3:
        a, b = sorted(rng.integers(0, n + 1, 2))
        st = int(rng.integers(1, 3))
        s = slice(int(a), int(b), st)
        if not empty and not list(range(n))[s]:
            return slice(None), list(range(n))
        return s, list(range(n))[s]
    if c == 4:
        m = rng.random(n) < 0.5
        if not empty and not m.any():
            m[0] = True
        return m, [int(x) for x in np.nonzero(m)[0]]
    if c == 5:
        ks = rng.permutation(n)[:rng.integers(1, n + 1)]
        return ks, [int(x) for x in ks]
    if c == 6:
        s = slice(None, None, -1)
        return s, list(range(n))[s]
    k = int(rng.integers(n))
    return slice(k, k + 1), [k]


def fix_empty(sel):
    '''An empty list selects nothing, with integer type.'''
    if isinstance(sel, list) and not sel:
        return np.zeros(0, dtype=int)
    return sel


class Gen:
    '''Random operations that keep the orbits of an object well conditioned.

    An operation is a dictionary with everything needed to apply it to several
    objects in the same way.'''

    def __init__(self, rng, L, kinds=('ell', 'ell', 'hyp')):
        self.rng, self.L, self.kinds = rng, L, kinds
        self.past = []

    def op(self, ob, allowed):
        rng = self.rng
        self.past = self.past[-5:] + [(ob.kep.astype(float), ob.cart.astype(float), (ob.typ, ob.deg, ob.num))]
        for _ in range(12):
            name = allowed[rng.integers(len(allowed))]
            d = getattr(self, 'g_' + name)(ob)
            if d is not None:
                d['op'] = name
                return d
        return dict(op='read', what=['kepler'])

    # helpers
    def ok_kep(self, kep, ob, mu=None):
        with np.errstate(all='ignore'):
            kt = kout(kep, ob.typ, ob.deg)
            fin = np.all(np.isfinite(kep), axis=0)
            mu = ob.mu if mu is None else mu
            val = O.kep_valid(np.where(fin, kt, 0.5), mu)
            x = O.kep_state(np.where(fin & val, kt, 0.5), mu)
            return np.all((good(x, mu) & val) | ~fin)

    def ok_cart(self, cart, ob, mu=None):
        fin = np.all(np.isfinite(cart), axis=0)
        mu = ob.mu if mu is None else mu
        g = good(np.where(fin, cart, 1.0), mu)
        return np.all(g | ~fin)

    def shaped(self, v):
        '''An array of equal values may be given as one number.'''
        if self.rng.random() < 0.3 and v.size and np.all(v == v.flat[0]):
            return float(v.flat[0])
        return v

    def recall(self, ob, which):
        '''Values seen before, or almost those of now, or those of now for
        some of the orbits only.'''
        rng = self.rng
        if ob.num == 0 or rng.random() >= 0.25:
            return None
        ok = self.ok_cart if which else self.ok_kep
        now = (ob.cart if which else ob.kep).astype(float)
        c = rng.integers(4)
        if c < 2:
            old = [p[which] for p in self.past if p[2] == (ob.typ, ob.deg, ob.num)]
            v = old[rng.integers(len(old))].copy() if old else now
        else:
            v = now*(1 + 10.0**rng.integers(-12, -4)*rng.uniform(-1, 1, now.shape))
            if not which:
                v[1] = np.where(now[1] == 1, 1, v[1])
            if c == 3:
                v = np.where(rng.random(ob.num) < 0.5, now, v)
        return v if np.isfinite(v).all() and ok(v, ob) else None

    def nearly(self, now):
        '''Now and then: almost the present value, or it for some orbits.'''
        rng = self.rng
        if rng.random() >= 0.2 or not np.isfinite(now).all():
            return None
        v = now*(1 + 10.0**rng.integers(-9, -4)*rng.uniform(-1, 1, now.shape))
        return np.where(rng.random(now.shape[-1]) < 0.3, now, v)

    # ---- assignments of elements
    def g_kepler(self, ob):
        v = self.recall(ob, 0)
        if v is not None:
            return dict(value=v)
        return dict(value=kin(rand_kep(self.rng, ob.num, self.L, self.kinds), ob.typ, ob.deg))

    def g_kepler6(self, ob):
        if ob.num == 0:
            return None
        return dict(value=kin(rand_kep(self.rng, 1, self.L, self.kinds), ob.typ, ob.deg)[:, 0])

    def g_elem(self, ob):
        rng, n = self.rng, ob.num
        if n == 0:
            return None
        row = int(rng.integers(6))
        u = 180/np.pi if ob.deg else 1
        sc = rng.random() < 0.35
        new = rand_kep(rng, n, self.L, self.kinds)
        if row in (3, 4):
            v = rng.uniform(-2*np.pi, 4*np.pi, n)*u
        elif row == 1:
            e = ob.kep[1].astype(float)
            v = np.where(e < 1, rng.uniform(0.05, 0.9, n), rng.uniform(1.15, 2.5, n))
            v = np.where(np.isnan(e), np.nan, v)
        elif row == 5:
            e = ob.kep[1].astype(float)
            nu = np.where(e < 1, rng.uniform(-2*np.pi, 4*np.pi, n), rng.uniform(-0.65, 0.65, n)*np.arccos(-1/np.maximum(e, 1.0001)))
            v = np.asarray(O.convert('true', ob.typ, nu, e), dtype=float)*u
        else:
            v = new[row]*(u if row == 2 else 1)
        if sc:
            v = np.full(n, v[0])
        kep = ob.kep.astype(float)
        old = self.recall(ob, 0)
        if old is not None:
            v, sc = old[row].copy(), False
        kep[row] = v
        if np.isnan(v).any() or not self.ok_kep(kep, ob):
            return None
        return dict(row=row, value=float(v[0]) if sc else v)

    def g_cartesian(self, ob):
        v = self.recall(ob, 1)
        if v is not None:
            return dict(value=v)
        kt = rand_kep(self.rng, ob.num, self.L, self.kinds)
        return dict(value=np.asarray(O.kep_state(kt, ob.mu), dtype=float))

    def g_cartesian6(self, ob):
        if ob.num == 0:
            return None
        x = np.asarray(O.kep_state(rand_kep(self.rng, 1, self.L, self.kinds), ob.mu[:1]), dtype=float)
        if not np.all(good(np.repeat(x, ob.num, axis=1), ob.mu)):
            return None
        return dict(value=x[:, 0])

    def g_row(self, ob):
        n = ob.num
        if n == 0 or not np.isfinite(ob.cart).all():
            return None
        row = int(self.rng.integers(6))
        c = ob.cart.astype(float)
        size = np.linalg.norm(c[:3] if row < 3 else c[3:], axis=0)
        v = c[row] + size*self.rng.uniform(-0.15, 0.15, n)
        if self.rng.random() < 0.3:
            v = np.full(n, v[0])
        old = self.recall(ob, 1)
        if old is not None:
            v = old[row].copy()
        c[row] = v
        if not self.ok_cart(c, ob):
            return None
        return dict(row=row, value=self.shaped(v))

    def g_part(self, ob):
        n = ob.num
        if n == 0 or not np.isfinite(ob.cart).all():
            return None
        part = 'rv'[self.rng.integers(2)]
        c = ob.cart.astype(float)
        s = slice(0, 3) if part == 'r' else slice(3, 6)
        size = np.linalg.norm(c[s], axis=0)
        v = self.nearly(c[s])
        c[s] = c[s] + size*self.rng.uniform(-0.12, 0.12, (3, n)) if v is None else v
        if not self.ok_cart(c, ob):
            return None
        return dict(part=part, value=c[s].copy())

    def g_velocity(self, ob):
        n = ob.num
        if n == 0 or not np.isfinite(ob.cart).all():
            return None
        c = ob.cart.astype(float)
        v = np.linalg.norm(c[3:], axis=0)
        w = v*self.rng.uniform(0.85, 1.15, n)
        if self.rng.random() < 0.3:
            w = np.full(n, w[0])
        u = self.nearly(v)
        w = w if u is None else u
        c[3:] *= w/v
        if not self.ok_cart(c, ob):
            return None
        return dict(value=self.shaped(w))

    def g_anomaly(self, ob):
        n = ob.num
        if n == 0 or not np.isfinite(ob.kep).all():
            return None
        which = ANOMS[self.rng.integers(3)]
        e = ob.kep[1].astype(float)
        nu = np.where(e < 1, self.rng.uniform(0, 2*np.pi, n), self.rng.uniform(-0.65, 0.65, n)*np.arccos(-1/np.maximum(e, 1.0001)))
        k = ob.kt()
        u = self.nearly(np.asarray(k[5], dtype=float))
        nu = nu if u is None else u
        k[5] = nu
        if not np.all(good(O.kep_state(k, ob.mu), ob.mu)):
            return None
        v = np.asarray(O.convert('true', which, nu, e), dtype=float)
        v = np.degrees(v) if ob.deg else v
        return dict(which=which, value=v)

    def g_period(self, ob, motion=False):
        n = ob.num
        if n == 0 or not np.isfinite(ob.kep).all():
            return None
        a = self.L*self.rng.uniform(0.5, 5, n)
        if self.rng.random() < 0.3:
            a[:] = a[0]
        kep = ob.kep.astype(float)
        u = self.nearly(kep[0])
        a = a if u is None else u
        kep[0] = a
        if not self.ok_kep(kep, ob):
            return None
        p = np.asarray(O.TWOPI*np.sqrt(O.ld(a)**3/ob.mu), dtype=float)
        if motion:
            p = (360 if ob.deg else 2*np.pi)/p
        return dict(value=self.shaped(p))

    def g_mean_motion(self, ob):
        return self.g_period(ob, True)

    def g_equinoctial(self, ob):
        if ob.num == 0:
            return None
        k = rand_kep(self.rng, ob.num, self.L, ('ell',))
        k[2] = np.minimum(k[2], 2.9)
        one = ob.num > 1 and self.rng.random() < 0.2
        if one:
            k = np.repeat(k[:, :1], ob.num, axis=1)
        w, t = k[3] + k[4], np.tan(k[2]/2)
        lam = np.mod(w + np.asarray(O.convert('true', 'mean', k[5], k[1]), dtype=float), 2*np.pi)
        q = np.array([k[0], k[1]*np.sin(w), k[1]*np.cos(w), t*np.sin(k[4]), t*np.cos(k[4]), np.degrees(lam) if ob.deg else lam])
        if (ob.num == 1 or one) and self.rng.random() < 0.7:
            q = q[:, 0]
        elif one:
            q = q[:, :1]
        return dict(value=q)

    # ---- others
    def g_type(self, ob):
        t = ANOMS[self.rng.integers(3)]
        c = self.rng.integers(4)
        return dict(value=[t, t.upper(), t.capitalize(), ' ' + t + ' '][c], typ=t)

    def g_propagate(self, ob):
        n = ob.num
        fin = np.all(np.isfinite(ob.kep), axis=0)
        if n == 0 or not fin.any():
            return None
        T0 = float(np.sqrt(self.L**3/np.mean(np.asarray(ob.mu, dtype=float))))
        dt = self.rng.uniform(-1.5, 1.5)*T0 if self.rng.random() < 0.6 else self.rng.uniform(-1.5, 1.5, n)*T0
        if self.rng.random() < 0.2 and np.all(ob.kep[1][fin] < 1):
            dt = dt*20
        k = ob.kt()[:, fin]
        mu = ob.mu[fin]
        M = O.convert('true', 'mean', k[5], k[1]) + np.sqrt(mu/k[0]**3)*(dt if np.isscalar(dt) else dt[fin])
        k[5] = O.convert('mean', 'true', M, k[1])
        if not np.all(good(O.kep_state(k, mu), mu)):
            return None
        return dict(value=dt)

    def g_mass(self, ob):
        '''Change of the gravitational parameter with an explicit request of
        which elements are to be kept.'''
        n = ob.num
        if n == 0:
            return None
        keep = ['kep', 'cart'][self.rng.integers(2)]
        f = float(self.rng.uniform(0.8, 1.25))
        d = dict(keep=keep, how=['m', 'M0', 'G'][self.rng.integers(3)])
        m, M0, G = O.ld(ob.m), O.ld(ob.M0), O.ld(ob.G)
        if d['how'] == 'm':
            d['value'] = np.asarray(m, dtype=float)*self.rng.uniform(0.5, 1.5, n) + float(M0)*self.rng.uniform(0, 0.2, n)
            mu = G*(M0 + d['value'])
        elif d['how'] == 'M0':
            d['value'] = float(M0)*f
            mu = G*(d['value'] + m)
        else:
            d['value'] = float(G)*f
            mu = d['value']*(M0 + m)
        if keep == 'cart' and not self.ok_cart(ob.cart.astype(float), ob, mu):
            return None
        return d

    def g_recalc(self, ob):
        sel, ks = select(self.rng, ob.num)
        return dict(which=['cartesian', 'kepler'][self.rng.integers(2)], sel=fix_empty(sel))

    def g_read(self, ob):
        w = [str(x) for x in self.rng.choice(READS, int(self.rng.integers(1, 4)))]
        if not (np.isfinite(ob.kep).all() and ob.num and np.all(ob.kep[1] < 1)):
            w = [x for x in w if x != 'equinoctial']
        return dict(what=w)

    def g_mode(self, ob):
        return dict(value=['direct', 'lazy', 'direct2'][self.rng.integers(3)])

    def g_copy(self, ob):
        return dict(how=['copy', 'copy.copy', 'deepcopy', 'all'][self.rng.integers(4)])

    def g_delete(self, ob):
        if ob.num < 2:
            return None
        sel, ks = select(self.rng, ob.num)
        if len(set(ks)) >= ob.num and self.rng.random() < 0.9:
            return None
        return dict(sel=fix_empty(sel), ks=ks)

    def g_subset(self, ob):
        if ob.num < 2:
            return None
        sel, ks = select(self.rng, ob.num, empty=False)
        return dict(sel=sel, ks=ks)

    def g_add(self, ob):
        rng = self.rng
        if ob.num > 12:
            return None
        n = int(rng.integers(1, 4) if rng.random() < 0.94 else 6) if rng.random() < 0.95 else 0
        d = dict(num=n)
        m = None
        if rng.random() < 0.5:
            m = rng.uniform(0, 0.3, n)*float(ob.M0)
            d['m'] = m if rng.random() < 0.7 else float(m[0]) if n else 0.1*float(ob.M0)
            m = np.broadcast_to(d['m'], (n,))
        mm = np.zeros(n) if m is None else m
        mu = O.ld(ob.G)*(O.ld(ob.M0) + mm)
        how = ['kep names', 'kepler', 'kepler6', 'cart names', 'cartesian', 'cartesian6', 'scalar names'][rng.integers(7)]
        one = how in ('kepler6', 'cartesian6', 'scalar names')
        kt = rand_kep(rng, 1 if one else n, self.L, self.kinds)
        if how.startswith('cart'):
            x = np.asarray(O.kep_state(kt, (mu[:1] if n else O.ld(ob.G)*O.ld(ob.M0)) if one else mu), dtype=float)
            if one and not np.all(good(np.repeat(x, n, axis=1), mu)):
                return None
            d['kind'] = 'cart'
            d['full'] = np.repeat(x, n, axis=1) if one else x
            d['kw'] = {nm: x[q] for q, nm in enumerate(CART)} if how == 'cart names' else dict(cartesian=x[:, 0] if one else x)
        else:
            k = kin(kt, ob.typ, ob.deg)
            d['kind'] = 'kep'
            d['full'] = np.repeat(k, n, axis=1) if one else k
            d['kw'] = ({nm: k[q] for q, nm in enumerate(KEP)} if how == 'kep names' else
                       {nm: float(k[q, 0]) for q, nm in enumerate(KEP)} if how == 'scalar names' else
                       dict(kepler=k[:, 0] if one else k))
        return d

    def g_update(self, ob, mass=False):
        '''A selection gets new elements of one kind.'''
        rng = self.rng
        if ob.num == 0:
            return None
        sel, ks = select(rng, ob.num, empty=False)
        n = len(ks)
        mu = ob.mu[ks]
        d = dict(sel=sel, ks=ks)
        if mass:
            d['m'] = rng.uniform(0, 0.4, n)*float(ob.M0)
            mu = O.ld(ob.G)*(O.ld(ob.M0) + d['m'])
        isint = isinstance(sel, (int, np.integer))
        how = ['kep names', 'kepler', 'some kep', 'cart names', 'cartesian', 'some cart'][rng.integers(6)]
        kt = rand_kep(rng, n, self.L, self.kinds)
        d['kind'] = 'kep' if 'kep' in how else 'cart'
        if how in ('kep names', 'kepler'):
            full = kin(kt, ob.typ, ob.deg)
            names = KEP
            rows = range(6)
        elif how in ('cart names', 'cartesian'):
            full = np.asarray(O.kep_state(kt, mu), dtype=float)
            names = CART
            rows = range(6)
        elif how == 'some kep':
            full = ob.kep[:, ks].astype(float)
            new = kin(kt, ob.typ, ob.deg)
            rows = [int(r) for r in range(6) if rng.random() < 0.4 and r not in (1, 5)]
            if not rows:
                rows = [0]
            for r in rows:
                full[r] = new[r]
            names = KEP
            if not np.isfinite(full).all():
                return None
            with np.errstate(all='ignore'):
                x = O.kep_state(kout(full, ob.typ, ob.deg), mu)
            if not np.all(good(x, mu)):
                return None
        else:
            full = ob.cart[:, ks].astype(float)
            if not np.isfinite(full).all():
                return None
            rows = [int(r) for r in range(6) if rng.random() < 0.4] or [3]
            for r in rows:
                size = np.linalg.norm(full[:3] if r < 3 else full[3:], axis=0)
                full[r] = full[r] + size*rng.uniform(-0.12, 0.12, n)
            names = CART
            if not np.all(good(full, mu)):
                return None
        d['full'] = full
        d['rows'] = list(rows)
        if how in ('kepler', 'cartesian'):
            if mass:
                return None          # documented: no other updates are done then
            d['kw'] = {how: full[:, 0] if isint else full}
        else:
            d['kw'] = {names[r]: (float(full[r, 0]) if isint else full[r].copy()) for r in rows}
        if mass:
            d['kw']['m'] = float(d['m'][0]) if isint else d['m'].copy()
        return d

    def g_update_m(self, ob):
        return self.g_update(ob, True)


def apply(orb, d):
    '''Performs an operation; returns the object to go on with.'''
    op = d['op']
    if op in ('kepler', 'kepler6'):
        orb.kepler = d['value'].copy()
    elif op == 'elem':
        setattr(orb, KEP[d['row']], cp(d['value']))
    elif op in ('cartesian', 'cartesian6'):
        orb.cartesian = d['value'].copy()
    elif op == 'row':
        setattr(orb, CART[d['row']], cp(d['value']))
    elif op == 'part':
        setattr(orb, d['part'], d['value'].copy())
    elif op == 'velocity':
        orb.velocity = cp(d['value'])
    elif op == 'anomaly':
        setattr(orb, ANOM_ATTR[d['which']], d['value'].copy())
    elif op in ('period', 'mean_motion', 'equinoctial', 'type'):
        setattr(orb, op, cp(d['value']))
    elif op == 'propagate':
        orb.propagate(cp(d['value']))
    elif op == 'mass':
        orb.kepler, orb.cartesian
        if d['how'] == 'm':
            orb.m[:] = d['value']
        else:
            setattr(orb, d['how'], d['value'])
        if d['keep'] == 'kep':
            orb.calculate_cartesian()
        else:
            orb.calculate_kepler()
    elif op == 'recalc':
        orb.kepler, orb.cartesian
        getattr(orb, 'calculate_' + d['which'])(d['sel'])
    elif op == 'read':
        for w in d['what']:
            getattr(orb, w)
    elif op == 'mode':
        orb.auto_update, orb.direct_update = MODES[d['value']]
    elif op == 'copy':
        orb = {'copy': lambda: orb.copy(), 'copy.copy': lambda: copy.copy(orb), 'deepcopy': lambda: copy.deepcopy(orb), 'all': lambda: orb[:]}[d['how']]()
    elif op == 'delete':
        orb.delete(d['sel'])
    elif op == 'subset':
        orb = orb[d['sel']]
    elif op == 'add':
        kw = {k: cp(v) for k, v in d['kw'].items()}
        if 'm' in d:
            kw['m'] = cp(d['m'])
        orb.add(num=d['num'], **kw)
    elif op in ('update', 'update_m'):
        orb.update(inds=d['sel'], **{k: cp(v) for k, v in d['kw'].items()})
    else:
        raise KeyError(op)
    return orb


def cp(v):
    return v.copy() if isinstance(v, np.ndarray) else v


def describe(d):
    return {k: v for k, v in d.items() if k not in ('full',)}


ASSIGN_K = ['kepler', 'kepler6', 'elem', 'elem', 'elem', 'anomaly', 'period', 'mean_motion', 'equinoctial']
ASSIGN_C = ['cartesian', 'cartesian6', 'row', 'row', 'part', 'velocity']
STRUCT = ['add', 'delete', 'update', 'update', 'subset', 'copy']
OTHER = ['type', 'propagate', 'mass', 'recalc', 'read']


def state_diff(x, ref):
    '''Relative distance of states per column.'''
    x, ref = O.ld(x), O.ld(ref)
    with np.errstate(all='ignore'):
        return np.asarray(np.maximum(O.norm(x[:3] - ref[:3])/O.norm(ref[:3]), O.norm(x[3:] - ref[3:])/O.norm(ref[3:])), dtype=float)
