'''C01-C04: elements <-> state vector.'''
import numpy as np

from . import gen, oracle as O
from .base import Check, arr, bcast_mu, cols, regime

ILL = 1e-3


def eps_of(*xs):
    for x in xs:
        if isinstance(x, np.ndarray) and x.dtype == np.float32:
            return O.EPS32
    return O.EPS


def judge_k2c(ctx, name, kep, mu, degrees, out, eps=None):
    '''Monitor: state returned for elements. Returns number judged.'''
    kep0 = kep
    eps = eps or eps_of(kep)
    if not isinstance(out, np.ndarray) or out.shape != kep0.shape:
        ctx.violate(name + '-shape', 'wrong shape', got=getattr(out, 'shape', None), want=kep0.shape)
        return 0
    kep, out = cols(kep), cols(out)
    n = kep.shape[1]
    if n == 0:
        return 0
    mu = bcast_mu(mu, n)
    ok = O.kep_valid(kep, mu, degrees)
    ctx.count('outside-domain', np.sum(~ok))
    if not ok.any():
        return 0
    kv, mv, ov = kep[:, ok], mu[ok], np.asarray(out[:, ok], dtype=O.LD)
    x, tr, tv = O.kep_state_tol(kv, mv, degrees, eps)
    rn, vn = O.norm(x[:3]), O.norm(x[3:])
    ill = ~((tr < ILL*rn) & (tv < ILL*vn))
    ctx.count('ill-conditioned', np.sum(ill))
    dr, dv = O.norm(ov[:3] - x[:3]), O.norm(ov[3:] - x[3:])

    def show(k):
        return dict(kepler=kv[:, k], mu=float(mv[k]), degrees=bool(degrees), got=ov[:, k], want=x[:, k])
    ctx.within(name + '-position', dr/rn, tr/rn, 'position is not the two-body position', skip=ill, case_=show)
    ctx.within(name + '-velocity', dv/vn, tv/vn, 'velocity is not the two-body velocity', skip=ill, case_=show)
    good = ~ill
    ctx.judged_cols(np.concatenate([kv, mv[None].astype(np.float64)]).astype(np.float64), good)
    for k in np.nonzero(good)[0]:
        ctx.count('regime ' + regime(kv[1, k]))
        i = float(O.rad(kv[2, k], degrees))
        if not -1e-9 <= i <= np.pi + 1e-9:
            ctx.count('plane beyond half a turn')
        ctx.count('plane ' + ('prograde' if abs(i) < 1e-9 else 'retrograde' if abs(i - np.pi) < 1e-9 else 'inclined'))
    return int(good.sum())


def c2k_domain(cart, mu):
    cart = np.asarray(cart, dtype=O.LD)
    el = O.elements(cart, mu)
    with np.errstate(all='ignore'):
        ok = np.all(np.isfinite(cart), axis=0) & (el['rn'] > 0) & (mu > 0)
        ok &= el['hn'] > 1e-6*el['rn']*el['vn']
        ok &= el['hn'] > 0
    return ok, el


def sub(el, m):
    return {k: v[..., m] for k, v in el.items()}


def judge_c2k(ctx, name, cart, mu, degrees, out, eps=None, regimes=True):
    cart0 = cart
    eps = eps or eps_of(cart)
    if not isinstance(out, np.ndarray) or out.shape != cart0.shape:
        ctx.violate(name + '-shape', 'wrong shape', got=getattr(out, 'shape', None), want=cart0.shape)
        return 0
    cart, out = cols(cart), cols(out)
    n = cart.shape[1]
    if n == 0:
        return 0
    mu = bcast_mu(mu, n)
    ok, el = c2k_domain(cart, mu)
    ctx.count('outside-domain', np.sum(~ok))
    if not ok.any():
        return 0
    el = sub(el, ok)
    cv, mv, ov = np.asarray(cart[:, ok], dtype=O.LD), mu[ok], np.asarray(out[:, ok], dtype=O.LD)

    def show(k):
        return dict(cartesian=cv[:, k], mu=float(mv[k]), degrees=bool(degrees), elements=ov[:, k],
                    e=float(el['e'][k]), i=float(el['i'][k]))
    dang, da, de = O.c2k_errors(el, eps)
    ill0 = ~((dang < ILL) & (da < ILL))
    fin = np.all(np.isfinite(ov), axis=0)
    ctx.within(name + '-defined', np.where(fin | ill0, 0, 1), 0, 'undefined element for a valid state', case_=show)
    val = O.kep_valid(ov, mv, degrees, margin=0)
    ctx.within(name + '-real', np.where(val | ~fin | ill0, 0, 1), 0, 'elements are not those of a real orbit', case_=show)
    use = val & fin & ~ill0
    if not use.any():
        return 0
    el, cv, mv, ov, dang, da, de = sub(el, use), cv[:, use], mv[use], ov[:, use], dang[use], da[use], de[use]
    x, tr, tv = O.kep_state_tol(ov, mv, degrees, eps, K=2.0, dang=dang, da=np.where(np.abs(el['e'] - 1) < 1e-3, 16*eps, da), de=de)
    # an orbit treated as circular or planar by the documented limits
    lim = np.where(el['e'] < 1.1e-9, 4e-9, 0) + np.where(np.sin(el['i']) < 4e-9, 8e-9, 0)
    tr, tv = tr + lim*el['rn'], tv + lim*el['vn']
    rn, vn = el['rn'], el['vn']
    ill = ~((tr < ILL*rn) & (tv < ILL*vn))
    ctx.count('ill-conditioned', np.sum(ill))
    dr, dv = O.norm(cv[:3] - x[:3]), O.norm(cv[3:] - x[3:])
    ctx.within(name + '-position', dr/rn, tr/rn, 'elements do not pass through the position', skip=ill, case_=show)
    ctx.within(name + '-velocity', dv/vn, tv/vn, 'elements do not have the velocity', skip=ill, case_=show)
    good = ~ill
    far = np.abs(el['e'] - 1) > 1e-9
    ctx.within(name + '-eccentricity', np.abs(ov[1] - el['e']), 4*de, 'wrong eccentricity', skip=ill, case_=show)
    # relative error of a follows from e close to one
    with np.errstate(all='ignore'):
        ta = 4*da + 8*de*el['e']/np.abs(1 - el['e']**2)
    ctx.within(name + '-axis', np.abs(ov[0]/el['a'] - 1), ta, 'wrong semi-major axis', skip=ill | ~far, case_=show)
    if regimes:
        ctx.judged_cols(np.concatenate([cv, mv[None]]).astype(np.float64), good)
        for k in np.nonzero(good)[0]:
            ctx.count('regime ' + regime(el['e'][k] if ov[1, k] != 1 else 1.0))
            i = float(el['i'][k])
            ctx.count('plane ' + ('prograde' if i < 3e-9 else 'retrograde' if i > np.pi - 3e-9 else 'inclined'))
            ctx.count('inbound' if el['rv'][k] < 0 else 'outbound')
    return int(good.sum())


def orbit_workload(pyorb, rng, n, make):
    '''Drives the conversions from inside orbit objects.'''
    for _ in range(n):
        num = int(rng.integers(1, 5))
        deg = bool(rng.integers(2))
        typ = ['true', 'eccentric', 'mean'][rng.integers(3)]
        G = float(rng.choice([1.0, 39.478, 6.6743e-11]))
        M0 = float(10**rng.uniform(-1, 30)) if G < 1e-5 else float(rng.uniform(0.1, 10))
        m = rng.uniform(0, 1, num)*M0
        L = (1.0 if G > 1e-5 else (G*M0/1e-3)**(1/3))*10**rng.uniform(-1, 1)
        orb = pyorb.Orbit(M0, G=G, num=num, degrees=deg, type=typ, m=m,
                          direct_update=bool(rng.integers(2)))
        make(orb, rng, L, deg, typ)


SUN = 1.32712440018e20


def mu_kw(ctx, mu):
    '''The Sun is the documented default.'''
    if not isinstance(mu, np.ndarray) and mu == SUN:
        ctx.count('default mu')
        return {}
    return dict(mu=mu)


class C01(Check):
    rule = ('one case is one orbit (element vector, mu, angle unit) given to the conversion of elements to a state, '
            'directly in batches of 1-64 mixed regimes or from inside an orbit object; it counts when the reference '
            'state was compared, i.e. the orbit is real and its conditioning bound is below 1e-3; distinct by value')
    assumptions = ['extended-precision reference formulas (self-tested in setup against numerical integration)',
                   'errors below the conditioning bound of the orbit (a few ulp of each input) are invisible']

    def setup(self):
        self.bus.subscribe('kep_to_cart', self.on_event)
        for r in ('e=0', 'e<=limit', 'e<1e-6', 'elliptic', 'e->1-', 'e=1', 'e->1+', 'hyperbolic'):
            self.ctx.need('regime ' + r, 50)
        for r in ('prograde', 'retrograde', 'inclined'):
            self.ctx.need('plane ' + r, 50)
        self.ctx.need('plane beyond half a turn', 100)
        self.ctx.need('default mu', 20)
        self.ctx.need('events', 100)

    def on_event(self, ev):
        self.ctx.count('events')
        if ev.exc is not None or not isinstance(ev.arg('kep'), np.ndarray):
            return
        judge_k2c(self.ctx, 'state', ev.arg('kep'), ev.arg('mu'), ev.arg('degrees'), ev.ret)

    def cases(self):
        rng = self.ctx.rng('batches')
        for b in range(self.ctx.n(2000, 30000)):
            deg = bool(rng.integers(2))
            n = int(rng.choice([1, 1, 2, 5, 20, 64]))
            same = bool(rng.integers(2))
            kep, mu = gen.kep_batch(rng, n, degrees=deg, same_mu=same)
            # inclinations have no range either
            t = 360.0 if deg else 2*np.pi
            odd = rng.random(n) < 0.15
            kep[2] = np.where(odd, rng.choice([-1, 1], n)*kep[2] + t*rng.integers(-1, 2, n), kep[2])
            vec = n == 1 and rng.random() < 0.5
            if vec:
                kep = kep[:, 0]
            elif n > 2:
                idx = gen.many(rng, n)
                kep, mu = kep[:, idx], mu if same else mu[idx]
            yield dict(kind='batch', kep=kep.tolist(), mu=mu if same else mu.tolist(), deg=deg)
        # all axis-aligned orientations
        q = [0.0, 90.0, 180.0, 270.0, 360.0]
        for e in (0.0, 0.3, 1.0, 2.0):
            for deg in (True, False):
                ks = [[1.5, e, i, w, W, nu] for i in (0.0, 90.0, 180.0, 45.0) for w in q for W in q
                      for nu in (q if e < 1 else [0.0, 90.0, 270.0, -90.0])]
                k = np.array(ks).T
                if not deg:
                    k[2:] *= np.pi/180
                yield dict(kind='batch', kep=k.tolist(), mu=1.3, deg=deg)
        for b in range(self.ctx.n(600, 8000)):
            yield dict(kind='orbit', seed=int(rng.integers(2**31)))

    def execute(self, case):
        if case['kind'] == 'batch':
            kep = arr(case['kep'])
            mu = case['mu'] if not isinstance(case['mu'], list) else arr(case['mu'])
            if kep.ndim == 1 and isinstance(mu, np.ndarray):
                mu = float(mu[0])
            self.K.kep_to_cart(kep, degrees=case['deg'], **mu_kw(self.ctx, mu))
            if self.ctx.evals and len(self.ctx.samples) < 4:
                self.ctx.sample(dict(kepler=cols(kep)[:, 0], mu=mu if not isinstance(mu, np.ndarray) else mu[0], degrees=case['deg']))
        else:
            rng = np.random.default_rng(case['seed'])

            def make(orb, rng, L, deg, typ):
                k = np.array([gen.kep_col(rng, gen.EASY_E, deg)[0] for _ in range(orb.num)]).T
                k[0] = L*10**rng.uniform(-0.5, 0.5, orb.num)
                nu = O.rad(k[5], deg)
                k[5] = np.asarray(O.unrad(O.convert('true', typ, nu, k[1]), deg), dtype=float)
                orb.kepler = k
                orb.cartesian
                orb.propagate(0.1)
                orb.cartesian
            orbit_workload(self.pyorb, rng, 1, make)


class C02(Check):
    rule = ('one case is one state vector with its mu, given to the conversion to elements directly in batches of mixed '
            'regimes (rounded from reference orbits, axis-aligned exact, random) or from inside an orbit object; it counts '
            'when the elements were turned back into a state by the reference and compared; distinct by value')
    assumptions = C01.assumptions + ['angle errors up to the arc-cosine rounding (about 1e-7 rad, more near circular or planar orbits) are tolerated']

    def setup(self):
        self.bus.subscribe('cart_to_kep', self.on_event)
        for r in ('e=0', 'e<=limit', 'e<1e-6', 'elliptic', 'e->1-', 'e->1+', 'hyperbolic'):
            self.ctx.need('regime ' + r, 20)
        self.ctx.need('regime e=1', 3)
        for r in ('prograde', 'retrograde', 'inclined'):
            self.ctx.need('plane ' + r, 50)
        self.ctx.need('inbound', 200)
        self.ctx.need('outbound', 200)
        self.ctx.need('default mu', 20)

    def on_event(self, ev):
        self.ctx.count('events')
        if ev.exc is not None or not isinstance(ev.arg('cart'), np.ndarray):
            return
        self.judge(ev)

    def judge(self, ev):
        judge_c2k(self.ctx, 'elements', ev.arg('cart'), ev.arg('mu'), ev.arg('degrees'), ev.ret)

    def cases(self):
        rng = self.ctx.rng('batches')
        for b in range(self.ctx.n(2500, 30000)):
            deg = bool(rng.integers(2))
            n = int(rng.choice([1, 1, 2, 5, 20, 64]))
            same = bool(rng.integers(2))
            cart, mu = gen.cart_batch(rng, n, same_mu=same)
            vec = n == 1 and rng.random() < 0.5
            if vec:
                cart = cart[:, 0]
                mu = float(np.atleast_1d(mu)[0])
            elif n > 2:
                idx = gen.many(rng, n)
                cart, mu = cart[:, idx], mu if same else mu[idx]
            yield dict(kind='batch', cart=cart.tolist(), mu=mu.tolist() if isinstance(mu, np.ndarray) else mu, deg=deg)
        # every sign pattern of axis-aligned and planar states
        for k in (1.0, 0.7, 1.2, 2.0, np.sqrt(2.0)):
            xs = []
            for i in range(6):
                for j in range(6):
                    if i % 3 != j % 3:
                        for f in (0, 0.3, -0.3):
                            xs.append(np.concatenate([gen.AX[i]*2.0, gen.AX[j]*k/np.sqrt(2.0) + f*gen.AX[i]]))
            yield dict(kind='batch', cart=np.array(xs).T.tolist(), mu=1.0, deg=bool(rng.integers(2)))
            xs = []
            for s in (1, -1):
                for t in np.arange(16)*np.pi/8:
                    for f in (0, 0.3, -0.3):
                        u, p = np.array([np.cos(t), np.sin(t), 0]), np.array([-np.sin(t), np.cos(t), 0])
                        xs.append(np.concatenate([2*u, s*k/np.sqrt(2.0)*p + f*u]))
            yield dict(kind='batch', cart=np.array(xs).T.tolist(), mu=1.0, deg=bool(rng.integers(2)))
        for b in range(self.ctx.n(500, 8000)):
            yield dict(kind='orbit', seed=int(rng.integers(2**31)))

    def execute(self, case):
        if case['kind'] == 'batch':
            cart = arr(case['cart'])
            mu = arr(case['mu']) if isinstance(case['mu'], list) else case['mu']
            self.K.cart_to_kep(cart, degrees=case['deg'], **mu_kw(self.ctx, mu))
            if len(self.ctx.samples) < 4:
                self.ctx.sample(dict(cartesian=cols(cart)[:, 0], mu=np.atleast_1d(mu)[0], degrees=case['deg']))
        else:
            rng = np.random.default_rng(case['seed'])

            def make(orb, rng, L, deg, typ):
                mu = orb.G*(orb.M0 + orb.m)
                x = np.array([gen.cart_random(rng)[0] for _ in range(orb.num)]).T
                x[:3] *= L/np.linalg.norm(x[:3], axis=0)
                x[3:] *= np.sqrt(mu/L)*10**rng.uniform(-0.3, 0.3, orb.num)/np.linalg.norm(x[3:], axis=0)
                orb.cartesian = x
                orb.kepler
                orb.vx = orb.vx*1.1
                orb.kepler
            orbit_workload(self.pyorb, rng, 1, make)


class C03(C02):
    rule = ('one case is one state vector given to the conversion to elements; it counts when at least the range, side '
            'and degenerate-orbit rules that apply to it were evaluated on the returned elements; distinct by value')

    def setup(self):
        C02.setup(self)
        for k in ('planar rule', 'circular rule', 'circular-planar rule', 'inbound rule', 'outbound rule', 'circular-inclined anomaly rule'):
            self.ctx.need(k, 30)

    def judge(self, ev):
        ctx = self.ctx
        cart, out, deg = cols(ev.arg('cart')), cols(ev.ret), ev.arg('degrees')
        n = cart.shape[1]
        if n == 0 or out.shape != cart.shape:
            return
        mu = bcast_mu(ev.arg('mu'), n)
        ok, el = c2k_domain(cart, mu)
        dang, da, de = O.c2k_errors(el)
        ok &= (dang < 1e-2) & (da < 1e-2)
        eps = eps_of(ev.arg('cart'))
        if eps != O.EPS:
            return
        if not ok.any():
            return
        el, cv, ov = sub(el, ok), np.asarray(cart[:, ok], dtype=O.LD), np.asarray(out[:, ok])
        dang, de = dang[ok], de[ok]
        turn = 360.0 if deg else 2*np.pi
        t = 1e-12*turn

        def show(k):
            return dict(cartesian=cv[:, k], mu=float(mu[ok][k]), degrees=bool(deg), elements=ov[:, k],
                        e=float(el['e'][k]), i=float(el['i'][k]))

        def rule(name, applies, holds, msg):
            bad = applies & ~holds
            ctx.count(name + ' rule', np.sum(applies))
            ctx.within(name, np.where(bad, 1, 0), 0, msg, case_=show)
        every = np.ones(ov.shape[1], bool)
        rule('axis positive', every, ov[0] > 0, 'semi-major axis is not positive')
        rule('eccentricity sign', every, ov[1] >= 0, 'eccentricity is negative or undefined')
        rule('inclination range', every, (ov[2] >= 0) & (ov[2] <= turn/2 + t), 'inclination outside half a turn')
        for r, nm in ((3, 'argument of periapsis'), (4, 'node'), (5, 'anomaly')):
            rule(nm + ' range', every, (ov[r] >= 0) & (ov[r] <= turn + t), nm + ' outside one turn')
        per = ov[1] == 1
        rule('parabolic axis', per, np.abs(ov[0]/(el['p']/2) - 1) < 1e-6, 'axis of a parabola is not its periapsis distance')
        # degenerate conventions, away from the limits themselves
        planar = (el['h'][0] == 0) & (el['h'][1] == 0)
        circ = el['e'] + de < 0.9e-9
        rule('planar', planar, ov[4] == 0, 'node angle of a planar orbit is not zero')
        rule('circular', circ, ov[3] == 0, 'argument of periapsis of a circular orbit is not zero')
        tol = (dang*4 + 1e-8)
        nu = O.rad(ov[5], deg)
        s = np.where(el['h'][2] >= 0, 1, -1)
        lon = np.arctan2(s*cv[1], cv[0])
        rule('circular-planar', circ & planar, np.abs(O.wrap_diff(nu, lon)) < tol,
             'anomaly of a circular planar orbit is not measured from x in the direction of motion')
        incl = np.sin(el['i']) > 1e-6
        # on a circular orbit the angle from the node is well defined
        rule('circular-inclined anomaly', circ & incl, np.abs(O.wrap_diff(nu, el['u'])) < 1e-6,
             'anomaly of a circular inclined orbit is not measured from the node')
        rule('node direction', incl & (dang < 1e-4), np.abs(O.wrap_diff(O.rad(ov[4], deg), el['W'])) < 1e-6 + 4*dang,
             'node angle is not the ascending node')
        ecc = el['e'] - de > 1.1e-9
        lonp = np.arctan2(s*el['evec'][1], el['evec'][0])
        rule('planar periapsis', ecc & planar & (dang < 1e-3), np.abs(O.wrap_diff(O.rad(ov[3], deg), lonp)) < tol,
             'argument of periapsis of a planar orbit is not measured from x in the direction of motion')
        rule('inclined periapsis', ecc & incl & (dang < 1e-3), np.abs(O.wrap_diff(O.rad(ov[3], deg), el['w'])) < 1e-6 + tol,
             'argument of periapsis is not measured from the node')
        lev = el['rv']/(el['rn']*el['vn'])
        thr = 1e-12 + 64*O.EPS
        inb, outb = ecc & (lev < -thr), ecc & (lev > thr)
        rule('inbound', inb, (ov[5] >= turn/2 - t), 'inbound body with anomaly in the first half turn')
        rule('outbound', outb, (ov[5] <= turn/2 + t), 'outbound body with anomaly in the second half turn')
        ctx.judged_cols(np.concatenate([cv, mu[ok][None]]).astype(np.float64))
        for k in range(ov.shape[1]):
            ctx.count('regime ' + regime(el['e'][k] if ov[1, k] != 1 else 1.0))
            i = float(el['i'][k])
            ctx.count('plane ' + ('prograde' if i < 3e-9 else 'retrograde' if i > np.pi - 3e-9 else 'inclined'))
            ctx.count('inbound' if el['rv'][k] < 0 else 'outbound')


class C04(Check):
    rule = ('one case is one orbit taken through a chain of conversions (elements-state-elements, state-elements-state, '
            'through equinoctial elements, in mixed units); it counts when the orbit after the chain was compared with '
            'the orbit before it; distinct by value and chain')
    assumptions = C02.assumptions + ['angles of (nearly) circular or planar orbits are compared through the state only']

    def setup(self):
        for k in ('chain kck', 'chain ckc', 'chain long', 'chain scaled', 'chain equi'):
            self.ctx.need(k, 100)

    def cases(self):
        rng = self.ctx.rng('chains')
        for b in range(self.ctx.n(1500, 20000)):
            n = int(rng.choice([1, 3, 17, 40]))
            deg = bool(rng.integers(2))
            kind = ['kck', 'ckc', 'long', 'scaled', 'equi'][b % 5]
            if kind in ('ckc', 'long') and rng.random() < 0.5:
                x, mu = gen.cart_batch(rng, n)
                idx = gen.many(rng, n, sizes=(100, 130, 257, 513, 1025))
                x, mu = x[:, idx], mu[idx]
            else:
                k, mu = gen.kep_batch(rng, n, kinds=gen.BOUND_E if kind == 'equi' else gen.ALL_E)
                idx = gen.many(rng, n, sizes=(100, 130, 257, 513, 1025))
                k, mu = k[:, idx], mu[idx]
                if deg:
                    k[2:] = np.degrees(k[2:])
                yield dict(kind=kind, kep=k.tolist(), mu=mu.tolist(), deg=deg, reps=int(rng.choice([20, 50, self.ctx.n(100, 300)])),
                           L=float(10**rng.uniform(-8, 8)), T=float(10**rng.uniform(-8, 8)))
                continue
            yield dict(kind=kind, cart=x.tolist(), mu=mu.tolist(), deg=deg, reps=int(rng.choice([20, 50, self.ctx.n(100, 300)])))

    def execute(self, case):
        ctx, K = self.ctx, self.K
        mu, deg = arr(case['mu']), case['deg']
        kind = case['kind']
        if 'kep' in case:
            k0 = arr(case['kep'])
            ok = O.kep_valid(k0, mu, deg, margin=1e-4)
            if not ok.any():
                return
            k0, mu = k0[:, ok], mu[ok]
            x0 = K.kep_to_cart(k0.copy(), mu=mu, degrees=deg)
        else:
            x0 = arr(case['cart'])
            k0 = None
        ok, el = c2k_domain(x0, O.ld(mu))
        dang, da, de = O.c2k_errors(el)
        ok &= (dang < 1e-4) & (da < 1e-4)
        if not ok.any():
            return
        x0, mu, el = x0[:, ok], mu[ok], sub(el, ok)
        dang, da, de = dang[ok], da[ok], de[ok]
        k0 = None if k0 is None else k0[:, ok]

        def show(k):
            return dict(state=x0[:, k], mu=float(mu[k]), e=float(el['e'][k]), i=float(el['i'][k]),
                        kepler=None if k0 is None else k0[:, k])
        if kind in ('kck', 'ckc'):
            k1 = K.cart_to_kep(x0.copy(), mu=mu, degrees=deg)
            x1 = K.kep_to_cart(k1.copy(), mu=mu, degrees=deg)
            trips = 1
        elif kind == 'long':
            x1 = x0
            trips = case['reps']
            for _ in range(trips):
                k1 = K.cart_to_kep(x1, mu=mu, degrees=deg)
                x1 = K.kep_to_cart(k1, mu=mu, degrees=deg)
        elif kind == 'equi':
            q = K.cart_to_equi(x0.copy(), mu=mu, degrees=deg)
            x1 = K.equi_to_cart(q.copy(), mu=mu, degrees=deg)
            k1 = K.cart_to_kep(x1, mu=mu, degrees=deg)
            trips = 2
        else:
            # the same orbit in other units of length and time
            L, T = case['L'], case['T']
            s = np.array([L]*3 + [L/T]*3)[:, None]
            muS = mu*L**3/T**2
            kS = K.cart_to_kep(x0*s, mu=muS, degrees=deg)
            k1 = kS.copy()
            k1[0] /= L
            x1 = K.kep_to_cart(kS, mu=muS, degrees=deg)/s
            trips = 1
        _, tr, tv = O.kep_state_tol(O.ld(K.cart_to_kep(x0.copy(), mu=mu, degrees=deg)), mu, deg, K=3.0, dang=dang,
                                    da=np.where(np.abs(el['e'] - 1) < 1e-3, 16*O.EPS, da), de=de)
        lim = np.where(el['e'] < 1.1e-9, 8e-9, 0) + np.where(np.sin(el['i']) < 4e-9, 1.6e-8, 0)
        if kind == 'equi':
            ex = equi_extra(el)
            lim = lim + ex
        tr, tv = tr + lim*el['rn'], tv + lim*el['vn']
        # a circular orbit may be re-classified once; accuracy otherwise must
        # not grow with the number of trips by more than rounding does
        # each trip takes the angles from arc cosines again, so errors of the
        # size of one trip may be redistributed but not pile up linearly
        g = 1 if trips == 1 else 3 + 0.05*trips
        tr, tv = tr*g, tv*g
        ill = ~((tr < ILL*el['rn']) & (tv < ILL*el['vn']))
        ctx.count('ill-conditioned', np.sum(ill))
        dr = O.norm(O.ld(x1[:3]) - O.ld(x0[:3]))/el['rn']
        dv = O.norm(O.ld(x1[3:]) - O.ld(x0[3:]))/el['vn']
        ctx.within(kind + '-position', dr, tr/el['rn'], f'position changed over {trips} round trips', skip=ill, case_=show)
        ctx.within(kind + '-velocity', dv, tv/el['vn'], f'velocity changed over {trips} round trips', skip=ill, case_=show)
        ctx.count('chain ' + kind, np.sum(~ill))
        ctx.judged_cols(np.concatenate([x0, mu[None]]), ~ill, tag=kind.encode())
        if k0 is not None and kind in ('kck', 'scaled'):
            # element by element where they are defined
            turn = 360.0 if deg else 2*np.pi
            u = 180/np.pi if deg else 1
            ecc = (el['e'] > 1e-5) & ~ill
            incl = (np.sin(el['i']) > 1e-5) & ~ill
            ai = O.rad(k0[2], deg)
            canon = (ai >= 0) & (ai <= O.PI)
            tol = 4*(dang + 1e-12)*u
            e_tol = 8*de + 1e-13
            ctx.within('elements-e', np.abs(k1[1] - k0[1]), e_tol, 'eccentricity changed by a round trip', skip=ill, case_=show)
            with np.errstate(all='ignore'):
                ta = 8*da + 16*de*el['e']/np.abs(1 - O.ld(k0[1])**2) + 1e-12
            notpar = (k0[1] != 1) & (k1[1] != 1) & (ta < 1e-2)
            ctx.within('elements-a', np.abs(k1[0]/k0[0] - 1), ta, 'semi-major axis changed by a round trip', skip=ill | ~notpar, case_=show)
            ctx.within('elements-i', np.abs(k1[2] - k0[2]), tol + 1e-7*u, 'inclination changed by a round trip', skip=ill | ~canon, case_=show)
            m = ecc & incl & canon
            for r, nm in ((3, 'omega'), (4, 'Omega'), (5, 'anomaly')):
                ctx.within('elements-' + nm, np.abs(O.wrap_diff(k1[r], k0[r], turn)), tol + 2e-6*u*(1e-5/np.minimum(el['e'], 1)) + 8*O.EPS*np.abs(k0[r]),
                           nm + ' changed by a round trip', skip=~m, case_=show)
            ctx.count('element-wise comparisons', np.sum(m))
        self.ctx.sample(dict(chain=kind, trips=trips, state=x0[:, 0], mu=mu[0]), cap=5)


def equi_extra(el):
    '''Additional state error of a trip through equinoctial elements with the
    mean longitude (solver tolerance 1e-12, e close to one).'''
    e = np.minimum(el['e'], 1 - LDEPS)
    with np.errstate(all='ignore'):
        k = 1/(1 - e)**1.5
        x = 4e-11*k + 1e-6*np.where(el['e'] > 0.999, k*1e-3, 0)
    # errors in e (2 eps) act through the anomaly near apoapsis and periapsis
    return x + 2e-9*np.where(el['e'] < 2e-9, 2, 0)


LDEPS = 1e-12
CHECKS = dict(C01=C01, C02=C02, C03=C03, C04=C04)
