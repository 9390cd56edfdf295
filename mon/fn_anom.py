'''C05 Kepler solver, C06 anomaly conversions.'''
import numpy as np

from . import gen, inst, oracle as O
from .base import Check, arr, regime

LD = O.LD


def residual(E, M, e):
    E, M, e = LD(E), LD(M), LD(e)
    if e > 1:
        return abs(M + E - e*np.sinh(E)), abs(M) + abs(E) + e*np.sinh(min(abs(E), LD(11000)))
    return abs(M - E + e*np.sin(E)), abs(M) + abs(E) + e


class C05(Check):
    rule = ('one case is one run of the solver (mean anomaly, eccentricity, starting guess, tolerance, iteration limit, degree), '
            'called directly or by a conversion or an orbit object; it counts when the residual of Kepler\'s equation and the '
            'iteration count were judged; distinct by all arguments')
    assumptions = ['rounding floor of the equation taken as 16 ulp of the sum of its terms',
                   'termination is judged in executed lines of library code (budget per allowed iteration), not in time']

    def setup(self):
        self.bus.subscribe('laguerre_solve_kepler', self.on_event)
        c = self.ctx
        for r in ('e=0', 'elliptic', 'e->1-', 'e->1+', 'hyperbolic'):
            c.need('regime ' + r, 100)
        c.need('stopped by tolerance', 2000)
        c.need('stopped by iteration limit', 50)
        c.need('default start', 1000)
        c.need('hostile start', 500)
        c.need('option passing', 30)
        c.need('no iteration needed', 10)
        self.max_it = 0

    def on_event(self, ev):
        if ev.exc is not None:
            return
        if ev.depth and any(np.size(ev.arg(a)) != 1 for a in ('E0', 'M', 'e')):
            return      # the library solving many equations at once in its own way
        self.judge(ev.arg('E0'), ev.arg('M'), ev.arg('e'), ev.arg('tol'), ev.arg('max_iter'), ev.arg('degree'), ev.ret)

    def judge(self, E0, M, e, tol, max_iter, degree, ret):
        ctx = self.ctx
        try:
            E0, M, e = float(np.asarray(E0)), float(np.asarray(M)), float(np.asarray(e))
            E, it = ret
            E, it = float(np.asarray(E)), int(it)
        except Exception as x:
            ctx.violate('solver-result', f'result is not (anomaly, iterations): {x!r}', ret=repr(ret))
            return
        if not (np.isfinite(M) and np.isfinite(e) and np.isfinite(E0)) or e < 0 or e == 1:
            ctx.count('outside-domain')
            return
        if e > 1 and abs(E0) > 300:
            ctx.count('outside-domain')
            return
        d = dict(E0=E0, M=M, e=e, tol=tol, max_iter=max_iter, degree=degree, E=E, iterations=it)
        ctx.check(0 <= it <= max_iter, 'iteration-count', 'more iterations than allowed', **d)
        res, size = residual(E, M, e)
        floor = 16*O.EPS*size
        if it < max_iter:
            ok = res <= tol*(1 + 1e-9) + floor
            ctx.ratio('residual', res, tol + floor)
            ctx.check(bool(ok), 'residual', 'stopped early without solving the equation', residual=float(res), bound=float(tol + floor), **d)
            ctx.count('stopped by tolerance')
            if it == 0:
                ctx.count('no iteration needed')
        else:
            ctx.count('stopped by iteration limit')
        ctx.judged(repr((E0, M, e, tol, max_iter, degree)).encode())
        ctx.count('regime ' + regime(e))
        if it < max_iter:
            self.max_it = max(self.max_it, it)
        return res, floor

    def cases(self):
        ctx = self.ctx
        rng = ctx.rng('solver')
        # the default configuration over the whole domain, including corners
        es = [0.0, 1e-12, 1e-9, 1e-6, 0.01, 0.1, 0.5, 0.9, 0.99, 0.999, 0.9999, 0.99999, 0.9999999, 1 - 1e-10, 1 - 1e-13,
              1 + 1e-13, 1 + 1e-10, 1.0000001, 1.00001, 1.001, 1.01, 1.1, 2.0, 10.0, 100.0, 1e4]
        Ms = [0.0, 1e-300, 1e-16, 1e-12, 1e-8, 1e-4, 1e-3, 0.01, 0.1, 0.2499, 0.25, 0.2501, 0.5, 1.0, np.pi/2, 2.0, 3.0, 3.14,
              np.pi, 3.15, 4.0, 5.0, 6.0, 6.28, 2*np.pi, 6.3, 7.0, 12.0, 4*np.pi, 20.0, 100.0]
        for e in es:
            yield dict(kind='default', e=[e]*(2*len(Ms)), M=Ms + [-m for m in Ms])
        for b in range(ctx.n(60, 3000)):
            n = 40
            e = [gen.e_of(rng, ['circ', 'small', 'ell', 'ell', 'high', 'nearhyp', 'hyp', 'bighyp']) for _ in range(n)]
            yield dict(kind='default', e=e, M=[self.m_of(rng, x) for x in e])
        # any start, tolerance, limit, degree
        for b in range(ctx.n(2500, 60000)):
            e = gen.e_of(rng, ['circ', 'small', 'ell', 'ell', 'high', 'nearhyp', 'hyp', 'bighyp'])
            M = self.m_of(rng, e)
            c = rng.integers(5)
            if c == 0:
                E0 = float(rng.uniform(-10, 10))
            elif c == 1:
                E0 = float(rng.choice([0.0, np.pi, -np.pi, 2*np.pi, np.pi/2]))
            elif c == 2:
                E0 = float(M) if e < 1 else float(np.clip(M, -30, 30))
            elif c == 3:
                E0 = float(O.M_to_E(M, e)) + float(rng.choice([0, 1e-14, 1e-9, 1e-3]))
            else:
                E0 = float(rng.uniform(-100, 100)) if e < 1 else float(rng.uniform(-40, 40))
            yield dict(kind='free', E0=E0, M=M, e=e, tol=float(rng.choice([1e-12, 1e-12, 1e-3, 1e-6, 1e-9, 1e-14, 0.1, 10**rng.uniform(-13, 0)])),
                       max_iter=int(rng.choice([1, 2, 3, 5, 20, 100, 5000])), degree=int(rng.choice([2, 3, 4, 5, 6, 8, 10, 50])))
        for b in range(ctx.n(250, 5000)):
            e = gen.e_of(rng, ['small', 'ell', 'high', 'hyp', 'nearhyp'])
            yield dict(kind='degree', e=e, M=self.m_of(rng, e))
        for b in range(ctx.n(60, 1000)):
            yield dict(kind='options', seed=int(rng.integers(2**31)))

    @staticmethod
    def m_of(rng, e):
        c = rng.integers(7)
        if c == 0:
            return float(rng.choice([-1, 1])*10**rng.uniform(-15, -1))
        if c == 1:
            return float(rng.integers(-6, 7)*np.pi/2 + rng.choice([0, 0, 1e-9, -1e-9]))
        if c == 2:
            return float(rng.choice([-1, 1])*10**rng.uniform(1, 2.3))
        return float(rng.uniform(-8, 8))

    def execute(self, case):
        ctx, K = self.ctx, self.K
        kind = case['kind']
        if kind == 'default':
            e, M = arr(case['e']), arr(case['M'])
            if ctx.evals % 7 == 0:
                ctx.sample(dict(kind='default options', M=M[0], e=e[0]), cap=2)
            for m, ec in zip(M.tolist(), e.tolist()):
                E0 = K.kepler_guess(m, ec)
                ctx.check(np.isfinite(float(np.asarray(E0))), 'guess-undefined', 'starting guess is undefined', M=m, e=ec)
                with inst.Trace(budget=120*5010):
                    try:
                        E, it = K.laguerre_solve_kepler(E0, m, ec)
                    except inst.BudgetExceeded:
                        ctx.violate('termination', 'solver exceeded its step budget', M=m, e=ec)
                        continue
                # the equation can be met when its rounding is below the tolerance
                res, size = residual(float(np.asarray(E)), m, ec)
                can = 4*O.EPS*size < 1e-12 if np.isfinite(float(size)) else abs(m) < 100
                ctx.count('default start')
                if can:
                    ctx.check(int(it) < 5000, 'no-convergence', 'not converged with default start and options', M=m, e=ec, iterations=int(it), E=float(np.asarray(E)))
                    ctx.count('default convergence')
            # the same through the public conversion
            E = K.mean_to_eccentric(M, e)
            ref, tol = O.anom_tol('mean', 'eccentric', M, e)
            with np.errstate(all='ignore'):
                ill = ~(tol < 1e-2*np.maximum(1, np.abs(ref)))
            d = np.where(e < 1, O.wrap_diff(E, ref), O.ld(E) - ref)
            ctx.within('root', np.abs(d), tol, 'eccentric anomaly is not the root', skip=ill | (e == 1),
                       case_=lambda k: dict(M=M[k], e=e[k], got=E[k], want=float(ref[k])))
        elif kind == 'free':
            a = {k: case[k] for k in ('E0', 'M', 'e', 'tol', 'max_iter', 'degree')}
            ctx.count('hostile start')
            ctx.sample(a, cap=4)
            with inst.Trace(budget=120*(a['max_iter'] + 10)):
                try:
                    K.laguerre_solve_kepler(**a)
                except inst.BudgetExceeded:
                    ctx.violate('termination', 'solver exceeded its step budget', **a)
        elif kind == 'degree':
            M, e = case['M'], case['e']
            E0 = float(np.asarray(K.kepler_guess(M, e)))
            ref, tol = O.anom_tol('mean', 'eccentric', M, e)
            for deg in (2, 3, 5, 7, 12):
                E, it = K.laguerre_solve_kepler(E0, M, e, degree=deg)
                if int(it) >= 5000 or not tol < 1e-2:
                    ctx.count('degree skipped')
                    continue
                d = abs(O.wrap_diff(E, ref)) if e < 1 else abs(LD(E) - ref)
                ctx.within('degree-answer', d, tol, 'the polynomial degree changes the answer', M=M, e=e, degree=deg, got=E, want=float(ref))
                ctx.count('degree comparisons')
        else:
            rng = np.random.default_rng(case['seed'])
            seen = []

            def spy(ev):
                if ev.exc is None:
                    seen.append((ev.arg('tol'), ev.arg('max_iter'), ev.arg('degree'), int(ev.ret[1])))
            self.bus.subs['laguerre_solve_kepler'].append(spy)
            try:
                e = float(rng.choice([0.7, 0.9, 0.95, 0.99, 1.01, 1.2]))
                M = float(rng.uniform(0.01, 6))
                opts = dict(tol=float(rng.choice([1e-2, 1e-5, 1e-10])), max_iter=int(rng.integers(1, 4)), degree=int(rng.choice([2, 5, 9])))
                opts0 = dict(opts)
                want = K.laguerre_solve_kepler(K.kepler_guess(M, e), M, e, **opts)[0]
                got = {}
                got['scalar'] = K.mean_to_eccentric(M, e, solver_options=opts)
                got['array'] = K.mean_to_eccentric(np.array([M]), np.array([e]), solver_options=opts)[0]
                if e < 1:
                    orb = self.pyorb.Orbit(1.0, G=1.0, type='mean', solver_options=opts, a=1.0, e=e, i=0.1, omega=0.2, Omega=0.3, anom=M)
                    got['orbit'] = orb.eccentric_anomaly[0]
                    got['orbit copy'] = orb.copy().eccentric_anomaly[0]
                    got['true'] = O.nu_to_E(K.mean_to_true(M, e, solver_options=opts), e)
                    got['orbit true'] = O.nu_to_E(orb.true_anomaly[0], e)
                    # the state of the orbit is computed with the same options
                    x = orb.cartesian[:, 0]
                    el = O.elements(x[:, None], 1.0)
                    got['orbit state'] = O.nu_to_E(el['nu'][0], e)
                    w = float(rng.uniform(-1, 1))
                    q = np.array([1.0, e*np.sin(w), e*np.cos(w), 0.1, 0.2, M + w])
                    el = O.elements(K.equi_to_cart(q, mu=1.0, solver_options=opts)[:, None], 1.0)
                    got['equinoctial'] = O.nu_to_E(el['nu'][0], e)
                    o2 = self.pyorb.Orbit(1.0, G=1.0, type='true', solver_options=opts, a=1.0, e=e, i=0.1, omega=0.2, Omega=0.3, anom=0.1)
                    o2.mean_anomaly = M
                    got['orbit assigned true'] = O.nu_to_E(o2.anom[0], e)
                    o2 = self.pyorb.Orbit(1.0, G=1.0, type='eccentric', solver_options=opts, a=1.0, e=e, i=0.1, omega=0.2, Omega=0.3, anom=0.1)
                    o2.mean_anomaly = M
                    got['orbit assigned eccentric'] = o2.anom[0]
                    orb.type = 'eccentric'
                    got['orbit type'] = orb.anom[0]
                for k, v in got.items():
                    d = abs(O.wrap_diff(v, want)) if e < 1 else abs(LD(v) - LD(want))
                    # few iterations far from the root: the answer depends on
                    # the options, which must be the given ones
                    ctx.within('options', d, 1e-9*max(1, abs(float(want))), f'solver options are not applied ({k})',
                               M=M, e=e, options=opts, got=float(v), want=float(want))
                ctx.check(opts == opts0, 'options-mutated', 'the option dictionary was changed', options=opts)
                ctx.count('option passing')
            finally:
                self.bus.subs['laguerre_solve_kepler'].remove(spy)

    def finish(self):
        self.ctx.extra['largest_iteration_count_that_converged'] = self.max_it


PAIRS = {'true_to_eccentric': ('true', 'eccentric', 'nu'), 'eccentric_to_true': ('eccentric', 'true', 'E'),
         'eccentric_to_mean': ('eccentric', 'mean', 'E'), 'true_to_mean': ('true', 'mean', 'nu'),
         'mean_to_eccentric': ('mean', 'eccentric', 'M'), 'mean_to_true': ('mean', 'true', 'M')}


def anom_domain(src, x, e):
    with np.errstate(all='ignore'):
        ok = np.isfinite(x) & np.isfinite(e) & (e >= 0)
        if src == 'true':
            ok &= (e < 1) | (1 + e*np.cos(x) > 1e-4*e)
        if src == 'eccentric':
            ok &= (e <= 1) | (np.abs(x) < 300)
    return ok


def judge_anom(ctx, fname, x, e, degrees, out, solver_options=None, eps=None, shape=True, mech=None):
    src, dst, _ = PAIRS[fname]
    mech = mech or fname
    x0, e0 = np.asarray(x), np.asarray(e)
    want_shape = np.broadcast_shapes(x0.shape, e0.shape)
    if shape and np.shape(out) != want_shape:
        ctx.violate(mech + '-shape', 'wrong shape', got=np.shape(out), want=want_shape)
        return 0
    f32 = any(isinstance(v, np.ndarray) and v.dtype == np.float32 for v in (x, e))
    eps = eps or (O.EPS32 if f32 else O.EPS)
    xx, ee = np.broadcast_arrays(O.rad(x0, degrees).ravel() if x0.ndim else O.rad(x0, degrees), O.ld(e0).ravel() if e0.ndim else O.ld(e0))
    xx, ee = np.atleast_1d(xx).copy(), np.atleast_1d(ee).copy()
    oo = np.atleast_1d(O.rad(np.asarray(out), degrees).ravel())
    if xx.size == 0:
        return 0
    ok = anom_domain(src, xx, ee)
    ctx.count('outside-domain', np.sum(~ok))
    if not ok.any():
        return 0
    xx, ee, oo = xx[ok], ee[ok], oo[ok]
    so = solver_options or {}
    if so.get('max_iter', 5000) < 1000 and src == 'mean':
        return 0
    y, tol = O.anom_tol(src, dst, xx, ee, eps=eps, solver_tol=max(so.get('tol', 1e-12), 8*eps))
    bound = ee < 1
    # true anomalies are directions: modulo a turn for every conic
    mod = bound | (dst == 'true')
    d = np.abs(np.where(mod, O.wrap_diff(oo, y), oo - y))
    scale = np.maximum(1, np.abs(y))
    ill = ~(tol < 1e-3*scale)
    ctx.count('ill-conditioned', np.sum(ill))

    def show(k):
        return dict(function=fname, anomaly=float(xx[k]), e=float(ee[k]), degrees=bool(degrees), got=float(oo[k]), want=float(y[k]))
    ctx.within(mech, d, tol, f'{dst} anomaly is wrong', skip=ill, case_=show)
    sgn = ~bound & ~ill & (dst != 'true') & (np.abs(y) > 4*tol)
    ctx.within(mech + '-sign', np.where(sgn & (np.sign(oo) != np.sign(y)), 1, 0), 0, 'wrong sign on an unbound leg', case_=show)
    ctx.judged_cols(np.array([xx, ee]).astype(np.float64), ~ill, tag=fname.encode())
    for k in np.nonzero(~ill)[0]:
        ctx.count('regime ' + regime(ee[k]))
        ctx.count(fname)
        if not bound[k] and y[k] < 0:
            ctx.count('unbound inbound')
    return int(np.sum(~ill))


ONE_KIND = (['circ', 'small', 'ell', 'high'], ['ell', 'high'], ['high'], ['par'], ['nearhyp', 'hyp', 'bighyp'], ['hyp'])


class C06(Check):
    rule = ('one case is one anomaly conversion of one object (function, anomaly, eccentricity) observed at the function '
            'boundary, called by the workload or inside orbit objects; it counts when it was compared with the reference '
            'with a conditioning bound below 1e-3; distinct by value and function')
    assumptions = ['mean anomalies solved to 1e-12 or rounding are exact enough', 'unbound true anomalies closer to the asymptote than 1e-4 are not judged']

    def setup(self):
        for f, (s, d, a) in PAIRS.items():
            self.bus.subscribe(f, self.on_event)
            self.ctx.need(f, 300)
        for r in ('e=0', 'e<=limit', 'elliptic', 'e->1-', 'e=1', 'e->1+', 'hyperbolic'):
            self.ctx.need('regime ' + r, 100)
        self.ctx.need('unbound inbound', 300)
        self.ctx.need('round trips', 500)

    def on_event(self, ev):
        if ev.exc is not None:
            return
        s, d, a = PAIRS[ev.name]
        judge_anom(self.ctx, ev.name, ev.arg(a), ev.arg('e'), ev.arg('degrees'), ev.ret, ev.arg('solver_options'))

    def cases(self):
        ctx = self.ctx
        rng = ctx.rng('anomalies')
        for b in range(ctx.n(500, 15000)):
            f = list(PAIRS)[b % 6]
            src = PAIRS[f][0]
            n = int(rng.choice([1, 2, 9, 30, 40]))
            kinds = gen.ALL_E
            if rng.random() < 0.3:
                # one conic type only
                kinds = ONE_KIND[rng.integers(len(ONE_KIND))]
            e = [gen.e_of(rng, kinds) for _ in range(n)]
            x = [gen.anomaly_of(rng, src, q) for q in e]
            deg = bool(rng.integers(2))
            how = str(rng.choice(['array', 'array', 'scalar', 'array-e', 'array-x', '2d']))
            if how == 'array-x':
                e = [e[0]]*n
                x = [gen.anomaly_of(rng, src, q) for q in e]
            if n == 30:
                idx = np.arange(n)[gen.many(rng, n, 0.05, (100, 130, 257, 513, 1025))]
                e, x = [e[k] for k in idx], [x[k] for k in idx]
            if how == 'array-e':
                x = [abs(min(x, key=abs))/(1 + abs(min(x, key=abs)))]*n
            if deg:
                x = np.degrees(x).tolist()
            yield dict(kind='one', f=f, x=x, e=e, deg=deg, how=how)
        for b in range(ctx.n(200, 6000)):
            n = int(rng.choice([1, 5, 20]))
            e = [gen.e_of(rng, gen.ALL_E) for _ in range(n)]
            src = ['true', 'eccentric', 'mean'][b % 3]
            yield dict(kind='trip', src=src, e=e, x=[gen.anomaly_of(rng, src, q) for q in e], deg=bool(rng.integers(2)))
        for b in range(ctx.n(60, 1500)):
            n = 6
            e = [gen.e_of(rng, ['ell', 'small', 'hyp', 'par', 'circ']) for _ in range(n)]
            typ = ['true', 'eccentric', 'mean'][b % 3]
            yield dict(kind='orbit', typ=typ, e=e, x=[gen.anomaly_of(rng, typ, q) for q in e], deg=bool(rng.integers(2)))

    def execute(self, case):
        K, ctx = self.K, self.ctx
        if case['kind'] == 'one':
            f = getattr(K, case['f'])
            x, e, deg = arr(case['x']), arr(case['e']), case['deg']
            ctx.sample(dict(function=case['f'], anomaly=x[0], e=e[0], degrees=deg), cap=4)
            how = case['how']
            if how == 'scalar':
                for p, q in zip(x.tolist(), e.tolist()):
                    f(p, q, degrees=deg)
            elif how == 'array-e':
                f(float(x[0]), e, degrees=deg)
            elif how == 'array-x':
                f(x, float(e[0]), degrees=deg)
            elif how == '2d' and x.size % 2 == 0:
                f(x.reshape(2, -1), e.reshape(2, -1), degrees=deg)
            else:
                f(x, e, degrees=deg)
        elif case['kind'] == 'trip':
            deg = case['deg']
            e, x = arr(case['e']), arr(case['x'])
            xd = np.degrees(x) if deg else x
            src = case['src']
            paths = {'true': [('true_to_eccentric', 'eccentric_to_true'), ('true_to_mean', 'mean_to_true'),
                              ('true_to_eccentric', 'eccentric_to_mean', 'mean_to_true')],
                     'eccentric': [('eccentric_to_true', 'true_to_eccentric'), ('eccentric_to_mean', 'mean_to_eccentric')],
                     'mean': [('mean_to_true', 'true_to_mean'), ('mean_to_eccentric', 'eccentric_to_mean')]}[src]
            for path in paths:
                y = xd.copy()
                tol = np.zeros(len(x), dtype=LD)
                cur, cx = src, O.ld(x)
                ill = ~anom_domain(src, O.ld(x), e)
                for fn in path:
                    s, d, _ = PAIRS[fn]
                    cx2, tol = O.anom_tol(s, d, cx, e, dx=tol)
                    y = getattr(K, fn)(y, e, degrees=deg)
                    cx, cur = cx2, d
                    # an anomaly that is not determined at all cannot be
                    # followed any further
                    ill |= ~(tol < 1e-3*np.maximum(1, np.abs(cx)))
                y = O.rad(y, deg)
                dd = np.where((e < 1) | (src == 'true'), O.wrap_diff(y, x), y - x)
                ill |= ~(tol < 1e-3*np.maximum(1, np.abs(x)))
                ctx.within('trip ' + '-'.join(path), np.abs(dd), tol + 1e-14, 'converting there and back changes the anomaly', skip=ill,
                           case_=lambda k: dict(path=path, anomaly=x[k], e=e[k], got=float(y[k]), degrees=deg))
                ctx.count('round trips', np.sum(~ill))
        else:
            deg, typ = case['deg'], case['typ']
            e, x = arr(case['e']), arr(case['x'])
            n = len(e)
            ok = anom_domain(typ, O.ld(x), e)
            if not ok.all():
                e, x = e[ok], x[ok]
                n = len(e)
                if n == 0:
                    return
            orb = self.pyorb.Orbit(1.0, G=1.0, num=n, degrees=deg, type=typ, a=np.ones(n), e=e, i=np.full(n, 0.5), omega=np.full(n, 0.4),
                                   Omega=np.full(n, 0.3), anom=np.degrees(x) if deg else x)
            for a in ('true', 'eccentric', 'mean'):
                got = O.rad(getattr(orb, a + '_anomaly'), deg)
                y, tol = O.anom_tol(typ, a, x, e)
                d = np.where((e < 1) | (a == 'true'), O.wrap_diff(got, y), got - y)
                ill = ~(tol < 1e-3*np.maximum(1, np.abs(y)))
                ctx.within('orbit ' + a, np.abs(d), tol + 1e-12, 'anomaly read from an orbit object is wrong', skip=ill,
                           case_=lambda k: dict(type=typ, read=a, anomaly=x[k], e=e[k], got=float(got[k]), want=float(y[k]), degrees=deg))


CHECKS = dict(C05=C05, C06=C06)
