'''Reference two-body mechanics in 80-bit extended precision.

Written from the textbook definitions and the conventions documented in
pyorb.kepler, with formulations (atan2, half-angle, bracketed Newton) that are
not those of the library.  Nothing here imports pyorb.

Every reference value comes with a tolerance that is derived from the
conditioning of the problem at that point: the reference itself is evaluated
at inputs perturbed by a few units in the last place of the precision the
library computes in.
'''
import numpy as np

LD = np.longdouble
PI = LD('3.14159265358979323846264338327950288419716939937511')
TWOPI = 2*PI
EPS = 2.220446049250313e-16
EPS32 = 1.1920929e-07


def ld(x):
    return np.asarray(x, dtype=LD)


def rad(x, degrees=False):
    x = ld(x)
    return x*PI/180 if degrees else x


def unrad(x, degrees=False):
    x = ld(x)
    return x*180/PI if degrees else x


def wrap_diff(a, b, turn=TWOPI):
    '''Smallest signed difference a - b modulo a turn.'''
    d = ld(a) - ld(b)
    return d - turn*np.round(d/turn)


def norm(x):
    return np.sqrt(np.sum(ld(x)**2, axis=0))


def semi_latus(a, e):
    a, e = ld(a), ld(e)
    return np.where(e == 1, 2*a, a*np.abs((1 - e)*(1 + e)))


def frame(i, w, W):
    '''Unit vectors (P, Q, H) of the perifocal frame, each (3, ...)'''
    ci, si = np.cos(i), np.sin(i)
    cw, sw = np.cos(w), np.sin(w)
    cW, sW = np.cos(W), np.sin(W)
    node = np.array([cW, sW, np.zeros_like(cW)])
    # in-plane direction a quarter turn ahead of the node
    ahead = np.array([-sW*ci, cW*ci, si + np.zeros_like(cW)])
    P = cw*node + sw*ahead
    Q = -sw*node + cw*ahead
    H = np.array([sW*si, -cW*si, ci + np.zeros_like(cW)])
    return P, Q, H


def state(a, e, i, w, W, nu, mu):
    '''(6, N) state, angles in radians.'''
    a, e, i, w, W, nu, mu = [ld(x) for x in (a, e, i, w, W, nu, mu)]
    with np.errstate(all='ignore'):
        p = semi_latus(a, e)
        den = 1 + e*np.cos(nu)
        r = p/den
        k = np.sqrt(mu/p)
        P, Q, _ = frame(i, w, W)
        c, s = np.cos(nu), np.sin(nu)
        pos = r*(c*P + s*Q)
        vel = k*(-s*P + (e + c)*Q)
    return np.concatenate([pos, vel])


def kep_state(kep, mu, degrees=False):
    kep = ld(kep)
    ang = rad(kep[2:], degrees)
    return state(kep[0], kep[1], ang[0], ang[1], ang[2], ang[3], mu)


def kep_valid(kep, mu, degrees=False, margin=1e-9):
    '''Columns that denote a real orbit and position (true anomaly).'''
    kep = ld(kep)
    mu = ld(mu)
    with np.errstate(all='ignore'):
        nu = rad(kep[5], degrees)
        ok = np.all(np.isfinite(kep), axis=0) & (kep[0] > 0) & (kep[1] >= 0)
        ok &= np.isfinite(mu) & (mu > 0)
        ok &= (1 + kep[1]*np.cos(nu)) > margin
    return ok


def kep_state_tol(kep, mu, degrees=False, eps=EPS, K=6.0, dang=0.0, da=0.0,
                  de=0.0):
    '''Bounds on |dr| and |dv| for a backward-stable evaluation, with extra
    absolute errors on the angles (radians), relative on a, absolute on e.

    Returns (state, tol_r, tol_v)'''
    kep = ld(kep)
    mu = ld(mu)
    ang = rad(kep[2:], degrees)
    a, e = kep[0], kep[1]
    x0 = state(a, e, *ang, mu)
    tr = 16*eps*norm(x0[:3])
    tv = 16*eps*norm(x0[3:])

    def acc(x1):
        return norm(x1[:3] - x0[:3]), norm(x1[3:] - x0[3:])

    def add(*xs):
        nonlocal tr, tv
        rs, vs = zip(*[acc(x) for x in xs])
        tr = tr + K*np.maximum.reduce([np.where(np.isfinite(q), q, 0) if n else q for n, q in enumerate(rs)])
        tv = tv + K*np.maximum.reduce([np.where(np.isfinite(q), q, 0) if n else q for n, q in enumerate(vs)])

    with np.errstate(all='ignore'):
        d = a*(2*eps + ld(da))
        add(state(a + d, e, *ang, mu))
        add(state(a, e, *ang, mu*(1 + 2*eps)))
        # eccentricity: stay on the same side of one
        d = 2*eps*np.maximum(1, e) + ld(de)
        up = np.where((e < 1) & (e + d >= 1), e, e + d)
        dn = np.where((e > 1) & (e - d <= 1), e, np.maximum(e - d, 0))
        par = e == 1
        up = np.where(par, e, up)
        dn = np.where(par, e, dn)
        add(state(a, up, *ang, mu), state(a, dn, *ang, mu))
        # closeness to one: relative error of 1 - e^2
        rel = np.where(par, 0, 4*eps*np.maximum(1, e*e)/np.abs((1 - e)*(1 + e)))
        add(state(a*(1 + rel), e, *ang, mu))
        # position along the conic: 1 + e cos nu
        for n in range(4):
            t = [x.copy() for x in ang]
            d = eps*(2*np.abs(ang[n]) + 1) + ld(dang)
            t[n] = ang[n] + d
            x1 = state(a, e, *t, mu)
            t[n] = ang[n] - d
            add(x1, state(a, e, *t, mu))
        # absolute rounding of e cos nu
        den = 1 + e*np.cos(ang[3])
        tr = tr + K*norm(x0[:3])*2*eps*(1 + e)/den
    return x0, tr, tv


def elements(cart, mu):
    '''Dictionary of geometric quantities of a state.'''
    cart = ld(cart)
    mu = ld(mu)
    r, v = cart[:3], cart[3:]
    rn, vn = norm(r), norm(v)
    h = np.array([r[1]*v[2] - r[2]*v[1],
                  r[2]*v[0] - r[0]*v[2],
                  r[0]*v[1] - r[1]*v[0]])
    hn = norm(h)
    rv = np.sum(r*v, axis=0)
    with np.errstate(all='ignore'):
        en = vn**2/2 - mu/rn
        evec = ((vn**2 - mu/rn)*r - rv*v)/mu
        e = norm(evec)
        p = hn**2/mu
        a = p/np.abs((1 - e)*(1 + e))
        inc = np.arctan2(np.hypot(h[0], h[1]), h[2])
        node = np.array([-h[1], h[0], np.zeros_like(hn)])
        W = np.arctan2(node[1], node[0])
        # angle from the node in the direction of motion
        nh = np.hypot(h[0], h[1])
        u1 = node/nh
        u2 = np.array([h[1]*u1[2] - h[2]*u1[1],
                       h[2]*u1[0] - h[0]*u1[2],
                       h[0]*u1[1] - h[1]*u1[0]])/hn

        def from_node(x):
            return np.arctan2(np.sum(u2*x, axis=0), np.sum(u1*x, axis=0))
        w = from_node(evec)
        u = from_node(r)
        # angle from periapsis
        q = np.array([h[1]*evec[2] - h[2]*evec[1],
                      h[2]*evec[0] - h[0]*evec[2],
                      h[0]*evec[1] - h[1]*evec[0]])/(hn*e)
        nu = np.arctan2(np.sum(q*r, axis=0), np.sum(evec*r, axis=0)/e)
        s = vn**2*rn/mu
    return dict(r=r, rn=rn, vn=vn, h=h, hn=hn, rv=rv, en=en, evec=evec, e=e, p=p,
                a=a, i=inc, W=W, w=w, u=u, nu=nu, s=s)


def c2k_errors(el, eps=EPS):
    '''Error budget of a backward-stable cart_to_kep that takes its angles
    from arc cosines: (dang, da relative, de absolute).'''
    with np.errstate(all='ignore'):
        s = 2 + el['s']                      # size of the terms summed into e
        dx = 8*eps*s/np.maximum(el['e'], LD(1e-300))
        # below the documented limit the direction of periapsis is not used
        dx = np.where(el['e'] + 16*eps*s < 0.95e-9, 0, dx)
        # flight path: h loses digits when r and v are nearly parallel
        lever = el['rn']*el['vn']/el['hn']
        # an arc cosine of a value known to d is known to d/sin, or sqrt(2 d)
        # at the ends of its range
        sini = np.abs(np.sin(el['i']))
        tilt = np.maximum(sini, LD(1e-300))
        di = eps*(8 + 16*lever)
        dn = eps*(8 + 16*lever/tilt)
        low, flat = el['e'] < 1.1e-9, sini < 1e-8
        high, incl = el['e'] > 0.9e-9, sini > 1e-9
        lonp = np.arctan2(el['evec'][1], el['evec'][0])
        lonr = np.arctan2(el['r'][1], el['r'][0])
        dang = np.zeros_like(s)
        for used, angle, d in ((True, el['i'], di), (incl, el['W'], dn), (incl & high, el['w'], dx + dn), (high, el['nu'], dx + 8*eps),
                               (incl & low, el['u'], dn), (flat & high, lonp, dx + 8*eps), (flat & low, lonr, 8*eps + 0*s)):
            d = np.minimum(2*d, 1)
            t = d/np.maximum(np.abs(np.sin(angle))/2, np.sqrt(d)/2)
            dang = np.maximum(dang, np.where(used & np.isfinite(t), t, 0))
        dang = dang + np.minimum(dx, 4) + 16*eps*lever
        dang = dang + np.where(incl, 16*eps*lever/tilt, 0)
        far = np.abs(el['e'] - 1)
        da = 16*eps*s*(1 + 1/np.maximum(far, LD(1e-3))) + 32*eps*lever
        de = 16*eps*s + 16*eps*lever
    return dang, da, de


# ---------------------------------------------------------------- anomalies

def nu_to_E(nu, e):
    '''True to elliptic (same turn), parabolic (tan) or hyperbolic anomaly.
    Unbound orbits: nu is first brought to (-pi, pi].'''
    nu, e = ld(nu), ld(e)
    nu, e = np.broadcast_arrays(nu, e)
    with np.errstate(all='ignore'):
        turns = np.round(nu/TWOPI)
        s = nu - TWOPI*turns                        # in [-pi, pi]
        hs, hc = np.sin(s/2), np.cos(s/2)
        E = 2*np.arctan2(np.sqrt(1 - e)*hs, np.sqrt(1 + e)*hc) + TWOPI*turns
        D = hs/hc
        t = np.sqrt((e - 1)/(e + 1))*hs/hc
        F = np.log1p(2*t/(1 - t))
        F = np.where(t < 0, -np.log1p(-2*t/(1 + t)), F)
    return np.where(e < 1, E, np.where(e == 1, D, F))


def E_to_nu(E, e):
    E, e = ld(E), ld(e)
    E, e = np.broadcast_arrays(E, e)
    with np.errstate(all='ignore'):
        turns = np.round(E/TWOPI)
        s = E - TWOPI*turns
        ell = 2*np.arctan2(np.sqrt(1 + e)*np.sin(s/2), np.sqrt(1 - e)*np.cos(s/2)) + TWOPI*turns
        par = 2*np.arctan(E)
        hyp = 2*np.arctan(np.sqrt((e + 1)/(e - 1))*np.tanh(E/2))
    return np.where(e < 1, ell, np.where(e == 1, par, hyp))


def _sin_excess(x):
    '''x - sin x, without cancellation.'''
    x = ld(x)
    small = np.abs(x) < 0.5
    xs = np.where(small, x, 0)
    term = xs**3/6
    tot = term.copy()
    for n in range(4, 30, 2):
        term = -term*xs*xs/(n*(n + 1))
        tot = tot + term
    return np.where(small, tot, x - np.sin(x))


def _sinh_excess(x):
    '''sinh x - x'''
    x = ld(x)
    small = np.abs(x) < 0.5
    xs = np.where(small, x, 0)
    term = xs**3/6
    tot = term.copy()
    for n in range(4, 30, 2):
        term = term*xs*xs/(n*(n + 1))
        tot = tot + term
    with np.errstate(all='ignore'):
        big = np.sinh(x) - x
    return np.where(small, tot, big)


def E_to_M(E, e):
    E, e = ld(E), ld(e)
    E, e = np.broadcast_arrays(E, e)
    with np.errstate(all='ignore'):
        # E - e sin E = (E - sin E) + (1 - e) sin E
        ell = _sin_excess(E) + (1 - e)*np.sin(E)
        par = E + E**3/3
        hyp = _sinh_excess(E) + (e - 1)*np.sinh(E)
    return np.where(e < 1, ell, np.where(e == 1, par, hyp))


def nu_to_M(nu, e):
    return E_to_M(nu_to_E(nu, e), e)


def M_to_E(M, e):
    '''Bracketed Newton iteration in extended precision.'''
    M, e = ld(M), ld(e)
    M, e = np.broadcast_arrays(M, e)
    shape = M.shape
    M, e = M.ravel().copy(), e.ravel().copy()
    out = np.full(M.shape, np.nan, dtype=LD)
    par = (e == 1) & np.isfinite(M)
    if par.any():
        A = 3*np.abs(M[par])/2
        B = np.cbrt(A + np.sqrt(A*A + 1))
        D = B - 1/B
        for _ in range(3):
            D = D - (D + D**3/3 - np.abs(M[par]))/(1 + D*D)
        out[par] = np.sign(M[par])*D
    todo = (e != 1) & (e >= 0) & np.isfinite(M) & np.isfinite(e)
    if todo.any():
        m, ec = M[todo], e[todo]
        ell = ec < 1
        turns = np.where(ell, np.round(m/TWOPI), 0)
        s = m - turns*TWOPI
        sg = np.where(s < 0, LD(-1), LD(1))
        s = np.abs(s)
        lo = np.zeros_like(s)
        with np.errstate(all='ignore'):
            hi = np.where(ell, PI + LD(1e-15), np.arcsinh(s/np.maximum(ec - 1, LD(1e-4000)))+1)
            hi2 = np.cbrt(6*s) + 1          # sinh x - x >= x^3/6
            hi = np.where(ell, hi, np.minimum(np.where(np.isfinite(hi), hi, hi2), hi2))
            x = np.where(ell, np.minimum(s + ec*np.sin(s), PI), hi)
            act = np.arange(x.size)
            for it in range(150):
                xa, ea, sa = x[act], ec[act], s[act]
                el = ell[act]
                f = np.empty_like(xa)
                fp = np.empty_like(xa)
                if el.any():
                    X, Q = xa[el], ea[el]
                    f[el] = _sin_excess(X) + (1 - Q)*np.sin(X)
                    fp[el] = 1 - Q*np.cos(X)
                if not el.all():
                    X, Q = xa[~el], ea[~el]
                    f[~el] = _sinh_excess(X) + (Q - 1)*np.sinh(X)
                    fp[~el] = Q*np.cosh(X) - 1
                f = f - sa
                pos = f > 0
                hi[act] = np.where(pos, xa, hi[act])
                lo[act] = np.where(pos, lo[act], xa)
                xn = xa - f/fp
                bad = ~((xn >= lo[act]) & (xn <= hi[act])) | ~np.isfinite(xn)
                xn = np.where(bad, (lo[act] + hi[act])/2, xn)
                done = np.abs(xn - xa) <= 8*np.finfo(LD).eps*np.maximum(np.abs(xa), LD(1e-300))
                x[act] = xn
                act = act[~done]
                if act.size == 0:
                    break
        out[todo] = sg*x + turns*TWOPI
    return out.reshape(shape)


def M_to_nu(M, e):
    return E_to_nu(M_to_E(M, e), e)


CONV = {
    ('true', 'true'): lambda x, e: ld(x),
    ('eccentric', 'eccentric'): lambda x, e: ld(x),
    ('mean', 'mean'): lambda x, e: ld(x),
    ('true', 'eccentric'): nu_to_E,
    ('true', 'mean'): nu_to_M,
    ('eccentric', 'true'): E_to_nu,
    ('eccentric', 'mean'): E_to_M,
    ('mean', 'true'): M_to_nu,
    ('mean', 'eccentric'): M_to_E,
}


def convert(src, dst, x, e):
    return CONV[(src, dst)](x, e)


def anom_tol(src, dst, x, e, eps=EPS, solver_tol=1e-12, K=8.0, dx=0.0):
    '''Value and bound for an anomaly conversion (radians).'''
    x, e = np.broadcast_arrays(ld(x), ld(e))
    f = CONV[(src, dst)]
    y = f(x, e)
    d = eps*(2*np.abs(x) + 1) + ld(dx)
    if src == 'mean':
        # the solver works on |f(E)| < tol or to the rounding of its terms
        E = M_to_E(x, e)
        with np.errstate(all='ignore'):
            size = np.where(e < 1, np.abs(E) + 1, np.abs(E) + np.abs(x) + e*np.sinh(np.minimum(np.abs(E), 11000)))
        d = d + np.where(e == 1, 0, solver_tol) + 4*eps*size
    with np.errstate(all='ignore'):
        t = np.maximum(np.abs(f(x + d, e) - y), np.abs(f(x - d, e) - y))
        de = 2*eps*np.maximum(1, e)
        up = np.where((e < 1) & (e + de >= 1), e, e + de)
        dn = np.where((e > 1) & (e - de <= 1), e, np.maximum(e - de, 0))
        up = np.where(e == 1, e, up)
        dn = np.where(e == 1, e, dn)
        t = t + np.maximum(np.abs(f(x, up) - y), np.abs(f(x, dn) - y))
        rel = np.where(e == 1, 0, 4*eps/np.maximum(np.abs(1 - e), LD(1e-300)))
        t = t*K + K*eps*(1 + np.abs(y))
        if src != 'mean' or dst != 'mean':
            pass
        # relative error of 1 - e near one acts on the half-angle factor
        amp = np.minimum(np.abs(y), 1) if dst != 'mean' else np.abs(y)
        t = t + K*rel*amp
        if dst == 'mean' and src == 'true':
            # E - e sin E cancels: absolute error of its terms
            E = nu_to_E(x, e)
            t = t + K*eps*(np.abs(E) + np.where(e > 1, e*np.sinh(np.minimum(np.abs(E), 11000)), e))
        if dst == 'mean' and src == 'eccentric':
            t = t + K*eps*(np.abs(x) + np.where(e > 1, e*np.sinh(np.minimum(np.abs(x), 11000)), e))
    return y, t


# --------------------------------------------------------------- propagation

def propagate_state(cart, mu, dt, steps=None):
    '''Universal-variable propagation, one state (6,), extended precision.

    Independent of the anomaly formulation of the library: solves for the
    universal anomaly with Stumpff series and applies f and g.'''
    c = ld(cart)
    mu = ld(mu)
    dt = ld(dt)
    r0, v0 = c[:3], c[3:]
    rn = norm(r0)
    vr = np.sum(r0*v0)/rn
    alpha = 2/rn - np.sum(v0*v0)/mu
    if alpha > 0:
        period = TWOPI/np.sqrt(mu*alpha**3)
        dt = dt - period*np.round(dt/period)
    sq = np.sqrt(mu)

    def F(x):
        z = alpha*x*x
        C, S = stumpff23(z)
        return (rn*vr/sq*x*x*C + (1 - alpha*rn)*x**3*S + rn*x - sq*dt)

    def Fp(x):
        z = alpha*x*x
        C, S = stumpff23(z)
        return (rn*vr/sq*x*(1 - z*S) + (1 - alpha*rn)*x*x*C + rn)

    # F is increasing in x (its derivative is the distance): bracket, then
    # safeguarded Newton
    sg = LD(1) if dt >= 0 else LD(-1)
    step = sq*np.abs(dt)/rn + np.sqrt(rn)
    lo, hi = LD(0), step
    n = 0
    with np.errstate(all='ignore'):
        while not (sg*F(sg*hi) >= 0) and n < 400:
            if not np.isfinite(F(sg*hi)):
                break
            lo = hi
            hi = hi*2
            n += 1
        # an overflow is beyond the root
        x = (lo + hi)/2
        for _ in range(2000):
            f = sg*F(sg*x)
            if not np.isfinite(f) or f > 0:
                hi = x
            else:
                lo = x
            xn = x - f/Fp(sg*x)
            # far above the root Newton only takes one off an exponent
            if not (lo <= xn <= hi) or (-alpha*x*x > 100 and hi - lo > 0.01*x):
                xn = (lo + hi)/2
            if np.abs(xn - x) <= 2*np.finfo(LD).eps*np.abs(x):
                x = xn
                break
            x = xn
    x = sg*x
    z = alpha*x*x
    C, S = stumpff23(z)
    f = 1 - x*x/rn*C
    g = dt - x**3/sq*S
    r = f*r0 + g*v0
    rr = norm(r)
    fd = sq/(rr*rn)*(z*S - 1)*x
    gd = 1 - x*x/rr*C
    v = fd*r0 + gd*v0
    return np.concatenate([r, v])


def stumpff23(z):
    z = ld(z)
    if abs(z) < 1:
        t2, t3 = LD(1)/2, LD(1)/6
        s2, s3 = t2, t3
        for n in range(1, 15):
            t2 = -t2*z/((2*n + 1)*(2*n + 2))
            t3 = -t3*z/((2*n + 2)*(2*n + 3))
            s2 += t2
            s3 += t3
        return s2, s3
    if z > 0:
        s = np.sqrt(z)
        return 2*np.sin(s/2)**2/z, (s - np.sin(s))/(s*z)
    s = np.sqrt(-z)
    return 2*np.sinh(s/2)**2/(-z), (np.sinh(s) - s)/(s*(-z))


def equi_kep(equi, degrees=False, mean=False):
    '''(a, e, i, w, W, anomaly) in radians from the definition; for circular
    or planar orbits the undefined angles are taken as zero.'''
    q = ld(equi)
    lam = rad(q[5], degrees)
    e = np.hypot(q[1], q[2])
    wW = np.where(e == 0, 0, np.arctan2(q[1], q[2]))
    t = np.hypot(q[3], q[4])
    W = np.where(t == 0, 0, np.arctan2(q[3], q[4]))
    i = 2*np.arctan(t)
    an = lam - wW
    if mean:
        an = M_to_nu(an, e)
    return np.array([q[0], e, i, wW - W, W, an])


def equi_state(equi, mu, degrees=False, mean=False):
    return kep_state(equi_kep(equi, degrees, mean), mu)
