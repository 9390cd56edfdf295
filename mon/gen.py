'''Workload generators: hostile orbital elements, states and anomalies.'''
import numpy as np
from . import oracle as O

E_SPECIAL = [0.0, 1e-14, 1e-12, 5e-10, 9.9e-10, 1e-9, 1.01e-9, 2e-9, 1e-8,
             3e-8, 1e-7, 5e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01]
E_NEAR_ONE = [1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-10, 1e-12]
I_LIM = np.pi*1e-9
SCALES = [
    # (length, mu)
    (1.0, 1.0),
    (1.0, 39.47812018693255),
    (1.495978707e11, 1.32712440018e20),
    (7.0e6, 3.986004418e14),
    (7.0e3, 3.986004418e5),
    (1e-3, 1e-6),
    (1e5, 1e-2),
]


def e_of(rng, kinds):
    k = kinds[rng.integers(len(kinds))]
    if k == 'circ':
        return 0.0 if rng.random() < 0.5 else float(rng.choice(E_SPECIAL[:7]))
    if k == 'small':
        if rng.random() < 0.5:
            return float(rng.choice(E_SPECIAL[5:]))
        return float(10**rng.uniform(-9, -1))
    if k == 'ell':
        return float(rng.uniform(0.01, 0.97))
    if k == 'high':
        if rng.random() < 0.5:
            return float(1 - rng.choice(E_NEAR_ONE))
        return float(1 - 10**rng.uniform(-12, -0.5))
    if k == 'par':
        return 1.0
    if k == 'nearhyp':
        if rng.random() < 0.5:
            return float(1 + rng.choice(E_NEAR_ONE))
        return float(1 + 10**rng.uniform(-12, -0.5))
    if k == 'hyp':
        return float(rng.uniform(1.05, 4.0))
    if k == 'bighyp':
        return float(10**rng.uniform(0.5, 3))
    raise KeyError(k)


ALL_E = ['circ', 'small', 'ell', 'ell', 'high', 'par', 'nearhyp', 'hyp',
         'bighyp']
BOUND_E = ['circ', 'small', 'ell', 'ell', 'high']
UNBOUND_E = ['par', 'nearhyp', 'hyp', 'bighyp']
EASY_E = ['ell', 'ell', 'small', 'hyp', 'par', 'circ']


def inc_of(rng, degrees=False, planar=True):
    h = 180.0 if degrees else np.pi
    c = rng.integers(10)
    if c == 0:
        return 0.0 if planar else 0.3*h
    if c == 1:
        return h if planar else 0.7*h
    if c == 2:
        return h/2
    if c == 3 and planar:
        x = rng.choice([1e-12, 0.5*I_LIM, 0.99*I_LIM, 1.01*I_LIM, 2*I_LIM,
                        1e-8, 1e-7, 1e-5, 1e-3]) if rng.random() < 0.6 else 10**rng.uniform(-9, -1)
        x = x*(180/np.pi if degrees else 1)
        return float(x if rng.random() < 0.5 else h - x)
    if c == 4:
        return float(h/2 + rng.choice([-1, 1])*10**rng.uniform(-9, -1))
    return float(rng.uniform(0.01, 0.99)*h)


def angle_of(rng, degrees=False):
    t = 360.0 if degrees else 2*np.pi
    c = rng.integers(12)
    if c <= 2:
        return float(rng.integers(0, 5)*t/4)
    if c == 3:
        return float(rng.integers(0, 5)*t/4 + rng.choice([-1, 1])*t*10**rng.uniform(-15, -3))
    if c == 4:
        return float(-rng.uniform(0, 1)*t)
    if c == 5:
        n = rng.uniform(1, 8)
        if rng.random() < 0.15:
            n = 10**rng.uniform(1, 5)
        return float(n*t*rng.choice([-1, 1]))
    return float(rng.uniform(0, 1)*t)


def nu_of(rng, e, degrees=False, margin=0.97):
    u = 180/np.pi if degrees else 1.0
    if e < 1:
        return angle_of(rng, degrees)
    lim = float(np.arccos(-1.0/e)) if e > 1 else np.pi
    if e == 1:
        lim *= 0.97
    c = rng.integers(8)
    if c == 0:
        x = 0.0
    elif c == 1:
        x = min(np.pi/2, lim*margin)*rng.choice([-1, 1])
    elif c == 2:
        x = 10**rng.uniform(-9, -2)*rng.choice([-1, 1])
    elif c == 3:
        x = lim*rng.uniform(0.9, margin)*rng.choice([-1, 1])
    else:
        x = lim*rng.uniform(-margin, margin)
    x = float(x*u)
    t = 360.0 if degrees else 2*np.pi
    c = rng.integers(6)
    if c <= 2 and x < 0:
        x += t
    elif c == 3:
        x += t*int(rng.integers(-3, 4))
    return x


def scale_of(rng):
    c = rng.integers(3)
    if c < 2:
        L, mu = SCALES[rng.integers(len(SCALES))]
        return L*10**rng.uniform(-1, 1), mu
    return 10**rng.uniform(-3, 12), 10**rng.uniform(-6, 20)


def kep_col(rng, kinds=ALL_E, degrees=False, planar=True, one_mu=None):
    '''One element vector with valid true anomaly and its mu.'''
    L, mu = scale_of(rng)
    e = e_of(rng, kinds)
    if rng.random() < 0.5 and abs(e - 1) > 0 and abs(e - 1) < 0.3:
        a = L/abs(1 - e)           # keep the periapsis at the scale
    else:
        a = L
    k = [float(a), e, inc_of(rng, degrees, planar), angle_of(rng, degrees),
         angle_of(rng, degrees), nu_of(rng, e, degrees)]
    return k, float(mu)


def small_angles(rng, x):
    '''Angles that are small numbers in degrees as well as in radians.'''
    return [float(np.clip(abs(a) if k == 0 else a, 0 if k == 0 else -0.7, 0.7)*rng.uniform(0.1, 1)) for k, a in enumerate(x)]


def kep_batch(rng, n, kinds=ALL_E, degrees=False, planar=True, same_mu=False):
    ks, mus = [], []
    mu0 = None
    tiny = rng.random() < 0.05
    for _ in range(n):
        k, mu = kep_col(rng, kinds, degrees, planar)
        if tiny:
            # every angle of the batch is small, whatever its unit
            k[2:] = small_angles(rng, k[2:])
        if same_mu:
            if mu0 is None:
                mu0 = mu
            mu = mu0
        ks.append(k)
        mus.append(mu)
    if n == 0:
        return np.zeros((6, 0)), (np.zeros((0,)) if not same_mu else 1.0)
    return np.array(ks, dtype=np.float64).T.copy(), (mu0 if same_mu else np.array(mus))


AX = np.array([[1., 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1]])


def cart_axis(rng):
    '''Exact, axis-aligned or simple rational states.'''
    c = rng.integers(4)
    L, mu = scale_of(rng) if rng.random() < 0.5 else (1.0, 1.0)
    k = rng.choice([1.0, 1.0, 0.5, 0.8, 1.2, 1.3, np.sqrt(2.0), 1.5, 2.0, 5.0])
    vc = np.sqrt(mu/L)
    if c <= 1:
        i, j = rng.permutation(3)[:2]
        r = AX[i]*rng.choice([-1, 1])*L
        v = AX[j]*rng.choice([-1, 1])*k*vc
        if c == 1:
            v = v + AX[i]*rng.choice([-1, 1])*rng.choice([0.1, 0.5, 1.0])*vc
    elif c == 2:
        r = rng.choice([-1., 0., 1.], 3)
        while not r.any():
            r = rng.choice([-1., 0., 1.], 3)
        v = rng.choice([-1., 0., 1.], 3)
        while not np.cross(r, v).any():
            v = rng.choice([-1., 0., 1.], 3)
        r, v = r*L, v*k*vc
    else:
        # planar, any quadrant, pro- or retrograde, circular exactly or not
        t = rng.integers(8)*np.pi/4 if rng.random() < 0.5 else rng.uniform(0, 2*np.pi)
        s = rng.choice([-1, 1])
        r = L*np.array([np.cos(t), np.sin(t), 0])
        v = s*k*vc*np.array([-np.sin(t), np.cos(t), 0])
        if rng.random() < 0.4:
            v = v + rng.choice([-1, 1])*rng.uniform(0.05, 1)*vc*np.array([np.cos(t), np.sin(t), 0])
    return np.concatenate([r, v]) + 0.0, float(mu)


def cart_random(rng):
    L, mu = scale_of(rng)
    r = rng.normal(size=3)*L
    v = rng.normal(size=3)*np.sqrt(mu/L)*10**rng.uniform(-0.5, 0.5)
    return np.concatenate([r, v]), float(mu)


def cart_steep(rng):
    '''Motion almost straight towards or away from the centre.'''
    L, mu = scale_of(rng)
    r = rng.normal(size=3)
    r /= np.linalg.norm(r)
    t = np.cross(r, rng.normal(size=3))
    t /= np.linalg.norm(t)
    d = 10**rng.uniform(-4.5, -1)
    v = np.sqrt(mu/L)*10**rng.uniform(-1, 0.7)
    return np.concatenate([r*L, v*(rng.choice([-1, 1])*r + d*t)]), float(mu)


def cart_col(rng, kinds=ALL_E):
    c = rng.integers(5)
    if c == 0:
        return cart_axis(rng)
    if c == 1:
        return cart_steep(rng) if rng.random() < 0.2 else cart_random(rng)
    k, mu = kep_col(rng, kinds)
    x = O.kep_state(np.array(k)[:, None], np.array([mu]))[:, 0]
    return np.asarray(x, dtype=np.float64), mu


def cart_batch(rng, n, kinds=ALL_E, same_mu=False):
    xs, mus = [], []
    mu0 = None
    while len(xs) < n:
        x, mu = cart_col(rng, kinds)
        if same_mu:
            if mu0 is None:
                mu0 = mu
            elif mu != mu0:
                # rescale the velocity to the common mu
                x = x.copy()
                x[3:] *= np.sqrt(mu0/mu)
                mu = mu0
        xs.append(x)
        mus.append(mu)
    if n == 0:
        return np.zeros((6, 0)), (np.zeros((0,)) if not same_mu else 1.0)
    return np.array(xs).T.copy(), (mu0 if same_mu else np.array(mus))


def anomaly_of(rng, src, e):
    '''Radians; valid for the conic.'''
    if src == 'true':
        return nu_of(rng, e)
    if e < 1:
        return angle_of(rng)
    if src == 'eccentric':
        lim = 8.0 if e > 1 else 20.0
        if e > 1 and rng.random() < 0.1:
            lim = 60.0
        c = rng.integers(6)
        if c == 0:
            return 0.0
        if c == 1:
            return float(rng.choice([-1, 1])*10**rng.uniform(-9, -1))
        return float(rng.uniform(-lim, lim))
    c = rng.integers(8)
    if c == 0:
        return 0.0
    if c == 1:
        return float(rng.choice([-1, 1])*10**rng.uniform(-12, -1))
    if c == 2:
        return float(rng.choice([-1, 1])*10**rng.uniform(1, 3))
    if c == 3:
        return float(rng.choice([-1, 1])*rng.integers(1, 9)*np.pi/2)
    return float(rng.uniform(-20, 20))


def many(rng, n, p=0.01, sizes=(100, 130, 257, 513, 1025, 2100, 4100)):
    '''Now and then, the indices that turn n columns into a long batch.'''
    if rng.random() >= p:
        return slice(None)
    if rng.random() < 0.05 and max(sizes) > 2000:
        sizes = (10007, 66000)
    return rng.integers(0, n, int(rng.choice(sizes)) + int(rng.integers(3)))
