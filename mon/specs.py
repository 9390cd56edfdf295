'''Shared description of the public element-wise functions and a workload
generator for each: which arguments are angles, whether the result is one.'''
import numpy as np

from . import gen

MILD_E = ['circ', 'small', 'ell', 'ell', 'hyp', 'par']
BOUND_MILD = ['circ', 'small', 'ell', 'ell']


def _e(rng, kinds=MILD_E):
    while True:
        e = gen.e_of(rng, kinds)
        if abs(e - 1) > 0.04 or e == 1:
            return e


def _anom(src, kinds=MILD_E):
    def g(rng):
        e = _e(rng, kinds)
        while True:
            x = gen.anomaly_of(rng, src, e)
            if src == 'true' and e >= 1:
                if 1 + e*np.cos(x) < 0.05*e:
                    continue
            if src == 'eccentric' and e > 1 and abs(x) > 5:
                continue
            return x, e
    return g


def _pos(rng, lo=-3, hi=6):
    return float(10**rng.uniform(lo, hi))


def _radius(rng):
    e = _e(rng, BOUND_MILD)
    return gen.angle_of(rng), _pos(rng), e


def _hyp(rng):
    e = _e(rng, ['hyp'])
    while True:
        nu = gen.nu_of(rng, e)
        if 1 + e*np.cos(nu) > 0.05*e:
            return nu, _pos(rng), e


def _par(rng):
    while True:
        nu = gen.nu_of(rng, 1.0)
        if 1 + np.cos(nu) > 0.02:
            return nu, _pos(rng)


def _dist(rng):
    nu, e = _anom('true')(rng)
    return _pos(rng, -1, 3), _pos(rng, -1, 3), e, nu


def _ham(rng):
    e = _e(rng, ['ell', 'small', 'circ', 'hyp'])
    a = _pos(rng)
    return (a if e < 1 else -a), e, _pos(rng)


def _speed(rng):
    r = _pos(rng)
    a = r*rng.uniform(0.6, 5)*(1 if rng.random() < 0.6 else -1)
    return r, a, _pos(rng)


class Spec:
    def __init__(self, name, args, gen, deg=False, angles=(), out=None, bound_arg=None, solver=False):
        self.name, self.args, self.gen = name, args.split(), gen
        self.deg, self.angles, self.out, self.bound_arg = deg, set(angles), out, bound_arg
        self.solver = solver


ELEM = [
    Spec('true_to_eccentric', 'nu e', _anom('true'), True, ['nu'], 'angle', 'e'),
    Spec('eccentric_to_true', 'E e', _anom('eccentric'), True, ['E'], 'turn', 'e'),
    Spec('eccentric_to_mean', 'E e', _anom('eccentric'), True, ['E'], 'angle', 'e'),
    Spec('true_to_mean', 'nu e', _anom('true'), True, ['nu'], 'angle', 'e'),
    Spec('mean_to_eccentric', 'M e', _anom('mean'), True, ['M'], 'angle', 'e', True),
    Spec('mean_to_true', 'M e', _anom('mean'), True, ['M'], 'turn', 'e', True),
    Spec('kepler_guess', 'M e', _anom('mean', ['circ', 'small', 'ell', 'hyp']), False, ['M'], 'value', 'e'),
    Spec('orbital_distance', 'h mu e nu', _dist, True, ['nu'], 'value'),
    Spec('elliptic_radius', 'E a e', _radius, True, ['E'], 'value'),
    Spec('hyperbolic_radius', 'nu a e', _hyp, True, ['nu'], 'value'),
    Spec('parabolic_radius', 'nu q', _par, True, ['nu'], 'value'),
    Spec('true_of_the_asymptote', 'e', lambda rng: (_e(rng, ['hyp', 'bighyp']),), True, [], 'turn'),
    Spec('orbit_total_angular_momentum', 'a e mu', _ham, False, [], 'value'),
    Spec('parabolic_total_angular_momentum', 'q mu', lambda rng: (_pos(rng), _pos(rng)), False, [], 'value'),
    Spec('orbital_speed', 'r a mu', _speed, False, [], 'value'),
    Spec('orbital_period', 'a mu', lambda rng: (_pos(rng), _pos(rng)), False, [], 'value'),
    Spec('semi_major_axis', 'P mu', lambda rng: (_pos(rng), _pos(rng)), False, [], 'value'),
    Spec('stumpff0', 'x', lambda rng: (float(rng.choice([0, rng.uniform(-50, 50), 10**rng.uniform(-12, 2), -10**rng.uniform(-12, 2)])),), False, [], 'value'),
    Spec('stumpff1', 'x', lambda rng: (float(rng.choice([0, rng.uniform(-50, 50), 10**rng.uniform(-12, 2), -10**rng.uniform(-12, 2)])),), False, [], 'value'),
    Spec('stumpff2', 'x', lambda rng: (float(rng.choice([0, rng.uniform(-50, 50), 10**rng.uniform(-12, 2), -10**rng.uniform(-12, 2)])),), False, [], 'value'),
    Spec('stumpff3', 'x', lambda rng: (float(rng.choice([0, rng.uniform(-50, 50), 10**rng.uniform(-12, 2), -10**rng.uniform(-12, 2)])),), False, [], 'value'),
]
ELEM_BY = {s.name: s for s in ELEM}
VEC = ['kep_to_cart', 'cart_to_kep', 'kep_to_equi', 'equi_to_kep', 'cart_to_equi', 'equi_to_cart']
HAS_MU = {'kep_to_cart', 'cart_to_kep', 'cart_to_equi', 'equi_to_cart'}


def kep_mild(rng, kinds=MILD_E, deg=False, equi=False):
    '''Element vector away from the singular corners, and mu.'''
    while True:
        k, mu = gen.kep_col(rng, kinds, False)
        e = k[1]
        if abs(e - 1) < 0.04 and e != 1:
            continue
        if 1 + e*np.cos(k[5]) < 0.03*max(e, 1):
            continue
        if equi and k[2] > 3.0:
            continue
        if deg:
            k[2:] = [float(np.degrees(x)) for x in k[2:]]
        return k, mu


def vec_col(rng, name, deg=False):
    '''One input vector (float64) of a vector function, and mu.'''
    if name == 'kep_to_cart':
        k, mu = kep_mild(rng, deg=deg)
        return np.array(k), mu
    if name == 'cart_to_kep':
        from . import oracle as O
        if rng.random() < 0.3:
            return gen.cart_axis(rng)
        k, mu = kep_mild(rng)
        return np.asarray(O.kep_state(np.array(k)[:, None], np.array([mu]))[:, 0], dtype=float), mu
    k, mu = kep_mild(rng, BOUND_MILD, equi=True)
    if name == 'kep_to_equi':
        if deg:
            k[2:] = [float(np.degrees(x)) for x in k[2:]]
        return np.array(k), mu
    if name == 'cart_to_equi':
        from . import oracle as O
        return np.asarray(O.kep_state(np.array(k)[:, None], np.array([mu]))[:, 0], dtype=float), mu
    a, e, i, w, W, x = k
    t = np.tan(i/2)
    lam = (w + W + x) % (2*np.pi)
    if deg:
        lam = np.degrees(lam)
    return np.array([a, e*np.sin(w + W), e*np.cos(w + W), t*np.sin(W), t*np.cos(W), lam]), mu
