#!/usr/bin/env python
'''Tests the reference and the instruments themselves (setup_cmd).  Imports
nothing from the library under test except to see that the event bus works.'''
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import numpy as np

from mon import inst, oracle as O

LD = np.longdouble
np.seterr(all='ignore')
rng = np.random.default_rng(7)
bad = []


def expect(ok, what):
    if not np.all(ok):
        bad.append(what)
        print('FAILED:', what)


def close(a, b, tol, what):
    err = float(np.nanmax(np.abs(O.ld(a) - O.ld(b))))
    print(f'{what}: {err:.2e} (at most {tol:.0e})')
    expect(err <= tol and np.all(np.isfinite(O.ld(a))), what)


def mix(n):
    '''Orbits of every conic, a = 1..3, mu about 1; radians.'''
    e = np.where(np.arange(n) % 4 == 0, rng.uniform(0, 0.9, n), np.where(np.arange(n) % 4 == 1, 1.0, np.where(np.arange(n) % 4 == 2, rng.uniform(1.05, 3, n), 1 + rng.choice([-1, 1], n)*10**rng.uniform(-6, -2, n))))
    nu = np.where(e < 0.95, rng.uniform(-3, 3, n), rng.uniform(-1.5, 1.5, n))
    a = rng.uniform(1, 3, n)
    a = np.where((e != 1) & (np.abs(1 - e) < 0.02), a/np.abs(1 - e), a)
    return np.array([a, e, rng.uniform(0, np.pi, n), rng.uniform(-7, 7, n), rng.uniform(-7, 7, n), nu]).astype(LD), rng.uniform(0.5, 2, n).astype(LD)


expect(np.finfo(LD).eps < 2e-19, 'numpy offers 80-bit extended precision')

# rotations: the frame is Rz(W) Rx(i) Rz(w)
k, mu = mix(40)


def rot(axis, t):
    '''Rodrigues.'''
    u = np.zeros(3, LD)
    u[axis] = 1
    X = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.eye(3, dtype=LD) + np.sin(t)*X + (1 - np.cos(t))*(X @ X)


P, Q, H = O.frame(k[2], k[3], k[4])
R = np.array([rot(2, k[4, n]) @ rot(0, k[2, n]) @ rot(2, k[3, n]) for n in range(40)])
close(np.array([P, Q, H]).transpose(2, 1, 0), R, 1e-17, 'frame against composed rotations')

# the state solves the equations of motion: numerical integration against
# (i) the state advanced through Kepler's equation, (ii) universal variables
x = O.kep_state(k, mu)
T = LD('0.6')
steps = 3000
h = T/steps


def acc(y):
    r = O.norm(y[:3])
    return np.concatenate([y[3:], -mu*y[:3]/r**3])


y = x.copy()
for _ in range(steps):
    a1 = acc(y)
    a2 = acc(y + h/2*a1)
    a3 = acc(y + h/2*a2)
    a4 = acc(y + h*a3)
    y = y + h/6*(a1 + 2*a2 + 2*a3 + a4)
p = O.semi_latus(k[0], k[1])
n = np.where(k[1] == 1, np.sqrt(mu/(2*k[0]**3)), np.sqrt(mu/k[0]**3))
M = O.nu_to_M(k[5], k[1]) + n*T
k2 = k.copy()
k2[5] = O.M_to_nu(M, k[1])
close(O.kep_state(k2, mu), y, 1e-10, 'state and Kepler equation against numerical integration')
u = np.array([O.propagate_state(x[:, c], mu[c], T) for c in range(40)]).T
close(u, y, 1e-10, 'universal variables against numerical integration')
close(u, O.kep_state(k2, mu), 1e-13, 'universal variables against the Kepler equation')
back = np.array([O.propagate_state(u[:, c], mu[c], -T) for c in range(40)]).T
close(back, x, 1e-14, 'universal variables back and forth')

# integrals of motion
el = O.elements(x, mu)
close(el['p']/p, 1, 1e-15, 'semi-latus rectum of a state')
close(el['e'], k[1], 1e-15, 'eccentricity of a state')
close(np.cos(el['i']), np.cos(k[2]), 1e-15, 'inclination of a state')
v2 = np.sum(x[3:]**2, axis=0)
r = O.norm(x[:3])
close(np.where(k[1] == 1, v2*r/2, (v2/2 - mu/r)*2*k[0]*np.sign(k[1] - 1))/mu, 1, 1e-13, 'energy of a state')

# anomalies against their definitions and back
for e in (0.0, 1e-12, 0.3, 0.9, 0.999999, 1.0, 1.000001, 1.2, 5.0):
    z = np.linspace(-2.8, 2.8, 57).astype(LD)*(1 if e < 1 else LD('0.4'))
    e = LD(e)
    E = O.nu_to_E(z, e)
    c = np.cos(z)
    # cos nu from the eccentric anomaly
    want = (np.cos(E) - e)/(1 - e*np.cos(E)) if e < 1 else (1 - E*E)/(1 + E*E) if e == 1 else (e - np.cosh(E))/(e*np.cosh(E) - 1)
    close(c, want, 1e-11, f'eccentric anomaly e={float(e)}')
    Mz = O.E_to_M(E, e)
    want = E - e*np.sin(E) if e < 1 else E + E**3/3 if e == 1 else e*np.sinh(E) - E
    close(Mz, want, 1e-16, f'Kepler equation e={float(e)}')
    close(O.M_to_E(Mz, e), E, 1e-12, f'Kepler equation solved e={float(e)}')
    close(O.E_to_nu(E, e), z, 1e-14, f'true anomaly back e={float(e)}')

# equinoctial elements
kb = k[:, k[1] < 0.95]
t = np.tan(kb[2]/2)
lam = kb[3] + kb[4] + kb[5]
q = np.array([kb[0], kb[1]*np.sin(kb[3] + kb[4]), kb[1]*np.cos(kb[3] + kb[4]), t*np.sin(kb[4]), t*np.cos(kb[4]), lam])
close(O.equi_state(q, 1.0), O.kep_state(kb, 1.0), 1e-14, 'equinoctial elements')

# Stumpff series against closed forms across the switch
for z in (0.999999, 1.000001, -0.999999, -1.000001):
    s = np.sqrt(np.abs(LD(z)))
    want = ((1 - np.cos(s))/z, (s - np.sin(s))/(s*z)) if z > 0 else ((np.cosh(s) - 1)/-LD(z), (np.sinh(s) - s)/(s*-LD(z)))
    close(np.array(O.stumpff23(z)), np.array(want), 1e-17, f'Stumpff functions at {z}')

# tolerances are neither zero nor blind
_, tr, tv = O.kep_state_tol(k[:, k[1] != 1], mu[k[1] != 1])
expect((tr > 0) & (tv > 0), 'tolerances are positive')
m = O.kep_state_tol(k[:, :4], mu[:4])[1]/r[:4]
expect(m[np.abs(k[1, :4] - 1) > 0.04] < 1e-12, 'tolerances of ordinary orbits are tight')

# ---- the instruments see what they are meant to see


def uninit(n):
    return np.empty(n)


with inst.Poison(0.4):
    a = uninit(3)
with inst.Poison(-7.25e11):
    b = uninit(3)
expect(not np.array_equal(a, b), 'poisoned allocations differ')
expect(np.empty is inst.Poison.real_empty, 'poison is taken away')

pyorb = inst.load()
root = os.path.join(inst.REPO, 'pyorb') + os.sep
src = 'def f(a):\n    a *= -1\n    b = a.sum()\n    a *= -1\n    return b\n'
ns = {}
exec(compile(src, root + 'probe.py', 'exec'), ns)
arg = np.ones(3)
before = inst.fingerprint(arg)
seen = []
with inst.Trace(lambda fr: seen.append(inst.fingerprint(arg) != before)):
    ns['f'](arg)
expect(any(seen) and inst.fingerprint(arg) == before, 'a temporary change of an argument is seen')
exec(compile('def g():\n    while True:\n        pass\n', root + 'probe.py', 'exec'), ns)
try:
    with inst.Trace(budget=1000):
        ns['g']()
    expect(False, 'an endless loop is stopped')
except inst.BudgetExceeded:
    pass
try:
    bus = inst.Bus(pyorb)
    bus.install()
    got = []
    bus.subscribe('kep_to_cart', got.append)
    orb = pyorb.Orbit(1.0, G=1.0, num=1)
    orb.kepler = np.array([1.0, 0.1, 0.2, 0.3, 0.4, 0.5])
    orb.cartesian
    pyorb.kep_to_cart(np.array([1.0, 0.1, 0.2, 0.3, 0.4, 0.5]), mu=1.0)
    expect(len(got) >= 1 and got[-1].arg('mu') == 1.0 and got[-1].arg('degrees') is False, 'calls are seen on the event bus')
except Exception as x:      # the library itself is judged by the checks
    print('event bus not tried:', repr(x))
print('selftest', 'failed' if bad else 'passed')
sys.exit(1 if bad else 0)
