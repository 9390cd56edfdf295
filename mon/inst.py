'''Instrumentation of the real code: event bus on the public functions,
poisoned allocations, step budgets, watched arrays.'''
import contextlib
import copy
import functools
import inspect
import os
import random
import sys
import threading
import warnings

import numpy as np

REPO = os.path.realpath(os.environ.get('PYORB_REPO', '/repo'))


def load():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pyorb
    import pyorb.kepler
    import pyorb.orbit
    import pyorb.unit
    f = os.path.realpath(pyorb.__file__)
    assert f.startswith(REPO + os.sep), f
    return pyorb


class Event:
    __slots__ = ('name', 'args', 'kwargs', 'live_args', 'live_kwargs', 'ret',
                 'exc', 'depth', 'bound')

    def arg(self, name, default=None):
        return self.bound.get(name, default)


def snap(x):
    if isinstance(x, np.ndarray):
        return np.array(x, order='K', copy=True)
    if isinstance(x, (dict, list)):
        return copy.deepcopy(x)
    return x


def _sig(line):
    ns = {}
    exec(f'def f({line}): pass', dict(GM_sol=_GM, f64=np.float64), ns)
    return inspect.signature(ns['f'])


_GM = 1.32712440018e20
# the documented arguments of the functions that are watched
SIGNATURES = {n: _sig(a) for n, a in dict(
    cart_to_equi='cart, mu=GM_sol, degrees=False',
    equi_to_cart='equi, mu=GM_sol, solver_options=None, degrees=False',
    kep_to_equi='kep, degrees=False',
    equi_to_kep='equi, degrees=False',
    cart_to_kep='cart, mu=GM_sol, degrees=False',
    kep_to_cart='kep, mu=GM_sol, degrees=False',
    kep_equivalent='kep1, kep2',
    orbit_total_angular_momentum='a, e, mu',
    parabolic_total_angular_momentum='q, mu',
    true_to_eccentric='nu, e, degrees=False',
    eccentric_to_true='E, e, degrees=False',
    eccentric_to_mean='E, e, degrees=False',
    true_to_mean='nu, e, degrees=False',
    mean_to_eccentric='M, e, solver_options=None, degrees=False',
    mean_to_true='M, e, solver_options=None, degrees=False',
    orbital_distance='h, mu, e, nu, degrees=False',
    elliptic_radius='E, a, e, degrees=False',
    parabolic_radius='nu, q, degrees=False',
    hyperbolic_radius='nu, a, e, degrees=False',
    true_of_the_asymptote='e, degrees=False',
    rot_mat_x='theta, dtype=f64',
    rot_mat_y='theta, dtype=f64',
    rot_mat_z='theta, dtype=f64',
    euler_rotation_matrix='inc, omega, Omega, degrees=False',
    laguerre_solve_kepler='E0, M, e, tol=1e-12, max_iter=5000, degree=5',
    kepler_guess='M, e',
    orbital_speed='r, a, mu',
    orbital_period='a, mu',
    semi_major_axis='P, mu',
    stumpff0='x', stumpff1='x', stumpff2='x', stumpff3='x', stumpff='x',
).items()}


MON = os.path.dirname(os.path.abspath(__file__)) + os.sep


# what the documentation says an orbit object has when nothing is said
ORBIT_DEFAULTS = dict(dtype=np.float64, auto_update=True, direct_update=True, epoch=None, degrees=False, type='true', num=1,
                      solver_options={}, kepler_read_only=False, cartesian_read_only=False)
EVERY = slice(None, None, None)
ORBIT_METHODS = dict(add=(dict(num=1), True), update=(dict(inds=EVERY), True), delete=(dict(inds=inspect.Parameter.empty), False),
                     propagate=(dict(dt=inspect.Parameter.empty), False), calculate_cartesian=(dict(inds=EVERY), False),
                     calculate_kepler=(dict(inds=EVERY), False), calc_true_anomaly=(dict(inds=EVERY), False),
                     calc_mean_anomaly=(dict(inds=EVERY), False), calc_eccentric_anomaly=(dict(inds=EVERY), False))


def same_default(v, d):
    if d is None or v is None:
        return v is d
    if isinstance(d, (str, slice)):
        return type(v) is type(d) and v == d
    if isinstance(d, dict):
        return isinstance(v, dict) and v == d
    if isinstance(d, type):
        return v is d
    return isinstance(v, (bool, int, float, np.bool_)) and v == d


class Bus:
    '''Publishes one event per call of a public library function, made by
    anyone: the workload, an orbit object, or another library function.'''

    def __init__(self, pyorb):
        self.pyorb = pyorb
        self.subs = {}
        self.count = {}
        self.depth = 0
        self.on = False
        self.orig = {}
        self.spelling = random.Random(1)
        self.thread = threading.get_ident()

    def public_functions(self):
        '''The documented functions of pyorb.kepler, wherever they are
        defined and however they are wrapped.'''
        k = self.pyorb.kepler
        return {n: f for n, f in vars(k).items()
                if callable(f) and not n.startswith('_') and not inspect.isclass(f)
                and (n in SIGNATURES or str(getattr(f, '__module__', '')).startswith('pyorb.'))}

    def install(self):
        fns = self.public_functions()
        for n, f in fns.items():
            self.orig[n] = f
            w = self._wrap(n, f)
            for mod in [m for k, m in list(sys.modules.items())
                        if k == 'pyorb' or k.startswith('pyorb.')]:
                try:
                    d = vars(mod)
                except TypeError:
                    continue
                if 'const' in getattr(mod, '__name__', 'const'):
                    continue
                for a, v in list(d.items()):
                    if v is f:
                        setattr(mod, a, w)
        self.install_orbit()
        self.on = True

    def install_orbit(self):
        '''Orbit objects made and operated on by the workload are spelled
        differently too.'''
        cls = self.pyorb.orbit.Orbit
        init = cls.__init__
        spelling = self.spelling

        @functools.wraps(init)
        def __init__(orb, *args, **kwargs):
            if sys._getframe(1).f_code.co_filename[:len(MON)] == MON and threading.get_ident() == self.thread:
                defaults = dict(ORBIT_DEFAULTS, G=self.pyorb.G)
                n = spelling.randrange(4)
                if n == 0:
                    kwargs = {k: v for k, v in kwargs.items() if k not in defaults or not same_default(v, defaults[k])}
                elif n == 1:
                    kwargs = {**kwargs, **{k: v for k, v in defaults.items() if k not in kwargs}}
                elif n == 2:
                    keys = list(kwargs)
                    spelling.shuffle(keys)
                    kwargs = {k: kwargs[k] for k in keys}
                if len(args) == 1 and spelling.randrange(4) == 0:
                    return init(orb, M0=args[0], **kwargs)
            return init(orb, *args, **kwargs)
        cls.__init__ = __init__
        for name, (params, extra) in ORBIT_METHODS.items():
            f = vars(cls).get(name)
            if callable(f):
                setattr(cls, name, self._respelled_method(f, params, extra))

    def _respelled_method(self, f, params, extra):
        @functools.wraps(f)
        def method(orb, *args, **kwargs):
            if sys._getframe(1).f_code.co_filename[:len(MON)] != MON or threading.get_ident() != self.thread:
                return f(orb, *args, **kwargs)
            (name, default), = params.items()
            if args:
                given, rest = args[0], args[1:]
            elif name in kwargs:
                kwargs = dict(kwargs)
                given, rest = kwargs.pop(name), ()
            else:
                given, rest = default, ()
            if rest or given is inspect.Parameter.empty:
                return f(orb, *args, **kwargs)
            n = self.spelling.randrange(3)
            if extra and kwargs:
                keys = list(kwargs)
                self.spelling.shuffle(keys)
                kwargs = {k: kwargs[k] for k in keys}
            if n == 0:
                return f(orb, given, **kwargs)
            if n == 1 or default is inspect.Parameter.empty or not same_default(given, default):
                return f(orb, **{name: given}, **kwargs)
            return f(orb, **kwargs)
        return method

    def _wrap(self, name, f):
        sig = SIGNATURES.get(name) or inspect.signature(f)

        f0 = f

        def respelled(*args, **kwargs):
            return f0(*args, **kwargs) if sys._getframe(2).f_code.co_filename[:len(MON)] != MON else self.respell(name, sig, f0, args, kwargs)

        if name in SIGNATURES:
            f = respelled

        @functools.wraps(f0, updated=())
        def wrapper(*args, **kwargs):
            if not self.on or threading.get_ident() != self.thread:
                return f(*args, **kwargs)
            subs = self.subs.get(name, ()) or self.subs.get('*', ())
            self.count[name] = self.count.get(name, 0) + 1
            if not subs:
                return f(*args, **kwargs)
            ev = Event()
            ev.name = name
            ev.depth = self.depth
            ev.args = [snap(a) for a in args]
            ev.kwargs = {k: snap(v) for k, v in kwargs.items()}
            ev.live_args, ev.live_kwargs = args, kwargs
            ev.exc = None
            ev.ret = None
            try:
                b = sig.bind(*ev.args, **ev.kwargs)
                b.apply_defaults()
                ev.bound = dict(b.arguments)
            except TypeError:
                ev.bound = {}
            self.depth += 1
            try:
                ev.ret = f(*args, **kwargs)
                return ev.ret
            except Exception as e:
                ev.exc = e
                raise
            finally:
                self.depth -= 1
                self.on = False
                try:
                    for cb in list(self.subs.get(name, ())) + list(self.subs.get('*', ())):
                        cb(ev)
                finally:
                    self.on = True
        return wrapper

    def respell(self, name, sig, f, args, kwargs):
        '''Calls of the workload in other words: arguments that have their
        documented default left out, arguments by keyword or by position.'''
        if self.spelling.random() < 0.08:
            self.decoy(f, args, kwargs)
        n = self.spelling.randrange(3)
        if n == 0:
            return f(*args, **kwargs)
        try:
            b = sig.bind(*args, **kwargs)
        except TypeError:
            return f(*args, **kwargs)
        if n == 1:
            keep = {}
            for k, v in b.arguments.items():
                d = sig.parameters[k].default
                if d is inspect.Parameter.empty or not same_default(v, d):
                    keep[k] = v
            return f(**keep)
        b.apply_defaults()
        return f(*b.args)

    def decoy(self, f, args, kwargs):
        '''Another call just before the one that is judged, with numbers close
        to its own, or in the same arrays with other contents: what a function
        remembers from one call must not show in the next.'''
        rnd = self.spelling
        inplace = rnd.randrange(2)
        size = 10.0**rnd.uniform(-13, -5 if rnd.randrange(2) else -0.5)
        saved = []

        def other(v):
            if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.size:
                new = v*(1 + size*np.sin(rnd.random()*6 + np.arange(v.size)).reshape(v.shape))
                if v.ndim == 2 and v.shape[0] == 6:
                    new[1] = np.where(v[1] == 1, 1, new[1])
                if inplace and v.flags.writeable and v.flags.owndata:
                    saved.append((v, v.copy()))
                    v[...] = new
                    return v
                return new.astype(v.dtype)
            if type(v) is float and np.isfinite(v):
                return v*(1 + size*rnd.uniform(-1, 1))
            return v
        on, self.on = self.on, False
        try:
            with np.errstate(all='ignore'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                f(*[other(a) for a in args], **{k: other(v) for k, v in kwargs.items()})
        except Exception:
            pass
        finally:
            self.on = on
            for v, old in saved:
                v[...] = old

    def subscribe(self, names, cb):
        for n in ([names] if isinstance(names, str) else names):
            self.subs.setdefault(n, []).append(cb)

    @contextlib.contextmanager
    def paused(self):
        old, self.on = self.on, False
        try:
            yield
        finally:
            self.on = old


# ------------------------------------------------------------ poisoned memory

class Poison:
    '''np.empty and np.empty_like hand out memory filled with a pattern, so
    that a value that is never written is visible: the same call under two
    patterns must give the same result.'''
    real_empty = np.empty
    real_like = np.empty_like

    def __init__(self, pattern):
        self.pattern = pattern
        self.allocs = 0

    def _fill(self, a):
        self.allocs += 1
        try:
            if a.dtype.kind == 'f' or a.dtype.kind == 'c':
                a.fill(self.pattern)
            elif a.dtype.kind == 'b':
                a.fill(bool(int(abs(self.pattern)) % 2) if np.isfinite(self.pattern) else True)
            elif a.dtype.kind in 'iu':
                a.fill(int(abs(self.pattern)) % 97 if np.isfinite(self.pattern) else 55)
        except Exception:
            pass
        return a

    def __enter__(self):
        def empty(*a, **k):
            return self._fill(Poison.real_empty(*a, **k))

        def empty_like(*a, **k):
            return self._fill(Poison.real_like(*a, **k))
        np.empty = empty
        np.empty_like = empty_like
        return self

    def __exit__(self, *exc):
        np.empty = Poison.real_empty
        np.empty_like = Poison.real_like


# -------------------------------------------------------------- line tracing

class BudgetExceeded(Exception):
    pass


class Trace:
    '''Calls back on every executed line of the library (logical steps).'''

    def __init__(self, on_line=None, budget=None):
        self.on_line = on_line
        self.budget = budget
        self.lines = 0
        self.root = os.path.join(REPO, 'pyorb') + os.sep

    def _local(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            if self.budget is not None and self.lines > self.budget:
                raise BudgetExceeded(f'{self.lines} lines executed')
            if self.on_line is not None:
                self.on_line(frame)
        elif event == 'return' and self.on_line is not None:
            self.on_line(frame)
        return self._local

    def _global(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(self.root) or os.path.realpath(fn).startswith(self.root):
            return self._local
        return None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.old)


def fingerprint(a):
    if isinstance(a, np.ndarray):
        return (a.shape, a.strides, str(a.dtype), a.flags.writeable, a.tobytes())
    if isinstance(a, dict):
        return tuple(sorted((k, repr(v)) for k, v in a.items()))
    if isinstance(a, list):
        return tuple(repr(v) for v in a)
    return repr(a)
