'''O01-O14: the orbit object, observed along random histories.'''
import copy
import pickle
import itertools
import re

import numpy as np

from . import gen, inst, oracle as O
from . import orb as W
from .base import ANOMS, Check, arr
from .fn_conv import ILL, c2k_domain, sub
from .orb import Gen, Obs, apply, bits, describe, good, kin, kout, make, select, state_diff

LD = O.LD


class Hist(Check):
    '''A check whose cases are seeded histories.'''
    quick, deep = 200, 4000
    kinds = ('history',)

    def cases(self):
        rng = self.ctx.rng('histories')
        for b in range(self.ctx.n(self.quick, self.deep)):
            yield dict(kind=self.kinds[b % len(self.kinds)], seed=int(rng.integers(2**31)))

    def execute(self, case):
        self.log = []
        rng = np.random.default_rng(case['seed'])
        getattr(self, 'do_' + case['kind'])(rng)

    def note(self, *a):
        self.log.append(a if len(a) > 1 else a[0])

    def tail(self, k=8):
        return [describe(d) if isinstance(d, dict) else d for d in self.log[-k:]]

    def judged(self, *arrays):
        self.ctx.judged(b''.join(np.asarray(a, dtype=float).tobytes() for a in arrays))


def near(a, b, rtol):
    a, b = np.asarray(a, dtype=LD), np.asarray(b, dtype=LD)
    with np.errstate(all='ignore'):
        return a.shape == b.shape and bool(np.all((np.abs(a - b) <= rtol*np.maximum(np.abs(a), np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))))


def kep_same(k1, k2, deg, tol):
    '''Largest difference of two element arrays, angles modulo a turn (the
    anomaly of unbound orbits is signed), sizes relative.'''
    k1, k2 = O.ld(k1), O.ld(k2)
    turn = 360 if deg else O.TWOPI
    u = O.PI/180 if deg else 1
    with np.errstate(all='ignore'):
        d = [np.abs(k1[0]/k2[0] - 1), np.abs(k1[1] - k2[1]), np.abs(k1[2] - k2[2])*u]
        for r in (3, 4, 5):
            d.append(np.abs(O.wrap_diff(k1[r], k2[r], turn))*u)
        d = np.max(d, axis=0)
    return np.asarray(np.where(np.isnan(k1).any(0) & np.isnan(k2).any(0), 0, d), dtype=float)


# ------------------------------------------------------------------ O01

class O01(Hist):
    rule = ('one case is one orbit of an object at one point of a random history of operations (assignments of every kind, '
            'additions, deletions, selections, type changes, propagation, mass changes followed by a request, mode switches, '
            'reads, copies); it counts when its elements and its state were compared through the reference; distinct by value')
    assumptions = ['automatic updating is on; after a change of mass or G a calculation is requested explicitly, as documented',
                   'histories keep orbits well conditioned (tolerance 1e-5); wild elements are judged after one assignment with '
                   'the conditioning bound of the conversion']
    quick, deep = 900, 9000
    kinds = ('history', 'history', 'wild', 'history', 'str', 'components')

    def setup(self):
        for k in ('op ' + x for x in ('kepler', 'elem', 'cartesian', 'row', 'part', 'velocity', 'anomaly', 'period', 'mean_motion', 'equinoctial', 'type',
                                      'propagate', 'mass', 'recalc', 'read', 'add', 'delete', 'update', 'subset', 'copy', 'mode')):
            self.ctx.need(k, 20)
        self.ctx.need('mode direct2', 10)
        for k in ('state compared', 'mode direct', 'mode lazy', 'hyperbolic', 'wild compared', 'printed', 'component by component'):
            self.ctx.need(k, 30)

    def judge(self, ob, wild=False):
        ctx = self.ctx
        ctx.check(ob.kep.shape == (6, ob.num) and ob.cart.shape == (6, ob.num) and ob.len == ob.num and ob.m.shape == (ob.num,), 'shape',
                  'arrays of an object do not have its number of orbits', kep=ob.kep.shape, cart=ob.cart.shape, m=ob.m.shape, num=ob.num)
        if not near(ob.kep, ob.kep2, 1e-9) or not near(ob.cart, ob.cart2, 1e-9):
            ctx.violate('read order', 'elements and state depend on which is read first', kep_first=ob.kep, kep_second=ob.kep2,
                        cart_second=ob.cart, cart_first=ob.cart2, log=self.tail())
        fk, fc = np.all(np.isfinite(ob.kep), axis=0), np.all(np.isfinite(ob.cart), axis=0)
        part = (np.isnan(ob.kep).any(0) & ~np.isnan(ob.kep).all(0)) | (np.isnan(ob.cart).any(0) & ~np.isnan(ob.cart).all(0))
        ctx.check(np.all((fk == fc) | part), 'defined', 'an orbit has elements but no state, or a state but no elements', kep=ob.kep, cart=ob.cart, log=self.tail())
        ok = fk & fc
        if not ok.any():
            return
        k, c, mu = ob.kt()[:, ok], ob.cart[:, ok], ob.mu[ok]
        val = O.kep_valid(k, mu)
        x = O.kep_state(np.where(val, k, 0.5), mu)
        if not wild:
            g = good(c, mu) | good(x, mu)
            err = np.where(val, state_diff(x, c), np.inf)
            ctx.within('state', err, W.TOL, 'the state is not that of the elements', skip=~g,
                       elements=lambda n: ob.kep[:, ok][:, n], state_read=lambda n: c[:, n], mu=lambda n: float(mu[n]), type=ob.typ, degrees=ob.deg,
                       mode=ob.set, log=self.tail())
            ctx.count('state compared', np.sum(g))
            ctx.count('hyperbolic', np.sum(g & (k[1] > 1)))
            ctx.judged_cols(np.vstack([ob.kep[:, ok], c, mu[None]]).astype(float), g)
        return ok, k, c, mu, x, val

    def do_history(self, rng):
        ctx = self.ctx
        orb, L, mode = make(rng, self.pyorb)
        ctx.count('mode ' + mode)
        g = Gen(rng, L)
        self.note(dict(op='made', mode=mode, num=orb.num))
        ob = Obs(orb)
        self.judge(ob)
        allowed = W.ASSIGN_K + W.ASSIGN_C + W.STRUCT + W.OTHER + ['mode', 'read', 'type', 'propagate']
        if not orb.direct_update and rng.random() < 0.5:
            allowed = allowed + ['update_m']
        for step in range(int(rng.integers(6, 16))):
            d = g.op(ob, [a for a in allowed if a != 'update_m' or not orb.direct_update])
            self.note(d)
            orb = apply(orb, d)
            ctx.count('op ' + d['op'])
            ob = Obs(orb)
            self.judge(ob)
        ctx.sample(dict(history=self.tail(6)), cap=3)

    def do_wild(self, rng):
        '''Any elements, any state: one or two assignments and type changes.'''
        ctx = self.ctx
        num = W.size(rng, 1, 6)
        deg, typ = bool(rng.integers(2)), ANOMS[rng.integers(3)]
        mode = ['direct', 'lazy'][rng.integers(2)]
        ctx.count('mode ' + mode)
        G, M0 = float(rng.uniform(0.5, 2)), float(rng.uniform(0.5, 2))
        orb = self.pyorb.Orbit(M0, G=G, num=num, degrees=deg, type=typ, m=rng.uniform(0, 1, num), auto_update=True, direct_update=mode == 'direct')
        mu = O.ld(G)*(O.ld(M0) + orb.m)
        for _ in range(3):
            ks = np.array([gen.kep_col(rng, gen.ALL_E)[0] for _ in range(num)]).T
            ks[0] = 10**rng.uniform(-2, 2, num)
            val = O.kep_valid(ks, mu, margin=1e-2)
            if not val.all():
                continue
            if rng.random() < 0.6:
                k = kin(ks, orb.type, deg)
                # the value actually stored
                kt = kout(k, orb.type, deg)
                orb.kepler = k
                c = orb.cartesian
                y, t = O.anom_tol(orb.type, 'true', O.rad(k[5], deg), k[1], dx=8*O.EPS*np.abs(O.rad(k[5], deg)))
                x, tr, tv = O.kep_state_tol(kt, mu)
                far = np.array([kt[0], kt[1], kt[2], kt[3], kt[4], kt[5] + t])
                x2 = O.kep_state(far, mu)
                tr, tv = tr*3 + 2*O.norm(x2[:3] - x[:3]), tv*3 + 2*O.norm(x2[3:] - x[3:])
                rn, vn = O.norm(x[:3]), O.norm(x[3:])
                ill = ~((tr/rn < ILL) & (tv/vn < ILL))
                ctx.within('wild-position', O.norm(O.ld(c[:3]) - x[:3])/rn, tr/rn, 'position is not that of the assigned elements', skip=ill,
                           case_=lambda n: dict(kepler=k[:, n], type=orb.type, degrees=deg, mu=float(mu[n]), mode=mode))
                ctx.within('wild-velocity', O.norm(O.ld(c[3:]) - x[3:])/vn, tv/vn, 'velocity is not that of the assigned elements', skip=ill,
                           case_=lambda n: dict(kepler=k[:, n], type=orb.type, degrees=deg, mu=float(mu[n]), mode=mode))
                ctx.count('wild compared', np.sum(~ill))
                ctx.judged_cols(np.vstack([k, mu[None]]).astype(float), ~ill)
            else:
                c = np.asarray(O.kep_state(ks, mu), dtype=float)
                orb.cartesian = c
                k = orb.kepler
                kt = kout(k, orb.type, deg)
                ok, el = c2k_domain(c, mu)
                dang, da, de = O.c2k_errors(el)
                with np.errstate(all='ignore'):
                    amp = np.where(orb.type == 'true', 1, 1/np.abs(1 - el['e'])**1.5)
                    x, tr, tv = O.kep_state_tol(np.where(ok, kt, 0.5), mu, False, K=3.0, dang=dang*(1 + 1e-3*amp) + 1e-14*amp,
                                                da=np.where(np.abs(el['e'] - 1) < 1e-3, 16*O.EPS, da), de=de)
                lim = np.where(el['e'] < 1.1e-9, 4e-9, 0) + np.where(np.sin(el['i']) < 4e-9, 8e-9, 0)
                tr, tv = tr/el['rn'] + lim, tv/el['vn'] + lim
                near1 = (np.abs(el['e'] - 1) < 1e-3) & (orb.type != 'true')
                ill = ~((tr < ILL) & (tv < ILL) & ok & ~near1)
                ctx.within('wild-elements', state_diff(x, c), np.maximum(tr, tv), 'elements are not those of the assigned state', skip=ill,
                           case_=lambda n: dict(cartesian=c[:, n], type=orb.type, degrees=deg, mu=float(mu[n]), mode=mode))
                ctx.count('wild compared', np.sum(~ill))
                ctx.judged_cols(np.vstack([c, mu[None]]).astype(float), ~ill)

    def do_components(self, rng):
        '''Orbits that are set one component at a time.'''
        ctx = self.ctx
        orb, L, mode = make(rng, self.pyorb, fill=False)
        ctx.count('mode ' + mode)
        n = orb.num
        mu = O.ld(orb.G)*(O.ld(orb.M0) + orb.m)
        for rep in range(2):
            kt = W.rand_kep(rng, n, L)
            kind = ['kep', 'cart'][rng.integers(2)]
            names = W.KEP if kind == 'kep' else W.CART
            vals = kin(kt, orb.type, orb.degrees) if kind == 'kep' else np.asarray(O.kep_state(kt, mu), dtype=float)
            order = list(rng.permutation(6))
            parts = kind == 'cart' and rng.random() < 0.3
            look = rng.random() < 0.5
            if rep and kind == 'kep':
                order = [1] + [q for q in order if q != 1]
            if parts:
                order = [0, 3] if rng.random() < 0.5 else [3, 0]
            for q in order:
                if parts:
                    self.note(dict(op='part', row=int(q), value=vals[q:q + 3]))
                    setattr(orb, 'rv'[q//3], vals[q:q + 3].copy())
                else:
                    self.note(dict(op='component', name=names[q], value=vals[q]))
                    setattr(orb, names[q], float(vals[q, 0]) if n == 1 and rng.random() < 0.5 else vals[q].copy())
                if look and rng.random() < 0.4:
                    w = W.READS[rng.integers(12)]
                    self.note(dict(op='read', what=w))
                    getattr(orb, w)
                if rng.random() < 0.05:
                    orb.auto_update, orb.direct_update = W.MODES[['direct', 'lazy'][rng.integers(2)]]
            ob = Obs(orb)
            ctx.check(bool(np.isfinite(ob.kep).all() and np.isfinite(ob.cart).all()), 'components', 'an orbit given component by component is not defined',
                      kep=ob.kep, cart=ob.cart, log=self.tail(12))
            got = ob.kep if kind == 'kep' else ob.cart
            ctx.check(bits(got) == bits(vals), 'components', 'an orbit given component by component is not the one given', got=got, given=vals, log=self.tail(12))
            if np.isfinite(ob.kep).all() and np.isfinite(ob.cart).all():
                self.judge(ob)
                ctx.within('components', state_diff(ob.cart, O.kep_state(kt, mu)), W.TOL, 'an orbit given component by component has another state',
                           given=vals, kind=kind, log=self.tail(12))
            ctx.count('component by component', n)

    def do_str(self, rng):
        ctx = self.ctx
        orb, L, mode = make(rng, self.pyorb, num=1)
        g = Gen(rng, L)
        for _ in range(4):
            d = g.op(Obs(orb), W.ASSIGN_K + W.ASSIGN_C + ['propagate', 'type', 'mass'])
            self.note(d)
            orb = apply(orb, d)
            text = str(orb)
            ob = Obs(orb)
            want = [(n, v) for kn, kv, cn, cv in zip(W.KEP, ob.kep[:, 0], W.CART, ob.cart[:, 0]) for n, v in ((kn, kv), (cn, cv))]
            got = re.findall(r'(\w+)\s*:\s*([-+0-9.e]+|nan|inf)', text)
            got = {a: float(b) for a, b in got}
            for n, v in want:
                if n in got:
                    ctx.within('printed', abs(got[n] - v), 1e-3*abs(v) + 1e-300, 'printed element is not the current one', element=n, text=text, value=v, log=self.tail())
            ctx.count('printed', len(want))
            ctx.count('op ' + d['op'])


# ------------------------------------------------------------------ O02

class O02(Hist):
    rule = ('one case is one orbit of a lockstep group (immediate, deferred without reads, deferred with random reads, switched '
            'at random) at a comparison point of a random history; it counts when the group was compared; distinct by value')
    assumptions = O01.assumptions[:1] + ['well-conditioned orbits; twins differ by rounding of the conversions (tolerance 1e-5)']
    quick, deep = 600, 6000

    def setup(self):
        for k in ('compared', 'switched', 'switched with pending', 'reads', 'unread pending', 'long unread', 'immediate'):
            self.ctx.need(k, 60)

    def do_history(self, rng):
        ctx = self.ctx
        seed = int(rng.integers(2**31))
        def build(mode):
            r = np.random.default_rng(seed)
            return make(r, self.pyorb, mode=mode)[:2]
        A, L = build('direct')
        B, C, D = build('lazy')[0], build('lazy')[0], build(['direct', 'lazy', 'direct2'][rng.integers(3)])[0]
        g = Gen(rng, L)
        ops = W.ASSIGN_K + W.ASSIGN_C + ['add', 'delete', 'update', 'update', 'subset', 'copy', 'type', 'propagate', 'recalc', 'mass']
        if rng.random() < 0.7:
            ops = [o for o in ops if o not in ('mass', 'recalc')]     # those force reads
        pend = 0
        for step in range(int(rng.integers(4, 14))):
            d = g.op(Obs(A, False), ops)
            self.note(d)
            A, B, C, D = apply(A, d), apply(B, d), apply(C, d), apply(D, d)
            pend += d['op'] not in ('mass', 'recalc', 'propagate')
            if pend > 3:
                ctx.count('long unread')
            if rng.random() < 0.6:
                rd = g.g_read(Obs(A, False))
                rd['op'] = 'read'
                self.note(dict(rd, by='C'))
                apply(C, rd)
                ctx.count('reads')
            if rng.random() < 0.5:
                to = ['direct', 'lazy', 'direct2'][rng.integers(3)]
                if not D.direct_update:
                    ctx.count('switched with pending')
                self.note(dict(op='mode', value=to, by='D'))
                D.auto_update, D.direct_update = W.MODES[to]
                ctx.count('switched')
            if rng.random() < 0.5:
                self.compare(A, B, C, D)
                ctx.count('unread pending')
        self.compare(A, B, C, D)
        ctx.sample(dict(history=self.tail(6)), cap=3)

    def compare(self, A, *others):
        ctx = self.ctx
        a = Obs(A)
        # immediate means already done: without any automatic update there
        # is nothing left to convert
        o = copy.deepcopy(A)
        o.auto_update, o.direct_update = W.MODES['manual']
        k, c = o.kepler, o.cartesian
        fin = np.isfinite(k).all(axis=0) & np.isfinite(c).all(axis=0) & np.isfinite(a.kep).all(axis=0) & np.isfinite(a.cart).all(axis=0)
        ctx.check(near(k[:, fin], a.kep[:, fin], 1e-9) and near(c[:, fin], a.cart[:, fin], 1e-9), 'immediate', 'an immediate update was put off', elements=[k, a.kep], state=[c, a.cart], log=self.tail(14))
        ctx.count('immediate', np.sum(fin))
        g = good(np.where(np.isfinite(a.cart), a.cart, 1), a.mu)
        for nm, X in zip(('deferred', 'deferred with reads', 'switched'), others):
            x = Obs(X)
            if not ctx.check(x.num == a.num and x.typ == a.typ, 'size', f'{nm}: number of orbits or type differ', got=x.num, want=a.num, log=self.tail()):
                return
            for c, k in ((x.cart, x.kep), (x.cart2, x.kep2)):
                ctx.check(bool(np.all(np.isnan(c) == np.isnan(a.cart))), 'defined', f'{nm}: other orbits are defined than with immediate updating', got=c, want=a.cart, log=self.tail())
                ctx.within(nm, state_diff(c, a.cart), W.TOL, f'{nm}: another state than with immediate updating', skip=~g,
                           immediate=lambda n: [a.kep[:, n], a.cart[:, n]], other=lambda n: [k[:, n], c[:, n]], type=a.typ, degrees=a.deg, log=self.tail(14))
                ctx.within(nm + ' elements', kep_same(k, a.kep, a.deg, 1), W.TOL*10, f'{nm}: other elements than with immediate updating', skip=~g,
                           immediate=lambda n: [a.kep[:, n], a.cart[:, n]], other=lambda n: [k[:, n], c[:, n]], type=a.typ, degrees=a.deg, log=self.tail(14))
            ctx.check(near(x.m, a.m, 1e-14), 'mass', f'{nm}: masses differ', log=self.tail())
        ctx.count('compared', a.num)
        ctx.judged_cols(np.vstack([a.kep, a.cart]).astype(float), g)


# ------------------------------------------------------------------ O03

class O03(Hist):
    rule = ('one case is one operation on an object with both automatic modes off; it counts when elements, states and masses of all '
            'orbits were compared bit for bit with what the operation may change, and requested conversions with the reference; distinct by value')
    assumptions = ['the anomaly, period, mean motion, speed and equinoctial assignments act on the stored elements of their own kind']
    quick, deep = 800, 8000

    def setup(self):
        for k in ('calculate_cartesian', 'calculate_kepler', 'partial selection', 'inconsistent kinds', 'reads', 'assign kep', 'assign cart', 'type', 'propagate',
                  'add', 'delete', 'update', 'converted', 'conversion of undefined'):
            self.ctx.need(k, 40)

    def do_history(self, rng):
        ctx = self.ctx
        orb, L, mode = make(rng, self.pyorb, num=W.size(rng, 1, 6))
        if rng.random() < 0.6:
            # elements and states of different orbits
            orb.auto_update, orb.direct_update = W.MODES['manual']
            kt = W.rand_kep(rng, orb.num, L)
            orb.kepler = kin(kt, orb.type, orb.degrees)
            mu = O.ld(orb.G)*(O.ld(orb.M0) + orb.m)
            orb.cartesian = np.asarray(O.kep_state(W.rand_kep(rng, orb.num, L), mu), dtype=float)
        else:
            orb.kepler, orb.cartesian
            orb.auto_update, orb.direct_update = W.MODES['manual']
        g = Gen(rng, L)
        for step in range(int(rng.integers(6, 16))):
            self.step(orb, g, rng)
        ctx.sample(dict(history=self.tail(6)), cap=3)

    def step(self, orb, g, rng):
        ctx = self.ctx
        p = Obs(orb)
        ctx.check(bits(p.kep) == bits(p.kep2) and bits(p.cart) == bits(p.cart2), 'read', 'reading changed the elements', log=self.tail())
        if p.num and not np.isnan(p.kep).any() and not np.isnan(p.cart).any():
            x = p.state()
            if np.any(state_diff(x, p.cart) > 1e-3):
                ctx.count('inconsistent kinds')
        name = ['assign kep', 'assign kep', 'assign cart', 'assign cart', 'calc', 'calc', 'calc', 'read', 'type', 'propagate', 'add', 'delete', 'update', 'm', 'nan'][rng.integers(15)]
        K, C, m = p.kep.copy(), p.cart.copy(), p.m.copy()
        fk = slice(None)
        frees = []          # rows of kep / cart judged otherwise
        fin = np.isfinite(p.kep).all() and np.isfinite(p.cart).all()
        if name == 'calc':
            which = ['cartesian', 'kepler'][rng.integers(2)]
            sel, ks = select(rng, p.num)
            sel = W.fix_empty(sel)
            self.note(dict(op='calculate_' + which, sel=sel))
            if rng.random() < 0.2 and p.num:
                getattr(orb, 'calculate_' + which)()
                ks = list(range(p.num))
            else:
                getattr(orb, 'calculate_' + which)(sel)
            ctx.count('calculate_' + which)
            if 0 < len(ks) < p.num:
                ctx.count('partial selection')
            q = Obs(orb)
            ks = np.array(sorted(set(ks)), dtype=int)
            src, dst0, dst1 = (p.kep, p.cart, q.cart) if which == 'cartesian' else (p.cart, p.kep, q.kep)
            s0, s1 = (p.kep, q.kep) if which == 'cartesian' else (p.cart, q.cart)
            ctx.check(bits(s0) == bits(s1), 'source kept', 'a requested conversion changed its source', before=s0, after=s1, log=self.tail())
            rest = np.array([n for n in range(p.num) if n not in set(ks.tolist())], dtype=int)
            ctx.check(bits(dst0[:, rest]) == bits(dst1[:, rest]), 'unselected', 'a requested conversion changed orbits that were not selected',
                      selected=ks, before=dst0, after=dst1, log=self.tail())
            und = np.array([k for k in ks if np.isnan(src[:, k]).any()], dtype=int)
            ctx.count('conversion of undefined', len(und))
            ks = np.array([k for k in ks if not np.isnan(src[:, k]).any()], dtype=int)
            if len(ks):
                if which == 'cartesian':
                    x = O.kep_state(kout(src[:, ks], p.typ, p.deg), p.mu[ks])
                    err = state_diff(dst1[:, ks], x)
                    gd = good(x, p.mu[ks])
                else:
                    with np.errstate(all='ignore'):
                        x = O.kep_state(kout(dst1[:, ks], p.typ, p.deg), p.mu[ks])
                    err = state_diff(x, src[:, ks])
                    gd = good(src[:, ks], p.mu[ks])
                ctx.within('converted', err, W.TOL, 'a requested conversion is not that of the current source elements', skip=~gd,
                           source=lambda n: src[:, ks][:, n], result=lambda n: dst1[:, ks][:, n], which=which, log=self.tail())
                ctx.count('converted', np.sum(gd))
            self.judged(K, C, q.kep, q.cart)
            ctx.check(bits(q.m) == bits(p.m), 'mass', 'a requested conversion changed masses', log=self.tail())
            return
        if name == 'read':
            what = [str(x) for x in rng.choice(W.READS, 4)] + ['str', 'len', 'iter', 'copy'][:int(rng.integers(5))]
            self.note(dict(op='read', what=what))
            for w in what:
                if w == 'str':
                    str(orb)
                elif w == 'len':
                    len(orb), orb.num
                elif w == 'iter':
                    for o in orb:
                        o.kepler, o.cartesian
                elif w == 'copy':
                    orb.copy().kepler
                else:
                    getattr(orb, w)
            ctx.count('reads')
        elif name == 'm':
            self.note(dict(op='set mass'))
            m = np.asarray(rng.uniform(0, 0.5, p.num)*p.M0, dtype=float)
            orb.m[:] = m
        elif name == 'nan':
            if p.num == 0 or rng.random() < 0.6:
                return
            k, r = int(rng.integers(p.num)), int(rng.integers(6))
            self.note(dict(op='nan', col=k, row=r))
            if rng.random() < 0.5:
                K[r, k] = np.nan
                orb.kepler = K.copy()
            else:
                C[r, k] = np.nan
                orb.cartesian = C.copy()
        elif name in ('assign kep', 'assign cart', 'type', 'propagate'):
            allowed = dict([('assign kep', W.ASSIGN_K), ('assign cart', W.ASSIGN_C), ('type', ['type']), ('propagate', ['propagate'])])[name]
            d = g.op(p, allowed)
            if d['op'] == 'read':
                return
            self.note(d)
            e = expect(p, d)
            apply(orb, d)
            ctx.count(name)
            q = Obs(orb)
            if e['kind'] == 'kep':
                ctx.check(bits(q.cart) == bits(p.cart), 'other kind', 'an assignment of elements changed the state with automatic updates off', before=p.cart, after=q.cart, log=self.tail())
                judge_kind(ctx, 'assigned', q.kep, e, p, q, self.tail)
            else:
                ctx.check(bits(q.kep) == bits(p.kep), 'other kind', 'an assignment of the state changed the elements with automatic updates off', before=p.kep, after=q.kep, log=self.tail())
                judge_kind(ctx, 'assigned', q.cart, e, p, q, self.tail)
            ctx.check(bits(q.m) == bits(p.m), 'mass', 'an assignment changed masses', log=self.tail())
            self.judged(q.kep, q.cart)
            return
        elif name in ('add', 'delete', 'update'):
            d = g.op(p, [name] if name != 'update' else ['update', 'update_m'])
            if d['op'] == 'read':
                return
            self.note(d)
            apply(orb, d)
            ctx.count(name)
            if name == 'add':
                new = np.full((6, d['num']), np.nan)
                K = np.hstack([K, d['full'] if d['kind'] == 'kep' else new])
                C = np.hstack([C, d['full'] if d['kind'] == 'cart' else new])
                m = np.concatenate([m, np.broadcast_to(d.get('m', 0.0), (d['num'],))])
            elif name == 'delete':
                keep = [n for n in range(p.num) if n not in set(d['ks'])]
                K, C, m = K[:, keep], C[:, keep], m[keep]
            else:
                T = K if d['kind'] == 'kep' else C
                for r in d['rows']:
                    T[r, d['ks']] = d['full'][r]
                if 'm' in d:
                    m[d['ks']] = d['m']
        q = Obs(orb)
        ctx.check(bits(q.kep) == bits(K), 'elements', f'{name}: other elements than assigned, with automatic updates off', want=K, got=q.kep, log=self.tail())
        ctx.check(bits(q.cart) == bits(C), 'state', f'{name}: another state than assigned, with automatic updates off', want=C, got=q.cart, log=self.tail())
        ctx.check(bits(q.m) == bits(m), 'mass', f'{name}: other masses than assigned', want=m, got=q.m, log=self.tail())
        self.judged(q.kep, q.cart)


# ---------------------------------------------------- expected assignments

def expect(p, d):
    '''What an assignment makes of the kind it assigns to.

    exact: array with the rows that must read back bit for bit;
    rows: those rows; kept: rows that must not change; state / value checks
    for the rest.'''
    op = d['op']
    n = p.num
    if op in ('kepler', 'kepler6', 'cartesian', 'cartesian6'):
        v = np.asarray(d['value'], dtype=float)
        v = np.repeat(v[:, None], n, axis=1) if v.ndim == 1 else v
        return dict(kind='kep' if op.startswith('k') else 'cart', rows=range(6), exact=v, kept=[])
    if op in ('elem', 'row'):
        v = np.zeros((6, n))
        v[d['row']] = d['value']
        return dict(kind='kep' if op == 'elem' else 'cart', rows=[d['row']], exact=v, kept=[r for r in range(6) if r != d['row']])
    if op == 'part':
        s = [0, 1, 2] if d['part'] == 'r' else [3, 4, 5]
        v = np.zeros((6, n))
        v[s] = d['value']
        return dict(kind='cart', rows=s, exact=v, kept=[r for r in range(6) if r not in s])
    if op == 'velocity':
        return dict(kind='cart', rows=[], kept=[0, 1, 2], speed=np.broadcast_to(d['value'], (n,)), dirn=p.cart[3:])
    if op == 'anomaly':
        return dict(kind='kep', rows=[], kept=range(5), anom=(d['which'], d['value']))
    if op in ('period', 'mean_motion'):
        P = np.broadcast_to(O.ld(d['value']), (n,))
        if op == 'mean_motion':
            P = (360 if p.deg else O.TWOPI)/P
        return dict(kind='kep', rows=[], kept=range(1, 6), axis=np.cbrt(p.mu*(P/O.TWOPI)**2), back=(op, d['value']))
    if op == 'equinoctial':
        q = np.asarray(d['value'], dtype=float)
        q = q[:, None] if q.ndim == 1 else q
        q = np.repeat(q, n, axis=1) if q.shape[1] == 1 and n > 1 else q
        return dict(kind='kep', rows=[], kept=[], equi=q)
    if op == 'type':
        return dict(kind='kep', rows=[], kept=range(5), moved=0.0, typ=d['typ'])
    if op == 'propagate':
        return dict(kind='kep', rows=[], kept=range(5), moved=d['value'])
    raise KeyError(op)


def judge_kind(ctx, mech, got, e, p, q, tail, frame=0.0):
    '''The kind an assignment acts on, after it.  frame: tolerance for rows
    that must stay (0: bit for bit).'''
    pre = p.kep if e['kind'] == 'kep' else p.cart
    for r in e['rows']:
        ctx.check(bits(got[r]) == bits(np.asarray(e['exact'][r], dtype=got.dtype)), mech, 'does not read back as assigned', row=r, want=e['exact'][r], got=got[r], log=tail())
    for r in e['kept']:
        same = bits(got[r]) == bits(pre[r]) if frame == 0 else near(got[r], pre[r], frame)
        ctx.check(same, mech + ' frame', 'an element that was not assigned changed', row=r, kind=e['kind'], before=pre[r], after=got[r], log=tail())
    fin = np.all(np.isfinite(q.kep if e['kind'] == 'kep' else q.cart), axis=0)
    if 'speed' in e:
        v = np.asarray(got[3:], dtype=LD)
        ctx.within('speed', np.abs(O.norm(v)/e['speed'] - 1), 1e-13, 'speed does not read back as assigned', skip=~fin, log=tail())
        ctx.within('direction', O.norm(v/O.norm(v) - O.ld(e['dirn'])/O.norm(e['dirn'])), 1e-13 if frame == 0 else 1e-9, 'assigning the speed changed the direction of motion', skip=~fin, log=tail())
    if 'axis' in e:
        ctx.within('axis', np.abs(O.ld(got[0])/e['axis'] - 1), 1e-13, 'semi-major axis is not that of the assigned period', skip=~fin, got=got[0], want=e['axis'], log=tail())
    if 'anom' in e:
        which, v = e['anom']
        k = kout(q.kep, q.typ, q.deg)
        want = O.convert(which, 'true', O.rad(v, q.deg), O.ld(q.kep[1]))
        ctx.within('anomaly', np.abs(O.wrap_diff(k[5], want)), 1e-8/np.abs(1 - O.ld(q.kep[1])), 'anomaly does not read back as assigned', skip=~fin, which=which, type=q.typ, value=v, stored=q.kep[5], log=tail())
    if 'equi' in e:
        x = O.equi_state(e['equi'], p.mu, p.deg, mean=True)
        ctx.within('equinoctial', state_diff(q.state(), x), 1e-6, 'equinoctial elements do not read back as assigned', skip=~fin, want=e['equi'], stored=q.kep, type=q.typ, log=tail())
    if 'moved' in e:
        kp = p.kt()
        with np.errstate(all='ignore'):
            M = O.convert('true', 'mean', kp[5], kp[1]) + np.sqrt(p.mu/kp[0]**3)*e['moved']
            want = O.convert('mean', 'true', M, kp[1])
        kq = q.kt()
        with np.errstate(all='ignore'):
            tol = 1e-8/np.abs(1 - O.ld(q.kep[1]))**2
        ctx.within('anomaly', np.abs(O.wrap_diff(kq[5], want)), tol, 'wrong anomaly', skip=~fin, type=[p.typ, q.typ], before=p.kep, after=q.kep, dt=e['moved'], log=tail())
    if 'typ' in e:
        ctx.check(q.typ == e['typ'], 'type', 'anomaly type is not the assigned one', got=q.typ, want=e['typ'])


# ------------------------------------------------------------------ O04

class O04(Hist):
    rule = ('one case is one assignment at a random point of a random history (both updating modes, any pending work, any anomaly type); it '
            'counts when the assigned quantity, the other elements of its kind and the re-derived kind were compared; distinct by value')
    assumptions = O01.assumptions[:1] + ['well-conditioned orbits; other elements of the kind may move by 1e-9 when they had to be converted first']
    quick, deep = 800, 9000

    def setup(self):
        for k in ('kepler', 'kepler6', 'elem', 'anomaly', 'period', 'mean_motion', 'equinoctial', 'cartesian', 'cartesian6', 'row', 'part', 'velocity'):
            self.ctx.need('assigned ' + k, 40)
        for k in ('pending other kind', 'pending same kind', 'nothing pending', 'lazy', 'direct', 'constructor', 'update', 'element set via update'):
            self.ctx.need(k, 40)

    def do_history(self, rng):
        ctx = self.ctx
        orb, L, mode = make(rng, self.pyorb)
        g = Gen(rng, L)
        ctx.count('constructor')
        self.note(dict(op='made', mode=mode))
        for step in range(int(rng.integers(4, 10))):
            # something that leaves work pending, or not
            pre = rng.integers(6)
            last = None
            if pre <= 3:
                d = g.op(Obs(orb, False), [W.ASSIGN_K, W.ASSIGN_C, ['type', 'propagate', 'copy', 'mode', 'subset'], ['add', 'delete', 'update']][pre])
                self.note(d)
                orb = apply(orb, d)
                last = d['op']
            elif pre == 4:
                orb.kepler, orb.cartesian
                ctx.count('nothing pending')
            ctx.count('direct' if orb.direct_update else 'lazy')
            p = Obs(orb)
            if p.num == 0:
                continue
            if rng.random() < 0.2:
                d = g.op(p, ['update'] if orb.direct_update else ['update', 'update_m'])
            else:
                d = g.op(p, W.ASSIGN_K + W.ASSIGN_C)
            if d['op'] == 'read':
                continue
            self.note(d)
            mine = d.get('kind') or expect(p, d)['kind']
            if last and not orb.direct_update:
                if last in W.ASSIGN_K:
                    ctx.count('pending same kind' if mine == 'kep' else 'pending other kind')
                elif last in W.ASSIGN_C:
                    ctx.count('pending same kind' if mine == 'cart' else 'pending other kind')
            # what is read directly after, in the object itself or in copies
            orb = apply(orb, d)
            q = Obs(orb)
            if d['op'].startswith('update'):
                ctx.count('update')
                if len(d['rows']) == 6:
                    ctx.count('element set via update')
                got = q.kep if d['kind'] == 'kep' else q.cart
                prek = p.kep if d['kind'] == 'kep' else p.cart
                for r in range(6):
                    if r in d['rows']:
                        ctx.check(bits(got[r, d['ks']]) == bits(d['full'][r]), 'assigned', 'update: does not read back as assigned', row=r, want=d['full'][r], got=got[r, d['ks']], log=self.tail())
                    else:
                        ctx.check(near(got[r, d['ks']], prek[r, d['ks']], 1e-9), 'assigned frame', 'update: an element that was not given changed', row=r, log=self.tail())
                if 'm' in d:
                    ctx.check(bits(q.m[d['ks']]) == bits(d['m']), 'mass', 'update: mass does not read back as assigned', log=self.tail())
            else:
                e = expect(p, d)
                judge_kind(ctx, 'assigned', q.kep if e['kind'] == 'kep' else q.cart, e, p, q, self.tail, frame=1e-9)
                ctx.check(bits(q.m) == bits(p.m), 'mass', 'an assignment changed masses', log=self.tail())
                ctx.count('assigned ' + d['op'])
            self.readback(orb, d, q)
            # the other kind follows
            g_ = good(q.cart, q.mu) if np.isfinite(q.cart).all() else np.zeros(q.num, bool)
            if np.isfinite(q.kep).all():
                ctx.within('derived', state_diff(q.state(), q.cart), W.TOL, 'the other kind does not follow an assignment', skip=~g_, log=self.tail(), kep=q.kep, cart=q.cart, type=q.typ)
                ctx.within('derived when read first', state_diff(kout_state(q, q.kep2), q.cart2), W.TOL, 'the other kind does not follow an assignment', skip=~g_, log=self.tail())
            ctx.check({k: v for k, v in q.set.items()} == p.set, 'settings', 'an assignment changed settings', before=p.set, after=q.set, log=self.tail())
            self.judged(q.kep, q.cart)
        ctx.sample(dict(history=self.tail(6)), cap=3)

    def readback(self, orb, d, q):
        '''The quantity itself, read by its own name.'''
        ctx = self.ctx
        o = copy.deepcopy(orb)
        if d['op'] == 'elem':
            got = getattr(o, W.KEP[d['row']])
            ctx.check(bits(got) == bits(np.broadcast_to(d['value'], (q.num,)).astype(float)), 'read back', 'element does not read back as assigned', got=got, want=d['value'], log=self.tail())
        elif d['op'] == 'row':
            got = getattr(o, W.CART[d['row']])
            ctx.check(bits(got) == bits(np.broadcast_to(d['value'], (q.num,)).astype(float)), 'read back', 'coordinate does not read back as assigned', got=got, want=d['value'], log=self.tail())
        elif d['op'] == 'part':
            got = getattr(o, d['part'])
            ctx.check(bits(got) == bits(np.asarray(d['value'], dtype=float)), 'read back', 'vector does not read back as assigned', got=got, want=d['value'], log=self.tail())
        elif d['op'] in ('period', 'mean_motion', 'velocity'):
            got = getattr(o, d['op'])
            ctx.within('read back ' + d['op'], np.abs(O.ld(got)/O.ld(d['value']) - 1), 1e-12, d['op'] + ' does not read back as assigned', got=got, want=d['value'], log=self.tail())
            if d['op'] == 'velocity':
                ctx.within('read back speed', np.abs(O.ld(o.speed)/O.ld(d['value']) - 1), 1e-5, 'speed does not follow the assigned velocity', got=o.speed, want=d['value'], log=self.tail())
        elif d['op'] == 'anomaly':
            got = getattr(o, W.ANOM_ATTR[d['which']])
            turn = 360 if q.deg else O.TWOPI
            e = O.ld(q.kep[1])
            dd = O.ld(got) - O.ld(d['value'])
            dd = np.where((e < 1) | (d['which'] == 'true'), O.wrap_diff(got, d['value'], turn), dd)
            ctx.within('read back anomaly', np.abs(dd), 1e-8/np.abs(1 - e)**1.5*(57 if q.deg else 1)*(1 + np.abs(O.ld(d['value']))), 'anomaly does not read back as assigned', got=got, want=d['value'], which=d['which'], type=q.typ, log=self.tail())
        elif d['op'] == 'equinoctial':
            got = O.ld(o.equinoctial).reshape(6, -1)
            want = np.broadcast_to(O.ld(d['value']).reshape(6, -1), got.shape)
            turn = 360 if q.deg else O.TWOPI
            ctx.within('read back equinoctial', np.max(np.abs(got[:5] - want[:5])/np.array([want[0]] + [np.ones(q.num)]*2 + [1 + np.hypot(want[3], want[4])]*2), axis=0), 1e-9, 'equinoctial elements do not read back as assigned', got=got, want=want, log=self.tail())
            ctx.within('read back longitude', np.abs(O.wrap_diff(got[5], want[5], turn)), 1e-7*turn, 'mean longitude does not read back as assigned', got=got, want=want, log=self.tail())


def kout_state(q, k):
    return O.kep_state(kout(k, q.typ, q.deg), q.mu)


# ------------------------------------------------------------------ O05

class O05(Hist):
    rule = ('one case is one change of anomaly type (or one refused name) of an object at a random point of a history; it counts when '
            'position, velocity, the five other elements and the three anomalies were compared before and after; distinct by value')
    assumptions = ['well-conditioned orbits (including parabolas given as elements)']
    quick, deep = 800, 9000

    def setup(self):
        for a, b in itertools.product(ANOMS, ANOMS):
            self.ctx.need(f'{a} to {b}', 30)
        for k in ('back again', 'refused name', 'case', 'hyperbolic', 'parabolic', 'pending cart', 'pending kep', 'anomalies', 'constructor refused'):
            self.ctx.need(k, 20)

    def do_history(self, rng):
        ctx = self.ctx
        par = rng.random() < 0.2
        orb, L, mode = make(rng, self.pyorb, kinds=('ell', 'par', 'hyp') if par else ('ell', 'ell', 'hyp'), via='kepler' if par else None)
        g = Gen(rng, L)
        for step in range(int(rng.integers(3, 8))):
            if not par and rng.random() < 0.7:
                d = g.op(Obs(orb, False), W.ASSIGN_C + W.ASSIGN_K + ['propagate', 'mode', 'copy', 'add', 'update'])
                self.note(d)
                orb = apply(orb, d)
                if not orb.direct_update:
                    ctx.count('pending cart' if d['op'] in W.ASSIGN_C else 'pending kep')
            p = Obs(orb)
            if p.num == 0:
                return
            t = ANOMS[rng.integers(3)]
            if rng.random() < 0.2:
                bad = ['', 'foo', 'truee', 'm', 'mean anomaly', 'Eccentric!', 'anomaly', 'true,mean', 'parabolic', 'hyperbolic'][rng.integers(10)]
                try:
                    orb.type = bad
                    ctx.violate('accepted', 'an unknown anomaly type is accepted', name=bad)
                except ValueError:
                    pass
                ctx.check(Obs(orb).same(p), 'refused changes', 'a refused anomaly type changed the object', name=bad)
                ctx.count('refused name')
                try:
                    self.pyorb.Orbit(1.0, type=bad)
                    ctx.violate('accepted', 'an unknown anomaly type is accepted by the constructor', name=bad)
                except ValueError:
                    ctx.count('constructor refused')
            name = [t, t.upper(), t.capitalize(), t[0] + t[1:].upper()][rng.integers(4)]
            if name != t:
                ctx.count('case')
            self.note(dict(op='type', value=name))
            orb.type = name
            q = Obs(orb)
            ctx.count(f'{p.typ} to {t}')
            self.compare(p, q, t)
            self.anomalies(orb, q)
            if rng.random() < 0.5:
                orb.type = p.typ
                r = Obs(orb)
                self.compare(p, r, p.typ)
                turn = 360 if p.deg else O.TWOPI
                e = O.ld(p.kep[1])
                dd = np.where((e < 1) | (p.typ == 'true'), O.wrap_diff(r.kep[5], p.kep[5], turn), O.ld(r.kep[5]) - O.ld(p.kep[5]))
                ctx.within('restored', np.abs(dd), 1e-8*(57 if p.deg else 1)/np.maximum(np.abs(1 - e), 0.05)**1.5*(1 + np.abs(O.ld(p.kep[5]))),
                           'switching the type there and back does not restore the anomaly', skip=np.isnan(e), before=p.kep[5], after=r.kep[5], types=[p.typ, t], log=self.tail())
                ctx.count('back again')
        ctx.sample(dict(history=self.tail(6)), cap=3)

    def compare(self, p, q, t):
        ctx = self.ctx
        fin = np.all(np.isfinite(p.kep), axis=0)
        ctx.check(q.typ == t, 'type', 'anomaly type is not the assigned one', got=q.typ, want=t)
        for r in range(5):
            ctx.check(near(q.kep[r], p.kep[r], 1e-12), 'elements', 'changing the anomaly type changed another element', row=r, before=p.kep, after=q.kep, log=self.tail())
        for c in (q.cart, q.cart2):
            ctx.within('moved', state_diff(c, p.cart), 1e-7/np.where(fin, np.maximum(np.abs(1 - p.kep[1].astype(float)), 0.05), 1)**1.5, 'changing the anomaly type moved the body', skip=~fin,
                       before=p.cart, after=c, types=[p.typ, t], mode=[q.set['auto_update'], q.set['direct_update']], log=self.tail())
        for k in (q.kep, q.kep2):
            x = kout_state(q, k)
            ctx.within('elements moved', state_diff(x, p.cart), W.TOL, 'elements in the new anomaly type denote another position', skip=~fin,
                       before=p.kep, after=k, types=[p.typ, t], degrees=p.deg, log=self.tail())
        ctx.check(bool(np.all(np.isnan(q.kep).any(0) == np.isnan(p.kep).any(0))), 'defined', 'changing the anomaly type defined or undefined an orbit', log=self.tail())
        s = dict(p.set)
        s['type'] = t
        ctx.check(q.set == s and bits(q.m) == bits(p.m), 'settings', 'changing the anomaly type changed something else', before=p.set, after=q.set)
        ctx.count('hyperbolic', np.sum(p.kep[1] > 1))
        ctx.count('parabolic', np.sum(p.kep[1] == 1))
        ctx.judged_cols(np.vstack([p.kep, q.kep]).astype(float), fin)

    def anomalies(self, orb, q):
        '''All three anomalies are those of the position.'''
        ctx = self.ctx
        o = copy.deepcopy(orb)
        k = q.kt()
        fin = np.all(np.isfinite(q.kep), axis=0)
        for a in ANOMS:
            got = O.rad(getattr(o, W.ANOM_ATTR[a]), q.deg)
            want = O.convert('true', a, k[5], k[1])
            d = np.where(k[1] < 1, O.wrap_diff(got, want), got - want)
            if a == 'true':
                d = O.wrap_diff(got, want)
            tol = 1e-8/np.where(fin, np.maximum(np.abs(1 - k[1]), 0.05), 1)**1.5*(1 + np.abs(want))
            ctx.within('anomaly', np.abs(d), tol, f'{a} anomaly read from the object is not that of its position', skip=~fin, type=q.typ, got=got, want=want, degrees=q.deg, log=self.tail())
            ctx.count('anomalies')


# ------------------------------------------------------------------ O06

class O06(Hist):
    rule = ('one case is one propagation of one orbit; it counts when the resulting state was compared with the universal-variable '
            'reference under the gravitational parameter of that orbit; distinct by orbit and time step')
    assumptions = ['universal-variable propagation in extended precision; starting states come from the reference, so errors of the '
                   'conversion of the start state (arc cosines, 1e-7) are tolerated when it was given as a state']
    quick, deep = 3000, 30000

    def setup(self):
        for k in ('elliptic', 'parabolic', 'hyperbolic', 'forwards', 'backwards', 'long', 'whole period', 'steps add', 'undone', 'array step', 'scalar step',
                  'from state', 'from elements', 'type true', 'type eccentric', 'type mean', 'mode direct', 'mode lazy', 'mode manual', 'frame'):
            self.ctx.need(k, 25)

    def do_history(self, rng):
        ctx = self.ctx
        num = W.size(rng, 1, 5)
        mode = ['direct', 'lazy', 'direct2', 'manual'][rng.integers(4)]
        orb, L, _ = make(rng, self.pyorb, num=num, mode=mode, fill=False)
        deg, typ = orb.degrees, orb.type
        mu = O.ld(orb.G)*(O.ld(orb.M0) + orb.m)
        kinds = [('ell',), ('par',), ('hyp',), ('ell', 'hyp'), ('ell', 'par', 'hyp')][rng.integers(5)]
        kt = W.rand_kep(rng, num, L, kinds)
        # more extreme shapes and positions
        for c in range(num):
            if kt[1, c] < 1 and rng.random() < 0.3:
                kt[1, c] = [0.0, 1e-10, 0.001, 0.97, 0.01][rng.integers(5)]
            if kt[1, c] < 1 and rng.random() < 0.2:
                kt[5, c] = rng.integers(0, 4)*np.pi/2
            if kt[1, c] > 1 and rng.random() < 0.3:
                kt[1, c] = [1.02, 5.0, 10.0][rng.integers(3)]
                kt[5, c] = rng.uniform(-0.6, 0.6)*np.arccos(-1/kt[1, c])
            if rng.random() < 0.15:
                kt[2, c] = [0.0, np.pi/2, 3.0][rng.integers(3)]
        fromstate = rng.random() < 0.4 and mode != 'manual'
        ks = kin(kt, typ, deg)
        x0 = O.kep_state(kout(ks, typ, deg), mu)
        if fromstate:
            x0 = np.asarray(x0, dtype=float)
            orb.cartesian = x0
        else:
            orb.kepler = ks
        ctx.count('from state' if fromstate else 'from elements')
        T0 = np.asarray(np.sqrt(O.ld(kt[0])**3/mu), dtype=float)
        kind = ['step', 'step', 'long', 'period', 'adds', 'undo', 'lyap'][rng.integers(7)]
        arr_ = rng.random() < 0.4
        ell = kt[1] < 1
        scale = T0 if arr_ else np.full(num, T0.min())
        f = rng.uniform(-2, 2)
        if kind == 'long':
            f *= 30 if ell.all() else 8
            if rng.random() < 0.15:
                f *= 10**rng.uniform(1, 3.5)
                ctx.count('very long', num)
        dt = scale*f*(rng.uniform(0.5, 1, num) if arr_ else 1)
        if kind == 'period' and ell.any():
            dt = np.asarray(O.TWOPI*np.sqrt(O.ld(kt[0])**3/mu), dtype=float)*np.sign(f)
            if not arr_:
                j = int(np.nonzero(ell)[0][0])
                dt = np.full(num, dt[j])
        if arr_ and kind in ('step', 'long', 'adds', 'undo'):
            # each orbit its own way, some not at all
            if rng.random() < 0.4:
                dt = dt*rng.choice([-1, 1], num)
            if rng.random() < 0.3:
                dt = dt*(rng.random(num) < 0.6)
        elif kind == 'step' and rng.random() < 0.06:
            dt = dt*[0.0, 1e-9, 1e-5][rng.integers(3)]
        step = dt if arr_ else float(dt[0])
        ctx.count('array step' if arr_ else 'scalar step')
        ctx.count('forwards' if f > 0 else 'backwards')
        ctx.count('type ' + typ)
        ctx.count('mode ' + ('direct' if mode == 'direct2' else mode))
        p = Obs(orb)
        steps = [step]
        if kind == 'adds':
            w = rng.dirichlet(np.ones(3))
            steps = [step*float(z) for z in w]
        if kind == 'undo':
            steps = [step, -1*step if arr_ else -step]
        total = np.sum([np.broadcast_to(s, (num,)) for s in steps], axis=0)
        for s in steps:
            self.note(dict(op='propagate', value=s))
            orb.propagate(W.cp(s))
            if rng.random() < 0.3:
                orb.cartesian
        if mode == 'manual':
            orb.calculate_cartesian()
        q = Obs(orb)
        ref = np.stack([O.propagate_state(O.ld(x0)[:, c], mu[c], O.ld(total[c])) for c in range(num)], axis=1)
        # sensitivity to rounding of the elements: the mean motion times the step
        turns = np.abs(total)/T0
        e = kt[1]
        tol = (1e-12 + 4e-16*turns*4)*(1 + 1/np.maximum(np.abs(1 - e), 0.0 if False else 1e-2)**2.5)*(3e5 if fromstate else 300)
        # an orbit far out amplifies
        tol = np.maximum(tol, 1e-9) if not fromstate else np.maximum(tol, 1e-6)*(1 + turns)
        tol = np.where(e < 1e-8, tol + 1e-8, tol)
        par_state = fromstate & (np.abs(e - 1) < 1e-6)
        skip = (tol > 1e-3) | par_state
        ctx.within('propagated', state_diff(q.cart, ref), tol, 'propagation is not two-body motion', skip=skip,
                   elements=lambda c: ks[:, c], type=typ, degrees=deg, mu=lambda c: float(mu[c]), dt=lambda c: total[c], got=lambda c: q.cart[:, c], want=lambda c: ref[:, c], mode=mode, steps=len(steps))
        ctx.within('propagated elements', state_diff(q.state(), ref), tol, 'propagated elements are not two-body motion', skip=skip,
                   elements=lambda c: ks[:, c], type=typ, degrees=deg, after=lambda c: q.kep[:, c], mu=lambda c: float(mu[c]), dt=lambda c: total[c], mode=mode, steps=len(steps))
        # only the anomaly moved
        tol_f = 0 if not fromstate else 1e-12
        for r in range(5):
            ok = bits(q.kep[r]) == bits(p.kep[r]) if tol_f == 0 else near(q.kep[r], p.kep[r], tol_f)
            ctx.check(ok, 'frame', 'propagation changed another element than the anomaly', row=r, before=p.kep[r], after=q.kep[r], mode=mode)
        ctx.check(bits(q.m) == bits(p.m) and q.set == p.set, 'frame', 'propagation changed masses or settings', before=p.set, after=q.set)
        ctx.count('frame')
        if kind == 'period':
            ctx.count('whole period', np.sum(ell))
        if kind == 'adds':
            ctx.count('steps add', num)
        if kind == 'undo':
            ctx.count('undone', num)
            ctx.within('undone', state_diff(q.cart, x0), tol, 'stepping back does not undo a step', skip=skip, elements=lambda c: ks[:, c], dt=step, type=typ)
        if kind == 'long':
            ctx.count('long', num)
        for c in range(num):
            ctx.count('elliptic' if e[c] < 1 else 'parabolic' if e[c] == 1 else 'hyperbolic')
        ctx.judged_cols(np.vstack([ks, total[None], mu[None].astype(float)]), ~skip)
        ctx.sample(dict(elements=ks[:, 0], type=typ, degrees=deg, dt=total[0], mode=mode), cap=4)


# ------------------------------------------------------------------ O07

class O07(Hist):
    rule = ('one case is one add, delete, update, allocate or selection on an object of several orbits at a random point of a history; it counts '
            'when every orbit was compared with a plain list of orbits kept beside it, unselected ones bit for bit; distinct by value')
    assumptions = ['bitwise comparison of unselected orbits is made when nothing was pending for them, otherwise 1e-9 relative']
    quick, deep = 700, 7000

    def setup(self):
        for k in ('add', 'delete', 'update', 'update_m', 'allocate', 'bitwise', 'pending', 'selection int', 'selection list', 'selection slice', 'selection ndarray', 'mode direct', 'mode lazy', 'mode manual', 'undefined added', 'nothing selected'):
            self.ctx.need(k, 25)

    def do_history(self, rng):
        ctx = self.ctx
        mode = ['direct', 'lazy', 'direct2', 'manual'][rng.integers(4)]
        orb, L, _ = make(rng, self.pyorb, num=W.size(rng, 1, 6), mode='direct' if mode == 'manual' else mode)
        orb.kepler, orb.cartesian
        orb.auto_update, orb.direct_update = W.MODES[mode]
        ctx.count('mode ' + ('direct' if mode == 'direct2' else mode))
        g = Gen(rng, L)
        for step in range(int(rng.integers(4, 12))):
            settled = mode == 'manual' or rng.random() < 0.6
            if settled and mode != 'manual':
                orb.kepler, orb.cartesian
            elif not settled and rng.random() < 0.5:
                d = g.op(Obs(orb, False), W.ASSIGN_K + W.ASSIGN_C)
                self.note(d)
                apply(orb, d)
                ctx.count('pending')
            p = Obs(orb)
            ops = ['add', 'delete', 'update', 'update'] + (['update_m', 'update_m'] if not orb.direct_update else [])
            if rng.random() < 0.12:
                self.nothing(rng, orb, p, settled)
                continue
            if rng.random() < 0.05:
                n = int(rng.integers(0, 5))
                self.note(dict(op='allocate', num=n))
                orb.allocate(n)
                q = Obs(orb)
                ctx.check(q.num == n and q.len == n and q.kep.shape == (6, n) and q.cart.shape == (6, n) and q.m.shape == (n,), 'allocate', 'allocating does not give the requested number of orbits', num=n, got=q.num)
                ctx.check(bool(np.isnan(q.kep).all() and np.isnan(q.cart).all()), 'allocate', 'allocated orbits are defined', kep=q.kep, cart=q.cart)
                ctx.check(q.set == p.set, 'settings', 'allocating changed settings')
                ctx.count('allocate')
                self.judged([n, step], p.kep)
                if n:
                    d = g.op(q, ['kepler', 'cartesian'])
                    apply(orb, d)
                continue
            if rng.random() < 0.08:
                n = int(rng.integers(1, 3))
                d = dict(op='add', num=n, kw={}, kind='kep', full=np.full((6, n), np.nan))
                ctx.count('undefined added')
            else:
                d = g.op(p, ops)
            if d['op'] == 'read':
                continue
            self.note(d)
            apply(orb, d)
            q = Obs(orb)
            ctx.count(d['op'])
            if 'sel' in d:
                ctx.count('selection ' + type(d['sel']).__name__)
            n = p.num
            if d['op'] == 'add':
                keep, back = list(range(n)), list(range(n))
                size = n + d['num']
                new = list(range(n, size))
            elif d['op'] == 'delete':
                keep = [k for k in range(n) if k not in set(d['ks'])]
                back = list(range(len(keep)))
                size, new = len(keep), []
            else:
                keep = [k for k in range(n) if k not in set(d['ks'])]
                back, size, new = keep, n, d['ks']
            if not ctx.check(q.num == size and q.len == size and q.kep.shape == (6, size) and q.cart.shape == (6, size) and q.m.shape == (size,), 'size', 'wrong number of orbits',
                             op=d['op'], got=[q.num, q.len, q.kep.shape, q.m.shape], want=size, log=self.tail()):
                return
            for nm, a, b in (('elements', p.kep, q.kep), ('state', p.cart, q.cart)):
                x, y = a[:, keep], b[:, back]
                same = bits(x) == bits(y) if settled else near(x, y, 1e-9)
                ctx.check(same, 'unselected', f'{d["op"]} changed the {nm} of orbits that were not selected', selected=d.get('ks'), before=x, after=y, mode=mode, log=self.tail())
                if settled and keep:
                    ctx.count('bitwise', len(keep))
            ctx.check(bits(p.m[keep]) == bits(q.m[back]), 'mass', f'{d["op"]} changed masses of orbits that were not selected', before=p.m[keep], after=q.m[back], log=self.tail())
            ctx.check(q.set == p.set, 'settings', f'{d["op"]} changed settings', before=p.set, after=q.set)
            if new and not (d['op'] == 'add' and not d['kw']):
                self.selected(p, q, d, new, mode)
            elif new:
                ctx.check(bool(np.isnan(q.kep[:, new]).all() and np.isnan(q.cart[:, new]).all()), 'added undefined', 'orbits added without elements are defined', log=self.tail())
            self.judged(q.kep, q.cart, q.m)
            self.reads(orb, q)
            if q.num == 0:
                return
        ctx.sample(dict(history=self.tail(6)), cap=3)

    def nothing(self, rng, orb, p, settled):
        '''Operations on no orbit at all.'''
        ctx = self.ctx
        n = p.num
        sel = [[], np.zeros(0, dtype=int), slice(0, 0), np.zeros(n, dtype=bool), [False]*n, range(0), slice(n, None)][rng.integers(7)]
        how = ['delete', 'update', 'update given', 'update vector', 'select', 'recalc'][rng.integers(6)]
        if n == 0 and isinstance(sel, list):
            sel = []
        self.note(dict(op=how, sel=sel))
        if how == 'delete':
            orb.delete(sel)
        elif how.startswith('update'):
            x = float(p.kep[0, 0]) if n else 1.0
            kw = dict(a=x*1.1) if rng.random() < 0.5 else dict(x=x)
            if how == 'update vector':
                kw = {k: np.zeros(0) for k in kw}
            if how == 'update given':
                kw = dict(kepler=np.zeros((6, 0))) if rng.random() < 0.5 else dict(cartesian=np.zeros((6, 0)))
            elif not orb.direct_update and rng.random() < 0.4:
                kw['m'] = 0.3*float(p.M0)
            orb.update(inds=sel, **kw)
        elif how == 'select':
            s = Obs(orb[sel])
            ctx.check(s.num == 0 and s.kep.shape == (6, 0) and s.cart.shape == (6, 0) and s.m.shape == (0,), 'size', 'a selection of no orbit has orbits', got=s.num, log=self.tail())
            ctx.check(s.set == p.set, 'settings', 'a selection of no orbit has other settings', before=p.set, after=s.set)
        elif settled:
            getattr(orb, ['calculate_cartesian', 'calculate_kepler'][rng.integers(2)])(sel)
        q = Obs(orb)
        if settled:
            same = q.same(p)
        else:
            same = q.num == p.num and near(p.kep, q.kep, 1e-9) and near(p.cart, q.cart, 1e-9) and bits(p.m) == bits(q.m) and q.set == p.set
        ctx.check(same, 'unselected', f'{how} of no orbit changed the object', sel=repr(sel), before=[p.kep, p.cart, p.m], after=[q.kep, q.cart, q.m], log=self.tail())
        ctx.count('nothing selected')

    def selected(self, p, q, d, new, mode):
        ctx = self.ctx
        mine, other = (q.kep, q.cart) if d['kind'] == 'kep' else (q.cart, q.kep)
        rows = d.get('rows', range(6))
        for r in rows:
            ctx.check(bits(mine[r, new]) == bits(d['full'][r]), 'selected', f'{d["op"]}: selected orbits do not get the given elements', row=r, want=d['full'][r], got=mine[r, new], selected=new, log=self.tail())
        if d['op'] != 'add':
            prev = p.kep if d['kind'] == 'kep' else p.cart
            for r in range(6):
                if r not in rows:
                    ctx.check(near(mine[r, new], prev[r, new], 1e-9), 'selected frame', 'update changed an element that was not given', row=r, log=self.tail())
        m = d.get('m', 0.0 if d['op'] == 'add' else p.m[new])
        ctx.check(bits(q.m[new]) == bits(np.broadcast_to(m, (len(new),)).astype(float)), 'selected mass', f'{d["op"]}: wrong masses of the selected orbits', want=m, got=q.m[new], log=self.tail())
        if mode == 'manual':
            prev = p.cart if d['kind'] == 'kep' else p.kep
            if d['op'] == 'add':
                ctx.check(bool(np.isnan(other[:, new]).all()), 'manual', 'add converted with automatic updates off', log=self.tail())
            else:
                ctx.check(bits(other[:, new]) == bits(prev[:, new]), 'manual', 'update converted with automatic updates off', log=self.tail())
            return
        g = good(q.cart[:, new], q.mu[new])
        ctx.within('selected state', state_diff(q.state()[:, new], q.cart[:, new]), W.TOL, f'{d["op"]}: state and elements of the selected orbits differ', skip=~g, log=self.tail(), mode=mode)
        ctx.check(bool(np.isfinite(q.cart[:, new]).all() and np.isfinite(q.kep[:, new]).all()), 'selected defined', f'{d["op"]}: the selected orbits are not defined afterwards', kep=q.kep[:, new], cart=q.cart[:, new], mode=mode, log=self.tail())

    def reads(self, orb, q):
        '''Every read has one entry per orbit, in the same order.'''
        ctx = self.ctx
        o = copy.deepcopy(orb)
        n = q.num
        for r, nm in enumerate(W.KEP):
            ctx.check(bits(getattr(o, nm)) == bits(q.kep[r]), 'reads', f'{nm} is not its row of the elements', log=self.tail())
        for r, nm in enumerate(W.CART):
            ctx.check(bits(getattr(o, nm)) == bits(q.cart[r]), 'reads', f'{nm} is not its row of the state', log=self.tail())
        ctx.check(bits(o.r) == bits(q.cart[:3]) and bits(o.v) == bits(q.cart[3:]), 'reads', 'r or v is not its part of the state')
        for nm in W.DERIVED:
            v = getattr(o, nm)
            want = ((6,) if n == 1 else (6, n)) if nm == 'equinoctial' else (n,)
            ctx.check(np.shape(v) == want, 'reads', f'{nm} has not one entry per orbit', got=np.shape(v), num=n, log=self.tail())


# ------------------------------------------------------------------ O08

SETTINGS = ['M0', 'G', 'degrees', 'dtype', 'epoch', 'type', 'auto_update', 'direct_update', 'kepler_read_only', 'cartesian_read_only', 'solver_options']


class O08(Hist):
    rule = ('one case is one copy, selection or iteration item taken at a random point of a history (pending work, every mode); it counts when its '
            'elements, states, masses and settings were compared with those of the selected orbits and both sides were changed afterwards '
            'without showing in the other; distinct by value')
    assumptions = ['comparison is bit for bit when nothing is pending, otherwise 1e-9 relative']
    quick, deep = 520, 7000

    def setup(self):
        for k in ('copy', 'copy.copy', 'int', 'slice', 'list', 'ndarray', 'iteration', 'nested iteration', 'pending', 'independent from copy', 'independent from original', 'next', 'read only kept', 'manual', 'interrupted iteration', 'copy.deepcopy', 'pickle'):
            self.ctx.need(k, 20)

    def do_history(self, rng):
        ctx = self.ctx
        mode = ['direct', 'lazy', 'lazy', 'direct2', 'manual'][rng.integers(5)]
        orb, L, _ = make(rng, self.pyorb, num=W.size(rng, 1, 6), mode='direct' if mode == 'manual' else mode)
        if mode == 'manual':
            orb.auto_update, orb.direct_update = W.MODES['manual']
            orb.cartesian = orb.cartesian*1.25       # kinds that differ
            ctx.count('manual')
        g = Gen(rng, L)
        for step in range(int(rng.integers(3, 8))):
            settled = True
            if rng.random() < 0.7 and mode != 'manual':
                for _ in range(int(rng.integers(1, 3))):
                    d = g.op(Obs(orb, False), W.ASSIGN_K + W.ASSIGN_C + ['update', 'add', 'propagate', 'type'])
                    self.note(d)
                    orb = apply(orb, d)
                settled = orb.direct_update
                if not settled:
                    ctx.count('pending')
            if rng.random() < 0.2:
                orb.kepler_read_only, orb.cartesian_read_only = bool(rng.integers(2)), bool(rng.integers(2))
                ctx.count('read only kept')
            p = Obs(orb)
            ro = (orb.kepler_read_only, orb.cartesian_read_only)
            n = p.num
            how = ['copy', 'copy.copy', 'select', 'select', 'iteration', 'nested', 'next', 'copy.deepcopy', 'pickle'][rng.integers(9)]
            self.note(dict(op=how))
            if how in ('copy', 'copy.copy', 'copy.deepcopy', 'pickle'):
                c = dict([('copy', orb.copy), ('copy.copy', lambda: copy.copy(orb)), ('copy.deepcopy', lambda: copy.deepcopy(orb)),
                          ('pickle', lambda: pickle.loads(pickle.dumps(orb)))])[how]()
                ctx.count(how)
                self.compare(p, c, list(range(n)), settled, how)
                self.independent(rng, g, orb, c, p, ro)
            elif how == 'select':
                sel, ks = select(rng, n, empty=rng.random() < 0.3)
                c = orb[sel]
                ctx.count(type(sel).__name__)
                self.compare(p, c, ks, settled, repr(sel))
                self.independent(rng, g, orb, c, p, ro)
            elif how == 'iteration':
                items = []
                for it in orb:
                    items.append(it)
                    if len(items) > n + 2:
                        break
                if not ctx.check(len(items) == n, 'iteration', 'an iteration does not visit every orbit once', got=len(items), num=n):
                    return
                for k, it in enumerate(items):
                    self.compare(p, it, [k], settled, f'item {k}')
                ctx.count('iteration', n)
                # an interrupted iteration leaves nothing behind
                for it in orb:
                    break
                ctx.check(len(list(orb)) == n, 'iteration', 'an interrupted iteration affects the next one', num=n)
                ctx.count('interrupted iteration')
                r = Obs(orb)
                if settled:
                    ctx.check(r.same(p), 'iteration', 'an iteration changed the object')
                else:
                    ctx.check(near(r.kep, p.kep, 1e-9) and near(r.cart, p.cart, 1e-9) and bits(r.m) == bits(p.m) and r.set == p.set, 'iteration', 'an iteration changed the object')
                if items:
                    self.independent(rng, g, orb, items[int(rng.integers(n))], r, ro)
            elif how == 'nested':
                seen = []
                for a, x in enumerate(orb):
                    for b, y in enumerate(orb):
                        seen.append((a, b))
                        if len(seen) <= 9:
                            self.compare(p, y, [b], settled, f'inner item {b}')
                        if len(seen) > n*n + 2:
                            break
                    self.compare(p, x, [a], settled, f'outer item {a}')
                    if len(seen) > n*n + 2:
                        break
                ctx.check(seen == [(a, b) for a in range(n) for b in range(n)], 'nested iteration', 'nested iterations do not each visit every orbit once in order', got=seen, num=n)
                i1, i2 = iter(orb), iter(orb)
                for k in range(n):
                    self.compare(p, next(i1), [k], settled, 'first iterator')
                    self.compare(p, next(i2), [k], settled, 'second iterator')
                ctx.count('nested iteration', n)
                z = list(zip(orb, orb))
                ctx.check(len(z) == n, 'nested iteration', 'parallel iterations do not visit every orbit', got=len(z), num=n)
            else:
                it = iter(orb)
                for k in range(n):
                    self.compare(p, next(it), [k], settled, 'next')
                try:
                    next(it)
                    ctx.violate('next', 'an iteration goes on after the last orbit', num=n)
                except StopIteration:
                    pass
                ctx.count('next', n)
                # the object is its own cursor as well
                iter(orb)
                for k in range(n):
                    try:
                        self.compare(p, next(orb), [k], settled, 'next on the object')
                    except StopIteration:
                        ctx.violate('next', 'next on the object does not visit every orbit', num=n, visited=k)
                        break
                else:
                    try:
                        next(orb)
                        ctx.violate('next', 'next on the object goes on after the last orbit', num=n)
                    except StopIteration:
                        pass
            orb.kepler_read_only = orb.cartesian_read_only = False
        ctx.sample(dict(history=self.tail(6)), cap=3)

    def compare(self, p, c, ks, settled, how):
        ctx = self.ctx
        q = Obs(c)
        n = len(ks)
        if not ctx.check(q.num == n and q.len == n and q.m.shape == (n,), 'size', 'a selection has another number of orbits', how=how, got=q.num, want=n, log=self.tail()):
            return
        for nm, a, b in (('elements', p.kep, q.kep), ('state', p.cart, q.cart), ('elements', p.kep, q.kep2), ('state', p.cart, q.cart2)):
            x = a[:, ks]
            same = bits(x) == bits(b) if settled else near(x, b, 1e-9)
            ctx.check(same, 'content', f'a copy, selection or item has other {nm} than the selected orbits', how=how, want=x, got=b, log=self.tail())
        ctx.check(bits(p.m[ks]) == bits(q.m), 'mass', 'a copy, selection or item has other masses', how=how, want=p.m[ks], got=q.m)
        ctx.check(q.set == p.set, 'settings', 'a copy, selection or item has other settings', how=how, want=p.set, got=q.set)
        self.judged(q.kep, q.cart, [n])

    def independent(self, rng, g, orb, c, p, ro):
        ctx = self.ctx
        manual = not (orb.auto_update or orb.direct_update)
        q = Obs(c)
        # change the copy in any way, the original stays
        c.kepler_read_only = c.cartesian_read_only = False
        if c.num:
            self.change(rng, g, c, manual)
        c.solver_options['tol'] = 1e-6
        c.solver_options['mine'] = 1
        c.M0, c.G = c.M0*2, c.G*3
        c.degrees = not c.degrees
        c.epoch = 'other'
        r = Obs(orb)
        ctx.check(r.same(p), 'original', 'changing a copy, selection or item changed the original', before=[p.kep, p.cart, p.m, p.set], after=[r.kep, r.cart, r.m, r.set], log=self.tail())
        ctx.count('independent from copy')
        # a fresh copy and a change of the original
        orb2 = orb.copy()
        orb.kepler_read_only = orb.cartesian_read_only = False
        p2 = Obs(orb2)
        if orb.num:
            self.change(rng, g, orb, manual)
        old = dict(orb.solver_options)
        orb.solver_options['tol'] = 3e-7
        r2 = Obs(orb2)
        orb.solver_options.clear()
        orb.solver_options.update(old)
        ctx.check(r2.same(p2), 'copy', 'changing the original changed a copy', before=[p2.kep, p2.cart, p2.m, p2.set], after=[r2.kep, r2.cart, r2.m, r2.set], log=self.tail())
        ctx.count('independent from original')

    def change(self, rng, g, o, manual):
        ob = Obs(o, False)
        if manual:
            o.kepler = ob.kep + 0.01
            o.cartesian = ob.cart*1.01
        else:
            for _ in range(2):
                d = g.op(ob, ['kepler', 'cartesian', 'elem', 'row', 'type', 'propagate', 'update', 'add', 'delete'])
                apply(o, d)
                ob = Obs(o, False)
        o.m[:] = o.m + 0.5


# ------------------------------------------------------------------ O09

class O09(Hist):
    rule = ('one case is one array read from a property, or given to an assignment, constructor or method, that was overwritten afterwards (and '
            'watched while the object changed); it counts when the object, or the array, was compared before and after; distinct by value')
    assumptions = ['the mass is a plain attribute of the object (documented internal array), only masses given to the constructor, add and update are judged']
    quick, deep = 600, 8000
    kinds = ('reads', 'given')

    def setup(self):
        for r in set(W.READS):
            self.ctx.need('read ' + r, 10)
        for k in ('given kepler', 'given elem', 'given cartesian', 'given row', 'given part', 'given anomaly', 'given equinoctial', 'given period', 'given mean_motion', 'given velocity', 'given update', 'given add', 'given propagate', 'given constructor', 'old array kept'):
            self.ctx.need(k, 15)

    def do_reads(self, rng):
        ctx = self.ctx
        mode = ['direct', 'lazy', 'manual'][rng.integers(3)]
        orb, L, _ = make(rng, self.pyorb, mode='direct' if mode == 'manual' else mode, kinds=('ell', 'ell', 'ell') if rng.random() < 0.7 else ('ell', 'hyp'))
        orb.auto_update, orb.direct_update = W.MODES[mode]
        g = Gen(rng, L)
        held = []
        for step in range(3):
            if mode != 'manual':
                d = g.op(Obs(orb, False), W.ASSIGN_K + W.ASSIGN_C + ['type', 'propagate', 'update', 'add'])
                self.note(d)
                orb = apply(orb, d)
            else:
                orb.kepler = orb.kepler*(1 + 1e-3)
                orb.cartesian = orb.cartesian*(1 - 1e-3)
            for a, f, nm in held:
                ctx.check(inst.fingerprint(a) == f, 'old array', f'an array read earlier ({nm}) changed with the object', log=self.tail())
                ctx.count('old array kept')
            held = []
            names = list(dict.fromkeys(W.READS))
            rng.shuffle(names)
            p = Obs(orb)
            for nm in names:
                a = getattr(orb, nm)
                if not isinstance(a, np.ndarray):
                    continue
                for k, v in vars(orb).items():
                    if isinstance(v, np.ndarray):
                        ctx.check(not np.shares_memory(a, v), 'shared', f'the array read as {nm} is memory of the object', attribute=k)
                keep = a.copy()
                if a.flags.writeable:
                    a[...] = 77.0
                b = getattr(orb, nm)
                ctx.check(bits(b) == bits(keep), 'shared', f'changing the array read as {nm} changed the object', before=keep, after=b, mode=mode)
                c = getattr(orb, nm)
                ctx.check(not np.shares_memory(b, c), 'shared', f'two reads of {nm} share memory')
                held.append((b, inst.fingerprint(b), nm))
                ctx.count('read ' + nm)
                ctx.judged((nm, keep.tobytes()))
            q = Obs(orb)
            ctx.check(bits(q.kep) == bits(p.kep) or near(q.kep, p.kep, 1e-12), 'shared', 'changing arrays that were read changed the elements', before=p.kep, after=q.kep, mode=mode)
            ctx.check(bits(q.cart) == bits(p.cart) or near(q.cart, p.cart, 1e-12), 'shared', 'changing arrays that were read changed the state', before=p.cart, after=q.cart, mode=mode)
            ctx.check(bits(q.m) == bits(p.m), 'shared', 'changing arrays that were read changed the masses')
        ctx.sample(dict(history=self.tail(3), mode=mode), cap=3)

    def layout(self, rng, v):
        c = rng.integers(4)
        v = np.array(v, dtype=float)
        if c == 1:
            return np.asfortranarray(v)
        if c == 2:
            big = np.zeros(tuple(2*s for s in v.shape))
            w = big[tuple(slice(None, None, 2) for _ in v.shape)]
            w[...] = v
            return w
        return v

    def do_given(self, rng):
        ctx = self.ctx
        mode = ['direct', 'lazy', 'manual'][rng.integers(3)]
        orb, L, _ = make(rng, self.pyorb, mode='direct' if mode == 'manual' else mode)
        orb.kepler, orb.cartesian
        orb.auto_update, orb.direct_update = W.MODES[mode]
        g = Gen(rng, L)
        for step in range(5):
            p = Obs(orb)
            d = g.op(p, W.ASSIGN_K + W.ASSIGN_C + ['propagate', 'update', 'update', 'add', 'add'] + ([] if orb.direct_update else ['update_m']))
            if d['op'] == 'read':
                continue
            d = copy.deepcopy(d)
            self.note(d)
            # the arrays handed over, in some memory layout
            given = []

            def lay(v):
                if isinstance(v, np.ndarray) and v.dtype == float:
                    v = self.layout(rng, v)
                    given.append(v)
                return v
            op = d['op']
            if op in ('update', 'update_m', 'add'):
                kw = {k: lay(v) for k, v in d['kw'].items()}
                if 'm' in d and op == 'add':
                    kw['m'] = lay(d['m'])
                sel = lay(d['sel']) if isinstance(d.get('sel'), np.ndarray) else d.get('sel')
                fs = [inst.fingerprint(a) for a in given]
                if op == 'add':
                    orb.add(num=d['num'], **kw)
                else:
                    orb.update(inds=sel, **kw)
            else:
                v = lay(d['value'])
                fs = [inst.fingerprint(a) for a in given]
                attr = {'kepler6': 'kepler', 'cartesian6': 'cartesian', 'elem': W.KEP[d.get('row', 0)], 'row': W.CART[d.get('row', 0)], 'part': d.get('part'),
                        'anomaly': W.ANOM_ATTR.get(d.get('which'))}.get(op, op)
                if op == 'propagate':
                    orb.propagate(v)
                else:
                    setattr(orb, attr, v)
            for a in given:
                for k, v in vars(orb).items():
                    if isinstance(v, np.ndarray):
                        ctx.check(not np.shares_memory(a, v), 'kept', f'an array given to {op} is memory of the object', attribute=k)
            ctx.check([inst.fingerprint(a) for a in given] == fs, 'given', f'an array given to {op} was changed', mode=mode, log=self.tail(2))
            q = Obs(orb)
            for a in given:
                a[...] = -55.5
            r = Obs(orb)
            ctx.check(r.same(q), 'kept', f'changing an array that was given to {op} changed the object', mode=mode, before=[q.kep, q.cart, q.m], after=[r.kep, r.cart, r.m], log=self.tail(2))
            # the object goes on changing, the arrays stay as they were left
            if mode != 'manual':
                d2 = g.op(r, W.ASSIGN_K + W.ASSIGN_C + ['propagate'])
                apply(orb, d2)
                orb.kepler, orb.cartesian
            ctx.check(all(np.all(a == -55.5) for a in given), 'given', f'an array given to {op} was changed later', mode=mode)
            ctx.count('given ' + {'kepler6': 'kepler', 'cartesian6': 'cartesian', 'update_m': 'update'}.get(op, op))
            self.judged(q.kep, q.cart)
        # constructor
        n = int(rng.integers(1, 4))
        kt = W.rand_kep(rng, n)
        m = self.layout(rng, rng.uniform(0, 1, n))
        opts = dict(tol=1e-11)
        how = rng.integers(3)
        k = self.layout(rng, kt)
        if how == 0:
            kw = dict(kepler=k)
        elif how == 1:
            kw = dict(cartesian=self.layout(rng, np.asarray(O.kep_state(kt, 1.0), dtype=float)))
        else:
            kw = {nm: self.layout(rng, kt[r]) for r, nm in enumerate(W.KEP)}
        fs = [inst.fingerprint(v) for v in kw.values()]
        fm = inst.fingerprint(m)
        o = self.pyorb.Orbit(1.0, G=1.0, num=n, m=m, solver_options=opts, **kw)
        ctx.check([inst.fingerprint(v) for v in kw.values()] == fs and inst.fingerprint(m) == fm and opts == dict(tol=1e-11), 'given', 'the constructor changed what it was given', how=list(kw))
        q = Obs(o)
        for v in kw.values():
            v[...] = -3.0
        m[...] = 9.0
        opts['tol'] = 1.0
        ctx.check(Obs(o).same(q), 'kept', 'changing what was given to the constructor changed the object', how=list(kw))
        o.solver_options['tol'] = 0.5
        ctx.check(opts == dict(tol=1.0), 'given', "the object changed the caller's options")
        o2 = self.pyorb.Orbit(1.0)
        ctx.check(o2.solver_options.get('tol') == 1e-12, 'default options', 'options of one object show in another')
        ctx.count('given constructor')


# ------------------------------------------------------------------ O10

class O10(Hist):
    rule = ('one case is one refused operation at a random point of a history (pending work, every mode and type); it counts when elements, states, '
            'masses and settings were compared bit for bit before and after; distinct by operation and value')
    assumptions = ['refusals are: read-only elements, mixed kinds, mass in an immediate update, unknown anomaly type, values that cannot be made to fit the selected orbits']
    quick, deep = 1000, 10000

    def setup(self):
        for k in ('kepler read-only', 'cartesian read-only', 'mixed kinds', 'mass in direct update', 'unknown type', 'type while read-only', 'propagate while read-only', 'other kind assigned', 'pending', 'refused addition', 'does not fit'):
            self.ctx.need(k, 25)
        for k in W.KEP + ['kepler', 'period', 'mean_motion', 'equinoctial', 'true_anomaly', 'eccentric_anomaly', 'mean_anomaly']:
            self.ctx.need('refused ' + k, 5)
        for k in W.CART + ['cartesian', 'r', 'v', 'velocity']:
            self.ctx.need('refused ' + k, 5)

    def do_history(self, rng):
        ctx = self.ctx
        orb, L, mode = make(rng, self.pyorb, kinds=('ell',) if rng.random() < 0.5 else ('ell', 'hyp'))
        g = Gen(rng, L)
        for step in range(int(rng.integers(3, 9))):
            if rng.random() < 0.7:
                d = g.op(Obs(orb, False), W.ASSIGN_K + W.ASSIGN_C + ['propagate', 'type', 'mode', 'add', 'update', 'copy'])
                self.note(d)
                orb = apply(orb, d)
                if not orb.direct_update:
                    ctx.count('pending')
            kro, cro = [(True, False), (False, True), (True, True)][rng.integers(3)]
            kind = ['ro', 'ro', 'ro', 'mixed', 'mass', 'type', 'other', 'add', 'fit'][rng.integers(9)]
            n = orb.num
            if n == 0:
                return
            getattr(self, 'r_' + kind)(rng, g, orb, kro, cro)
            orb.kepler_read_only = orb.cartesian_read_only = False
        ctx.sample(dict(history=self.tail(6)), cap=3)

    def refuse(self, orb, what, f, errors=(AttributeError,), **detail):
        ctx = self.ctx
        p = Obs(orb)
        self.note(dict(op='refuse', what=what))
        try:
            f()
            ctx.violate('accepted', f'{what} is accepted', mode=[orb.auto_update, orb.direct_update], log=self.tail(), **detail)
        except errors:
            pass
        except Exception as e:
            ctx.violate('error type', f'{what} raises {type(e).__name__}: {e}', log=self.tail())
        q = Obs(orb)
        ctx.check(q.same(p), 'changed', f'{what} was refused but changed the object', before=[p.kep, p.cart, p.m, p.set], after=[q.kep, q.cart, q.m, q.set],
                  mode=[orb.auto_update, orb.direct_update], log=self.tail())
        self.judged(p.kep, p.cart, [len(what)])

    def r_ro(self, rng, g, orb, kro, cro):
        ctx = self.ctx
        ob = Obs(orb, False)
        n = ob.num
        opts = []
        if kro:
            opts += [('kepler', W.KEP + ['kepler', 'period', 'mean_motion', 'equinoctial', 'true_anomaly', 'eccentric_anomaly', 'mean_anomaly'])]
        if cro:
            opts += [('cartesian', W.CART + ['cartesian', 'r', 'v', 'velocity'])]
        kind, names = opts[rng.integers(len(opts))]
        nm = names[rng.integers(len(names))]
        how = rng.integers(4)
        orb.kepler_read_only, orb.cartesian_read_only = kro, cro
        if nm in ('kepler', 'cartesian', 'equinoctial'):
            val = rng.uniform(0.1, 0.5, (6, n))
        elif nm in ('r', 'v'):
            val = rng.uniform(0.1, 0.5, (3, n))
        else:
            val = rng.uniform(0.1, 0.5, n) if rng.random() < 0.6 else 0.3
        if how == 0 and nm in W.KEP + W.CART + ['kepler', 'cartesian']:
            sel, ks = select(rng, n, empty=False)
            v = val[:, ks] if np.ndim(val) == 2 else 0.3
            if isinstance(sel, (int, np.integer)) and np.ndim(v) == 2:
                v = v[:, 0]
            extra = {}
            same = W.KEP if nm in W.KEP else W.CART
            if nm in same and rng.random() < 0.4:
                extra = {str(same[rng.integers(6)]): 0.2}
            self.refuse(orb, f'update of {nm} marked read-only', lambda: orb.update(inds=sel, **{**extra, nm: v}))
            ctx.count(kind + ' read-only')
        elif how == 1 and kro:
            t = [x for x in ANOMS if x != orb.type][rng.integers(2)]
            self.refuse(orb, 'change of anomaly type of read-only elements', lambda: setattr(orb, 'type', t))
            ctx.count('type while read-only')
        elif how == 2 and kro and rng.random() < 0.5:
            self.refuse(orb, 'propagation of read-only elements', lambda: orb.propagate(0.1))
            ctx.count('propagate while read-only')
        else:
            self.refuse(orb, f'assignment of {nm} marked read-only', lambda: setattr(orb, nm, val))
            ctx.count(kind + ' read-only')
            ctx.count('refused ' + nm)

    def r_mixed(self, rng, g, orb, kro, cro):
        n = orb.num
        sel, ks = select(rng, n, empty=False)
        kw = {str(W.KEP[rng.integers(6)]): 0.4, str(W.CART[rng.integers(6)]): 0.3}
        for _ in range(int(rng.integers(3))):
            kw[str((W.KEP + W.CART)[rng.integers(12)])] = 0.2
        items = list(kw.items())
        rng.shuffle(items)
        kw = {str(a): float(b) for a, b in items}
        if not orb.direct_update and rng.random() < 0.4:
            kw['m'] = 0.7
        self.refuse(orb, 'update mixing both kinds', lambda: orb.update(inds=sel, **kw), (ValueError,))
        self.ctx.count('mixed kinds')

    def r_mass(self, rng, g, orb, kro, cro):
        orb.direct_update = True
        sel, ks = select(rng, orb.num, empty=False)
        kw = dict(m=0.7)
        c = rng.integers(3)
        if c == 0:
            kw[str(W.KEP[rng.integers(6)])] = 0.3
        elif c == 1:
            kw[str(W.CART[rng.integers(6)])] = 0.3
        self.refuse(orb, 'update of the mass in immediate mode', lambda: orb.update(inds=sel, **kw), (ValueError,))
        self.ctx.count('mass in direct update')

    def r_add(self, rng, g, orb, kro, cro):
        '''Additions that are refused add nothing.'''
        k = int(rng.integers(1, 4))
        c = rng.integers(3)
        kw = {str(W.KEP[rng.integers(6)]): 0.4}
        cw = {str(W.CART[rng.integers(6)]): 0.3}
        if c == 0:
            kw.update(cw)
            err = (ValueError,)
        elif c == 1:
            orb.kepler_read_only, orb.cartesian_read_only = kro, cro
            if not kro:
                kw = cw
            if rng.random() < 0.3:
                kw = dict(kepler=np.full((6, k), 0.3)) if kro else dict(cartesian=np.full((6, k), 0.3))
            err = (AttributeError,)
        else:
            kw = [dict(kw, m=np.zeros(k + 2)), {str(x): np.full(k + 2, 0.2) for x in rng.permutation(W.KEP)[:3]}, dict(kepler=np.full((6, k + 2), 0.3)),
                  dict(cartesian=np.full((5, k), 0.3)), dict(cw, m=[0.1]*(k + 2))][rng.integers(5)]
            err = (ValueError, TypeError, IndexError)
        if rng.random() < 0.4 and 'm' not in kw:
            kw['m'] = 0.5
        self.refuse(orb, 'addition', lambda: orb.add(num=k, **kw), err, given=repr(kw))
        self.ctx.count('refused addition')

    def r_fit(self, rng, g, orb, kro, cro):
        '''Values of a shape that does not fit.'''
        n = orb.num
        # more than there are orbits, so that nothing makes it fit
        bad = rng.uniform(0.1, 0.5, [(n + 2,), (2, n + 2), (n + 7,)][rng.integers(3)])
        if rng.random() < 0.4:
            names = list(rng.permutation(W.KEP if rng.random() < 0.5 else W.CART)[:int(rng.integers(2, 5))])
            kw = {str(x): 0.3 for x in names}
            kw[str(names[rng.integers(len(names))])] = bad
            if not orb.direct_update and rng.random() < 0.5:
                kw['m'] = 0.7 if rng.random() < 0.5 else bad
            sel, ks = select(rng, n, empty=False)
            if isinstance(sel, (int, np.integer)):
                bad = np.full((2, 3), 0.2)
                kw = {k: bad if np.ndim(v) else v for k, v in kw.items()}
            self.refuse(orb, 'update with values that do not fit', lambda: orb.update(inds=sel, **kw), (ValueError, TypeError, IndexError), given=repr(kw))
        else:
            nm = (W.KEP + W.CART + ['kepler', 'cartesian', 'r', 'v', 'velocity', 'equinoctial', 'period', 'mean_motion', 'true_anomaly', 'eccentric_anomaly', 'mean_anomaly'])[rng.integers(23)]
            if nm in ('kepler', 'cartesian', 'equinoctial'):
                bad = rng.uniform(0.1, 0.5, [(6, n + 2), (5, n + 1), (6, n, 2)][rng.integers(3 if nm != 'equinoctial' else 1)])
            elif nm in ('r', 'v'):
                bad = rng.uniform(0.1, 0.5, [(3, n + 2), (2, n), (4, n)][rng.integers(3)])
            self.refuse(orb, f'{nm} of a shape that does not fit', lambda: setattr(orb, nm, bad), (ValueError, TypeError, IndexError), shape=np.shape(bad))
        self.ctx.count('does not fit')

    def r_type(self, rng, g, orb, kro, cro):
        if rng.random() < 0.5:
            orb.kepler_read_only, orb.cartesian_read_only = kro, cro
        if rng.random() < 0.3:
            bad = ['', 'foo', 'truee', 'M', 'anom', 'ecc', 'mean-anomaly'][rng.integers(7)]
        else:
            # names close to the known ones
            t = ANOMS[rng.integers(3)]
            c = rng.integers(6)
            bad = [t[:-1], t[1:], t[0], t + ['s', ' anomaly', '_anomaly', 'true', ' x', '.'][rng.integers(6)], ['x', 'true ', 'anti-', '_'][rng.integers(4)] + t,
                   t[:3] + ' ' + t[3:]][c]
            if rng.random() < 0.3:
                bad = bad.upper()
            if rng.random() < 0.1:
                bad = [None, 1, 0.0, ('true',), b'true'][rng.integers(5)]
        self.refuse(orb, f'anomaly type {bad!r}', lambda: setattr(orb, 'type', bad), (ValueError, AttributeError, TypeError))
        self.ctx.count('unknown type')

    def r_other(self, rng, g, orb, kro, cro):
        '''Marks on one kind do not hinder the other.'''
        ctx = self.ctx
        if kro and cro:
            cro = False
        p = Obs(orb)
        d = g.op(p, ['update'] + (W.ASSIGN_C if kro else W.ASSIGN_K))
        if d['op'] == 'read' or (d['op'] == 'update' and d['kind'] != ('cart' if kro else 'kep')):
            return
        orb.kepler_read_only, orb.cartesian_read_only = kro, cro
        self.note(d)
        apply(orb, d)
        q = Obs(orb)
        for nm in ('kepler', 'cartesian', 'a', 'x', 'period', 'velocity', 'mean_anomaly'):
            getattr(orb, nm)
        if d['op'] == 'update':
            got = q.cart if kro else q.kep
            for r in d['rows']:
                ctx.check(bits(got[r, d['ks']]) == bits(d['full'][r]), 'other kind', 'a read-only mark on one kind hindered an update of the other', log=self.tail())
        else:
            e = expect(p, d)
            judge_kind(ctx, 'other kind', q.kep if e['kind'] == 'kep' else q.cart, e, p, q, self.tail, frame=1e-9)
        gd = good(q.cart, q.mu)
        ctx.within('other kind derived', state_diff(q.state(), q.cart), W.TOL, 'a read-only mark on one kind kept it from following the other', skip=~gd, log=self.tail(), kep=q.kep, cart=q.cart)
        ctx.count('other kind assigned')


# ------------------------------------------------------------------ O11

class O11(Hist):
    rule = ('one case is one orbit of an object at a random point of a history for which a derived quantity was compared with the reference value for '
            'its current elements and masses; distinct by quantity and value')
    assumptions = ['apoapsis of unbound orbits is not judged']
    quick, deep = 600, 7000

    def setup(self):
        for k in W.DERIVED:
            self.ctx.need('read ' + k, 60)
        for k in ('hyperbolic', 'parabolic', 'elliptic', 'after cart assignment', 'after kep assignment', 'after mass change', 'smallest distance', 'mixed conics'):
            self.ctx.need(k, 30)

    def do_history(self, rng):
        ctx = self.ctx
        par = rng.random() < 0.25
        orb, L, mode = make(rng, self.pyorb, kinds=[('ell', 'par', 'hyp'), ('par',)][rng.integers(2)] if par else [('ell',), ('hyp',), ('ell', 'hyp')][rng.integers(3)], via='kepler' if par else None)
        if len(set(np.sign(orb.e - 1))) > 1:
            ctx.count('mixed conics')
        g = Gen(rng, L)
        for step in range(int(rng.integers(3, 9))):
            if not par or rng.random() < 0.4:
                ops = W.ASSIGN_K + W.ASSIGN_C + ['type', 'propagate', 'mass', 'mode', 'update', 'add', 'delete', 'subset', 'copy'] if not par else ['type', 'mode', 'copy', 'subset', 'delete']
                d = g.op(Obs(orb, False), ops)
                self.note(d)
                orb = apply(orb, d)
                if d['op'] in W.ASSIGN_C:
                    ctx.count('after cart assignment')
                elif d['op'] in W.ASSIGN_K:
                    ctx.count('after kep assignment')
                elif d['op'] == 'mass':
                    ctx.count('after mass change')
            self.judge(rng, orb)
        ctx.sample(dict(history=self.tail(6)), cap=3)

    def judge(self, rng, orb):
        ctx = self.ctx
        # reads happen on the object itself, in random order, before anything
        # else is read
        o = copy.deepcopy(orb) if rng.random() < 0.5 else orb
        names = list(W.DERIVED)
        rng.shuffle(names)
        got = {nm: O.ld(getattr(o, nm)) for nm in names}
        q = Obs(orb)
        if q.num == 0 or not np.isfinite(q.kep).all():
            return
        k = q.kt()
        a, e = k[0], k[1]
        u = 180/O.PI if q.deg else 1
        turn = 360 if q.deg else O.TWOPI
        x = O.kep_state(k, q.mu)
        g = good(x, q.mu) | (e == 1)
        P = O.TWOPI*np.sqrt(a**3/q.mu)
        rp = np.where(e == 1, a, a*np.abs(1 - e))
        f = 1 + 1/np.maximum(np.abs(1 - e), 0.05)**2

        def cmp(nm, want, tol, ang=False, skip=None):
            sk = ~g if skip is None else (~g | skip)
            d = got[nm]
            if not ctx.check(d.shape == want.shape, 'shape', f'{nm}: wrong shape', got=d.shape, want=want.shape):
                return
            err = np.abs(d/want - 1) if not ang else np.abs(np.where(e < 1, O.wrap_diff(d, want, turn), d - want))/turn
            ctx.within(nm, err, tol, f'{nm} is not that of the current orbit', skip=sk, got=d, want=want, elements=q.kep, type=q.typ, degrees=q.deg, mu=q.mu, log=self.tail())
            ctx.count('read ' + nm, np.sum(~sk))
            ctx.judged_cols(np.vstack([q.kep, q.mu[None]]).astype(float), ~sk, tag=nm.encode())
        cmp('period', P, 1e-12)
        cmp('mean_motion', turn/P, 1e-12)
        ctx.within('mean motion times period', np.abs(got['mean_motion']*got['period']/turn - 1), 1e-13, 'mean motion times period is not one turn', got=[got['mean_motion'], got['period']])
        cmp('apoapsis', a*(1 + e), 1e-12, skip=e >= 1)
        cmp('periapsis', rp, 1e-12*f)
        sp = O.norm(x[3:])
        cmp('velocity', sp, 1e-5)
        cmp('speed', sp, 1e-9*f)
        ctx.within('speed and velocity', np.abs(got['speed']/got['velocity'] - 1), 1e-5, 'speed and velocity magnitude differ', skip=~g, got=[got['speed'], got['velocity']], type=q.typ, log=self.tail())
        an = {t: O.convert('true', t, k[5], e)*u for t in ANOMS}
        for t in ANOMS:
            nm = W.ANOM_ATTR[t]
            d = got[nm]
            err = np.abs(np.where((e < 1) | (t == 'true'), O.wrap_diff(d, an[t], turn), d - an[t]))/turn
            ctx.within(nm, err, 1e-8*f*(1 + np.abs(an[t]/u)), f'{nm} is not that of the current orbit', skip=~g, got=d, want=an[t], type=q.typ, degrees=q.deg, log=self.tail())
            ctx.count('read ' + nm, np.sum(g))
        want = an['mean'] + O.ld(q.kep[3]) + O.ld(q.kep[4])
        err = np.abs(np.where(e < 1, O.wrap_diff(got['mean_longitude'], want, turn), np.abs(O.wrap_diff(got['mean_longitude'], want, turn))))/turn
        ctx.within('mean_longitude', err, 1e-8*f*(1 + np.abs(an['mean']/u)), 'mean longitude is not that of the current orbit', skip=~g, got=got['mean_longitude'], want=want, type=q.typ, log=self.tail())
        ctx.count('read mean_longitude', np.sum(g))
        qe = got['equinoctial'].reshape(6, -1)
        ell = (e < 1) & g & (k[2] < 3.0)
        if ell.any():
            xe = O.equi_state(qe[:, ell], q.mu[ell], q.deg, mean=True)
            ctx.within('equinoctial', state_diff(xe, x[:, ell]), 1e-6, 'equinoctial elements are not those of the current orbit', got=qe, elements=q.kep, type=q.typ, degrees=q.deg, log=self.tail())
            ctx.count('read equinoctial', np.sum(ell))
        # the periapsis is the smallest distance, the apoapsis the largest
        nus = np.linspace(-np.pi, np.pi, 41)
        for c in range(q.num):
            if not g[c]:
                continue
            ctx.count('elliptic' if e[c] < 1 else 'parabolic' if e[c] == 1 else 'hyperbolic')
            lim = np.pi if e[c] < 1 else (np.arccos(float(-1/e[c])) if e[c] > 1 else np.pi)*0.95
            kk = np.repeat(k[:, c:c+1], 41, axis=1)
            kk[5] = nus*lim/np.pi
            r = O.norm(O.kep_state(kk, q.mu[c])[:3])
            ctx.within('smallest distance', abs(np.min(r)/got['periapsis'][c] - 1), 1e-9*f[c], 'periapsis is not the smallest distance of the orbit', got=got['periapsis'][c], want=np.min(r), elements=q.kep[:, c])
            if e[c] < 1:
                ctx.within('largest distance', abs(np.max(r)/got['apoapsis'][c] - 1), 1e-9*f[c], 'apoapsis is not the largest distance of the orbit', got=got['apoapsis'][c], want=np.max(r), elements=q.kep[:, c])
            ctx.count('smallest distance')


# ------------------------------------------------------------------ O12

NAMED = [('m', 'kg', 's'), ('km', 'kg', 's'), ('AU', 'Msol', 'd'), ('AU', 'Msol', 'y'), ('cm', 'g', 's'), ('AU', 'kg', 'h'), ('pc', 'Msun', 'y')]


class O12(Hist):
    rule = ('one case is one orbit of a pair of objects that hold the same physical orbits in different units, with differently split masses, or alone '
            'instead of in a group; it counts when elements, states, periods and speeds of the pair were compared after a common history; distinct by value')
    assumptions = ['well-conditioned orbits; pairs differ by rounding (tolerance 1e-6)']
    quick, deep = 2000, 20000
    kinds = ('units', 'named', 'split', 'alone', 'scaling', 'shares')

    def setup(self):
        for k in ('units', 'named', 'split', 'alone', 'scaling', 'propagated', 'alone updated', 'shares', 'small share', 'large share'):
            self.ctx.need(k, 30)

    def pair(self, a, b, L, T, M, what):
        '''b is a in units that are L, T, M times smaller.'''
        ctx = self.ctx
        A, B = Obs(a), Obs(b)
        if not ctx.check(A.num == B.num, 'size', 'numbers of orbits differ'):
            return
        if A.num == 0:
            return
        s = np.array([L]*3 + [L/T]*3)[:, None]
        g = good(A.cart, A.mu)
        tol = 1e-6
        ctx.within(what + ' state', state_diff(B.cart/s, A.cart), tol, f'{what}: another state', skip=~g, first=A.cart, second=B.cart/s, units=[L, T, M], log=self.tail(), type=A.typ)
        kb = B.kep.astype(LD)
        kb[0] = kb[0]/L
        ctx.within(what + ' elements', kep_same(kb, A.kep, A.deg, 1), tol*10, f'{what}: other elements', skip=~g, first=A.kep, second=kb, units=[L, T, M], log=self.tail(), type=A.typ)
        for nm, sc in (('period', T), ('speed', L/T), ('velocity', L/T), ('apoapsis', L), ('periapsis', L), ('mean_motion', 1/T)):
            x, y = O.ld(getattr(a, nm)), O.ld(getattr(b, nm))
            ctx.within(what + ' ' + nm, np.abs(y/sc/x - 1), tol*10, f'{what}: another {nm}', skip=~g, first=x, second=y/sc, log=self.tail())
        ctx.count(what, A.num)
        ctx.judged_cols(np.vstack([A.kep, A.cart]).astype(float), g, tag=what.encode())

    def do_units(self, rng, named=False):
        what = 'named' if named else 'units'
        P = self.pyorb
        num = W.size(rng, 1, 4)
        deg, typ = bool(rng.integers(2)), ANOMS[rng.integers(3)]
        if named:
            i, j = rng.permutation(len(NAMED))[:2]
            u1, u2 = NAMED[i], NAMED[j]
            c = P.const
            size = dict(m=1.0, km=1e3, au=c.AU, cm=1e-2, pc=3.0856775814913673e16, kg=1.0, g=1e-3, msol=c.M_sol, msun=c.M_sol, s=1.0, h=3600.0, d=86400.0, y=31557600.0)
            G1, G2 = P.get_G(*u1), P.get_G(*u2)
            L = size[u1[0].lower()]/size[u2[0].lower()]
            M = size[u1[1].lower()]/size[u2[1].lower()]
            T = size[u1[2].lower()]/size[u2[2].lower()]
            M0 = float(rng.uniform(0.5, 2))*c.M_sol/size[u1[1].lower()]
            LL = c.AU/size[u1[0].lower()]
        else:
            far = 2 if rng.random() < 0.25 else 1
            L, T, M = [float(10**rng.uniform(-x*far, x*far)) for x in (6, 6, 6 if far == 1 else 15)]
            G1 = float(rng.uniform(0.5, 2))
            G2 = G1*L**3/(M*T**2)
            M0 = float(rng.uniform(0.5, 2))
            LL = 1.0
        m = rng.uniform(0, 1, num)*M0
        kt = W.rand_kep(rng, num, LL)
        k = kin(kt, typ, deg)
        mode = ['direct', 'lazy'][rng.integers(2)]
        a = P.Orbit(M0, G=G1, num=num, degrees=deg, type=typ, m=m, direct_update=mode == 'direct')
        b = P.Orbit(M0*M, G=G2, num=num, degrees=deg, type=typ, m=m*M, direct_update=mode == 'direct')
        sc = np.array([L]*3 + [L/T]*3)[:, None]
        g = Gen(rng, LL)
        if rng.random() < 0.5:
            a.kepler = k
            kb = k.copy()
            kb[0] *= L
            b.kepler = kb
        else:
            x = np.asarray(O.kep_state(kt, O.ld(G1)*(O.ld(M0) + m)), dtype=float)
            a.cartesian = x
            b.cartesian = x*sc
        self.note(dict(op='made', units=[L, T, M]))
        for step in range(int(rng.integers(2, 6))):
            d = g.op(Obs(a, False), ['elem', 'cartesian', 'row', 'velocity', 'anomaly', 'period', 'mean_motion', 'type', 'propagate', 'propagate', 'mass', 'recalc', 'add'])
            self.note(d)
            a = apply(a, d)
            b = apply(b, self.rescale(d, L, T, M))
            if d['op'] == 'propagate':
                self.ctx.count('propagated')
        self.pair(a, b, L, T, M, what)
        self.ctx.sample(dict(units=[L, T, M], history=self.tail(4)), cap=3)

    def do_named(self, rng):
        self.do_units(rng, True)

    def rescale(self, d, L, T, M):
        d = copy.deepcopy(d)
        op = d['op']
        sc = np.array([L]*3 + [L/T]*3)
        if op == 'elem' and d['row'] == 0:
            d['value'] = d['value']*L
        elif op == 'cartesian':
            d['value'] = d['value']*sc[:, None]
        elif op == 'row':
            d['value'] = d['value']*sc[d['row']]
        elif op == 'velocity':
            d['value'] = d['value']*L/T
        elif op in ('period', 'propagate'):
            d['value'] = d['value']*T
        elif op == 'mean_motion':
            d['value'] = d['value']/T
        elif op == 'mass':
            d['value'] = d['value']*(M if d['how'] in ('m', 'M0') else L**3/(M*T**2))
        elif op == 'add':
            if 'm' in d:
                d['m'] = d['m']*M
            for nm in d['kw']:
                v = d['kw'][nm]
                if nm == 'a':
                    d['kw'][nm] = v*L
                elif nm == 'kepler':
                    v = v.copy()
                    v[0] = v[0]*L
                    d['kw'][nm] = v
                elif nm == 'cartesian':
                    d['kw'][nm] = (v.T*sc).T
                elif nm in W.CART:
                    d['kw'][nm] = v*sc[W.CART.index(nm)]
        return d

    def do_split(self, rng):
        '''Only G (M0 + m) matters.'''
        P = self.pyorb
        num = W.size(rng, 1, 4)
        a, L, mode = make(rng, P, num=num)
        oa = Obs(a)
        frac = rng.uniform(0, 1)
        # all of it central, or all of it shifted
        tot = np.asarray(O.ld(oa.M0) + O.ld(oa.m), dtype=float)
        M0b = float(tot.min()*frac)
        b = P.Orbit(M0b, G=a.G, num=num, degrees=a.degrees, type=a.type, m=tot - M0b, auto_update=a.auto_update, direct_update=a.direct_update)
        if rng.random() < 0.5:
            b.kepler = oa.kep
            a.kepler = oa.kep
        else:
            b.cartesian = oa.cart
            a.cartesian = oa.cart
        g = Gen(rng, L)
        for step in range(int(rng.integers(1, 5))):
            d = g.op(Obs(a, False), ['elem', 'cartesian', 'row', 'velocity', 'period', 'mean_motion', 'type', 'propagate', 'recalc', 'equinoctial'])
            self.note(d)
            a, b = apply(a, d), apply(b, d)
        self.pair(a, b, 1.0, 1.0, 1.0, 'split')

    def do_alone(self, rng):
        '''Each orbit uses its own mass.'''
        P = self.pyorb
        num = W.size(rng, 2, 5)
        a, L, mode = make(rng, P, num=num)
        a.m[:] = rng.uniform(0, 3, num)*a.M0
        oa = Obs(a)
        kep = kin(W.rand_kep(rng, num, L), a.type, a.degrees)
        cart = np.asarray(O.kep_state(W.rand_kep(rng, num, L), oa.mu), dtype=float)
        usek = rng.random() < 0.5
        if usek:
            a.kepler = kep
        else:
            a.cartesian = cart
        oa = Obs(a)
        g = Gen(rng, L)
        single = []
        for c in range(num):
            b = P.Orbit(a.M0, G=a.G, num=1, degrees=a.degrees, type=a.type, m=np.array([oa.m[c]]), auto_update=a.auto_update, direct_update=a.direct_update)
            if usek:
                b.kepler = kep[:, c:c+1]
            else:
                b.cartesian = cart[:, c:c+1]
            single.append(b)
        for step in range(int(rng.integers(1, 5))):
            d = g.op(Obs(a, False), ['propagate', 'type', 'period', 'velocity', 'elem', 'update', 'update', 'read'])
            self.note(d)
            a = apply(a, d)
            for c in range(num):
                dd = dict(d)
                if d['op'] == 'update':
                    if c not in d['ks']:
                        continue
                    q = d['ks'].index(c)
                    dd['kw'] = {k: v if isinstance(d['sel'], (int, np.integer)) else v[..., q:q+1] for k, v in d['kw'].items()}
                    dd['sel'] = slice(None)
                    if isinstance(d['sel'], (int, np.integer)):
                        dd['sel'] = 0
                    self.ctx.count('alone updated')
                elif 'value' in d and isinstance(d['value'], np.ndarray):
                    dd['value'] = d['value'][c:c+1].copy()
                single[c] = apply(single[c], dd)
        for c in range(num):
            self.pair(a[c], single[c], 1.0, 1.0, 1.0, 'alone')

    def do_shares(self, rng):
        '''Masses of any share of the whole count, to rounding: the object against massless ones around all the mass.'''
        ctx, P = self.ctx, self.pyorb
        num = W.size(rng, 1, 5)
        L = float(10**rng.uniform(-3, 12)) if rng.random() < 0.3 else 1.0
        M0 = float(10**rng.uniform(-3, 30)) if rng.random() < 0.3 else float(rng.uniform(0.5, 2))
        G = float(10**rng.uniform(-12, 3)) if rng.random() < 0.3 else 1.0
        lo, hi = [(-9, -5), (-9, 0), (-3, 3), (0, 9)][rng.integers(4)]
        m = M0*10**rng.uniform(lo, hi, num)
        deg, typ = bool(rng.integers(2)), ANOMS[rng.integers(3)]
        mode = ['direct', 'lazy'][rng.integers(2)]
        kt = W.rand_kep(rng, num, L)
        k = kin(kt, typ, deg)
        tot = O.ld(M0) + O.ld(m)
        kw = dict(G=G, degrees=deg, type=typ, direct_update=mode == 'direct')
        usek = rng.random() < 0.5
        x = np.asarray(O.kep_state(kt, O.ld(G)*tot), dtype=float)
        how = ['made', 'assigned', 'added', 'updated', 'later'][rng.integers(5)]
        src = dict(zip(W.KEP, k)) if usek else dict(zip(W.CART, x))
        mm = m if num > 1 or rng.random() < 0.7 else float(m[0])
        if how == 'made':
            a = P.Orbit(M0, num=num, m=mm, **src, **kw)
        elif how == 'assigned':
            a = P.Orbit(M0, num=num, m=mm, **kw)
            if usek:
                a.kepler = k
            else:
                a.cartesian = x
        elif how == 'added':
            a = P.Orbit(M0, num=0, **kw)
            a.add(num=num, m=mm, **src)
        elif how == 'updated':
            a = P.Orbit(M0, num=num, **kw)
            if mode == 'lazy':
                a.update(slice(None), m=m, **src)
            else:
                a.m[:] = m
                a.update(slice(None), **src)
        else:
            a = P.Orbit(M0, num=num, **kw)
            a.kepler = k
            a.cartesian
            a.m[:] = m
            if usek:
                a.calculate_cartesian()
            else:
                a.cartesian = x
        self.note(dict(op='made', how=how, M0=M0, m=m, G=G, kepler=usek))
        dt = float(rng.uniform(-2, 2)*np.min(2*np.pi*np.sqrt(O.ld(kt[0])**3/(O.ld(G)*tot))))
        bs = []
        for c in range(num):
            b = P.Orbit(float(tot[c]), num=1, m=0.0, **kw)
            if usek:
                b.kepler = k[:, c:c+1]
            else:
                b.cartesian = x[:, c:c+1]
            bs.append(b)
        names = ('period', 'mean_motion', 'speed', 'velocity', 'periapsis', 'apoapsis')
        for stage in range(2):
            A = Obs(a)
            Bs = [Obs(b) for b in bs]
            g = good(A.cart, A.mu)
            bc, bk = np.hstack([B.cart for B in Bs]), np.hstack([B.kep for B in Bs])
            # a share of the mass must show where it is above the tolerance
            tol = 2e-10 if stage == 0 else 1e-8
            ctx.within('share state', state_diff(A.cart, bc), tol, 'an orbit with a mass is not that of a massless one around all the mass', skip=~g, first=A.cart, second=bc, share=m/M0, log=self.tail())
            ctx.within('share elements', kep_same(A.kep, bk, A.deg, 1), tol*100, 'elements with a mass are not those of a massless one around all the mass', skip=~g, first=A.kep, second=bk, share=m/M0, log=self.tail())
            ctx.within('share axis', np.abs(O.ld(A.kep[0])/bk[0] - 1), tol*2, 'another semi-major axis', skip=~g, first=A.kep, second=bk, share=m/M0, log=self.tail())
            for nm in names:
                u, w = O.ld(getattr(a, nm)), O.ld(np.hstack([getattr(b, nm) for b in bs]))
                ctx.within('share ' + nm, np.abs(u/w - 1), tol*5, f'another {nm}', skip=~g | ~np.isfinite(np.asarray(w, dtype=float)), first=u, second=w, share=m/M0, log=self.tail())
            ctx.count('shares', num)
            ctx.count('small share', int(np.sum(g & (m < 1e-6*M0) & (m > 1e-8*M0))))
            ctx.count('large share', int(np.sum(g & (m > 1e3*M0))))
            ctx.judged_cols(np.vstack([A.kep, A.cart]).astype(float), g, tag=b'shares')
            if stage == 0:
                self.note(dict(op='propagate', dt=dt))
                a.propagate(dt)
                for b in bs:
                    b.propagate(dt)
                ctx.count('propagated')

    def do_scaling(self, rng):
        '''For fixed elements the speed grows with the square root of the mass.'''
        ctx = self.ctx
        P = self.pyorb
        a, L, mode = make(rng, P, num=W.size(rng, 1, 4), mode=['direct', 'lazy', 'manual'][rng.integers(3)], via='assign')
        k = a.kepler
        a.calculate_cartesian()
        v, r, per, sp = a.velocity, a.r, a.period, a.speed
        f = float(rng.uniform(0.2, 9))
        how = ['M', 'G'][rng.integers(2)]
        if how == 'M':
            a.M0 = a.M0*f
            a.m[:] = a.m*f
        else:
            a.G = a.G*f
        a.calculate_cartesian()
        ctx.check(bits(a.kepler) == bits(k), 'scaling', 'a request to keep the elements changed them', how=how)
        ctx.within('scaling speed', np.abs(O.ld(a.velocity)/v/np.sqrt(LD(f)) - 1), 1e-10, 'speed does not grow with the square root of the mass', how=how, factor=f)
        ctx.within('scaling speed', np.abs(O.ld(a.speed)/sp/np.sqrt(LD(f)) - 1), 1e-10, 'speed does not grow with the square root of the mass', how=how, factor=f)
        ctx.within('scaling position', np.max(np.abs(O.ld(a.r) - r)/np.linalg.norm(r, axis=0)), 1e-12, 'position depends on the mass for fixed elements', how=how, factor=f)
        ctx.within('scaling period', np.abs(O.ld(a.period)/per*np.sqrt(LD(f)) - 1), 1e-12, 'period does not fall with the square root of the mass', how=how, factor=f)
        ctx.count('scaling', a.num)
        self.judged(k, v, [f])


# ------------------------------------------------------------------ O13

class O13(Hist):
    rule = ('one case is one orbit of an object of a given floating-point type at a point of a history run in lockstep with a double-precision '
            'object; it counts when the types of all arrays were checked and its state compared with the twin; distinct by type and value')
    assumptions = ['accuracy is judged against the double-precision twin: 1e-3 for single precision, 1e-6 for the others', 'well-conditioned orbits']
    quick, deep = 700, 8000

    def setup(self):
        for k in ('float32', 'float64', 'longdouble', 'after add', 'after copy', 'after subset', 'after delete', 'after allocate', 'compared', 'large numbers', 'half'):
            self.ctx.need(k, 12)

    def do_history(self, rng):
        ctx = self.ctx
        if rng.random() < 0.06:
            return self.half(rng)
        dt = [np.float32, np.float32, np.float64, np.longdouble][rng.integers(4)]
        name = {np.float32: 'float32', np.float64: 'float64', np.longdouble: 'longdouble'}[dt]
        seed = int(rng.integers(2**31))
        a, L, mode = make(np.random.default_rng(seed), self.pyorb, dtype=dt, solver=False)
        b, _, _ = make(np.random.default_rng(seed), self.pyorb, dtype=np.float64, solver=False)
        if rng.random() < 0.2:
            n = a.num
            a.allocate(n)
            b.allocate(n)
            ctx.count('after allocate')
            d = Gen(rng, L).op(Obs(b, False), ['kepler', 'cartesian'])
            a, b = apply(a, d), apply(b, d)
        g = Gen(rng, L)
        ctx.count(name)
        self.types(a, dt)
        for step in range(int(rng.integers(2, 8))):
            d = g.op(Obs(b, False), W.ASSIGN_K + W.ASSIGN_C + W.STRUCT + ['type', 'propagate', 'mass', 'mode', 'recalc'])
            self.note(d)
            a, b = apply(a, d), apply(b, d)
            self.types(a, dt)
            if d['op'] in ('add', 'copy', 'subset', 'delete'):
                ctx.count('after ' + d['op'])
        A, B = Obs(a), Obs(b)
        if A.num == 0:
            return
        tol = 2e-3 if dt == np.float32 else 1e-6
        gd = good(np.where(np.isfinite(B.cart), B.cart, 1), B.mu)
        with np.errstate(all='ignore'):
            f = np.where(gd, 1/np.maximum(np.abs(1 - B.kep[1].astype(float)), 0.05), 1)
        lim = tol*f
        ctx.within('accuracy ' + name, state_diff(A.cart, B.cart), lim, f'{name}: state is not accurate to its type', skip=~gd | (lim > 0.05), got=A.cart, want=B.cart, log=self.tail(), mode=mode)
        ctx.within('elements ' + name, kep_same(A.kep, B.kep, B.deg, 1), lim*20, f'{name}: elements are not accurate to their type', skip=~gd | (lim > 0.02), got=A.kep, want=B.kep, log=self.tail(), mode=mode)
        for q in ('period', 'mean_motion', 'periapsis', 'apoapsis', 'velocity', 'speed'):
            u, w = [np.asarray(getattr(copy.deepcopy(o), q), dtype=O.LD) for o in (a, b)]
            sk = ~gd | (lim > 0.02) | ((B.kep[1] >= 1) if q == 'apoapsis' else False)
            ctx.within('derived ' + name, np.abs(u - w)/np.abs(w), lim*30, f'{name}: {q} is not accurate to its type', skip=sk, got=u, want=w, log=self.tail(), mode=mode)
        ctx.count('compared', A.num)
        if L > 1e10:
            ctx.count('large numbers', A.num)
        ctx.judged_cols(B.cart.astype(float), gd, tag=name.encode())
        ctx.sample(dict(dtype=name, history=self.tail(4)), cap=3)

    def half(self, rng):
        '''Half precision is kept; how accurate it is, is not judged.'''
        n = int(rng.integers(1, 4))
        o = self.pyorb.Orbit(1.0, G=1.0, num=n, dtype=np.float16, degrees=bool(rng.integers(2)), direct_update=bool(rng.integers(2)))
        k = kin(W.rand_kep(rng, n, 1.0, ('ell',)), 'true', o.degrees)
        o.kepler = k
        self.types(o, np.float16)
        ops = ['a', 'x', 'type', 'propagate', 'add', 'cartesian', 'delete']
        for _ in range(int(rng.integers(1, 4))):
            op = ops[rng.integers(len(ops))]
            self.note(dict(op=op))
            if op == 'a':
                o.a = 1.5
            elif op == 'x':
                o.x = o.x
            elif op == 'type':
                o.type = ANOMS[rng.integers(3)]
            elif op == 'propagate':
                o.propagate(0.5)
            elif op == 'add':
                o.add(num=1, a=1.0, e=0.2, i=0.3, omega=0.4, Omega=0.5, anom=0.6)
            elif op == 'cartesian':
                o.cartesian = o.cartesian.astype(float)
            else:
                o.delete(0)
                if o.num == 0:
                    return
            self.types(o, np.float16)
        self.ctx.count('half')

    def types(self, o, dt):
        ctx = self.ctx
        q = copy.deepcopy(o)
        want = np.dtype(dt)
        # the values are judged elsewhere; single precision never meets the tolerance
        q.solver_options = dict(q.solver_options, max_iter=5)
        for nm in ['kepler', 'cartesian', 'r', 'v', 'm', 'true_anomaly', 'eccentric_anomaly', 'mean_anomaly'] + W.KEP + W.CART:
            x = getattr(q, nm)
            ctx.check(x.dtype == want, 'type', f'{nm} is not of the type of the object', got=x.dtype, want=want, log=self.tail())
        for c in (q.copy(), q[0:1] if q.num else q[:], copy.copy(q)):
            ctx.check(c.kepler.dtype == want and c.cartesian.dtype == want and c.m.dtype == want and np.dtype(c.dtype) == want, 'type', 'a copy or selection is not of the type of the object', log=self.tail())
        for it in q:
            ctx.check(it.kepler.dtype == want and it.cartesian.dtype == want and it.m.dtype == want, 'type', 'an item is not of the type of the object', log=self.tail())
            break


# ------------------------------------------------------------------ O14

class O14(Hist):
    rule = ('one case is one object holding undefined orbits, run in lockstep with an object that holds only the defined ones; it counts when '
            'after a step the undefined ones were still undefined and the defined ones agreed; or one operation on an empty object; distinct by value')
    assumptions = ['defined orbits agree to 1e-9 (vectorised rounding may depend on the position in an array)',
                   'memory for new arrays is filled with a pattern while the library runs, so that uninitialised values show']
    quick, deep = 900, 9000
    kinds = ('mixed', 'mixed', 'empty', 'single')

    def setup(self):
        for k in ('undefined kept', 'defined agree', 'all undefined', 'none undefined later', 'partial elements', 'empty ops', 'set later', 'mode lazy', 'mode direct', 'mode manual', 'stale probe',
                  'op propagate', 'op type', 'op copy', 'op read', 'op delete', 'op update'):
            self.ctx.need(k, 20)

    def do_mixed(self, rng):
        ctx = self.ctx
        n = W.size(rng, 2, 7)
        mode = ['direct', 'lazy', 'direct2'][rng.integers(3)]
        ctx.count('mode ' + ('direct' if mode == 'direct2' else mode))
        und = rng.random(n) < 0.5
        und[rng.integers(n)] = True
        if rng.random() < 0.1:
            und[:] = True
            ctx.count('all undefined')
        deg, typ = bool(rng.integers(2)), ANOMS[rng.integers(3)]
        kw = dict(G=float(rng.uniform(0.5, 2)), degrees=deg, type=typ)
        M0 = float(rng.uniform(0.5, 2))
        m = rng.uniform(0, 1, n)
        dfn = np.nonzero(~und)[0]
        auto, direct = W.MODES[mode]
        A = self.pyorb.Orbit(M0, num=n, m=m, auto_update=auto, direct_update=direct, **kw)
        B = self.pyorb.Orbit(M0, num=len(dfn), m=m[dfn], auto_update=auto, direct_update=direct, **kw)
        L = 1.0
        kt = W.rand_kep(rng, n, L, ('ell', 'ell', 'hyp'))
        mu = O.ld(kw['G'])*(O.ld(M0) + m)
        how = rng.integers(5)
        k = kin(kt, typ, deg)
        x = np.asarray(O.kep_state(kt, mu), dtype=float)
        partial = []
        with inst.Poison([1.5, -3e5, 0.25][rng.integers(3)]):
            if how == 0 and len(dfn):
                A.update(inds=dfn, kepler=k[:, dfn])
                B.kepler = k[:, dfn]
            elif how == 1 and len(dfn):
                A.update(inds=~und, cartesian=x[:, dfn])
                B.cartesian = x[:, dfn]
            elif how in (2, 4):
                kk = k.copy()
                for c in np.nonzero(und)[0]:
                    r = rng.random(6) < 0.4
                    r[rng.integers(6)] = True
                    kk[r, c] = np.nan
                    partial.append(int(c))
                A.kepler = kk
                if len(dfn):
                    B.kepler = k[:, dfn]
                ctx.count('partial elements')
            elif how == 3:
                xx = x.copy()
                for c in np.nonzero(und)[0]:
                    r = rng.random(6) < 0.4
                    r[rng.integers(6)] = True
                    xx[r, c] = np.nan
                    partial.append(int(c))
                A.cartesian = xx
                if len(dfn):
                    B.cartesian = x[:, dfn]
                ctx.count('partial elements')
            self.note(dict(op='made', undefined=und, how=int(how), mode=mode))
            g = Gen(rng, L)
            self.compare(A, B, und)
            for step in range(int(rng.integers(3, 9))):
                if und.size == 0:
                    break
                A, B, und = self.step(rng, g, A, B, und)
                self.compare(A, B, und)
        ctx.sample(dict(undefined=und, history=self.tail(4)), cap=3)

    def spread(self, d, und, n):
        '''The operation on the object with undefined orbits that matches one on
        the defined orbits alone.'''
        idx = np.nonzero(~und)[0]
        v = d.get('value')
        if isinstance(v, np.ndarray) and v.shape and v.shape[-1] == len(idx):
            w = np.full(v.shape[:-1] + (n,), np.nan)
            w[..., idx] = v
            d = dict(d, value=w)
        return d

    def step(self, rng, g, A, B, und):
        ctx = self.ctx
        n = len(und)
        idx = np.nonzero(~und)[0]
        ob = Obs(B, False)
        c = rng.integers(9)
        if c == 0 and len(idx):
            d = g.op(ob, ['propagate'])
            self.note(d)
            if d['op'] == 'propagate':
                A, B = apply(A, self.spread(d, und, n)), apply(B, d)
            ctx.count('op propagate')
        elif c == 1:
            d = g.g_type(ob)
            d['op'] = 'type'
            self.note(d)
            A, B = apply(A, d), apply(B, d)
            ctx.count('op type')
        elif c == 2:
            w = [str(x) for x in rng.choice(W.READS, 5)]
            self.note(dict(op='read', what=w))
            for nm in w:
                got, want = np.asarray(getattr(A, nm)), np.asarray(getattr(B, nm))
                got2 = got.reshape(6, -1) if nm == 'equinoctial' else got
                want2 = want.reshape(6, -1) if nm == 'equinoctial' else want
                same = got2.shape[-1] == n
                if same:
                    x, y = got2[..., idx], want2
                    if nm == 'kepler':
                        same = bool(np.all(kep_same(x, y, A.degrees, 1) < 1e-6))
                    elif nm == 'equinoctial' or nm in W.KEP[2:] or nm.endswith('anomaly') or nm == 'mean_longitude':
                        # angles modulo a turn
                        turn = 360 if A.degrees else 2*np.pi
                        ang = slice(5, 6) if nm == 'equinoctial' else slice(None)
                        dd = np.abs(np.asarray(O.wrap_diff(x[ang], y[ang], turn), dtype=float))
                        same = bool(np.all(dd < 1e-6*turn)) and (nm != 'equinoctial' or near(x[:5], y[:5], 1e-6))
                    else:
                        same = near(x, y, 1e-6)
                ctx.check(same, 'reads', f'{nm} of defined orbits depends on undefined ones', got=got2, want=want2, undefined=und, log=self.tail())
            str(A), len(A)
            ctx.count('op read')
        elif c == 3:
            self.note(dict(op='copy'))
            A = [A.copy, lambda: copy.copy(A), lambda: A[:]][rng.integers(3)]()
            B = B.copy()
            for k, it in enumerate(A):
                ctx.check(bool(np.isnan(it.kepler).any() or np.isnan(it.cartesian).any()) == bool(und[k]), 'item', 'an item of an undefined orbit is defined or the other way round', k=k, undefined=und, log=self.tail())
            ctx.count('op copy')
        elif c == 4 and n > 1:
            k = int(rng.integers(n))
            self.note(dict(op='delete', k=k))
            A.delete(k)
            if not und[k]:
                B.delete(int(np.sum(~und[:k])))
            und = np.delete(und, k)
            ctx.count('op delete')
        elif c == 5 and len(idx):
            # assignments that reach defined orbits only
            d = g.op(ob, ['elem', 'row', 'velocity', 'period', 'anomaly'])
            if d['op'] == 'read':
                return A, B, und
            if d['op'] in ('elem', 'row'):
                names = W.KEP if d['op'] == 'elem' else W.CART
                self.note(d)
                v = np.broadcast_to(d['value'], (len(idx),)).copy()
                A.update(inds=idx, **{names[d['row']]: v})
                B.update(**{names[d['row']]: v})
            else:
                d['value'] = np.broadcast_to(d['value'], (len(idx),)).copy()
                self.note(d)
                A, B = apply(A, self.spread(d, und, n)), apply(B, d)
            ctx.count('op update')
        elif c == 6 and und.any():
            # define one of them
            k = int(rng.choice(np.nonzero(und)[0]))
            kt = W.rand_kep(rng, 1, 1.0)
            mu = O.ld(A.G)*(O.ld(A.M0) + O.ld(A.m[k]))
            if rng.random() < 0.5:
                kk = kin(kt, A.type, A.degrees)
                self.note(dict(op='define kep', k=k))
                if rng.random() < 0.5:
                    A.update(inds=k, kepler=kk[:, 0])
                else:
                    A.update(inds=[k], **{nm: kk[r] for r, nm in enumerate(W.KEP)})
            else:
                x = np.asarray(O.kep_state(kt, mu), dtype=float)
                self.note(dict(op='define cart', k=k))
                if rng.random() < 0.5:
                    A.update(inds=[k], cartesian=x)
                else:
                    A.update(inds=k, **{nm: float(x[r, 0]) for r, nm in enumerate(W.CART)})
            q = Obs(A)
            want = O.kep_state(kt, mu)
            ctx.within('set later', state_diff(q.cart[:, k:k+1], want), W.TOL, 'an orbit that was set later has another state', log=self.tail(), got=q.cart[:, k], want=want)
            ctx.within('set later', state_diff(q.state()[:, k:k+1], want), W.TOL, 'an orbit that was set later has other elements', log=self.tail(), got=q.kep[:, k], want=want)
            ctx.count('set later')
            und = und.copy()
            und[k] = False
            # rebuild the reference object
            B2 = self.pyorb.Orbit(B.M0, G=B.G, num=int(np.sum(~und)), m=np.asarray(A.m)[~und], degrees=B.degrees, type=B.type, auto_update=B.auto_update, direct_update=B.direct_update)
            B2.kepler = q.kep[:, ~und]
            B = B2
            # same source on both sides
            A.update(inds=np.nonzero(~und)[0], kepler=q.kep[:, ~und])
            if not und.any():
                ctx.count('none undefined later')
        elif c == 7:
            sel, ks = select(rng, n)
            which = ['calculate_cartesian', 'calculate_kepler'][rng.integers(2)]
            self.note(dict(op=which, sel=sel))
            A.kepler, A.cartesian
            getattr(A, which)(W.fix_empty(sel))
        elif c == 8:
            to = ['direct', 'lazy', 'manual'][rng.integers(3)]
            if to == 'manual':
                # read only, then go on
                A.kepler, A.cartesian
                p = Obs(A)
                old = (A.auto_update, A.direct_update)
                A.auto_update, A.direct_update = W.MODES['manual']
                A.calculate_cartesian()
                A.calculate_kepler()
                q = Obs(A)
                ctx.check(bool(np.all(np.isnan(q.kep).any(0) == np.isnan(p.kep).any(0))), 'manual', 'a requested conversion defined or undefined an orbit', undefined=und, log=self.tail())
                A.auto_update, A.direct_update = old
                ctx.count('mode manual')
            else:
                A.auto_update, A.direct_update = W.MODES[to]
                B.auto_update, B.direct_update = W.MODES[to]
        return A, B, und

    def compare(self, A, B, und):
        ctx = self.ctx
        p = Obs(A)
        q = Obs(B)
        idx = np.nonzero(~und)[0]
        if not ctx.check(p.num == len(und) and q.num == len(idx), 'size', 'wrong number of orbits', got=p.num, want=len(und), log=self.tail()):
            return
        for k, c in ((p.kep, p.cart), (p.kep2, p.cart2)):
            bad = [int(n) for n in np.nonzero(und)[0] if np.isfinite(k[:, n]).all() or np.isfinite(c[:, n]).all()]
            ctx.check(not bad, 'defined by itself', 'an undefined orbit became defined', which=bad, kep=k, cart=c, log=self.tail())
            ctx.count('undefined kept', int(und.sum()))
            if len(idx):
                ctx.check(bool(np.isfinite(k[:, idx]).all() and np.isfinite(c[:, idx]).all()), 'lost', 'a defined orbit became undefined', kep=k, cart=c, undefined=und, log=self.tail())
                ctx.within('defined state', state_diff(c[:, idx], q.cart), 1e-6, 'a defined orbit has another state beside undefined ones', got=c[:, idx], want=q.cart, undefined=und, log=self.tail())
                ctx.within('defined elements', kep_same(k[:, idx], q.kep, p.deg, 1), 1e-6, 'a defined orbit has other elements beside undefined ones', got=k[:, idx], want=q.kep, undefined=und, log=self.tail())
                ctx.count('defined agree', len(idx))
        # nothing but undefined values in an orbit that was never set
        self.judged(np.nan_to_num(p.kep), und)

    def do_empty(self, rng):
        '''Objects without orbits.'''
        ctx = self.ctx
        mode = ['direct', 'lazy', 'manual'][rng.integers(3)]
        auto, direct = W.MODES[mode]
        typ = ANOMS[rng.integers(3)]
        o = self.pyorb.Orbit(1.0, G=1.0, num=0, type=typ, degrees=bool(rng.integers(2)), auto_update=auto, direct_update=direct)
        if rng.random() < 0.4:
            o = self.pyorb.Orbit(1.0, G=1.0, num=2, type=typ, auto_update=auto, direct_update=direct, a=1.0, e=0.1, i=0.2, omega=0.3, Omega=0.4, anom=0.5)
            o.delete([0, 1])
        for step in range(8):
            c = rng.integers(9)
            self.note(dict(op='empty', which=int(c)))
            if c == 0:
                for nm in W.READS:
                    x = getattr(o, nm)
                    ctx.check(np.shape(x)[-1:] == (0,), 'empty', f'{nm} of an empty object is not empty', got=np.shape(x))
            elif c == 1:
                o.kepler = np.zeros((6, 0))
                o.cartesian = np.zeros((6, 0))
            elif c == 2:
                o.propagate(1.0)
            elif c == 3:
                o.type = ANOMS[rng.integers(3)]
            elif c == 4:
                ctx.check(len(o) == 0 and o.num == 0 and list(o) == [] and len(o.copy()) == 0 and len(o[:]) == 0, 'empty', 'an empty object is not empty')
            elif c == 5:
                o.calculate_cartesian()
                o.calculate_kepler()
            elif c == 6:
                o.a = 1.0
                o.x = np.zeros(0)
                o.update(e=0.3)
                o.update(vx=0.3)
            elif c == 7:
                str(o)
                o.delete(slice(None))
                o.delete([])
                o.allocate(0)
            else:
                o.add(0)
            ctx.check(o.num == 0, 'empty', 'an empty object is not empty any more', which=int(c))
            ctx.count('empty ops')
        n = int(rng.integers(1, 4))
        kt = W.rand_kep(rng, n)
        o.auto_update, o.direct_update = W.MODES[['direct', 'lazy'][rng.integers(2)]]
        o.add(n, kepler=kin(kt, o.type, o.degrees))
        ctx.within('set later', state_diff(o.cartesian, O.kep_state(kt, np.ones(n))), W.TOL, 'orbits added to an empty object have another state')
        ctx.count('set later')
        self.judged(kt)

    def do_single(self, rng):
        '''Building up an orbit element by element, and the stale probe.'''
        ctx = self.ctx
        mode = ['direct', 'lazy', 'direct2'][rng.integers(3)]
        auto, direct = W.MODES[mode]
        n = int(rng.integers(1, 4))
        deg, typ = bool(rng.integers(2)), ANOMS[rng.integers(3)]
        o = self.pyorb.Orbit(1.0, G=1.0, num=n, degrees=deg, type=typ, auto_update=auto, direct_update=direct)
        kt = W.rand_kep(rng, n)
        want = O.kep_state(kt, np.ones(n))
        usek = rng.random() < 0.5
        vals = kin(kt, typ, deg) if usek else np.asarray(want, dtype=float)
        names = W.KEP if usek else W.CART
        for c, r in enumerate(rng.permutation(6)):
            if rng.random() < 0.5:
                q = Obs(o)
                ctx.check(bool(np.isnan(q.kep).any(0).all() and np.isnan(q.cart).any(0).all()), 'defined by itself', 'an orbit became defined before all its elements were set', set_so_far=c, kep=q.kep, cart=q.cart, mode=mode)
            if rng.random() < 0.5:
                o.kepler if usek else o.cartesian
                (o.cartesian if usek else o.kepler)
            if rng.random() < 0.5:
                setattr(o, names[r], vals[r])
            else:
                o.update(**{names[r]: vals[r]})
        q = Obs(o)
        ctx.within('set later', state_diff(q.cart, want), W.TOL, 'an orbit built up element by element has another state', mode=mode, got=q.cart, want=want)
        ctx.within('set later', state_diff(q.state(), want), W.TOL, 'an orbit built up element by element has other elements', mode=mode, got=q.kep)
        ctx.count('set later', n)
        ctx.count('undefined kept', n)
        self.judged(vals)
        # an element made undefined
        row, c = int(rng.integers(6)), int(rng.integers(n))
        if rng.random() < 0.5:
            v = o.kepler
            v[row, c] = np.nan
            o.kepler = v
            other = o.cartesian
        else:
            v = o.cartesian
            v[row, c] = np.nan
            o.cartesian = v
            other = o.kepler
        ctx.count('stale probe')
        ctx.check(bool(np.isnan(other[:, c]).any()), 'stale-counterpart', 'an orbit with an undefined element still shows the other kind it had before', mode=mode)
        rest = [k for k in range(n) if k != c]
        ctx.check(bool(np.isfinite(other[:, rest]).all()), 'neighbours', 'an undefined element of one orbit made others undefined', mode=mode)


CHECKS = dict(O01=O01, O02=O02, O03=O03, O04=O04, O05=O05, O06=O06, O07=O07, O08=O08, O09=O09, O10=O10, O11=O11, O12=O12, O13=O13, O14=O14)
