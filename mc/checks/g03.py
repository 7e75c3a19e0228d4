"""G03: propagation distances obey the flow model."""

import itertools
import warnings

import acoular as ac
import numpy as np
from traits.api import Tuple

from mc.core import expect

POINTS = np.array([[0.0, 0.5, -0.4, 0.25, 0.0], [0.0, -0.3, 0.2, 0.75, 0.0], [1.0, 0.8, 1.25, -0.5, 0.0]])
MICS = np.array([[0.0, 0.4, -0.3], [0.0, 0.1, 0.25], [0.0, -0.05, 0.1]])
DIRS = ((1.0, 0.0, 0.0), (0.0, 0.0, -1.0), (1.0, 1.0, 0.0), (0.3, -2.0, 0.5))


def subsets(n, sizes):
    for k in sizes:
        yield from itertools.permutations(range(n), k)


def pairs(env, single, text, ck, mics=MICS, rtol=1e-12):
    """Every set of points and microphones gives the values of the single pairs."""
    for ps in subsets(POINTS.shape[1], (1, 2, 3)):
        g = POINTS[:, ps]
        for ms in subsets(mics.shape[1], (1, 2, 3)):
            for form in ('C', 'F'):
                r = env._r(np.array(g, order=form), np.array(mics[:, ms], order=form))
                want = single[np.ix_(ps, ms)]
                if len(ms) == 1:
                    want = want[:, 0]
                ck.step(text, ps, ms, form)
                expect(r.shape == want.shape, 'shape', lambda: f'{text}: {r.shape} for {ps} {ms}')
                expect(np.allclose(r, want, rtol=rtol, atol=1e-12), 'together', lambda: f'{text}: {r.tolist()} for points {ps} microphones {ms} instead of {want.tolist()}')
        r = env._r(g)
        want = env._r(g, np.zeros((3, 1)))
        expect(r.shape == (len(ps),) and np.allclose(r, want, rtol=rtol, atol=1e-12), 'origin', lambda: f'{text}: {r} instead of {want}')


def euclid():
    return np.linalg.norm(POINTS[:, :, None] - MICS[:, None, :], axis=0)


def rest(ck, env, text):
    d = env._r(POINTS, MICS)
    ck.outcome(text, np.round(d, 9).tobytes())
    expect(np.allclose(d, euclid(), rtol=1e-12), 'rest', lambda: f'{text}: {d.tolist()} instead of {euclid().tolist()}')
    pairs(env, euclid(), text, ck)


def uniform(ck, ma, fdv, c):
    env = ac.UniformFlowEnvironment(ma=ma, fdv=np.array(fdv), c=c)
    text = f'uniform {ma} {fdv} {c}'
    e = np.array(fdv) / np.linalg.norm(fdv)
    d = np.empty((POINTS.shape[1], MICS.shape[1]))
    for i, j in itertools.product(range(d.shape[0]), range(d.shape[1])):
        d[i, j] = env._r(POINTS[:, [i]], MICS[:, [j]])[0]
        # the wave fronts are spheres that grow with c and drift with the flow
        front = np.linalg.norm(MICS[:, j] - POINTS[:, i] - ma * e * d[i, j])
        ck.step(text, i, j)
        expect(abs(front - d[i, j]) < 1e-9 and d[i, j] >= 0, 'front', lambda: f'{text}: {d[i, j]} for {POINTS[:, i]} to {MICS[:, j]}, sphere of {front}')
    ck.outcome(text, np.round(d, 9).tobytes())
    # sources next to a microphone
    for h, v in itertools.product((1e-4, 5e-3, 0.05), np.vstack((np.eye(3), -np.eye(3)))):
        x = MICS[:, 1] + h * v
        n = env._r(x[:, None], MICS[:, [1]])[0]
        front = np.linalg.norm(MICS[:, 1] - x - ma * e * n)
        ck.step(text, 'near', h)
        expect(abs(front - n) < 1e-9 and n >= 0, 'front', lambda: f'{text}: {n} for {x} to {MICS[:, 1]}, sphere of {front}')
    pairs(env, d, text, ck)


def changed(ck, seq):
    """Settings are changed between uses."""
    env = ac.UniformFlowEnvironment()
    st = {'ma': 0.0, 'fdv': (1.0, 0.0, 0.0), 'c': 343.0}
    g = ac.ImportGrid(pos=POINTS[:, :3])
    s = ac.SteeringVector(env=env, grid=g, mics=ac.MicGeom(pos_total=MICS))
    for k, v in seq:
        setattr(env, k, np.array(v) if k == 'fdv' else v)
        st[k] = v
        new = ac.UniformFlowEnvironment(ma=st['ma'], fdv=np.array(st['fdv']), c=st['c'])
        for name, got, want in (
            ('rm', s.rm, new._r(POINTS[:, :3], MICS)),
            ('r0', s.r0, new._r(POINTS[:, :3])),
        ):
            ck.step(seq, k, name)
            expect(np.allclose(got, want, rtol=1e-12), 'changed', lambda: f'{seq}: {name} {got} instead of {want}')


class Constant(ac.FlowField):
    w = Tuple

    def _get_digest(self):
        return f'constant{self.w}'

    def v(self, xx):
        return np.array(self.w, float), np.zeros((3, 3))


class Layer(ac.FlowField):
    """Flow along x that depends on z."""

    p = Tuple

    def _get_digest(self):
        return f'layer{self.p}'

    def v(self, xx):
        u, w = self.p
        a = np.tanh((xx[2] - 0.5) / w)
        dv = np.zeros((3, 3))
        dv[0, 2] = u / 2 * (1 - a * a) / w
        return np.array([u * (1 + a) / 2, 0.0, 0.0]), dv


GM = np.array([[0.0, 0.4, 0.0], [0.0, 0.1, 0.0], [0.0, -0.05, 0.1]])
GP = np.array([[0.0, 0.5, -0.4, 0.25, -0.5], [0.0, -0.3, 0.2, 0.4, -0.5], [1.0, 0.8, 1.2, 0.9, 1.0]])


def general(ck, v):
    env = ac.GeneralFlowEnvironment(ff=Constant(w=v), N=400, Om=np.pi)
    m = np.linalg.norm(v) / env.c
    ref = ac.UniformFlowEnvironment(ma=m, fdv=np.array(v) if m else np.array((1.0, 0, 0)))._r(GP, MICS)
    r = env._r(GP, MICS)
    ck.step('general', v)
    ck.outcome('general', v, np.round(r, 5).tobytes())
    expect(np.allclose(r, ref, rtol=1.2e-2), 'general', lambda: f'{v}: {r.tolist()} instead of {ref.tolist()}')


ROI = np.array([p for p in itertools.product((-0.6, 0.0, 0.6), (-0.6, 0.0, 0.6), (0.7, 1.3))]).T


def independent(ck, field):
    """With a fixed region of interest, the values do not depend on what else is evaluated, or in which order."""
    env = ac.GeneralFlowEnvironment(ff=FIELDS[field](), N=100, Om=np.pi, roi=ROI)
    single = np.empty((5, 3))
    for j in range(3):
        new = ac.GeneralFlowEnvironment(ff=FIELDS[field](), N=100, Om=np.pi, roi=ROI)
        single[:, j] = [new._r(GP[:, [i]], GM[:, [j]])[0] for i in range(5)]
    for ps in subsets(5, (1, 2, 5) if ck.quick else (1, 2, 3, 4, 5)):
        if len(ps) == 5 and ps[0] > ps[1]:
            continue
        for ms in subsets(3, (1, 2, 3)):
            r = env._r(GP[:, ps], GM[:, ms]).reshape(len(ps), len(ms))
            ck.step(field, ps, ms)
            expect(np.allclose(r, single[np.ix_(ps, ms)], rtol=1e-9), 'together', lambda: f'{field} {ps} {ms}: {r} instead of {single[np.ix_(ps, ms)]}')
    ck.outcome(field, single.tobytes())


def settings(ck, seq):
    """The stored rays are those of the current settings."""
    env = ac.GeneralFlowEnvironment(ff=Constant(w=(20.0, 0.0, 0.0)), N=36, Om=np.pi)
    st = {}
    gp = GP
    for k, v in seq:
        val = Constant(w=v) if k == 'ff' else v
        if k == 'jet':
            env.ff = ac.OpenJet(v0=v, origin=(-1.0, 0.0, 1.0), D=0.5)
            st.pop('ff', None)
            st['jet'] = v
        elif k == 'jetv':
            if isinstance(env.ff, ac.OpenJet):
                env.ff.v0 = v
                st['jet'] = v
        elif k == 'grid':
            gp = GP + np.array(v)[:, None]
        elif k == 'roi':
            env.roi = st['roi'] = ROI + np.array(v)[:, None]
        else:
            setattr(env, k, val)
            if k == 'ff':
                st.pop('jet', None)
            st[k] = v
        r = env._r(gp, MICS[:, :1])
        new = ac.GeneralFlowEnvironment(ff=Constant(w=(20.0, 0.0, 0.0)), N=36, Om=np.pi)
        for a, b in st.items():
            if a == 'jet':
                new.ff = ac.OpenJet(v0=b, origin=(-1.0, 0.0, 1.0), D=0.5)
            else:
                setattr(new, a, Constant(w=b) if a == 'ff' else b)
        want = new._r(gp, MICS[:, :1])
        ck.step('settings', seq)
        expect(np.allclose(r, want, rtol=1e-9), 'settings', lambda: f'{seq}: {r} instead of {want}')


FIELDS = {
    'constant': lambda: Constant(w=(50.0, 20.0, 0.0)),
    'rotating': lambda: ac.RotatingFlow(rps=5.0, v0=20.0),
    'openjet': lambda: ac.OpenJet(v0=70.0, origin=(-2.0, 0.0, 1.0), D=1.0),
    'slotjet': lambda: ac.SlotJet(v0=70.0, origin=(-2.0, 0.0, 1.0), plane=(0.0, 1.0, 0.0), B=1.0),
    'layer': lambda: Layer(p=(80.0, 0.1)),
    'layer-thin': lambda: Layer(p=(60.0, 0.02)),
}


def path_time(ff, c, pts):
    """Time along straight pieces through the flow."""
    t = 0.0
    for a, b in zip(pts, pts[1:]):
        L = np.linalg.norm(b - a)
        e = (b - a) / L
        s = (np.arange(60) + 0.5) / 60
        for f in s:
            v = ff.v(a + f * (b - a))[0]
            ve = v @ e
            t += L / 60 / (ve + np.sqrt(c * c - v @ v + ve * ve))
    return t


def first(ck, field):
    """Sound takes the fastest way: no path through a lattice of points is faster, or it arrives no later than on the straight line."""
    ff = FIELDS[field]()
    env = ac.GeneralFlowEnvironment(ff=ff, N=400 if ck.quick else 1600, Om=np.pi)
    r = env._r(GP, MICS[:, :1])[:, None]
    late = ''
    for i, j in itertools.product(range(GP.shape[1]), range(1)):
        a, b = GP[:, i], MICS[:, j]
        straight = path_time(ff, env.c, [a, b]) * env.c
        best = straight
        for f, dx, dy in itertools.product((0.3, 0.5, 0.7), (-0.16, -0.12, -0.08, -0.04, 0.0, 0.04, 0.08), (-0.04, 0.0, 0.04)):
            m = a + f * (b - a) + np.array([dx, dy, 0.0])
            t = path_time(ff, env.c, [a, m, b]) * env.c
            best = min(best, t)
            ck.step(field, i, j, f, dx, dy)
        if r[i, j] > best * 1.0025:
            late = late or f'{field} point {a} microphone {b}: {r[i, j]}, straight line {straight}, best path {best}'
        expect(r[i, j] <= straight * 1.003, 'slow', lambda: f'{field} point {a} microphone {b}: {r[i, j]}, straight line {straight}, best path {best}')
        expect(r[i, j] >= best * 0.985, 'early', lambda: f'{field} point {a} microphone {b}: {r[i, j]}, straight line {straight}, best path {best}')
    ck.outcome(field, np.round(r, 4).tobytes())
    expect(not late, 'late', late)


JETS = {
    'rotating': [lambda o: ac.RotatingFlow(rps=2.0, v0=5.0, origin=o), lambda o: ac.RotatingFlow(rps=-1.0, origin=o)],
    'openjet': [lambda o: ac.OpenJet(v0=10.0, origin=o), lambda o: ac.OpenJet(v0=20.0, D=0.5, l=3.0, origin=o)],
    'slotjet': [
        lambda o: ac.SlotJet(v0=10.0, origin=o),
        lambda o: ac.SlotJet(v0=10.0, origin=o, flow=(0.0, 0.0, 2.0), plane=(1.0, 0.0, 0.0), B=0.5),
        lambda o: ac.SlotJet(v0=10.0, origin=o, flow=(1.0, 1.0, 0.0), plane=(0.0, 0.0, -3.0)),
    ],
}


def kink(name, ff, xx):
    """The model is not smooth at the edge of the core, on the axis and at the nozzle."""
    if name == 'rotating':
        return False
    x1 = xx - ff.origin
    if name == 'openjet':
        r = np.hypot(x1[1], x1[2])
        a = 0.5022 / ff.l * x1[0]
        return abs(r + a - ff.D / 2) < 1e-3 or r < 1e-3 or abs(x1[0]) < 1e-3
    f = ff.flow / np.linalg.norm(ff.flow)
    p = ff.plane / np.linalg.norm(ff.plane)
    x = f @ x1
    y = np.cross(f, p) @ x1
    return abs(abs(y) + np.sqrt(np.pi) / 2 * 0.5668 / ff.l * x - ff.B / 2) < 1e-3 or abs(y) < 1e-3 or abs(x) < 1e-3


def jacobian(ck, name, i, o):
    ff = JETS[name][i](np.array(o))
    for d in itertools.product((-0.5, 0.0, 0.2, 1.0, 3.0), (-0.3, 0.0, 0.1), (-0.2, 0.0, 0.4)):
        xx = np.array(o) + np.array(d)
        v, dv = ff.v(xx)
        ck.step(name, i, d)
        ck.outcome(name, i, np.round(v, 9).tobytes())
        expect(np.isfinite(v).all() and np.isfinite(dv).all(), 'not-finite', lambda: f'{name} {i} at {d} from the origin: {v}, {dv.tolist()}')
        if kink(name, ff, xx):
            continue
        h = 1e-6
        num = np.array([(ff.v(xx + h * e)[0] - ff.v(xx - h * e)[0]) / (2 * h) for e in np.eye(3)]).T
        expect(np.allclose(dv, num, atol=1e-4 * (1 + np.abs(num).max())), 'jacobian', lambda: f'{name} {i} at {d}: {dv.tolist()} instead of {num.tolist()}')
        # moved along with the nozzle
        v0 = JETS[name][i](np.zeros(3)).v(np.array(d))[0]
        expect(np.allclose(v, v0, atol=1e-9), 'origin', lambda: f'{name} {i} at {d}: {v} instead of {v0}')


def rate(core, x, spread, l, c):
    """Speed relative to the exit: 1 in the core, Gaussian outside of it."""
    w = c / l * x
    h = core + spread * w
    if h < 0:
        return 1.0
    return np.exp(-(h**2) / (2 * w**2)) if x else 0.0


def profile(ck, name, o):
    """The velocities are those of the described models."""
    pts = list(itertools.product((0.0, 0.2, 1.0, 3.0), (-0.3, 0.0, 0.08, 0.15), (-0.2, 0.0, 0.07, 0.4)))
    if name == 'rotating':
        for rps, rpm, v0 in itertools.product((1.0, -0.5), (False, True), (0.0, 2.0)):
            ff = ac.RotatingFlow(v0=v0, origin=np.array(o))
            if rpm:
                ff.rpm = -60 * rps  # positive values are clockwise
                expect(np.isclose(ff.rpm, -60 * rps) and np.isclose(ff.rps, rps), 'rpm', lambda: f'rpm {ff.rpm}, rps {ff.rps} for {rps}')
            else:
                ff.rps = rps
            expect(np.isclose(ff.omega, 2 * np.pi * rps), 'omega', lambda: f'omega {ff.omega} for {rps}')
            for d in pts:
                w = 2 * np.pi * rps
                want = np.array((-w * d[1], w * d[0], v0))
                v = ff.v(np.array(o) + d)[0]
                ck.step(name, rps, rpm, v0, d)
                expect(np.allclose(v, want, atol=1e-9), 'profile', lambda: f'rotating {rps} at {d}: {v} instead of {want}')
    elif name == 'openjet':
        for D, l, v0 in itertools.product((0.2, 0.5), (6.2, 3.0), (10.0, 40.0)):
            ff = ac.OpenJet(v0=v0, D=D, l=l, origin=np.array(o))
            for d in pts:
                if abs(np.hypot(d[1], d[2]) - D / 2 + 0.5022 / l * d[0]) < 1e-9:
                    continue
                want = np.array((v0 * rate(np.hypot(d[1], d[2]) - D / 2, d[0], 1.0, l, 0.5022), 0.0, 0.0))
                v = ff.v(np.array(o) + d)[0]
                ck.step(name, D, l, v0, d)
                expect(np.allclose(v, want, atol=1e-9), 'profile', lambda: f'openjet {D} {l} {v0} at {d}: {v} instead of {want}')
    else:
        axes = (((1.0, 0, 0), (0, 1.0, 0)), ((0, 0, 2.0), (1.0, 0, 0)), ((1.0, 1.0, 0), (0, 0, -3.0)), ((0, 0.3, 0.4), (0.5, 0, 0)))
        for B, l, v0, (f, p) in itertools.product((0.2, 0.5), (5.2, 3.0), (10.0, 40.0), axes):
            ff = ac.SlotJet(v0=v0, B=B, l=l, origin=np.array(o), flow=np.array(f), plane=np.array(p))
            f1, p1 = np.array(f) / np.linalg.norm(f), np.array(p) / np.linalg.norm(p)
            n = np.cross(f1, p1)
            for d in pts:
                # along the flow, across the slot, along the slot
                if abs(abs(d[1]) - B / 2 + np.sqrt(np.pi) / 2 * 0.5668 / l * d[0]) < 1e-9:
                    continue
                want = f1 * v0 * rate(abs(d[1]) - B / 2, d[0], np.sqrt(np.pi) / 2, l, 0.5668)
                v = ff.v(np.array(o) + d[0] * f1 + d[1] * n + d[2] * p1)[0]
                ck.step(name, B, l, v0, d)
                expect(np.allclose(v, want, atol=1e-6), 'profile', lambda: f'slotjet {B} {l} {v0} {f} {p} at {d}: {v} instead of {want}')


def at_nozzle(ck, name):
    """A microphone in the plane of the nozzle."""
    ff = {'openjet': ac.OpenJet, 'slotjet': ac.SlotJet}[name](v0=40.0, origin=np.array((0.0, 0.0, 1.0)))
    env = ac.GeneralFlowEnvironment(ff=ff, N=64, Om=np.pi)
    r = env._r(GP, MICS)
    ck.step('nozzle', name)
    expect(np.isfinite(r).all(), 'not-finite', lambda: f'{name}: {r}')


def item(ck, it):
    k = it[0]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        if k == 'rest':
            for c in (343.0, 1.0):
                ck.case(f'rest/{c}', rest, ck, ac.Environment(c=c), f'rest {c}')
            for d in DIRS:
                ck.case(f'rest/uniform/{d}', rest, ck, ac.UniformFlowEnvironment(ma=0.0, fdv=np.array(d)), f'uniform 0 {d}')
        elif k == 'uniform':
            ck.case(f'uniform/{it[1:]}', uniform, ck, *it[1:])
        elif k == 'changed':
            moves = [('ma', 0.0), ('ma', 0.3), ('fdv', DIRS[2]), ('fdv', DIRS[1]), ('c', 340.0)]
            for n in (1, 2, 3):
                for seq in itertools.product(moves, repeat=n):
                    ck.case(f'changed/{seq}', changed, ck, seq)
        elif k == 'general':
            ck.case(f'general/{it[1]}', general, ck, it[1])
        elif k == 'independent':
            ck.case(f'independent/{it[1]}', independent, ck, it[1])
        elif k == 'first':
            ck.case(f'first/{it[1]}', first, ck, it[1])
        elif k == 'settings':
            ck.case(f'settings/{it[1]}', settings, ck, it[1])
        elif k == 'jacobian':
            for i in range(len(JETS[it[1]])):
                for o in ((0.0, 0.0, 0.0), (-0.5, 0.25, 1.0)):
                    ck.case(f'jacobian/{it[1]}/{i}/{o}', jacobian, ck, it[1], i, o)
        elif k == 'profile':
            for o in ((0.0, 0.0, 0.0), (-0.5, 0.25, 1.0)):
                ck.case(f'profile/{it[1]}/{o}', profile, ck, it[1], o)
        elif k == 'nozzle':
            ck.case(f'nozzle/{it[1]}', at_nozzle, ck, it[1])


def run(ck):
    items = [('first', f) for f in FIELDS] + [('independent', f) for f in FIELDS]
    items += [('general', v) for v in ((0.0, 0.0, 0.0), (30.0, 0.0, 0.0), (0.0, 0.0, 60.0), (20.0, -40.0, 10.0))]
    moves = [('ff', (0.0, 40.0, 0.0)), ('c', 340.0), ('N', 64), ('Om', 2.5), ('jet', 50.0), ('jetv', 30.0), ('grid', (0.1, 0.05, 0.1)), ('roi', (0.0, 0.0, 0.0)), ('roi', (0.0, 0.0, 0.3))]
    items += [('settings', s) for n in ((1, 2) if ck.quick else (1, 2, 3)) for s in itertools.product(moves, repeat=n)]
    items += [('rest',), ('changed',)]
    items += [('uniform', m, d, c) for m in (0.1, 0.5, -0.3) for d in DIRS for c in (343.0, 10.0)]
    items += [('jacobian', n) for n in JETS] + [('profile', n) for n in JETS] + [('nozzle', n) for n in ('openjet', 'slotjet')]
    ck.parallel(item, items)
    ck.rule('all ordered sets of 1..3 of five points x 1..3 of three microphones x memory layouts; flow directions and Mach numbers; pairs of changes of settings; '
            'all one-corner paths of a lattice as a bound of the travel time; derivatives of flow fields on a lattice')
    ck.assume('Subsonic flow; travel times in general flow are interpolated between rays (0.5 % for 400 rays).')
