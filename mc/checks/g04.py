"""G04: trajectories pass through their sample points in time order."""

import itertools

import acoular as ac
import numpy as np
from scipy.interpolate import make_interp_spline

from mc.core import expect

PTS = {
    0.0: (0.0, 0.0, 1.0),
    0.5: (1.0, -0.5, 1.0),
    1.25: (1.5, 0.5, 0.75),
    2.0: (-0.5, 2.0, 1.5),
    -1.0: (0.25, 0.25, 0.25),
    3.5: (0.0, 0.0, 1.0),
}


def reference(points):
    t = np.array(sorted(points))
    x = np.array([points[k] for k in t])
    return t, make_interp_spline(t, x, k=min(3, len(t) - 1))


def agrees(tr, points, text):
    t, ref = reference(points)
    for k in t:
        got = np.array(tr.location(k))
        expect(np.allclose(got, points[k], atol=1e-9), 'through', lambda: f'{text}: at {k} {got} instead of {points[k]}')
    iv = tuple(float(v) for v in tr.interval)
    expect(iv == (t[0], t[-1]), 'interval', lambda: f'{text}: interval {iv} instead of {t[0], t[-1]}')
    tt = np.linspace(t[0], t[-1], 9)
    for der in range(min(3, len(t))):
        got = np.array(tr.location(tt, der)).T
        want = ref(tt, der)
        if der < min(3, len(t) - 1) or der == 0 or len(t) <= 4:
            expect(np.allclose(got, want, atol=1e-8 * (1 + np.abs(want).max())), 'between', lambda: f'{text}: derivative {der} {got.tolist()} instead of {want.tolist()}')
        for i, x in enumerate(tt):
            one = np.array([float(v) for v in tr.location(float(x), der)])
            expect(np.allclose(one, got[i], atol=1e-12), 'single', lambda: f'{text}: derivative {der} at {x}: {one} instead of {got[i]}')
    # positions and velocities agree
    h = 1e-4
    mid = (tt[1:] + tt[:-1]) / 2
    v = np.array(tr.location(mid, 1))
    d = (np.array(tr.location(mid + h)) - np.array(tr.location(mid - h))) / (2 * h)
    expect(np.allclose(v, d, atol=1e-5 * (1 + np.abs(v).max())), 'velocity', lambda: f'{text}: {v.tolist()} instead of {d.tolist()}')


def steps(tr, points, text, ck):
    t, ref = reference(points)
    starts = [None, t[0], t[0] - 0.25, 0.0, t[1]]
    ends = [None, t[-1], 0.0, 0.75, t[-1] + 0.5]
    for dt, der in itertools.product((0.1, 0.25, 0.7), (0, 1)):
        for a, b in itertools.product(starts, ends):
            if a is not None and not len(np.arange(a, t[-1] if b is None else b, dt)):
                continue
            if a is None:
                if b is not None:
                    continue
                got = list(tr.traj(dt, der=der))
                a, b = t[0], t[-1]
            elif b is None:
                got = list(tr.traj(a, delta_t=dt, der=der))
                b = t[-1]
            else:
                got = list(tr.traj(a, b, dt, der))
            tt = np.arange(a, b, dt)
            ck.step('traj', text, a, b, dt, der, len(got))
            expect(len(got) == len(tt), 'steps', lambda: f'{text}: {len(got)} steps from {a} to {b} by {dt} instead of {len(tt)}')
            if len(tt):
                want = np.array(tr.location(tt, der)).T
                expect(np.allclose(np.array(got, float), want, atol=1e-12), 'stepped', lambda: f'{text}: from {a} to {b} by {dt}: {got}')


def order(ck, keys):
    points = {k: PTS[k] for k in keys}
    want = None
    for perm in itertools.permutations(keys):
        for how in ('construct', 'assign', 'one by one', 'update'):
            p = {k: PTS[k] for k in perm}
            if how == 'construct':
                tr = ac.Trajectory(points=p)
            else:
                tr = ac.Trajectory()
                if how == 'assign':
                    tr.points = p
                elif how == 'update':
                    tr.points.update(p)
                else:
                    for k in perm:
                        tr.points[k] = PTS[k]
            ck.step(perm, how)
            agrees(tr, points, f'{perm} {how}')
            tt = np.linspace(min(keys), max(keys), 7)
            got = np.array(tr.location(tt)).tobytes()
            ck.outcome(keys, got)
            want = want or got
            expect(got == want, 'order', lambda: f'{perm} {how}: differs from the trajectory entered in another order')
    steps(ac.Trajectory(points=points), points, f'{keys}', ck)


def op_set(k, v):
    def f(tr, p):
        tr.points[k] = v
        p[k] = v
    return f


def op_del(k):
    def f(tr, p):
        if k in p and len(p) > 2:
            del tr.points[k]
            del p[k]
    return f


def op_assign(new):
    def f(tr, p):
        tr.points = dict(new)
        p.clear()
        p.update(new)
    return f


def op_update(new):
    def f(tr, p):
        tr.points.update(new)
        p.update(new)
    return f


def op_pop(tr, p):
    if len(p) > 2:
        k = max(p)
        tr.points.pop(k)
        del p[k]


OPS = {
    'new': op_set(1.25, PTS[1.25]),
    'late': op_set(3.5, PTS[3.5]),
    'early': op_set(-1.0, PTS[-1.0]),
    'move': op_set(0.5, (0.0, 1.0, 2.0)),
    'same': op_set(0.5, PTS[0.5]),
    'del': op_del(0.5),
    'pop': op_pop,
    'assign': op_assign({0.0: (1.0, 1.0, 1.0), 2.0: (2.0, 2.0, 2.0), 1.0: (0.0, 0.0, 1.0)}),
    'update': op_update({0.25: (0.5, 0.5, 0.5), 2.0: (1.0, 0.0, 0.0)}),
}


def change(ck, seq, look):
    p = {k: PTS[k] for k in (2.0, 0.0, 0.5)}
    tr = ac.Trajectory(points=dict(p))
    for i, name in enumerate(seq):
        if look:
            agrees(tr, p, f'before {seq[i:]}')
            dig = tr.digest
        before = dict(p)
        OPS[name](tr, p)
        ck.step(tuple(sorted(p.items())))
        if look:
            expect((tr.digest == dig) == (before == p), 'digest', lambda: f'{seq[: i + 1]}: digest {"changed" if before == p else "kept"}')
    agrees(tr, p, f'{seq}')
    expect(tr.digest == ac.Trajectory(points=dict(p)).digest or list(tr.points) != list(p), 'digest-new', lambda: f'{seq}')
    ck.outcome(seq, np.array(tr.location(np.linspace(0, 1, 5))).tobytes())


def item(ck, it):
    if it[0] == 'order':
        ck.case(f'order/{"+".join(map(str, it[1]))}', order, ck, it[1])
    else:
        for seq in itertools.product(OPS, repeat=it[2] - 1):
            s = (it[1],) + seq
            for look in (True, False):
                ck.case(f'change/{"-".join(s)}/{look}', change, ck, s, look)


def run(ck):
    n = 3 if ck.quick else 4
    items = [('change', o, m) for m in range(1, n + 1) for o in OPS]
    items += [('order', k) for m in ((2, 3, 4) if ck.quick else (2, 3, 4, 5)) for k in itertools.combinations(PTS, m)]
    ck.parallel(item, items)
    ck.rule('all insertion orders of up to 4 (thorough 5) of six points x four ways of entering, all starts, ends and steps of a menu, '
            'all sequences of up to 3 (thorough 4) changes of the table')
    ck.assume('At least two points.')
