"""S11: triggers, rotation angle and interpolation to rotating microphones."""

import itertools
import warnings

import acoular as ac
import numpy as np

from mc import td
from mc.core import expect

FS = 1000.0


# ------------------------------------------------------------------------------------------ triggers
def find(x, kind, threshold, hunk, keep):
    """The documented rule applied to the whole signal."""
    if kind == 'rect':
        d = np.zeros(len(x))
        d[1:] = x[1:] - x[:-1]
    else:
        d = x
    if threshold is None:
        ext = [x.min() - x.mean(), x.max() - x.mean()]
        threshold = 0.75 * (ext[1] if ext[1] > -ext[0] else ext[0])
    locs = [i for i in range(len(x)) if (d[i] > threshold if threshold > 0 else d[i] < threshold)]
    if len(locs) < 2:
        return None
    longest = max(b - a for a, b in zip(locs, locs[1:]))
    while True:
        close = [i for i in range(len(locs) - 1) if locs[i + 1] - locs[i] < hunk * longest]
        if not close:
            break
        i = close[0]
        drop = i + 1 if keep == 'first' or abs(x[locs[i + 1]]) < abs(x[locs[i]]) else i
        if keep == 'extremum' and abs(x[locs[i + 1]]) == abs(x[locs[i]]):
            drop = i
        del locs[drop]
    dist = [b - a for a, b in zip(locs, locs[1:])]
    return np.array(locs), max(dist), min(dist)


def trigger_signal(n, kind, sign, first, dist, second):
    x = 0.05 * np.sin(0.37 * np.arange(n))
    for k, p in enumerate(range(first, n, dist)):
        if kind == 'rect':
            x[p : p + dist // 2] += 1.0 + 0.02 * (k % 3)
        else:
            x[p] = 1.0 + 0.02 * (k % 3)
        if second and p + 3 < n:
            if kind == 'rect':  # a spike inside the pulse: another edge
                x[p + 2] -= 0.9
                x[p + 3] += {'less': -0.1, 'more': 0.3, 'same': 0.0}[second]
            else:
                x[p + 3] = x[p] + {'less': -0.1, 'more': 0.1, 'same': 0.0}[second]
    return sign * x[:, None]


def same_triggers(got, want, label):
    expect(
        len(got) == 3 and np.array_equal(got[0], want[0]) and got[1] == want[1] and got[2] == want[2],
        'triggers',
        lambda: f'{label}: {[np.asarray(g).tolist() for g in got]} instead of {[np.asarray(w).tolist() for w in want]}',
    )


def trigger(ck, n, kind, sign, delta, dist):
    first = (2048 + delta) % dist
    for second in ('', 'less', 'more', 'same'):
        x = trigger_signal(n, kind, sign, first, dist, second)
        for mode, limit, keep, hunk in itertools.product(
            ('fresh', 'view', 'reuse'), (None, 0.5, 0.8), ('extremum', 'first'), (0.1, 0.4) if not ck.quick else (0.1,)
        ):
            if limit is None and kind == 'rect':
                continue  # the estimate is one for pulses
            th = limit if limit is None else sign * limit
            want = find(x[:, 0], kind, th, hunk, keep)
            t = ac.Trigger(source=td.src(x.copy(), mode, FS), trigger_type=kind, hunk_length=hunk, multiple_peaks_in_hunk=keep)
            if th is not None:
                t.threshold = th
            got = t.trigger_data
            ck.step('trigger', n, kind, sign, delta, dist, second, mode, limit, keep, hunk)
            ck.outcome('trigger', got[0].tobytes())
            same_triggers(got, want, f'{kind} {sign} first {first} every {dist} second {second} {mode} threshold {th} {keep}')


def trigger_history(ck, steps):
    """Settings changed between queries."""
    menu = {
        'rect': ('trigger_type', 'rect'), 'dirac': ('trigger_type', 'dirac'), 'first': ('multiple_peaks_in_hunk', 'first'),
        'low': ('threshold', 0.5), 'high': ('threshold', 1.05), 'hunk': ('hunk_length', 0.4),
    }
    x = trigger_signal(2500, 'dirac', 1, 348, 300, 'less')
    t = ac.Trigger(source=td.src(x, 'reuse', FS), threshold=0.7)
    now = dict(trigger_type='dirac', threshold=0.7, hunk_length=0.1, multiple_peaks_in_hunk='extremum')
    for i, s in enumerate((None, *steps)):
        if s == 'data':
            x = trigger_signal(2500, 'dirac', 1, 13, 250, 'more')
            t.source = td.src(x, 'fresh', FS, 1)
        elif s:
            a, b = menu[s]
            setattr(t, a, b)
            now[a] = b
        want = find(x[:, 0], now['trigger_type'], now['threshold'], now['hunk_length'], now['multiple_peaks_in_hunk'])
        ck.step('trigger-history', steps[:i])
        if want is not None:
            same_triggers(t.trigger_data, want, f'after {steps[:i]}')


# ------------------------------------------------------------------------------------------ rotation angle
def pulses(n, locs):
    x = np.zeros((n, 1))
    x[list(locs)] = 1.0
    return td.src(x, 'reuse', FS)


def close_angle(a, b, tol=1e-6):
    return a.shape == b.shape and np.all(np.abs((a - b + np.pi) % (2 * np.pi) - np.pi) < tol)


def tracker(locs, n, **kw):
    return ac.AngleTracker(source=pulses(n, locs), trigger=ac.Trigger(source=pulses(n, locs), threshold=0.5), **kw)


def steady(ck, n, dist, first, points):
    locs = range(first, n, dist)
    t = np.arange(n)
    for per, sense, start in itertools.product((1, 2, 3, 5), (-1, 1), (0.0, 1.0, 4.5)):
        obj = tracker(locs, n, trigger_per_revo=per, rot_direction=sense, start_angle=start, interp_points=points)
        rpm = 60 * FS / dist / per
        ck.step('steady', n, dist, first, points, per, sense, start)
        label = f'first {first} every {dist} of {n}, {per} per revolution, {sense}, {start}'
        expect(abs(obj.average_rpm - rpm) < 1e-9 * rpm, 'average', lambda: f'{label}: average_rpm {obj.average_rpm} instead of {rpm}')
        got = obj.rpm
        expect(got.shape == (n,) and np.all(np.abs(got - rpm) < 1e-6 * rpm), 'rpm', lambda: f'{label}: rpm {got[:5]} .. {got[-5:]} instead of {rpm}')
        want = start + sense * 2 * np.pi * (t - first) / dist / per
        got = obj.angle
        ck.outcome('steady', got.round(6).tobytes())
        expect(close_angle(got, want), 'angle', lambda: f'{label}: angle differs at {np.flatnonzero(np.abs((got - want + np.pi) % (2 * np.pi) - np.pi) > 1e-6)[:8]}')
        expect(np.all((got >= 0) & (got < 2 * np.pi + 1e-9)), 'range', lambda: f'{label}: {got.min()} .. {got.max()}')


def varying(ck, gaps, first):
    """Uneven triggers: exact at every trigger, in between the cubic through the last four of them."""
    locs = np.array([first, *(first + np.cumsum(gaps))])
    n = int(locs[-1]) + 9
    for per, sense in itertools.product((1, 3), (-1, 1)):
        obj = tracker(locs, n, trigger_per_revo=per, rot_direction=sense, start_angle=0.3)
        at = obj.angle[locs]
        want = 0.3 + sense * 2 * np.pi * np.arange(len(locs)) / per
        ck.step('varying', gaps, first, per, sense)
        expect(close_angle(at, want), 'at-trigger', lambda: f'{locs.tolist()} {per} {sense}: {at} instead of {want % (2 * np.pi)}')
        for i in range(n):
            k = min(max(np.searchsorted(locs, i, side='right') - 4, 0), len(locs) - 4)
            p, q = locs[k : k + 4].astype(float), np.arange(k, k + 4)
            val = sum(q[a] * np.prod([(i - p[b]) / (p[a] - p[b]) for b in range(4) if b != a]) for a in range(4))
            if locs[0] <= i <= locs[-1]:
                expect(
                    close_angle(obj.angle[i : i + 1], np.array([0.3 + sense * 2 * np.pi * val / per]), 1e-5),
                    'between', lambda: f'{locs.tolist()} {per} {sense} sample {i}: {obj.angle[i]} instead of {(0.3 + sense * 2 * np.pi * val / per) % (2 * np.pi)}',
                )
        ck.outcome('varying', obj.angle.round(6).tobytes())


def tracker_history(ck, steps):
    n = 150
    obj = tracker(range(5, n, 20), n)
    now = dict(first=5, dist=20, per=1, sense=-1, start=0.0)
    for i, s in enumerate((None, *steps)):
        if s == 'per':
            obj.trigger_per_revo = now['per'] = 4
        elif s == 'sense':
            obj.rot_direction = now['sense'] = -now['sense']
        elif s == 'start':
            obj.start_angle = now['start'] = now['start'] + 0.5
        elif s == 'trigger':
            now.update(first=2, dist=17)
            obj.trigger = ac.Trigger(source=td.src(pulses(n, range(2, n, 17)).data, 'view', FS, 3), threshold=0.5)
        elif s == 'pulses':
            now.update(first=11, dist=13)
            obj.trigger.source = td.src(pulses(n, range(11, n, 13)).data, 'fresh', FS, 4)
        ck.step('tracker-history', steps[:i])
        rpm = 60 * FS / now['dist'] / now['per']
        for what in ('rpm', 'angle', 'average_rpm') if i % 2 else ('angle', 'rpm'):
            got = getattr(obj, what)
            if what == 'angle':
                want = now['start'] + now['sense'] * 2 * np.pi * (np.arange(n) - now['first']) / now['dist'] / now['per']
                expect(close_angle(got, want), 'stale-angle', lambda: f'after {steps[:i]}')
            else:
                expect(np.all(np.abs(got - rpm) < 1e-6 * rpm), 'stale-' + what, lambda: f'after {steps[:i]}: {np.ravel(got)[:3]} instead of {rpm}')


# ------------------------------------------------------------------------------------------ microphones
def geom(phi, r=0.5, z=0.0, turn=None):
    phi, r, z = np.broadcast_arrays(np.asarray(phi, float), r, z)
    p = np.array([r * np.cos(phi), r * np.sin(phi), z])
    return ac.MicGeom(pos_total=p if turn is None else turn.T @ p)


def circle_interp(phi, vals, at):
    """Piecewise linear on the circle."""
    order = np.argsort(phi % (2 * np.pi))
    p, v = (phi % (2 * np.pi))[order], vals[order]
    p, v = np.r_[p[-1] - 2 * np.pi, p, p[0] + 2 * np.pi], np.r_[v[-1], v, v[0]]
    at = at % (2 * np.pi)
    i = np.clip(np.searchsorted(p, at, side='right') - 1, 0, len(p) - 2)
    w = (at - p[i]) / (p[i + 1] - p[i])
    return v[i] * (1 - w) + v[i + 1] * w


def rotate(ck, n, perm, steps, method, dim):
    """A ring that turns by whole microphone spacings from sample to sample."""
    phi = (0.1 + 2 * np.pi * np.arange(n) / n)[list(perm)]
    place = list(perm)
    N = 7
    x = td.pattern(N, n, 2)
    want = np.empty((N, n))
    for t in range(N):
        for c in range(n):
            want[t, c] = x[t, place.index((place[c] + steps * t) % n)]
    for num in range(1, N + 2):
        for mode in ('fresh', 'reuse'):
            o = ac.SpatialInterpolatorConstantRotation(
                source=td.src(x, mode, FS), mics=geom(phi), method=method, array_dimension=dim, rotational_speed=steps * FS / n
            )
            got = td.cat([b.copy() for b in o.result(num)], n)
            ck.step('rotate', n, perm, steps, method, dim, num, mode)
            expect(td.close(got, want, 1e-6), 'rotated-ring', lambda: f'{n} {perm} {steps} {method} {dim} blocks of {num}: {got.round(3).tolist()} instead of {want.round(3).tolist()}')
        ck.outcome('rotate', got.round(6).tobytes())


def turning(ck, phi, virt, dist):
    """Rotation by arbitrary angles, constant or taken from a tracker, against interpolation on the circle."""
    phi, virt = np.array(phi), np.array(virt)
    N = 60
    x = td.pattern(N, len(phi), 1)
    for sense, start in itertools.product((-1, 1), (0.0, 0.7)):
        ang = start + sense * 2 * np.pi * (np.arange(N) - 3) / dist / 2
        want = np.array([circle_interp(phi, x[t], virt + ang[t]) for t in range(N)])
        trk = tracker(range(3, N, dist), N, trigger_per_revo=2, rot_direction=sense, start_angle=start)
        for num in (1, 4, 7, 59, 60, 64):
            o = ac.SpatialInterpolatorRotation(
                source=td.src(x, 'reuse', FS), mics=geom(phi), mics_virtual=geom(virt), method='linear', array_dimension='ring', angle_source=trk
            )
            ck.step('turning', len(phi), len(virt), dist, sense, start, num)
            expect(o.num_channels == len(virt), 'channels', f'{o.num_channels}')
            got = td.cat([b.copy() for b in o.result(num)], len(virt))
            expect(td.close(got, want, 1e-5), 'turning', lambda: f'{len(phi)} to {len(virt)} every {dist} {sense} {start} blocks of {num}')
            if start == 0.0:
                c = ac.SpatialInterpolatorConstantRotation(
                    source=td.src(x, 'reuse', FS), mics=geom(phi), mics_virtual=geom(virt), method='linear', array_dimension='1D',
                    rotational_speed=sense * FS / dist / 2,
                )
                got = td.cat([b.copy() for b in c.result(num)], len(virt))
                w = np.array([circle_interp(phi, x[t], virt + sense * np.pi * t / dist) for t in range(N)])
                expect(td.close(got, w, 1e-7), 'constant-turning', lambda: f'{len(phi)} to {len(virt)} every {dist} {sense} blocks of {num}')
        ck.outcome('turning', got.round(6).tobytes())


TURNS = {
    'xy': np.eye(3),
    'yz': np.array([[0.0, 1, 0], [0, 0, 1], [1, 0, 0]]),
    'tilt': np.array([[1.0, 0, 0], [0, np.cos(0.4), -np.sin(0.4)], [0, np.sin(0.4), np.cos(0.4)]]),
}
METHODS = {
    '1D': ('linear', 'spline', 'rbf-cubic', 'sinc'),
    'ring': ('linear', 'spline', 'rbf-cubic', 'sinc'),
    '2D': ('linear', 'spline', 'rbf-cubic', 'rbf-multiquadric', 'sinc', 'IDW'),
    '3D': ('linear', 'rbf-cubic', 'rbf-multiquadric', 'sinc'),
}


def in_place(ck, dim, method, n, turn, height, zero):
    """Virtual microphones at the places of real ones get their signals."""
    k = np.arange(n)
    phi = 2.4 * k + 0.3
    if dim in ('1D', 'ring'):
        r, z = 0.5, height
    else:
        r, z = 0.2 + 0.05 * k, height + (0.1 * np.cos(5 * k) if dim == '3D' else 0.0)
    q = TURNS[turn]
    x = td.pattern(3, n, 4)
    inner = list(range(n))
    picks = [inner, inner[::-1], [0, 2], [1], [2, 0, 2, *inner]]
    for pick in picks:
        m, v = geom(phi, r, z, q), None
        v = ac.MicGeom(pos_total=m.pos_total[:, pick])
        for cls in (ac.SpatialInterpolatorConstantRotation, ac.SpatialInterpolatorRotation):
            kw = dict(rotational_speed=0.0) if cls is ac.SpatialInterpolatorConstantRotation else dict(angle_source=Still())
            o = cls(source=td.src(x, 'fresh', FS), mics=m, mics_virtual=v, method=method, array_dimension=dim, Q=q, interp_at_zero=zero, **kw)
            got = td.cat([b.copy() for b in o.result(2)], len(pick))
            ck.step('in-place', dim, method, n, turn, height, zero, tuple(pick), cls.__name__)
            expect(td.close(got, x[:, pick], 5e-3 if method == 'sinc' else 1e-5), 'in-place', lambda: f'{dim} {method} {n} {turn} {height} {pick}: {got.round(4).tolist()} instead of {x[:, pick].round(4).tolist()}')
    ck.outcome('in-place', got.round(5).tobytes())


class Still(ac.AngleTracker):
    """An angle source that stands still."""

    def _get_angle(self):
        return np.zeros(100)


def refused(ck, dim, method):
    """A method that does not exist for the dimension is not answered with zeros."""
    x = td.pattern(3, 6, 4)
    k = np.arange(6)
    m = geom(2.4 * k + 0.3, 0.2 + 0.05 * k, 0.1 * np.cos(5 * k))
    o = ac.SpatialInterpolatorConstantRotation(source=td.src(x, 'fresh', FS), mics=m, method=method, array_dimension=dim, rotational_speed=0.0)
    ck.step('refused', dim, method)
    try:
        got = td.cat([b.copy() for b in o.result(2)], 6)
    except Exception:  # noqa: BLE001
        return
    expect(td.close(got, x, 1e-5), 'silent-zeros', lambda: f'{dim} {method}: {got.round(3).tolist()}')


def item(ck, it):
    what, *args = it
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if what == 'trigger':
            n, kind = args
            for sign, delta, dist in itertools.product((1, -1), range(-4, 5), (300, 1000)):
                ck.case(f'trigger/{n}/{kind}/{sign}/{delta}/{dist}', trigger, ck, n, kind, sign, delta, dist)
        elif what == 'histories':
            menu = ('rect', 'first', 'low', 'high', 'hunk', 'data', 'dirac')
            for steps in itertools.permutations(menu, 3 if ck.quick else 4):
                ck.case('trigger-history/' + ','.join(steps), trigger_history, ck, steps)
            for steps in itertools.product(('per', 'sense', 'start', 'trigger', 'pulses'), repeat=2 if ck.quick else 3):
                ck.case('tracker-history/' + ','.join(steps), tracker_history, ck, steps)
        elif what == 'steady':
            (dist,) = args
            for first in (0, 1, dist // 2, dist - 1, dist, dist + 1, 3 * dist + 2):
                for points in (4, 5) if ck.quick else (4, 5, 6):
                    for n in (first + dist * 7 + 1, first + dist * 8) if ck.quick else (first + dist * 7 + 1, first + dist * 8, first + dist * 8 + dist // 2, first + dist * 9 + 1):
                        ck.case(f'steady/{dist}/{first}/{points}/{n}', steady, ck, n, dist, first, points)
        elif what == 'varying':
            (first,) = args
            for gaps in itertools.product((8, 10, 13), repeat=4 if ck.quick else 6):
                ck.case(f'varying/{first}/' + ','.join(map(str, gaps)), varying, ck, gaps, first)
        elif what == 'rotate':
            n, method, dim = args
            for perm in list(itertools.permutations(range(n)))[:: 1 if n < 5 else 17]:
                for steps in (-2, -1, 0, 1, 2, n):
                    ck.case(f'rotate/{n}/{method}/{dim}/{perm}/{steps}', rotate, ck, n, perm, steps, method, dim)
        elif what == 'turning':
            (dist,) = args
            rings = [(0.1, 1.9, 3.0, 4.4), (0.0, 0.5, 2.0, 3.1, 5.5), (2.0, 0.3, -2.5), (3.1, -3.1, 0.0, 1.0)]
            virts = [(0.1, 1.9), (0.0, 1.0, 2.0, 3.0, -3.0, -2.0, -1.0), (2.2,)]
            for (a, phi), (b, virt) in itertools.product(enumerate(rings), enumerate((*virts, None))):
                ck.case(f'turning/{dist}/{a}/{b}', turning, ck, phi, phi if virt is None else virt, dist)
        elif what == 'in-place':
            dim, method = args
            for n, turn, height, zero in itertools.product((6, 9), TURNS, (0.0, 0.4), (False, True)):
                if zero and dim in ('1D', 'ring', '3D'):
                    continue
                ck.case(f'in-place/{dim}/{method}/{n}/{turn}/{height}/{zero}', in_place, ck, dim, method, n, turn, height, zero)
        else:
            dim, method = args
            ck.case(f'refused/{dim}/{method}', refused, ck, dim, method)


def run(ck):
    ac.config.global_caching = 'none'
    sizes = (4096, 4097, 2049) if ck.quick else (2048, 2049, 2050, 4095, 4096, 4097, 6145)
    items = [('trigger', n, kind) for n in sizes for kind in ('dirac', 'rect')]
    items += [('histories',)] + [('steady', d) for d in ((5, 8, 21) if ck.quick else (2, 5, 8, 21, 64, 100))]
    items += [('varying', f) for f in ((0, 17) if ck.quick else (0, 7, 17, 40))]
    items += [('rotate', n, m, d) for n in ((3, 4) if ck.quick else (3, 4, 5, 6)) for m in ('linear', 'spline', 'sinc') for d in ('1D', 'ring')]
    items += [('turning', d) for d in ((7, 11) if ck.quick else (5, 7, 9, 11, 13))]
    items += [('in-place', d, m) for d, ms in METHODS.items() for m in ms]
    items += [('refused', d, m) for d in METHODS for m in ('linear', 'spline', 'rbf-multiquadric', 'rbf-cubic', 'IDW', 'sinc') if m not in METHODS[d]]
    ck.parallel(item, items)
    ck.rule('trigger signals: length x kind x sign x position relative to the internal block boundary x distance x double peaks x memory handling x '
            'threshold x treatment; histories of settings; steady and uneven triggers x triggers per revolution x direction x start angle; rings turned by '
            'whole spacings (all orders of the microphones) and by arbitrary angles; virtual microphones at real places: dimension x method x orientation')
