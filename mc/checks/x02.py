"""X02: moving sources that do not move are stationary; emission times fit the distances."""

import itertools
from fractions import Fraction as Fr

import acoular as ac
import numpy as np

from mc.checks.x01 import C, FS, MICS, NUMS, blocks_ok, collect, dist, matches, signal
from mc.core import expect

LOC = (0.5, -0.25, 1.0)
STAND = {
    'two': lambda p: {0.0: p, 1.0: p},
    'later': lambda p: {5.0: p, 6.0: p},
    'five': lambda p: {0.0: p, 0.01: p, 0.5: p, 2.0: p, -3.0: p},
}
OFFS = (Fr(0), Fr(1), Fr(-3), Fr(25), Fr(-40))


def mics_for(kind, up, which):
    dirs = [(1.0, 0.0, 0.0), (0.0, -0.6, 0.8), (-0.8, 0.0, -0.6), (0.0, 0.0, -1.0)]
    if kind == 'line':
        pos = [np.array(LOC) - [dist(MICS[j], up)[0], 0, 0] for j in which]
    else:
        pos = [np.array(LOC) + dist(MICS[j], up)[0] * np.array(dirs[j]) for j in which]
    return ac.MicGeom(pos_total=np.array(pos).T)


def extra(kind, up, v):
    if kind == 'dipole':
        return {'direction': v}
    if kind == 'line':
        ns = len(v)
        return {'num_sources': ns, 'source_strength': list(v), 'direction': (1.0, 0.0, 0.0), 'length': float(Fr(3 * up if up > 1 else 2) / up / FS * 320) * ns}
    return {}


VARIANTS = {
    'point': [None],
    'dipole': [(0.0, 0.0, 1.0), (2.0, -1.0, 0.5)],
    'line': [(1.0,), (0.5, -2.0, 1.0)],
}
STILL = {'point': ac.PointSource, 'dipole': ac.PointSourceDipole, 'line': ac.LineSource}
MOVING = {'point': ac.MovingPointSource, 'dipole': ac.MovingPointSourceDipole, 'line': ac.MovingLineSource}


def still(ck, kind, n, up, stand, which):
    mics = mics_for(kind, up, which)
    for v, a, b, conv, sig, pad in itertools.product(VARIANTS[kind], OFFS, (Fr(0), Fr(2)), (False, True), ('white', 'sine'), ('loop', 'zeros')):
        if pad == 'zeros' and kind != 'line':
            continue
        kw = {'signal': signal(n, sig), 'mics': mics, 'env': ac.Environment(c=C), 'up': up, 'start': float(a / FS), 'start_t': float(b / FS), 'prepadding': pad, **extra(kind, up, v)}
        want = np.concatenate(collect(STILL[kind](loc=LOC, **kw), n))
        src = MOVING[kind](trajectory=ac.Trajectory(points=STAND[stand](LOC)), conv_amp=conv, **kw)
        text = f'{kind} {v} {n} samples up {up} start {a} start_t {b} {stand} {sig} {pad} conv_amp {conv}'
        for num in NUMS if sig == 'white' and not conv else (3,):
            bl = collect(src, num)
            ck.step(text, which, num)
            blocks_ok(bl, n, num, text)
            # the dipole is a difference quotient over slightly different distances
            matches(np.concatenate(bl), want, text, 'still', 1e-4 if kind == 'dipole' else 1e-9)
        ck.outcome(want.tobytes())


# -- uniform motion: the emission time is the root of a quadratic -------------------------------

VELS = [(20.0, 0.0, 0.0), (-90.0, 30.0, 0.0), (0.0, 0.0, 160.0), (120.0, -120.0, 60.0)]
FAR = [(3.0, 0.0, 0.0), (-4.0, 1.0, 0.0), (0.0, 0.0, -2.0), (0.25, 0.5, 5.0)]
P0 = (0.0, 0.5, 2.0)


def emission(p0, v, m, t):
    d = np.array(p0) + np.array(v) * t - m
    v = np.array(v)
    # |d - v s| = C s with s = t - te
    a, b, c = C * C - v @ v, v @ d, -(d @ d)
    s = (-b + np.sqrt(b * b - a * c)) / a
    return t - s, C * s


def one(u, up, n, p0, v, mic, t0, st, pad, weight):
    """Possible samples at one microphone: list of (low, high) per instant."""
    out = []
    for i in range(n):
        te, r = emission(p0, v, mic, t0 + i / FS)
        x = (te - st) * FS * up
        vals = []
        for k in {int(np.floor(x + 0.5 + e)) for e in (-0.12, 0.0, 0.12)}:
            vals.append(u[k % len(u)] if pad == 'loop' or (0 <= k < len(u) and x > -0.12) else 0.0)
        if pad == 'zeros' and -0.6 < x < 0.6:
            vals.append(0.0)
        w = weight(te, r)
        out.append((min(w * z for z in vals), max(w * z for z in vals)))
    return np.array(out)


def moving(ck, kind, n, up, vel, pts):
    mics = ac.MicGeom(pos_total=np.array([FAR[j] for j in pts]).T)
    tr = ac.Trajectory(points={t: tuple(np.array(P0) + np.array(vel) * t) for t in ((-1.0, 1.0) if n % 2 else (-2.0, -0.5, 0.0, 0.5, 2.0))})
    for v, a, b, conv, pad in itertools.product(VARIANTS[kind], (0, 3, -20, 150), (0, 2), (False, True), ('loop', 'zeros')):
        if pad == 'zeros' and kind != 'line':
            continue
        kw = extra(kind, up, v)
        if kind == 'line':
            kw['length'] = 0.6
            kw['direction'] = (0.0, 2.0, 0.0)
        src = MOVING[kind](signal=signal(n, 'sine'), mics=mics, env=ac.Environment(c=C), up=up, trajectory=tr, conv_amp=conv, start=a / FS, start_t=b / FS, prepadding=pad, **kw)
        u = signal(n, 'sine').usignal(up)
        text = f'{kind} {v} velocity {vel} {n} samples up {up} start {a} start_t {b} conv_amp {conv} {pad}'
        bounds = []
        for m in mics.pos.T:
            parts = [(P0, 1.0)]
            if kind == 'line':
                parts = [(np.array(P0) + np.array([0, 0.6 / len(v) * s, 0]), v[s]) for s in range(len(v))]
            tot = 0
            for p, strength in parts:

                def weight(te, r, p=p, strength=strength):
                    e = (np.array(p) + np.array(vel) * te - m) / r
                    w = strength / r
                    if conv:
                        w /= (1 - e @ np.array(vel) / C) ** 2
                    if kind == 'dipole':
                        w *= -(e @ np.array(v)) / np.linalg.norm(v)
                        if conv:
                            # the distance in front of the difference is scaled as well
                            w *= (1 - e @ np.array(vel) / C) ** 2
                    return w

                tot = tot + one(u, up, n, p, vel, m, a / FS, b / FS, pad, weight)
            bounds.append(tot)
        lo, hi = np.array(bounds)[:, :, 0].T, np.array(bounds)[:, :, 1].T
        for num in (1, 4, n):
            bl = collect(src, num)
            ck.step(text, pts, num)
            blocks_ok(bl, n, num, text)
            got = np.concatenate(bl)
            # the distance belongs to the emission time one step before the last
            tol = (1e-6 + 0.25 * np.linalg.norm(vel) / up / FS) * (np.abs(lo).max() + np.abs(hi).max())
            bad = np.argwhere((got < lo - tol) | (got > hi + tol))
            expect(not len(bad), 'moving', lambda: f'{text}: sample {bad[0][0]} at microphone {bad[0][1]}: {got[tuple(bad[0])]} instead of {lo[tuple(bad[0])]} to {hi[tuple(bad[0])]}')
        ck.outcome(got.tobytes())


def item(ck, it):
    kind, *a = it
    ck.case('/'.join(map(str, it)), {'still': still, 'moving': moving}[kind], ck, *a)


def run(ck):
    q = ck.quick
    ns = (1, 7, 8) if q else (1, 2, 5, 7, 8, 9, 16)
    ups = (16, 4) if q else (16, 4, 5, 1)
    sets = [(0, 1, 2, 3), (2,), (3, 0)]
    items = [('still', k, n, up, s, w) for k in MOVING for n in ns for up in ups for s in STAND for w in (sets if s == 'two' else sets[:1])]
    items += [('moving', k, n, up, v, w) for k in MOVING for n in ns for up in ups for v in VELS for w in (sets if n == 8 or not q else sets[:1])]
    ck.parallel(item, items)
    ck.rule('points, dipoles and lines of monopoles standing still on all trajectories, start offsets, lengths, paddings, upsampling factors, '
            'microphone sets and block sizes of a menu against the stationary source; all of them in uniform motion at several velocities '
            'against emission times in closed form')
    ck.assume('Emission times within a tenth of an upsampled sample; convective amplification as the library defines it; no rotation of dipoles and lines.')
