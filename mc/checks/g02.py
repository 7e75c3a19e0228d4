"""G02: sectors contain exactly the points of their shape."""

import itertools

import acoular as ac
import numpy as np

from mc import geom
from mc.core import expect

GRIDS = {
    '2d': lambda: ac.RectGrid(x_min=-0.5, x_max=0.5, y_min=-0.5, y_max=0.5, z=0.75, increment=0.25).pos,
    '3d': lambda: ac.RectGrid3D(x_min=-0.5, x_max=0.5, y_min=-0.5, y_max=0.5, z_min=0.0, z_max=1.0, increment=0.5).pos,
    'one': lambda: np.array([[0.25], [-0.5], [1.0]]),
    'loose': lambda: np.array([[0.25, -0.5, 0.5, 1.0, 0.0], [0.5, 0.5, 0.125, -1.0, 0.0], [1.0, 0.0, -1.0, 0.5, 0.5]]),
}


def ref_rect(pos, x, y, z=None):
    """1 inside, 0 on the border, -1 outside."""
    s = np.ones(pos.shape[1], int)
    for p, lim in zip(pos, (x, y, z)):
        if lim is not None:
            lo, hi = min(lim), max(lim)
            s = np.minimum(s, np.where((p > lo) & (p < hi), 1, np.where((p == lo) | (p == hi), 0, -1)))
    return s


def judge(ck, sec, pos, side, center, dims, text):
    for border, near in itertools.product((True, False), repeat=2):
        sec.include_border = border
        sec.default_nearest = near
        p = np.array(pos)
        got = sec.contains(p)
        ck.step(text.split()[0], border, near, tuple(got.tolist()))
        ck.outcome(text.split()[0], got.tobytes())
        expect(np.array_equal(p, pos), 'changed', lambda: f'{text}: positions changed')
        expect(got.shape == (pos.shape[1],) and got.dtype == bool, 'form', lambda: f'{text}: {got!r}')
        want = side >= 0 if border else side > 0
        t = f'{text}, border {border}, nearest {near}'
        if want.any() or not near:
            expect(np.array_equal(got, want), 'contains', lambda: f'{t}: {np.flatnonzero(got)} instead of {np.flatnonzero(want)} of {pos.T.tolist()}')
        else:
            d = ((pos[:dims] - np.array(center)[:dims, None]) ** 2).sum(0)
            expect(got.sum() == 1, 'nearest-one', lambda: f'{t}: {np.flatnonzero(got)}')
            expect(d[got][0] <= d.min() + 1e-12, 'nearest', lambda: f'{t}: {pos[:, got].T} instead of {pos[:, d.argmin()]}, center {center}')


VAL = (-0.75, -0.5, 0.0, 0.125, 0.25, 0.75, 2.0)


def rects(ck, gn, x):
    pos = GRIDS[gn]()
    for y in itertools.product(VAL, repeat=2):
        s = ac.RectSector(x_min=x[0], x_max=x[1], y_min=y[0], y_max=y[1])
        judge(ck, s, pos, ref_rect(pos, x, y), [np.mean(x), np.mean(y), 0], 2, f'rect {x} {y}')
        if gn == '2d' and (x[0] > 0.3 or y[0] > 0.3) and ck.quick:
            continue
        for z in itertools.product((0.0, 0.5, 1.0, 3.0) if not ck.quick else (0.0, 0.5, 3.0), repeat=2):
            s = ac.RectSector3D(x_min=x[0], x_max=x[1], y_min=y[0], y_max=y[1], z_min=z[0], z_max=z[1])
            judge(ck, s, pos, ref_rect(pos, x, y, z), [np.mean(x), np.mean(y), np.mean(z)], 3, f'box {x} {y} {z}')


def circs(ck, gn, tol):
    pos = GRIDS[gn]()
    for x, y, r in itertools.product((-0.5, 0.0, 0.125, 3.0), (-0.25, 0.0, 0.5, -3.0), (0.0, 0.125, 0.25, 0.5, 0.625, 4.0)):
        d = (pos[0] - x) ** 2 + (pos[1] - y) ** 2
        judge(ck, ac.CircSector(x=x, y=y, r=r, abs_tol=tol), pos, np.sign(r * r - d).astype(int), [x, y, 0], 2, f'circle {x, y, r}')


def tolerance(ck):
    """Points at a distance below and above the tolerance of the border."""
    for tol, off in itertools.product((0.0, 1e-3, 0.1), (-0.2, -0.05, -5e-4, 0.0, 5e-4, 0.05, 0.2)):
        pos = np.array([[1.0 + off], [0.0], [0.5]])
        for name, s in (
            ('rect', ac.RectSector()),
            ('box', ac.RectSector3D()),
            ('poly', ac.PolySector(edges=[-1, -1, 1, -1, 1, 1, -1, 1])),
        ):
            s.default_nearest = False
            s.abs_tol = tol
            for border in (True, False):
                s.include_border = border
                want = off <= tol if border else off < -tol
                got = bool(s.contains(pos)[0])
                ck.step(name, tol, off, border, got)
                expect(got == want, 'tolerance', lambda: f'{name}, tolerance {tol}, point {off} outside, border {border}: {got}')


def polys(ck, gn, n, i, k):
    pos = GRIDS[gn]()
    pts = [tuple(p) for p in pos[:2].T.tolist()]
    from mc.checks.g01 import all_polygons

    lattice = list(itertools.product((-0.5, 0.0, 0.5), (-0.5, 0.125, 0.5)))
    if n == 3:
        lattice += [(3.0, 3.0), (3.5, 3.0), (3.0, 3.5), (0.375, -0.125)]
    for poly in itertools.islice(all_polygons(n, lattice), i, None, k):
        edges = [float(v) for p in poly for v in p]
        side = np.array([geom.in_polygon(p, poly) for p in pts])
        judge(ck, ac.PolySector(edges=edges), pos, side, [*np.mean(poly, 0), 0], 2, f'poly {poly}')
        h = geom.hull(poly)
        side = np.array([geom.in_polygon(p, h) for p in pts])
        judge(ck, ac.ConvexSector(edges=edges), pos, side, [*np.mean(poly, 0), 0], 2, f'convex {poly}')


SINGLE = {
    'rect': lambda: ac.RectSector(x_min=0.0, x_max=0.5, y_min=-0.25, y_max=0.5),
    'rect-open': lambda: ac.RectSector(x_min=-0.5, x_max=0.0, y_min=-0.25, y_max=0.5, include_border=False),
    'box': lambda: ac.RectSector3D(x_min=0.0, x_max=0.5, y_min=-0.25, y_max=0.5, z_min=0.0, z_max=0.5),
    'circle': lambda: ac.CircSector(x=0.25, y=0.25, r=0.25),
    'far': lambda: ac.CircSector(x=5.0, y=5.0, r=0.5),
    'empty': lambda: ac.CircSector(x=5.0, y=5.0, r=0.5, default_nearest=False),
    'poly': lambda: ac.PolySector(edges=[0, 0, 0.5, 0, 0, 0.5]),
    'convex': lambda: ac.ConvexSector(edges=[0, 0, -0.5, 0, 0, -0.5]),
    'all': lambda: ac.Sector(),
    'nested': lambda: ac.MultiSector(sectors=[ac.CircSector(x=-0.5, y=-0.5, r=0.1), ac.RectSector(x_min=0.4, y_min=0.4)]),
}


def multi(ck, gn, names):
    pos = GRIDS[gn]()
    m = ac.MultiSector(sectors=[SINGLE[n]() for n in names])
    got = m.contains(pos)
    want = np.zeros(pos.shape[1], bool)
    for n in names:
        want |= SINGLE[n]().contains(pos)
    ck.step('multi', names, gn, tuple(got.tolist()))
    ck.outcome('multi', gn, got.tobytes())
    expect(got.dtype == bool and np.array_equal(got, want), 'union', lambda: f'{names} on {gn}: {got} instead of {want}')


def item(ck, it):
    k, gn = it[0], it[1]
    if k == 'rect':
        ck.case(f'rect/{gn}/{it[2]}', rects, ck, gn, it[2])
    elif k == 'circ':
        for tol in (1e-12, 0.0):
            ck.case(f'circ/{gn}/{tol}', circs, ck, gn, tol)
    elif k == 'tol':
        ck.case('tolerance', tolerance, ck)
    elif k == 'poly':
        ck.case(f'poly/{gn}/{it[2]}/{it[3]}', polys, ck, *it[1:])
    else:
        for n in (0, 1, 2) if ck.quick else (0, 1, 2, 3):
            for names in itertools.product(SINGLE, repeat=n):
                ck.case(f'multi/{gn}/{"+".join(names)}', multi, ck, gn, names)


def run(ck):
    items = [('poly', g, n, i, (4 if n < 5 else 64) if ck.quick else 4 if n < 5 else 8) for n in (5, 4, 3) for i in range(4 if n < 5 or ck.quick else 8) for g in ('2d', 'loose')]
    items += [('rect', g, x) for g in GRIDS for x in itertools.product(VAL, repeat=2)]
    items += [('circ', g) for g in GRIDS] + [('multi', g) for g in GRIDS] + [('tol', '')]
    ck.parallel(item, items)
    ck.rule('all rectangles and boxes with limits from a menu (equal and reversed included), circles, all simple polygons and hulls of 3..5 corners on a lattice '
            '(quick: a part of those with 5), border handling x nearest point x four sets of points; all combinations of sectors; distances around the tolerance')
    ck.assume('The centre of a polygon is the mean of its corners.')
