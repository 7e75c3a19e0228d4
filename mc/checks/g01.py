"""G01: grid points, shapes and indices are consistent."""

import itertools

import acoular as ac
import numpy as np

from mc import geom
from mc.core import expect

LIMITS = (-0.75, -0.3, 0.0, 0.1, 0.5, 1.2)
INCREMENTS = (0.1, 0.25, 0.3, 0.4, 0.7, 1.0, 3.0)
AXES2 = ('x', 'y')
AXES3 = ('x', 'y', 'z')


def axis(lo, hi, inc):
    """The points of one axis: ends at both limits, spacing close to the increment."""
    inc = abs(inc)
    n = int(round((abs(hi - lo) + inc) / inc)) if inc else 1
    return np.array([lo + (hi - lo) * i / (n - 1) for i in range(n)]) if n > 1 else np.array([lo])


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=1e-12)


def consistent(g, points, shape, text):
    p = np.array(g.pos)
    expect(isinstance(g.shape, tuple), 'shape', lambda: f'{text}: shape is {g.shape!r}')
    expect(g.shape == shape, 'shape', lambda: f'{text}: shape {g.shape} instead of {shape}')
    expect(g.size == int(np.prod(g.shape)) == p.shape[1], 'size', lambda: f'{text}: {g.size} points, shape {g.shape}, {p.shape} positions')
    expect(same(p, points), 'positions', lambda: f'{text}: {p.tolist()} instead of {points.tolist()}')


def axis_case(ck, cls, lo, hi, inc):
    """One axis with its points, probes and ranges; the other axes are short."""
    names = AXES2 if cls is ac.RectGrid else AXES3
    for which in range(len(names)):
        kw = {}
        pts = []
        for i, n in enumerate(names):
            a, b = (lo, hi) if i == which else (0.0, 1.0)
            kw[f'{n}_min'], kw[f'{n}_max'] = a, b
            if i == which:
                pts.append(axis(a, b, inc))
            else:
                pts.append(axis(a, b, inc if cls is ac.RectGrid else 0.5))
        if cls is ac.RectGrid:
            kw['z'] = 2.5
            g = cls(increment=inc, **kw)
        else:
            v = [0.5] * 3
            v[which] = inc
            g = cls(increment=v, **kw)
        text = f'{cls.__name__} {kw} increment {inc}'
        ref = np.array(np.meshgrid(*pts, *([[2.5]] if cls is ac.RectGrid else []), indexing='ij')).reshape(3, -1)
        consistent(g, ref, tuple(len(p) for p in pts), text)
        ck.step(cls.__name__, which, lo, hi, inc)
        ck.outcome(g.shape, g.pos.tobytes())
        # the points themselves
        for k in range(g.size):
            own = tuple(int(i) for i in np.unravel_index(k, g.shape))
            got = g.index(*g.pos[: len(names), k])
            ck.step(cls.__name__, 'own', own)
            expect(
                all(np.isclose(pts[a][got[a]], pts[a][own[a]], atol=1e-12) for a in range(len(names))),
                'own-index',
                lambda: f'{text}: point {own} at {g.pos[:, k]} has index {got}',
            )
        # anything inside
        ax = pts[which]
        base = [p[0] for p in pts]
        probes = sorted({lo + (hi - lo) * i / 20 for i in range(21)})
        found = {}
        for x in probes:
            q = list(base)
            q[which] = x
            got = g.index(*q)[which]
            found[x] = got
            ck.step(cls.__name__, 'probe', got, len(ax))
            expect(0 <= got < len(ax), 'index-range', lambda: f'{text}: index of {x} is {got} of {len(ax)} points')
            expect(
                abs(ax[got] - x) <= np.abs(ax - x).min() + 1e-9,
                'nearest',
                lambda: f'{text}: index of {x} is {got} at {ax[got]}, nearest is {ax[np.argmin(np.abs(ax - x))]}',
            )
        for x in (min(lo, hi) - 0.01, max(lo, hi) + 0.01):
            q = list(base)
            q[which] = x
            try:
                got = g.index(*q)
            except ValueError:
                continue
            expect(False, 'outside', lambda: f'{text}: {x} has index {got}')
        # ranges
        for a, b in itertools.product(probes[::3], repeat=2):
            q, r = list(base), list(base)
            q[which], r[which] = a, b
            ind = g.indices(*q, *r)
            got = set(range(len(ax))[ind[which]])
            want = set(range(min(found[a], found[b]), max(found[a], found[b]) + 1))
            ck.step(cls.__name__, 'range', len(got))
            expect(got == want, 'range', lambda: f'{text}: range {a}..{b} gives {sorted(got)} instead of {sorted(want)}')


def changes(ck, cls):
    """The limits are changed one by one: everything is consistent after each."""
    names = AXES2 if cls is ac.RectGrid else AXES3
    g = cls(increment=0.5)
    st = {f'{n}_{s}': getattr(g, f'{n}_{s}') for n in names for s in ('min', 'max')}
    st['increment'] = 0.5
    if cls is ac.RectGrid:
        st['z'] = g.z
    moves = [(k, v) for k in st for v in ((0.3, 0.7) if k == 'increment' else (-0.5, 0.0, 1.5))]
    for seq in itertools.product(moves, repeat=1 if ck.quick and cls is not ac.RectGrid else 2):
        g = cls(increment=0.5)
        s = dict(st)
        for k, v in seq:
            (g.size, g.shape, g.pos, g.digest)
            setattr(g, k, v)
            s[k] = v
            pts = [axis(s[f'{n}_min'], s[f'{n}_max'], s['increment']) for n in names]
            ref = np.array(np.meshgrid(*pts, *([[s['z']]] if cls is ac.RectGrid else []), indexing='ij')).reshape(3, -1)
            consistent(g, ref, tuple(len(p) for p in pts), f'{cls.__name__} after {seq}')
            ck.step(cls.__name__, k, v, g.size)


L3 = (-0.5, 0.0, 0.5)


def flat(g, ind):
    m = np.zeros(g.shape, bool)
    m[ind] = True
    return set(np.flatnonzero(m.ravel()).tolist())


def circles(ck, g):
    for x, y, r in itertools.product((-0.5, -0.125, 0.25, 0.5), (-0.5, 0.0, 0.375), (0.0, 0.125, 0.5, 0.625, 3.0)):
        d2 = (g.pos[0] - x) ** 2 + (g.pos[1] - y) ** 2
        want = set(np.flatnonzero(d2 <= r * r).tolist())
        got = flat(g, g.indices(x, y, r))
        ck.step('circle', x, y, r, tuple(sorted(got)))
        if want:
            expect(got == want, 'circle', lambda: f'circle {x, y, r}: {sorted(got)} instead of {sorted(want)}')
        else:
            expect(len(got) == 1 and np.isclose(d2[list(got)[0]], d2.min()), 'circle-nearest', lambda: f'circle {x, y, r}: {sorted(got)}')


def polygons(ck, g, polys):
    pts = [tuple(p) for p in g.pos[:2].T.tolist()]
    for poly in polys:
        want = {i for i, p in enumerate(pts) if geom.in_polygon(p, poly) >= 0}
        for closed in (poly, poly + poly[:1]):
            if len(closed) < 3:
                continue
            got = flat(g, g.indices(*[v for p in closed for v in p]))
            ck.step('polygon', tuple(closed), tuple(sorted(got)))
            if want:
                expect(got == want, 'polygon', lambda: f'polygon {closed}: {sorted(got)} instead of {sorted(want)}')
            else:
                c = np.mean(closed, 0)
                d = np.hypot(*(g.pos[:2] - c[:, None]))
                expect(len(got) == 1 and np.isclose(d[list(got)[0]], d.min()), 'polygon-nearest', lambda: f'polygon {closed}: {sorted(got)}')


def all_polygons(n, lattice):
    """Simple polygons with n corners on the lattice; the first corner is the smallest."""
    for p in itertools.permutations(lattice, n):
        if p[0] == min(p) and geom.simple(list(p)):
            yield list(p)


def line(ck, loc, direction, length, n):
    g = ac.LineGrid(loc=loc, direction=direction, length=length, num_points=n)
    d = np.array(direction) / np.linalg.norm(direction)
    step = length / (n - 1) if n > 1 else 0.0
    ref = (np.array(loc)[None] + d[None] * step * np.arange(n)[:, None]).T
    consistent(g, ref, (n,), f'line {loc} {direction} {length} {n}')
    ck.step('line', loc, direction, length, n)
    ck.outcome(g.pos.tobytes())


def imported(ck, n):
    pos = np.arange(3 * n).reshape(3, n) * 0.25
    g = ac.ImportGrid(pos=pos)
    consistent(g, pos, (n,), f'import {n}')
    pos2 = pos[:, ::-1][:, : max(1, n - 1)] + 1
    g.pos = pos2
    consistent(g, pos2, (pos2.shape[1],), f'import {n} changed')
    ck.step('import', n)


PARTS = {
    'rect': lambda: ac.RectGrid(x_min=0, x_max=1, y_min=0, y_max=0.5, z=0.0, increment=0.5),
    'line': lambda: ac.LineGrid(loc=(0.0, 0.0, 0.0), direction=(1.0, 0.0, 0.0), length=1.0, num_points=3),
    'other': lambda: ac.LineGrid(loc=(0.0, 1.0, 0.5), direction=(0.0, -1.0, 0.0), length=2.0, num_points=2),
    'import': lambda: ac.ImportGrid(pos=np.array([[1.0, 0.5, -1.0], [0.5, 0.0, 0.0], [0.0, 0.0, 2.0]])),
}


def check_merged(g, grids, text):
    pts, owner = [], []
    for h in grids:
        for p in h.pos.T.tolist():
            if tuple(p) not in pts:
                pts.append(tuple(p))
                owner.append({h.__class__.__name__ + h.digest})
            else:
                owner[pts.index(tuple(p))].add(h.__class__.__name__ + h.digest)
    got = [tuple(p) for p in g.pos.T.tolist()]
    expect(sorted(got) == sorted(pts), 'merged-points', lambda: f'{text}: {got} instead of {pts}')
    expect(g.size == len(pts) and g.shape == (len(pts),), 'merged-shape', lambda: f'{text}: {g.size}, {g.shape}, {len(pts)} points')
    names = np.array(g.subgrids).ravel()
    expect(len(names) == len(pts), 'subgrids', lambda: f'{text}: {len(names)} names of {len(pts)} points')
    for p, n in zip(got, names):
        expect(n in owner[pts.index(p)], 'subgrids', lambda: f'{text}: point {p} belongs to {n}')


def merged(ck, sel):
    grids = [PARTS[s]() for s in sel]
    g = ac.MergeGrid(grids=grids)
    check_merged(g, grids, f'{sel}')
    ck.step('merge', sel)
    ck.outcome(g.pos.tobytes())
    # one of them changes
    for h in grids:
        if isinstance(h, ac.LineGrid):
            h.length = 3.0
        elif isinstance(h, ac.RectGrid):
            h.x_max = 1.5
        else:
            h.pos = h.pos[:, :2]
        check_merged(g, grids, f'{sel} after change')
        ck.step('merge', sel, g.size)
    for i in range(len(grids)):
        g.grids = grids[:i] + grids[i + 1 :]
        if g.grids:
            check_merged(g, grids[:i] + grids[i + 1 :], f'{sel} without {i}')
            ck.step('merge', sel, i, g.size)


SECTORS = {
    'all': lambda: ac.Sector(),
    'rect': lambda: ac.RectSector(x_min=0.0, x_max=0.5, y_min=-0.25, y_max=0.5),
    'box': lambda: ac.RectSector3D(x_min=0.0, x_max=0.5, y_min=-0.25, y_max=0.5, z_min=0.0, z_max=0.5),
    'circle': lambda: ac.CircSector(x=0.25, y=0.25, r=0.5),
    'far': lambda: ac.CircSector(x=5.0, y=5.0, r=0.5),
    'empty': lambda: ac.CircSector(x=5.0, y=5.0, r=0.5, default_nearest=False),
    'poly': lambda: ac.PolySector(edges=[0, 0, 1, 0, 0, 1]),
    'convex': lambda: ac.ConvexSector(edges=[0, 0, 1, 0, 0, 1]),
    'multi': lambda: ac.MultiSector(sectors=[ac.RectSector(x_min=0.0), ac.CircSector(r=0.5)]),
}
GRIDS = {
    'RectGrid': lambda: ac.RectGrid(increment=0.25, x_max=0.5),
    'RectGrid3D': lambda: ac.RectGrid3D(increment=0.5, x_max=0.5),
    'ImportGrid': lambda: ac.ImportGrid(pos=np.array([[0.0, 0.25, 0.5, 1.0], [0.0, 0.25, 0.5, 1.0], [0.0, 0.3, 0.2, 1.0]])),
    'LineGrid': lambda: ac.LineGrid(num_points=5),
    'LineGrid1': lambda: ac.LineGrid(),
    'MergeGrid': lambda: ac.MergeGrid(grids=[ac.RectGrid(increment=0.5), ac.LineGrid(num_points=4)]),
}


def subdomain(ck, gn, sn):
    g, s = GRIDS[gn](), SECTORS[sn]()
    got = flat(g, g.subdomain(s))
    want = set(np.flatnonzero(s.contains(g.pos)).tolist())
    expect(got == want, 'subdomain', lambda: f'{gn} {sn}: {sorted(got)} instead of {sorted(want)}')
    v = np.arange(g.size) * 1.0
    expect(
        set(v.reshape(g.shape)[g.subdomain(s)].tolist()) == {float(i) for i in want}, 'subdomain-select', lambda: f'{gn} {sn}'
    )
    ck.step('subdomain', gn, sn, tuple(sorted(got)))


def item(ck, it):
    what = it[0]
    if what == 'axis':
        _, cls, lo, hi = it
        for inc in INCREMENTS:
            ck.case(f'axis/{cls.__name__}/{lo}/{hi}/{inc}', axis_case, ck, cls, lo, hi, inc)
    elif what == 'changes':
        ck.case(f'changes/{it[1].__name__}', changes, ck, it[1])
    elif what == 'region':
        _, n, i, k = it
        g = ac.RectGrid(x_min=-0.5, x_max=0.5, y_min=-0.5, y_max=0.5, increment=0.25)
        if n == 'circle':
            ck.case('region/circle', circles, ck, g)
        else:
            lattice = list(itertools.product((-0.5, 0.0, 0.5), (-0.5, 0.125, 0.5)))
            polys = itertools.islice(all_polygons(n, lattice), i, None, k)
            ck.case(f'region/polygon{n}/{i}', polygons, ck, g, list(polys))
    elif what == 'other':
        for loc in ((0.0, 0.0, 0.0), (1.0, -2.0, 0.5)):
            for d in ((1.0, 0.0, 0.0), (0.0, 0.0, -3.0), (1.0, 2.0, 2.0)):
                for length in (0.0, 1.0, 2.5):
                    for n in (1, 2, 3, 6):
                        ck.case(f'line/{loc}/{d}/{length}/{n}', line, ck, loc, d, length, n)
        for n in (1, 2, 5):
            ck.case(f'import/{n}', imported, ck, n)
        for gn in GRIDS:
            for sn in SECTORS:
                ck.case(f'subdomain/{gn}/{sn}', subdomain, ck, gn, sn)
        for n in (1, 2, 3):
            for sel in itertools.product(PARTS, repeat=n):
                ck.case(f'merge/{"+".join(sel)}', merged, ck, sel)


def run(ck):
    items = [('changes', ac.RectGrid3D), ('changes', ac.RectGrid), ('region', 'circle', 0, 1), ('other',)]
    k = 4
    items += [('region', n, i, k if not (ck.quick and n > 4) else 40) for n in (3, 4, 5) for i in range(k)]
    items += [('axis', c, lo, hi) for c in (ac.RectGrid, ac.RectGrid3D) for lo in LIMITS for hi in LIMITS]
    ck.parallel(item, items)
    ck.rule('all pairs of axis limits of a menu (also equal and reversed) x increments x every point, 21 probes, all pairs of every third probe; '
            'pairs of changes; all simple polygons with 3..5 corners on a 3x3 lattice (quick: a part of those with 5); circles; lines; all merges of up to three of four grids')
    ck.assume('Rectangles and boxes given by two corners select from the point nearest one corner to that nearest the other.')
