"""K03: helper functions and metrics are consistent with the data they summarise."""

import contextlib
import io
import itertools
import math
import warnings

import acoular as ac
import numpy as np
from acoular.tools.helpers import bardata, barspectrum, c_air, return_result, synthetic
from acoular.tools.metrics import MetricEvaluator

from mc import fd, td
from mc.core import expect


def frozen(a):
    a = np.array(a)
    a.flags.writeable = False
    return a


# -- collecting -----------------------------------------------------------------------------------


def collect(ck, n, ch):
    x = td.pattern(n, ch)
    for mode, num, nmax in itertools.product(('fresh', 'view', 'reuse'), range(1, n + 3), (-1, *range(1, n + 4))):
        kept = x.copy()
        s = td.src(kept, mode)
        got = return_result(s, nmax=nmax, num=num)
        ck.step('collect', n, ch, mode, num, nmax)
        want = x if nmax < 0 else x[:nmax]
        expect(np.array_equal(got, want), 'collected', lambda: f'{n, ch} {mode} blocks of {num}, at most {nmax}: {got.tolist()}')
        expect(np.array_equal(kept, x), 'source-changed')
        got[:] = 7
        expect(np.array_equal(kept, x), 'shared', lambda: f'{mode} {num} {nmax}: changing the result changes the source')
    expect(np.array_equal(return_result(td.src(x)), x), 'collected-default')


# -- bands ----------------------------------------------------------------------------------------

FREQS = {
    'fine': np.arange(65) * 25.0,
    'coarse': np.arange(9) * 500.0,
    'uneven': np.array([20.0, 31.5, 40.0, 100.0, 101.0, 1000.0, 5000.0]),
    'single': np.array([100.0]),
}


def ref_band(data, freqs, f, num):
    out = np.zeros(np.shape(data)[1:], dtype=np.result_type(data))
    if num == 0:
        for i, v in enumerate(freqs):
            if v >= f:
                return np.array(data[i])
        return out
    lo, hi = f * 2 ** (-0.5 / num), f * 2 ** (0.5 / num)
    for i, v in enumerate(freqs):
        if lo <= v < hi:
            out = out + data[i]
    return out


def bands(ck, name, shape, kind):
    freqs = FREQS[name]
    rng = np.random.RandomState(3)
    data = rng.random_sample((len(freqs), *shape)) * 100
    data = frozen(data.astype(kind))
    fr = frozen(freqs)
    single = [0.0, *freqs[:6], freqs[-1], freqs[-1] + 1, freqs[0] - 1, 99.0, 100.5, 63, 500, 1000.0, 1e6]
    for num in (0, 1, 2, 3, 6, 12, 24):
        want = {f: ref_band(data, freqs, f, num) for f in single}
        for f in single:
            for arg in (f, [f], (f,), np.array([f]), np.float64(f)):
                got = synthetic(data, fr, arg, num)
                ck.step('band', name, shape, kind, num, f, type(arg).__name__)
                expect(got.shape == (1, *shape) and np.allclose(got[0], want[f], rtol=1e-5, atol=0), 'band', lambda: f'{name} {shape} {kind}: {f} Hz, width {num}: {got} instead of {want[f]}')
                got[...] = 0
        for fs in itertools.permutations(single[:5] + single[-3:], 3):
            got = synthetic(data, fr, list(fs), num)
            ck.step('bands', name, num, fs)
            expect(len(got) == 3 and all(np.allclose(g, want[f], rtol=1e-5, atol=0) for g, f in zip(got, fs)), 'bands', lambda: f'{name}: {fs} width {num}')
    # neighbouring bands cover every line once
    for num in (1, 2, 3, 5):
        centres = [freqs[-1] * 2 ** (k / num) for k in range(-16 * num, 3)]
        total = synthetic(data, fr, centres, num).sum(0)
        lo = centres[0] * 2 ** (-0.5 / num)
        ck.step('cover', name, num)
        expect(np.allclose(total, data[freqs >= lo].sum(0), rtol=1e-5), 'cover', lambda: f'{name} width {num}: {total} instead of {data[freqs >= lo].sum(0)}')


PREFERRED = [b * 10**k for k in range(3) for b in (31.5, 40, 50, 63, 80, 100, 125, 160, 200, 250)]


def bars(ck, name, num):
    freqs = FREQS[name]
    data = frozen(np.random.RandomState(5).random_sample(len(freqs)) * 10)
    for bar, off in itertools.product((True, False), (0.0, 0.1)):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            flu, p, fc = barspectrum(data, frozen(freqs), num, bar, off)
        ck.step('bars', name, num, bar, off)
        text = f'{name} {num} {bar} {off}'
        expect(all(f in PREFERRED[:: 3 // num] for f in fc) and list(fc) == sorted(set(fc)), 'centres', lambda: f'{text}: {fc}')
        # all bands that lie within the range of the data are there
        w = 2 ** (0.5 / num)
        inside = [f for f in PREFERRED[:: 3 // num] if f / w >= freqs[1] and f * w <= freqs[-1]]
        expect(set(inside) <= set(fc), 'missing', lambda: f'{text}: {sorted(set(inside) - set(fc))} missing')
        want = [ref_band(data, freqs, f, num) for f in fc]
        p = np.ravel(p)
        draw(text, fc, want, flu, p, num, bar, off)
        for mask in (-360, 0.0, 5.0):
            flu, q = bardata(frozen(want), frozen(fc), num, bar, off, mask)
            draw(text, fc, want, flu, np.ravel(np.ma.getdata(q)), num, bar, 2 * off if False else off)
            hidden = np.ravel(np.ma.getmaskarray(q))
            expect(list(hidden) == [mask > -360 and v <= mask for v in np.ravel(np.ma.getdata(q))], 'masked', lambda: f'{text} {mask}: {hidden}')


def draw(text, fc, want, flu, p, num, bar, off):
    if not bar:
        expect(np.array_equal(flu, fc) and np.allclose(p, want, rtol=1e-9, atol=0), 'curve', lambda: f'{text}: {p} instead of {want}')
        return
    expect(len(flu) == len(p) == 2 * len(fc), 'bars', lambda: f'{text}: {len(flu)} borders and {len(p)} values for {len(fc)} bands')
    shift = 2 ** (off / num)
    for i, f in enumerate(fc):
        lo, hi = flu[2 * i] / shift, flu[2 * i + 1] / shift
        expect(lo < f < hi and math.isclose(lo, f * 2 ** (-0.5 / num), rel_tol=0.04) and math.isclose(hi, f * 2 ** (0.5 / num), rel_tol=0.04), 'borders', lambda: f'{text}: band {f} drawn from {lo} to {hi}')
        expect(i == 0 or flu[2 * i] == flu[2 * i - 1], 'borders', lambda: f'{text}: gap at {f}')
        expect(np.allclose([p[2 * i], p[2 * i + 1]], want[i], rtol=1e-9, atol=0), 'values', lambda: f'{text}: {p} instead of {want}')


# -- levels and sums over sectors -------------------------------------------------------------------


def levels(ck):
    vals = [0.0, -1.0, 4e-10, 4e-9, 1.0, 1e-300, 1e290, 4e-45, 1e-44, 5e-324, np.inf]
    for k in (1, 2, 3):
        for c in itertools.product(vals, repeat=k):
            a = frozen(c)
            for x in (a, a.reshape(1, k), a.reshape(k, 1)):
                ck.step('level', c, x.shape)
                with np.errstate(all='ignore'):
                    got = ac.L_p(x)
                want = np.array([-350.0 if v <= 0 else max(10 * math.log10(v) - 10 * math.log10(4e-10), -350.0) for v in c]).reshape(x.shape)
                expect(got.shape == x.shape and np.allclose(got, want, rtol=1e-9), 'level', lambda: f'{c}: {got} instead of {want}')
    for v in vals:
        with np.errstate(all='ignore'):
            expect(np.ndim(ac.L_p(v)) == 0, 'level-scalar')
    for dt in ('float32', 'int16', 'int64'):
        a = np.array([0, 1, 2, 100], dtype=dt)
        got = ac.L_p(a)
        want = np.array([-350.0, *(10 * np.log10(v / 4e-10) for v in (1, 2, 100))])
        expect(np.allclose(got, want, rtol=1e-5), 'level-type', lambda: f'{dt}: {got}')


GRIDS = {
    'rect': lambda: ac.RectGrid(x_min=-1, x_max=1, y_min=-1, y_max=1, increment=0.5),
    'flat': lambda: ac.RectGrid(x_min=-1, x_max=1, y_min=0, y_max=0.0, increment=0.5),
    'box': lambda: ac.RectGrid3D(x_min=-1, x_max=1, y_min=-1, y_max=1, z_min=1, z_max=2, increment=1),
    'line': lambda: ac.LineGrid(loc=(-1.0, 0, 0), length=2, num_points=5),
    'list': lambda: ac.ImportGrid(pos=np.random.RandomState(11).random_sample((3, 7)) * 2 - 1),
}


def sums(ck, name):
    g = GRIDS[name]()
    pos = g.pos
    for nf, kind in itertools.product((0, 1, 2, g.size), ('float64', 'float32', 'int64')):
        shape = (g.size,) if nf == 0 else (nf, g.size)
        data = frozen((np.random.RandomState(1).random_sample(shape) * 50).astype(kind))
        for x, y, r in itertools.product((-1, 0.2, 0.5), (-0.7, 0.0, 1), (0.01, 0.6, 5)):
            d = np.hypot(pos[0] - x, pos[1] - y)
            if np.min(np.abs(d**2 - r * r)) < 5e-3:
                continue
            inside = d < r
            if not inside.any():
                inside[d.argmin()] = True
                if np.sum(np.isclose(d, d.min())) > 1:
                    continue
            sector = ac.CircSector(x=x, y=y, r=r)
            want = data[..., inside].sum(-1)
            ck.step('sum', name, nf, kind, x, y, r)
            variants = [data]
            if nf == 0:
                variants += [data.reshape(g.shape), data[None]]
            for v in variants:
                got = ac.integrate(v, g, sector)
                expect(np.allclose(got, want, rtol=1e-5) and np.size(got) == np.size(want), 'sum', lambda v=v, got=got: f'{name} data {v.shape} around {x, y} within {r}: {got} instead of {want}')


def air(ck):
    a = (331.5024, 0.603055, -0.000528, 51.471935, 0.1495874, -0.000782, -1.82e-7, 3.73e-8, -2.93e-10, -85.20931, -0.228525, 5.91e-5, -2.835149, -2.15e-13, 29.179762, 0.000486)
    for t, h, p, co2 in itertools.product((-0.1, 0, 7, 20, 30, 30.1), (0, 10, 55.5, 100), (59999, 60000, 75000, 101325, 110000, 110001), (0, 0.04, 0.5, 1.0, 1.01)):
        ok = 0 <= t <= 30 and 60000 <= p <= 110000 and co2 <= 1
        ck.step('air', t, h, p, co2)
        try:
            got = c_air(t, h, p, co2)
        except ValueError:
            tk = t + 273.15
            xw = h / 100 * 1.1 * np.exp(1.2378847e-5 * tk**2 - 1.9121316e-2 * tk + 33.93711047 - 6343.1645 / tk) / p
            expect(not ok or xw > 0.06, 'refused', f'{t} {h} {p} {co2}')
            continue
        expect(ok, 'accepted', f'{t} {h} {p} {co2}')
        tk = t + 273.15
        f = 1.00062 + 3.14e-8 * p + 5.6e-7 * tk**2  # as the library documents it
        xw = h / 100 * f * np.exp(1.2378847e-5 * tk**2 - 1.9121316e-2 * tk + 33.93711047 - 6343.1645 / tk) / p
        xc = co2 / 100
        want = a[0] + a[1] * t + a[2] * t**2 + (a[3] + a[4] * t + a[5] * t**2) * xw + (a[6] + a[7] * t + a[8] * t**2) * p + (a[9] + a[10] * t + a[11] * t**2) * xc + a[12] * xw**2 + a[13] * p**2 + a[14] * xc**2 + a[15] * xw * p * xc
        expect(abs(got - want) < 1e-9, 'air', lambda: f'{t} {h} {p} {co2}: {got} instead of {want}')
    expect(abs(c_air(20, 50) - 344.2) < 0.5 and c_air(0, 0) == c_air(0, 0, 101325, 0.04), 'air-default')


# -- maps -------------------------------------------------------------------------------------------


def maps(ck, name, sel):
    """The functions applied to a source map agree with the methods of the beamformer."""
    b = fd.beamformer(name, fd.imported())
    b.freq_data.ind_low, b.freq_data.ind_high = sel
    freqs = b.freq_data.fftfreq()
    full = np.array(b.result[:])
    if not len(freqs):
        return
    for num in (0, 1, 3):
        for f in (*freqs, freqs[0] - 1, freqs[-1] + 1, freqs.mean(), 3 * freqs[-1]):
            ck.step('map', name, sel, num, float(f))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                m = b.synthetic(f, num)
                s = synthetic(full, freqs, f, num)[0]
            expect(m.shape == b.steer.grid.shape and np.allclose(m.ravel(), s, rtol=1e-6, atol=0), 'map', lambda: f'{name} {sel}: {f} Hz width {num}: {m.ravel()} instead of {s}')
            for sec in (ac.CircSector(r=0.3), ac.RectSector(x_min=-0.2, x_max=0.3, y_min=-1, y_max=0.1)):
                expect(np.allclose(ac.integrate(m, b.steer.grid, sec), s[sec.contains(b.steer.grid.pos)].sum(), rtol=1e-6), 'map-sum')
    for sec in (ac.CircSector(r=0.3), ac.RectSector(x_min=-0.2, x_max=0.3, y_min=-1, y_max=0.1)):
        got = b.integrate(sec)
        lines = np.zeros(len(got))
        lines[slice(*sel)] = ac.integrate(full, b.steer.grid, sec)[slice(*sel)]
        expect(np.allclose(got, lines, rtol=1e-6, atol=0), 'spectrum', lambda: f'{name} {sel}: {got} instead of {lines}')


# -- metrics ----------------------------------------------------------------------------------------

TARGETS = {
    'one': [[0.0, 0.0, 1.0]],
    'two': [[-0.5, -0.5, 1.0], [0.5, 0.5, 1.0]],
    'near': [[0.0, 0.0, 1.0], [0.3, 0.05, 1.0]],
    'same': [[0.5, 0.0, 1.0], [0.5, 0.0, 1.0], [-1.0, 0.5, 1.0]],
    'far': [[5.0, 5.0, 1.0], [0.1, 0.0, 1.0]],
}
METRICS = ('get_overall_level_error', 'get_specific_level_error', 'get_inverse_level_error')
CHANGES = (('adaptive_sector_size', False), ('adaptive_sector_size', True), ('multi_assignment', False), ('multi_assignment', True), ('r', 0.25), ('r', 1.1), ('data', 1))


def ref_sectors(pos, targets, r, adaptive):
    out = []
    for i, t in enumerate(targets):
        rad = r
        if adaptive:
            others = [math.dist(t, u) for j, u in enumerate(targets) if math.dist(t, u) > 0]
            rad = min([rad, *(o / 2 for o in others)])
        d2 = (pos[0] - t[0]) ** 2 + (pos[1] - t[1]) ** 2
        inside = d2 - rad**2 <= 5e-4  # points are on the border or clearly off it
        if not inside.any():
            inside[d2.argmin()] = True
        out.append((rad, inside))
    return out


def db(x):
    return 10 * np.log10(np.clip(np.asarray(x) / 4e-10, 1e-35, None))


def ref_metric(name, pos, data, targets, power, r, adaptive, multi):
    if name == METRICS[0]:
        return db(data.sum(1)) - db(power.sum(1))
    got = np.zeros(power.shape)
    for f in range(len(data)):
        left = data[f].copy()
        for i, (_, inside) in enumerate(ref_sectors(pos, targets, r, adaptive)):
            got[f, i] = left[inside].sum()
            if not multi:
                left[inside] = 0
    if name == METRICS[1]:
        return db(got) - db(power)
    return db(got.sum(1)) - db(data.sum(1))


def metrics(ck, grid, target, kind, depth):
    ops = [('get', m) for m in METRICS] + [('set', *c) for c in CHANGES]
    t = TARGETS[target]
    rng = np.random.RandomState(9)
    g0 = GRIDS[grid]()
    maps = [np.round(rng.random_sample((nf, g0.size)) * 20 + 1).astype(kind) for nf in (2, 2)]
    power = np.round(rng.random_sample((2, len(t))) * 20 + 1)
    pos = g0.pos
    for seq in itertools.product(ops, repeat=depth):
        if seq[-1][0] != 'get':
            continue
        sector = ac.CircSector(r=0.6, x=0.125, y=-7.5)
        tg = ac.ImportGrid(pos=np.array(t).T)
        given, p = [m.copy() for m in maps], power.copy()
        m = MetricEvaluator(data=given[0], target_data=p, grid=g0, target_grid=tg, sector=sector)
        cfg = {'adaptive_sector_size': True, 'multi_assignment': True, 'r': 0.6, 'data': 0}
        for op in seq:
            if op[0] == 'set':
                cfg[op[1]] = op[2]
                if op[1] == 'r':
                    sector.r = op[2]
                elif op[1] == 'data':
                    m.data = given[1]
                else:
                    setattr(m, op[1], op[2])
                continue
            got = getattr(m, op[1])()
            want = ref_metric(op[1], pos, maps[cfg['data']].astype(float), t, power, cfg['r'], cfg['adaptive_sector_size'], cfg['multi_assignment'])
            ck.step('metric', grid, target, kind, op, tuple(cfg.values()))
            expect(got.shape == want.shape and np.allclose(got, want, rtol=0, atol=2e-4 if kind == 'float32' else 1e-8), 'metric', lambda: f'{grid} {target} {kind} {seq}: {got} instead of {want}')
            expect(all(np.array_equal(a, b) for a, b in zip((*given, p, m.data, m.target_data), (*maps, power, maps[cfg['data']], power))), 'inputs', lambda: f'{grid} {target} {seq}: the data was changed')
            expect((sector.x, sector.y, sector.r) == (0.125, -7.5, cfg['r']), 'sector', lambda: f'{grid} {target} {seq}: the sector was changed')
            ss = [(s.x, s.y, s.r) for s in m.sectors]
            ref = [(c[0], c[1], r) for c, (r, _) in zip(t, ref_sectors(pos, t, cfg['r'], cfg['adaptive_sector_size']))]
            expect(np.allclose(ss, ref), 'sectors', lambda: f'{grid} {target} {seq}: {ss} instead of {ref}')
    ck.outcome(grid, target, kind)


def defaults(ck):
    """An evaluator without a sector has one of its own."""
    for order in itertools.permutations((0, 1)):
        ms = [MetricEvaluator(data=np.ones((1, 25)), target_data=np.ones((1, 1)), grid=GRIDS['rect'](), target_grid=ac.ImportGrid(pos=np.array([[0.0, 0, 1]]).T)) for _ in range(2)]
        for i in order:
            ms[i].sector.r = 0.3 + i
            ck.step('default', order, i)
        for i in order:
            expect(math.isclose(ms[i].get_inverse_level_error()[0], 10 * math.log10([1, 21][i] / 25), abs_tol=1e-9), 'default', lambda i=i: f'{i}: {ms[i].get_inverse_level_error()}')
    for bad in ('data', 'target_data', 'both'):
        m = MetricEvaluator(data=np.ones((2, 24 if bad == 'data' else 25)), target_data=np.ones((1 if bad == 'both' else 2, 2 if bad == 'target_data' else 1)), grid=GRIDS['rect'](), target_grid=ac.ImportGrid(pos=np.array([[0.0, 0, 1]]).T), sector=ac.CircSector(r=1))
        for name in METRICS:
            try:
                getattr(m, name)()
            except ValueError:
                continue
            expect(False, 'mismatch', f'{bad} accepted by {name}')


def item(ck, it):
    kind, *a = it
    fn = {'collect': collect, 'bands': bands, 'bars': bars, 'levels': levels, 'sums': sums, 'air': air, 'maps': maps, 'metrics': metrics, 'defaults': defaults}[kind]
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ck.case('/'.join(str(x) for x in it).replace(' ', ''), fn, ck, *a)


def run(ck):
    q = ck.quick
    items = [('collect', n, c) for n in (range(1, 9) if q else range(1, 15)) for c in (1, 3)]
    items += [('bands', n, s, k) for n in FREQS for s in ((), (3,), (2, 2)) for k in ('float64', 'float32', 'int64')]
    items += [('bars', n, k) for n in ('fine', 'coarse') for k in (1, 3)]
    items += [('levels',), ('air',), ('defaults',)] + [('sums', g) for g in GRIDS]
    items += [('maps', b, s) for b in ('Base', 'Cleansc', 'Damas', 'Orth') if b in fd.BEAMFORMERS for s in ((0, None), (1, 3), (2, None), (4, None), (0, 1), (0, 4))]
    items += [('metrics', g, t, k, 3 if q else 4) for g in GRIDS for t in TARGETS for k in ('float64', 'int64', 'float32')]
    ck.parallel(item, items)
    ck.rule('all block sizes and limits for collecting; all bands of a menu on several frequency axes and shapes; levels of all short vectors of difficult values; '
            f'sums over sectors for all grid types; metrics in all sequences of {3 if q else 4} evaluations and changes of settings, with unchanged inputs')
