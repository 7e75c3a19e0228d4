"""B05: time-domain beamforming is delay and sum, whatever the block size."""

import itertools

import acoular as ac
import numpy as np

from mc import td
from mc.core import expect

FS = 2000.0
C = 300.0
POS = np.array([[-0.3, 0.3, 0.05, -0.1], [0.25, -0.2, 0.3, -0.31], [0.0, 0.02, 0.0, -0.01]])
GRID = dict(x_min=-0.2, x_max=0.2, y_min=-0.1, y_max=-0.1, z=0.6, increment=0.2)
POINTS = {
    'away': {0.0: (0.0, 0.0, 0.0), 0.004: (0.1, 0.02, 0.1), 0.01: (0.3, 0.1, 0.5), 0.03: (0.8, 0.3, 1.1)},
    'near': {0.0: (0.5, 0.4, 1.2), 0.004: (0.3, 0.3, 0.9), 0.01: (0.1, 0.1, 0.3), 0.03: (0.0, 0.0, 0.0)},
    'short': {0.0: (0.1, 0.0, 0.0), 0.002: (0.1, 0.05, 0.1), 0.004: (0.0, 0.1, 0.2), 0.0053: (0.1, 0.2, 0.2)},
    'wave': {0.0: (0.0, 0.0, 0.0), 0.003: (0.0, 0.1, 0.6), 0.006: (0.1, 0.2, 0.0), 0.012: (0.2, 0.2, 0.9), 0.03: (0.3, 0.0, 0.0)},
}
RVEC = (0.0, 0.2, 1.0)


def steer(st, ref, nmic=3, env=None):
    s = ac.SteeringVector(
        grid=ac.RectGrid(**GRID), mics=ac.MicGeom(pos_total=POS[:, :nmic].copy()), steer_type=st, env=env or ac.Environment(c=C)
    )
    if ref is not None:
        s.ref = ref
    return s


# -- reference -------------------------------------------------------------------------------------


def amplitudes(st, rm, r0):
    """rm: points x microphones, r0: points"""
    m = rm.shape[1]
    if st == 'classic':
        return np.full(rm.shape, 1.0 / m)
    if st == 'inverse':
        return rm / r0[:, None] / m
    if st == 'true level':
        return 1.0 / (rm * r0[:, None] * (1 / rm**2).sum(1)[:, None])
    return 1.0 / (rm * np.sqrt((1 / rm**2).sum(1))[:, None] * np.sqrt(m))


def weights(kind, pos):
    """Power per area of the array is constant."""
    if kind == 'none':
        return np.ones(pos.shape[1])
    r = np.sqrt((pos**2).sum(0))
    r = (r / r.max()).round(decimals=1)
    rings = sorted(set(r))
    edges = [0.0] + [(a + b) / 2 for a, b in zip(rings, rings[1:])]
    edges.append(1.5 * rings[-1] - 0.5 * (edges[-1] if len(rings) > 1 else 0.0))
    w = np.zeros(len(r))
    for i, x in enumerate(rings):
        w[r == x] = np.sqrt((edges[i + 1] ** 2 - edges[i] ** 2) / (r == x).sum())
    per_ring = np.array([w[r == x][0] for x in rings])
    return w / per_ring.mean()


def dist(a, b):
    return np.sqrt(((a[:, :, None] - b[:, None, :]) ** 2).sum(0))


def geometry(cfg, t_index, traj, pos):
    """Distances microphones-points and reference distances for one output sample."""
    g = ac.RectGrid(**GRID).pos
    mach = None
    if traj is not None:
        t = t_index / FS
        loc = np.array(traj.location(t))
        v = np.array(traj.location(t, der=1))
        if cfg['rvec'] is not None:
            dy = np.cross(cfg['rvec'], v)
            dz = np.cross(v, dy)
            R = np.array([k / np.linalg.norm(k) for k in (v, dy, dz)]).T
            g = R @ g + loc[:, None]
        else:
            g = g + loc[:, None]
        mach = v / C
    rm = dist(g, pos)
    ref = cfg['ref']
    if ref is None:
        r0 = np.sqrt((g**2).sum(0))
    elif np.isscalar(ref):
        r0 = np.full(g.shape[1], ref) if ref else np.sqrt((g**2).sum(0))
    else:
        r0 = dist(g, np.array(ref)[:, None])[:, 0]
    ramp = rm
    if cfg['conv']:
        # component of the Mach number vector along the ray from microphone to point
        mr = ((g[:, :, None] - pos[:, None, :]) * mach[:, None, None]).sum(0) / rm
        ramp = rm * (1 - mr) ** 2
    return rm, r0, ramp


def model(cfg, x, pos, traj):
    """Delayed, weighted sum and the part of it that is due to the single microphones."""
    n = x.shape[0]
    w = weights(cfg['weights'], pos)
    xs = x * w
    out, auto = [], []
    limit = None
    if traj is not None:
        limit = len(np.arange(0.0, max(traj.points), 1 / FS))
    fixed = geometry(cfg, 0, None, pos) if traj is None else None
    for k in range(n):
        if limit is not None and k >= limit:
            break
        rm, r0, ramp = fixed or geometry(cfg, k, traj, pos)
        a = amplitudes(cfg['st'], ramp, r0)
        d = rm * FS / C
        i = np.floor(d).astype(int)
        f = d - i
        if (i + k + 1).max() >= n:
            break
        m = np.arange(pos.shape[1])
        s = a * (xs[i + k, m] * (1 - f) + xs[i + k + 1, m] * f)
        out.append(s.sum(1))
        auto.append((s * s).sum(1))
    p = GRID_SIZE
    return np.array(out).reshape(-1, p), np.array(auto).reshape(-1, p)


GRID_SIZE = 3


def build(cfg, x, mode, traj):
    cls = getattr(ac, 'Beamformer' + cfg['cls'] + ('Traj' if traj is not None else ''))
    kw = {}
    if 'Sq' in cfg['cls']:
        kw['r_diag'] = cfg['r_diag']
    if traj is not None:
        kw.update(trajectory=traj, conv_amp=cfg['conv'], precision=cfg['prec'])
        if cfg['rvec'] is not None:
            kw['rvec'] = np.array(cfg['rvec'])
    if cfg.get('n_iter') is not None:
        kw.update(n_iter=cfg['n_iter'], damp=cfg['damp'])
    return cls(source=td.src(x, mode, FS), steer=steer(cfg['st'], cfg['ref'], x.shape[1]), weights=cfg['weights'], **kw)


def expected(cfg, y, a):
    if 'Sq' not in cfg['cls']:
        return y
    return (y**2 - a).clip(min=0) if cfg['r_diag'] else y**2


def run_case(ck, cfg, n, num, mode, want, again, sig):
    x = td.pattern(n, cfg['nmic'], 1)
    before = x.copy()
    traj = ac.Trajectory(points=POINTS[cfg['traj']]) if cfg['traj'] else None
    bf = build(cfg, x, mode, traj)
    tol = 1e-9 if cfg['prec'] == 64 else 2e-4
    for rep in range(2 if again else 1):
        blocks = td.pull(bf.result(num))
        for b in blocks[:-1]:
            expect(len(b) == num, 'block', lambda: f'blocks of {[len(q) for q in blocks]}, {num} requested')
        expect(all(0 < len(b) <= num for b in blocks), 'block', lambda: f'blocks of {[len(q) for q in blocks]}')
        got = td.cat(blocks, GRID_SIZE)
        lo = len(want) - (cfg['traj'] is None)
        expect(lo <= len(got) <= len(want), 'length', lambda: f'{len(got)} samples instead of {len(want)} (input {n}), run {rep}')
        expect(got.shape[1] == GRID_SIZE == bf.num_channels, 'shape', lambda: str(got.shape))
        expect(td.close(got, want[: len(got)], tol), 'value', lambda: f'run {rep}: {got.tolist()[:3]} instead of {want[:len(got)].tolist()[:3]}')
        expect(np.array_equal(x, before), 'input', 'input data changed')
        ck.step(*sig, n, num, mode, rep, len(got))
    ck.outcome(sig, n, len(got))
    return len(got)


def configs(q):
    base = dict(weights='none', ref=None, st='true level', traj=None, conv=False, rvec=None, prec=64, r_diag=True, nmic=3)
    refs = (None, 0.8, (0.1, 0.2, 0.3)) if q else (None, 0.0, 0.8, (0.1, 0.2, 0.3))
    sts = ('classic', 'inverse', 'true level', 'true location')
    for cls, rd in (('Time', True), ('TimeSq', True), ('TimeSq', False)):
        for w, st, ref, nm in itertools.product(('none', 'power'), sts, refs, (3,) if q else (1, 2, 3, 4)):
            if w == 'power' and nm == 1:
                continue
            yield dict(base, cls=cls, r_diag=rd, weights=w, st=st, ref=ref, nmic=nm)
    for cls, rd in (('Time', True), ('TimeSq', True), ('TimeSq', False)):
        for tr, conv, rv, prec in itertools.product(POINTS, (False, True), (None, RVEC), (64, 32)):
            for st, ref, w in itertools.product(sts, refs, ('none', 'power')):
                if q:
                    # every pair of settings once
                    k = sts.index(st) + refs.index(ref) + (w == 'power') + list(POINTS).index(tr) + conv + (rv is None) + (prec == 64)
                    if k % 8 != (0 if cls == 'Time' else 1 + rd):
                        continue
                yield dict(base, cls=cls, r_diag=rd, traj=tr, conv=conv, rvec=rv, prec=prec, st=st, ref=ref, weights=w)


def label(cfg):
    ref = cfg['ref']
    ref = 'vec' if isinstance(ref, tuple) else ref
    s = f"{cfg['cls']}{'' if 'Sq' not in cfg['cls'] else int(cfg['r_diag'])}-{cfg['weights']}-{cfg['st'].replace(' ', '')}-{ref}-m{cfg['nmic']}"
    if cfg['traj']:
        s += f"/{cfg['traj']}-{'conv' if cfg['conv'] else ''}-{'rot' if cfg['rvec'] else ''}-{cfg['prec']}"
    return s


def one_config(ck, cfg):
    kind = 'traj' if cfg['traj'] else 'fixed'
    q = ck.quick
    pos = POS[:, : cfg['nmic']]
    if kind == 'fixed':
        ns = (0, 1, 5, 6, 7, 9, 14) if q else (0, 1, 4, 5, 6, 7, 8, 9, 11, 14, 25, 40)
        nums = (1, 2, 3, 5, 6, 7, 20) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 20, 50)
    else:
        ns = (0, 6, 13, 24) if q else (0, 1, 5, 6, 7, 9, 13, 17, 24, 40)
        nums = (1, 2, 5, 9, 30) if q else (1, 2, 3, 4, 5, 7, 9, 12, 30)
    traj = ac.Trajectory(points=POINTS[cfg['traj']]) if cfg['traj'] else None
    lab = label(cfg)
    for n in ns:
        x = td.pattern(n, cfg['nmic'], 1)
        want = expected(cfg, *model(cfg, x, pos, traj))
        lens = {}
        for num in nums:
            for mode in ('reuse',) if q else ('fresh', 'view', 'reuse'):
                key = f'{kind}/{lab}/n{n}b{num}-{mode}'
                got = ck.case(key, run_case, ck, cfg, n, num, mode, want, num == nums[2], (kind, lab))
                if got is not None:
                    lens[num] = got
        if ck.only is None or ck.only.startswith(f'{kind}/{lab}/lengths-n{n}'):
            ck.case(f'{kind}/{lab}/lengths-n{n}', same_length, lens)


def same_length(lens):
    expect(len(set(lens.values())) <= 1, 'lengths', lambda: f'length of the output by block size: {lens}')


# -- deconvolution: depends on the blocks, the single step is known ----------------------------------


def clean_block(cfg, block, d, a, r0, ramp, num, traj):
    """CLEAN-T on one window: d, a: samples x points x microphones"""
    n_iter, damp, rdiag = cfg['n_iter'], cfg['damp'], cfg['r_diag']
    m = np.arange(d.shape[2])
    k = np.arange(num)[:, None, None]
    di = np.floor(d).astype(int)
    f = d - di

    def das(p):
        s = a * (p[di + k, m] * (1 - f) + p[di + k + 1, m] * f)
        return s.sum(2), (s * s).sum(2)

    p = block.copy()
    y, au = das(p)
    g, ga = np.zeros_like(y), np.zeros_like(y)
    for _ in range(n_iter):
        e = (y**2 - au).sum(0).clip(min=0) if rdiag else (y**2).sum(0)
        i = int(np.argmax(e))
        t = d[:, i, :] + np.arange(num)[:, None]
        for q in m:
            if traj:
                sel = np.arange(int(t[:, q].min()), int(t[:, q].max()) + 2)
                sel = sel[sel < len(p)]
            else:
                sel = int(d[0, i, q]) + np.arange(num + 1)
            src = y[:, i] * r0[:, i] / ramp[:, i, q]
            p[sel, q] -= damp * np.interp(sel, t[:, q], src)
        y2, au2 = das(p)
        e2 = (y2**2 - au2).sum(0).clip(min=0) if rdiag else (y2**2).sum(0)
        if not e2.sum() < e.sum():
            break
        g[:, i] += damp * y[:, i]
        ga[:, i] = au[:, i]
        y, au = y2, au2
    if 'Sq' not in cfg['cls']:
        return g
    return g**2 - damp**2 * ga if rdiag else g**2


def clean_case(ck, cfg, n, num, mode, sig):
    x = td.pattern(n, cfg['nmic'], 1)
    traj = ac.Trajectory(points=POINTS[cfg['traj']]) if cfg['traj'] else None
    bf = build(cfg, x, mode, traj)
    got = td.cat(td.pull(bf.result(num)), GRID_SIZE)
    pos = POS[:, : cfg['nmic']]
    total = len(model(cfg, x, pos, traj)[0])
    expect(total - (traj is None) <= len(got) <= total, 'length', lambda: f'{len(got)} samples instead of {total}')
    xs = x * weights(cfg['weights'], pos)
    parts = []
    total = len(got)
    for s in range(0, total, num):
        k = min(num, total - s)
        geo = [geometry(cfg, s + i if traj is not None else 0, traj, pos) for i in range(k)]
        rm, r0, ramp = (np.array([g[j] for g in geo]) for j in range(3))
        a = np.array([amplitudes(cfg['st'], u, v) for u, v in zip(ramp, r0)])
        d = rm * FS / C
        # the samples of this window
        if traj is None:
            size = k + int(d.max()) + 2
        else:
            size = num + int(max_delay(cfg, s, num, traj, pos)) + 2
        parts.append(clean_block(cfg, xs[s : s + size], d, a, r0, ramp, k, traj))
    want = np.concatenate(parts) if parts else np.zeros((0, GRID_SIZE))
    tol = 1e-8 if cfg['prec'] == 64 else 1e-3
    expect(td.close(got, want, tol), 'value', lambda: f'{got.tolist()[:3]} instead of {want.tolist()[:3]}')
    ck.step(*sig, n, num)
    ck.outcome(sig, n, len(got), round(float(np.abs(got).sum()), 6))


def max_delay(cfg, s, num, traj, pos):
    lim = len(np.arange(0.0, max(traj.points), 1 / FS))
    return max((geometry(cfg, s + i, traj, pos)[0].max() * FS / C for i in range(num) if s + i < lim), default=0)


def clean_configs(q):
    base = dict(weights='none', ref=None, st='true level', traj=None, conv=False, rvec=None, prec=64, r_diag=False, nmic=3)
    for cls, rd in (('Cleant', False), ('CleantSq', True), ('CleantSq', False)):
        for n_iter, damp in itertools.product((0, 1, 2, 5), (0.6, 1.0)):
            for w, st in itertools.product(('none', 'power'), ('true level', 'classic') if q else ('true level', 'classic', 'inverse', 'true location')):
                for tr in (None, 'away', 'near') if q else (None, *POINTS):
                    for conv, prec in ((False, 64),) if tr is None or q else ((False, 64), (True, 64), (False, 32)):
                        yield dict(base, cls=cls, r_diag=rd, n_iter=n_iter, damp=damp, weights=w, st=st, traj=tr, conv=conv, prec=prec)


def clean_item(ck, cfg):
    lab = label(cfg) + f"-i{cfg['n_iter']}d{cfg['damp']}"
    for n in (9, 24) if ck.quick else (6, 9, 15, 24, 40):
        for num in (3, 6, 30) if ck.quick else (1, 2, 3, 6, 8, 30):
            ck.case(f'clean/{lab}/n{n}b{num}', clean_case, ck, cfg, n, num, 'reuse', ('clean', lab))


# -- integration over sectors ----------------------------------------------------------------------


def sector_case(ck, n, num, clip, sectors, lab):
    grid = ac.RectGrid(x_min=-0.2, x_max=0.2, y_min=-0.1, y_max=0.1, z=0.6, increment=0.2)
    x = td.pattern(n, grid.size, 2) ** 2
    it = ac.IntegratorSectorTime(source=td.src(x, 'reuse', FS), grid=grid, sectors=list(sectors), clip=clip)
    got = td.cat(td.pull(it.result(num)), len(sectors))
    want = np.zeros((n, len(sectors)))
    px, py = grid.pos[0], grid.pos[1]
    for s in range(0, n, num):
        b = x[s : s + num].copy()
        b[b <= b.max() * 10 ** (clip / 10)] = 0
        for j, sec in enumerate(sectors):
            if len(sec) == 3:
                sel = (px - sec[0]) ** 2 + (py - sec[1]) ** 2 <= sec[2] ** 2
            else:
                sel = (px > sec[0] - 0.1) & (px < sec[2] + 0.1) & (py > sec[1] - 0.1) & (py < sec[3] + 0.1)
            want[s : s + num, j] = b[:, sel].sum(1)
    expect(it.num_channels == len(sectors), 'channels', str(it.num_channels))
    expect(td.close(got, want), 'value', lambda: f'{got.tolist()} instead of {want.tolist()}')
    ck.step('sector', n, num, clip, lab)
    ck.outcome('sector', n, clip, lab)


def sectors(ck, _):
    menu = {
        'one': [(-0.2, -0.1, 0.0, 0.1)],
        'two': [(-0.2, -0.1, -0.2, -0.1), (0.0, -0.1, 0.2, 0.1)],
        'circ': [(0.0, 0.1, 0.25)],
        'three': [(-0.2, -0.1, 0.2, 0.1), (0.2, 0.1, 0.05), (0.0, 0.1, 0.0, 0.1)],
        'none': [],
    }
    for lab, sec in menu.items():
        for n, num, clip in itertools.product((0, 1, 4, 7), (1, 2, 3, 9), (-350.0, -3.0, -10.0)):
            ck.case(f'sector/{lab}/n{n}b{num}c{clip}', sector_case, ck, n, num, clip, sec, lab)


def item(ck, it):
    kind, x = it
    {'das': one_config, 'clean': clean_item, 'sector': sectors}[kind](ck, x)


def run(ck):
    items = [('das', c) for c in configs(ck.quick)] + [('clean', c) for c in clean_configs(ck.quick)] + [('sector', None)]
    ck.parallel(item, items)
    ck.rule('fixed/traj: every class x weighting x steering vector type x reference x trajectory x input length x block size; '
            'clean: CLEAN-T variants block by block; sector: integration over sectors')
    ck.assume('The convective amplification factor is taken as the library defines it (1 - Mr)^2, Mr counted from microphone to source.')
    ck.assume('A fixed-grid beamformer may leave out the last sample for which all delayed samples exist.')
