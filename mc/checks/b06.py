"""B06: sources are found where they are, with their level: from the simulated signal to the map."""

import itertools
import warnings

import acoular as ac
import numpy as np

from mc.core import expect

FS = 8192.0
ANG = np.arange(7) * 2.399963
RAD = 0.12 * np.sqrt(np.arange(7) + 0.5)
SPIRAL = np.array([RAD * np.cos(ANG), RAD * np.sin(ANG), 0.01 * np.arange(7)])
CROSS = np.array([[-0.3, -0.11, 0.07, 0.29, 0.0, 0.02, -0.01, 0.03], [0.0, 0.01, -0.02, 0.0, -0.31, -0.13, 0.09, 0.28], [0.0] * 8]) + np.array([[0.05], [-0.03], [0.02]])
LEVEL = ('true level', 'inverse')


def scenes():
    """label: (grid, microphone positions, invalid ones, reference, environment)"""
    flat = ac.RectGrid(x_min=-0.3, x_max=0.3, y_min=-0.3, y_max=0.3, z=0.5, increment=0.3)
    cube = ac.RectGrid3D(x_min=-0.3, x_max=0.3, y_min=-0.2, y_max=0.2, z_min=0.4, z_max=0.8, increment=(0.3, 0.4, 0.4))
    free = ac.ImportGrid(pos=np.array([[0.1, -0.3, 0.25, 0.0, -0.4], [0.2, 0.1, -0.4, 0.0, -0.3], [0.6, 0.5, 0.7, 0.4, 0.8]]))
    line = ac.LineGrid(loc=(-0.5, 0.1, 0.6), direction=(1.0, 0.2, 0.0), length=1.0, num_points=5)
    return {
        'flat': (flat, SPIRAL, (), None, ac.Environment()),
        'cube': (cube, CROSS, (), None, ac.Environment(c=330.0)),
        'free': (free, SPIRAL, (2,), 1.0, ac.Environment()),
        'flow': (flat, SPIRAL, (), (0.1, 0.0, -0.2), ac.UniformFlowEnvironment(c=343.0, ma=0.3, fdv=(1.0, 0.0, 0.0))),
        'line': (line, CROSS, (0,), None, ac.UniformFlowEnvironment(c=320.0, ma=-0.2, fdv=(0.0, 1.0, 0.0))),
    }


def distance(env, a, b):
    """Length of the way of the sound, in one expression for uniform flow."""
    d = b[:, None, :] - a[:, :, None]
    r = np.sqrt((d**2).sum(0))
    if not isinstance(env, ac.UniformFlowEnvironment):
        return r
    e = np.array(env.fdv, float)
    m = env.ma * np.einsum('i,igm->gm', e / np.linalg.norm(e), d) / r
    return r / (m + np.sqrt(m * m - env.ma**2 + 1))


class Scene:
    def __init__(self, label):
        self.grid, pos, invalid, self.ref, self.env = scenes()[label]
        self.pos = np.delete(pos, invalid, axis=1)
        self.mics = ac.MicGeom(pos_total=pos, invalid_channels=list(invalid))
        self.rm = distance(self.env, self.grid.pos, self.pos)
        if self.ref is None:
            self.r0 = distance(self.env, self.grid.pos, np.zeros((3, 1)))[:, 0]
        elif np.ndim(self.ref):
            self.r0 = distance(self.env, self.grid.pos, np.array(self.ref)[:, None])[:, 0]
        else:
            self.r0 = np.full(self.grid.size, self.ref)

    def steer(self, st):
        k = {} if self.ref is None else {'ref': self.ref}
        return ac.SteeringVector(grid=self.grid, mics=self.mics, env=self.env, steer_type=st, **k)

    def transfer(self, f):
        return np.exp(-2j * np.pi * f / self.env.c * (self.rm - self.r0[:, None])) * self.r0[:, None] / self.rm


# -- exact cross spectra ------------------------------------------------------------------------

# name: (class, traits, diagonal removal, steering vectors, one source, tolerance, two sources, tolerance)
# exact: levels and nothing else; peak: exact level at the source; max: the maximum is at the source; alone: nothing else
METHODS = {
    'base': (ac.BeamformerBase, {}, (False,), LEVEL, 'peak', 1e-5, None, 0),
    'location': (ac.BeamformerBase, {}, (False,), ('true location',), 'max', 0, None, 0),
    'eig': (ac.BeamformerEig, {'n': -1}, (False,), LEVEL, 'peak', 1e-5, None, 0),
    'functional': (ac.BeamformerFunctional, {'gamma': 60}, (False,), ('true level',), 'exact', 1e-4, 'places', 0),
    'damas': (ac.BeamformerDamas, {'n_iter': 600}, (False,), LEVEL, 'exact', 1e-3, 'exact', 2e-3),
    'damas+nnls': (ac.BeamformerDamasPlus, {'method': 'NNLS'}, (False,), (*LEVEL, 'true location', 'classic'), 'exact', 1e-4, 'exact', 1e-3),
    'damas+lp': (ac.BeamformerDamasPlus, {'method': 'LP'}, (False,), LEVEL, 'exact', 1e-3, 'exact', 2e-3),
    'damas+lasso': (ac.BeamformerDamasPlus, {'method': 'LassoLars', 'alpha': 1e-9}, (False,), LEVEL, 'exact', 1e-3, 'exact', 2e-3),
    'clean': (ac.BeamformerClean, {'n_iter': 1000}, (False,), LEVEL, 'exact', 1e-4, 'exact', 5e-2),
    'cleansc': (ac.BeamformerCleansc, {}, (True,), ('inverse',), 'exact', 1e-3, None, 0),
    'cleansc-alone': (ac.BeamformerCleansc, {}, (True,), ('true level', 'true location', 'classic'), 'alone', 1e-3, None, 0),
    'orth': (ac.BeamformerOrth, {'n': 2}, (False, True), ('true location',), 'mean', 1e-4, None, 0),
    'cmf-nnls': (ac.BeamformerCMF, {'method': 'NNLS'}, (False, True), LEVEL, 'exact', 1e-4, 'exact', 1e-3),
    'cmf-lasso': (ac.BeamformerCMF, {'method': 'LassoLars', 'alpha': 1e-9}, (False, True), ('true level',), 'exact', 1e-3, 'exact', 2e-3),
    'cmf-bfgs': (ac.BeamformerCMF, {'method': 'fmin_l_bfgs_b', 'n_iter': 2000}, (False, True), ('true level',), 'exact', 1e-3, 'exact', 2e-3),
    'cmf-bic': (ac.BeamformerCMF, {'method': 'LassoLarsBIC'}, (False,), ('true level',), 'exact', 1e-3, 'exact', 2e-3),
    'gib': (ac.BeamformerGIB, {'n': 2, 'method': 'Suzuki', 'n_iter': 10, 'eps_perc': 1e-6}, (None,), ('true level',), 'exact', 1e-3, None, 0),
    'gib-regular': (ac.BeamformerGIB, {'n': 1, 'method': 'Suzuki', 'n_iter': 10}, (None,), ('true level',), 'exact', 0.15, None, 0),
    'gib-many': (ac.BeamformerGIB, {'n': 1, 'method': 'Suzuki', 'n_iter': 60}, (None,), ('true level',), 'exact', 0.15, None, 0),
    'gib-irls': (ac.BeamformerGIB, {'n': 1, 'method': 'InverseIRLS', 'n_iter': 30}, (None,), ('true level',), 'exact', 1e-3, None, 0),
    'gib-lasso': (ac.BeamformerGIB, {'n': 1, 'method': 'LassoLars', 'alpha': 1e-9, 'n_iter': 200}, (None,), ('true level',), 'exact', 1e-3, None, 0),
    'gib-lasso-cv': (ac.BeamformerGIB, {'n': 1, 'method': 'LassoLarsCV', 'n_iter': 200}, (None,), ('true level',), 'exact', 1e-2, None, 0),
    'sodix': (ac.BeamformerSODIX, {'n_iter': 400}, (None,), ('true level',), 'sodix', 2e-2, None, 0),
}


def measure(kind, got, want, base, tol, text):
    """`want` holds the levels of the sources at their points, 0 elsewhere."""
    top = want.max()
    src = want > 0
    say = lambda: f'{text}: {got.tolist()} instead of {want.tolist()}'[:500]  # noqa: E731
    expect(np.isfinite(got).all(), 'finite', say)
    if kind == 'max':
        expect(got.argmax() == want.argmax(), 'place', say)
    elif kind == 'places':
        expect(set(np.argsort(got)[-src.sum() :]) == set(np.flatnonzero(src)), 'place', say)
    elif kind == 'peak':
        expect(abs(got[src] - want[src]).max() <= tol * top, 'level', say)
    elif kind in ('exact', 'mean'):
        expect(np.abs(got - want)[src].max() <= tol * top, 'level', say)
        expect(got[~src].max() <= tol * top and got.min() >= -tol * top, 'ghost', say)
    elif kind == 'alone':
        expect(np.abs(got - base)[src].max() <= tol * top, 'level', say)
        expect(got[~src].max() <= tol * top and got.min() >= -tol * top, 'ghost', say)


def exact(ck, label, name, st, diag, pairs, freqs):
    s = Scene(label)
    cls, kw, _, _, one, tol1, two, tol2 = METHODS[name]
    kw = dict(kw) if diag is None else {**kw, 'r_diag': diag}
    steer = s.steer(st)
    g = s.grid.size
    todo = [({i: p}, one, tol1) for i in range(g) for p in (2e-3, 50.0)] if one else []
    if two and pairs:
        todo += [({i: 2e-3, j: 8e-4}, two, tol2) for i, j in itertools.permutations(range(g), 2)]
    for src, kind, tol in todo:
        a = [s.transfer(f) for f in freqs]
        csm = np.array([sum(p * np.outer(b[i], b[i].conj()) for i, p in src.items()) for b in a])
        ps = ac.PowerSpectraImport(csm=csm, frequencies=np.array(freqs))
        want = np.zeros(g)
        for i, p in src.items():
            want[i] = p
        for k, f in enumerate(freqs):
            if name == 'clean' and len(src) == 2:  # subtracts from the highest peak, which has to be one of the sources
                lobes = 0
                for i in src:
                    one = ac.PowerSpectraImport(csm=np.array([np.outer(a[k][i], a[k][i].conj())]), frequencies=np.array([f]))
                    lobes = max(lobes, np.delete(ac.BeamformerBase(freq_data=one, steer=steer, cached=False, r_diag=False).synthetic(f, 0).ravel(), i).max())
                if lobes > 0.4:
                    continue
                ck.outcome('resolved', label, st, f, tuple(src))
            bf = cls(freq_data=ps, steer=steer, cached=False, **kw)
            text = f'{name} {kw} {st} {label} {f} Hz sources {src}'
            got = np.asarray(bf.synthetic(f, 0)).ravel()
            ck.step('exact', label, name, st, diag, tuple(src.items()), f)
            base, w = None, want
            if kind == 'sodix':  # levels for every direction
                got = got.reshape(g, -1)
                (i,) = src
                expect(np.abs(got[i] / src[i] - 1).max() < tol, 'level', lambda: f'{text}: {got.tolist()}')  # noqa: B023
                expect(np.delete(got, i, 0).max() < tol * src[i], 'ghost', lambda: f'{text}: {got.tolist()}')  # noqa: B023
                continue
            if kind == 'alone':
                base = np.asarray(ac.BeamformerBase(freq_data=ps, steer=steer, cached=False, r_diag=diag).synthetic(f, 0)).ravel()
                if base.argmax() != want.argmax():  # the formulation misplaces the source itself
                    continue
            if kind == 'mean':  # mean level at the microphones
                w = want * (np.abs(a[k]) ** 2).mean(1)
            measure(kind, got, w, base, tol, text)
        ck.outcome(label, name, st, diag, tuple(src))


def gridless(ck, label, freqs):
    s = Scene(label)
    lo, hi = s.grid.pos.min(1) - 0.1, s.grid.pos.max(1) + 0.1
    bounds = [(lo[k], hi[k]) for k in range(3)]
    for i, f in itertools.product(range(s.grid.size), freqs):
        a = s.transfer(f)
        ps = ac.PowerSpectraImport(csm=np.array([2e-3 * np.outer(a[i], a[i].conj())]), frequencies=np.array([f]))
        bf = ac.BeamformerGridlessOrth(freq_data=ps, steer=s.steer('true location'), n=1, bounds=bounds, shgo={'n': 64, 'iters': 1}, cached=False, r_diag=False)
        got = bf.result[0]
        place = bf._gpos[:, 0].ravel() if bf._gpos.ndim == 2 else bf._gpos[:, 0, 0].ravel()
        ck.step('gridless', label, i, f)
        text = f'gridless {label} {f} Hz source at {s.grid.pos[:, i].tolist()}: {place.tolist()} with {np.ravel(got).tolist()}'
        expect(np.abs(place - s.grid.pos[:, i]).max() < 2e-2, 'place', text)
        expect(abs(np.ravel(got).max() / (2e-3 * (np.abs(a[i]) ** 2).mean()) - 1) < 1e-2, 'level', text)


# -- simulated signals --------------------------------------------------------------------------


def emitter(s, kind, i, f, rms, n, up):
    sig = ac.SineGenerator(sample_freq=FS, num_samples=n, freq=f, amplitude=rms * 2**0.5, phase=0.4)
    k = dict(signal=sig, mics=s.mics, env=s.env, up=up)
    loc = tuple(s.grid.pos[:, i])
    if kind == 'point':
        return ac.PointSource(loc=loc, **k)
    if kind == 'line':
        return ac.LineSource(loc=loc, num_sources=1, source_strength=[1.0], **k)
    if kind == 'still':
        return ac.MovingPointSource(trajectory=ac.Trajectory(points={t: loc for t in (-1.0, 0.0, 1.0, 2.0)}), **k)
    raise ValueError(kind)


def spectra(kind, src, bs):
    k = dict(source=src, block_size=bs, cached=False)
    if kind == 'plain':
        return ac.PowerSpectra(window='Rectangular', **k)
    if kind == 'overlap':
        return ac.PowerSpectra(window='Rectangular', overlap='50%', **k)
    if kind == 'single':
        return ac.PowerSpectra(window='Rectangular', precision='complex64', **k)
    # the blocks of the stream, then the matrix
    x = np.concatenate([b.copy() for b in ac.CrossPowerSpectra(source=ac.RFFT(source=src, block_size=bs, scaling='none')).result(1)])
    m = src.num_channels
    csm = x.mean(0).reshape(-1, m, m)
    return ac.PowerSpectraImport(csm=csm, frequencies=np.arange(bs // 2 + 1) * FS / bs)


def chain(ck, label, kind, spec, quick):
    s = Scene(label)
    tol = 2e-3
    for i, bs, f, rms in itertools.product(range(s.grid.size), (128,) if quick else (128, 256), (1024.0, 2048.0), (0.7,)):
        src = emitter(s, kind, i, f, rms, 256, 64)
        ps = spectra(spec, src, bs)
        for st in (*LEVEL, 'true location'):
            got = np.asarray(ac.BeamformerBase(freq_data=ps, steer=s.steer(st), r_diag=False, cached=False).synthetic(f, 0)).ravel()
            want = (rms / s.r0[i]) ** 2
            ck.step('chain', label, kind, spec, i, bs, f, st)
            text = f'{kind} at {i} of {label}, {spec} {bs}, {f} Hz, {st}: {got.tolist()} instead of {want} at {i}'
            expect(st not in LEVEL or abs(got[i] / want - 1) < tol, 'chain-level', text)
            expect(st in LEVEL or got[i] >= got.max() * (1 - tol), 'chain-place', text)
        got = np.asarray(ac.BeamformerCMF(freq_data=ps, steer=s.steer('true level'), r_diag=True, cached=False, method='NNLS').synthetic(f, 0)).ravel()
        expect(abs(got[i] / want - 1) < 0.1 and np.delete(got, i).max() < 0.1 * want, 'chain-cmf', lambda: f'{kind} at {i} of {label} {f}: {got.tolist()}')  # noqa: B023
        ck.outcome(label, kind, spec, i, bs, f)


def mixed(ck, label):
    """Two sources at different frequencies."""
    s = Scene(label)
    for i, j in itertools.permutations(range(s.grid.size), 2):
        mix = ac.SourceMixer(sources=[emitter(s, 'point', i, 1024.0, 0.7, 256, 64), emitter(s, 'point', j, 2048.0, 0.5, 256, 64)], weights=[1.0, 2.0])
        ps = ac.PowerSpectra(source=mix, block_size=128, window='Rectangular', cached=False)
        bf = ac.BeamformerBase(freq_data=ps, steer=s.steer('inverse'), r_diag=False, cached=False)
        for f, g, rms in ((1024.0, i, 0.7), (2048.0, j, 1.0)):
            got = bf.synthetic(f, 0).ravel()
            ck.step('mixed', label, i, j, f)
            want = (rms / s.r0[g]) ** 2
            text = f'{label} sources {i}, {j} at {f} Hz: {got.tolist()} instead of {want} at {g}'
            expect(abs(got[g] / want - 1) < 2e-3, 'mixed', text)
        third = bf.synthetic(1536.0, 0)
        expect(third.max() < 1e-3 * want, 'mixed-silence', lambda: f'{label} {i}, {j}: {third.tolist()}')  # noqa: B023


def timedomain(ck, label, st):
    """The output at the point of the source is the signal as heard at the reference."""
    s = Scene(label)
    f, n = 256.0, 512
    for i, num in itertools.product(range(s.grid.size), (64, 500)):
        src = emitter(s, 'point', i, f, 0.7, n, 64)
        t = np.arange(n) / FS
        y = np.concatenate([b.copy() for b in ac.BeamformerTime(source=src, steer=s.steer(st)).result(num)])
        want = 0.7 * 2**0.5 * np.sin(2 * np.pi * f * t[: len(y)] + 0.4) / s.r0[i]
        ck.step('time', label, st, i, num)
        k = slice(2, -2)
        err = np.sqrt(((y[k, i] - want[k]) ** 2).mean() / (want**2).mean())
        expect(err < 0.01, 'time-signal', lambda: f'{label} {st} source {i}: relative error {err}, {y[:8, i].tolist()} instead of {want[:8].tolist()}')  # noqa: B023
        sq = np.concatenate([b.copy() for b in ac.TimeAverage(source=ac.BeamformerTimeSq(source=src, steer=s.steer(st), r_diag=False), num_per_average=32).result(4)])
        w2 = 2 * 0.49 / 2 / s.r0[i] ** 2
        expect(abs(sq[:, i].mean() / w2 - 1) < 0.02, 'time-level', lambda: f'{label} {st} source {i}: {sq[:, i].tolist()} instead of {w2}')  # noqa: B023


def moving(ck, v, conv, start):
    """A source that travels with the grid is heard as if it stood still."""
    s = Scene('flat')
    f, n = 400.0, 1024
    ts = np.linspace(-0.3, 0.6, 13)
    path = {t: np.array((v[0] * (t - start), v[1] * (t - start), 0.0)) for t in ts}
    for i in range(s.grid.size):
        off = s.grid.pos[:, i]
        sig = ac.SineGenerator(sample_freq=FS, num_samples=n, freq=f, amplitude=1.0, phase=0.4)
        src = ac.MovingPointSource(signal=sig, mics=s.mics, trajectory=ac.Trajectory(points={t: tuple(p + off) for t, p in path.items()}), conv_amp=conv, up=64)
        bf = ac.BeamformerTimeTraj(source=src, steer=s.steer('true level'), trajectory=ac.Trajectory(points={t: tuple(p) for t, p in path.items()}), conv_amp=conv)
        y = np.concatenate([b.copy() for b in bf.result(256)])
        t = np.arange(len(y)) / FS
        r0 = np.linalg.norm(off[:, None] + np.array((v[0] * (t - start), v[1] * (t - start), 0 * t)), axis=0)
        want = np.sin(2 * np.pi * f * t + 0.4) / r0
        k = slice(40, -40)
        err = np.sqrt(((y[k, i] - want[k]) ** 2).mean() / (want[k] ** 2).mean())
        ck.step('moving', v, conv, start, i, len(y))
        expect(len(y) > n // 2, 'moving-length', f'{len(y)} samples')
        expect(err < 0.03, 'moving', lambda: f'velocity {v} conv_amp {conv} source {i}: relative error {err}')  # noqa: B023


def item(ck, it):
    warnings.simplefilter('ignore')
    ac.config.global_caching = 'none'
    kind, *a = it
    fn = {'exact': exact, 'gridless': gridless, 'chain': chain, 'mixed': mixed, 'time': timedomain, 'moving': moving}[kind]
    ck.case('/'.join(map(str, it)), fn, ck, *a)


def run(ck):
    q = ck.quick
    labels = list(scenes())
    items = []
    for label, (name, m) in itertools.product(labels, METHODS.items()):
        slow = name in ('sodix',)
        if name in ('damas+lp', 'clean') and label == 'free':  # need maxima at the sources
            continue
        if slow and q and label != 'flat':
            continue
        for st, d in itertools.product(m[3], m[2]):
            items.append(('exact', label, name, st, d, not q or label in ('free', 'flow'), (1900.0, 2600.0) if q else (1300.0, 1500.0, 1900.0, 2200.0, 2600.0)))
    items += [('chain', label, kind, spec, q) for label in labels for kind, spec in (('point', 'plain'), ('point', 'stream'), ('line', 'overlap'), ('still', 'plain'), ('point', 'single'))
              if not (kind == 'still' and label in ('flow', 'line'))]
    items += [('mixed', label) for label in labels]
    items += [('time', label, st) for label in labels for st in LEVEL]
    items += [('moving', v, c, start) for v in ((20.0, 0.0), (-80.0, 30.0)) + (() if q else ((120.0, 0.0), (0.0, 50.0))) for c in (False, True) for start in (0.06, 0.0)]
    items += [('gridless', 'flat', (1900.0,) if q else (1500.0, 1900.0))]
    items.sort(key=lambda i: i[0] == 'exact' and i[2] in ('sodix', 'cmf-bfgs', 'functional'), reverse=True)
    ck.parallel(item, items)
    ck.rule('every grid point of five scenes (plane, box, scattered points, line; masked microphones; reference point; uniform flow) as the place of a source, every ordered '
            'pair for methods that separate sources, every method that promises levels or places; simulated sources through spectra, streams, mixing, time-domain '
            'and moving-grid beamforming')
    ck.assume('Arrays, grids and frequencies are chosen such that the points can be told apart; levels of simulated sources hold up to the resolution of the upsampled signal.')
