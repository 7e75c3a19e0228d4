"""Frequency-domain worlds: small microphone arrays, grids, spectra and every beamformer class."""

import acoular as ac
import numpy as np

from mc import td

MPOS = np.array([[-0.3, 0.3, 0.05, -0.1], [0.25, -0.2, 0.3, -0.31], [0.0, 0.02, 0.0, -0.01]])
GRID = dict(x_min=-0.2, x_max=0.2, y_min=-0.1, y_max=0.1, z=0.5, increment=0.2)  # 3 x 2 points
FS = 8000.0


def mics(n=3, pos=None, invalid=()):
    m = ac.MicGeom(pos_total=np.array(MPOS[:, :n] if pos is None else pos))
    if len(invalid):
        m.invalid_channels = list(invalid)
    return m


def grid(**kw):
    return ac.RectGrid(**{**GRID, **kw})


def steer(n=3, st='true level', g=None, m=None, **kw):
    return ac.SteeringVector(grid=g or grid(), mics=m or mics(n), steer_type=st, **kw)


def signals(n=48, c=3, salt=0):
    """Two sources and some sensor noise: a csm of full rank with distinct eigenvalues."""
    x = td.pattern(n, c, salt)
    t = np.arange(n)[:, None]
    d = np.arange(c)[None]
    return x * 0.2 + np.sin(0.9 * t + 0.7 * d + salt) + 0.5 * np.cos(1.7 * t - 0.4 * d * d)


def signals_csm(F=5, c=3, salt=0):
    """Hermitian positive definite matrices, one per frequency: two sources and noise."""
    k = np.arange(F)[:, None, None] + 1 + 3 * salt
    a = np.arange(c)[None, :, None]
    b = np.arange(c)[None, None, :]
    v1 = np.exp(1j * 0.8 * k * a) * (1 + 0.1 * a)
    w1 = np.exp(1j * 0.8 * k * b) * (1 + 0.1 * b)
    v2 = np.exp(-1j * 0.37 * k * a * a)
    w2 = np.exp(-1j * 0.37 * k * b * b)
    m = 2e-3 * v1 * w1.conj() / k + 0.7e-3 * v2 * w2.conj() * np.sqrt(k)
    return m + 1e-4 * np.eye(c)[None] * (1 + 0.3 * a)


FREQS = np.array([0.0, 250.0, 500.0, 900.0, 1000.0])


def imported(tag=0, F=5, n=3, freqs=None, **kw):
    f = FREQS[:F] if freqs is None else np.array(freqs)
    return ac.PowerSpectraImport(csm=signals_csm(F, n, tag), frequencies=f, **kw)


def spectra(x=None, tag=0, bs=128, n=3, **kw):
    x = signals(300, n, tag) if x is None else x
    kw.setdefault('window', 'Hanning')
    return ac.PowerSpectra(source=td.src(x, 'fresh', FS, tag), block_size=bs, **kw)


BEAMFORMERS = {
    'Base': lambda **k: ac.BeamformerBase(**k),
    'Functional': lambda **k: ac.BeamformerFunctional(gamma=3, **{**k, 'r_diag': False}),
    'Capon': lambda **k: ac.BeamformerCapon(**{**k, 'r_diag': False}),
    'Eig': lambda **k: ac.BeamformerEig(n=-1, **k),
    'Music': lambda **k: ac.BeamformerMusic(n=2, **{**k, 'r_diag': False}),
    'Damas': lambda **k: ac.BeamformerDamas(n_iter=5, **k),
    'DamasPlus': lambda **k: ac.BeamformerDamasPlus(n_iter=50, **k),
    'Orth': lambda **k: ac.BeamformerOrth(eva_list=np.array([-1, -2]), **k),
    'Cleansc': lambda **k: ac.BeamformerCleansc(n_iter=4, **k),
    'Clean': lambda **k: ac.BeamformerClean(n_iter=8, **k),
    'CMF': lambda **k: ac.BeamformerCMF(method='NNLS', **k),
    'SODIX': lambda **k: ac.BeamformerSODIX(n_iter=5, **k),
    'GIB': lambda **k: ac.BeamformerGIB(method='Suzuki', n=2, n_iter=5, **{a: b for a, b in k.items() if a != 'r_diag'}),
    'GridlessOrth': lambda **k: ac.BeamformerGridlessOrth(n=2, shgo={'n': 8, 'iters': 1}, **k),
}
FIXED_DIAG = ('Functional', 'Capon', 'Music', 'GIB')


def beamformer(name, ps=None, st=None, **kw):
    k = dict(freq_data=ps if ps is not None else imported(), steer=st if st is not None else steer())
    k.update(kw)
    return BEAMFORMERS[name](**k)
