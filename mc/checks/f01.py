"""F01: the cross spectral matrix is the averaged cross periodogram of the data."""

import itertools

import acoular as ac
import numpy as np

from mc import fd, td
from mc.core import expect

OVERLAP = {'None': 1, '50%': 2, '75%': 4, '87.5%': 8}
WINDOW = {'Rectangular': np.ones, 'Hanning': np.hanning, 'Hamming': np.hamming, 'Bartlett': np.bartlett, 'Blackman': np.blackman}


def reference(x, bs, window, overlap):
    w = WINDOW[window](bs)
    inc = bs // OVERLAP[overlap]
    starts = range(0, x.shape[0] - bs + 1, inc)
    out = 0
    for s in starts:
        X = np.fft.rfft(x[s : s + bs] * w[:, None], axis=0)
        out = out + X[:, :, None].conj() * X[:, None, :]
    # X_i^* X_j, transposed to the convention X_i X_j^*
    out = out.transpose(0, 2, 1)
    return out * 2 / bs / (w @ w) / len(starts), len(starts)


def one_case(ck, x, bs, window, overlap, precision, how):
    if how == 'masked':
        src = ac.MaskedTimeSamples(data=np.vstack([x[:3] + 1, x, x[:5] + 2]), sample_freq=fd.FS, start=3, stop=3 + len(x))
    else:
        src = td.src(x, how, fd.FS)
    ps = ac.PowerSpectra(source=src, block_size=bs, window=window, overlap=overlap, precision=precision)
    csm = np.array(ps.csm)
    want, blocks = reference(x, bs, window, overlap)
    tol = 1e-10 if precision == 'complex128' else 2e-4
    s = np.abs(want).max()
    ck.step(x.shape, bs, window, overlap, precision, how)
    ck.outcome(blocks, csm.shape, float(np.round(s, 6)))
    expect(csm.dtype == precision and csm.shape == want.shape, 'type', lambda: f'{csm.dtype} {csm.shape}')

    def close(a, b, scale=s):
        return np.abs(a - b).max() <= tol * max(scale, 1e-30)

    expect(close(csm, csm.conj().transpose(0, 2, 1)), 'hermitian')
    expect(not np.abs(np.einsum('fii->fi', csm).imag).max() > tol * s, 'hermitian', 'diagonal is not real')
    eva, eve = np.array(ps.eva), np.array(ps.eve)
    expect(eva.min() >= -10 * tol * max(s, 1e-30), 'negative', lambda: f'eigenvalue {eva.min()}')
    expect((np.diff(eva, axis=1) >= -tol * s).all(), 'eigen', 'eigenvalues are not ascending')
    back = np.einsum('fij,fj,fkj->fik', eve, eva, eve.conj())
    expect(close(back, csm), 'eigen', lambda: f'eigen-decomposition is off by {np.abs(back - csm).max()} of {s}')
    eye = np.einsum('fji,fjk->fik', eve.conj(), eve)
    expect(close(eye, np.eye(eye.shape[-1])[None], 10), 'eigen', 'eigenvectors are not orthonormal')
    if not close(csm, want):
        frac = OVERLAP[overlap] * x.shape[0] / bs - OVERLAP[overlap] + 1
        expect(abs(frac - blocks) < 1e-9 or not close(csm * frac / blocks, want), 'scaled-by-fractional-block-count',
               lambda: f'{x.shape[0]} samples: {blocks} blocks of {bs} samples, {overlap}: the sum is divided by {frac}')
        expect(False, 'csm', lambda: f'{x.shape[0]} samples, {blocks} blocks: off by {np.abs(csm - want).max()} of {s}')
    frac = OVERLAP[overlap] * x.shape[0] / bs - OVERLAP[overlap] + 1
    if ps.num_blocks == frac != blocks:
        expect(False, 'scaled-by-fractional-block-count', lambda: f'{x.shape[0]} samples: num_blocks {frac}, there are {blocks}')
    expect(close(ps.num_blocks, blocks, 1), 'num-blocks', lambda: f'num_blocks {ps.num_blocks} instead of {blocks}')


def bands(ck, ps, f, num):
    fr = ps.fftfreq()
    eva = np.array(ps.eva)
    got = np.array(ps.synthetic_ev(f, num))
    if num == 0:
        want = eva[np.nonzero(fr >= f)[0][0]]
    else:
        m = (fr >= f * 2 ** (-0.5 / num)) & (fr < f * 2 ** (0.5 / num))
        want = eva[m].sum(0) if m.any() else eva[np.nonzero(fr >= f)[0][0]]
    ck.step('band', f, num)
    ck.outcome('band', f, num, got.tobytes())
    expect(np.allclose(got, want, rtol=1e-9, atol=0), 'band', lambda: f'eigenvalues of the band {f} {num}: {got}, not {want}')


def signal(n, c, kind):
    if kind == 'silent':
        return np.zeros((n, c))
    if kind == 'impulse':
        x = np.zeros((n, c))
        x[n // 2] = np.arange(c) + 1.0
        return x
    if kind == 'equal':
        return np.repeat(fd.signals(n, 1), c, axis=1)
    return fd.signals(n, c)


def one(ck, it):
    if it[0] == 'bands':
        ps = fd.spectra(fd.signals(512, 3), bs=128)
        for f, num in itertools.product(np.arange(1, 129) * 31.25 - 7, (0, 1, 2, 3, 6, 12)):
            if f * (2 ** (0.5 / num) if num else 1) < 4000:
                ck.case(f'bands/{f}/{num}', bands, ck, ps, float(f), num)
        return
    bs, window, overlap, precision = it
    hows = ('fresh', 'reuse', 'masked')
    ns = list(range(bs, bs + 40)) + list(range(bs + 40, 3 * bs + 2, bs // 16 if ck.quick else 1))
    if bs > 128:
        ns = list(range(bs, 3 * bs + 2, bs // 8)) + [bs + 1, 2 * bs - 1]
    for n in sorted(set(ns)):
        for c in (1, 2, 3):
            how = hows[(n + c) % 3]
            x = signal(n, c, 'full')
            ck.case(f'{bs}/{window}/{overlap}/{precision}/{n}/{c}/{how}', one_case, ck, x, bs, window, overlap, precision, how)
    for n in (bs, 2 * bs, 2 * bs + bs // 2):
        for kind in ('silent', 'impulse', 'equal'):
            ck.case(f'{bs}/{window}/{overlap}/{precision}/{n}/{kind}', one_case, ck, signal(n, 3, kind), bs, window, overlap, precision, 'fresh')


def run(ck):
    ac.config.global_caching = 'none'
    sizes = (128, 256) if ck.quick else (128, 256, 512, 1024)
    items = list(itertools.product(sizes, WINDOW, OVERLAP, ('complex128', 'complex64')))
    ck.parallel(one, [('bands',), *items])
    ck.rule('all signal lengths from one block to three blocks (quick: every sixteenth of a block beyond 40 samples) x window x '
            'overlap x precision x 1-3 channels, with sources that deliver new arrays, reused arrays, masked samples; silent, impulse and rank-one data')
    ck.assume('At least one complete block of samples is available.')
