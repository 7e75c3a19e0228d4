"""S09: streaming spectra equal the transform of the windowed signal segments."""

import acoular as ac
import numpy as np

from mc import td
from mc.core import expect

FS = 1000.0
OV = {'None': 1, '50%': 2, '75%': 4, '87.5%': 8}
WIN = {
    'Rectangular': np.ones,
    'Hanning': lambda n: 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / (n - 1)),
    'Hamming': lambda n: 0.54 - 0.46 * np.cos(2 * np.pi * np.arange(n) / (n - 1)),
    'Bartlett': lambda n: 1 - np.abs(2 * np.arange(n) / (n - 1) - 1),
    'Blackman': lambda n: 0.42 - 0.5 * np.cos(2 * np.pi * np.arange(n) / (n - 1)) + 0.08 * np.cos(4 * np.pi * np.arange(n) / (n - 1)),
}


def segments(x, bs, ov):
    step = bs // ov
    return [x[p : p + bs] for p in range(0, len(x) - bs + 1, step)]


def dft(x):
    n = len(x)
    k = np.arange(n // 2 + 1)[:, None]
    return np.exp(-2j * np.pi * k * np.arange(n)[None] / n) @ x


def ref_rfft(x, bs, ov, win, scaling):
    w = WIN[win](bs)
    out = []
    for s in segments(x, bs, ov):
        X = dft(s * w[:, None])
        if scaling == 'amplitude':
            X = X / w.sum()
        else:
            X = X / np.sqrt((w**2).mean())
        if scaling != 'none':
            X[1:-1] *= 2
        out.append(X)
    return np.array(out).reshape(len(out), bs // 2 + 1, x.shape[1])


def drive(ck, tag, obj, num, count, width):
    blocks = []
    pos = 0
    for b in obj.result(num):
        b = np.array(b)
        blocks.append(b)
        pos += len(b)
        ck.step(tag, num, pos)
        expect(pos < 500, 'endless', 'too many snapshots')
    td.check_blocks(blocks, num, count, width, tag)
    return td.cat(blocks, width)


def item(ck, it):
    bs, ovn, win, c = it
    ov = OV[ovn]
    M = 3 * bs + 1
    w = WIN[win](bs)
    if bs % ov or abs(w.sum()) < 1e-12 or (w**2).sum() < 1e-12:
        return
    for n in sorted({1, *range(max(1, bs - 1), M + 1)}):
        x = td.pattern(n, c)

        def mk(scaling, prec='complex128'):
            return ac.RFFT(source=td.src(x, 'reuse'), block_size=bs, overlap=ovn, window=win, scaling=scaling, precision=prec)

        K = len(segments(x, bs, ov))
        nf = bs // 2 + 1
        for scaling in ('none', 'energy', 'amplitude'):
            want = ref_rfft(x, bs, ov, win, scaling)
            for prec in ('complex128', 'complex64'):
                def one(scaling=scaling, prec=prec, want=want):
                    tol = 1e-9 if prec == 'complex128' else 1e-4
                    for num in range(1, K + 3):
                        o = mk(scaling, prec)
                        expect(o.num_samples == K, 'announced-samples', f'num_samples={o.num_samples}, expected {K}')
                        expect((o.num_freqs, o.num_channels) == (nf, c), 'announced-channels', f'{o.num_freqs} {o.num_channels}')
                        expect(np.allclose(o.freqs, np.arange(nf) * FS / bs), 'freqs', f'{o.freqs}')
                        got = drive(ck, f'RFFT{it}{n}{scaling}', o, num, K, nf * c).reshape(-1, nf, c)
                        expect(td.close(got, want, tol), 'value', lambda: f'num={num}: got {got.tolist()} want {want.tolist()}')
                    ck.outcome('RFFT', scaling, got.round(4).tobytes())

                ck.case(f'RFFT/bs{bs}/{ovn}/{win}/c{c}/n{n}/{scaling}/{prec}', one)

        # auto and cross powers
        base = ref_rfft(x, bs, ov, win, 'none')
        for scaling in ('power', 'psd'):
            for single in (True, False):
                s = (2 if single else 1) / bs**2
                if scaling == 'psd':
                    s *= bs / FS

                def auto(scaling=scaling, single=single, s=s):
                    for prec, tol in (('float64', 1e-9), ('float32', 1e-4)):
                        for num in range(1, K + 3):
                            o = ac.AutoPowerSpectra(source=mk('none'), scaling=scaling, single_sided=single, precision=prec)
                            expect(o.num_samples == K, 'announced-samples', f'{o.num_samples} {K}')
                            got = drive(ck, f'Auto{it}{n}', o, num, K, nf * c).reshape(-1, nf, c)
                            expect(not K or got.dtype == np.dtype(prec), 'dtype', str(got.dtype))
                            expect(td.close(got, np.abs(base) ** 2 * s, tol), 'value', lambda: f'{got.tolist()}')

                ck.case(f'AutoPowerSpectra/bs{bs}/{ovn}/{win}/c{c}/n{n}/{scaling}{single}', auto)

                full = np.einsum('kfi,kfj->kfij', base, base.conj()) * s
                for mode in ('full', 'upper', 'lower'):
                    ii = {'full': None, 'upper': np.triu_indices(c), 'lower': np.tril_indices(c)}[mode]
                    want = full if ii is None else full[:, :, ii[0], ii[1]]

                    def cross(scaling=scaling, single=single, mode=mode, want=want):
                        nc = c * c if mode == 'full' else c * (c + 1) // 2
                        for num in range(1, K + 3):
                            o = ac.CrossPowerSpectra(source=mk('none'), scaling=scaling, single_sided=single, calc_mode=mode)
                            expect(o.num_channels == nc, 'announced-channels', f'{o.num_channels} {nc}')
                            got = drive(ck, f'Cross{it}{n}{mode}', o, num, K, nf * nc)
                            expect(td.close(got, want.reshape(K, nf * nc), 1e-9), 'value', lambda: f'{got.tolist()} want {want.tolist()}')

                    ck.case(f'CrossPowerSpectra/bs{bs}/{ovn}/{win}/c{c}/n{n}/{scaling}{single}/{mode}', cross)

        # average of snapshots
        for m in range(1, K + 1):
            def avg(m=m):
                want = (np.abs(base) ** 2 * 2 / bs**2)[: K // m * m].reshape(K // m, m, -1).mean(1)
                for num in range(1, K + 2):
                    o = ac.Average(source=ac.AutoPowerSpectra(source=mk('none')), num_per_average=m)
                    expect(o.num_samples == K // m, 'announced-samples', f'{o.num_samples} {K // m}')
                    got = drive(ck, f'Avg{it}{n}{m}', o, num, K // m, nf * c)
                    expect(td.close(got, want), 'value', f'{got.tolist()}')

            ck.case(f'Average/bs{bs}/{ovn}/{win}/c{c}/n{n}/{m}', avg)

        # cache and inverse transform
        def cached():
            want = base.reshape(K, -1)
            for num in range(1, K + 2):
                o = ac.Cache(source=mk('none'))
                got = drive(ck, f'Cache{it}{n}', o, num, K, nf * c)
                expect(td.close(got, want), 'value', 'cached spectra differ')

        if K:
            ck.case(f'Cache/bs{bs}/{ovn}/{win}/c{c}/n{n}', cached)
        if ovn == 'None':
            xw = np.concatenate([s * w[:, None] for s in segments(x, bs, 1)] or [np.zeros((0, c))]) / np.sqrt((w**2).mean())
            for prec in ('float64', 'float32'):
                def inv(prec=prec):
                    for num in range(1, len(xw) + 2):
                        o = ac.IRFFT(source=mk('none'), precision=prec)
                        expect(o.num_samples == len(xw), 'announced-samples', f'{o.num_samples} {len(xw)}')
                        got = drive(ck, f'IRFFT{it}{n}', o, num, len(xw), c)
                        expect(got.dtype == np.dtype(prec), 'dtype', f'num={num} {got.dtype}')
                        expect(td.close(got, xw, 1e-9 if prec == 'float64' else 1e-5), 'value', lambda: f'num={num} got {got.tolist()} want {xw.tolist()}')

                if K:
                    ck.case(f'IRFFT/bs{bs}/{win}/c{c}/n{n}/{prec}', inv)


def settings(ck, it):
    """block size changed between and calculation mode switched on the same objects"""
    bs1, bs2, ov1, ov2 = it

    def one():
        x = td.pattern(3 * max(bs1, bs2) + 1, 3)
        o = ac.RFFT(source=td.src(x), block_size=bs1, overlap=ov1)
        cp = ac.CrossPowerSpectra(source=o)
        for bs, ov, mode in ((bs1, ov1, 'full'), (bs2, ov2, 'upper'), (bs1, ov2, 'lower'), (bs2, ov1, 'full')):
            o.block_size = bs
            o.overlap = ov
            cp.calc_mode = mode
            K = len(segments(x, bs, OV[ov]))
            nc = 9 if mode == 'full' else 6
            expect((o.num_samples, o.num_freqs, cp.num_samples, cp.num_freqs, cp.num_channels) == (K, bs // 2 + 1, K, bs // 2 + 1, nc), 'announced-samples',
                   f'{(o.num_samples, o.num_freqs, cp.num_samples, cp.num_freqs, cp.num_channels)}')
            want = ref_rfft(x, bs, OV[ov], 'Rectangular', 'none')
            got = drive(ck, f'set{it}', o, 2, K, (bs // 2 + 1) * 3)
            expect(td.close(got, want.reshape(K, -1)), 'value', 'spectra after change')
            full = np.einsum('kfi,kfj->kfij', want, want.conj()) * 2 / bs**2
            ii = {'full': None, 'upper': np.triu_indices(3), 'lower': np.tril_indices(3)}[mode]
            got = drive(ck, f'setc{it}', cp, 3, K, (bs // 2 + 1) * nc)
            expect(td.close(got, (full if ii is None else full[:, :, ii[0], ii[1]]).reshape(K, -1)), 'value', 'cross spectra after change')

    ck.case(f'reconfigured/{bs1}-{bs2}-{ov1}-{ov2}', one)


def dispatch(ck, it):
    (item if it[0] == 'item' else settings)(ck, it[1])


def run(ck):
    ck.rule(
        'every signal length 1..3 blocks + 1 x block size x overlap x window x scaling x precision x channels x snapshots per block 1..K+2 '
        'against direct DFT sums; upper/lower/full cross spectra, averages, cached spectra, inverse transform with every output block size; reconfiguration sequences'
    )
    ac.config.global_caching = 'none'
    bss = (2, 4, 8) if ck.quick else (2, 4, 6, 8, 16)
    items = [('item', (bs, ov, win, c)) for bs in bss for ov in OV for win in WIN for c in ((1, 2) if ck.quick else (1, 2, 3))]
    if ck.quick:
        items = [i for i in items if i[1][0] < 8 or i[1][2] in ('Rectangular', 'Hanning') and i[1][3] == 2]
    items.sort(key=lambda t: -t[1][0] * t[1][3])
    items += [('set', (a, b, o1, o2)) for a in (4, 8) for b in (4, 8, 16) for o1 in ('None', '50%') for o2 in ('None', '50%', '75%')]
    ck.parallel(dispatch, items)
