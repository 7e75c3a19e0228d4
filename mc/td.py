"""Time-domain catalogue: driving sources, every streaming class, boring references."""

import itertools
import math
import warnings

import acoular as ac
import numpy as np
from acoular.base import SamplesGenerator
from scipy import signal as sps
from traits.api import Any, Int, Property, Str, cached_property

from mc.core import expect, fail

warnings.simplefilter('ignore')

FS = 1000.0
_COUNT = itertools.count()


def pattern(n, c, salt=0):
    """n x c samples, all different in value, magnitude and sign, none special."""
    i = np.arange(n * c, dtype=float).reshape(n, c) + 1 + 37 * salt
    return np.round(np.sin(i * 1.2345 + salt) * 3 + np.cos(i * 0.777) + 0.01 * i, 6)


class Src(SamplesGenerator):
    """Driving source. mode: how it hands over memory.

    fresh   a new array per block
    view    a view into the stored data (as TimeSamples does)
    reuse   one buffer, overwritten for every block and scribbled over at the end
    """

    data = Any
    mode = Str('fresh')
    tag = Int(0)
    pulls = Int(0)
    digest = Property(depends_on=['tag', 'sample_freq', 'num_samples', 'num_channels'])

    @cached_property
    def _get_digest(self):
        return f'_src{self.tag}_{self.num_samples}x{self.num_channels}@{self.sample_freq}'

    def result(self, num):
        n = self.data.shape[0]
        if self.mode == 'view':
            for i in range(0, n, num):
                self.pulls += 1
                yield self.data[i : i + num]
        elif self.mode == 'fresh':
            for i in range(0, n, num):
                self.pulls += 1
                yield self.data[i : i + num].copy()
        else:
            buf = np.empty((num, self.data.shape[1]))
            for i in range(0, n, num):
                b = self.data[i : i + num]
                buf[:] = -777.25
                buf[: len(b)] = b
                self.pulls += 1
                yield buf[: len(b)]
            buf[:] = -999.5


def src(x, mode='fresh', fs=FS, tag=0):
    return Src(data=x, mode=mode, sample_freq=fs, num_samples=x.shape[0], num_channels=x.shape[1], tag=tag)


def pull(gen):
    """Consume a generator the way the library does: copy each block before asking for the next."""
    out = []
    for b in gen:
        out.append(np.array(b))
        if len(out) > 100000:
            fail('endless', 'the generator does not end')
    return out


def cat(blocks, nc):
    return np.concatenate(blocks, axis=0) if blocks else np.zeros((0, nc))


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = max(1e-30, float(np.max(np.abs(b))) if np.all(np.isfinite(b)) else 1.0)
    return bool(np.allclose(a, b, rtol=tol, atol=tol * scale, equal_nan=True))


def check_blocks(blocks, num, total, nc, what=''):
    """Block structure: full blocks, one possibly short last block, exact total."""
    sizes = [b.shape[0] for b in blocks]
    for b in blocks:
        expect(b.ndim == 2 and b.shape[1] == nc, 'channels', f'{what} block shape {b.shape}, announced {nc} channels')
    expect(all(s > 0 for s in sizes), 'empty-block', f'{what} block sizes {sizes}')
    expect(all(s == num for s in sizes[:-1]), 'short-block', f'{what} block sizes {sizes} for num={num}')
    expect(not sizes or sizes[-1] <= num, 'long-block', f'{what} block sizes {sizes} for num={num}')
    expect(sum(sizes) == total, 'length', f'{what} {sum(sizes)} samples in blocks {sizes}, expected {total}')


# -------------------------------------------------------------------------------------------
# references


def ref_sos(sos, x):
    """Direct form II transposed second-order sections, sample by sample."""
    y = np.array(x, dtype=float)
    for b0, b1, b2, _, a1, a2 in sos:
        z1 = np.zeros(x.shape[1])
        z2 = np.zeros(x.shape[1])
        for n in range(len(y)):
            xn = y[n].copy()
            yn = b0 * xn + z1
            z1 = b1 * xn - a1 * yn + z2
            z2 = b2 * xn - a2 * yn
            y[n] = yn
    return y


def ref_octave_sos(band, fraction, order, fs, filtfilt=False):
    """Bandpass design with the documented bandwidth correction."""
    beta = math.pi / (2 * order)
    alpha = 2.0 ** (1.0 / (2.0 * fraction))
    beta = 2 * beta / math.sin(beta) / (alpha - 1 / alpha)
    alpha = (1 + math.sqrt(1 + beta * beta)) / beta
    if filtfilt:
        alpha *= {6: 1.01, 5: 1.012, 4: 1.016, 3: 1.022, 2: 1.036, 1: 1.083}.get(order, 1.0) ** (3 / fraction)
    fr = 2 * band / fs
    return sps.butter(order, [fr / alpha, fr * alpha], 'bandpass', output='sos')


def ref_convolve(x, k):
    k = k.reshape(-1, 1) if k.ndim == 1 else k
    out = np.zeros((len(x) + len(k) - 1, x.shape[1]))
    for c in range(x.shape[1]):
        kc = k[:, c if k.shape[1] > 1 else 0]
        for i in range(len(x)):
            out[i : i + len(kc), c] += x[i, c] * kc
    return out


def ref_cumavg(x):
    return np.cumsum(x, axis=0) / np.arange(1, len(x) + 1)[:, None]


def ref_average(x, n):
    m = len(x) // n
    return x[: m * n].reshape(m, n, x.shape[1]).mean(1)


class Node:
    """One catalogue entry.

    make(srcs) -> object under test, built on the driving sources
    ref(xs)    -> expected signal (None: only consistency is checked)
    total(xs)  -> expected number of samples (default: len(ref))
    """

    def __init__(self, name, make, ref, nsrc=1, chans=(1, 2, 3), minlen=1, tol=1e-9, announce=True, lens=None,
                 consistent=True):
        self.name = name
        self.make = make
        self.ref = ref
        self.nsrc = nsrc
        self.chans = chans
        self.minlen = minlen
        self.tol = tol
        self.announce = announce
        self.lens = lens
        self.consistent = consistent


def w_for(nc):
    return np.array([0.5, -2.0, 3.25, 0.125])[:nc]


def calib_for(nc, invalid=()):
    c = ac.Calib()
    c.data = np.array([2.0, -0.5, 3.0, 0.25])[:nc]
    c.num_mics = nc
    return c


def ring_mics(n):
    m = ac.MicGeom()
    a = np.arange(n) * 2 * np.pi / n
    m.pos_total = np.array([np.cos(a), np.sin(a), np.zeros(n)])
    return m


def _masked(start, stop, inv):
    def make(s):
        return ac.MaskedTimeOut(source=s[0], start=start, stop=stop, invalid_channels=list(inv))

    def ref(xs):
        x = xs[0]
        keep = [i for i in range(x.shape[1]) if i not in inv]
        return x[slice(start, stop)][:, keep]

    return make, ref


def catalogue():
    N = []

    def add(*a, **k):
        N.append(Node(*a, **k))

    add('MaskedTimeOut', *_masked(0, None, ()))
    add('MaskedTimeOut-inv', *_masked(0, None, (1,)), chans=(2, 3))
    add('MaskedTimeOut-start', *_masked(2, None, ()), minlen=3)
    add('MaskedTimeOut-stop', *_masked(0, -1, (0,)), minlen=2, chans=(2, 3))
    add('MaskedTimeOut-mid', *_masked(1, -1, ()), minlen=3)
    add(
        'ChannelMixer',
        lambda s: ac.ChannelMixer(source=s[0]),
        lambda xs: xs[0].sum(1, keepdims=True),
    )
    add(
        'ChannelMixer-w',
        lambda s: ac.ChannelMixer(source=s[0], weights=w_for(s[0].num_channels)),
        lambda xs: (xs[0] * w_for(xs[0].shape[1])).sum(1, keepdims=True),
    )
    add('Trigger-pass', lambda s: ac.Trigger(source=s[0]), lambda xs: xs[0], chans=(1,))
    add('Mixer-1', lambda s: ac.Mixer(source=s[0], sources=[s[1]]), lambda xs: xs[0] + xs[1], nsrc=2)
    add(
        'Mixer-2',
        lambda s: ac.Mixer(source=s[0], sources=[s[1], s[2]]),
        lambda xs: xs[0] + xs[1] + xs[2],
        nsrc=3,
        chans=(1, 2),
    )
    for lens in ((0, 1), (1, 0), (0, 3)):
        add(
            f'Mixer-len{lens[0]}{lens[1]}',
            lambda s: ac.Mixer(source=s[0], sources=[s[1]]),
            lambda xs: xs[0][: min(map(len, xs))] + xs[1][: min(map(len, xs))],
            nsrc=2,
            chans=(2,),
            lens=lens,
        )
    add('TimePower', lambda s: ac.TimePower(source=s[0]), lambda xs: xs[0] ** 2)
    add('TimeCumAverage', lambda s: ac.TimeCumAverage(source=s[0]), lambda xs: ref_cumavg(xs[0]))
    add('TimeReverse', lambda s: ac.TimeReverse(source=s[0]), lambda xs: xs[0][::-1])
    add('Filter', lambda s: ac.Filter(source=s[0]), lambda xs: xs[0])
    for frac, fn in (('Octave', 1), ('Third octave', 3)):
        for order in (1, 3):
            add(
                f'FiltOctave-{fn}-{order}',
                lambda s, frac=frac, order=order: ac.FiltOctave(source=s[0], band=125.0, fraction=frac, order=order),
                lambda xs, fn=fn, order=order: ref_sos(ref_octave_sos(125.0, fn, order, FS), xs[0]),
                chans=(1, 2),
            )
    add(
        'FiltFiltOctave',
        lambda s: ac.FiltFiltOctave(source=s[0], band=125.0),
        lambda xs: sps.sosfiltfilt(ref_octave_sos(125.0, 1, 2, FS, True), xs[0], axis=0),
        chans=(1, 2),
        minlen=16,
    )
    for wt, tau in (('F', 0.125), ('S', 1.0), ('I', 0.035)):
        def ref(xs, tau=tau):
            al = 1 - math.exp(-1 / tau / FS)
            y = np.zeros_like(xs[0])
            prev = np.zeros(xs[0].shape[1])
            for n in range(len(y)):
                prev = al * xs[0][n] + (1 - al) * prev
                y[n] = prev
            return y

        add(f'TimeExpAverage-{wt}', lambda s, wt=wt: ac.TimeExpAverage(source=s[0], weight=wt), ref, chans=(1, 2))
    for wt in 'AC':
        add(
            f'FiltFreqWeight-{wt}',
            lambda s, wt=wt: ac.FiltFreqWeight(source=s[0], weight=wt),
            lambda xs, wt=wt: sps.sosfilt(ac.FiltFreqWeight(source=src(xs[0]), weight=wt).sos, xs[0], axis=0),
            chans=(1, 2),
        )
    add('FiltFreqWeight-Z', lambda s: ac.FiltFreqWeight(source=s[0], weight='Z'), lambda xs: xs[0], chans=(1, 2))

    def ref_bank(xs, bands, fn):
        return np.concatenate([ref_sos(ref_octave_sos(b, fn, 3, FS), xs[0]) for b in bands], axis=1)

    add(
        'OctaveFilterBank',
        lambda s: ac.OctaveFilterBank(source=s[0], lband=15, hband=22, fraction='Octave'),
        lambda xs: ref_bank(xs, [10 ** (i / 10) for i in range(15, 22, 3)], 1),
        chans=(1, 2),
    )
    add(
        'OctaveFilterBank-3',
        lambda s: ac.OctaveFilterBank(source=s[0], lband=20, hband=23, fraction='Third octave'),
        lambda xs: ref_bank(xs, [10 ** (i / 10) for i in range(20, 23)], 3),
        chans=(1, 2),
    )
    for n in (1, 2, 3):
        add(
            f'Average-{n}',
            lambda s, n=n: ac.Average(source=s[0], num_per_average=n),
            lambda xs, n=n: ref_average(xs[0], n),
            minlen=n,
            chans=(1, 2),
        )
    for L in (1, 2, 5):
        add(
            f'TimeConvolve-{L}',
            lambda s, L=L: ac.TimeConvolve(source=s[0], kernel=pattern(L, s[0].num_channels, 5)),
            lambda xs, L=L: ref_convolve(xs[0], pattern(L, xs[0].shape[1], 5)),
            chans=(1, 2),
        )
    add(
        'Calib',
        lambda s: ac.Calib(source=s[0], data=calib_for(s[0].num_channels).data, num_mics=s[0].num_channels),
        lambda xs: xs[0] * calib_for(xs[0].shape[1]).data,
    )
    add('Cache', lambda s: ac.Cache(source=s[0]), lambda xs: xs[0])
    add('AngleTracker-pass', lambda s: ac.AngleTracker(source=s[0]), lambda xs: xs[0], chans=(1,))
    add(
        'SpatialInterpolator-pass',
        lambda s: ac.SpatialInterpolator(source=s[0], mics=ring_mics(s[0].num_channels)),
        lambda xs: xs[0],
        chans=(3,),
    )
    add(
        'SpatialInterpolatorConstantRotation',
        lambda s: ac.SpatialInterpolatorConstantRotation(
            source=s[0], mics=ring_mics(s[0].num_channels), array_dimension='ring', rotational_speed=7.0
        ),
        ref_rotation,
        chans=(4,),
    )
    add(
        'WriteWAV-pass', lambda s: ac.WriteWAV(source=s[0], channels=[0], file='x.wav'), lambda xs: xs[0], chans=(1, 2)
    )
    add('WriteH5', lambda s: ac.WriteH5(source=s[0], file=f'x{next(_COUNT)}.h5'), lambda xs: xs[0], chans=(1, 2))
    add(
        'SamplesBuffer',
        lambda s: ac.process.SamplesBuffer(source=s[0], length=64, dtype=float),
        lambda xs: xs[0],
        announce=True,
        chans=(1, 2),
    )
    add('TimeAverage-deprecated', lambda s: ac.process.TimeAverage(source=s[0], num_per_average=2),
        lambda xs: ref_average(xs[0], 2), minlen=2, chans=(1,))
    add('MaskedTimeInOut-deprecated', lambda s: ac.MaskedTimeInOut(source=s[0]), lambda xs: xs[0], chans=(1,))
    return N


def ref_rotation(xs):
    x = xs[0]
    n = x.shape[1]
    m = ring_mics(n).pos
    phi = np.arctan2(m[1], m[0])
    order = np.argsort(phi)
    out = np.zeros_like(x)
    om = 2 * np.pi * 7.0
    for t in range(len(x)):
        q = ((phi + om * t / FS) + np.pi) % (2 * np.pi) - np.pi
        out[t] = np.interp(q, phi[order], x[t][order], period=2 * np.pi)
    return out


def inputs(node, n, c, mode='fresh', salt=0):
    lens = node.lens or (0,) * node.nsrc
    xs = [pattern(n + lens[i], c, i + salt) for i in range(node.nsrc)]
    return xs, [src(x.copy(), mode, tag=i + 10 * n + 100 * c) for i, x in enumerate(xs)]


def spectral():
    """Streaming spectra: blocks are snapshots. No closed-form reference here (see S09), consistency only."""
    N = []

    def add(name, make, **k):
        N.append(Node(name, make, None, chans=(1, 2), minlen=9, **k))

    def rfft(s, **k):
        return ac.RFFT(source=s[0], **{'block_size': 4, 'window': 'Hanning', **k})

    add('RFFT', lambda s: rfft(s))
    add('RFFT-ov', lambda s: rfft(s, overlap='50%', scaling='energy'))
    add('RFFT-amp', lambda s: rfft(s, overlap='75%', scaling='amplitude'))
    add('AutoPowerSpectra', lambda s: ac.AutoPowerSpectra(source=rfft(s, overlap='50%')))
    add('CrossPowerSpectra', lambda s: ac.CrossPowerSpectra(source=rfft(s, overlap='50%')))
    add('CrossPowerSpectra-upper', lambda s: ac.CrossPowerSpectra(source=rfft(s), calc_mode='upper'))
    add('Average-spectra', lambda s: ac.Average(source=ac.AutoPowerSpectra(source=rfft(s, overlap='50%')), num_per_average=2))
    add('Cache-spectra', lambda s: ac.Cache(source=rfft(s)))
    add('IRFFT', lambda s: ac.IRFFT(source=rfft(s, window='Rectangular')))
    add('IRFFT-32', lambda s: ac.IRFFT(source=rfft(s, window='Rectangular', precision='complex64'), precision='float32'))
    return N
