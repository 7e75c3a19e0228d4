"""X03: signal generators yield the announced, reproducible, correctly scaled signals."""

import itertools
import warnings

import acoular as ac
import numpy as np
from scipy.signal import lfilter

from mc.core import expect

FS = 1024.0
FILT = {
    'none': ([], []),
    'ma2': ([], [0.5, 0.5]),
    'ma4': ([], [1.0, 0.25, 0.125, 0.5]),
    'ma5': ([], [0.5, 0.25, 1.0, 0.125, 0.5]),
    'ar2': ([1.0, -0.5], []),
    'ar3': ([2.0, 0.5, 0.25], []),
    'arma': ([1.0, -0.5], [0.5, 0.5]),
    'arma32': ([1.0, 0.5, 0.25], [1.0, 0.25]),
    'arma24': ([1.0, -0.25], [1.0, 0.25, 0.5, 0.125]),
}


def white(n, rms, seed):
    return rms * np.random.RandomState(seed).standard_normal(n)


def ref_sine(n, a, f, ph, fs):
    return np.array([a * np.sin(2 * np.pi * f * i / fs + ph) for i in range(n)])


def ref_filt(n, rms, seed, ar, ma):
    ar = ar or [1.0]
    ma = ma or [1.0]
    d = round(0.5 * (len(ma) - 1))
    return lfilter(ma, ar, white(n + d, rms, seed))[d:]


def common(ck, make, n, text):
    """What has to be true for any generator; returns the signal."""
    g = make()
    np.random.seed(5)
    before = np.random.get_state()[1].copy()
    s = g.signal()
    ck.step(text, n)
    expect(g.num_samples == n, 'announced', lambda: f'{text}: announces {g.num_samples}')
    expect(s.shape == (n,), 'length', lambda: f'{text}: {s.shape} instead of {n} samples')
    keep = s.copy()
    ck.outcome(keep.tobytes())
    s += 1.0
    expect(np.array_equal(g.signal(), keep), 'again', lambda: f'{text}: another signal the second time')
    np.random.seed(9)
    expect(np.array_equal(make().signal(), keep), 'reproduce', lambda: f'{text}: another signal from an equal generator')
    np.random.seed(5)
    expect(np.array_equal(np.random.get_state()[1], before), 'state')
    np.random.standard_normal(3)
    st = np.random.get_state()[2]
    make().signal()
    expect(np.random.get_state()[2] == st, 'global-state', lambda: f'{text}: draws from the global generator')
    for k in (1, 2, 3, 4, 8):
        u = make().usignal(k)
        ck.step(text, n, k)
        expect(u.shape == (k * n,), 'ulength', lambda: f'{text}: usignal({k}) has {u.shape} instead of {k * n} samples')
        expect(np.allclose(u[::k], keep, atol=1e-9 * (1 + np.abs(keep).max())), 'usamples', lambda: f'{text}: usignal({k}) changes the samples: {u[::k]} instead of {keep}')
        if k > 1:
            # nothing above the former Nyquist frequency
            f = np.fft.rfft(u)
            top = f[n // 2 + 1 :]
            expect(not len(top) or np.abs(top).max() <= 1e-9 * (1 + np.abs(f).max()), 'band', lambda: f'{text}: usignal({k}) has energy above the former band')
    return keep


def sine(ck, n):
    for a, f, ph, fs in itertools.product((1.0, -2.5, 0.0), (1.0, 100.0, 37.5, 700.0), (0.0, 1.0, np.pi / 2), (FS, 44100.0)):
        s = common(ck, lambda: ac.SineGenerator(sample_freq=fs, num_samples=n, amplitude=a, freq=f, phase=ph), n, f'sine {n, a, f, ph, fs}')
        expect(np.allclose(s, ref_sine(n, a, f, ph, fs), atol=1e-10), 'sine', lambda: f'{n, a, f, ph, fs}: {s}')


NOISES = {
    'white': lambda **k: ac.WNoiseGenerator(sample_freq=FS, **k),
    'pink': lambda **k: ac.PNoiseGenerator(sample_freq=FS, **k),
    'pink0': lambda **k: ac.PNoiseGenerator(sample_freq=FS, depth=0, **k),
    'pink3': lambda **k: ac.PNoiseGenerator(sample_freq=FS, depth=3, **k),
    **{
        f'filt-{f}': (lambda ar, ma: lambda **k: ac.FiltWNoiseGenerator(sample_freq=FS, ar=ar, ma=ma, **k))(*v)
        for f, v in FILT.items()
    },
}
SEEDS = (0, 1, 2, 7, 12345)


def noise(ck, kind, n):
    mk = NOISES[kind]
    sigs = {}
    for seed in SEEDS:
        text = f'{kind} {n} seed {seed}'
        base = common(ck, lambda: mk(num_samples=n, seed=seed), n, text)
        sigs[seed] = base
        for rms in (0.0, 0.5, 2.0, 3.0, -1.0, 1e-3):
            s = mk(num_samples=n, seed=seed, rms=rms).signal()
            ck.step(kind, n, seed, rms)
            expect(np.allclose(s, rms * base, rtol=1e-12, atol=1e-12 * abs(rms)), 'level', lambda: f'{text}: rms {rms} gives {s} and rms 1 {base}')
        if kind == 'white':
            expect(np.array_equal(base, white(n, 1.0, seed)), 'white', lambda: text)
        elif kind.startswith('filt'):
            want = ref_filt(n, 1.0, seed, *FILT[kind[5:]])
            expect(np.allclose(base, want, atol=1e-10), 'filtered', lambda: f'{text}: {base} instead of {want}')
    for a, b in itertools.combinations(SEEDS, 2):
        expect(not np.array_equal(sigs[a], sigs[b]), 'seeds', lambda: f'{kind} {n}: the same noise for seeds {a} and {b}')


def level(ck, kind, n):
    for rms in (1.0, 0.25, 4.0):
        p = []
        for seed in range(20000 // n if n < 512 else 40):
            s = NOISES[kind](num_samples=n, seed=seed, rms=rms).signal()
            p.append(np.mean(s**2))
            ck.step(kind, n, rms, seed)
        got = np.sqrt(np.mean(p))
        tol = 0.05 if kind == 'white' else 0.2
        expect(abs(got / rms - 1) < tol, 'rms', lambda: f'{kind}: level {got} instead of {rms}')


def spectrum(ck, n):
    """Pink noise loses 3 dB per octave (fixed seeds, wide tolerance)."""
    p = sum(np.abs(np.fft.rfft(ac.PNoiseGenerator(sample_freq=FS, num_samples=n, seed=s).signal())) ** 2 for s in range(30))
    octs = [p[2**k : 2 ** (k + 1)].sum() for k in range(3, int(np.log2(n)) - 2)]
    ck.step(tuple(octs))
    expect(max(octs) / min(octs) < 2, 'pink', lambda: f'power per octave {octs}')


def generic(ck, length, nch):
    rng = np.random.RandomState(length)
    data = rng.standard_normal((length, nch))
    src = ac.TimeSamples(data=data, sample_freq=FS)
    lens = sorted({0, 1, length - 1, length, length + 1, 2 * length - 1, 2 * length, 2 * length + 1, 3 * length, 3 * length + 2, 1023, 1024, 1025, 2048, 2050} - {-1})
    for n, loop, amp in itertools.product(lens, (True, False), (1.0, -0.5)):
        if n > 20 * length + 40:
            continue
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            want_n = n or length

            def make():
                return ac.GenericSignalGenerator(source=src, num_samples=n, loop_signal=loop, amplitude=amp)

            text = f'generic {length, nch} to {n} loop {loop}'
            g = make()
            s = g.signal()
            ck.step(text, amp)
            one = [x for x in w if 'channel' in str(x.message)]
            expect(bool(one) == (nch > 1), 'warn', lambda: f'{text}: {[str(x.message) for x in w]}')
            expect(g.sample_freq == FS, 'rate')
            i = np.arange(want_n)
            want = data[i % length, 0] if loop else np.where(i < length, data[np.minimum(i, length - 1), 0], 0.0)
            expect(s.shape == want.shape and np.array_equal(s, amp * want), 'generic', lambda: f'{text}: {s} instead of {amp * want}')
            if amp == 1.0 and want_n < 100:
                common(ck, make, want_n, text)


SETTINGS = {
    'white': [('num_samples', 7), ('num_samples', 12), ('rms', 2.0), ('seed', 3), ('sample_freq', 500.0)],
    'pink': [('num_samples', 40), ('num_samples', 12), ('rms', 2.0), ('seed', 3), ('depth', 2)],
    'filt': [('num_samples', 7), ('rms', 2.0), ('seed', 3), ('ar', [1.0, 0.5]), ('ma', [1.0, 0.25, 0.5])],
    'sine': [('num_samples', 7), ('amplitude', 2.0), ('freq', 30.0), ('phase', 0.5), ('sample_freq', 500.0)],
    'generic': [('num_samples', 7), ('num_samples', 30), ('num_samples', 0), ('amplitude', 2.0), ('loop_signal', False), ('source', None)],
}


def fresh(kind, state):
    if kind == 'generic':
        state = dict(state)
        data = np.random.RandomState(2 if state.pop('source', 1) is None else 1).standard_normal(11 if 'x' not in state else 5)
        return ac.GenericSignalGenerator(source=ac.TimeSamples(data=data[:, None], sample_freq=FS), **state)
    c = {'white': ac.WNoiseGenerator, 'pink': ac.PNoiseGenerator, 'filt': ac.FiltWNoiseGenerator, 'sine': ac.SineGenerator}[kind]
    return c(**{'sample_freq': FS, 'num_samples': 9, **state})


def change(ck, kind, seq):
    g = fresh(kind, {})
    state = {}
    g.signal()
    for name, value in seq:
        if name == 'source':
            g.source = fresh('generic', {'source': None}).source
        else:
            setattr(g, name, value)
        state[name] = value
        s = g.signal()
        ck.step(kind, tuple(map(repr, sorted(state.items(), key=lambda kv: kv[0]))))
        f = fresh(kind, state)
        want = f.signal()
        expect(np.array_equal(s, want), 'changed', lambda: f'{kind} after {seq}: {s} instead of {want}')
        expect(g.num_samples == f.num_samples == len(s), 'changed-length', lambda: f'{kind} after {seq}')
        expect(np.array_equal(g.usignal(3), f.usignal(3)), 'changed-u', lambda: f'{kind} after {seq}')
    ck.outcome(kind, g.signal().tobytes())


def uncorrelated(ck, nm, seed):
    mics = ac.MicGeom(pos_total=np.array([np.arange(nm) * 0.1, np.zeros(nm), np.zeros(nm)]))
    menu = [None, list(range(5, 5 + nm)), [3] * nm, list(range(nm - 1, -1, -1)), [9] * (nm + 1), [2**31 + 5] * nm]
    if nm > 1:
        menu.append([9] * (nm - 1))
    kinds = {
        'white': lambda **k: ac.WNoiseGenerator(sample_freq=FS, **k),
        'pink': lambda **k: ac.PNoiseGenerator(sample_freq=FS, depth=2, **k),
        'filt': lambda **k: ac.FiltWNoiseGenerator(sample_freq=FS, ma=[1.0, 0.5, 0.25], **k),
    }
    for (kind, mk), seeds, n, num, rms in itertools.product(kinds.items(), menu, (1, 5, 8), (1, 3, 4, 8, 9), (1.0, 2.0)):
        gen = mk(num_samples=n, seed=seed, rms=rms)
        src = ac.UncorrelatedNoiseSource(signal=gen, mics=mics)
        if seeds is not None:
            src.seed = seeds
        text = f'{kind} {nm} channels seeds {seeds} signal seed {seed}'
        ck.step(text, n, num)
        if seeds is not None and len(seeds) != nm:
            try:
                list(src.result(num))
            except ValueError:
                continue
            expect(False, 'seed-number', lambda: f'{text}: accepted')
        want = np.array([mk(num_samples=n, seed=s, rms=rms).signal() for s in (seeds or [seed + i for i in range(nm)])]).T
        for _ in range(2):
            blocks = [b.copy() for b in src.result(num)]
            expect([len(b) for b in blocks] == [num] * (n // num) + [n % num] * (n % num > 0), 'blocks', lambda: f'{text}: {[len(b) for b in blocks]}')
            got = np.concatenate(blocks)
            expect(got.shape == (src.num_samples, src.num_channels) and np.array_equal(got, want), 'uncorrelated', lambda: f'{text}: {got} instead of {want}')
        expect(gen.seed == seed, 'seed-kept', lambda: f'{text}: the seed of the signal became {gen.seed}')


def item(ck, it):
    kind, *a = it
    ck.case('/'.join(str(x if kind != 'change' else x) for x in it) if kind != 'change' else f'change/{a[0]}/{"-".join(f"{k}={v}" for k, v in a[1])}',
            {'sine': sine, 'noise': noise, 'level': level, 'spectrum': spectrum, 'generic': generic, 'change': change, 'uncorrelated': uncorrelated}[kind], ck, *a)


def run(ck):
    q = ck.quick
    ns = (1, 2, 3, 4, 7, 8, 17) if q else (*range(1, 34), 63, 64, 65, 127, 128)
    items = [('noise', k, n) for k in NOISES for n in ns]
    items += [('sine', n) for n in ns]
    items += [('level', k, n) for k in ('white', 'pink', 'pink3') for n in (16, 64, 512, 4096)] + [('spectrum', 4096)]
    items += [('generic', n, c) for n in ((1, 2, 5, 1023, 1024, 1025, 2048, 2049) if q else (*range(1, 12), 1023, 1024, 1025, 2047, 2048, 2049, 3072)) for c in (1, 2)]
    items += [('uncorrelated', n, s) for n in ((1, 2, 3) if q else (1, 2, 3, 4, 7)) for s in (0, 4)]
    for k, m in SETTINGS.items():
        items += [('change', k, s) for d in range(1, 4 if q else 5) for s in itertools.product(m, repeat=d)]
    ck.parallel(item, items)
    ck.rule('every generator class x all lengths, levels, seeds, filters, amplitudes, phases and resampling factors of a menu; recorded signals '
            'looped or padded to all lengths around multiples of their own; all sequences of up to 3 (thorough 4) changes of settings; '
            'several channels of noise with every choice of seeds and block size')
    ck.assume('Noise levels and the slope of pink noise are judged over fixed seeds with wide tolerances; everything else exactly.')
