"""X01: stationary sources reach each microphone with delay and decay; mixing adds."""

import itertools
from fractions import Fraction as Fr

import acoular as ac
import numpy as np

from mc.core import expect

FS = 1024
C = 320.0
# distances such that the delays are exact multiples of 1/8 of a sample, plus a quarter of an
# upsampled sample so that the nearest one is never in doubt
MICS = (2, 5, 17, 40)  # delay in sixteenths of a sample


def dist(k, up):
    """Distance and exact delay in upsampled samples for k/16 samples."""
    d = Fr(k * up, 16)
    d = Fr(max(1, round(d))) - Fr(1, 4) if up != 1 else Fr(max(1, round(Fr(k, 8)))) - Fr(1, 4)
    return float(d / up / FS * 320), d


def signal(n, kind='white'):
    if kind == 'sine':
        return ac.SineGenerator(sample_freq=FS, num_samples=n, freq=100.0, phase=0.3)
    return ac.WNoiseGenerator(sample_freq=FS, num_samples=n, seed=n)


def setup(up, which=(0, 1, 2, 3), invalid=()):
    """Microphones around a source at `loc`, and their delays in upsampled samples."""
    loc = (0.5, -0.25, 1.0)
    dirs = [(1.0, 0.0, 0.0), (0.0, -0.6, 0.8), (-0.8, 0.0, -0.6), (0.0, 0.0, -1.0)]
    pos, delays = [], []
    for j in which:
        r, d = dist(MICS[j], up)
        pos.append(np.array(loc) + r * np.array(dirs[j]))
        delays.append((d, r, np.array(dirs[j])))
    mics = ac.MicGeom(pos_total=np.array(pos).T, invalid_channels=list(invalid))
    delays = [d for i, d in enumerate(delays) if i not in invalid]
    return loc, mics, delays


def samples(u, n, up, delay, off, zeros):
    """The signal at n instants, exactly."""
    out = np.empty(n)
    for i in range(n):
        x = Fr(i * up) + off * up - delay
        k = (x + Fr(1, 2)).__floor__()
        out[i] = (u[k] if x >= 0 and k < len(u) else 0.0) if zeros else u[k % len(u)]
    return out


def collect(src, num):
    return [b.copy() for b in src.result(num)]


def blocks_ok(blocks, n, num, text):
    lens = [len(b) for b in blocks]
    expect(lens == [num] * (n // num) + [n % num] * (n % num > 0), 'blocks', lambda: f'{text}: blocks of {lens}')


def matches(got, want, text, sym='signal', tol=1e-9):
    expect(got.shape == want.shape, 'shape', lambda: f'{text}: {got.shape} instead of {want.shape}')
    expect(np.allclose(got, want, rtol=tol, atol=tol * np.abs(want).max() if want.size else 0), sym, lambda: f'{text}: {got.T.tolist()} instead of {want.T.tolist()}'[:600])


OFFS = (Fr(0), Fr(1, 2), Fr(-1, 4), Fr(3), Fr(-7, 2), Fr(25), Fr(-40))
NUMS = (1, 3, 4, 7, 8, 64)


def point(ck, n, up, which, invalid):
    loc, mics, delays = setup(up, which, invalid)
    for a, b, pad in itertools.product(OFFS, (Fr(0), Fr(2), Fr(-1, 2)), ('loop', 'zeros')):
        # half an upsampled sample more: some instants lie just before the signal, or nearest to the one after its end
        half = Fr(1, 2 * up) if b < 0 else 0
        a, b = (Fr(round(v)) if up % 4 else v for v in (a, b))
        b += half
        src = ac.PointSource(signal=signal(n), mics=mics, loc=loc, env=ac.Environment(c=C), up=up, prepadding=pad, start=float(a / FS), start_t=float(b / FS))
        u = signal(n).usignal(up)
        want = np.array([samples(u, n, up, d, a - b, pad == 'zeros') / r for d, r, _ in delays]).T
        text = f'{n} samples up {up} start {a} start_t {b} {pad}'
        expect(src.num_channels == len(delays) and src.num_samples == n and src.sample_freq == FS, 'announced', text)
        for num in NUMS:
            bl = collect(src, num)
            ck.step('point', n, up, which, invalid, a, b, pad, num)
            blocks_ok(bl, n, num, text)
            matches(np.concatenate(bl), want, text)
        ck.outcome(want.tobytes())


def line(ck, n, up, ns, strength, pad):
    _, mics, _ = setup(up)
    # monopoles and microphones on one line: delays stay exact
    step = Fr(3 * up if up > 1 else 2)
    d0 = [Fr(4 * up) - Fr(1, 4), Fr(9 * up) - Fr(1, 4)]
    pos = np.array([[-float(d / up / FS * 320), 0.0, 0.0] for d in d0]).T
    mics = ac.MicGeom(pos_total=pos)
    length = float(step / up / FS * 320) * ns
    for a, b in itertools.product(sorted({Fr(round(a)) for a in (*OFFS, 5)}), (Fr(0), Fr(2), Fr(1, 2 * up))):
        for sig in ('sine', 'white'):
            src = ac.LineSource(signal=signal(n, sig), mics=mics, loc=(0.0, 0.0, 0.0), env=ac.Environment(c=C), up=up, direction=(2.5, 0.0, 0.0), length=length,
                                num_sources=ns, source_strength=list(strength), prepadding=pad, start=float(a / FS), start_t=float(b / FS))
            u = signal(n, sig).usignal(up)
            want = 0
            for s in range(ns):
                want = want + strength[s] * np.array([samples(u, n, up, d + s * step, a - b, pad == 'zeros') / float((d + s * step) / up / FS * 320) for d in d0]).T
            text = f'line {n} samples up {up} sources {strength} start {a} start_t {b} {pad} {sig}'
            for num in NUMS:
                bl = collect(src, num)
                ck.step('line', n, up, strength, pad, a, b, num, sig)
                blocks_ok(bl, n, num, text)
                matches(np.concatenate(bl), want, text, 'line')
    if ns > 1 and pad == 'loop':
        # incoherent sources: every monopole has one noise signal, different ones differ
        base = {}
        for s in range(ns):
            src = ac.LineSource(signal=signal(n), mics=mics, loc=(0.0, 0.0, 0.0), env=ac.Environment(c=C), up=up, direction=(1.0, 0.0, 0.0), length=length,
                                num_sources=ns, source_strength=[1.0 * (j == s) for j in range(ns)], coherence='incoherent')
            got = np.concatenate(collect(src, 5))
            expect(np.array_equal(got, np.concatenate(collect(src, n))), 'incoherent-again')
            seen = {}
            for m, d in enumerate(d0):
                r = float((d + s * step) / up / FS * 320)
                for i in range(n):
                    k = ((Fr(i * up) - d - s * step + Fr(1, 2)).__floor__()) % (n * up)
                    v = seen.setdefault(k, got[i, m] * r)
                    expect(abs(v - got[i, m] * r) < 1e-9, 'incoherent', lambda: f'monopole {s}: two values for one instant of its signal')
            ck.step('incoherent', n, up, s)
            base[s] = tuple(seen.values())
        expect(len(set(base.values())) == ns, 'incoherent-same', lambda: 'two monopoles share a signal')


def dipole(ck, n, up):
    loc, mics, delays = setup(up)
    for direc, a, b in itertools.product(((0.0, 0.0, 1.0), (3.0, 0.0, 0.0), (0.0, -0.6, 0.8), (1.0, 1.0, 1.0)), OFFS, (Fr(0), Fr(2))):
        a = Fr(round(a))
        src = ac.PointSourceDipole(signal=signal(n), mics=mics, loc=loc, env=ac.Environment(c=C), up=up, direction=direc, start=float(a / FS), start_t=float(b / FS))
        u = signal(n).usignal(up)
        e = np.array(direc) / np.linalg.norm(direc)
        want = np.array([samples(u, n, up, d, a - b, False) / r * (e @ v) for d, r, v in delays]).T
        text = f'dipole {direc} {n} samples up {up} start {a} start_t {b}'
        for num in NUMS:
            bl = collect(src, num)
            ck.step('dipole', direc, n, up, a, b, num)
            blocks_ok(bl, n, num, text)
            matches(np.concatenate(bl), want, text, 'dipole', 1e-4)


def harmonic(ck, n, up):
    """A monopole of spherical harmonics is a point source up to one constant factor and a fraction of a sample."""
    loc, mics, delays = setup(up)
    for a, b in itertools.product(OFFS, (Fr(0), Fr(2))):
        a = Fr(round(a))
        src = ac.SphericalHarmonicSource(signal=signal(n), mics=mics, loc=loc, env=ac.Environment(c=C), up=up, lOrder=0, alpha=[1.0], start=float(a / FS), start_t=float(b / FS))
        u = signal(n).usignal(up)
        text = f'harmonic {n} samples up {up} start {a} start_t {b}'
        cands = [np.array([samples(u, n, up, d - sh, a - b, False) / r for d, r, _ in delays]).T for sh in range(0, 1 + -(-up // 8))]
        for num in NUMS:
            bl = collect(src, num)
            ck.step('harmonic', n, up, a, b, num)
            blocks_ok(bl, n, num, text)
            got = np.concatenate(bl)
            y = 1 / np.sqrt(4 * np.pi)
            expect(any(np.allclose(got, y * w, rtol=1e-6, atol=1e-9) for w in cands), 'harmonic', lambda: f'{text}: {got.T.tolist()}'[:500])


def flow(ck, n, up):
    """The distance of the environment is what counts."""
    loc, mics, _ = setup(up)
    for env, pad in itertools.product((ac.UniformFlowEnvironment(c=C, ma=0.3, fdv=(1.0, 0.0, 0.0)), ac.UniformFlowEnvironment(c=300.0, ma=-0.5, fdv=(0.0, 1.0, 0.0)), ac.Environment(c=250.0)), ('loop', 'zeros')):
        src = ac.PointSource(signal=signal(n), mics=mics, loc=loc, env=env, up=up, prepadding=pad)
        u = signal(n).usignal(up)
        r = env._r(np.array(loc)[:, None], mics.pos)[0]
        got = np.concatenate(collect(src, 3))
        ck.step('flow', n, up, env.c, pad)
        for m, i in itertools.product(range(len(r)), range(n)):
            x = i * up - r[m] / env.c * FS * up
            if abs(x - np.floor(x) - 0.5) < 1e-3 or -1 < x < 0 or n * up - 1 < x < n * up:
                continue
            k = int(np.floor(x + 0.5))
            v = (u[k] if 0 <= k < len(u) else 0.0) if pad == 'zeros' else u[k % len(u)]
            expect(abs(got[i, m] - v / r[m]) < 1e-9, 'flow', lambda: f'{env} microphone {m} sample {i}: {got[i, m]} instead of {v / r[m]}')


def convolve(ck, n):
    loc, mics, delays = setup(16)
    rng = np.random.RandomState(n)
    for L in (1, 2, 3, n, n + 2):
        for shape in ((L,), (L, 1), (L, 4)):
            k = rng.standard_normal(shape)
            src = ac.PointSourceConvolve(signal=signal(n), mics=mics, loc=loc, kernel=k)
            s = signal(n).signal()
            k4 = np.broadcast_to(k.reshape(L, -1), (L, 4))
            want = np.array([np.convolve(s, k4[:, m]) for m in range(4)]).T
            expect(src.num_samples == n + L - 1, 'announced', lambda: f'convolved {n} with {shape}: announces {src.num_samples}')
            for num in NUMS:
                bl = collect(src, num)
                ck.step('convolve', n, shape, num)
                blocks_ok(bl, n + L - 1, num, f'convolved {n} with {shape}')
                matches(np.concatenate(bl), want, f'convolved {n} with {shape} by {num}', 'convolved', 1e-8)


def noise(ck, n):
    """Every channel is the noise of its own seed, the generator is left as it is."""
    for cls, kw in ((ac.WNoiseGenerator, {}), (ac.PNoiseGenerator, {'depth': 3})):
        gen = lambda seed: cls(sample_freq=FS, num_samples=n, seed=seed, rms=1.5, **kw)  # noqa: E731, B023
        for which, invalid in (((0, 1, 2, 3), ()), ((0, 1, 2, 3), (1,)), ((2,), ())):
            _, mics, delays = setup(16, which, invalid)
            m = len(delays)
            for base, seeds in itertools.product((0, 3, 1000), (None, tuple(range(m)), tuple(range(7, 7 - m, -1)), (5,) * m)):
                g = gen(base)
                src = ac.UncorrelatedNoiseSource(signal=g, mics=mics, **({} if seeds is None else {'seed': list(seeds)}))
                use = [base + k for k in range(m)] if seeds is None else seeds
                want = np.array([gen(k).signal() for k in use]).T
                text = f'noise {cls.__name__} {n} samples, signal seed {base}, seeds {seeds}'
                expect((src.num_samples, src.num_channels, src.sample_freq) == (n, m, FS), 'announced', text)
                for num in NUMS:
                    bl = collect(src, num)
                    ck.step('noise', cls.__name__, n, m, base, seeds, num)
                    blocks_ok(bl, n, num, text)
                    matches(np.concatenate(bl), want, text, 'noise')
                expect(g.seed == base and np.array_equal(g.signal(), gen(base).signal()), 'generator-changed', text)
                g.seed = base + 50
                want = np.array([gen(k + 50 * (seeds is None)).signal() for k in use]).T
                matches(np.concatenate(collect(src, 3)), want, text + ', new seed', 'noise-later')
            for bad in (m + 1, m - 1):
                if not bad:
                    continue
                ck.step('noise', 'refused', n, m, bad)
                try:
                    list(ac.UncorrelatedNoiseSource(signal=gen(0), mics=mics, seed=list(range(bad))).result(4))
                except ValueError:
                    continue
                expect(False, 'accepted', lambda: f'{bad} seeds for {m} channels')  # noqa: B023


def spherical(l, m, azi, ele):
    """Spherical harmonic from the associated Legendre polynomials; negative orders as documented."""
    from math import factorial

    x = np.cos(ele)
    a = abs(m)
    # P_l^m by differentiating the Legendre polynomial, with the Condon-Shortley phase; sin can be negative here
    leg = np.polynomial.legendre.Legendre.basis(l).deriv(a) if a else np.polynomial.legendre.Legendre.basis(l)
    p = (-1) ** a * np.sqrt(np.maximum(0.0, 1 - x * x)) ** a * leg(x)
    y = np.sqrt((2 * l + 1) / (4 * np.pi) * factorial(l - a) / factorial(l + a)) * p * np.exp(1j * a * azi)
    if m < 0:  # Y_l^-m, conjugated and times i
        y = ((-1) ** a * y.conj()).conj() * 1j
    return y


def modes(ck, order, n):
    """The modes weight the signal of a monopole of the same place."""
    loc, mics, delays = setup(16)
    v = np.array([d for _, _, d in delays]).T
    y0 = 1 / np.sqrt(4 * np.pi)
    count = (order + 1) ** 2
    for direc in ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 3.0), (-1.0, 0.5, 0.25)):
        e = np.array(direc) / np.linalg.norm(direc)
        ele = np.arctan2(np.hypot(v[0], v[2]), v[1]) + np.arctan2(np.hypot(e[0], e[2]), e[1]) + np.pi / 2
        azi = np.arctan2(-v[2], v[0]) + np.arctan2(e[2], e[0])
        y = np.array([spherical(l, m, azi, ele) for l in range(order + 1) for m in range(-l, l + 1)]).T
        alphas = [np.eye(count)[k] for k in range(count)] + [np.arange(1.0, count + 1), np.arange(count) * 1j + 2]
        for alpha in alphas:
            mk = lambda **kw: ac.SphericalHarmonicSource(signal=signal(n), mics=mics, loc=loc, env=ac.Environment(c=C), start_t=2 / FS, **kw)  # noqa: E731
            mono = np.concatenate(collect(mk(lOrder=0, alpha=[1.0]), n)) / y0
            src = mk(lOrder=order, alpha=alpha, direction=direc)
            want = mono * (y @ alpha).real
            text = f'modes {order} direction {direc} coefficients {list(alpha)}'
            for num in (1, 4, n):
                bl = collect(src, num)
                ck.step('modes', order, n, direc, tuple(alpha), num)
                blocks_ok(bl, n, num, text)
                got = np.concatenate(bl)
                expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-8, atol=1e-10), 'modes', lambda: f'{text}: {got.T.tolist()} instead of {want.T.tolist()}'[:600])


# -- mixing -------------------------------------------------------------------------------------


def parts(n):
    _, mics, _ = setup(16)
    mk = lambda seed: ac.WNoiseGenerator(sample_freq=FS, num_samples=n, seed=seed)  # noqa: E731
    return {
        'a': lambda: ac.PointSource(signal=mk(1), mics=mics, loc=(0.0, 0.0, 2.0)),
        'b': lambda: ac.PointSource(signal=mk(2), mics=mics, loc=(1.0, 0.0, 2.0), prepadding='zeros'),
        'n': lambda: ac.UncorrelatedNoiseSource(signal=mk(3), mics=mics),
        't': lambda: ac.TimeSamples(data=np.random.RandomState(4).standard_normal((n, 4)), sample_freq=FS),
        'i': lambda: ac.TimeSamples(data=np.arange(4 * n).reshape(n, 4), sample_freq=FS),
    }


WEIGHTS = (None, (1.0, -0.5, 2.0), (0.0, 1.0, 3.0), (2, 1, 1))


def want_mix(srcs, weights):
    w = [1.0] * len(srcs) if weights is None else weights
    return sum(k * np.concatenate(collect(s, 1000)).astype(float) for k, s in zip(w, srcs))


def mix(ck, names, n):
    mk = parts(n)
    srcs = [mk[k]() for k in names]
    for w in WEIGHTS:
        w = w if w is None else w[: len(names)]
        m = ac.SourceMixer(sources=list(srcs))
        if w is not None:
            m.weights = list(w)
        want = want_mix(srcs, w)
        text = f'mixing {names} weights {w}'
        expect((m.num_samples, m.num_channels, m.sample_freq) == (n, 4, FS), 'announced', text)
        for num in NUMS:
            bl = collect(m, num)
            ck.step('mix', names, n, w, num)
            blocks_ok(bl, n, num, text)
            matches(np.concatenate(bl), want, text, 'mixed')
        for s, k in zip(srcs, names):
            expect(np.array_equal(np.concatenate(collect(s, 3)), np.concatenate(collect(mk[k](), 3))), 'source-changed', lambda: f'{text}: source {k} changed')


def refused(ck):
    _, mics, _ = setup(16)
    _, mics3, _ = setup(16, (0, 1, 2))
    g = lambda n=8, fs=FS, m=mics: ac.PointSource(signal=ac.WNoiseGenerator(sample_freq=fs, num_samples=n), mics=m)  # noqa: E731
    bad = {
        'none': [],
        'samples': [g(), g(9)],
        'rate': [g(), g(fs=FS / 2)],
        'channels': [g(), g(m=mics3)],
        'third': [g(), g(), g(7)],
    }
    for k, s in bad.items():
        m = ac.SourceMixer(sources=s)
        ck.step('refused', k)
        try:
            list(m.result(4))
        except ValueError:
            continue
        expect(False, 'accepted', lambda: f'mixed sources that differ: {k}')
    m = ac.SourceMixer(sources=[g(), g()], weights=[1.0])
    try:
        list(m.result(4))
    except (ValueError, AssertionError):
        return
    expect(False, 'accepted', lambda: 'mixed two sources with one weight')


OPS = {
    'append': lambda m, mk, st: (m.sources.append(mk['n']()), st.append('n')),
    'pop': lambda m, mk, st: (m.sources.pop(), st.pop()) if len(st) > 1 else None,
    'replace': lambda m, mk, st: (m.sources.__setitem__(0, mk['t']()), st.__setitem__(0, 't')),
    'swap': lambda m, mk, st: (m.sources.reverse(), st.reverse()),
    'assign': lambda m, mk, st: (setattr(m, 'sources', [mk['b'](), mk['i']()]), st.__setitem__(slice(None), ['b', 'i'])),
    'weights': lambda m, mk, st: None,
}


def histories(ck, seq, n):
    mk = parts(n)
    st = ['a', 'b']
    m = ac.SourceMixer(sources=[mk[k]() for k in st])
    w = None
    for op in ('', *seq):
        if op:
            OPS[op](m, mk, st)
            if op == 'weights':
                w = [0.5 + i for i in range(len(st))]
                m.weights = w
            elif w is not None and len(w) != len(st):
                w = [2.0 - i for i in range(len(st))]
                m.weights = w
        fresh = ac.SourceMixer(sources=[mk[k]() for k in st], **({} if w is None else {'weights': w}))
        ck.step('history', tuple(st), w and tuple(w))
        expect((m.num_samples, m.num_channels, m.sample_freq) == (n, 4, FS), 'announced', lambda: f'{seq}')
        matches(np.concatenate(collect(m, 3)), want_mix([mk[k]() for k in st], w), f'{seq} at {op}', 'mixed-later')
        expect(m.digest == fresh.digest, 'digest', lambda: f'{seq} at {op}')


def item(ck, it):
    kind, *a = it
    fn = {'point': point, 'line': line, 'dipole': dipole, 'harmonic': harmonic, 'flow': flow, 'convolve': convolve, 'mix': mix, 'noise': noise, 'modes': modes, 'refused': refused, 'history': histories}[kind]
    ck.case('/'.join(map(str, it)), fn, ck, *a)


def run(ck):
    q = ck.quick
    ns = (1, 2, 7, 8, 9) if q else (1, 2, 3, 5, 7, 8, 9, 16, 33)
    ups = (16, 4, 1) if q else (16, 4, 8, 5, 1)
    mics = [((0, 1, 2, 3), ()), ((2, 0), ()), ((0, 1, 2, 3), (1,))]
    items = [('point', n, up, *m) for n in ns for up in ups for m in mics]
    items += [('line', n, up, len(s), s, pad) for n in ns for up in ups for s in ((1.0,), (1.0, 1.0), (0.5, -2.0, 1.0)) for pad in ('loop', 'zeros')]
    items += [(k, n, up) for k in ('dipole', 'harmonic', 'flow') for n in ns for up in ups]
    items += [('convolve', n) for n in ns]
    items += [('noise', n) for n in ns] + [('modes', o, 7) for o in (range(4) if q else range(6))]
    items += [('mix', p, n) for n in (1, 7, 8) for d in (1, 2, 3) for p in itertools.permutations('abnti', d)] + [('refused',)]
    items += [('history', s, 7) for d in range(1, 4 if q else 5) for s in itertools.product(OPS, repeat=d)]
    ck.parallel(item, items)
    ck.rule('all lengths x upsampling factors x start offsets x padding modes x microphone sets x block sizes of a menu, with delays that are '
            'exact in the sampled time; monopoles, lines of monopoles, dipoles, harmonics of order 0; all ordered selections of up to three of '
            'five sources mixed with all weights; all sequences of up to 3 (thorough 4) changes of a mixer')
    ck.assume('A spherical harmonic source may lead by up to an eighth of a sample (it adds a constant pi/30 of a sample).')
