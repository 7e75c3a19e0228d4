"""S02: every processing block computes its documented signal function."""

import itertools
import math

import acoular as ac
import numpy as np
from scipy import signal as sps

from mc import td
from mc.core import expect

FS = 1000.0


def stream(ck, obj, num, tag, total=None, nc=None):
    blocks = []
    pos = 0
    for b in obj.result(num):
        b = np.array(b)
        blocks.append(b)
        pos += len(b)
        ck.step(tag, num, pos)
        expect(pos < 5000, 'endless', 'more samples than the source has')
    if total is not None:
        td.check_blocks(blocks, num, total, nc, tag)
    return td.cat(blocks, nc or obj.num_channels)


def matches(ck, obj, want, num, tag, tol=1e-9):
    expect(obj.num_samples == len(want), 'announced-samples', f'{tag}: num_samples={obj.num_samples}, expected {len(want)}')
    expect(
        obj.num_channels == want.shape[1], 'announced-channels', f'{tag}: num_channels={obj.num_channels}, expected {want.shape[1]}'
    )
    got = stream(ck, obj, num, tag, len(want), want.shape[1])
    expect(td.close(got, want, tol), 'value', lambda: f'{tag}: got {got.tolist()} want {want.tolist()}')
    ck.outcome(tag, got.round(6).tobytes())


def subsets(c):
    for k in range(c + 1):
        yield from itertools.combinations(range(c), k)


# ---- selection -------------------------------------------------------------------------------
def selection(ck, item):
    kind, n, c = item
    x = td.pattern(n, c)
    bounds = range(-n - 1, n + 2)
    for inv in subsets(c):
        keep = [i for i in range(c) if i not in inv]
        for start in bounds:
            for stop in (None, *bounds):
                want = x[slice(start, stop)][:, keep]

                def make(start=start, stop=stop, inv=inv):
                    if kind == 'MaskedTimeOut':
                        return ac.MaskedTimeOut(source=td.src(x, 'reuse'), start=start, stop=stop, invalid_channels=list(inv))
                    if kind == 'MaskedTimeSamples':
                        return ac.MaskedTimeSamples(data=x, sample_freq=FS, start=start, stop=stop, invalid_channels=list(inv))
                    m = ac.MaskedTimeSamples(start=start, stop=stop, invalid_channels=list(inv))
                    m.file = f'sel{n}x{c}.h5'
                    return m

                def one(make=make, want=want):
                    o = make()
                    if len(want) == 0:
                        expect(o.num_samples == 0, 'announced-samples', f'num_samples={o.num_samples} for an empty selection')
                        try:
                            got = stream(ck, o, 3, kind)
                        except OSError:
                            return
                        expect(len(got) == 0, 'value', 'samples from an empty selection')
                        return
                    for num in range(1, n + 2):
                        matches(ck, o, want, num, kind)

                ck.case(f'{kind}/n{n}c{c}/{start}:{stop}/inv{"".join(map(str, inv))}', one)


def selection_item(ck, item):
    kind, n, c = item
    if kind == 'MaskedFile':
        w = ac.WriteH5(source=td.src(td.pattern(n, c)), file=f'sel{n}x{c}.h5', precision='float64')
        w.save()
    selection(ck, item)


# ---- mixing ----------------------------------------------------------------------------------
def mixing_item(ck, item):
    kind, lens = item
    if kind == 'Mixer':
        for c in (1, 2):
            xs = [td.pattern(n, c, i) for i, n in enumerate(lens)]
            m = min(lens)
            want = sum(x[:m] for x in xs)

            def one(c=c, xs=xs, want=want):
                for mode in ('fresh', 'view', 'reuse'):
                    ss = [td.src(x, mode, tag=i) for i, x in enumerate(xs)]
                    o = ac.Mixer(source=ss[0], sources=ss[1:])
                    for num in range(1, max(lens) + 2):
                        matches(ck, o, want, num, f'Mixer{lens}')

            ck.case(f'Mixer/c{c}/{"-".join(map(str, lens))}', one)
    elif kind == 'SourceMixer':
        for w in (None, [0.5, -2.0, 0.0][: len(lens)], [1.0, 1.0, 3.0][: len(lens)]):
            xs = [td.pattern(n, 2, i) for i, n in enumerate(lens)]
            m = min(lens)
            want = sum((1.0 if w is None else w[i]) * x[:m] for i, x in enumerate(xs))

            def one(xs=xs, want=want, w=w):
                o = ac.SourceMixer(sources=[td.src(x, 'view', tag=i) for i, x in enumerate(xs)])
                if w is not None:
                    o.weights = np.array(w)
                if len(set(lens)) > 1:  # documented: all sources have the same length
                    try:
                        stream(ck, o, 2, 'SourceMixer-unequal')
                    except ValueError:
                        return
                    expect(False, 'accepted', 'sources of unequal length were mixed')
                for num in range(1, max(lens) + 2):
                    matches(ck, o, want, num, f'SourceMixer{lens}')

            ck.case(f'SourceMixer/w{w}/{"-".join(map(str, lens))}', one)


def mismatch_item(ck, item):
    """Sources that cannot be mixed are refused, not mixed wrongly."""
    kind, what = item
    x = td.pattern(4, 2)
    a = td.src(x)
    b = td.src(td.pattern(4, 3), tag=1) if what == 'channels' else td.src(td.pattern(4, 2), fs=500.0, tag=1)

    def one():
        try:
            if kind == 'Mixer':
                o = ac.Mixer(source=a, sources=[b])
            else:
                o = ac.SourceMixer(sources=[a, b])
            for _ in o.result(2):
                pass
        except ValueError:
            return
        expect(False, 'accepted', f'sources with different {what} were mixed')

    ck.case(f'{kind}/mismatch-{what}', one)


# ---- channel mixing, power, averages ----------------------------------------------------------
def point_item(ck, item):
    n, c = item
    x = td.pattern(n, c)

    def each(name, make, want):
        def one():
            o = make()
            for num in range(1, n + 3):
                matches(ck, o, want, num, name)

        ck.case(f'{name}/n{n}c{c}', one)

    S = lambda: td.src(x, 'reuse')  # noqa: E731
    for w in itertools.product((0.0, 1.0, -0.5), repeat=c):
        each(f'ChannelMixer-{w}', lambda w=w: ac.ChannelMixer(source=S(), weights=np.array(w)), (x * np.array(w)).sum(1, keepdims=True))
    each('ChannelMixer', lambda: ac.ChannelMixer(source=S()), x.sum(1, keepdims=True))
    each('TimePower', lambda: ac.TimePower(source=S()), x * x)
    each('TimeCumAverage', lambda: ac.TimeCumAverage(source=S()), td.ref_cumavg(x))
    each('TimeReverse', lambda: ac.TimeReverse(source=S()), x[::-1])
    each('Filter', lambda: ac.Filter(source=S()), x)
    each('FiltFreqWeight-Z', lambda: ac.FiltFreqWeight(source=S(), weight='Z'), x)
    for m in range(1, n + 1):
        each(f'Average-{m}', lambda m=m: ac.Average(source=S(), num_per_average=m), td.ref_average(x, m))
    for wt, tau in (('F', 0.125), ('S', 1.0), ('I', 0.035)):
        for fs in (100.0, 1000.0):
            al = 1 - math.exp(-1 / (tau * fs))
            y = np.zeros_like(x)
            prev = np.zeros(c)
            for i in range(n):
                prev = prev + al * (x[i] - prev)
                y[i] = prev
            each(f'TimeExpAverage-{wt}-{fs:.0f}', lambda wt=wt, fs=fs: ac.TimeExpAverage(source=td.src(x, 'reuse', fs), weight=wt), y)
    cal = td.w_for(c)
    each('Calib', lambda: ac.Calib(source=S(), data=cal, num_mics=c), x * cal)


# ---- filters ---------------------------------------------------------------------------------
def analog_weight(f, wt):
    """IEC 61672-1 Annex E analytic weighting."""
    f1, f2, f3, f4 = 20.598997, 107.65265, 737.86223, 12194.217
    if wt == 'C':
        return f4**2 * f**2 / ((f**2 + f1**2) * (f**2 + f4**2)) * 10 ** (0.0619 / 20)
    return f4**2 * f**4 / ((f**2 + f1**2) * np.sqrt((f**2 + f2**2) * (f**2 + f3**2)) * (f**2 + f4**2)) * 10 ** (1.9997 / 20)


def weighting_item(ck, item):
    wt, fs = item

    def one():
        n = 4096
        x = np.zeros((n, 1))
        x[0] = 1.0
        o = ac.FiltFreqWeight(source=td.src(x, 'view', fs), weight=wt)
        got = np.concatenate([b.copy() for b in o.result(1000)])
        ck.step('weight', wt, fs)
        # impulse response evaluated at warped frequencies (bilinear transform)
        f = np.array([200.0, 500.0, 1000.0, 2000.0, 4000.0, fs / 8, fs / 4])
        H = np.array([np.abs(np.sum(got[:, 0] * np.exp(-2j * np.pi * fi / fs * np.arange(n)))) for fi in f])
        fa = fs / np.pi * np.tan(np.pi * f / fs)
        want = analog_weight(fa, wt)
        expect(np.allclose(H, want, rtol=2e-3), 'value', f'response {H} expected {want} at {f}')

    ck.case(f'FiltFreqWeight-{wt}/fs{fs:.0f}', one)


def filter_item(ck, item):
    name, n, mk, ref = item
    for c in (1, 2):
        x = td.pattern(n, c)

        def one(x=x):
            want = ref(x)
            for mode in ('fresh', 'view', 'reuse'):
                o = mk(td.src(x, mode))
                for num in range(1, n + 2):
                    matches(ck, o, want, num, name, 1e-8)

        ck.case(f'{name}/n{n}c{c}', one)


def filters(quick):
    out = []
    lens = (1, 2, 5, 8) if quick else range(1, 13)
    bands = (63.0, 125.0, 250.0) if quick else (31.5, 63.0, 125.0, 250.0, 300.0)
    for n in lens:
        for frac, fn in (('Octave', 1), ('Third octave', 3)):
            for b in bands:
                for order in (1, 2, 3, 4):
                    out.append(
                        (
                            f'FiltOctave-{fn}-{b}-{order}',
                            n,
                            lambda s, frac=frac, b=b, order=order: ac.FiltOctave(source=s, band=b, fraction=frac, order=order),
                            lambda x, fn=fn, b=b, order=order: td.ref_sos(td.ref_octave_sos(b, fn, order, FS), x),
                        )
                    )
        for wt in 'AC':
            out.append(
                (
                    f'FiltFreqWeight-{wt}-blocks',
                    n,
                    lambda s, wt=wt: ac.FiltFreqWeight(source=s, weight=wt),
                    lambda x, wt=wt: td.ref_sos(ac.FiltFreqWeight(source=td.src(x), weight=wt).sos, x),
                )
            )
        for fn, frac, step in ((1, 'Octave', 3), (3, 'Third octave', 1)):
            for lb, hb in ((15, 16), (15, 19), (18, 24), (20, 23)):

                def ref(x, lb=lb, hb=hb, step=step, fn=fn):
                    return np.concatenate([td.ref_sos(td.ref_octave_sos(10 ** (i / 10), fn, 3, FS), x) for i in range(lb, hb, step)], axis=1)

                out.append(
                    (
                        f'OctaveFilterBank-{fn}-{lb}-{hb}',
                        n,
                        lambda s, lb=lb, hb=hb, frac=frac: ac.OctaveFilterBank(source=s, lband=lb, hband=hb, fraction=frac),
                        ref,
                    )
                )
    for n in (16, 25, 40) if quick else range(40, 49):
        for frac, fn in (('Octave', 1), ('Third octave', 3)):
            for order in (1, 2):
                out.append(
                    (
                        f'FiltFiltOctave-{fn}-{order}',
                        n,
                        lambda s, frac=frac, order=order: ac.FiltFiltOctave(source=s, band=125.0, fraction=frac, order=order),
                        lambda x, fn=fn, order=order: sps.sosfiltfilt(td.ref_octave_sos(125.0, fn, order, FS, True), x, axis=0),
                    )
                )
    return out


def change_item(ck, item):
    """Coefficients changed while a run is under way apply from the next block on."""
    n, num, at = item
    x = td.pattern(n, 2)

    def one():
        o = ac.FiltOctave(source=td.src(x), band=125.0, order=1)
        got = []
        for k, b in enumerate(o.result(num)):
            got.append(b.copy())
            ck.step('change', n, num, at, k)
            if k == at:
                o.band = 63.0
        got = np.concatenate(got)
        so = td.ref_octave_sos(125.0, 1, 1, FS)
        s2 = td.ref_octave_sos(63.0, 1, 1, FS)
        zi = np.zeros((1, 2, 2))
        cut = min(n, (at + 1) * num)
        a, zi = sps.sosfilt(so, x[:cut], axis=0, zi=zi)
        if cut < n:
            b, zi = sps.sosfilt(s2, x[cut:], axis=0, zi=zi)
            a = np.concatenate([a, b])
        expect(td.close(got, a), 'value', f'got {got.tolist()} want {a.tolist()}')

    ck.case(f'FiltOctave-changed/n{n}num{num}at{at}', one)


def dispatch(ck, item):
    globals()[item[0]](ck, item[1])


def run(ck):
    ck.rule(
        'selection: all start, stop in -n-1..n+1 and None, all invalid-channel subsets, all block sizes, sources in memory and in a file; '
        'mixers: all tuples of source lengths; all averaging lengths; all filter fractions/bands/orders of the menu x lengths x block sizes; '
        'each against numpy / difference-equation references'
    )
    ck.assume('control flow does not depend on sample values')
    ac.config.global_caching = 'none'
    q = ck.quick
    items = []
    for n in (1, 2, 3, 4, 5, 6) if q else range(1, 10):
        for c in (1, 2, 3) if q else (1, 2, 3, 4):
            if q and n > 4 and c > 2:
                continue
            items.append(('selection_item', ('MaskedTimeOut', n, c)))
            items.append(('selection_item', ('MaskedTimeSamples', n, c)))
            if n <= (3 if q else 6):
                items.append(('selection_item', ('MaskedFile', n, c)))
    items.sort(key=lambda t: -t[1][1] * 2 ** t[1][2])
    L = 4 if q else 6
    for k in (1, 2, 3):
        for lens in itertools.product(range(1, L + 1), repeat=k):
            items.append(('mixing_item', ('Mixer', lens)))
            items.append(('mixing_item', ('SourceMixer', lens)))
    for k in ('Mixer', 'SourceMixer'):
        for w in ('channels', 'sample_freq'):
            items.append(('mismatch_item', (k, w)))
    for n in range(1, 8 if q else 12):
        for c in (1, 2, 3):
            items.append(('point_item', (n, c)))
    for wt in 'AC':
        for fs in (25600.0, 51200.0):
            items.append(('weighting_item', (wt, fs)))
    for f in filters(q):
        items.append(('filter_item', f))
    for n in range(1, 7 if q else 10):
        for num in range(1, n + 1):
            for at in range(0, (n + num - 1) // num):
                items.append(('change_item', (n, num, at)))
    ck.parallel(dispatch, items)
