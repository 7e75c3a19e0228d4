"""I02: calibration multiplies every channel by its own factor."""

import itertools
import pathlib
import warnings

import acoular as ac
import numpy as np

from mc.core import expect

FS = 100.0
NUMS = (1, 3, 7, 64)
FACTORS = np.array([2.0, -3.0, 5.0, 7.0, 0.5, 11.0])


def raw(n, ch, kind='float'):
    d = np.arange(1, n * ch + 1).reshape(n, ch) * 1.5 + 0.25
    return d.astype('int16') if kind == 'int' else d.astype('float32') if kind == 'float32' else d


def subsets(n):
    for k in range(n + 1):
        yield from itertools.combinations(range(n), k)


def get(src, num):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return np.concatenate([np.array(b) for b in src.result(num)])


def same(src, want, text, sym='scaled', nums=NUMS):
    for num in nums:
        got = get(src, num)
        expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-6 if got.dtype == np.float32 else 1e-12, atol=0), sym, lambda: f'{text} by {num}: {got.tolist()} instead of {want.tolist()}'[:500])


def rejected(src, text):
    try:
        got = get(src, 4)
    except ValueError:
        return
    expect(False, 'misapplied', lambda: f'{text}: accepted, {got.tolist()}'[:400])


def keep(n, inv):
    return [i for i in range(n) if i not in inv]


def block(ck, ch, kind):
    """The processing block behind plain and masked data; calibration with channels of its own."""
    n = 7
    data = raw(n, ch, kind)
    before = data.copy()
    for m in range(1, ch + 3):
        for inv in subsets(m):
            f = FACTORS[:m]
            used = f[keep(m, inv)]
            for dinv in [None, *subsets(ch)]:
                if dinv is None:
                    src = ac.TimeSamples(data=data, sample_freq=FS)
                    plain = data
                else:
                    src = ac.MaskedTimeSamples(data=data, sample_freq=FS, invalid_channels=list(dinv), start=1, stop=6)
                    plain = data[1:6][:, keep(ch, dinv)]
                c = ac.Calib(source=src, data=f, invalid_channels=list(inv))
                text = f'{plain.shape[1]} channels, factors {f.tolist()} without {inv}, data without {dinv}'
                ck.step('block', kind, ch, m, inv, dinv)
                if len(used) != plain.shape[1]:
                    rejected(c, text)
                    continue
                same(c, plain * used, text, nums=(1, 3, 64) if dinv is None else (4,))
                expect(c.num_channels == plain.shape[1] and c.num_samples == len(plain) and c.sample_freq == FS, 'announced', text)
                if dinv is None:
                    cc = ac.Calib(source=c, data=np.arange(1.0, plain.shape[1] + 1))
                    same(cc, plain * used * np.arange(1.0, plain.shape[1] + 1), text + ' twice', nums=(4,))
                    same(ac.Calib(source=ac.Cache(source=src), data=f, invalid_channels=list(inv)), plain * used, text + ' cached', nums=(4,))
                    av = ac.Average(source=src, num_per_average=2)
                    same(ac.Calib(source=av, data=f, invalid_channels=list(inv)), np.array([plain[i : i + 2].mean(0) for i in range(0, n - 1, 2)]) * used, text + ' averaged', nums=(4,))
                    same(ac.TimePower(source=c), (plain * used) ** 2, text + ' squared', nums=(4,))
    expect(np.array_equal(data, before) and data.dtype == before.dtype, 'source-changed', 'the raw data was modified')
    ck.outcome(ch, kind)


def fewer(ck, ch):
    """Blocks between the data and the calibration that change the number of channels."""
    data = raw(6, ch)
    src = ac.TimeSamples(data=data, sample_freq=FS)
    blocks = {
        'mixed': (ac.ChannelMixer(source=src), 1),
        'masked': (ac.MaskedTimeOut(source=src, invalid_channels=[0]), ch - 1),
    }
    for name, (b, k) in blocks.items():
        for wrap in (lambda x: x, lambda x: ac.Cache(source=x), lambda x: ac.Average(source=x, num_per_average=1)):
            w = wrap(b)
            if k < 1:
                continue
            plain = get(b, 4)
            for m in range(1, ch + 3):
                c = ac.Calib(source=w, data=FACTORS[:m])
                ck.step('fewer', ch, name, m)
                if m == k:
                    same(c, plain * FACTORS[:m], f'{name} {ch} channels', 'after', nums=(4,))
                else:
                    rejected(c, f'{m} factors for {k} channels ({name}) of data with {ch}')


def spectra(ck, ch):
    """Calibration of spectra: one factor per channel and frequency."""
    data = raw(32, ch)
    src = ac.TimeSamples(data=data, sample_freq=FS)
    fft = ac.RFFT(source=src, block_size=8)
    plain = get(fft, 3)
    k = plain.shape[1]
    f = 1.0 + np.arange(k)
    for m in (1, ch, k - 1, k, k + 1, 2 * k):
        c = ac.Calib(source=fft, data=np.resize(f, m))
        ck.step('spectra', ch, m)
        if m == k:
            same(c, plain * f, f'spectra of {ch} channels')
            same(ac.Calib(source=ac.Cache(source=fft), data=f), plain * f, f'cached spectra of {ch} channels')
        elif m != k:
            rejected(c, f'{m} factors for {k} channels and frequencies')
    for inv in subsets(3):
        c = ac.Calib(source=fft, data=np.arange(k + len(inv)) + 1.0, invalid_channels=list(inv))
        ck.step('spectra', ch, inv)
        same(c, plain * (np.arange(k + len(inv)) + 1.0)[keep(k + len(inv), inv)], f'spectra without {inv}')
    # factors that are the same for all frequencies: before and after agree
    cal = ac.RFFT(source=ac.Calib(source=src, data=FACTORS[:ch]), block_size=8)
    got = get(ac.Calib(source=fft, data=np.tile(FACTORS[:ch], k // ch)), 3)
    alt = get(ac.Calib(source=fft, data=np.repeat(FACTORS[:ch], k // ch)), 3)
    want = get(cal, 3)
    expect(np.allclose(got, want) or np.allclose(alt, want), 'order', 'calibrating before and after the transform differ')


def reading(ck, ch):
    """Calibration applied while reading."""
    data = raw(7, ch)
    for m in range(1, ch + 3):
        f = FACTORS[:m]
        ts = ac.TimeSamples(data=data, sample_freq=FS, calib=ac.Calib(data=f))
        ck.step('reading', ch, m)
        if m == ch:
            same(ts, data * f, f'read {ch} channels')
        else:
            rejected(ts, f'{m} factors for {ch} channels')
        for inv in subsets(ch):
            for a, b in ((None, None), (2, 6), (-3, None)):
                k = keep(ch, inv)
                ts = ac.MaskedTimeSamples(data=data, sample_freq=FS, invalid_channels=list(inv), stop=b, calib=ac.Calib(data=f), **({} if a is None else {'start': a}))
                text = f'{m} factors, {ch} channels without {inv}, {a}:{b}'
                ck.step('reading', ch, m, inv, a, b)
                plain = data[a:b][:, k]
                if m == ch:
                    same(ts, plain * f[k], text, 'masked')
                elif m == len(k):
                    same(ts, plain * f, text, 'masked')
                else:
                    rejected(ts, text)
    ck.outcome(ch)


# -- histories ----------------------------------------------------------------------------------


def xml(name, f):
    p = pathlib.Path(name).absolute()
    if not p.exists():
        p.write_text('<?xml version="1.0" encoding="utf-8"?><Calib name="c">' + ''.join(f'<pos Name="P{i}" factor="{v!r}"/>' for i, v in enumerate(f)) + '</Calib>')
    return str(p)


F4 = [0.1, 1e-7, -3.25, 12345.678901]
F3 = [9.5, 0.3, 2.0]


def s_source(ch):
    def f(c, s):
        c.source = ac.TimeSamples(data=raw(5, ch), sample_freq=FS)
        s['ch'] = ch

    return f


def s_data(d):
    def f(c, s):
        c.data = d
        s['f'] = list(map(float, d))

    return f


def s_file(name, d):
    def f(c, s):
        p = xml(name, d)
        if c.file == p:
            return  # naming the same file again does not read it again
        c.file = p
        s['f'] = list(d)

    return f


def s_inv(v):
    def f(c, s):
        c.invalid_channels = list(v)
        s['inv'] = list(v)

    return f


def s_append(c, s):
    c.invalid_channels.append(1)
    s['inv'] = [*s['inv'], 1]


OPS = {
    'src3': s_source(3),
    'src4': s_source(4),
    'data3': s_data([1.0, 2.0, 3.0]),
    'data4': s_data((4, 5, 6, 7)),
    'data4b': s_data(np.array([7.0, 6.0, 5.0, 4.0])),
    'file4': s_file('c4.xml', F4),
    'file3': s_file('c3.xml', F3),
    'inv0': s_inv([0]),
    'inv': s_inv([]),
    'append': s_append,
}


def history(ck, seq):
    s = {'ch': 3, 'f': [2.0, 3.0, 4.0], 'inv': []}
    c = ac.Calib(source=ac.TimeSamples(data=raw(5, 3), sample_freq=FS), data=s['f'])
    digests = {}
    for i, op in enumerate(('', *seq)):
        if op:
            OPS[op](c, s)
        k = keep(len(s['f']), s['inv'])
        used = np.array(s['f'])[k]
        text = f'{seq[:i]}'
        ck.step('history', s['ch'], tuple(s['f']), tuple(s['inv']))
        expect(c.num_mics == len(s['f']), 'number', lambda: f'{text}: num_mics {c.num_mics} instead of {len(s["f"])}')
        if len(used) == s['ch']:
            same(c, raw(5, s['ch']) * used, text, 'later', nums=(4,))
        else:
            rejected(c, text)
        key = (s['ch'], tuple(s['f']), tuple(sorted(set(s['inv']))))
        d = c.digest
        expect(digests.setdefault(d, key) == key, 'digest', lambda: f'{text}: one digest for {digests[d]} and {key}')


def item(ck, it):
    kind, *a = it
    if kind == 'history':
        for seq in itertools.product(OPS, repeat=a[1] - 1):
            q = (a[0], *seq)
            ck.case('history/' + '-'.join(q), history, ck, q)
    else:
        ck.case('/'.join(map(str, it)), {'block': block, 'fewer': fewer, 'spectra': spectra, 'reading': reading}[kind], ck, *a)


def run(ck):
    q = ck.quick
    chs = (1, 2, 3) if q else (1, 2, 3, 4)
    items = [('block', c, k) for c in reversed(chs) for k in ('float', 'int', 'float32')]
    items += [('fewer', c) for c in (1, 2, 3, 4)] + [('spectra', c) for c in (1, 2, 3)] + [('reading', c) for c in (*chs, 4)]
    items += [('history', o, m) for m in range(1, 4 if q else 5) for o in OPS]
    ck.parallel(item, items)
    ck.rule('all numbers of factors and all subsets of invalid channels of data and calibration, for blocks and readers, time data and spectra, '
            'three sample types; all sequences of up to 3 (thorough 4) changes of a calibration')
