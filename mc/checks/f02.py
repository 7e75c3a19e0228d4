"""F02: the selected frequency range is consistent whichever way it is set."""

import itertools

import acoular as ac
import numpy as np

from mc import fd, td
from mc.core import expect

LOW = [0, 2, 63, 200, -3]
HIGH = [None, -1, 5, 64, 65, 300, -60]
RANGE = [(0.0, 500.0), (400.0, 1000.0), (430.0, None), (3990.0, 9000.0), (7000.0, 9000.0), (1000.0, 400.0), (-10.0, 130.0)]
SIZES = [256]
RATES = [4000.0, 1234.5678]
IMPORT_LOW = [1, 4, 9, -2]
IMPORT_HIGH = [None, -1, 3, 5, 12]
IMPORT_RANGE = [(250.0, 950.0), (300.0, None), (0.0, 5000.0), (2000.0, 3000.0)]
IMPORT_FREQ = [fd.FREQS + 100.0, np.array([10.0, 20.0, 30.0, 40.0, 50.0])]


class Model:
    def __init__(self, f, low, high):
        self.f, self.low, self.high, self.by_index, self.range = f, low, high, True, None

    def ends(self):
        n = len(self.f)
        if self.by_index:
            return min(self.low, n - 1), None if self.high is None else min(self.high, n - 1)
        lo, hi = self.range
        first = [k for k in range(n - 1) if self.f[k] >= lo]
        if hi is None:
            return (first[0] if first else n - 1), None
        above = [k for k in range(n - 1) if self.f[k] >= hi]
        return (first[0] if first else n - 1), (above[0] if above else n - 1)


def apply(o, m, a):
    k, v = a
    if k == 'low':
        o.ind_low = v
        m.low, m.by_index = v, True
    elif k == 'high':
        o.ind_high = v
        m.high, m.by_index = v, True
    elif k == 'range':
        o.freq_range = v
        m.range, m.by_index = v, False
    elif k == 'size':
        o.block_size = v
    elif k == 'rate':
        o.source.sample_freq = v
    elif k == 'freqs':
        o.frequencies = v.copy()
    m.f = o.fftfreq()


def look(ck, o, m, deep=False):
    f = m.f
    if not isinstance(o, ac.PowerSpectraImport):
        lines = np.arange(o.block_size // 2 + 1) * (o.source.sample_freq / o.block_size)
        expect(np.shape(f) == lines.shape and np.allclose(f, lines, rtol=1e-9), 'lines', lambda: f'frequencies {f} instead of {lines}')
    lo, hi = m.ends()
    n = len(f)
    sel = np.arange(n)[lo:hi]
    expect(o.ind_low == lo, 'low', lambda: f'ind_low {o.ind_low}, expected {lo}')
    expect(o.ind_high == hi, 'high', lambda: f'ind_high {o.ind_high}, expected {hi}')
    expect(list(o.indices) == list(sel), 'indices', lambda: f'indices {list(o.indices)[:4]}..., expected {list(sel)[:4]}...')
    fr = o.freq_range
    expect(fr[0] == f[lo], 'range', lambda: f'freq_range {list(fr)}, lowest frequency {f[lo]}')
    expect(fr[1] is None if hi is None else fr[1] == f[hi], 'range', lambda: f'freq_range {list(fr)}, upper limit {None if hi is None else f[hi]}')
    if not m.by_index and m.range[1] is not None and m.range[1] <= f[-1]:
        want = [k for k in range(n) if m.range[0] <= f[k] < m.range[1]]
        expect(list(o.indices) == want, 'frequencies', lambda: f'{list(o.indices)[:4]}... instead of all frequencies in {m.range}')
    if deep:
        bf = ac.BeamformerBase(freq_data=o, r_diag=False, steer=fd.steer(n=2))
        r = bf.result
        got = [k for k in range(n) if np.abs(np.array(r[k])).max() > 0]
        want = [k for k in sel if f[k] > 0]
        missing = [k for k in want if k not in got]
        expect(not missing, 'map', lambda: f'no map for the selected frequencies {missing[:5]}')
        full = np.array(r[:])
        lone = [k for k in range(n) if k not in sel and np.abs(full[k]).max() > 0]
        expect(set(lone) <= set(got), 'map')
        for k in want[:3]:
            expect(np.array_equal(np.array(bf.synthetic(f[k], 0)).ravel(), full[k].ravel()), 'map', lambda: f'synthetic({f[k]}) is not the map of index {k}')
    return lo, hi, n


def make(kind):
    if kind == 'import':
        o = fd.imported(0, 5, 2)
        return o, Model(o.fftfreq(), 0, None)
    o = ac.PowerSpectra(source=td.src(fd.signals(300, 2), 'fresh', fd.FS), block_size=128)
    return o, Model(o.fftfreq(), 1, -1)


def history(ck, kind, seq, asked):
    o, m = make(kind)
    if asked:
        look(ck, o, m)
    for a in seq:
        apply(o, m, a)
        if asked:
            ck.outcome(look(ck, o, m))
        ck.step(kind, *m.ends(), len(m.f), m.by_index)
    ck.outcome(look(ck, o, m, deep=len(seq) < 2))


def label(a):
    return f'{a[0]}={a[1] if not isinstance(a[1], np.ndarray) else a[1][0]}'


def menu(kind, small):
    def mk(k, vs):
        return [(k, v) for v in vs]

    if kind == 'import':
        return mk('low', IMPORT_LOW) + mk('high', IMPORT_HIGH) + mk('range', IMPORT_RANGE) + mk('freqs', IMPORT_FREQ)
    return mk('low', LOW[:3] if small else LOW) + mk('high', HIGH[:5] if small else HIGH) + mk('range', RANGE[:5] if small else RANGE) + mk('size', SIZES) + mk('rate', RATES)


def one(ck, it):
    kind, first, depth = it
    a0 = menu(kind, False)[first]
    for d in range(1, depth + 1):
        for rest in itertools.product(menu(kind, d > 2 and ck.quick), repeat=d - 1):
            seq = (a0, *rest)
            for asked in (True, False):
                ck.case(f'{kind}/{"asked" if asked else "silent"}/' + ','.join(label(a) for a in seq), history, ck, kind, seq, asked)


def run(ck):
    ac.config.global_caching = 'none'
    depth = 3 if ck.quick else 4
    for kind in ('time', 'import'):
        ck.case(f'{kind}/initial', lambda: history(ck, kind, (), True))
    ck.parallel(one, [(k, i, depth) for k in ('time', 'import') for i in range(len(menu(k, False)))])
    ck.rule(f'all sequences of up to {depth} assignments of the index limits, the frequency limits, block size, sampling rate or imported '
            'frequencies, everything queried after every assignment or only at the end; a beamformer for sequences of one')
    ck.assume('Negative indices count from the end and do not reach beyond the first frequency.')
