"""B01: source maps do not depend on the order or subset of frequencies queried."""

import itertools
import warnings

import acoular as ac
import numpy as np

from mc import cachekit, fd
from mc.core import expect

N = 5
SLOW = ('CMF', 'GridlessOrth', 'GIB', 'SODIX')


def build(name, mode='cls', steer=None):
    return fd.beamformer(name, fd.imported(0, N, 3), steer or fd.steer())


def gridsize(bf):
    r = np.array(bf.result[0:0])
    return r.shape[1]


class Maps:
    """The map of every single frequency, each from an object of its own."""

    def __init__(self, name):
        self.name = name
        self.rows = []
        for k in range(N):
            self.rows.append(np.array(build(name).result[k]))
        self.full = np.array(self.rows)
        bf = build(name)
        self.grid = bf.steer.grid
        self.f = bf.freq_data.fftfreq()
        self.shape = bf.steer.grid.shape
        self.bf = bf


SECTOR = ac.CircSector(x=0.0, y=0.0, r=0.15)
RECT = (-0.2, -0.1, 0.0, 0.1)


def band(m, f1, f2):
    sel = (m.f >= f1) & (m.f < f2)
    return m.full[sel].sum(0)


def shaped(m, h):
    if isinstance(m.bf, ac.fbeamform.BeamformerAdaptiveGrid):
        return h
    if m.name == 'SODIX':
        return h.reshape(m.grid.size, 3)
    return h.reshape(m.shape)


def forms(name):
    """{label: (what is asked, what is expected)}"""
    out = {}
    for k in range(N):
        out[f'[{k}]'] = (lambda b, k=k: b.result[k], lambda m, k=k: m.full[k])
    out['[-1]'] = (lambda b: b.result[-1], lambda m: m.full[-1])
    out['[-4]'] = (lambda b: b.result[-4], lambda m: m.full[-4])
    out['[np2]'] = (lambda b: b.result[np.int64(2)], lambda m: m.full[2])
    out['[1:3]'] = (lambda b: b.result[1:3], lambda m: m.full[1:3])
    out['[3:]'] = (lambda b: b.result[3:], lambda m: m.full[3:])
    out['[::-2]'] = (lambda b: b.result[::-2], lambda m: m.full[::-2])
    out['[:]'] = (lambda b: b.result[:], lambda m: m.full)
    out['[list]'] = (lambda b: b.result[[3, 1, 3]], lambda m: m.full[[3, 1, 3]])
    out['[mask]'] = (lambda b: b.result[np.array([0, 1, 0, 0, 1], bool)], lambda m: m.full[[1, 4]])
    out['[2,1]'] = (lambda b: b.result[2, 1], lambda m: m.full[2, 1])
    out['[1:4,0]'] = (lambda b: b.result[1:4, 0], lambda m: m.full[1:4, 0])
    out['[-2:,::2]'] = (lambda b: b.result[-2:, ::2], lambda m: m.full[-2:, ::2])
    out['synthetic(500)'] = (lambda b: b.synthetic(500.0), lambda m: shaped(m, m.full[2]))
    out['synthetic(800)'] = (lambda b: b.synthetic(800.0), lambda m: shaped(m, m.full[3]))
    out['synthetic(5000)'] = (lambda b: b.synthetic(5000.0), lambda m: shaped(m, 0 * m.full[0]))
    out['octave'] = (lambda b: b.synthetic(1000.0, 1), lambda m: shaped(m, band(m, 1000 / 2**0.5, 1000 * 2**0.5)))
    out['third'] = (lambda b: b.synthetic(500.0, 3), lambda m: shaped(m, band(m, 500 / 2 ** (1 / 6), 500 * 2 ** (1 / 6))))
    out['empty-third'] = (lambda b: b.synthetic(700.0, 3), lambda m: shaped(m, 0 * m.full[0]))
    out['limits'] = (lambda b: b.synthetic(0.0, [250.0, 901.0]), lambda m: shaped(m, band(m, 250, 901)))
    if name not in ('SODIX', 'GridlessOrth'):

        def spec(m, sec=None):
            ind = m.grid.subdomain(SECTOR) if sec is None else m.grid.indices(*sec)
            maps = m.full.reshape((N, *m.shape))
            return np.array([x[ind].sum() for x in maps])

        out['integrate'] = (lambda b: b.integrate(SECTOR), spec)
        out['integrate-rect'] = (lambda b: b.integrate(RECT), lambda m: spec(m, RECT))
        out['integrate-range'] = (
            lambda b: b.integrate(SECTOR, frange=(500.0, 1000.0)),
            lambda m: (m.f[2:4], spec(m)[2:4]),
        )
        out['integrate-band'] = (
            lambda b: b.integrate(SECTOR, frange=(500.0, 1000.0), num=1),
            lambda m: np.array([spec(m)[(m.f >= c / 2**0.5) & (m.f < c * 2**0.5)].sum() for c in (500.0, 1000.0)]),
        )
    return out


def same(a, b):
    if isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12 * max(1e-30, np.abs(b).max() if b.size else 0), equal_nan=True)


def history(ck, m, forms_, seq, mode, again):
    if mode == 'none':
        run_history(ck, m, forms_, build(m.name), seq, mode)
        return
    with cachekit.env(mode[0], mode[1]):
        run_history(ck, m, forms_, build(m.name), seq, mode)
        if again:  # another object finds what was cached
            run_history(ck, m, forms_, build(m.name), tuple(reversed(seq)), mode)


def run_history(ck, m, forms_, bf, seq, mode):
    for i, q in enumerate(seq):
        ask, want = forms_[q]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got, exp = ask(bf), want(m)
        ck.step(m.name, seq[: i + 1], mode)
        ck.outcome(m.name, q, np.asarray(got[-1] if isinstance(got, tuple) else got).tobytes())
        expect(same(got, exp), 'map', lambda: f'{m.name} {q} after {seq[:i]}: {str(got)[:150]} instead of {str(exp)[:150]}')


def one(ck, it):
    name, part, parts, what = it
    m = Maps(name)
    fs = forms(name)
    keys = list(fs)
    seqs = []
    single = [f'[{k}]' for k in range(1, N)]
    if what == 'none':
        seqs += [(a,) for a in keys]
        seqs += list(itertools.permutations(single, 4)) if not (ck.quick and name in SLOW) else list(itertools.permutations(single[1:], 3))
        if ck.quick and name in SLOW:
            seqs += [(a, b) for a in ('[3]', '[1:3]') for b in keys]
        else:
            seqs += list(itertools.product(keys, repeat=2))
        if not ck.quick:
            few = ['[2]', '[-1]', '[1:3]', '[::-2]', '[list]', '[mask]', '[1:4,0]', 'octave', 'synthetic(800)', '[:]']
            seqs += list(itertools.product(few, repeat=3))
    else:
        few = ['[2]', '[-1]', '[1:3]', '[::-2]', '[list]', 'octave', '[:]']
        if ck.quick and name in SLOW:
            few = ['[2]', '[list]']
        seqs += [(a, b) for a in few for b in (keys if not ck.quick else few + ['[mask]', '[2,1]', '[-2:,::2]'])]
    for i, s in enumerate(seqs):
        if i % parts == part:
            for again in (False,) if what == 'none' or ck.quick and name in SLOW else (True,):
                tag = what if what == 'none' else '-'.join(what)
                ck.case(f'{name}/{tag}/' + ','.join(s), history, ck, m, fs, s, what, again)


def band_objects():
    return {
        'spectra': lambda: ac.BeamformerBase(freq_data=fd.spectra(bs=128), steer=fd.steer()),
        'imported': lambda: ac.BeamformerBase(freq_data=fd.imported(), steer=fd.steer()),
        'wide': lambda: ac.BeamformerEig(n=-1, freq_data=fd.imported(2, 7, freqs=[100, 125, 160, 200, 250, 315, 400]), steer=fd.steer()),
    }


def bands(ck, which):
    """Band limits on, below and above lines; index limits; every admissible kind of limits."""
    make = band_objects()[which]
    ref = make()
    f = np.array(ref.freq_data.fftfreq())
    grid = ref.steer.grid
    full = np.array([np.array(make().result[k]) for k in range(len(f))])

    def total(a, b):
        return full[(f >= a) & (f < b)].sum(0).reshape(grid.shape)

    def check(label, got, want):
        ck.step('bands', which, label)
        ck.outcome('bands', which, label, np.asarray(got).tobytes())
        expect(same(got, want), 'band', lambda: f'{which} {label}: {str(got)[:150]} instead of {str(want)[:150]}')

    near = range(len(f)) if len(f) < 10 else [0, 1, 2, 3, 31, 32, len(f) - 2, len(f) - 1]
    edges = sorted({*f[near], *((f[1:] + f[:-1]) / 2)[near[:-1]], f[-1] + 1, f[-1] * 3, f[1] * 0.01})
    lines = [x for x in edges if x > 0]

    def limits(a):
        bf = make()
        for b in edges:
            if a <= b:
                check(f'synthetic(0,[{a},{b}])', bf.synthetic(0.0, [a, b]), total(a, b))
                check(f'synthetic(0,[{a},x,{b}])', bf.synthetic(0.0, [a, (a + b) / 3, b]), total(a, b))

    def single(a):
        bf = make()
        k = np.searchsorted(f, a)
        want = full[k] if k < len(f) else 0 * full[0]
        check(f'synthetic({a})', bf.synthetic(a), want.reshape(grid.shape))
        for num in (1, 2, 3, 6, 12):
            for shift in (0, *(x / num + y for x in (-0.5, 0.5) for y in (-0.002, 0, 0.002))):  # but for the first, a limit on or next to a line
                c = a * 2.0**shift
                bf = make() if shift else bf
                check(f'synthetic({c},{num})', bf.synthetic(c, num), total(c * 2.0 ** (-0.5 / num), c * 2.0 ** (0.5 / num)))

    sectors = {'sector': SECTOR, 'rect': RECT, 'circle': (0.0, 0.0, 0.2), 'one': ac.RectSector(x_min=0.19, x_max=0.3, y_min=0.05, y_max=0.2)}

    def spec(name):
        sec = sectors[name]
        ind = grid.subdomain(sec) if isinstance(sec, ac.Sector) else grid.indices(*sec)
        return np.array([x.reshape(grid.shape)[ind].sum() for x in full])

    def frange(name, a):
        bf, s = make(), spec(name)
        for b in edges:
            if a <= b:
                sel = (f >= a) & (f < b)
                check(f'integrate({name},{a}-{b})', bf.integrate(sectors[name], frange=(a, b)), (f[sel], s[sel]))
        for num in (1, 3):
            want = [s[(f >= c * 2.0 ** (-0.5 / num)) & (f < c * 2.0 ** (0.5 / num))].sum() for c in (a, 2 * a, a / 2, f[-1])]
            check(f'integrate({name},{a},{num})', bf.integrate(sectors[name], frange=[a, 2 * a, a / 2, f[-1]], num=num), np.array(want))

    def index(name, lo):
        s = spec(name)
        for hi in (None, *ends, len(f)):
            bf = make()
            bf.freq_data.ind_low, bf.freq_data.ind_high = lo, hi
            want = np.zeros(len(f))
            a = lo if lo >= 0 else lo + len(f)
            h = bf.freq_data.ind_high
            want[a : (h if h is None or h >= 0 else h + len(f))] = 1
            want *= s
            check(f'integrate({name}) {lo}:{hi}', bf.integrate(sectors[name]), want)
            for k in bf.freq_data.indices:
                if 0 <= k < len(f):
                    check(f'[{k}] {lo}:{hi}', bf.result[int(k)], full[k])

    ends = sorted({*near, *(k - len(f) for k in near)})
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for a in edges:
            ck.case(f'bands/{which}/limits/{a}', limits, a)
        for a in lines:
            ck.case(f'bands/{which}/single/{a}', single, a)
            for name in sectors:
                ck.case(f'bands/{which}/frange/{name}/{a}', frange, name, a)
        if which == 'spectra':
            for lo in ends:
                for name in ('sector',) if ck.quick else sectors:
                    ck.case(f'bands/{which}/index/{name}/{lo}', index, name, lo)


def any_item(ck, it):
    if it[0] == 'bands':
        bands(ck, it[1])
    else:
        one(ck, it)


def run(ck):
    ac.config.global_caching = 'none'
    items = [('bands', w) for w in band_objects()]
    for name in fd.BEAMFORMERS:
        parts = 4 if name in SLOW else 2
        items += [(name, p, parts, 'none') for p in range(parts)]
        for lib in ('tables', 'h5py') if not ck.quick else ('tables',):
            items += [(name, p, parts, (lib, 'all')) for p in range(parts)]
    items.sort(key=lambda it: it[0] not in SLOW and it[0] != 'bands')
    ck.parallel(any_item, items)
    ck.rule('every frequency-domain beamformer: all pairs (thorough: triples of ten) of 20-26 forms of access, all orders of the single '
            'frequencies, without cache and with a cache that is used again by another object; all pairs of band limits on, between and '
            'beyond the lines, bands of five widths with centres and limits on lines, all index limits, four kinds of sectors')
