"""F03: imported cross spectral matrices behave like computed ones."""

import itertools

import acoular as ac
import numpy as np

from mc import cachekit, fd, td
from mc.core import expect

CSMS = {
    'A': lambda: fd.signals_csm(4, 3, 0),
    'B': lambda: fd.signals_csm(4, 3, 2),
    'nearA': lambda: near(),
    'real': lambda: fd.signals_csm(4, 3, 1).real.copy(),
    'zero': lambda: np.zeros((4, 3, 3), complex),
}
FREQS = {'f': fd.FREQS[:4], 'g': fd.FREQS[:4] + 100.0}


def near():
    c = fd.signals_csm(4, 3, 0)
    c[2, 1, 1] *= 1 + 1e-6
    return c


QUERIES = ('csm', 'eva', 'eve', 'num_channels', 'freq_range', 'fftfreq', 'map', 'digest')


def ask(o, bf, q):
    if q == 'fftfreq':
        return np.array(o.fftfreq())
    if q == 'map':
        return np.array(bf.result[:])
    if q == 'digest':
        return o.digest
    if q == 'num_channels':
        return o.num_channels
    return np.array(getattr(o, q))


def want(c, f, q):
    if q == 'csm':
        return c
    if q == 'eva':
        return np.linalg.eigvalsh(c)
    if q == 'num_channels':
        return 3
    if q == 'fftfreq':
        return f
    if q == 'freq_range':
        return np.array([f[0], None])
    if q == 'map':
        o = ac.PowerSpectraImport(csm=c, frequencies=f)
        old = ac.config.global_caching
        ac.config.global_caching = 'none'
        try:
            return np.array(beam(o).result[:])
        finally:
            ac.config.global_caching = old
    return None


def beam(o):
    return ac.BeamformerEig(freq_data=o, steer=fd.steer(), n=-1)


class Expected:
    def __init__(self):
        self.store = {}

    def __call__(self, c, f, q):
        if (c, f, q) not in self.store:
            self.store[c, f, q] = want(CSMS[c](), FREQS[f], q)
        return self.store[c, f, q]


def check(ck, o, bf, q, c, f, exp, digests):
    got = ask(o, bf, q)
    ck.step(c, f, q)
    if q == 'digest':
        key = digests.setdefault(got, (c, f))
        expect(key == (c, f), 'digest', lambda: f'{key} and {(c, f)} share a digest')
        old = digests.setdefault((c, f), got)
        expect(old == got, 'digest', lambda: f'{(c, f)} has two digests')
        return
    if q == 'eve':
        eva = exp(c, f, 'eva')
        back = np.einsum('fij,fj,fkj->fik', got, eva, got.conj())
        e = CSMS[c]()
        expect(np.abs(back - e).max() <= 1e-9 * max(np.abs(e).max(), 1e-30), 'stale', lambda: f'eigenvectors do not belong to matrix {c}')
        return
    e = exp(c, f, q)
    ok = np.shape(got) == np.shape(e)
    if ok and np.asarray(e).dtype == object:
        ok = list(got) == list(e)
    elif ok:
        ok = np.allclose(got, e, rtol=1e-9, atol=1e-11 * max(np.abs(np.asarray(e)).max(), 1e-30))
    expect(ok, 'stale', lambda: f'{q} with matrix {c} and frequencies {f}: {str(got)[:150]}, expected {str(e)[:150]}')
    ck.outcome(c, f, q)


def history(ck, seq, mode, exp):
    """seq: ('set', csm) | ('freq', f) | (query,)"""
    digests = {}

    def run():
        c, f = 'A', 'f'
        o = ac.PowerSpectraImport(csm=CSMS[c](), frequencies=FREQS[f].copy())
        bf = beam(o)
        for a in seq:
            if a[0] == 'set':
                c = a[1]
                o.csm = CSMS[c]()
            elif a[0] == 'freq':
                f = a[1]
                o.frequencies = FREQS[f].copy()
            else:
                check(ck, o, bf, a[0], c, f, exp, digests)
        for q in QUERIES:
            check(ck, o, bf, q, c, f, exp, digests)

    if mode == 'none':
        run()
    else:
        with cachekit.env('tables', mode):
            run()
            run()


def one(ck, it):
    mode, depth, first = it
    exp = Expected()
    sets = [('set', c) for c in CSMS] + [('freq', f) for f in FREQS]
    acts = sets + [(q,) for q in QUERIES]
    n = 0
    for d in range(1, depth + 1):
        for rest in itertools.product(acts, repeat=d - 1):
            seq = (acts[first], *rest)
            if not any(a in sets for a in seq) or seq[-1] not in sets:
                continue
            n += 1
            ck.case(f'{mode}/' + ','.join('='.join(a) for a in seq), history, ck, seq, mode, exp)


def computed(ck, name, how):
    """Beamforming with a computed matrix, and with the same matrix imported."""
    x = fd.signals(300, 3)
    ps = fd.spectra(x, overlap='50%')
    sel = [3, 5, 8, 20]
    if how == 'all':
        imp = ac.PowerSpectraImport(csm=np.array(ps.csm), frequencies=ps.fftfreq())
        k = sel
    else:
        imp = ac.PowerSpectraImport(csm=np.array(ps.csm)[sel], frequencies=ps.fftfreq()[sel])
        k = range(4)
    a = fd.beamformer(name, ps)
    b = fd.beamformer(name, imp)
    for i, j in zip(sel, k):
        r, s = np.array(a.result[i]), np.array(b.result[j])
        ck.step(name, how, i)
        ck.outcome(name, how, i, float(r.sum()))
        expect(r.shape == s.shape and np.allclose(r, s, rtol=1e-6, atol=1e-9 * np.abs(r).max()), 'import',
               lambda: f'{name}: map of the computed matrix {r}, of the imported one {s}')
    for q in ('csm', 'eva'):
        u, v = np.array(getattr(ps, q))[sel], np.array(getattr(imp, q))[list(k)]
        expect(np.allclose(u, v, rtol=1e-9, atol=1e-12 * np.abs(u).max()), 'import', q)
    expect(imp.num_channels == ps.num_channels, 'import', 'number of channels')


def shapes(ck, shape):
    c = np.ones(shape, complex)
    o = fd.imported()
    good = len(shape) == 3 and shape[1] == shape[2]
    ck.step('shape', shape)
    try:
        o.csm = c
    except ValueError:
        expect(not good, 'refused', str(shape))
        expect(np.array_equal(o.csm, fd.signals_csm(5, 3, 0)), 'refused', 'the matrix was changed by a refused one')
    else:
        expect(good, 'accepted', f'matrix of shape {shape}')
        expect(o.csm.shape == shape and o.num_channels == shape[1], 'stale')
    ck.outcome('shape', shape)


def dispatch(ck, it):
    if it[0] == 'computed':
        # SODIX starts from the result of the previous line, the points of GridlessOrth are numbered by line
        for how in ('all',) if it[1] in ('SODIX', 'GridlessOrth') else ('all', 'some'):
            ck.case(f'computed/{it[1]}/{how}', computed, ck, it[1], how)
    else:
        one(ck, it)


def run(ck):
    ac.config.global_caching = 'none'
    for n in (1, 2, 3):
        for s in itertools.product((1, 2, 3), repeat=n):
            ck.case(f'shape/{s}', shapes, ck, s)
    n = len(CSMS) + len(FREQS) + len(QUERIES)
    items = [('none', 3 if ck.quick else 4, i) for i in range(n)]
    for mode in ('all', 'overwrite', 'readonly'):
        items += [(mode, 2 if ck.quick else 3, i) for i in range(n)]
    items += [('computed', b) for b in fd.BEAMFORMERS]
    ck.parallel(dispatch, items)
    ck.rule('all sequences of replacing the matrix (five), the frequencies (two) and asking for one of eight quantities, up to 3 (thorough 4) '
            'without and 2 (thorough 3) with cache (run twice on the same cache); every beamformer with computed and imported matrix; all shapes up to 3x3x3')
    ck.assume('Matrices are replaced, not changed in place.')
