"""D02: any setting that affects the result affects the digest."""

import itertools

import acoular as ac
import numpy as np

from mc import worlds as W
from mc.checks.d03 import attempt, make, observe, short
from mc.core import expect


def has_digest(w):
    return 'digest' in w.make().trait_names()


# these choose a part of what is identified by the digest
SELECTION = ('ind_low', 'ind_high', 'freq_range')
SELECTION_PSF = ('freq', 'grid_indices')


def selects(w, ch):
    last = ch[1].split('.')[-1]
    return last in SELECTION or (w.name == 'PSF' and last in SELECTION_PSF)


def results(w, obj):
    return {k: v for k, v in w.outputs(obj).items() if not (isinstance(v, str) and v.startswith('raises'))}


def pair(ck, w, seq, ch, base):
    """The same object before and after one more change; and two objects that differ by it."""
    a = make(w, seq)
    da = a.digest
    ra = base
    if not attempt(a, ch[1], ch[2]):
        return
    db = a.digest
    rb = results(w, a)
    diff = [k for k in ra if k in rb and not W.same(ra[k], rb[k], 1e-9)]
    b = make(w, seq + [ch])
    dn = b.digest
    ck.step(w.name, tuple(s[0] for s in seq), ch[0], bool(diff))
    ck.outcome(w.name, ch[0], bool(diff), db != da)
    if diff:
        k = diff[0]
        expect(db != da, 'unchanged', lambda: f'{ch[0]} changes {k} from {short(ra[k])} to {short(rb[k])}, the digest stays')
        expect(dn != da, 'shared', lambda: f'{ch[0]} gives {k} {short(rb[k])} instead of {short(ra[k])} with the same digest')
    return dn, rb


def one(ck, it):
    name, part, parts = it
    w = next(x for x in W.worlds() if x.name == name)
    by_digest = {}
    base = results(w, w.make())
    changes = [c for c in w.changes() if not selects(w, c)]
    for n, ch in enumerate(changes):
        if n % parts != part:
            continue
        got = ck.case(f'{name}/{ch[0]}', pair, ck, w, [], ch, base)
        if got:
            ck.case(f'{name}/group/{ch[0]}', grouped, ck, w, by_digest, ch[0], *got)
        if w.heavy and ck.quick or w.depth < 2 and ck.quick:
            continue
        start = make(w, [ch])
        base2 = results(w, start)
        for ch2 in w.changes(first=ck.quick):
            if ch2[0] == ch[0] or selects(w, ch2):
                continue
            key = f'{name}/{ch[0]},{ch2[0]}'
            got = ck.case(key, pair, ck, w, [ch], ch2, base2)
            if got:
                ck.case(f'{name}/group/{ch[0]},{ch2[0]}', grouped, ck, w, by_digest, key, *got)


def grouped(ck, w, store, key, d, r):
    """Objects with the same digest have the same results."""
    if d not in store:
        store[d] = (key, r)
        return
    k0, r0 = store[d]
    diff = [k for k in r if k in r0 and not W.same(r[k], r0[k], 1e-9)]
    expect(not diff, 'shared', lambda: f'{k0} and {key} have the same digest but {diff[0]}: {short(r0[diff[0]])} and {short(r[diff[0]])}')


def bytes_alike(n=12):
    """Arrays of the same bytes in different shapes and types, and such that differ at the end only."""
    x = np.arange(1.0, n + 1)
    out = [x.reshape(n, 1), x.reshape(n // 2, 2), x.reshape(n // 4, 4), x.astype(np.float32).reshape(n, 1)]
    out += [np.zeros((n, 1)), np.zeros((n // 2, 2)), np.zeros((n, 2), np.float32), np.zeros((n, 1), np.complex64)]
    return out


def tails(n):
    x = np.ones((n, 1))
    out = [x]
    for k in (0, n // 2, n - 1):
        y = x.copy()
        y[k] = 2.0
        out.append(y)
    out.append(np.ones((n - 1, 1)))
    return out


def real(values):
    return [v for v in values if v.dtype.kind == 'f']


def stream(o):
    return np.concatenate([b.copy() for b in o.result(64)])


def hermitian(n, m):
    a = np.arange(1.0, n * m * m + 1).reshape(n, m, m)
    return a + 0j


def alike():
    """label: (object of a value, trait, values, results)"""
    ts = lambda c=1: ac.TimeSamples(data=np.arange(8.0 * c).reshape(8, c), sample_freq=1.0)  # noqa: E731
    mics = ac.MicGeom(pos_total=np.array([[0.0, 0.3, 0.1], [0.0, 0.0, 0.2], [0.0, 0.0, 0.0]]))
    chans = [[1, 11], [11, 1], [1, 1, 1], [111], [11], [1]]
    wide = np.arange(250.0).reshape(2, 125)
    return {
        'TimeSamples.data': (lambda v: ac.TimeSamples(data=v, sample_freq=1.0), 'data', real(bytes_alike()), stream),
        'TimeSamples.data/long': (lambda v: ac.TimeSamples(data=v, sample_freq=1.0), 'data', tails(9000), stream),
        'MaskedTimeSamples.data': (lambda v: ac.MaskedTimeSamples(data=v, sample_freq=1.0), 'data', real(bytes_alike()), stream),
        'MaskedTimeSamples.data/long': (lambda v: ac.MaskedTimeSamples(data=v, sample_freq=1.0), 'data', tails(4500), stream),
        'MaskedTimeSamples.invalid_channels': (lambda v: ac.MaskedTimeSamples(data=wide, sample_freq=1.0, invalid_channels=v), 'invalid_channels', chans, stream),
        'MicGeom.invalid_channels': (lambda v: ac.MicGeom(pos_total=np.arange(375.0).reshape(3, 125), invalid_channels=v), 'invalid_channels', chans, lambda o: o.pos),
        'MicGeom.pos_total': (lambda v: ac.MicGeom(pos_total=v), 'pos_total', [np.arange(6.0).reshape(3, 2), np.arange(6.0).reshape(2, 3).T.copy(), np.asfortranarray(np.arange(6.0).reshape(3, 2)), np.zeros((3, 1)), np.zeros((3, 2)), -np.arange(6.0).reshape(3, 2)], lambda o: o.pos),
        'ImportGrid.pos': (lambda v: ac.ImportGrid(pos=v), 'pos', [np.arange(6.0).reshape(3, 2), np.arange(6.0).reshape(2, 3).T.copy(), np.zeros((3, 1)), np.zeros((3, 2)), np.zeros((3, 4))], lambda o: o.pos),
        'PowerSpectraImport.csm': (lambda v: ac.PowerSpectraImport(csm=v, frequencies=np.arange(1.0, len(v) + 1)), 'csm', [hermitian(4, 2), hermitian(1, 4), hermitian(16, 1), np.zeros((4, 2, 2), complex), np.zeros((1, 4, 4), complex)], lambda o: o.csm),
        'PowerSpectraImport.csm/long': (lambda v: ac.PowerSpectraImport(csm=v, frequencies=np.arange(4500.0)), 'csm', [np.asarray(t, complex)[:, :, None] for t in tails(4500)[:-1]], lambda o: o.csm),
        'PowerSpectraImport.frequencies': (lambda v: ac.PowerSpectraImport(csm=hermitian(3, 2), frequencies=v), 'frequencies', [np.array((1.0, 23.0, 4.0)), np.array((12.0, 3.0, 4.0)), np.array((1.0, 2.0, 34.0)), np.array((1.0, 23.0, 4.0 + 1e-9))], lambda o: o.fftfreq()),
        'TimeConvolve.kernel': (lambda v: ac.TimeConvolve(source=ts(2), kernel=v), 'kernel', [np.arange(1.0, 7).reshape(6, 1), np.arange(1.0, 7).reshape(3, 2), np.zeros((2, 2)), np.zeros((4, 1))], stream),
        'PointSourceConvolve.kernel': (lambda v: ac.PointSourceConvolve(signal=ac.SineGenerator(sample_freq=100.0, num_samples=16, freq=10.0), mics=mics, loc=(0.1, 0.1, 0.5), kernel=v), 'kernel', [np.arange(1.0, 7).reshape(6, 1), np.arange(1.0, 7).reshape(2, 3), np.zeros((2, 3)), np.zeros((3, 1))], stream),
        'UncorrelatedNoiseSource.seed': (lambda v: ac.UncorrelatedNoiseSource(signal=ac.WNoiseGenerator(sample_freq=100.0, num_samples=16), mics=mics, seed=v), 'seed', [[1, 23, 4], [12, 3, 4], [1, 2, 34], [4, 23, 1]], stream),
        'LineSource.source_strength': (lambda v: ac.LineSource(signal=ac.SineGenerator(sample_freq=100.0, num_samples=16, freq=10.0), mics=mics, loc=(0.1, 0.1, 0.5), num_sources=2, source_strength=np.array(v)), 'source_strength', [[1.0, 23.0], [12.0, 3.0], [23.0, 1.0], [1.0, -23.0]], stream),
        'SphericalHarmonicSource.alpha': (lambda v: ac.SphericalHarmonicSource(signal=ac.SineGenerator(sample_freq=100.0, num_samples=16, freq=10.0), mics=mics, loc=(0.1, 0.1, 0.5), lOrder=1, alpha=np.array(v)), 'alpha', [[1.0, 0, 0, 0], [0, 0, 0, 1.0], [0, 1.0, 0, 0], [0, -1.0, 0, 0], [0, 1.0j, 0, 0]], stream),
        'Trajectory.points': (lambda v: ac.Trajectory(points=v), 'points', [{0.0: (1.0, 23.0, 4.0), 1.0: (0.0, 0.0, 0.0)}, {0.0: (12.0, 3.0, 4.0), 1.0: (0.0, 0.0, 0.0)}, {0.0: (0.0, 0.0, 0.0), 1.0: (1.0, 23.0, 4.0)}, {0.0: (1.0, 23.0, 4.0), 2.0: (0.0, 0.0, 0.0)}, {0.0: (1.0, 23.0, 4.0), 1.0: (0.0, 0.0, 0.0), 2.0: (0.0, 0.0, 0.0)}], lambda o: np.array(o.location(0.5))),
        'Mixer.sources': (lambda v: ac.Mixer(source=ts(), sources=v), 'sources', [[ts()], [ts(), ts()], [ac.TimePower(source=ts())], [ac.TimePower(source=ts()), ts()]], stream),
        'SourceMixer.weights': (lambda v: ac.SourceMixer(sources=[ts(), ac.TimePower(source=ts())], weights=np.array(v)), 'weights', [[1.0, 23.0], [12.0, 3.0], [23.0, 1.0], [-1.0, 23.0]], stream),
        'MergeGrid.grids': (lambda v: ac.MergeGrid(grids=v), 'grids', [[ac.ImportGrid(pos=np.array(q, float).T) for q in p] for p in ([[(0, 0, 1)], [(0, 1, 1)]], [[(0, 1, 1)], [(0, 0, 1)]], [[(0, 0, 1), (1, 1, 1)]], [[(0, 0, 1)]])], lambda o: o.pos),
        'PolySector.edges': (lambda v: ac.PolySector(edges=v), 'edges', [[0.0, 0, 1, 0, 0, 1], [0.0, 1, 0, 0, 1, 0], [0.0, 0, 1, 0, 0, 11], [0.0, 0, 10, 0, 0, 1]], lambda o: o.contains(np.mgrid[0:1:5j, 0:1:5j].reshape(2, -1))),
    }


def similar(ck, label):
    make_, attr, values, get = alike()[label]
    if 'digest' not in make_(values[0]).trait_names():
        return
    for i, j in itertools.permutations(range(len(values)), 2):
        a, b = make_(values[i]), make_(values[j])
        da, db = a.digest, b.digest
        ra, rb = get(a), get(b)
        differ = ra.shape != rb.shape or ra.dtype != rb.dtype or not np.array_equal(ra, rb)
        ck.step('similar', label, i, j, differ)
        ck.outcome('similar', label, i, j, da != db)
        if differ:
            expect(da != db, 'shared', lambda: f'{label}: {short(values[i])} and {short(values[j])} have the same digest')
            if label != 'PowerSpectraImport.csm':  # needs frequencies of the same number
                setattr(a, attr, values[j])
                expect(a.digest != da, 'unchanged', lambda: f'{label}: digest stays from {short(values[i])} to {short(values[j])}')


def either(ck, it):
    if it[0] == 'similar':
        ck.case('similar/' + it[1], similar, ck, it[1])
    else:
        one(ck, it)


def run(ck):
    ac.config.global_caching = 'none'
    items = []
    for w in W.worlds():
        if not has_digest(w):
            continue
        parts = 1 if w.depth < 2 and ck.quick else 4
        items += [(w.name, k, parts) for k in range(parts)]
    items += [('similar', k) for k in alike()]
    ck.parallel(either, items)
    ck.rule('every class with a digest: every setting (own, and of the objects it refers to, containers also in place) '
            'from the initial object and after every other single change; all objects with equal digests compared; '
            'all pairs of array and list values with the same bytes or digits, or that differ in one entry')
    ck.assume('Results that cannot be produced (exceptions) and differences below 1e-9 relative are not regarded as different.')
    ck.assume('The frequency range of spectra and the frequency and positions of a point spread function select a part of '
              'what the digest identifies.')
