"""B04: point spread functions do not depend on calculation mode or query order."""

import itertools

import acoular as ac
import numpy as np

from mc import cachekit, fd
from mc.checks.b02 import TYPES, Custom, psf, steering, transfer
from mc.core import expect

IND = {'all': [], '0': [0], '2,0': [2, 0], '1,1': [1, 1], '-1': [-1], '3,4,5': [3, 4, 5]}
HZ = (800.0, 0.0, 8000.5)
MODES = ('single', 'block', 'full')


class Closed:
    """The closed form for every frequency and steering vector type."""

    def __init__(self):
        self.store = {}

    def __call__(self, t, f):
        if (t, f) not in self.store:
            s = fd.steer(4, t)
            a = transfer(s.grid.pos, s.mics.pos, 2 * np.pi * f / 343.0, None)
            self.store[t, f] = psf(a, steering(a, t))
        return self.store[t, f]


def ask(ck, p, closed, t, f, q, tol, what):
    p.freq = f
    p.grid_indices = np.array(IND[q])
    got = np.array(p.psf)
    want = closed(t, f)
    ind = np.array(IND[q] if IND[q] else range(want.shape[0]))
    want = want[:, ind]
    ck.step(t, f, q, what)
    ck.outcome(got.tobytes())
    expect(got.shape == want.shape, 'shape', lambda: f'{got.shape} instead of {want.shape}')
    expect(got.dtype == p.precision, 'type', lambda: f'{got.dtype} instead of {p.precision}')
    expect(np.allclose(got, want, rtol=tol * (1 + f / 1000), atol=tol * want.max() * (1 + f / 1000)), 'psf',
           lambda: f'{f} Hz, points {q}: {got[:, 0]} instead of {want[:, 0]}')


def build(cls, t, mode, prec):
    return ac.fbeamform.PointSpreadFunction(steer=cls(grid=fd.grid(), mics=fd.mics(4), steer_type=t), calcmode=mode, precision=prec)


def history(ck, closed, t, seq, mode, prec, cls, cache, again):
    """seq of (frequency, indices[, new calculation mode])"""

    def run():
        p = build(cls, t, mode, prec)
        for s in seq:
            if len(s) > 2:
                p.calcmode = s[2]
            ask(ck, p, closed, t, s[0], s[1], 2e-5, (mode, prec, cls.__name__, cache, again))

    if cache == 'none':
        run()
        return
    lib, cmode = cache.split('-')
    with cachekit.env(lib, cmode):
        run()
        if again:
            run()


def stored(ck, closed, t, first, second):
    """The mode that only reads what has been calculated."""
    with cachekit.env('tables', 'all'):
        p = build(ac.SteeringVector, t, 'single', 'float64')
        ask(ck, p, closed, t, 800.0, first, 2e-5, 'stored')
        r = build(ac.SteeringVector, t, 'readonly', 'float64')
        n = 6
        have = set(np.arange(n)[IND[first]]) if IND[first] else set(range(n))
        need = set(np.arange(n)[IND[second]]) if IND[second] else set(range(n))
        try:
            ask(ck, r, closed, t, 800.0, second, 2e-5, 'readonly')
        except ValueError:
            expect(not need <= have, 'refused', lambda: f'{second} after {first}')
        else:
            expect(need <= have, 'calculated', lambda: f'{second} after {first} in the mode readonly')
        # nothing is damaged by a refusal
        p2 = build(ac.SteeringVector, t, 'block', 'float64')
        ask(ck, p2, closed, t, 800.0, 'all', 2e-5, 'after')


def one(ck, it):
    t, cache, part, parts = it
    closed = Closed()
    acts = list(itertools.product(HZ[:2] if ck.quick else HZ, IND))
    n = 0
    depth = 2 if ck.quick else 3
    for mode, prec, cls in itertools.product(MODES, ('float64', 'float32'), (ac.SteeringVector, Custom)):
        plain = prec == 'float64' and cls is ac.SteeringVector
        for d in range(1, (depth if plain or not ck.quick and cache == 'none' else 1) + 1):
            if cache != 'none' and ck.quick and not plain:
                continue
            for seq in itertools.product(acts, repeat=d):
                n += 1
                if n % parts != part:
                    continue
                key = f'{t}/{cache}/{mode}/{prec}/{cls.__name__}/' + ';'.join(f'{f:g}:{q}' for f, q in seq)
                ck.case(key, history, ck, closed, t, seq, mode, prec, cls, cache, d < 2 or not ck.quick)
    # the mode of calculation changed in between
    for m1, m2 in itertools.permutations(MODES, 2):
        for q1, q2 in itertools.product(IND, repeat=2):
            n += 1
            if n % parts == part:
                seq = ((800.0, q1), (800.0, q2, m2), (800.0, 'all'))
                ck.case(f'{t}/{cache}/{m1}-{m2}/{q1};{q2}', history, ck, closed, t, seq, m1, 'float64', ac.SteeringVector, cache, False)
    if cache == 'none':
        for q1, q2 in itertools.product(IND, repeat=2):
            n += 1
            if n % parts == part:
                ck.case(f'{t}/readonly/{q1};{q2}', stored, ck, closed, t, q1, q2)
        if part == 0:
            for f in (1.0, 100.0, 333.3, 1000.0, 2500.0, 5000.0):
                for mode in MODES:
                    ck.case(f'{t}/freq/{mode}/{f}', history, ck, closed, t, ((f, 'all'),), mode, 'float64', ac.SteeringVector, 'none', False)


def run(ck):
    ac.config.global_caching = 'none'
    caches = ['none', 'tables-all'] if ck.quick else ['none', 'tables-all', 'h5py-all', 'tables-readonly', 'tables-overwrite', 'tables-individual']
    items = [(t, c, k, 4) for t in TYPES for c in caches for k in range(4)]
    ck.parallel(one, items)
    ck.rule('steering vector types x calculation modes x precisions x own and derived steering vector class: all sequences of up to 2 (thorough 3) '
            'queries of six sets of source points at two (three) frequencies, without cache, with a cache and with a cache filled before; changes of the mode; the read-only mode')
