"""B03: beamformers treat microphones, grid points and frequencies consistently."""

import itertools
import warnings

import acoular as ac
import numpy as np

from mc import fd
from mc.core import expect

M = 4
FREQ = np.array([200.0, 400.0, 900.0, 1500.0])

# deconvolution by iteration amplifies rounding
TOL = {'SODIX': 1e-3, 'CMF': 1e-4, 'DamasPlus': 1e-5, 'GIB': 1e-4, 'Cleansc': 1e-5, 'Clean': 1e-6, 'Damas': 1e-6, 'GridlessOrth': 1e-4}
# the order of the grid points takes part in the method
ORDERED = ('Damas', 'GridlessOrth', 'GIB')

# these deliver powers by definition
POWERS = ('Damas', 'DamasPlus', 'Orth', 'Cleansc', 'Clean', 'CMF', 'SODIX', 'GIB', 'GridlessOrth')

POS = np.array([[-0.3, 0.3, 0.05, -0.13], [0.25, -0.2, 0.31, -0.35], [0.0, 0.02, 0.05, -0.01]])
GP = np.array([[-0.2, 0.0, 0.21, -0.2, 0.02, 0.2], [-0.1, -0.13, -0.1, 0.1, 0.13, 0.1], [0.5, 0.52, 0.5, 0.45, 0.5, 0.55]])


def csm(n=M, salt=1):
    return fd.signals_csm(len(FREQ), n, salt)


def result(name, c, pos, invalid=(), gp=GP, st='true level', freqs=FREQ, **kw):
    g = ac.ImportGrid(pos=gp)
    if name == 'GridlessOrth':
        g = fd.grid()
    steer = ac.SteeringVector(grid=g, mics=fd.mics(pos=pos, invalid=invalid), steer_type=st)
    bf = fd.beamformer(name, ac.PowerSpectraImport(csm=c, frequencies=freqs), steer)
    bf.trait_set(**kw)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return np.array(bf.result[:])


def compare(name, got, want, sym, text):
    tol = TOL.get(name, 1e-8)
    s = np.abs(want).max(1, keepdims=True)
    bad = ~(np.abs(got - want) <= tol * s)
    if bad.any():
        i = np.argwhere(bad)[0][0]
        expect(False, sym, lambda: f'{name} {text}, frequency {i}: {got[i]} instead of {want[i]}')


def sodix_mics(name, want, perm):
    if name != 'SODIX':
        return want
    return want.reshape(len(want), -1, len(perm))[:, :, list(perm)].reshape(want.shape)


def renumber(ck, name, perm, base, diag, st):
    p = list(perm)
    got = result(name, csm()[:, p][:, :, p], POS[:, p], st=st, **diag)
    ck.step(name, perm, str(diag), st)
    ck.outcome(name, got.tobytes())
    compare(name, got, sodix_mics(name, base, perm), 'microphones', f'microphones renumbered {perm}')


def exclude(ck, name, out, diag):
    keep = [i for i in range(M) if i not in out]
    c = csm()[:, keep][:, :, keep]
    a = result(name, c, POS, invalid=out, **diag)
    b = result(name, c, POS[:, keep], **diag)
    ck.step(name, out, str(diag))
    ck.outcome(name, a.tobytes())
    compare(name, a, b, 'invalid', f'microphones {out} marked invalid instead of removed')


def points(ck, name, perm, base, diag):
    p = list(perm)
    got = result(name, csm(), POS, gp=GP[:, p], **diag)
    ck.step(name, perm, 'grid', str(diag))
    ck.outcome(name, got.tobytes())
    want = base.reshape(len(FREQ), GP.shape[1], -1)[:, p].reshape(base.shape)
    compare(name, got, want, 'points', f'grid points renumbered {perm}')


def subset(ck, name, sub, base, diag):
    """The value at a point does not depend on the other points."""
    got = result(name, csm(), POS, gp=GP[:, list(sub)], **diag)
    ck.step(name, sub, 'subset', str(diag))
    ck.outcome(name, got.tobytes())
    compare(name, got, base[:, list(sub)], 'points', f'only grid points {sub}')


def lines(ck, name, sub, base, diag):
    s = list(sub)
    got = result(name, csm()[s], POS, freqs=FREQ[s], **diag)
    ck.step(name, sub, 'lines', str(diag))
    ck.outcome(name, got.tobytes())
    compare(name, got, base[s], 'frequencies', f'only frequencies {sub}')


def scaled(ck, name, factor, base, diag):
    got = result(name, csm() * factor, POS, **diag)
    ck.step(name, factor, 'scaled', str(diag))
    if name == 'Music':
        want = base
    else:
        want = base * factor
    compare(name, got, want, 'scale', f'matrix times {factor}')


SILENT = {
    'zero': lambda: np.zeros((len(FREQ), M, M), complex),
    'source': lambda: one_source(0.0),
    'source-noise': lambda: one_source(1e-9),
    'incoherent': lambda: np.repeat(np.diag([1.0, 1.1, 1.2, 1.3])[None] + 0j, len(FREQ), 0) * 1e-4,
    'tiny': lambda: csm() * 1e-12,
    'large': lambda: csm() * 1e6,
    'one-silent-mic': lambda: silent_mic(),
    'full': csm,
}


def one_source(noise):
    v = np.exp(1j * np.outer(np.arange(1, len(FREQ) + 1), [0.3, 0.1, -0.7, 0.4])) * [1, 0.9, 1.1, 1.2] * 0.01
    return v[:, :, None] * v[:, None, :].conj() + noise * np.eye(M)


def silent_mic():
    c = csm()
    c[:, 2] = 0
    c[:, :, 2] = 0
    return c


def admissible(name, label):
    """The inverse of a singular matrix does not exist."""
    return not (name in ('Capon', 'Music') and label in ('zero', 'source', 'one-silent-mic'))


def powers(ck, name, label, diag, extra):
    r = result(name, SILENT[label](), POS, **diag, **extra)
    ck.step(name, label, str(diag), str(extra))
    ck.outcome(name, label, r.tobytes())
    expect(np.isfinite(r).all(), 'not-finite', lambda: f'{name} {label}: {r[~np.isfinite(r).all(1)][0]}')
    if name in POWERS or diag.get('r_diag', True):
        expect((r >= 0).all(), 'negative', lambda: f'{name} {label}: {r[(r < 0).any(1)][0]}')


METHODS = {
    'DamasPlus': [{'method': m} for m in ('NNLS', 'LassoLars')],
    'CMF': [{'method': m} for m in ('NNLS', 'LassoLars', 'LassoLarsBIC', 'fmin_l_bfgs_b')],
}


def diags(name):
    if name in fd.FIXED_DIAG:
        return [{}]
    return [{'r_diag': True}, {'r_diag': False}]


def one(ck, it):
    name, what = it
    for d in diags(name):
        dl = str(d.get('r_diag', ''))
        if what == 'mics':
            for st in ('true level', 'true location', 'classic', 'inverse') if not ck.quick else ('true level', 'classic'):
                base = result(name, csm(), POS, st=st, **d)
                for perm in list(itertools.permutations(range(M)))[1 :: 5 if ck.quick and name in ('GridlessOrth', 'CMF') else 1]:
                    ck.case(f'{name}/{dl}/mics/{st}/{"".join(map(str, perm))}', renumber, ck, name, perm, base, d, st)
        elif what == 'rest':
            base = result(name, csm(), POS, **d)
            for n in (1, 2):
                for out in itertools.combinations(range(M), n):
                    if name in ('Music', 'GIB') and n > 1:
                        continue
                    ck.case(f'{name}/{dl}/invalid/{"".join(map(str, out))}', exclude, ck, name, out, d)
            if name != 'SODIX' and name != 'GridlessOrth':
                for s in itertools.combinations(range(len(FREQ)), 2):
                    ck.case(f'{name}/{dl}/lines/{"".join(map(str, s))}', lines, ck, name, s, base, d)
                    ck.case(f'{name}/{dl}/lines/{"".join(map(str, (s[0],)))}', lines, ck, name, s[:1], base, d)
            if name in ('Base', 'Eig', 'Functional', 'Capon'):
                for n in (1, 2, 3):
                    for s in itertools.permutations(range(6), n):
                        ck.case(f'{name}/{dl}/subset/{"".join(map(str, s))}', subset, ck, name, s, base, d)
            if name in ('Base', 'Eig', 'Functional', 'Capon', 'Music', 'Orth', 'Cleansc', 'Clean', 'Damas'):
                for f in (0.25, 2.0, 1e4):
                    ck.case(f'{name}/{dl}/scale/{f}', scaled, ck, name, f, base, d)
            if name not in ORDERED:
                perms = list(itertools.permutations(range(6)))
                for perm in perms[1 :: 17 if ck.quick else 1]:
                    ck.case(f'{name}/{dl}/points/{"".join(map(str, perm))}', points, ck, name, perm, base, d)
        else:
            for label in SILENT:
                if not admissible(name, label):
                    continue
                for extra in METHODS.get(name, [{}]):
                    ck.case(f'{name}/{dl}/powers/{label}/{extra.get("method", "")}', powers, ck, name, label, d, extra)


def run(ck):
    ac.config.global_caching = 'none'
    slow = ('GridlessOrth', 'CMF', 'SODIX', 'GIB')
    items = sorted(((b, w) for b in fd.BEAMFORMERS for w in ('mics', 'rest', 'powers')), key=lambda x: x[0] not in slow)
    ck.parallel(one, items)
    ck.rule('every frequency-domain beamformer, with and without diagonal: all 24 orders of four microphones, all exclusions of one or two, '
            'orders of six grid points (quick: every 17th), subsets of points and frequencies, levels; silent, rank-one, incoherent and very small or large matrices')
    ck.assume('Methods whose result depends on the order of the points by definition (Gauss-Seidel DAMAS, GIB, gridless search) are not renumbered.')
    ck.assume('Capon and MUSIC need a regular matrix.')
