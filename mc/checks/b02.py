"""B02: conventional beamformers match their formulas for every steering vector type."""

import itertools
import warnings

import acoular as ac
import numpy as np
from scipy.optimize import nnls

from mc import fd
from mc.core import expect

TYPES = ('true level', 'true location', 'classic', 'inverse')
FREQ = np.array([0.0, 300.0, 700.0, 1500.0])
PHASE = 2e-5  # phases are calculated in single precision


class Custom(ac.SteeringVector):
    """Not the class itself: the general way of calculation."""


def transfer(pos, mpos, k, ref, bent=False):
    rm = np.linalg.norm(pos[:, :, None] - mpos[:, None, :], axis=0)
    r0 = np.linalg.norm(pos, axis=0) if ref is None else np.linalg.norm(pos - np.array(ref)[:, None], axis=0) if np.ndim(ref) else np.full(pos.shape[1], ref)
    return np.exp(-1j * k * (rm - r0[:, None])) * r0[:, None] / rm


def steering(a, t):
    m = a.shape[1]
    n2 = (np.abs(a) ** 2).sum(1)[:, None]
    return {
        'true level': a / n2,
        'true location': a / np.sqrt(n2) / np.sqrt(m),
        'classic': a / np.abs(a) / m,
        'inverse': a / np.abs(a) ** 2 / m,
    }[t]


def quad(h, c):
    return np.einsum('gi,ij,gj->g', h.conj(), c, h).real


def nodiag(c):
    return c - np.diag(np.diag(c))


def das(h, c, diag, norm):
    if not diag:
        return quad(h, c)
    n = c.shape[0] / (c.shape[0] - 1) if norm == 0 else norm
    return n * quad(h, nodiag(c))


def pos_only(x):
    return np.where(x > 0, x, 0)


def eig(c):
    return np.linalg.eigh(c)


def psf(a, h):
    """Response of point g to a source of unit level at point s."""
    return np.abs(h.conj() @ a.T) ** 2


# -- the maps ----------------------------------------------------------------------------------


def base(c, a, h, p):
    y = das(h, c, p['diag'], p['norm'])
    return pos_only(y) if p['diag'] else y


def functional(c, a, h, p):
    e, v = eig(c)
    e = np.maximum(e, 0)
    root = (v * e ** (1 / p['gamma'])) @ v.conj().T
    n = (np.abs(h) ** 2).sum(1)
    return (quad(h, root) / n) ** p['gamma'] * n


def capon(c, a, h, p):
    m = c.shape[0]
    return 1 / (quad(h, np.linalg.inv(c)) * m**2)


def component(c, n):
    e, v = eig(c)
    m = c.shape[0]
    n = min(m - 1, max(m + n, 0) if n < 0 else n)
    return e[n] * np.outer(v[:, n], v[:, n].conj())


def eigen(c, a, h, p):
    y = das(h, component(c, p['n']), p['diag'], p['norm'])
    return pos_only(y) if p['diag'] else y


def music(c, a, h, p):
    e, v = eig(c)
    m = c.shape[0]
    k = m - min(m - 1, p['n'] if p['n'] >= 0 else max(m + p['n'], 0))
    noise = (v[:, :k] * e[:k]) @ v[:, :k].conj().T
    y = quad(h, noise) * m**2
    return 4e-10 * y.min() / y


def orth(c, a, h, p):
    e, v = eig(c)
    out = np.zeros(len(h))
    for n in p['list']:
        y = das(h, np.outer(v[:, n], v[:, n].conj()), p['diag'], p['norm'])
        s = np.sort(y)
        if len(s) > 1 and s[-1] - s[-2] < 1e-9 * abs(s[-1]):
            return None
        out[y.argmax()] += e[n] / c.shape[0]
    return out


def damas(c, a, h, p):
    y = base(c, a, h, p)
    A = psf(a, h)
    x = y.copy()
    for _ in range(p['n_iter']):
        for g in range(len(x)):
            r = y[g] - A[g] @ x + A[g, g] * x[g]
            x[g] = max(0.0, (1 - p['damp']) * x[g] + p['damp'] * r)
    return x


def damas_plus(c, a, h, p):
    return nnls(psf(a, h), base(c, a, h, p) * 1e9)[0] / 1e9


def clean(c, a, h, p):
    dirty = base(c, a, h, p)
    A = psf(a, h)
    out = np.zeros_like(dirty)
    for _ in range(p['n_iter']):
        s = np.sort(dirty)
        if len(s) > 1 and s[-1] - s[-2] < 1e-9 * max(abs(s[-1]), 1e-30) and s[-1] > 0:
            return None
        g = dirty.argmax()
        amp = p['damp'] * dirty[g]
        out[g] += amp
        new = dirty - amp * A[:, g]
        if not np.abs(dirty).sum() > np.abs(new).sum() or not new.max() > 0:
            break
        dirty = new
    return out


def cleansc(c, a, h, p):
    m = c.shape[0]
    norm = (m / (m - 1) if p['norm'] == 0 else p['norm']) if p['diag'] else 1.0
    y = das(h, c, p['diag'], p['norm'])
    c = c.copy()
    out = np.zeros(len(h))
    powers = []
    for j in range(p['n_iter'] or 2 * m):
        s = np.sort(y)
        if len(s) > 1 and s[-1] - s[-2] < 1e-9 * abs(s[-1]):
            return None
        g = y.argmax()
        powers.append(y[g])
        if not y[g] > 0:
            break
        out[g] += p['damp'] * y[g]
        if j > p['stopn'] and y[g] > powers[j - p['stopn']]:
            break
        w = h[g] * np.sqrt(norm)
        coh = w
        d = nodiag(c) @ w / y[g]
        for _ in range(20):
            H = np.abs(coh) ** 2
            coh = (d + H * w) / np.sqrt(1 + (np.abs(w) ** 2) @ H)
        src = y[g] * np.outer(coh, coh.conj())
        part = das(h, src, p['diag'], p['norm'])
        y = y - p['damp'] * part
        c = c - p['damp'] * src
    return out


SINGLE = 2e-6  # CLEAN-SC adds its result in single precision


def menu(quick):
    """[(name, class, traits, formula, parameters, tolerance)]"""
    out = []
    D = [dict(r_diag=d, r_diag_norm=n) for d, n in ((False, 0.0), (True, 0.0), (True, 2.0))]

    def p(t):
        return dict(diag=t.get('r_diag', False), norm=t.get('r_diag_norm', 0.0))

    for t in D:
        out.append(('base', ac.BeamformerBase, t, base, p(t), 1e-9))
        for n in (-1, -2, 0, 1, 7, -9):
            out.append((f'eig{n}', ac.BeamformerEig, {**t, 'n': n}, eigen, {**p(t), 'n': n}, 1e-7))
        for ev in ((-1,), (-1, -2), (0, 1), (-1, -1)):
            out.append((f'orth{ev}', ac.BeamformerOrth, {**t, 'eva_list': np.array(ev)}, orth, {**p(t), 'list': ev}, 1e-8))
        for n, d in ((1, 1.0), (4, 1.0), (3, 0.5)):
            out.append((f'damas{n},{d}', ac.BeamformerDamas, {**t, 'n_iter': n, 'damp': d}, damas, {**p(t), 'n_iter': n, 'damp': d}, 1e-7))
        out.append(('damas+', ac.BeamformerDamasPlus, t, damas_plus, p(t), 1e-6))
        for n, d in ((1, 0.6), (6, 0.6), (3, 1.0)):
            out.append((f'clean{n},{d}', ac.BeamformerClean, {**t, 'n_iter': n, 'damp': d}, clean, {**p(t), 'n_iter': n, 'damp': d}, 1e-7))
        for n, d, s in ((1, 0.6, 3), (0, 0.6, 3), (6, 1.0, 1), (3, 0.3, 0)):
            out.append(
                (f'cleansc{n},{d},{s}', ac.BeamformerCleansc, {**t, 'n_iter': n, 'damp': d, 'stopn': s}, cleansc,
                 {**p(t), 'n_iter': n, 'damp': d, 'stopn': s}, 1e-5)
            )
    for g in (1, 2, 5):
        out.append((f'functional{g}', ac.BeamformerFunctional, {'gamma': g}, functional, {'gamma': g}, 1e-7))
    out.append(('capon', ac.BeamformerCapon, {}, capon, {}, 1e-7))
    for n in (0, 1, 2, 9, -1, -2, -9):
        out.append((f'music{n}', ac.BeamformerMusic, {'n': n}, music, {'n': n}, 1e-6))
    return out


def scenes(quick):
    """{label: (grid, mics, invalid, ref, speed of sound)}"""
    flat = fd.grid()
    near = fd.grid(z=0.25, increment=0.1)
    cube = ac.RectGrid3D(x_min=-0.1, x_max=0.1, y_min=-0.1, y_max=0.1, z_min=0.3, z_max=0.5, increment=0.2)
    free = ac.ImportGrid(pos=np.array([[0.1, -0.3, 0.25], [0.2, 0.1, -0.4], [0.6, 0.5, 0.7]]))
    one = ac.ImportGrid(pos=np.array([[0.1], [0.2], [0.6]]))
    out = {
        'flat-3': (flat, 3, (), None, 343.0),
        'near-4': (near, 4, (), 1.0, 343.0),
        'flat-masked': (flat, 4, (1,), None, 343.0),
        'cube-3-refpos': (cube, 3, (), (0.1, 0.0, -0.2), 300.0),
        'free-2': (free, 2, (), None, 343.0),
        'one-3': (one, 3, (), None, 343.0),
    }
    if not quick:
        out['flat-4'] = (flat, 4, (), None, 343.0)
        out['flat-masked2'] = (flat, 4, (0, 2), 0.7, 343.0)
        out['near-3'] = (near, 3, (), None, 340.0)
    return out


def matrices(m, quick):
    out = {'full': fd.signals_csm(len(FREQ), m, 1), 'noise': np.repeat(np.diag(1.0 + np.arange(m))[None] + 0j, len(FREQ), 0) * 1e-3}
    d = np.arange(m)
    v = np.exp(1j * 0.7 * d)[None] * (1 + 0.2 * d) * (1 + np.arange(len(FREQ)))[:, None]
    out['source'] = v[:, :, None] * v[:, None, :].conj() * 1e-3 + 1e-6 * np.eye(m) * (1 + 0.1 * d)
    return out


def one(ck, it):
    scene, t = it
    grid, m, invalid, ref, c = scenes(False)[scene]
    mics = fd.mics(m, invalid=invalid)
    n = mics.num_mics
    env = ac.Environment(c=c)
    kw = {} if ref is None else {'ref': ref}
    a = {f: transfer(grid.pos, mics.pos, 2 * np.pi * f / c, ref) for f in FREQ}
    h = {f: steering(a[f], t) for f in FREQ}
    for cls in (ac.SteeringVector, Custom):
        steer = cls(grid=grid, mics=mics, steer_type=t, env=env, **kw)
        ck.case(f'{scene}/{t}/{cls.__name__}/steer', vectors, ck, steer, a, h)
        for label, csm in matrices(n, ck.quick).items():
            ps = ac.PowerSpectraImport(csm=csm, frequencies=FREQ)
            for x in menu(ck.quick):
                if scene == 'one-3' and x[0].startswith('cleansc') and x[3] != 1 and x[4].get('n_iter') != 1 or label == 'noise' and x[0].startswith(('eig', 'orth', 'cleansc')) or label != 'full' and x[0].startswith('music'):
                    continue  # arbitrary eigenvectors, ambiguous maxima
                key = f'{scene}/{t}/{cls.__name__}/{label}/{x[0]}/{x[2].get("r_diag")}{x[2].get("r_diag_norm", "")}'
                ck.case(key, compare, ck, steer, ps, x, a, h)


def vectors(ck, steer, a, h):
    for f in FREQ:
        for got, want, what in ((steer.transfer(f), a[f], 'transfer'), (steer.steer_vector(f), h[f], 'steer_vector')):
            expect(np.allclose(got, want, rtol=PHASE), what, lambda: f'{f} Hz: {got[0]} instead of {want[0]}')
            for i in range(len(want)):
                expect(np.allclose(getattr(steer, what)(f, i), want[i], rtol=PHASE), what, f'of point {i} alone')
            idx = np.arange(len(want))[::-2]
            expect(np.allclose(getattr(steer, what)(f, idx), want[idx], rtol=PHASE), what, f'of points {idx}')
        ck.step('vectors', f, a[f].tobytes())
        ck.outcome('vectors', h[f].tobytes())


def compare(ck, steer, ps, x, a, h):
    name, cls, traits, formula, par, tol = x
    traits = {k: v for k, v in traits.items()}
    bf = cls(freq_data=ps, steer=steer, **traits)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = np.array(bf.result[:])
    for i, f in enumerate(FREQ):
        want = formula(np.array(ps.csm[i]), a[f], h[f], par)
        ck.step(name, i, got[i].tobytes())
        if want is None:
            continue
        # at zero frequency some maps are sums that cancel
        s = max(np.abs(want).max(), np.abs(ps.csm[i]).max() * 1e-6)
        ck.outcome(name, got[i].tobytes())
        if name == 'damas+':  # not unique when the matrix is nearly singular: the misfit has to be the least
            A, y = psf(a[f], h[f]), base(np.array(ps.csm[i]), a[f], h[f], par)
            r, r0 = (np.linalg.norm(A @ q - y) for q in (got[i], want))
            expect(got[i].min() >= 0 and r <= r0 * 1.01 + PHASE * np.linalg.norm(y), 'map', lambda: f'{name} {f} Hz: misfit {r} instead of {r0}')
            continue
        expect(np.abs(got[i] - want).max() <= max(tol, PHASE) * s, 'map', lambda: f'{name} {f} Hz: {got[i]} instead of {want}')


def total(ck, t, diag, m):
    """All components together are the delay-and-sum map."""
    steer = fd.steer(m, t)
    ps = fd.imported(1, 4, m, freqs=FREQ)
    base_ = np.array(ac.BeamformerBase(freq_data=ps, steer=steer, r_diag=diag).result[:])
    clip = []
    for n in range(m):
        clip.append(np.array(ac.BeamformerEig(freq_data=ps, steer=steer, r_diag=False, n=n).result[:]))
    ck.step('total', t, diag, m)
    if not diag:
        expect(np.allclose(sum(clip), base_, rtol=1e-8), 'total', lambda: f'{sum(clip)} instead of {base_}')
    ck.outcome('total', t, m, base_.tobytes())


def run(ck):
    ac.config.global_caching = 'none'
    for t, m in itertools.product(TYPES, (2, 3, 4)):
        ck.case(f'total/{t}/{m}', total, ck, t, False, m)
    items = list(itertools.product(scenes(ck.quick), TYPES))
    ck.parallel(one, items)
    ck.rule('all steering vector types x own and derived steering vector class x 6-9 arrangements of grid, microphones (also masked), reference and '
            'speed of sound x 3 kinds of matrices x 4 frequencies x delay-and-sum, functional, Capon, eigenvalue, MUSIC, orthogonal, DAMAS, NNLS, CLEAN and CLEAN-SC '
            'with their parameters, with the diagonal, without it and with own normalisation')
    ck.assume('MUSIC weights the noise components with their eigenvalues, as the library defines it.')
    ck.assume('Where two grid points have equal maxima, the choice of orthogonal beamforming and CLEAN methods is not compared.')
