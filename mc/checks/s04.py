"""S04: producing results changes nothing upstream, re-running reproduces the stream."""

import acoular as ac
import numpy as np

from mc import fd, purity, td, tdsources
from mc.core import expect


def gather(ck, tag, obj, num, run):
    out = []
    pos = 0
    for b in obj.result(num):
        out.append(np.array(b))
        pos += len(b)
        ck.step(tag, run, num, pos)
        expect(pos < 100000, 'endless', 'does not end')
    return np.concatenate(out) if out else np.zeros((0, 0))


def twice(ck, tag, make, pairs, datas):
    """make() -> object; datas: arrays that must not change."""
    for a, b in pairs:
        def one(a=a, b=b):
            obj = make()
            d0 = [x.copy() for x in datas()]
            s0 = purity.snapshot(obj)
            dg = getattr(obj, 'digest', None)
            first = gather(ck, tag, obj, a, 0)
            d1 = datas()
            for i, (p, q) in enumerate(zip(d0, d1)):
                expect(np.array_equal(p, q), 'data-changed', lambda: f'source {i}: {p.tolist()} became {q.tolist()}')
            s1 = purity.snapshot(obj)
            expect(s0 == s1, 'config-changed', lambda: purity.diff(s0, s1))
            second = gather(ck, tag, obj, b, 1)
            expect(purity.snapshot(obj) == s0, 'config-changed', lambda: purity.diff(s0, purity.snapshot(obj)))
            for p, q in zip(d0, datas()):
                expect(np.array_equal(p, q), 'data-changed', 'second run')
            expect(getattr(obj, 'digest', None) == dg, 'digest-changed', 'the digest changed by running')
            expect(first.shape == second.shape, 'rerun', f'second run has shape {second.shape}, first {first.shape}')
            expect(td.close(second, first, 1e-9), 'rerun', lambda: f'first {first.tolist()} second {second.tolist()}')
            if a == b:
                expect(np.array_equal(first, second), 'rerun-bits', 'not identical')
            ck.outcome(tag, first.round(6).tobytes())

        ck.case(f'{tag}/{a}-{b}', one)


def node_item(ck, it):
    node, n, c, mode = it
    nums = (1, 2, 3, n, n + 1) if ck.quick else range(1, n + 2)
    nums = sorted(set(nums))
    hold = {}

    def make():
        xs = [td.pattern(n + (node.lens or (0,) * node.nsrc)[i], c, i) for i in range(node.nsrc)]
        hold['s'] = [td.src(x, mode, tag=i) for i, x in enumerate(xs)]
        return node.make(hold['s'])

    twice(ck, f'{node.name}/c{c}/n{n}/{mode}', make, [(a, b) for a in nums for b in nums], lambda: [s.data for s in hold['s']])


def src_item(ck, ent):
    name, make, nums = ent
    nn = list(nums(ck.quick))
    sel = sorted({1, 2, 3, nn[-1]}) if ck.quick else nn
    twice(ck, name, make, [(a, b) for a in sel for b in sel], lambda: [])


SHARED = {
    'imported': lambda: (fd.imported(), 500.0),
    'computed': lambda: (fd.spectra(), 1000.0),
    'single': lambda: (fd.spectra(precision='complex64'), 1000.0),
}


def look(ps, st):
    """Everything the maps are computed from."""
    d = {'csm': ps.csm, 'eva': ps.eva, 'eve': ps.eve, 'fftfreq': ps.fftfreq(), 'rm': st.rm, 'r0': st.r0, 'pos': st.grid.pos, 'mpos': st.mics.pos}
    d['steer'] = st.steer_vector(1000.0)
    d['transfer'] = st.transfer(1000.0)
    if not isinstance(ps, ac.PowerSpectraImport):
        d['data'] = ps.source.data
    return {k: np.array(v) for k, v in d.items()}


def maps_item(ck, it):
    """Maps that share spectra and steering vectors."""
    world, a, st_type = it

    def values(name, ps, st, f):
        b = fd.beamformer(name, ps, st, cached=False)
        s0 = purity.snapshot(b)
        r = np.array(b.synthetic(f, 0)) if name != 'GridlessOrth' else np.array(b.result[2])
        t = np.array(b.synthetic(f, 0)) if name != 'GridlessOrth' else np.array(b.result[2])
        ck.step(world, st_type, a, name)
        expect(np.array_equal(r, t, equal_nan=True), 'rerun', lambda: f'{name}: {r.tolist()}, then {t.tolist()}')
        if name != 'GridlessOrth':  # makes its own grid
            expect(purity.snapshot(b) == s0, 'config-changed', lambda: f'{name}: {purity.diff(s0, purity.snapshot(b))}')
        return r

    def one(b):
        ps, f = SHARED[world]()
        want = values(b, ps, fd.steer(st=st_type), f)
        ps, f = SHARED[world]()
        st = fd.steer(st=st_type)
        before = look(ps, st)
        first = values(a, ps, st, f)
        after = look(ps, st)
        for k, v in before.items():
            expect(np.array_equal(v, after[k]), 'data-changed', lambda: f'{a} changes {k}: {v.tolist()} became {after[k].tolist()}')  # noqa: B023
        got = values(b, ps, st, f)
        expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, equal_nan=True), 'disturbed', lambda: f'{b} after {a}: {got.tolist()} instead of {want.tolist()}')
        again = values(a, ps, st, f)
        expect(np.array_equal(first, again, equal_nan=True), 'rerun-bits', lambda: f'{a} before and after {b}: {first.tolist()}, {again.tolist()}')
        ck.outcome(world, st_type, a, b, np.round(got, 9).tobytes())

    for b in fd.BEAMFORMERS:
        ck.case(f'maps/{world}/{st_type}/{a}-{b}', one, b)


def dispatch(ck, it):
    {'n': node_item, 's': src_item, 'm': maps_item}[it[0]](ck, it[1])


def run(ck):
    ck.rule(
        'every catalogue class and simulated source x lengths x channels x every ordered pair of block sizes: run, compare all configuration traits and data '
        'bytes reachable from the object with those before, run again, compare the streams; '
        'all ordered pairs of beamformers on the same spectra and steering vectors'
    )
    ac.config.global_caching = 'none'
    items = []
    for node in td.catalogue() + td.spectral():
        for c in node.chans[:1] if ck.quick else node.chans:
            for n in (max(node.minlen, 7),) if ck.quick else (node.minlen, max(node.minlen, 7), node.minlen + 5):
                for mode in ('view', 'fresh') if not ck.quick else ('view',):
                    items.append(('n', (node, n, c if not ck.quick else node.chans[min(1, len(node.chans) - 1)], mode)))
    items += [('s', e) for e in tdsources.sources() if not ck.quick or e[0].endswith(('n2', 'n5'))]
    types = ('true level',) if ck.quick else ('true level', 'classic', 'inverse', 'true location')
    items += [('m', (w, a, t)) for w in (('imported', 'computed') if ck.quick else SHARED) for a in fd.BEAMFORMERS for t in types]
    ck.parallel(dispatch, items)
