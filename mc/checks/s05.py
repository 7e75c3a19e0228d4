"""S05: results do not depend on how upstream manages its block memory."""

import acoular as ac
import numpy as np
from acoular.base import SamplesGenerator
from traits.api import Delegate, Instance, Property, Str

from mc import td, tdsources
from mc.core import expect


class Hostile(SamplesGenerator):
    """Hands over what it gets in one buffer that is scribbled over before the next block."""

    source = Instance(SamplesGenerator)
    mode = Str
    sample_freq = Delegate('source')
    num_channels = Delegate('source')
    num_samples = Delegate('source')
    digest = Property(depends_on=['source.digest'])

    def _get_digest(self):
        return 'h' + self.source.digest

    def result(self, num):
        buf = None
        for b in self.source.result(num):
            if self.mode == 'frozen':
                b = np.array(b)
                b.flags.writeable = False
                yield b
                continue
            if buf is None or buf.shape[1] != b.shape[1] or buf.shape[0] < len(b):
                buf = np.empty((max(num, len(b)), b.shape[1]), b.dtype)
            buf[...] = -777.25
            buf[: len(b)] = b
            yield buf[: len(b)]
        if buf is not None:
            buf[...] = -999.5


def gather(ck, tag, obj, num):
    out = []
    pos = 0
    for b in obj.result(num):
        out.append(np.array(b))
        pos += len(b)
        ck.step(tag, num, pos)
        expect(pos < 100000, 'endless', 'does not end')
    return out


def same(a, b, what):
    expect([x.shape for x in a] == [x.shape for x in b], 'shape', lambda: f'{what}: {[x.shape for x in a]} instead of {[x.shape for x in b]}')
    for i, (x, y) in enumerate(zip(a, b)):
        expect(td.close(x, y, 1e-9), 'value', lambda: f'{what}: block {i} is {x.tolist()} instead of {y.tolist()}')


def mode_item(ck, it):
    node, n, c = it
    for num in range(1, n + 2):
        def one(num=num):
            ref = None
            for mode in ('fresh', 'view', 'reuse', 'frozen', 'scribbled-view'):
                xs = [td.pattern(n + (node.lens or (0,) * node.nsrc)[i], c, i) for i in range(node.nsrc)]
                ss = [td.src(x, mode if mode in ('fresh', 'view', 'reuse') else 'view', tag=i) for i, x in enumerate(xs)]
                if mode in ('frozen', 'scribbled-view'):
                    ss = [Hostile(source=s, mode=mode) for s in ss]
                out = gather(ck, f'{node.name}{n}{c}{mode}', node.make(ss), num)
                if ref is None:
                    ref = out
                    if node.ref is not None:
                        w = node.ref(xs)
                        expect(td.close(td.cat(out, w.shape[1]), w, node.tol), 'value', 'fresh blocks')
                else:
                    same(out, ref, mode)
                ck.outcome(node.name, td.cat(out, c).round(6).tobytes())

        ck.case(f'mode/{node.name}/c{c}/n{n}/num{num}', one)


def outcome_of(fn):
    try:
        return ('ok', fn())
    except Exception as e:  # noqa: BLE001
        return ('raises', type(e))


def chain_item(ck, it):
    """A feeds B directly; the reference is B on stored copies of what A yields."""
    namea, makea, b, n, nums = it
    a0 = makea()
    blocks = [np.array(x) for x in a0.result(3)]
    if not blocks:
        return
    data = np.concatenate(blocks)
    if data.dtype.kind == 'c' or data.shape[1] not in b.chans and data.shape[1] > 4 or len(data) < b.minlen:
        return
    if b.chans == (1,) and data.shape[1] != 1 or (b.name.startswith('Spatial') and data.shape[1] not in b.chans):
        return
    for num in nums:
        def one(num=num):
            other = lambda: [td.src(td.pattern(len(data), data.shape[1], 9), 'reuse', fs=a0.sample_freq, tag=9) for _ in range(b.nsrc - 1)]  # noqa: E731

            def ref():
                return gather(ck, f'ref{namea}>{b.name}', b.make([td.src(data, 'fresh', fs=a0.sample_freq), *other()]), num)

            def got():
                return gather(ck, f'{namea}>{b.name}', b.make([makea(), *other()]), num)

            r, g = outcome_of(ref), outcome_of(got)
            if r[0] == 'raises':
                expect(g == r, 'outcome', f'{g[0]} instead of {r}')
                return
            expect(g[0] == 'ok', 'outcome', lambda: f'raises {g[1]}')
            same(g[1], r[1], f'{namea} > {b.name}')
            if b.nsrc == 2:
                r2 = gather(ck, 'swap', b.make([*other(), td.src(data, 'fresh', fs=a0.sample_freq)]), num)
                g2 = gather(ck, 'swap', b.make([*other(), makea()]), num)
                same(g2, r2, f'{b.name} with {namea} as second source')

        ck.case(f'chain/{namea}/{b.name}/num{num}', one)


def dispatch(ck, it):
    (mode_item if it[0] == 'm' else chain_item)(ck, it[1])


def run(ck):
    ck.rule(
        'every class x length x block size x five ways of handing over blocks (fresh, view, one reused buffer, read-only, reused and scribbled over); '
        'all ordered pairs of library blocks chained directly vs through stored copies x block sizes'
    )
    ac.config.global_caching = 'none'
    nodes = td.catalogue()
    items = []
    for node in nodes + td.spectral():
        for c in node.chans if not ck.quick else node.chans[-1:]:
            for n in {node.minlen, max(node.minlen, 7)} if ck.quick else range(node.minlen, max(node.minlen, 12) + 1):
                items.append(('m', (node, n, c)))
    n = 18
    firsts = []
    for a in nodes:
        for c in (1, 2) if not ck.quick else (a.chans[min(1, len(a.chans) - 1)],):
            if c in a.chans:
                firsts.append((f'{a.name}-c{c}', lambda a=a, c=c: a.make(td.inputs(a, n, c, 'reuse')[1])))
    for e in tdsources.sources():
        if e[0].endswith('n8') or (not ck.quick and e[0].endswith('n5')):
            firsts.append((e[0], e[1]))
    for na, mk in firsts:
        for b in nodes:
            items.append(('c', (na, mk, b, n, (1, 4, 5) if ck.quick else (1, 2, 3, 4, 5, 7, 18, 19))))
    ck.parallel(dispatch, items)
