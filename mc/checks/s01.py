"""S01: block size never changes a time-domain stream."""

import acoular as ac
import numpy as np

from mc import td, tdsources
from mc.core import expect


def run(ck):
    ck.rule(
        'every catalogue class x channel count x source length 1..L x block size 1..n+2; each block pulled is a '
        'transition, a state is (class, channels, length, block size, samples delivered); each execution is compared '
        'with the numpy reference of the whole signal'
    )
    ck.assume('control flow of the streaming code does not depend on sample values (one generic, all-distinct signal per shape)')
    L = 9 if ck.quick else 14
    with_global = [('none',)]
    ac.config.global_caching = 'none'

    def node_item(ck, node):
        for c in node.chans:
            for n in range(node.minlen, max(L, node.minlen + 3) + 1):
                for num in range(1, n + 3):
                    ck.case(f'{node.name}/c{c}/n{n}/num{num}', one, ck, node, n, c, num)

    def one(ck, node, n, c, num):
        xs, ss = td.inputs(node, n, c, 'view')
        obj = node.make(ss)
        want = node.ref(xs)
        if node.announce:
            expect(obj.num_channels == want.shape[1], 'announced-channels', f'num_channels={obj.num_channels}, want {want.shape[1]}')
            expect(obj.num_samples == len(want), 'announced-samples', f'num_samples={obj.num_samples}, want {len(want)}')
        pos = 0
        blocks = []
        for b in obj.result(num):
            b = np.array(b)
            blocks.append(b)
            pos += b.shape[0]
            ck.step(node.name, c, n, num, pos)
            expect(pos <= 4 * len(want) + 64, 'endless', 'far more samples than announced')
        td.check_blocks(blocks, num, len(want), want.shape[1])
        got = td.cat(blocks, want.shape[1])
        expect(td.close(got, want, node.tol), 'value', lambda: f'got {got.tolist()} want {want.tolist()}')
        ck.outcome(node.name, got.round(6).tobytes())

    ck.parallel(node_item, td.catalogue())

    def source_item(ck, ent):
        name, make, nums = ent
        ref = None
        for num in nums(ck.quick):
            def one_source():
                nonlocal ref
                obj = make()
                blocks = []
                pos = 0
                for b in obj.result(num):
                    blocks.append(np.array(b))
                    pos += b.shape[0]
                    ck.step(name, num, pos)
                    expect(pos <= 4 * obj.num_samples + 64, 'endless', 'far more samples than announced')
                td.check_blocks(blocks, num, obj.num_samples, obj.num_channels)
                got = td.cat(blocks, obj.num_channels)
                if ref is None:
                    ref = got
                expect(td.close(got, ref, 1e-9), 'value', f'differs from the stream with the first block size: max {np.abs(got - ref).max()}')
                ck.outcome(name, got.round(9).tobytes())

            ck.case(f'{name}/num{num}', one_source)

    ck.parallel(source_item, tdsources.sources())
