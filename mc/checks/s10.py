"""S10: interrupted and interleaved runs of one object do not disturb each other."""

import acoular as ac
import numpy as np

from mc import td, tdsources
from mc.core import expect


def merges(a, b):
    """All interleavings of a steps of run 0 and b steps of run 1."""
    if a == 0:
        yield (1,) * b
    elif b == 0:
        yield (0,) * a
    else:
        for m in merges(a - 1, b):
            yield (0, *m)
        for m in merges(a, b - 1):
            yield (1, *m)


def explore(ck, tag, make, nums, quick, exclusive=False):
    refs = {}

    def ref(num):
        if num not in refs:
            refs[num] = [np.array(b) for b in make().result(num)]
        return refs[num]

    def equal(got, want, what):
        expect([g.shape for g in got] == [w.shape for w in want], 'shape', lambda: f'{what}: {[g.shape for g in got]} instead of {[w.shape for w in want]}')
        for i, (g, w) in enumerate(zip(got, want)):
            expect(td.close(g, w, 1e-9), 'value', lambda: f'{what}: block {i} is {g.tolist()} instead of {w.tolist()}')

    # abandonment after k blocks, then a complete run
    for a in nums:
        try:
            K = len(ref(a))
        except Exception:  # noqa: BLE001
            continue
        for k in range(K + 1):
            for how in ('close', 'drop', 'keep'):
                if exclusive and how == 'keep':
                    continue
                for b in nums:
                    def one(a=a, k=k, b=b, how=how):
                        obj = make()
                        g = obj.result(a)
                        for i in range(k):
                            next(g)
                            ck.step(tag, a, i, how)
                        if how == 'close':
                            g.close()
                        elif how == 'drop':
                            del g
                        got = []
                        for blk in obj.result(b):
                            got.append(np.array(blk))
                            ck.step(tag, a, k, how, b, len(got))
                        equal(got, ref(b), f'after {k} blocks of an abandoned run')
                        if how == 'keep':  # the first run goes on as if nothing had happened
                            rest = [np.array(x) for x in g]
                            equal(rest, ref(a)[k:], 'continued first run')

                    ck.case(f'{tag}/abandon-{how}/{a}x{k}/{b}', one)
    if exclusive:
        return
    # two runs advanced alternately, every interleaving
    for a in nums:
        for b in nums:
            A = min(len(refs.get(a, [])) + 1, 4 if quick else 6)
            B = min(len(refs.get(b, [])) + 1, 4 if quick else 6)
            for m in merges(A, B):
                def one(a=a, b=b, m=m):
                    obj = make()
                    gens = [obj.result(a), obj.result(b)]
                    got = [[], []]
                    for r in m:
                        blk = next(gens[r], None)
                        if blk is not None:
                            got[r].append(np.array(blk))
                        ck.step(tag, a, b, len(got[0]), len(got[1]), r)
                    for r in (0, 1):
                        got[r] += [np.array(x) for x in gens[r]]
                    equal(got[0], ref(a), 'run 0')
                    equal(got[1], ref(b), 'run 1')
                    ck.outcome(tag, a, b, m)

                ck.case(f'{tag}/interleave/{a},{b}/{"".join(map(str, m))}', one)


def node_item(ck, it):
    node, n, c, nums, mode = it

    def make():
        return node.make(td.inputs(node, n, c, mode)[1])

    explore(ck, f'{node.name}-n{n}-{mode}', make, nums, ck.quick, exclusive=node.name == 'WriteH5')


def src_item(ck, it):
    name, make, nums = it
    explore(ck, name, make, nums, ck.quick)


def dispatch(ck, it):
    (node_item if it[0] == 'n' else src_item)(ck, it[1])


def run(ck):
    ck.rule(
        'every class: abandonment after 0..K blocks (closed, dropped, kept alive and continued later) x block sizes, then a full run; '
        'all interleavings of two runs over their first blocks x block sizes, both compared with an undisturbed run on a fresh object'
    )
    ck.assume('two runs of WriteH5 write the same file and are therefore only explored one after the other')
    ac.config.global_caching = 'none'
    items = []
    for node in td.catalogue() + td.spectral():
        c = node.chans[min(1, len(node.chans) - 1)]
        n = max(node.minlen, 7)
        if ck.quick:
            items.append(('n', (node, n, c, (2, 3), 'fresh')))
        else:
            for mode in ('fresh', 'reuse'):
                items.append(('n', (node, n, c, (1, 2, 3, 4, n), mode)))
    for e in tdsources.sources():
        if e[0].endswith('n5') or (not ck.quick and e[0].endswith(('n8', 'n2'))):
            items.append(('s', (e[0], e[1], (2, 5) if ck.quick else (1, 2, 3, 5))))
    ck.parallel(dispatch, items)
