"""S03: streaming convolution equals linear convolution."""

import acoular as ac
import numpy as np

from mc import td
from mc.core import expect

FS = 1000.0


def mics(n):
    m = ac.MicGeom()
    m.pos_total = np.array([[0.1 * i, 0.2 * (i % 2), 0.0] for i in range(n)]).T
    return m


def drive(ck, tag, obj, want, num):
    expect(obj.num_samples == len(want), 'announced-samples', f'num_samples={obj.num_samples}, expected {len(want)}')
    expect(obj.num_channels == want.shape[1], 'announced-channels', f'num_channels={obj.num_channels}')
    blocks = []
    pos = 0
    for b in obj.result(num):
        b = np.array(b)
        blocks.append(b)
        pos += len(b)
        ck.step(*tag, num, pos)
        expect(pos < 4 * len(want) + 64, 'endless', 'does not end')
    td.check_blocks(blocks, num, len(want), want.shape[1])
    got = td.cat(blocks, want.shape[1])
    expect(td.close(got, want, 1e-9), 'value', lambda: f'got {got.tolist()} want {want.tolist()}')
    ck.outcome(tag, got.round(6).tobytes())


def item(ck, it):
    kind, N, L = it
    if kind == 'TimeConvolve':
        for c, form in ((1, '1d'), (1, '2d'), (2, '1d'), (2, 'one'), (2, 'each'), (3, 'each'), (3, 'one')):
            x = td.pattern(N, c)
            k = td.pattern(L, c if form == 'each' else 1, 5)
            if form == '1d':
                k = k[:, 0]
            want = td.ref_convolve(x, k)
            for num in range(1, N + L + 2):
                def one(num=num, k=k, x=x, want=want):
                    obj = ac.TimeConvolve(source=td.src(x, 'reuse'), kernel=k)
                    drive(ck, (kind, c, form, N, L), obj, want, num)
                    expect(np.array_equal(obj.kernel, k), 'input-changed', 'the kernel was modified')

                ck.case(f'{kind}/{form}/c{c}/N{N}/L{L}/num{num}', one)
        # the kernel is replaced between runs of the same object
        for L2 in range(1, L + 2):
            def again(L2=L2):
                x = td.pattern(N, 2)
                obj = ac.TimeConvolve(source=td.src(x, 'fresh'), kernel=td.pattern(L, 2, 5))
                for num in (2, 3):
                    drive(ck, ('rekernel', N, L, L2, 0), obj, td.ref_convolve(x, obj.kernel), num)
                    obj.kernel = td.pattern(L2, 2, 6)
                    drive(ck, ('rekernel', N, L, L2, 1), obj, td.ref_convolve(x, td.pattern(L2, 2, 6)), num)
                    obj.kernel = td.pattern(L, 2, 5)

            ck.case(f'{kind}-rekernel/N{N}/L{L}/{L2}', again)
    else:
        sig = ac.WNoiseGenerator(seed=2, num_samples=N, sample_freq=FS)
        raw = sig.signal()[:, None]
        for c in (1, 2):
            for form in ('one', 'each'):
                k = td.pattern(L, c if form == 'each' else 1, 5)
                for loop in ('zeros', 'loop'):
                    for num in range(1, N + L + 2):
                        def one(num=num, k=k, loop=loop, c=c):
                            obj = ac.PointSourceConvolve(signal=sig, mics=mics(c), kernel=k, start_t=0.0)
                            if loop == 'loop':
                                return
                            want = td.ref_convolve(np.repeat(raw, c, axis=1), k)
                            drive(ck, (kind, c, form, N, L), obj, want, num)

                        if loop == 'zeros':
                            ck.case(f'{kind}/{form}/c{c}/N{N}/L{L}/num{num}', one)


def mismatch(ck, it):
    c, k = it

    def one():
        x = td.pattern(4, c)
        try:
            obj = ac.TimeConvolve(source=td.src(x), kernel=td.pattern(3, k))
            for _ in obj.result(2):
                pass
        except ValueError:
            return
        expect(False, 'accepted', f'{k} kernels for {c} channels accepted')

    ck.case(f'mismatch/c{c}k{k}', one)


def run(ck):
    ck.rule(
        'every signal length N x kernel length L x block size 1..N+L+1 x kernel arrangement (1-D, single column, one per channel) x channels; '
        'kernel replaced between runs; reference: direct convolution sum'
    )
    ck.assume('the algorithm partitions by lengths only, not by values')
    ac.config.global_caching = 'none'
    M = 9 if ck.quick else 18
    items = [('TimeConvolve', N, L) for N in range(1, M + 1) for L in range(1, M + 1)]
    items += [('PointSourceConvolve', N, L) for N in range(1, 5) for L in range(1, 6)]
    items.sort(key=lambda t: -(t[1] + t[2]))
    ck.parallel(item, items)
    for c in (1, 2, 3):
        for k in (2, 3, 4):
            if c != k:
                mismatch(ck, (c, k))
