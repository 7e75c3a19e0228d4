"""S06: the sample buffer delivers exactly the requested sliding windows."""

import itertools

import acoular as ac
import numpy as np
from acoular.process import SamplesBuffer

from mc import td
from mc.core import expect


def explore(ck, n, c, length, snum, num, rnum, shift, mode, script, tag, dtype=None):
    """One run. script[i]: what is done before window i is requested: 0 nothing, ('b', k) buffer
    enlarged by k samples, ('r', k) window length changed to k."""
    x = td.pattern(n, c)
    src = td.src(x, mode)
    b = SamplesBuffer(source=src, length=length, source_num=snum, result_num=rnum, shift_index_by=shift)
    if dtype is not None:
        b.dtype = dtype
        x = x.astype(dtype)
    g = b.result(num)
    p, i = 0, 0
    while True:
        act = script[i] if i < len(script) else 0
        if act and i > 0:
            if act[0] == 'b':
                before = b.length
                b.increase_buffer(act[1])
                expect(b.length == before + act[1], 'length', 'enlarged length')
            else:
                b.result_num = rnum = act[1]
        r = num if rnum is None else rnum
        blk = next(g, None)
        if p >= n:
            expect(blk is None, 'invented', lambda: f'window {i} after the end: {np.array(blk).tolist()}')
            break
        want = x[p : p + r]
        expect(blk is not None, 'lost', lambda: f'stream ends before window {i} at sample {p} of {n}')
        expect(blk.shape == want.shape, 'shape', lambda: f'window {i}: {blk.shape} instead of {want.shape}')
        expect(td.close(blk, want, 0), 'value', lambda: f'window {i}: {blk.tolist()} instead of {want.tolist()}')
        p += r if shift == 'result_num' else num
        # the announced filling level is what is left to be read from the buffer
        expect(b.level <= b.length, 'level', 'more samples than fit')
        ck.step(tag, n, length, snum, num, r, shift, p, b.level, i)
        i += 1
    ck.outcome(n, num, rnum, shift, i)


def item(ck, it):
    n, snum, num = it
    q = ck.quick
    lens = range(1, 7) if q else range(1, 10)
    rnums = (None, 1, 2, 3, 5) if q else (None, 1, 2, 3, 4, 5, 6, 8)
    modes = ('fresh', 'reuse') if q else ('fresh', 'view', 'reuse')
    for length, rnum, shift, mode in itertools.product(lens, rnums, ('result_num', 'num'), modes):
        key = f'static/n{n}s{snum}b{num}/L{length}r{rnum}-{shift}-{mode}'
        ck.case(key, explore, ck, n, 2, length, snum, num, rnum, shift, mode, (), 'static')
    # changes while running
    acts = (0, ('b', 1), ('b', 3), ('r', 1), ('r', 4))
    depth = 3 if q else 4
    for length in (2, 4) if q else (1, 2, 4, 7):
        for rnum in (1, 3):
            for shift in ('num',) if q else ('num', 'result_num'):
                for script in itertools.product(acts, repeat=depth - 1):
                    s = (0, *script)
                    k = ''.join('0' if a == 0 else f'{a[0]}{a[1]}' for a in script)
                    ck.case(
                        f'dynamic/n{n}s{snum}b{num}/L{length}r{rnum}-{shift}/{k}',
                        explore, ck, n, 1, length, snum, num, rnum, shift, 'reuse', s, 'dynamic',
                    )  # fmt: skip
    for dt in (np.float32, np.float64, np.complex128):
        ck.case(f'dtype/n{n}s{snum}b{num}/{np.dtype(dt).name}', explore, ck, n, 2, 4, snum, num, 2, 'num', 'fresh', (), 'dtype', dt)


def again(ck, n, num, length, k):
    """An interrupted reading is followed by a complete one from the beginning."""
    x = td.pattern(n, 1)
    b = SamplesBuffer(source=td.src(x, 'reuse'), length=length, result_num=3, shift_index_by='num')
    g = b.result(num)
    for _ in range(k):
        next(g, None)
    g.close()
    p = 0
    for blk in b.result(num):
        expect(np.array_equal(blk, x[p : p + 3]), 'restart', lambda: f'at {p}: {blk.tolist()}')
        p += num
        ck.step('again', n, num, length, k, p)
    expect(p >= n, 'lost', f'{p} of {n}')


def run(ck):
    ck.rule(
        'signal length x source block size x block size x buffer length x window length x index shift x upstream memory handling; '
        'plus every script of enlarging the buffer / changing the window between reads up to the stated depth; '
        'oracle: windows x[p:p+r], p += step, while p < N'
    )
    ck.assume('windows are consumed before the next one is requested (block validity of the generator protocol)')
    ac.config.global_caching = 'none'
    q = ck.quick
    ns = (1, 2, 5, 8) if q else (1, 2, 3, 4, 5, 6, 7, 8, 11)
    sn = (None, 1, 3) if q else (None, 1, 2, 3, 4, 6)
    nums = (1, 2, 4) if q else (1, 2, 3, 4, 5)
    ck.parallel(item, list(itertools.product(ns, sn, nums)))
    for n, num, length, k in itertools.product((3, 7), (1, 2, 3), (1, 3, 5), (0, 1, 2, 3)):
        ck.case(f'again/n{n}b{num}L{length}k{k}', again, ck, n, num, length, k)
