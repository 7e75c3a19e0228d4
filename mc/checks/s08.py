"""S08: a splitter never loses data silently when a consumer lags."""

import itertools
import warnings
from collections import deque

import acoular as ac
import numpy as np

from mc import sched, td
from mc.checks.s07 import FILES, Pass, merges
from mc.core import expect


class Model:
    """K blocks, one queue per consumer."""

    def __init__(self, K, sizes, treats):
        self.K, self.sizes, self.treats = K, sizes, treats
        self.pos = 0
        self.q = [deque() for _ in sizes]
        self.failed = False
        self.done = [False] * len(sizes)

    def next(self, i):
        """-> ('block', b) | ('end',) | ('error',), set of warned consumers, set of losers"""
        if self.done[i]:
            return ('end',), set(), set()
        if self.failed:
            self.done[i] = True
            return ('error',), set(), set()
        warned, lost = set(), set()
        if not self.q[i]:
            if self.pos == self.K:
                self.done[i] = True
                return ('end',), set(), set()
            full = {j for j, q in enumerate(self.q) if len(q) == self.sizes[j]}
            warned = {j for j in full if self.treats[j] == 'warning'}
            if any(self.treats[j] == 'error' for j in full):
                self.failed = True
                self.done[i] = True
                return ('error',), warned, set()
            for j, q in enumerate(self.q):
                if j in full:
                    q.popleft()
                    lost.add(j)
                q.append(self.pos)
            self.pos += 1
        return ('block', self.q[i].popleft()), warned, lost


HOW = ('call', 'dict', 'int', 'late', 'resize')


def setup(K, num, sizes, treats, how):
    x = td.pattern(K * num, 1)
    s = ac.SampleSplitter(source=td.src(x, 'reuse'))
    cons = [Pass(source=s) for _ in sizes]
    if how == 'dict':
        s.buffer_size = dict(zip(cons, sizes))
    elif how == 'int':
        s.buffer_size = sizes[0]
    for o, n, t in zip(cons, sizes, treats):
        kw = {} if t == 'error' else {'buffer_overflow_treatment': t}  # to raise is the default
        if how in ('dict', 'int'):
            s.register_object(o, **kw)
        elif how == 'late':
            s.register_object(o, buffer_size=n)
            s.buffer_overflow_treatment[o] = t
        elif how == 'resize':
            s.register_object(o, buffer_size=n + 4)
            s.buffer_overflow_treatment[o] = t
        else:
            s.register_object(o, buffer_size=n, **kw)
    if how == 'resize':
        s.buffer_size = dict(zip(cons, sizes))
    return x, s, cons


def run_order(ck, K, num, sizes, treats, how, order):
    x, s, cons = setup(K, num, sizes, treats, how)
    gens = [o.result(num) for o in cons]
    m = Model(K, sizes, treats)
    for step, i in enumerate(order):
        want, warned, lost = m.next(i)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                b = next(gens[i], None)
                got = ('end',) if b is None else ('block', np.array(b))
            except OSError:
                got = ('error',)
        nwarn = len([v for v in w if issubclass(v.category, UserWarning)])
        ck.step(K, sizes, treats, tuple(tuple(q) for q in m.q), m.pos, m.failed, i)
        ck.outcome(want[0], tuple(sorted(lost)), tuple(sorted(warned)))
        expect(got[0] == want[0], f'{got[0]}-instead-of-{want[0]}', lambda: f'step {step} of {order}: consumer {i} got {got} instead of {want}')
        if want[0] == 'block':
            ref = x[want[1] * num : (want[1] + 1) * num]
            expect(np.array_equal(got[1], ref), 'value', lambda: f'step {step} of {order}: consumer {i} got {got[1].tolist()} instead of block {want[1]}')
        if want[0] != 'error':  # an error outweighs the warning of another consumer
            expect((nwarn > 0) == bool(warned), 'warning' if nwarn else 'no-warning', lambda: f'step {step} of {order}: {nwarn} warnings, overfull: {warned}')


def item(ck, it):
    K, num, sizes, treats, how = it
    k = len(sizes)
    for order in merges((K + 1,) * k):
        key = f'{how}/k{k}K{K}b{num}/{"".join(map(str, sizes))}-{",".join(t[0] for t in treats)}/{"".join(map(str, order))}'
        ck.case(key, run_order, ck, K, num, sizes, treats, how, order)


def thread_item(ck, it):
    K, sizes, treats, bound, part = it
    k = len(sizes)
    tag = f'threads{bound}/K{K}/{"".join(map(str, sizes))}-{",".join(t[0] for t in treats)}'

    def make():
        x, s, cons = setup(K, 1, sizes, treats, 'call')
        outs = [[] for _ in cons]

        def body(i):
            def f():
                for b in cons[i].result(1):
                    outs[i].append(float(b[0, 0]))

            return f

        return [body(i) for i in range(k)], (x, outs)

    def visit(ex, plan, fin):
        x, outs = fin
        full = x[:, 0].tolist()

        def judge():
            ck.step(tag, ex.step)
            if ex.verdict == 'stuck':
                ck.capped.append(f'{tag}: a schedule waits outside the control of the scheduler')
                return
            expect(ex.verdict is None, ex.verdict or '', f'{ex.verdict}')
            errs = [e for e in ex.error if e is not None]
            for e in errs:
                if not isinstance(e, OSError):
                    raise e
            if errs:
                expect(len(errs) == k, 'partial-error', f'errors {ex.error}')
                expect('error' in treats, 'error', f'errors {ex.error} although loss is tolerated')
            for i in range(k):
                it_ = iter(full)
                expect(all(v in it_ for v in outs[i]), 'order', f'consumer {i} got {outs[i]} of {full}')
                if errs:
                    if treats[i] == 'error':
                        expect(outs[i] == full[: len(outs[i])], 'lost', f'consumer {i} got {outs[i]} of {full}')
                elif treats[i] == 'error' or sizes[i] >= K:
                    expect(outs[i] == full, 'lost', f'consumer {i} got {outs[i]} of {full} without error')
                else:  # the latest blocks are kept
                    expect(outs[i][-min(K, sizes[i]) :] == full[-min(K, sizes[i]) :], 'lost', f'consumer {i} got {outs[i]} of {full}')
            ck.outcome(tag, bool(errs), tuple(map(len, outs)))

        ck.case(f'{tag}/' + (','.join(f'{a}>{b}' for a, b in plan.items()) or '-'), judge)
        ck.extra['schedules'] = ck.extra.get('schedules', 0) + 1
        ck.transitions += ex.step

    sched.explore(make, FILES, bound, visit=visit, part=part)


def dispatch(ck, it):
    globals()[it[0]](ck, it[1])


def run(ck):
    ck.rule(
        'all merges of the next() calls of 2 and 3 consumers x buffer sizes x overflow treatments x way of configuring them, every step '
        'compared with a queue model (block, end, error, warning); threads: all schedules within the preemption bound'
    )
    ck.assume('an overflow happens when another block is available and has to be stored in a full buffer')
    ac.config.global_caching = 'none'
    q = ck.quick
    items = []
    T = ('error', 'warning', 'none')
    for K in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        for how in HOW if K < 5 else ('call',):
            for sizes in itertools.product((1, 2, 3), repeat=2):
                if how == 'int' and len(set(sizes)) > 1:
                    continue
                for treats in itertools.product(T, repeat=2):
                    items.append(('item', (K, 2, sizes, treats, how)))
    for sizes in ((1, 2, 1),) if q else tuple(itertools.product((1, 2), repeat=3)):
        for treats in itertools.product(T, repeat=3):
            items.append(('item', (2, 1, sizes, treats, 'call')))
    if not q:
        for treats in itertools.permutations(T):
            items.append(('item', (3, 1, (1, 2, 1), treats, 'call')))
    for sizes, treats in itertools.product(((1, 3), (2, 1)), itertools.product(T, repeat=2)):
        items.append(('thread_item', (3, sizes, treats, 1 if q else 2, None)))
    ck.parallel(dispatch, items)
