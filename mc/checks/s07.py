"""S07: a splitter gives every registered consumer the whole stream, in order."""

import itertools

import acoular as ac
import numpy as np

from mc import sched, td
from mc.core import expect

FILES = ('acoular/process.py',)


class Pass(ac.TimeOut):
    """A consumer: hands on what it gets."""

    source = ac.tprocess.Instance(ac.base.Generator)
    num_channels = ac.tprocess.Delegate('source')
    sample_freq = ac.tprocess.Delegate('source')
    num_samples = ac.tprocess.Delegate('source')

    def result(self, num):
        for blk in self.source.result(num):
            yield blk


def consumers(kind, splitter, k):
    if kind == 'pass':
        return [Pass(source=splitter) for _ in range(k)]
    out = [
        ac.TimePower(source=splitter),
        ac.TimeCumAverage(source=splitter) if kind == 'other' else ac.FiltFiltOctave(source=splitter, band=100),
        ac.MaskedTimeOut(source=splitter),
    ]
    return out[:k]


def setup(k, K, num, mode, kind='pass', size=None, c=2, per='call', treat='error'):
    x = td.pattern(K * num - (num > 1) if K else 0, c)
    s = ac.SampleSplitter(source=td.src(x, mode))
    cons = consumers(kind, s, k)
    if per == 'global':
        s.buffer_size = size
        s.register_object(*cons)
    else:
        for o in cons:
            s.register_object(o, buffer_size=size, buffer_overflow_treatment=treat)
    return x, s, cons


def reference(kind, x, k, num):
    """What each consumer yields without a splitter."""
    return [[np.array(b) for b in o.result(num)] for o in consumers(kind, td.src(x), k)]


def compare(got, want, who):
    expect(len(got) >= len(want), 'lost', lambda: f'consumer {who} got {len(got)} of {len(want)} blocks')
    expect(len(got) <= len(want), 'extra', lambda: f'consumer {who} got {len(got)} blocks of {len(want)}')
    for i, (g, w) in enumerate(zip(got, want)):
        expect(g.shape == w.shape and td.close(g, w, 1e-12), 'value', lambda: f'consumer {who} block {i}: {g.tolist()} instead of {w.tolist()}')


def merges(counts):
    """All sequences in which consumer i appears counts[i] times."""
    if not any(counts):
        yield ()
        return
    for i, c in enumerate(counts):
        if c:
            rest = list(counts)
            rest[i] -= 1
            for m in merges(tuple(rest)):
                yield (i, *m)


def drive(ck, tag, cons, gens, order, num):
    got = [[] for _ in cons]
    over = [False] * len(cons)
    for i in order:
        b = next(gens[i], None)
        if b is None:
            over[i] = True
        else:
            expect(not over[i], 'extra', 'block after the end')
            got[i].append(np.array(b))
        ck.step(tag, tuple(len(g) for g in got), tuple(over))
    return got, over


def alternate(ck, k, K, num, mode, kind, order, tag, rounds=1):
    x, s, cons = setup(k, K, num, mode, kind, size=max(K, 1))
    want = reference(kind, x, k, num)
    for r in range(rounds):
        gens = [o.result(num) for o in cons]
        got, over = drive(ck, (tag, r), cons, gens, order, num)
        for i in range(k):
            compare(got[i], want[i], f'{i} (run {r})')
            expect(over[i], 'extra', f'consumer {i} does not end')
    ck.outcome(k, K, order)


def item_orders(ck, it):
    k, K, num, mode, kind = it
    for order in merges((K + 1,) * k):
        key = f'orders-{kind}/k{k}K{K}b{num}-{mode}/' + ''.join(map(str, order))
        ck.case(key, alternate, ck, k, K, num, mode, kind, order, (kind, k, K, num), 2)


def partial(ck, K, num, order, drop, when, how):
    """One of three consumers is removed / abandons after `when` blocks; the others get everything."""
    x, s, cons = setup(3, K, num, 'reuse', 'pass', size=50)
    want = reference('pass', x, 3, num)
    gens = [o.result(num) for o in cons]
    got = [[] for _ in cons]
    for i in order:
        if i == drop and len(got[i]) == when:
            if how == 'remove' and cons[i] in s.block_buffer:
                gens[i].close()
                s.remove_object(cons[i])
            elif how == 'close':
                gens[i].close()
            continue
        b = next(gens[i], None)
        if b is not None:
            got[i].append(np.array(b))
        ck.step('partial', K, num, drop, when, how, tuple(len(g) for g in got))
    for i in range(3):
        if i == drop:
            compare(got[i], want[i][:when], i)
        else:
            compare(got[i], want[i], i)


def sequential(ck, K, num, perm, mode):
    """Consumers one after the other, then all again after the source was replaced."""
    x, s, cons = setup(3, K, num, mode, 'pass', size=K + 1)
    for r in range(3):
        for i in perm:
            got = [np.array(b) for b in cons[i].result(num)]
            ck.step('sequential', K, num, perm, r, i)
            compare(got, [x[j : j + num] for j in range(0, len(x), num)], f'{i} (run {r})')
        if r == 1:
            x = td.pattern(len(x) + num, 2, salt=9)
            s.source = td.src(x, mode, tag=5)
            for o in cons:
                s.remove_object(o)
            s.register_object(*cons, buffer_size=K + 3)


def history(ck, k, K, num, seq, mode):
    """Consumers run again and again, some more often than others: every run is the whole stream, once."""
    x, s, cons = setup(k, K, num, mode, 'pass', size=3 * K + 3)
    want = [x[j : j + num] for j in range(0, len(x), num)]
    for r, i in enumerate(seq):
        got = [np.array(b) for b in cons[i].result(num)]
        ck.step('history', k, K, num, seq[: r + 1])
        compare(got, want, f'{i} (run {r} of {seq})')


def threads(ck, k, K, num, bound, opcodes, limit, tag, part):
    """All schedules of k consumer threads within the preemption bound."""
    first = {}

    def make():
        x, s, cons = setup(k, K, num, 'reuse', 'pass', size=K + 1)
        outs = [[] for _ in cons]

        def body(i):
            def f():
                for b in cons[i].result(num):
                    outs[i].append(np.array(b))

            return f

        return [body(i) for i in range(k)], (x, outs)

    def visit(ex, plan, fin):
        x, outs = fin
        name = ','.join(f'{a}>{b}' for a, b in plan.items()) or '-'

        def judge():
            ck.step(tag, ex.step, name)
            if ex.verdict == 'stuck':
                ck.capped.append(f'{tag}: a schedule waits outside the control of the scheduler')
                return
            expect(ex.verdict is None, ex.verdict or '', f'{ex.verdict} after {ex.step} steps')
            for i, e in enumerate(ex.error):
                if e is not None:
                    raise e
            for i in range(k):
                compare(outs[i], [x[j : j + num] for j in range(0, len(x), num)], i)
            ck.outcome(tag, tuple(c[:3] for c in ex.choices if c[1] != 'preempt'))

        ck.case(f'{tag}/{name}', judge)
        ck.extra['schedules'] = ck.extra.get('schedules', 0) + 1
        ck.extra['scheduling_points'] = ck.extra.get('scheduling_points', 0) + ex.step
        ck.transitions += ex.step

    n, left = sched.explore(make, FILES, bound, opcodes, limit, visit, part=part)
    if left:
        ck.capped.append(f'{tag}: stopped after {n} schedules')


def thread_item(ck, it):
    threads(ck, *it)


def dispatch(ck, it):
    globals()[it[0]](ck, it[1])


def item_misc(ck, it):
    K, num = it
    for order in itertools.chain(*[itertools.permutations(o) for o in ((0, 1, 2),)]):
        for mode in ('fresh', 'view', 'reuse'):
            ck.case(f'sequential/K{K}b{num}-{mode}/{order}', sequential, ck, K, num, order, mode)
    for k in (2, 3):
        for n in range(2, 6 if ck.quick else 8 - (k == 3)):
            for seq in itertools.product(range(k), repeat=n):
                ck.case(f'history/K{K}b{num}/{"".join(map(str, seq))}/{k}', history, ck, k, K, num, seq, 'reuse' if n % 2 else 'fresh')
    base = [o for o in merges((K + 1, K + 1, K + 1))] if K <= 1 or not ck.quick and K <= 2 else None
    if base is None:  # three cyclic and three sequential orders
        base = []
        for p in itertools.permutations((0, 1, 2)):
            base.append(tuple(p) * (K + 1))
            base.append(tuple(i for i in p for _ in range(K + 1)))
    for o in base:
        for drop in range(3):
            for when in range(K + 1):
                for how in ('close', 'remove'):
                    key = f'partial-{how}/K{K}b{num}/{"".join(map(str, o))}-{drop}@{when}'
                    ck.case(key, partial, ck, K, num, o, drop, when, how)


def run(ck):
    ck.rule(
        'all merges of the next() calls of 2 and 3 consumers (library and pass-through) x blocks x upstream memory handling, two runs each; '
        'one consumer leaving or removed at every point; all orders of consecutive runs with source replaced; all sequences of up to 5 [7] whole runs of 2 and 3 consumers; '
        'threads: every schedule of the real code within the preemption bound, scheduling points at every line / bytecode of process.py and lock acquisition'
    )
    ck.assume('each consumer object is driven by one thread; CPython memory model')
    ac.config.global_caching = 'none'
    q = ck.quick
    items = []
    for mode in ('fresh', 'reuse'):
        for num in (1, 3):
            for K in range(0, 5 if q else 6):
                items.append(('item_orders', (2, K, num, mode, 'pass')))
            for K in range(0, 3 if q else 4):
                items.append(('item_orders', (3, K, num, mode, 'pass')))
            for K in range(0, 3 if q else 4):
                items.append(('item_orders', (2, K, num, mode, 'other')))
    for K in range(0, 4):
        for num in (1, 2):
            items.append(('item_misc', (K, num)))
    W = 8
    specs = [(2, 1, 2, 2, False, 'lines2-k2K1'), (2, 2, 2, 2, False, 'lines2-k2K2'), (3, 1, 2, 1, False, 'lines1-k3K1'), (2, 1, 1, 1, True, 'ops1-k2K1'), (2, 2, 1, 1, True, 'ops1-k2K2')]
    if not q:
        specs += [(2, 3, 1, 2, False, 'lines2-k2K3'), (2, 1, 1, 3, False, 'lines3-k2K1'), (3, 1, 1, 2, False, 'lines2-k3K1'), (3, 2, 1, 1, True, 'ops1-k3K2'), (2, 1, 1, 2, True, 'ops2-k2K1')]
    for k, K, num, bound, ops, tag in specs:
        for w in range(W):
            items.append(('thread_item', (k, K, num, bound, ops, None, tag, (w, W))))
    ck.parallel(dispatch, items[::-1])
