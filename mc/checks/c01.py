"""C01: the time-data cache is transparent."""

import itertools

import acoular as ac
import numpy as np

from mc import cachekit, td
from mc.core import expect

N, C = 7, 2


class World:
    def __init__(self, kind, n):
        self.kind, self.n = kind, n
        self.variant = 0
        self.kept = []
        self.build()

    def build(self):
        self.src = self.source(self.variant)
        self.top = self.src
        if self.kind == 'rfft':
            self.top = ac.RFFT(source=self.src, block_size=2)
        self.obj = ac.Cache(source=self.top)

    def data(self, v):
        return td.pattern(self.n, C, salt=v)

    def source(self, v):
        return td.src(self.data(v), 'reuse', tag=v)

    def reference(self, num):
        top = self.source(self.variant)
        if self.kind == 'rfft':
            top = ac.RFFT(source=top, block_size=2)
        return [np.array(b) for b in top.result(num)]

    def result(self, num):
        return self.obj.result(num)


def same(got, want, what):
    expect([g.shape for g in got] == [w.shape for w in want], 'shape', lambda: f'{what}: {[g.shape for g in got]} instead of {[w.shape for w in want]}')
    for i, (g, w) in enumerate(zip(got, want)):
        expect(g.dtype == w.dtype and np.array_equal(g, w), 'value', lambda: f'{what}: block {i} {g.tolist()} instead of {w.tolist()}')


def apply(ck, w, op, d, tag):
    k = op[0]
    if k == 'run':
        _, mode, num = op
        ac.config.global_caching = mode
        same([np.array(b) for b in w.result(num)], w.reference(num), f'{op}')
    elif k in ('part', 'keep'):
        _, mode, num, cnt = op
        ac.config.global_caching = mode
        g = w.result(num)
        want = w.reference(num)
        got = [np.array(b) for b in itertools.islice(g, cnt)]
        same(got, want[: len(got)], f'{op}')
        if k == 'part':
            g.close()
        else:
            w.kept.append((g, want[len(got) :]))
    elif k == 'finish':  # an interrupted run goes on
        for g, want in w.kept:
            same([np.array(b) for b in g], want, 'continued run')
        w.kept = []
    elif k == 'source':  # the object moves to other data (or back), not during a run
        w.kept = []
        w.variant ^= 1
        w.src = w.source(w.variant)
        if w.kind == 'rfft':
            w.top.source = w.src
        else:
            w.obj.source = w.src
    elif k == 'inplace':  # the data of the source is replaced
        w.kept = []  # the data must not be replaced during a run
        w.variant ^= 1
        w.src.data = w.data(w.variant)
        w.src.tag = w.variant
    elif k == 'new':  # another object on the same data, the first one stays alive
        w.old = getattr(w, 'old', []) + [w.obj]
        w.build()
    elif k == 'restart':
        w.kept = []
        w.old = []
        w.obj = w.src = w.top = None
        cachekit.close_all()
        w.build()
    ck.step(tag, op, w.variant, tuple(sorted((f.name, f.stat().st_size) for f in d.iterdir())))


def finished_nodes(d, w, tag, ck):
    """What is marked as complete is complete."""
    want = []
    for v in (0, 1):
        w.variant = v
        want.append(np.concatenate(w.reference(1) or [np.zeros((0, C))], axis=0))
    for (f, n), (shape, complete, arr) in cachekit.read_nodes(d).items():
        ck.outcome(tag, shape, complete)
        if complete:
            expect(any(arr.shape == x.shape and np.array_equal(arr, x) for x in want), 'complete', f'{f}:{n} {shape} is marked as complete')


def sequence(ck, kind, n, lib, seq, tag):
    with cachekit.env(lib) as d:
        w = World(kind, n)
        for op in seq:
            apply(ck, w, op, d, tag)
        variant = w.variant
        # whatever happened: caching on, and after a restart
        for op in (('run', 'all', 2), ('run', 'all', 3)):
            apply(ck, w, op, d, tag)
        apply(ck, w, ('restart',), d, tag)
        apply(ck, w, ('run', 'readonly', 3), d, tag)
        expect(w.variant == variant, 'harness')
        w.kept = []
        w.old = []
        w.obj = w.src = w.top = None
        cachekit.close_all()
        finished_nodes(d, w, (kind, lib), ck)


def name(op):
    s = {'run': 'r', 'part': 'p', 'keep': 'k'}.get(op[0])
    if s is None:
        return op[0].upper()
    return s + op[1][:2] + ''.join(map(str, op[2:]))


def item(ck, it):
    kind, n, lib, first, depth, ops = it
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (*first, *rest)
        ck.case(f'{kind}{n}-{lib}/' + ' '.join(map(name, seq)), sequence, ck, kind, n, lib, seq, (kind, n, lib))


def run(ck):
    ck.rule(
        'every sequence up to the stated depth of complete runs, interrupted runs (closed, or kept and continued), caching modes, block sizes, '
        'source replacement, data replacement, further objects and process restarts, on one cache directory; '
        'every block compared with the uncached stream, every entry marked complete compared with the data'
    )
    q = ck.quick
    modes = ('all', 'readonly', 'overwrite', 'none') if q else cachekit.MODES
    ops = []
    for m in modes:
        ops += [('run', m, 2), ('part', m, 3, 1), ('keep', m, 2, 2)]
        if not q:
            ops += [('run', m, 3), ('part', m, 2, 2)]
    ops += [('finish',), ('source',), ('inplace',), ('new',), ('restart',)]
    items = []
    for lib in ('tables', 'h5py'):
        for op in ops:
            items.append(('td', N, lib, (op,), 3, ops))
            items.append(('rfft', 6, lib, (op,), 2, ops))
            items.append(('td', 6, lib, (op,), 2, ops))
            items.append(('td', 0, lib, (op,), 2, ops))
        if not q:
            small = [o for o in ops if len(o) == 1 or o[1] in ('all', 'overwrite', 'readonly') and o[2:] in ((2,), (3, 1)) or o == ('keep', 'all', 2, 2)]
            for a in small:
                items += [('td', N, lib, (a, b), 4, small) for b in small if lib == 'tables']
    ck.extra['operations'] = len(ops)
    ck.parallel(item, items)
