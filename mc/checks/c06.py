"""C06: concurrent use of shared caches and generators is serialised.

All schedules within a preemption bound of real threads running the real code, under the controlled
scheduler. The cache files of the registry part are stand-ins that record opening and closing, so
that each execution is cheap and the order of events is known exactly.
"""

import pathlib

import acoular as ac
import numpy as np
from acoular import h5cache
from acoular.h5cache import H5cache
from acoular.process import LockedGenerator
from traits.api import Any, HasTraits

from mc import cachekit, fd, sched, td
from mc.core import expect

LOG = []


class File:
    """Stand-in of a cache file."""

    def __init__(self, filename, mode):
        self.filename, self.mode, self.open = str(filename), mode, True
        same = [f for f in LOG if f.filename == self.filename and f.open]
        self.twice = bool(same)
        LOG.append(self)

    def flush(self):
        self.check()

    def check(self):
        expect(self.open, 'closed', f'{pathlib.Path(self.filename).name} is used after it was closed')

    def close(self):
        self.open = False


class User(HasTraits):
    """An object that uses cache files."""

    h5f = Any
    basename = Any


def fixed(program, readonly):
    """Threads of one object each that open and use the given files in turn."""

    def make():
        LOG.clear()
        H5cache.open_files.clear()
        H5cache.open_file_reference.clear()
        users = [User() for _ in program]
        # in readonly mode the files have to exist
        if readonly:
            for p in program:
                for n in p:
                    if n != '-':
                        (pathlib.Path(ac.config.cache_dir) / f'{n}_cache.h5').touch()

        def body(i):
            def f():
                for n in program[i]:
                    if n == '-':  # disposed: nothing refers to the file any longer
                        users[i].h5f = None
                        users[i] = User()
                        continue
                    H5cache.get_cache_file(users[i], n)
                    use(users[i], n)
                    use(users[i], n)

            return f

        return [body(i) for i in range(len(program))], users

    return make


def use(u, n):
    f = u.h5f
    expect(f is not None, 'nofile', f'no file for {n}')
    expect(pathlib.Path(f.filename).name == f'{n}_cache.h5', 'wrong-file', f'{f.filename} instead of {n}')
    f.check()


def explore(ck, tag, make, judge, files, bound, opcodes, part, limit=None):
    def visit(ex, plan, fin):
        name = ','.join(f'{a}>{b}' for a, b in plan.items()) or '-'

        def check():
            ck.step(tag, ex.step, name)
            if ex.verdict == 'stuck':
                ck.capped.append(f'{tag}: a schedule waits outside the control of the scheduler')
                return
            expect(ex.verdict is None, ex.verdict or '', f'{ex.verdict} after {ex.step} steps')
            for e in ex.error:
                if e is not None:
                    raise e
            ck.outcome(tag, judge(fin))

        ck.case(f'{tag}/{name}', check)
        ck.extra['schedules'] = ck.extra.get('schedules', 0) + 1
        ck.transitions += ex.step

    n, left = sched.explore(make, files, bound, opcodes, limit, visit, part=part)
    if left:
        ck.capped.append(f'{tag}: stopped after {n} schedules')


def judge_registry(users):
    expect(not any(f.twice for f in LOG), 'opened-twice', 'a file was opened while it was still open')
    in_use = {id(u.h5f) for u in users if u.h5f is not None}
    for f in LOG:
        if id(f) in in_use:
            f.check()
            expect(H5cache.open_files.get(pathlib.Path(f.filename)) is f, 'unregistered', f'{f.filename} is open but not registered')
    # everything else is closed by the next one
    other = User()
    H5cache.get_cache_file(other, 'other')
    for f in LOG:
        if f is not other.h5f and id(f) not in in_use:
            expect(not f.open, 'left-open', f'{pathlib.Path(f.filename).name} is not used by any object')
    refs = {k.name.split('_')[0]: v for k, v in H5cache.open_file_reference.items()}
    return tuple(sorted((pathlib.Path(f.filename).name, f.open) for f in LOG)), tuple(sorted(refs.items()))


def registry(ck, it):
    tag, program, bound, opcodes, readonly, part = it
    d = pathlib.Path.cwd()
    ac.config.cache_dir = str(d)
    ac.config.global_caching = 'readonly' if readonly else 'all'
    old = h5cache._get_cachefile_class
    h5cache._get_cachefile_class = lambda: File
    try:
        explore(ck, tag, fixed(program, readonly), judge_registry, ('acoular/h5cache.py',), bound, opcodes, part)
    finally:
        h5cache._get_cachefile_class = old
        ac.config.global_caching = 'none'


def numbers(n):
    for i in range(n):
        x = i
        yield x


def generator(ck, it):
    tag, threads, n, bound, opcodes, fail_at, part = it

    def source():
        for i in range(n):
            if i == fail_at:
                raise OSError('injected')
            x = i
            yield x

    def make():
        lg = LockedGenerator(source())
        got = [[] for _ in range(threads)]

        def body(i):
            def f():
                while True:
                    try:
                        got[i].append(next(lg))
                    except StopIteration:
                        got[i].append('end')
                        break
                    except OSError:
                        got[i].append('error')

            return f

        return [body(i) for i in range(threads)], got

    def judge(got):
        every = sorted(x for g in got for x in g if isinstance(x, int))
        want = list(range(n if fail_at is None else fail_at))
        expect(every == want, 'handout', f'{got} instead of each of {want} once')
        for g in got:
            ints = [x for x in g if isinstance(x, int)]
            expect(ints == sorted(ints), 'order', f'{got}')
            expect(g[-1] == 'end', 'end', f'{got}')
        expect(sum(g.count('error') for g in got) == (fail_at is not None), 'error', f'{got}')
        return tuple(map(tuple, got))

    explore(ck, tag, make, judge, ('acoular/process.py', 'checks/c06.py'), bound, opcodes, part)


def caches(ck, it):
    """Two time data caches with real files, running in two threads."""
    tag, lib, same, bound, part = it
    x = [td.pattern(5, 2, 0), td.pattern(5, 2, 0 if same else 1)]
    env = cachekit.env(lib)
    env.__enter__()
    top = ac.config.cache_dir
    count = [0]

    def make():
        cachekit.close_all()
        count[0] += 1
        d = pathlib.Path(top) / str(count[0])
        d.mkdir()
        ac.config.cache_dir = str(d)
        objs = [ac.Cache(source=td.src(x[i], 'reuse', tag=0 if same else i)) for i in range(2)]
        got = [[], []]

        def body(i):
            def f():
                for b in objs[i].result(3):
                    got[i].append(np.array(b))

            return f

        return [body(0), body(1)], (objs, got)

    def judge(fin):
        objs, got = fin
        for i in (0, 1):
            expect(td.close(np.concatenate(got[i]), x[i], 1e-12), 'value', f'thread {i}: {got[i]}')
            again = np.concatenate([np.array(b) for b in objs[i].result(2)])
            expect(td.close(again, x[i], 1e-12), 'again', f'thread {i}: {again.tolist()}')
        return len(got)

    try:
        explore(ck, tag, make, judge, ('acoular/h5cache.py', 'acoular/process.py'), bound, False, part)
    finally:
        env.__exit__(None, None, None)


def dispatch(ck, it):
    globals()[it[0]](ck, it[1])


def run(ck):
    ck.rule(
        'every schedule within the preemption bound (scheduling points: every line or bytecode of h5cache.py / process.py, every lock acquisition) of 2-3 threads '
        'that obtain, use, switch and dispose cache files (recording stand-in files), share a locked generator (also one that fails), or run time data caches on real files'
    )
    ck.assume('CPython memory model; writing to the HDF5 files themselves is not thread safe in the HDF5 libraries and only explored for the time data cache')
    ac.config.global_caching = 'none'
    q = ck.quick
    W = 8
    items = []
    progs = [(('a', 'b'), ('a', 'b')), (('a', 'b'), ('b', 'a')), (('a', 'a'), ('a', '-', 'b')), (('a', '-', 'c'), ('b', 'a'))]
    for p in progs:
        n = '_'.join(''.join(x) for x in p)
        for w in range(W):
            items.append(('registry', (f'reg-{n}-l{1 if q else 2}', p, 1 if q else 2, False, False, (w, W))))
            items.append(('registry', (f'reg-{n}-ro', p, 1, False, True, (w, W))))
            if not q:
                items.append(('registry', (f'reg-{n}-o1', p, 1, True, False, (w, W))))
    one = [(('a',), ('a',)), (('a',), ('b',)), (('a',), ('a',), ('b',))]
    for p in one:
        n = '_'.join(''.join(x) for x in p)
        for w in range(W):
            b = 1 if q and len(p) > 2 else 2
            items.append(('registry', (f'reg-{n}-l{b}', p, b, False, False, (w, W))))
            if q and len(p) > 2:
                continue
            items.append(('registry', (f'reg-{n}-o1', p, 1, True, False, (w, W))))
    gens = [(2, 2, 1, True, None), (2, 2, 2, False, None), (3, 2, 1, False, None), (2, 3, 2, False, 1)]
    if not q:
        gens += [(2, 2, 2, True, None), (2, 3, 2, False, None), (3, 2, 2, False, None), (3, 2, 1, True, None), (2, 3, 4, False, None), (2, 3, 2, True, 1), (3, 2, 3, False, 0)]
    for t, n, b, o, f in gens:
        for w in range(W):
            items.append(('generator', (f'gen-t{t}n{n}{"o" if o else "l"}{b}-f{f}', t, n, b, o, f, (w, W))))
    for lib in ('tables', 'h5py'):
        for same in (True, False):
            for w in range(W):
                items.append(('caches', (f'cache-{lib}-{"same" if same else "other"}', lib, same, 1 if q else 2, (w, W))))
    ck.parallel(dispatch, items)
