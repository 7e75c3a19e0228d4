"""C04: a crash while caching never leads to wrong results afterwards.

Kills: every execution runs in a forked process which ends itself (mc/native/crash.c, preloaded)
immediately before the n-th system call that changes a cache file, or in the middle of it, for every
n. Interruptions: an exception is raised at the n-th executed line of the library (or instead of the
n-th call of the HDF5 layer, or instead of the n-th block of the source), for every n.
"""

import ast
import contextlib
import ctypes
import functools
import gc
import io
import itertools
import os
import pathlib
import pickle
import shutil
import sys
import tempfile

import acoular as ac
import numpy as np
from acoular import h5files
from traits.api import Delegate, Instance

from mc import cachekit, fd, td
from mc.core import REPO, Mismatch, expect, fail

SRC = str(REPO / 'acoular')
# the files whose lines are interrupted
FILES = ('h5cache.py', 'h5files.py', 'process.py', 'spectra.py', 'fbeamform.py', 'base.py')


class Kind:
    """A fresh object, its operations, and the complete results that are compared in the end."""

    def __init__(self, name):
        self.name = name

    def make(self):
        n = self.name
        if n == 'time':
            return ac.Cache(source=Source(inner=td.src(td.pattern(7, 2), 'reuse')))
        if n == 'ps':
            return fd.spectra(cached=True)
        if n == 'psf':
            return ac.fbeamform.PointSpreadFunction(steer=fd.steer(), freq=800.0)
        if n == 'psBase':
            ps = fd.spectra(cached=True)
            ps.ind_low, ps.ind_high = 3, 7
            return fd.beamformer('Base', ps, cached=True)
        return fd.beamformer(n, fd.imported(), cached=True)

    @property
    def ops(self):
        if self.name == 'time':
            return ('full', 'part', 'left', 'one')
        if self.name == 'ps':
            return ('csm', 'eva', 'eve')
        if self.name == 'psf':
            return ((1,), (3, 1), ())
        return ((1, 2), (1, 3), (0, None))

    def do(self, obj, op):
        if self.name == 'time':
            g = obj.result(9 if op == 'one' else 3)
            out = [np.array(b) for b in itertools.islice(g, None if op in ('full', 'one') else 1)]
            if op == 'part':
                g.close()
            elif op == 'left':
                LEFT.append(g)
            return np.concatenate(out)
        if self.name == 'ps':
            return np.array(getattr(obj, op)[:])
        if self.name == 'psf':
            obj.grid_indices = np.array(op, dtype=int)
            return np.array(obj.psf)
        return np.array(obj.result[slice(*op)])

    def everything(self, obj=None):
        obj = obj or self.make()
        if self.name == 'ps':
            return [self.do(obj, o) for o in self.ops]
        return [self.do(obj, 'full' if self.name == 'time' else self.ops[2])]

    def reference(self):
        if not hasattr(self, '_ref'):
            old = ac.config.global_caching
            ac.config.global_caching = 'none'
            self._ref = self.everything()
            ac.config.global_caching = old
        return self._ref

    def compare(self, got):
        for g, w in zip(got, self.reference()):
            expect(td.close(g, w, 1e-9), 'wrong-result', lambda g=g, w=w: f'got {g.tolist()} instead of {w.tolist()}'[:400])


LEFT = []


class Source(ac.SamplesGenerator):
    """Passes a source on; can be told to fail at a given block."""

    inner = Instance(ac.SamplesGenerator)
    num_channels = Delegate('inner')
    num_samples = Delegate('inner')
    sample_freq = Delegate('inner')
    digest = Delegate('inner')

    def result(self, num):
        for i, b in enumerate(self.inner.result(num)):
            if FAIL.at == i:
                FAIL.at = None
                raise OSError('injected: block of the source')
            yield b


class FAIL:
    at = None


KINDS = {n: Kind(n) for n in ('time', 'ps', 'psf', 'psBase', 'Base', 'CMF')}


# -- kills -----------------------------------------------------------------------------------------


def native():
    return ctypes.CDLL(os.environ['LD_PRELOAD'])


def child(fn, *args):
    """Runs fn in a forked process: (exit code, what it returned)."""
    rd, wr = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(rd)
            sys.stdout = io.StringIO()
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            try:
                res, code = ('value', fn(*args)), 0
            except BaseException as e:  # noqa: BLE001
                res = ('raised', f'{type(e).__name__}: {str(e).strip().splitlines()[-1:]}')
            data = memoryview(pickle.dumps(res))
            while data:
                data = data[os.write(wr, data) :]
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        data = f.read()
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    return code, (pickle.loads(data) if data else None)


def use(d, lib, mode='all'):
    ac.config.h5library = lib
    ac.config.cache_dir = str(d)
    ac.config.global_caching = mode


def run_ops(d, lib, kind, ops):
    """One process that does all operations with one object and ends regularly."""
    use(d, lib)
    k = KINDS[kind]
    o = k.make()
    for op in ops:
        k.do(o, op)
    o = None
    cachekit.close_all()


def run_counted(d, lib, kind, ops):
    """Number of file operations, and those counts that were visible between two lines."""
    n = native()
    seen = set()

    def lines(frame, event, arg):
        seen.add(n.crash_count())
        return lines

    def calls(frame, event, arg):
        # opening a cache file counts as one operation
        f = frame.f_code.co_filename
        return lines if f.startswith(SRC) and not f.endswith(('h5cache.py', 'h5files.py')) else None

    n.crash_arm(str(d).encode(), -1, 0)
    sys.settrace(calls)
    try:
        run_ops(d, lib, kind, ops)
    finally:
        sys.settrace(None)
    return n.crash_count(), sorted(seen)


def run_killed(d, lib, kind, ops, at, torn):
    native().crash_arm(str(d).encode(), at, torn)
    run_ops(d, lib, kind, ops)


def recover(d, lib, kind, mode):
    use(d, lib, mode)
    out = KINDS[kind].everything()
    cachekit.close_all()
    return out


def new_dir():
    return pathlib.Path(tempfile.mkdtemp(prefix='k', dir=os.getcwd())).resolve()


def prepare(lib, kind, before):
    d = new_dir()
    if before:
        code, res = child(run_ops, d, lib, kind, before)
        expect(code == 0, 'harness', f'{res}')
    return d


def copied(src):
    d = new_dir()
    for f in src.iterdir():
        shutil.copy(f, d / f.name)
    return d


def killed(ck, base, lib, kind, ops, at, torn, strict, modes):
    d = copied(base)
    try:
        code, res = child(run_killed, d, lib, kind, ops, at, torn)
        expect(code == 77, 'harness', f'not killed at {at}: {code} {res}')
        sizes = tuple(sorted((f.name, f.stat().st_size) for f in d.iterdir()))
        ck.step(kind, lib, 'killed', sizes)
        for mode in modes:
            e = copied(d)
            try:
                for again in range(2):  # the second process sees what the first one has repaired
                    code, res = child(recover, e, lib, kind, mode)
                    ck.step(kind, lib, mode, at, torn, again)
                    ck.outcome(kind, lib, mode, code)
                    if code == 3 and res and res[0] == 'raised':
                        # the file was killed in the middle of being written
                        expect(not strict, 'refused', f'{mode}: {res[1]}')
                        break
                    if code and not strict:
                        break
                    expect(code == 0, 'died', f'{mode}: exit code {code}')
                    try:
                        KINDS[kind].compare(res[1])
                    except Mismatch as m:
                        raise m if strict else Mismatch('torn-flush', str(m)) from None
            finally:
                shutil.rmtree(e, ignore_errors=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def kill_item(ck, it):
    _, lib, kind, before, ops, modes = it
    KINDS[kind].reference()
    base = prepare(lib, kind, before)
    try:
        d = copied(base)
        code, res = child(run_counted, d, lib, kind, ops)
        shutil.rmtree(d, ignore_errors=True)
        if code:
            ck.case(f'kill-{kind}-{lib}/{nm(before)}/{nm(ops)}', fail, 'harness', f'{res}')
            return
        n, between = res[1]
        for at in range(n):
            for torn in (0, 1):
                strict = not torn and at in between
                key = f'kill-{kind}-{lib}/{nm(before)}/{nm(ops)}/{at}{"t" if torn else ""}'
                ck.case(key, killed, ck, base, lib, kind, ops, at, torn, strict, modes)
    finally:
        shutil.rmtree(base, ignore_errors=True)


# -- exceptions ------------------------------------------------------------------------------------


@functools.cache
def with_lines(f):
    return {n.lineno for n in ast.walk(ast.parse(pathlib.Path(f).read_text())) if isinstance(n, ast.With)}


class Stop(KeyboardInterrupt):
    """Not an Exception, like an interruption by the user."""


class Lines:
    """Raises at the n-th line (counted over the given files)."""

    def __init__(self, at=-1):
        self.at, self.n, self.where = at, 0, None

    def calls(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(SRC) and f.rsplit('/', 1)[-1] in FILES:
            return self.lines
        return None

    def lines(self, frame, event, arg):
        # (the exit of a with statement is traced before it takes place and cannot be interrupted here)
        if event == 'line' and frame.f_lineno not in with_lines(frame.f_code.co_filename):
            if self.n == self.at:
                self.n += 1
                self.where = f'{frame.f_code.co_filename.rsplit("/", 1)[-1]}:{frame.f_lineno}'
                raise Stop(self.where)
            self.n += 1
        return self.lines

    def __enter__(self):
        sys.settrace(self.calls)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


class Layer:
    """Raises instead of (or directly after) the n-th call of the HDF5 layer."""

    METHODS = (
        'create_extendable_array',
        'create_compressible_array',
        'get_data_by_reference',
        'set_node_attribute',
        'get_node_attribute',
        'append_data',
        'remove_data',
        'is_cached',
        'flush',
    )

    def __init__(self, at=-1, after=False):
        self.at, self.n, self.where, self.after = at, 0, None, after

    def wrap(self, owner, name):
        f = getattr(owner, name)
        me = self

        def g(*a, **kw):
            i, me.n = me.n, me.n + 1
            if i == me.at and not me.after:
                me.where = name
                raise OSError(f'injected: {name}')
            out = f(*a, **kw)
            if i == me.at:
                me.where = name
                raise OSError(f'injected: after {name}')
            return out

        own = name in owner.__dict__
        self.undo.append((owner, name, owner.__dict__.get(name), own))
        setattr(owner, name, g)

    def __enter__(self):
        self.undo = []
        cls = h5files._get_cachefile_class()
        for m in self.METHODS:
            self.wrap(cls, m)
        if ac.config.h5library == 'h5py':
            import h5py

            self.wrap(h5py.Dataset, '__setitem__')
        else:
            import tables

            self.wrap(tables.Array, '__setitem__')
        return self

    def __exit__(self, *a):
        for owner, name, f, own in reversed(self.undo):
            if own:
                setattr(owner, name, f)
            else:
                delattr(owner, name)


class Block:
    """The source fails."""

    def __init__(self, at=-1):
        self.n, self.where = 3, 'source'
        FAIL.at = at

    def __enter__(self):
        return self

    def __exit__(self, *a):
        FAIL.at = None


HOW = {'line': Lines, 'h5': Layer, 'h5after': lambda at=-1: Layer(at, True), 'src': Block}
AFTER = ('same', 'new', 'restart', 'readonly')


def count(lib, kind, before, op, how):
    with cachekit.env(lib), contextlib.redirect_stdout(io.StringIO()):
        k = KINDS[kind]
        o = k.make()
        for b in before:
            k.do(o, b)
        with HOW[how]() as h:
            k.do(o, op)
        LEFT.clear()
        return h.n


def interrupted(ck, lib, kind, before, op, how, at, after):
    k = KINDS[kind]
    with cachekit.env(lib) as d:
        o = k.make()
        for b in before:
            k.do(o, b)
        raised = None
        with HOW[how](at) as h:
            try:
                k.do(o, op)
            except (Stop, OSError) as e:
                raised = e
        ck.step(kind, lib, how, h.where, at)
        ck.outcome(kind, lib, how, h.where, raised is None)
        if raised is not None:
            # the traceback refers to the interrupted frames
            raised.__traceback__ = None
            raised = None
        LEFT.clear()
        if after == 'same':
            got = k.everything(o)
        elif after == 'new':
            got = k.everything()
        else:
            o = None
            gc.collect()
            cachekit.close_all()
            ac.config.global_caching = 'readonly' if after == 'readonly' else 'all'
            got = k.everything()
        k.compare(got)
        ck.step(kind, lib, after, tuple(sorted(f.name for f in d.iterdir())))


def nm(ops):
    return '+'.join(str(o).replace(' ', '').replace('None', '') for o in ops) or '-'


def exc_item(ck, it):
    _, lib, kind, before, op, how, part, parts = it
    KINDS[kind].reference()
    n = count(lib, kind, before, op, how)
    ck.extra['interruption points'] = ck.extra.get('interruption points', 0) + (n if part == 0 else 0)
    for at in range(part, n, parts):
        for after in AFTER if not ck.quick or kind == 'time' else ('same', 'restart'):
            key = f'{how}-{kind}-{lib}/{nm(before)}/{nm([op])}/{at}/{after}'
            ck.case(key, interrupted, ck, lib, kind, before, op, how, at, after)


def item(ck, it):
    (kill_item if it[0] == 'kill' else exc_item)(ck, it)


def run(ck):
    ck.rule(
        'kills: every system call that changes a cache file, killed before it and in the middle of it, for every operation after every shorter '
        'history, both back ends; a later process must deliver the correct results if the kill was visible between two lines of the library '
        '(and, if HDF5 was in the middle of writing, correct results or a refusal); exceptions: every executed line of the caching code, every '
        'HDF5 call (before, after), every source block, followed by reuse of the object, a new object, a new process, read-only caching'
    )
    ck.assume('system calls that have been completed reach the disk in order (no power failure)')
    q = ck.quick
    items = []
    for lib in ('tables', 'h5py'):
        for kind in KINDS if not q else ('time', 'ps', 'psf', 'psBase', 'Base'):
            ops = KINDS[kind].ops
            modes = ('all', 'readonly')
            for o in ops:
                items.append(('kill', lib, kind, (), (o,), modes))
                for b in ops:
                    if not q or b != o and (kind == 'time' or b == ops[0] or o == ops[1]) and kind in ('time', 'ps', 'Base'):
                        items.append(('kill', lib, kind, (b,), (o,), modes))
            if not q:
                items += [('kill', lib, kind, (a,), (b, c), ('all',)) for a, b, c in itertools.product(ops, repeat=3)]
            if kind == 'psBase' and q:
                continue
            for o in ops if not q else ops[-1:] if kind != 'time' else ops[:2]:
                hist = [()] + [(b,) for b in ops if not q and b != o]
                for before in hist:
                    items += [('exc', lib, kind, before, o, 'line', p, 4) for p in range(4)]
            for o in ops:
                for before in [()] + [(b,) for b in ops if b != o and (not q or kind == 'time')]:
                    items += [('exc', lib, kind, before, o, h, 0, 1) for h in ('h5', 'h5after')]
                    if kind == 'time':
                        items.append(('exc', lib, kind, before, o, 'src', 0, 1))
    ck.parallel(item, items)
