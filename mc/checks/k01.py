"""K01: configuration changes take effect, invalid ones are rejected without effect."""

import contextlib
import io
import itertools
import os
import pathlib
import shutil
import sys
import tempfile

import acoular as ac
import numpy as np
from acoular.configuration import Config
from traits.api import List

from mc import cachekit
from mc.core import expect

MODES = ('individual', 'all', 'none', 'readonly', 'overwrite')
LIBS = ('pytables', 'tables', 'h5py')

# -- values ---------------------------------------------------------------------------------------

SETTINGS = (
    *(('global_caching', m, True) for m in MODES),
    *(('global_caching', m, False) for m in ('All', '', 'read', None, 1)),
    *(('h5library', m, None) for m in LIBS),
    *(('h5library', m, False) for m in ('netcdf', '', None, 0)),
    *(('cache_dir', d, True) for d in ('a', './b', 'new')),
    *(('cache_dir', d, False) for d in ('file.txt', 'missing/parent', None, 3)),
    *(('td_dir', d, True) for d in ('a', '.')),
    *(('td_dir', d, False) for d in (None, 3)),
    ('use_traitsui', True, None),
    ('use_traitsui', False, True),
    ('use_traitsui', 'yes', False),
    *((f'have_{m}', v, False) for m in ('tables', 'h5py') for v in (True, False)),
)
NAMES = ('global_caching', 'h5library', 'cache_dir', 'td_dir', 'use_traitsui')
MODULES = {'pytables': 'tables', 'tables': 'tables', 'h5py': 'h5py'}


@contextlib.contextmanager
def without(missing):
    kept = {m: sys.modules.get(m) for m in missing}
    for m in missing:
        sys.modules[m] = None
    try:
        yield
    finally:
        for m, v in kept.items():
            if v is None:
                del sys.modules[m]
            else:
                sys.modules[m] = v


@contextlib.contextmanager
def scratch():
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix='k', dir=here)
    os.chdir(d)
    try:
        os.mkdir('a')
        pathlib.Path('file.txt').write_text('')
        yield pathlib.Path(d)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def settings(ck, first, missing, depth):
    """All sequences of assignments to a configuration of its own."""
    with without(missing):
        if {'tables', 'h5py'} <= set(missing):
            try:
                Config()
            except ImportError:
                return
            expect(False, 'no-library', 'accepted without any HDF5 library')
        for rest in itertools.product(SETTINGS, repeat=depth - 1):
            with scratch() as d:
                c = Config()
                state = {'global_caching': 'individual', 'h5library': 'h5py' if 'tables' in missing else 'pytables', 'td_dir': '.', 'use_traitsui': False, 'cache_dir': None}
                ck.step('have', missing)
                for m in ('tables', 'h5py'):
                    expect(getattr(c, f'have_{m}') is (m not in missing), 'have', lambda m=m: f'have_{m} {getattr(c, f"have_{m}")} without {missing}')
                seen = ''
                for name, value, valid in (first, *rest):
                    seen += f' {name}={value!r}'
                    if valid is None:
                        valid = {'h5library': lambda v: MODULES[v] not in missing, 'use_traitsui': lambda _: c.have_traitsui}[name](value)
                    try:
                        setattr(c, name, value)
                        done = True
                    except Exception:
                        done = False
                    ck.step('set', missing, name, value, tuple(state.values()))
                    expect(done == valid, 'refused' if valid else 'accepted', lambda: f'{"refused" if valid else "accepted"} without {missing}:{seen}')
                    if done:
                        state[name] = value
                    for k in NAMES:
                        if state[k] is None:
                            continue
                        got = getattr(c, k)
                        same = pathlib.Path(got) == pathlib.Path(state[k]) if k.endswith('dir') else got == state[k]
                        expect(same, 'read-back', lambda k=k, got=got: f'without {missing}:{seen}: {k} reads {got!r} instead of {state[k]!r}')
                    if state['cache_dir'] is not None:
                        expect((d / state['cache_dir']).is_dir(), 'directory', lambda: f'{seen}: {state["cache_dir"]} does not exist')
                    expect((d / 'file.txt').is_file() and (d / 'a').is_dir() and not (d / 'missing').exists(), 'files', lambda: f'{seen}: {sorted(d.iterdir())}')
                if state['cache_dir'] is None:
                    expect(pathlib.Path(c.cache_dir).resolve() == d / 'cache' and (d / 'cache').is_dir(), 'default', lambda: f'{seen}: {c.cache_dir}')
                expect((d / 'cache').exists() == (state['cache_dir'] is None), 'default', lambda: f'{seen}: default directory {"missing" if state["cache_dir"] is None else "created"}')
    ck.outcome(first, missing)


# -- effect ---------------------------------------------------------------------------------------

DATA = {k: np.random.RandomState(k).standard_normal((256, 2)) for k in (1, 2)}


class Counting(ac.TimeSamples):
    runs = List(transient=True)

    def result(self, num):
        self.runs.append(1)
        yield from super().result(num)


def make(kind, k, cached=True):
    src = Counting(data=DATA[k], sample_freq=100.0)
    if kind == 'csm':
        return src, lambda o=ac.PowerSpectra(source=src, block_size=128, cached=cached, window='Hanning'): o.csm
    return src, lambda o=ac.Cache(source=src): np.concatenate([b.copy() for b in o.result(100)])


EFFECTS = (
    *(('mode', m) for m in MODES),
    *(('lib', m) for m in ('tables', 'h5py')),
    ('dir', 'a'),
    ('dir', 'n'),
    ('bad', 'global_caching', 'nothing'),
    ('bad', 'h5library', 'zarr'),
    ('bad', 'cache_dir', 'missing/parent'),
    ('use', 'csm', 1),
    ('use', 'csm', 2),
    ('use', 'time', 1),
    ('use', 'time', 1, 'kept'),
    ('write',),
)


def effect(ck, first, depth):
    want = {(k, i): make(k, i) for k in ('csm', 'time') for i in (1, 2)}
    ac.config.global_caching = 'none'
    with scratch():
        want = {k: np.array(v[1]()) for k, v in want.items()}
    for rest in itertools.product(EFFECTS, repeat=depth - len(first) - 1):
        for last in (e for e in EFFECTS if e[0] in ('use', 'write')):
            sequence(ck, (*first, *rest, last), want)
    ck.outcome(first, depth)


def sequence(ck, ops, want):
    old = ac.config.h5library
    with scratch() as d:
        try:
            mode, lib, name = 'individual', 'tables', 'a'
            ac.config.global_caching, ac.config.h5library = mode, lib

            def at(lib, name):
                # files of one library are kept apart from those of the other (compression filters)
                return f'{name}-{lib}'

            ac.config.cache_dir = at(lib, name)
            stored, written = {}, {}
            kept = make('time', 1)
            for op in ops:
                if op[0] == 'mode':
                    mode = ac.config.global_caching = op[1]
                elif op[0] == 'lib':
                    lib = ac.config.h5library = op[1]
                    ac.config.cache_dir = at(lib, name)
                elif op[0] == 'dir':
                    name = op[1]
                    ac.config.cache_dir = at(lib, name)
                elif op[0] == 'bad':
                    with contextlib.suppress(Exception):
                        setattr(ac.config, op[1], op[2])
                        expect(False, 'accepted', lambda op=op: f'{op} in {ops}')
                elif op[0] == 'write':
                    ac.config.td_dir = str(d / at(lib, name))
                    w = ac.WriteH5(source=ac.TimeSamples(data=DATA[1], sample_freq=3.0))
                    w.save()
                    expect(pathlib.Path(w.file).parent.resolve() == d / at(lib, name) and pathlib.Path(w.file).is_file(), 'placed', lambda: f'{ops}: {w.file}')
                    written[pathlib.Path(w.file).name] = at(lib, name)
                else:
                    src, get = kept if 'kept' in op else make(op[1], op[2])
                    del src.runs[:]
                    with contextlib.redirect_stdout(io.StringIO()):
                        got = np.array(get())
                    key = op[1:3]
                    here = stored.setdefault(at(lib, name), set())
                    load = key in here and mode not in ('none', 'overwrite')
                    ck.step('use', op, mode, lib, tuple(sorted(here)))
                    expect(np.allclose(got, want[key], rtol=1e-5, atol=1e-7), 'value', lambda: f'{ops}')
                    expect(bool(src.runs) == (not load), 'computed', lambda: f'{ops}: {op} was {"computed" if src.runs else "loaded"} in mode {mode} in {at(lib, name)} holding {here}')
                    if mode in ('all', 'individual', 'overwrite'):
                        here.add(key)
                    del src, get
            ac.config.global_caching = 'none'
            del kept
            cachekit.close_all()
            found = {}
            for f in d.rglob('*.h5'):
                if f.name in written:
                    expect(f.parent == d / written[f.name], 'placed', lambda f=f: f'{ops}: {f}')
                    continue
                found.setdefault(str(f.parent.relative_to(d)), set())
            for place, keys in found.items():
                nodes = {k: v for k, v in cachekit.read_nodes(d / place).items() if k[0] not in written}
                shapes = {'csm': want['csm', 1].shape, 'time': want['time', 1].shape}
                for kind, shape in shapes.items():
                    n = sum(s == shape for s, _, _ in nodes.values())
                    expect(n == sum(k[0] == kind for k in stored.get(place, ())), 'stored', lambda: f'{ops}: {n} results of kind {kind} in {place}, expected {stored.get(place)}')
            for place, keys in stored.items():
                expect(not keys or place in found, 'stored', lambda place=place, keys=keys: f'{ops}: {keys} not in {place}, only {sorted(found)}')
        finally:
            cachekit.close_all()
            ac.config.h5library = old
            ac.config.global_caching = 'none'
            ac.config.td_dir = '.'


def item(ck, it):
    kind, *a = it
    with contextlib.redirect_stdout(io.StringIO()):
        ck.case('/'.join(str(x) for x in it).replace(' ', ''), {'settings': settings, 'effect': effect}[kind], ck, *a)


def run(ck):
    q = ck.quick
    missing = [(), ('tables',), ('h5py',), ('traitsui',), ('tables', 'h5py'), ('tables', 'traitsui'), ('h5py', 'traitsui')]
    depth = 2 if q else 3
    items = [('settings', s, m, depth) for s in SETTINGS for m in (missing if q else missing[:5])]
    items += [('effect', f, 4 if q else 5) for f in itertools.product(EFFECTS, repeat=2)]
    ck.parallel(item, items)
    ck.rule(f'all sequences of {depth} assignments of valid and invalid values to every option, with every combination of optional packages missing; all '
            f'sequences of up to {4 if q else 5} changes of caching mode, library and directory, refused changes, evaluations of cached objects and file exports, '
            'against a model of which results each directory holds')
