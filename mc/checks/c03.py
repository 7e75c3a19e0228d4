"""C03: the caching policy is obeyed.

Every stored result is doubled in the file between two operations ("marked"), so that each value
that is delivered tells where it comes from, without looking into the code.
"""

import itertools
import pathlib

import acoular as ac
import numpy as np

from mc import cachekit, fd, td
from mc.core import expect, fail

POLICIES = ('all', 'ind+', 'ind-', 'readonly', 'overwrite', 'none')
FLAGS = ('freqs', 'gridpts', 'gpos')


def mark(d, lib):
    """Doubles all stored results (not the flags)."""
    for f in sorted(pathlib.Path(d).glob('*.h5')):
        if lib == 'h5py':
            import h5py

            with h5py.File(f, 'a') as h:
                sets = []
                h.visititems(lambda n, o: sets.append(o) if isinstance(o, h5py.Dataset) else None)
                for o in sets:
                    if o.name.split('/')[-1] not in FLAGS:
                        o[...] = o[...] * 2
        else:
            import tables

            with tables.open_file(str(f), 'a') as h:
                for o in h.walk_nodes('/', 'Leaf'):
                    if o.name not in FLAGS and o.shape[0]:
                        o[:] = o[:] * 2


class Entry:
    """Reference model of a stored result: rows -> factor, absent rows are not stored."""

    def __init__(self):
        self.rows = {}

    def read(self, pol, rows, allrows):
        """Factors of the delivered rows; updates what is stored."""
        if pol in ('none', 'ind-'):
            return [1 for _ in rows]
        if pol == 'readonly':
            return [self.rows.get(r, 1) for r in rows]
        if pol == 'overwrite':
            self.rows = {}
        for r in rows:
            self.rows.setdefault(r, 1)
        return [self.rows[r] for r in rows]

    def mark(self):
        self.rows = {r: f * 2 for r, f in self.rows.items()}


class Rows:
    """Beamformers and point spread functions: rows stored separately."""

    def __init__(self, kind):
        self.kind = kind
        self.keys = ((1,), (3, 1), ()) if kind == 'psf' else (1, slice(2, 4), slice(None))
        self.n = 6 if kind == 'psf' else 5

    def make(self, cached):
        if self.kind == 'psf':
            return ac.fbeamform.PointSpreadFunction(steer=fd.steer(), freq=800.0)
        return fd.beamformer(self.kind, fd.imported(), cached=cached)

    def get(self, obj, key):
        if self.kind == 'psf':
            obj.grid_indices = np.array(key, dtype=int)
            return obj.psf.T
        return np.atleast_2d(obj.result[key])

    def rows(self, key):
        if self.kind == 'psf':
            return list(key) or list(range(self.n))
        return list(np.atleast_1d(np.arange(self.n)[key]))

    def policy(self, pol):
        # there is no individual switch for point spread functions
        return 'ind+' if self.kind == 'psf' and pol == 'ind-' else pol

    def start(self):
        return Entry()

    def expected(self, m, pol, key):
        r = self.rows(key)
        if self.kind == 'SODIX':
            # computes all lines up to the highest requested one, starting each with the one before
            fail('harness')
        f = m.read(self.policy(pol), r, range(self.n))
        return self.ref()[r] * np.array(f)[:, None]

    def ref(self):
        if not hasattr(self, '_ref'):
            ac.config.global_caching = 'none'
            self._ref = np.array(self.get(self.make(False), () if self.kind == 'psf' else slice(None)))
        return self._ref

    def stored(self, m):
        return bool(m.rows)


class Spectra:
    """Cross spectral matrix, eigenvalues and eigenvectors; the latter are calculated from the first."""

    kind = 'ps'
    keys = ('csm', 'eva', 'eve')

    def make(self, cached):
        return fd.spectra(cached=cached)

    def get(self, obj, key):
        return getattr(obj, key)[:]

    def start(self):
        return {k: Entry() for k in self.keys}

    def ref(self):
        if not hasattr(self, '_ref'):
            ac.config.global_caching = 'none'
            o = self.make(False)
            self._ref = {k: np.array(self.get(o, k)) for k in self.keys}
        return self._ref

    def expected(self, m, pol, key):
        if pol == 'none' or pol == 'ind-':
            return self.ref()[key]
        e = m[key]
        if key == 'csm' or (e.rows and pol != 'overwrite'):
            return self.ref()[key] * e.read(pol, [0], [0])[0]
        c = m['csm'].read(pol, [0], [0])[0]  # factor of the matrix it is calculated from
        f = c if key == 'eva' else 1
        if pol != 'readonly':
            e.rows = {0: f}
        return self.ref()[key] * f

    def stored(self, m):
        return any(e.rows for e in m.values())


class Time:
    """The time data cache: complete or not; keys: block size, number of blocks requested."""

    kind = 'time'
    keys = ((3, None), (2, 1))

    def make(self, cached):
        return ac.Cache(source=td.src(td.pattern(7, 2), 'reuse'))

    def get(self, obj, key):
        g = obj.result(key[0])
        out = [np.array(b) for b in itertools.islice(g, key[1])]
        g.close()
        return np.concatenate(out)

    def start(self):
        return Entry()

    def ref(self):
        return td.pattern(7, 2)

    def expected(self, m, pol, key):
        part = key[1] is not None
        x = self.ref()[: key[0] * key[1] if part else None]
        if pol == 'none':
            return x
        if pol == 'readonly':
            return x * m.rows.get(0, 1)
        if pol == 'overwrite':
            m.rows = {}
        f = m.rows.get(0, 1)
        if not part:
            m.rows = {0: f}
        if pol == 'overwrite' or 0 not in m.rows:
            m.partial = part
        return x * f

    def stored(self, m):
        return bool(m.rows) or getattr(m, 'partial', False)


def kinds(names):
    for n in names:
        yield n


def get_kind(n):
    return Spectra() if n == 'ps' else Time() if n == 'time' else Rows(n)


KIND = {}


def mode(pol):
    return 'individual' if pol.startswith('ind') else pol


def sequence(ck, kind, lib, seq):
    w = KIND.setdefault(kind, get_kind(kind))
    w.ref()
    with cachekit.env(lib) as d:
        m = w.start()
        for i, (pol, key) in enumerate(seq):
            before = cachekit.stamp(d)
            ac.config.global_caching = mode(pol)
            obj = w.make(pol != 'ind-')
            got = np.array(w.get(obj, key))
            want = w.expected(m, pol, key)
            obj = None
            cachekit.close_all()
            after = cachekit.stamp(d)
            ck.step(kind, lib, pol, str(key), tuple(sorted(after)), i)
            expect(td.close(got, want, 1e-9), 'origin', lambda: f'step {i} {pol} {key}: got {got.tolist()} instead of {want.tolist()}')
            writes = pol in ('all', 'ind+', 'overwrite') or kind in ('psf', 'time') and pol == 'ind-'
            if not writes:
                expect(set(after) <= set(before), 'created', lambda: f'step {i} {pol}: {set(after) - set(before)}')
                expect(before == after, 'modified', lambda: f'step {i} {pol}: files were modified')
            else:
                expect(bool(after), 'not-created', f'step {i} {pol}: no cache file')
            ck.outcome(kind, lib, pol, len(after), before == after)
            # mark everything that is stored (unfinished time data may be used or not)
            if kind != 'time' or m.rows:
                mark(d, lib)
                for e in m.values() if isinstance(m, dict) else (m,):
                    e.mark()


def name(op):
    return op[0][:2] + op[0][-1] + ':' + str(op[1]).replace(' ', '').replace('slice', '').replace('None', '')


def item(ck, it):
    kind, lib, first, depth, ops = it
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (first, *rest)
        ck.case(f'{kind}-{lib}/' + ' '.join(map(name, seq)), sequence, ck, kind, lib, seq)


def run(ck):
    ck.rule(
        'every sequence up to the stated depth of (caching mode and switch, complete or partial query) by consecutive processes sharing a cache '
        'directory, for the time data cache, spectra, point spread functions and beamformers; all stored results are doubled between the '
        'operations, delivered values and files are compared with a reference model of the stored entries'
    )
    q = ck.quick
    ac.config.global_caching = 'none'
    items = []
    plan = [('time', 3), ('ps', 2), ('Base', 2), ('psf', 2)] if q else [('time', 4), ('ps', 3), ('Base', 3), ('psf', 3)]
    plan += [(c, 2) for c in ('Eig', 'Functional', 'Cleansc', 'CMF', 'Capon', 'Music', 'Orth', 'GIB')] if not q else [('Cleansc', 2), ('CMF', 2)]
    for kind, depth in plan:
        ops = [(p, k) for p in POLICIES for k in get_kind(kind).keys]
        for lib in ('tables', 'h5py'):
            items += [(kind, lib, o, depth, ops) for o in ops]
    ck.parallel(item, items)
