"""C02: cached spectra, source maps and point spread functions equal uncached ones."""

import itertools

import acoular as ac
import numpy as np

from mc import cachekit, fd, td
from mc.core import expect

FREQS = (800.001, 800.004)


class World:
    """settings: name -> index into the alternatives."""

    ALT = {}
    KEYS = ()

    def __init__(self):
        self.s = dict.fromkeys(self.ALT, 0)
        self.old = []
        self.obj = self.make(self.s)

    def val(self, s, k):
        return self.ALT[k][s[k]]

    def flip(self, k):
        self.s[k] = (self.s[k] + 1) % len(self.ALT[k])
        self.change(k)

    def ref(self, key):
        k = (type(self).__name__, getattr(self, 'cls', ''), tuple(sorted(self.s.items())), str(key))
        if k not in REFS:
            old = ac.config.global_caching
            ac.config.global_caching = 'none'
            REFS[k] = np.array(self.get(self.make(self.s), key))
            ac.config.global_caching = old
        return REFS[k]


REFS = {}


class Spectra(World):
    ALT = {'data': (0, 1), 'bs': (128, 256), 'precision': ('complex128', 'complex64'), 'cached': (True, False)}
    KEYS = ('csm', 'eva', 'eve')

    def make(self, s):
        return fd.spectra(tag=self.val(s, 'data'), bs=self.val(s, 'bs'), precision=self.val(s, 'precision'), cached=self.val(s, 'cached'))

    def change(self, k):
        if k == 'data':
            t = self.val(self.s, k)
            self.obj.source = td.src(fd.signals(300, 3, t), 'fresh', fd.FS, t)
        else:
            setattr(self.obj, {'bs': 'block_size'}.get(k, k), self.val(self.s, k))

    def get(self, obj, key):
        return getattr(obj, key)[:]


class Beam(World):
    ALT = {'data': (0, 1), 'r_diag': (True, False), 'precision': ('float64', 'float32'), 'cached': (True, False), 'steer': ('true level', 'classic')}
    KEYS = (1, slice(2, 4), slice(None))

    def __init__(self, cls):
        self.cls = cls
        if cls in fd.FIXED_DIAG:
            self.ALT = {k: v for k, v in self.ALT.items() if k != 'r_diag'}
        super().__init__()

    def make(self, s):
        k = {} if 'r_diag' not in s else {'r_diag': self.val(s, 'r_diag')}
        ps = fd.imported(tag=self.val(s, 'data'))
        return fd.beamformer(self.cls, ps, fd.steer(st=self.val(s, 'steer')), precision=self.val(s, 'precision'), cached=self.val(s, 'cached'), **k)

    def change(self, k):
        v = self.val(self.s, k)
        if k == 'data':
            self.obj.freq_data.csm = fd.signals_csm(5, 3, v)
        elif k == 'steer':
            self.obj.steer.steer_type = v
        else:
            setattr(self.obj, k, v)

    def get(self, obj, key):
        r = obj.result[key]
        if self.cls == 'GridlessOrth' and key == slice(None):
            return np.concatenate([r, obj.pos], axis=0)
        return r


class Psf(World):
    ALT = {'freq': FREQS, 'precision': ('float64', 'float32'), 'steer': ('true level', 'classic'), 'calcmode': ('single', 'block', 'full')}
    KEYS = ((), (1,), (4, 0), (2, 2, 3))

    def make(self, s):
        return ac.fbeamform.PointSpreadFunction(
            steer=fd.steer(st=self.val(s, 'steer')), freq=self.val(s, 'freq'), precision=self.val(s, 'precision'), calcmode=self.val(s, 'calcmode')
        )

    def change(self, k):
        v = self.val(self.s, k)
        if k == 'steer':
            self.obj.steer.steer_type = v
        else:
            setattr(self.obj, k, v)

    def get(self, obj, key):
        obj.grid_indices = np.array(key, dtype=int)
        return obj.psf


MAKERS = {'ps': Spectra, 'psf': Psf, **{c: (lambda c=c: Beam(c)) for c in fd.BEAMFORMERS}}


def name(op):
    if op[0] == 'get':
        return op[1][:2] + ':' + str(op[2]).replace(' ', '').replace('slice', '').replace('None', '')
    return op[0].upper() if len(op) == 1 else '~' + op[1]


def close(a, b):
    tol = 1e-6 if a.dtype.itemsize == 4 or (np.iscomplexobj(a) and a.dtype.itemsize == 8) else 1e-10
    return td.close(a, b, tol)


def sequence(ck, kind, lib, seq):
    with cachekit.env(lib) as d:
        w = MAKERS[kind]()
        for n, op in enumerate((*seq, ('end',))):
            if op[0] == 'get':
                queries = [(op[1], op[2])]
            elif op[0] == 'flip':
                w.flip(op[1])
                queries = []
            elif op[0] == 'new':
                w.old.append((w.obj, dict(w.s)))
                w.obj = w.make(w.s)
                queries = []
            elif op[0] == 'restart':
                w.old = []
                w.obj = None
                cachekit.close_all()
                w.obj = w.make(w.s)
                queries = []
            else:
                queries = [('all', k) for k in w.KEYS]
            for mode, key in queries:
                ac.config.global_caching = mode
                got = np.array(w.get(w.obj, key))
                want = w.ref(key)
                ck.step(kind, lib, tuple(w.s.items()), mode, str(key), n, len(list(d.iterdir())))
                expect(got.shape == want.shape, 'shape', lambda: f'{name(("get", mode, key))}: {got.shape} instead of {want.shape}')
                expect(got.dtype == want.dtype, 'dtype', lambda: f'{got.dtype} instead of {want.dtype}')
                expect(close(got, want), 'value', lambda: f'step {n} {mode} {key}: {got.tolist()} instead of {want.tolist()}')
        # objects that were used before still deliver their results
        now = w.obj
        for obj, s in w.old:
            w.s = s
            for key in w.KEYS:
                expect(close(np.array(w.get(obj, key)), w.ref(key)), 'value', f'older object {key}')
        w.obj = now
        ck.outcome(kind, lib, tuple(sorted((k[0].split('_')[0], v[0]) for k, v in cachekit_nodes(d))))


def cachekit_nodes(d):
    cachekit.close_all()
    return cachekit.read_nodes(d).items()


def operations(kind, modes, keys=None):
    w = MAKERS[kind]()
    ops = [('get', m, k) for m in modes for k in (keys or w.KEYS)]
    ops += [('flip', k) for k in w.ALT]
    return [*ops, ('new',), ('restart',)]


def item(ck, it):
    kind, lib, first, depth, ops = it
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (*first, *rest)
        ck.case(f'{kind}-{lib}/' + ' '.join(map(name, seq)), sequence, ck, kind, lib, seq)


def run(ck):
    ck.rule(
        'every sequence up to the stated depth of queries (single, partial, complete) in each caching mode, changes of settings and data, '
        'further objects and process restarts on one cache directory; every returned array compared with the result of a fresh object without caching'
    )
    ck.assume('float tolerance 1e-10 relative to the largest value (1e-6 for single precision)')
    q = ck.quick
    ac.config.global_caching = 'none'
    items = []
    four = ('all', 'readonly', 'overwrite', 'individual')
    plan = [('ps', 3 if not q else 2, cachekit.MODES, None), ('Base', 3 if not q else 2, cachekit.MODES, None), ('psf', 2, cachekit.MODES, None)]
    plan += [('ps', 3, ('all', 'readonly', 'overwrite'), ('csm', 'eva')), ('Base', 3, ('all', 'readonly', 'overwrite'), (1, slice(2, 4))), ('psf', 3, ('all', 'readonly'), ((1,), (4, 0)))]
    for c in fd.BEAMFORMERS:
        if c in ('Base', 'SODIX', 'GridlessOrth'):
            continue
        plan.append((c, 2, ('all', 'readonly') if q else four, (1, slice(2, 4))))
    plan.append(('SODIX', 2, ('all', 'readonly') if q else four, (1, slice(2, 4))))
    plan.append(('GridlessOrth', 2, ('all', 'readonly') if q else four, (1, slice(None))))
    for kind, depth, modes, keys in plan:
        for lib in ('tables', 'h5py'):
            if q and lib == 'h5py' and (depth > 2 or kind not in ('ps', 'Base', 'psf', 'GridlessOrth')):
                continue
            ops = operations(kind, modes, keys)
            items += [(kind, lib, (o,), depth, ops) for o in ops]
    items.sort(key=lambda i: -i[3])
    ck.parallel(item, items)
