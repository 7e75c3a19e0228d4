"""Small configured objects of every class, their settings with alternatives, and all they deliver.

The settings are found by walking the traits of the object and of everything it refers to, so that
every setting of every class takes part; OVERRIDE lists the alternatives where the type of the trait
does not suggest any.
"""

import itertools
import os
import pathlib
import warnings
import zlib

import acoular as ac
import acoular.aiaa
import h5py
import numpy as np
from traits.api import HasTraits, TraitDictObject, TraitError, TraitListObject

from mc import fd, td, tdsources

SKIP = {
    'digest',
    'basename',
    'h5f',
    'trait_added',
    'trait_modified',
    'cached',
    'name',
    'file',
    'datasets',
    'workers',
    'traits_view',
}
# traits whose value only says how something is computed
# (the settings are still changed: results must stay the same)


class F:
    """An alternative that is made anew whenever it is used."""

    def __init__(self, fn, label):
        self.fn, self.label = fn, label

    def __call__(self):
        return self.fn()


class V(F):
    def __init__(self, value):
        self.value = value
        if isinstance(value, np.ndarray):
            label = f'array{value.shape}#{zlib.crc32(value.tobytes()) % 1000}'
        else:
            label = str(value).replace(' ', '').replace('/', '|')[:24]
        super().__init__(lambda: value.copy() if hasattr(value, 'copy') else value, label)


class I(F):
    """A change of a container in place."""


class World:
    def __init__(self, name, make, out=None, alts=None, skip=(), depth=2, heavy=False, hide=()):
        self.name, self.make, self.out, self.alts, self.skip = name, make, out, alts or {}, set(skip)
        self.depth = depth
        self.hide = set(hide)
        self.heavy = heavy

    def params(self):
        """{path: [alternatives]}"""
        if not hasattr(self, '_params'):
            self._params = discover(self)
        return self._params

    def changes(self, first=False):
        """[(label, path, alternative)]"""
        out = []
        for p, alts in self.params().items():
            for i, a in enumerate(alts[:1] if first else alts):
                out.append((f'{p}={i}:{a.label}', p, a))
        return out

    def fresh(self, seq):
        """A new object with these settings, made in this order."""
        obj = self.make()
        for path, alt in seq:
            assign(obj, path, alt)
        return obj

    def outputs(self, obj, only=None):
        return outputs(obj, self.out, only, self.hide)


def parts(path):
    for p in path.split('.'):
        if '[' in p:
            a, i = p[:-1].split('[')
            yield a, int(i)
        else:
            yield p, None


def resolve(obj, names):
    for a, i in names:
        obj = getattr(obj, a)
        if i is not None:
            obj = obj[i]
    return obj


def assign(obj, path, alt):
    *front, (last, i) = parts(path)
    o = resolve(obj, front)
    v = alt() if isinstance(alt, F) else alt
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if isinstance(alt, I):
            v(getattr(o, last))
        elif i is None:
            setattr(o, last, v)
        else:
            getattr(o, last)[i] = v


KNOWN = {}


def is_deprecated(obj, n):
    """Another name of a trait."""
    key = (type(obj), n)
    if key not in KNOWN:
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter('always')
            try:
                getattr(obj, n)
            except Exception:  # noqa: BLE001
                pass
        KNOWN[key] = any(issubclass(x.category, DeprecationWarning) and f"'{n}'" in str(x.message) for x in seen)
    return KNOWN[key]


def enum_values(ct):
    t = ct.trait_type
    for c in (t, getattr(ct, 'handler', None)):
        v = getattr(c, 'values', None)
        if v is not None and not callable(v):
            return list(v)
        m = getattr(c, 'map', None)
        if isinstance(m, dict):
            return list(m)
        for h in getattr(c, 'handlers', ()) or ():
            m = getattr(h, 'map', None)
            if isinstance(m, dict):
                return list(m)
            v = getattr(h, 'values', None)
            if v is not None and not callable(v):
                return list(v)
    return None


def alternatives(obj, n, value):
    ct = obj.trait(n)
    ev = enum_values(ct)
    if ev is not None:
        return [V(x) for x in ev if x != value and x != 'custom']
    if isinstance(value, (bool, np.bool_)):
        return [V(not value)]
    if isinstance(value, (int, np.integer)):
        return [V(int(value) + 1), V(int(value) * 2)] if value else [V(1)]
    if isinstance(value, (float, np.floating)):
        return [V(float(value) * 1.3 + 0.07)]
    if isinstance(value, np.ndarray) and value.dtype.kind in 'fc' and value.size:
        a = value.copy()
        a.flat[-1] = a.flat[-1] * 1.3 + 0.02
        return [V(a)]
    if isinstance(value, tuple) and value and all(isinstance(x, (int, float)) for x in value):
        return [V((value[0] * 1.3 + 0.05, *value[1:]))]
    return []


# alternatives by class and trait where the type does not tell
def override(obj, n, value):
    table = {
        'invalid_channels': [V([0]), V([1])],
        'channels': [V([1])],
        'sample_freq': [V(float(value or 1) * 1.5)] if isinstance(value, (int, float)) else [],
        'block_size': [V(value * 2)] if isinstance(value, int) else [],
        'freq_range': [V((700.0, 1300.0)), V((500.0, None))],
        'ind_low': [V(2)],
        'ind_high': [V(5), V(-2)],
        'stop': [V(-3), V(9)],
        'start': [V(2)] if isinstance(value, int) else [],
        'seed': [V(7)],
        'num_samples': [V(value + 3)] if isinstance(value, int) else [],
        'eva_list': [V(np.array([-1])), V(np.array([-1, -3]))],
        'grid_indices': [V(np.array([1, 2])), V(np.array([0]))],
        'calcmode': [V('full'), V('block'), V('readonly'), V('single')],
        'up': [V(3)],
        'num_per_average': [V(3)],
        'kernel': None,
        'band': [V(250.0)],
        'order': [V(2)],
        'n_iter': [V(2)],
        'max_iter': [V(2)],
        'shgo': [V({'n': 16, 'iters': 1})],
        'bounds': [V([(-0.2, 0.2), (-0.1, 0.1), (0.4, 0.6)])],
    }
    return table.get(n)


def settable(obj, n):
    ct = obj.trait(n)
    if ct.type in ('event', 'constant'):
        return False
    return not (ct.type == 'property' and ct.property_fields[1].__name__ == '_no_set') if ct.type == 'property' else True


def clone_changed(world, front, n):
    """The nested object of another instance with its first effective change."""

    def fn():
        other = resolve(world.make(), front + [(n, None)])
        for path, alts in discover_in(world, other, '').items():
            if alts and '.' not in path and not path.startswith('source'):
                assign(other, path, alts[0])
                break
        return other

    return F(fn, 'other')


def discover_in(world, obj, prefix, seen=None, depth=0):
    found = {}
    seen = set() if seen is None else seen
    if id(obj) in seen or depth > 5:
        return found
    seen.add(id(obj))
    for n in sorted(obj.trait_names()):
        if n in SKIP or n.startswith('_') or n.endswith('_') or is_deprecated(obj, n):
            continue
        path = f'{prefix}{n}'
        if path in world.skip or n in world.skip:
            continue
        if isinstance(obj, ac.TimeSamples) and n.startswith(('num_channels', 'num_samples')):
            continue  # describe the data
        if path in world.alts:
            found[path] = list(world.alts[path])
            continue
        ct = obj.trait(n)
        if ct.type in ('event', 'constant', 'delegate') or ct.transient and ct.type != 'property':
            continue
        if ct.type == 'property' and not settable(obj, n):
            continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                value = getattr(obj, n)
        except Exception:  # noqa: BLE001
            value = None
        if isinstance(value, HasTraits):
            found.update(discover_in(world, value, path + '.', seen, depth + 1))
            continue
        if isinstance(value, (list, tuple)) and value and all(isinstance(x, HasTraits) for x in value):
            for i, x in enumerate(value):
                found.update(discover_in(world, x, f'{path}[{i}].', seen, depth + 1))
            found[path] = inplace(value)
            continue
        alts = override(obj, n, value)
        if alts is None:
            alts = alternatives(obj, n, value)
        alts = [a for a in alts if not _same(a(), value)]
        good = []
        for a in alts:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    o = type(obj) and resolve(world.make(), list(parts(prefix[:-1]))) if prefix else world.make()
                    setattr(o, n, a())
                good.append(a)
            except (TraitError, ValueError, TypeError, AttributeError, NotImplementedError):
                pass
        good += inplace(value)
        if good:
            found[path] = good
    return found


def inplace(value):
    if not isinstance(value, (TraitListObject, TraitDictObject)):
        return []
    n = len(value)
    out = []
    if isinstance(value, TraitDictObject):
        if n > 2 and all(isinstance(k, float) for k in value):
            out.append(I(lambda: lambda d: d.__delitem__(sorted(d)[-2]), 'del'))
            out.append(I(lambda: lambda d: d.__setitem__(sorted(d)[1], tuple(x + 0.1 for x in d[sorted(d)[1]])), 'item'))
            out.append(I(lambda: lambda d: d.__setitem__(0.6, (0.5, 0.4, 0.3)), 'new'))
        return out
    if n > 1:
        out.append(I(lambda: lambda x: x.pop() if n % 2 else x.__delitem__(slice(-2, None)) if n > 4 else x.pop(), 'pop'))
        out.append(I(lambda: lambda x: x.__setitem__(slice(None), x[-1:] + x[:-1]), 'rotate'))
    if n and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in value):
        out.append(I(lambda: lambda x: x.__setitem__(-1, x[-1] * 2 + 1 if isinstance(x[-1], int) else x[-1] * 1.5 + 0.05), 'item'))
    return out


def _same(a, b):
    try:
        return bool(np.array_equal(np.asarray(a), np.asarray(b)))
    except Exception:  # noqa: BLE001
        return False


def discover(world):
    found = discover_in(world, world.make(), '')
    for path, alts in world.alts.items():
        *front, (last, i) = parts(path)
        try:
            o = resolve(world.make(), front)
        except (AttributeError, IndexError, TypeError):
            continue
        if alts and last in o.trait_names():
            found[path] = list(alts)
    return {p: a for p, a in found.items() if a}


# -- outputs ---------------------------------------------------------------------------------------


def norm(v, depth=0):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('objs', tuple(norm(x, depth + 1) for x in v.ravel()))
        return v.copy()
    if isinstance(v, (bool, int, float, complex, str, type(None), np.generic)):
        return v
    if isinstance(v, (list, tuple, set)) and depth < 4:
        return ('seq', tuple(norm(x, depth + 1) for x in v))
    if isinstance(v, dict) and depth < 4:
        return ('dict', tuple((str(k), norm(x, depth + 1)) for k, x in sorted(v.items(), key=str)))
    if isinstance(v, slice):
        return str(v)
    if type(v).__name__ == 'LazyBfResult':
        return np.array(v[:])
    if hasattr(v, 'shape') and hasattr(v, '__getitem__'):
        return np.array(v[:])
    return None


def stream(obj, num=3, cap=4000):
    out, n = [], 0
    for b in obj.result(num):
        out.append(np.array(b))
        n += len(b)
        if n > cap:
            break
    return np.concatenate(out) if out else np.zeros((0, 0))


def names(obj):
    out = []
    for n in sorted(obj.trait_names()):
        if n in SKIP or n.startswith('_') or is_deprecated(obj, n):
            continue
        ct = obj.trait(n)
        if ct.type in ('property', 'delegate'):
            out.append(n)
    return out


def outputs(obj, extra=None, only=None, hide=()):
    out = {}
    todo = [(n, lambda n=n: getattr(obj, n)) for n in names(obj) if n not in hide]
    if hasattr(obj, 'result') and callable(obj.result) and isinstance(obj, ac.Generator):
        todo.append(('stream', lambda: stream(obj)))
    for k, f in (extra or {}).items():
        todo.append((k, lambda f=f: f(obj)))
    for n, f in todo:
        if only is not None and n not in only:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                v = norm(f())
            except Exception as e:  # noqa: BLE001
                v = f'raises {type(e).__name__}'
        out[n] = v
    return out


def same(a, b, tol=1e-9):
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if type(a) is tuple or type(b) is tuple:
        return False
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return type(a) is type(b) and a == b
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in 'biufc' and y.dtype.kind in 'biufc':
        s = max(1e-300, float(np.nanmax(np.abs(x))) if x.size and np.isfinite(x).any() else 0)
        return bool(np.allclose(x, y, rtol=tol, atol=tol * s if np.isfinite(s) else tol, equal_nan=True))
    return bool(np.array_equal(x, y))


def differing(a, b, tol=1e-9):
    return [k for k in a if k not in b or not same(a[k], b[k], tol)]


# -- the worlds ------------------------------------------------------------------------------------


def samples(n=20, c=2, tag=0, fs=1000.0):
    return ac.TimeSamples(data=td.pattern(n, c, tag), sample_freq=fs)


def steer():
    return ac.SteeringVector(
        grid=ac.RectGrid(x_min=-0.2, x_max=0.2, y_min=-0.1, y_max=0.1, z=0.5, increment=0.2),
        mics=ac.MicGeom(pos_total=fd.MPOS.copy()),
        env=ac.Environment(c=343.0),
        ref=np.array([0.1, 0.2, 0.3]),
        steer_type='true level',
    )


# changing the number of channels of one side only makes every result an error: nothing to compare
GEOM = {'steer.mics.pos_total': [V(fd.MPOS * 1.1)], 'steer.mics.invalid_channels': [], 'mics.invalid_channels': []}


def time_worlds():
    out = []
    n = 24
    for node in td.catalogue() + td.spectral():
        if node.name.startswith(('Write', 'Trigger', 'AngleTracker')) or 'deprecated' in node.name or node.lens:
            continue
        c = 2 if 2 in node.chans else node.chans[-1]

        def make(node=node, c=c):
            return node.make([samples(n, c, i) for i in range(node.nsrc)])

        alts = {}
        for i in range(node.nsrc):
            p = 'source.' * (1 + node.name.count('Spectra') + ('spectra' in node.name) + node.name.startswith('IRFFT')) if i == 0 else f'sources[{i - 1}].'
            alts[f'{p}data'] = [V(td.pattern(n, c, 20 + i))]
        if node.name.startswith('TimeConvolve'):
            alts['kernel'] = [V(td.pattern(2, c, 9)), V(td.pattern(1, 1, 9))]
        if node.name.startswith('MaskedTimeOut'):
            alts['invalid_channels'] = [V([0])] if 'inv' not in node.name else [V([]), V([0])]
        if node.name.startswith('ChannelMixer'):
            alts['weights'] = [V(np.array([2.0, 1.0])), V(np.array([1.0]))]
        if node.name == 'Calib':
            alts['invalid_channels'] = []
        if node.name.startswith('OctaveFilterBank'):
            alts.update(lband=[V(16)], hband=[V(21)])
        skip = []
        if node.name.startswith(('SpatialInterp',)):
            alts['mics.pos_total'] = [F(lambda: td.ring_mics(c).pos_total * 1.3 + 0.01, 'moved')]
            alts['mics.invalid_channels'] = []
            alts['mics_virtual.pos_total'] = [F(lambda: td.ring_mics(c).pos_total[::-1] * 0.9, 'moved')]
            alts['mics_virtual.invalid_channels'] = []
        # the filling level belongs to the run
        out.append(World(f'time-{node.name}', make, None, alts, skip, hide=['level'] if node.name == 'SamplesBuffer' else ()))
    return out


def trigger():
    x = np.zeros((60, 1))
    x[[3, 15, 28, 41, 53]] = 1.0
    return ac.Trigger(source=ac.TimeSamples(data=x, sample_freq=100.0), threshold=0.5, max_variation_of_duration=0.5)


def tracker_worlds():
    def tracker():
        return ac.AngleTracker(source=samples(60, 1, fs=100.0), trigger=trigger())

    def rotation():
        return ac.SpatialInterpolatorRotation(
            source=samples(60, 4, fs=100.0), mics=td.ring_mics(4), array_dimension='ring', angle_source=tracker()
        )

    return [
        World('Trigger', trigger, {'trigger_data': lambda o: o.trigger_data}, {'source.data': []}),
        World('AngleTracker', tracker, None, {'trigger.source.data': [], 'source.data': []}, ['start', 'stop', 'invalid_channels']),
        World('SpatialInterpolatorRotation', rotation, None, {'mics.pos_total': [], 'mics.invalid_channels': []}, ['start', 'stop', 'invalid_channels', 'mics_virtual'], heavy=True),
    ]


def source_worlds():
    out = []
    for name, make, _ in tdsources.sources():
        if not name.endswith('n8'):
            continue
        alts = {'mics.pos_total': [V(tdsources.mics().pos_total * 1.2)], 'mics.invalid_channels': []}
        if name.startswith('MaskedTimeSamples'):
            alts = {'invalid_channels': [V([]), V([0])], 'data': [V(td.pattern(11, 3, 8))]}
        if name.startswith('TimeSamples'):
            alts = {'data': [V(td.pattern(8, 2, 8)), V(td.pattern(6, 1, 8))]}
        if 'Moving' in name:
            alts['trajectory.points'] = [V({0.0: (0.1, 0.1, 1.0), 1.0: (0.1, 0.3, 1.1), 2.0: (0.0, 0.5, 1.0), 3.0: (0.0, 0.7, 1.0)})]
        if name.startswith('SphericalHarmonic'):
            alts['alpha'] = [V(np.array([0.5, 1.0, 0.25, 0.3]))]
            alts['lOrder'] = []
        if 'Line' in name:
            alts['num_sources'] = [V(1)]
            alts['source_strength'] = [V(np.array([0.7, 0.9]))]
        if name.startswith('UncorrelatedNoise'):
            alts['seed'] = [V([4, 5]), V([])]
        if name.startswith('SourceMixer-n'):
            alts['weights'] = [V(np.array([1.0, 3.0])), V(np.array([2.0]))]
            alts['sources[0].data'] = [V(td.pattern(8, 2, 11))]
            alts['sources[0].sample_freq'] = alts['sources[1].sample_freq'] = []
        if name.startswith('PointSourceConvolve'):
            alts['kernel'] = [V(td.pattern(2, 2, 9))]
        out.append(World(f'src-{name[:-3]}', make, None, alts))
    return out


def signal_worlds():
    S = {'signal': lambda o: o.signal(), 'usignal': lambda o: o.usignal(2)}
    k = dict(num_samples=16, sample_freq=1000.0)
    return [
        World('sig-WNoise', lambda: ac.WNoiseGenerator(seed=3, **k), S),
        World('sig-PNoise', lambda: ac.PNoiseGenerator(seed=3, **k), S),
        World('sig-FiltWNoise', lambda: ac.FiltWNoiseGenerator(seed=3, ar=np.array([1.0, 0.5]), ma=np.array([1.0, 0.2]), **k), S),
        World('sig-Sine', lambda: ac.SineGenerator(freq=100.0, amplitude=1.5, phase=0.3, **k), S),
        World(
            'sig-Generic',
            lambda: ac.GenericSignalGenerator(source=samples(10, 1), **k),
            S,
            {'source.data': [V(td.pattern(10, 1, 8)), V(td.pattern(7, 1, 8))]},
        ),
    ]


def grid_worlds():
    def sub(o):
        return [np.concatenate([np.atleast_1d(x) for x in o.subdomain(s)]) for s in (ac.CircSector(x=0.0, y=0.0, r=0.15),)]

    G = {'subdomain': sub, 'extent_': lambda o: getattr(o, 'extent', None)}
    L = {'subdomain': sub}
    r = lambda **k: ac.RectGrid(**{**dict(x_min=-0.2, x_max=0.2, y_min=-0.1, y_max=0.1, z=0.5, increment=0.1), **k})  # noqa: E731
    return [
        World('RectGrid', r, {**G, 'index': lambda o: o.index(0.05, 0.0), 'indices': lambda o: o.indices(-0.1, -0.1, 0.1, 0.1)}),
        World(
            'RectGrid3D',
            lambda: ac.RectGrid3D(x_min=-0.2, x_max=0.2, y_min=-0.1, y_max=0.1, z_min=0.4, z_max=0.6, increment=0.1),
            {**L, 'index': lambda o: o.index(0.05, 0.0, 0.5), 'indices': lambda o: o.indices(-0.1, -0.1, 0.4, 0.1, 0.1, 0.5)},
            {'increment': [V(0.2), V((0.1, 0.2, 0.1))]},
        ),
        World('ImportGrid', lambda: ac.ImportGrid(pos=td.pattern(3, 4, 1)), L, {'pos': [V(td.pattern(3, 4, 2)), V(td.pattern(3, 2, 2))]}),
        World('LineGrid', lambda: ac.LineGrid(loc=(0.0, 0.1, 0.2), direction=(1.0, 0.0, 0.0), length=1.0, num_points=4), L),
        World(
            'MergeGrid',
            lambda: ac.MergeGrid(grids=[r(), r(x_min=0.1, x_max=0.4)]),
            L,
            {'grids': [F(lambda: [r()], 'one'), F(lambda: [r(), r(z=1.0)], 'two')]},
        ),
    ]


def sector_worlds():
    pts = np.array(list(itertools.product(np.linspace(-0.3, 0.3, 7), np.linspace(-0.2, 0.2, 5), (0.3, 0.5)))).T
    C = {'contains': lambda o: o.contains(pts)}
    return [
        World('RectSector', lambda: ac.RectSector(x_min=-0.1, x_max=0.2, y_min=-0.1, y_max=0.1), C),
        World('RectSector3D', lambda: ac.RectSector3D(x_min=-0.1, x_max=0.2, y_min=-0.1, y_max=0.1, z_min=0.2, z_max=0.4), C),
        World('CircSector', lambda: ac.CircSector(x=0.1, y=0.1, r=0.15), C),
        World('PolySector', lambda: ac.PolySector(edges=[-0.1, -0.1, 0.2, -0.1, 0.2, 0.1]), C, {'edges': [V([-0.1, -0.1, 0.2, -0.1, 0.2, 0.1, -0.1, 0.15])]}),
        World('ConvexSector', lambda: ac.ConvexSector(edges=[-0.1, -0.1, 0.2, -0.1, 0.2, 0.1]), C, {'edges': [V([-0.1, -0.1, 0.2, -0.1, 0.2, 0.1, -0.1, 0.15])]}),
        World(
            'MultiSector',
            lambda: ac.MultiSector(sectors=[ac.CircSector(x=0.1, y=0.1, r=0.1), ac.RectSector(x_min=-0.2, x_max=-0.1, y_min=-0.1, y_max=0.1)]),
            C,
            {'sectors': [F(lambda: [ac.CircSector(x=-0.1, y=0.1, r=0.1)], 'one')]},
        ),
    ]


def env_worlds():
    g = np.array([[0.1, -0.2, 0.3], [0.2, 0.1, 0.0], [0.5, 0.6, 0.4]])
    m = np.array([[0.0, 0.3], [0.1, -0.1], [0.0, 0.0]])
    R = {'_r': lambda o: o._r(g, m), '_r0': lambda o: o._r(g)}
    W = {'v': lambda o: [o.v(g[:, i]) for i in range(3)]}
    jets = {
        'SlotJet': lambda: ac.SlotJet(v0=70.0, origin=(-0.3, 0.0, 0.4), B=0.3),
        'OpenJet': lambda: ac.OpenJet(v0=70.0, origin=(-0.3, 0.0, 0.4), D=0.3),
        'RotatingFlow': lambda: ac.RotatingFlow(rpm=300.0, v0=5.0, origin=(0.0, 0.0, 0.0)),
    }
    out = [
        World('Environment', lambda: ac.Environment(c=343.0), R),
        World('UniformFlow', lambda: ac.UniformFlowEnvironment(c=343.0, ma=0.2, fdv=(0.6, 0.0, 0.8)), R),
    ]
    for n, mk in jets.items():
        out.append(World(n, mk, W, {'flow': [V(np.array((0.0, 1.0, 0.0)))], 'plane': [V(np.array((1.0, 0.0, 0.0)))]}))
    out.append(
        World(
            'GeneralFlow',
            lambda: ac.GeneralFlowEnvironment(ff=jets['SlotJet'](), c=343.0, N=20),
            {'_r': lambda o: o._r(g[:, :1], m[:, :1])},
            {'ff.flow': [V(np.array((0.0, 1.0, 0.0)))], 'ff.plane': [], 'ff': [F(jets['OpenJet'], 'OpenJet')]},
            depth=1,
            heavy=True,
        )
    )
    return out


def misc_worlds():
    t = [-0.5, 0.0, 0.4, 1.0, 1.7, 2.0, 3.0]
    T = {
        'location': lambda o: [np.array(o.location(x)) for x in t],
        'speed': lambda o: [np.array(o.location(x, der=1)) for x in t],
        'traj': lambda o: [np.array(x) for x in itertools.islice(o.traj(0.0, 1.5, 0.5), 9)],
    }
    P = {0.0: (0.0, 0.0, 0.5), 1.0: (0.2, 0.1, 0.5), 2.0: (0.3, 0.3, 0.6), 3.0: (0.1, 0.5, 0.7)}
    P2 = {0.0: (0.0, 0.0, 0.5), 1.5: (0.2, 0.1, 0.5), 3.0: (0.3, 0.3, 0.6)}
    S = {'transfer': lambda o: o.transfer(500.0), 'steer_vector': lambda o: o.steer_vector(500.0), 'tind': lambda o: o.transfer(500.0, 1)}
    return [
        World('Trajectory', lambda: ac.Trajectory(points=dict(P)), T, {'points': [V(P2), V({**P, 4.0: (0.0, 0.0, 0.0)})]}),
        World('MicGeom', lambda: ac.MicGeom(pos_total=fd.MPOS.copy()), None, {'pos_total': [V(fd.MPOS[:, :3] * 2)], 'invalid_channels': [V([1]), V([0, 2])]}),
        World(
            'SteeringVector',
            steer,
            S,
            {'mics.pos_total': [V(fd.MPOS[:, :3] * 2)], 'ref': [V(0.7), V(np.array([0.3, 0.2, 0.1]))], 'grid': [F(lambda: fd.grid(z=0.7), 'z0.7')], 'mics': [F(lambda: fd.mics(2), 'two')],
             'env': [F(lambda: ac.UniformFlowEnvironment(ma=0.2), 'flow')]},
        ),
    ]


def spectra_worlds():
    x = fd.signals(400, 2)
    y = fd.signals(300, 3, 4)

    def ps():
        return ac.PowerSpectra(source=ac.TimeSamples(data=x, sample_freq=8000.0), block_size=128, window='Hanning', overlap='50%', cached=False)

    E = {'synthetic_ev': lambda o: o.synthetic_ev(1000.0, 1), 'fftfreq': lambda o: o.fftfreq()}
    A = {
        'source.data': [V(fd.signals(400, 2, 3)), V(y)],
        'source': [F(lambda: ac.TimeSamples(data=y, sample_freq=6000.0), 'other')],
        'ind_low': [V(2)],
        'ind_high': [V(5), V(-2)],
        'freq_range': [V((700.0, 1300.0)), V((500.0, None))],
        'block_size': [V(256)],
    }
    imp = {
        'csm': [V(fd.signals_csm(5, 3, 2)), V(fd.signals_csm(5, 2, 3))],
        'frequencies': [V(fd.FREQS + 100.0), V(np.array([100.0, 300.0, 400.0, 600.0, 700.0]))],
        'freq_range': [V((300.0, 950.0))],
        'ind_low': [V(1)],
        'ind_high': [V(3), V(-1)],
    }
    P = {'psf_': lambda o: o.psf}
    return [
        World('PowerSpectra', ps, E, A),
        World('PowerSpectraImport', fd.imported, {'fftfreq': lambda o: o.fftfreq()}, imp, ['block_size', 'window', 'overlap', 'precision', 'source']),
        World('PSF', lambda: ac.fbeamform.PointSpreadFunction(steer=steer_n(3), freq=800.0), P, {**GEOM, 'steer.mics.pos_total': [V(fd.MPOS[:, :3] * 1.1)], 'grid_indices': [V(np.array([1, 2])), V(np.array([0]))]}),
    ]


def steer_n(n=3):
    s = steer()
    s.mics.pos_total = fd.MPOS[:, :n].copy()
    return s


def beamformer_worlds():
    out = []
    for b in fd.BEAMFORMERS:
        alts = {
            **GEOM,
            'steer.mics.pos_total': [V(fd.MPOS[:, :3] * 1.1)],
            'freq_data.csm': [V(fd.signals_csm(5, 3, 2))],
            'freq_data.frequencies': [V(fd.FREQS + 100.0)],
            'freq_data.freq_range': [],
            'freq_data.ind_low': [V(1)],
            'freq_data.ind_high': [V(3)],
            'steer': [F(lambda: fd.steer(g=fd.grid(z=0.6)), 'other')],
            'freq_data': [F(lambda: fd.imported(1), 'other')],
            'steer.grid': [F(lambda: fd.grid(z=0.7, increment=0.1), 'finer')],
            'steer.ref': [V(0.7)],
            'max_iter': [V(3)],
            'n_iter': [V(2)],
            'n': [V(1)],
        }
        skip = ['freq_data.block_size', 'freq_data.window', 'freq_data.overlap', 'freq_data.precision', 'psf_precision', 'freq_data.source']
        S = {
            'result_': lambda o: o.result[:],
            'synthetic': lambda o: o.synthetic(500.0, 0),
            'band': lambda o: o.synthetic(500.0, 1),
            'integrate': lambda o: o.integrate(ac.CircSector(x=0.0, y=0.0, r=0.15)),
        }
        if b == 'SODIX':
            S.pop('integrate')
        if b not in ('Damas', 'DamasPlus', 'Clean'):
            skip.append('beamformer')
        if b == 'GridlessOrth':
            alts['steer.grid'] = []
            skip.append('steer.grid.increment')
        def make(b=b):
            if b == 'Orth':
                return ac.BeamformerOrth(freq_data=fd.imported(), steer=steer_n(3), eva_list=np.array([-1, -2]))
            return fd.beamformer(b, fd.imported(), steer_n(3))

        hide = ()
        if b == 'GridlessOrth':
            # positions are found together with the result
            S = {**S, 'found': lambda o: o.pos}
            hide = ['pos']
        out.append(World(f'bf-{b}', make, S, alts, skip, depth=1, heavy=True, hide=hide))
    return out


def tbeam_worlds():
    out = []
    P = {0.0: (0.0, 0.0, 0.0), 0.005: (0.05, 0.02, 0.0), 0.01: (0.1, 0.1, 0.0), 0.02: (0.1, 0.1, 0.0)}
    P2 = {0.0: (0.05, 0.0, 0.0), 0.005: (0.05, 0.07, 0.0), 0.01: (0.1, 0.1, 0.1), 0.02: (0.1, 0.1, 0.2)}

    def base():
        s = steer_n(3)
        s.grid.y_max = -0.1
        s.grid.increment = 0.2
        return dict(source=ac.TimeSamples(data=fd.signals(40, 3), sample_freq=8000.0), steer=s)

    traj = dict(trajectory=None)
    for cls, kw in (
        ('BeamformerTime', {}),
        ('BeamformerTimeSq', {'r_diag': True}),
        ('BeamformerTimeTraj', traj),
        ('BeamformerTimeSqTraj', traj),
        ('BeamformerCleant', {'n_iter': 4}),
        ('BeamformerCleantSq', {'n_iter': 4}),
        ('BeamformerCleantTraj', {**traj, 'n_iter': 4}),
        ('BeamformerCleantSqTraj', {**traj, 'n_iter': 4}),
    ):

        def make(cls=cls, kw=kw):
            k = {**base(), **kw}
            if 'trajectory' in k:
                k['trajectory'] = ac.Trajectory(points=dict(P))
            return getattr(ac, cls)(**k)

        alts = {
            **GEOM,
            'steer.mics.pos_total': [V(fd.MPOS[:, :3] * 1.1)],
            'source.data': [V(fd.signals(40, 3, 5))],
            'trajectory.points': [V(P2)],
            'steer.grid.y_max': [V(0.1)],
            'steer.ref': [V(0.7)],
            'rvec': [V(np.array((0.0, 0.0, 1.0)))],
        }
        out.append(World(f'tb-{cls}', make, {'stream8': lambda o: stream(o, 8)}, alts, depth=1, heavy=True))

    return out


FILES = {}


def files():
    """Small files of every kind; the same names in two folders with different content."""
    here = os.getcwd()
    if here in FILES:
        return FILES[here]
    rng = np.random.default_rng(4)
    out = {}
    for d in 'ab':
        base = pathlib.Path(here) / f'files-{os.getpid()}' / d
        base.mkdir(parents=True, exist_ok=True)
        pos = np.round(rng.uniform(-1, 1, (3, 4)), 3)
        with h5py.File(base / 'time.h5', 'w') as f:
            x = f.create_dataset('time_data', data=rng.normal(size=(40, 4)))
            x.attrs['sample_freq'] = 8000.0
            f.create_dataset('metadata/m', data=[1.0 if d == 'a' else 2.0])
        with h5py.File(base / 'aiaa.h5', 'w') as f:
            x = f.create_dataset('MicrophoneData/microphoneDataPa', data=rng.normal(size=(40, 4)))
            x.attrs['sampleRateHz'] = 8000.0
            x = f.create_dataset('TachoData/tachoDataV', data=rng.normal(size=(40, 1)))
            x.attrs['sampleRateHz'] = 8000.0
            x = f.create_group('MetaData/ArrayAttributes')
            x.attrs['microphoneCount'] = 4 if d == 'a' else 3
            x.create_dataset('microphonePositionsM', data=pos.T)
            n = 4 if d == 'a' else 3
            x = f.create_group('CsmData')
            x.attrs['fftSign'] = 1
            a = rng.normal(size=(5, n, n)) + 1j * rng.normal(size=(5, n, n))
            c = a @ a.conj().transpose(0, 2, 1)
            x.create_dataset('csmReal', data=c.real.transpose(1, 2, 0))
            x.create_dataset('csmImaginary', data=c.imag.transpose(1, 2, 0))
            fr = x.create_dataset('binCenterFrequenciesHz', data=np.arange(5) * 100.0 + (100.0 if d == 'b' else 0.0))
            fr.attrs['frequencyBinCount'] = 5
        xml = ''.join(f'<pos Name="P{i}" x="{p[0]}" y="{p[1]}" z="{p[2]}" factor="{abs(p[0]) + 1}" subgrid="{d}{i % 2}"/>' for i, p in enumerate(pos.T))
        (base / 'pos.xml').write_text(f'<?xml version="1.1" encoding="utf-8"?><M name="x">{xml}</M>')
        out[d] = base
    FILES[here] = out
    return out


def file_worlds():
    def at(kind, d='a'):
        return str(files()[d] / kind)

    def other(kind):
        return {'file': [F(lambda: at(kind, 'b'), 'b')]}

    S = {'stream3': lambda o: stream(o, 3)}
    C = {**{k: (lambda o, k=k: getattr(o, k)[:]) for k in ('csm', 'eva', 'eve')}, 'fftfreq': lambda o: o.fftfreq()}
    T = ['data', 'num_samples', 'num_channels', 'sample_freq', 'num_samples_total', 'num_channels_total', 'metadata', 'calib']
    P = ['csm', 'frequencies', 'ind_low', 'ind_high', 'freq_range', 'block_size', 'window', 'overlap', 'source']
    A = ac.aiaa
    return [
        World('TimeSamples-file', lambda: ac.TimeSamples(file=at('time.h5')), S, other('time.h5'), T),
        World('MaskedTimeSamples-file', lambda: ac.MaskedTimeSamples(file=at('time.h5')), S, other('time.h5'), T),
        World('Masked-calib-file', lambda: ac.Calib(file=at('pos.xml'), source=ac.TimeSamples(file=at('time.h5'))), S, {**other('pos.xml'), 'source.file': other('time.h5')['file']}, ['num_mics', 'invalid_channels', *('source.' + t for t in T)]),
        World('MicGeom-file', lambda: ac.MicGeom(file=at('pos.xml')), {}, other('pos.xml'), ['pos_total']),
        World('ImportGrid-file', lambda: ac.ImportGrid(file=at('pos.xml')), {}, other('pos.xml'), ['pos', 'subgrids', 'gpos_file']),
        World('TimeSamplesAIAA', lambda: A.TimeSamplesAIAABenchmark(file=at('aiaa.h5')), S, other('aiaa.h5'), T),
        World('TriggerAIAA', lambda: A.TriggerAIAABenchmark(file=at('aiaa.h5')), S, other('aiaa.h5'), T),
        World('MicAIAA', lambda: A.MicAIAABenchmark(file=at('aiaa.h5')), {}, other('aiaa.h5'), ['pos_total']),
        World('CsmAIAA', lambda: A.CsmAIAABenchmark(file=at('aiaa.h5')), C, other('aiaa.h5'), P),
    ]


def worlds():
    out = []
    for f in (file_worlds, grid_worlds, sector_worlds, env_worlds, misc_worlds, signal_worlds, spectra_worlds, time_worlds, tracker_worlds, source_worlds, tbeam_worlds, beamformer_worlds):
        out += f()
    for w in out:
        if w.name in ('src-SourceMixer-sim', 'src-MovingLineSource', 'SpatialInterpolatorRotation'):
            w.depth = 1
    return out
