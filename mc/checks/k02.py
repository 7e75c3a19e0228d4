"""K02: deprecated names are faithful aliases of the names that replace them."""

import contextlib
import importlib
import inspect
import io
import itertools
import pkgutil
import warnings

import acoular as ac
import numpy as np
from traits.api import HasTraits

from mc.checks.k01 import scratch
from mc.core import expect

# (class, deprecated name): (name that replaces it, only for reading)
ALIASES = {
    ('CsmAIAABenchmark', 'name'): ('file', False),
    ('Generator', 'numchannels'): ('num_channels', False),
    ('Generator', 'numsamples'): ('num_samples', False),
    ('TimeOut', 'numchannels'): ('num_channels', True),
    ('TimeOut', 'numsamples'): ('num_samples', True),
    ('SpectraOut', 'numchannels'): ('num_channels', True),
    ('SpectraOut', 'numsamples'): ('num_samples', True),
    ('SpectraOut', 'numfreqs'): ('num_freqs', True),
    ('InOut', 'numchannels'): ('num_channels', True),
    ('InOut', 'numsamples'): ('num_samples', True),
    ('Calib', 'from_file'): ('file', False),
    ('BeamformerDamasPlus', 'max_iter'): ('n_iter', False),
    ('BeamformerCleansc', 'n'): ('n_iter', False),
    ('BeamformerCMF', 'max_iter'): ('n_iter', False),
    ('BeamformerSODIX', 'max_iter'): ('n_iter', False),
    ('BeamformerGIB', 'max_iter'): ('n_iter', False),
    ('RFFT', 'numfreqs'): ('num_freqs', True),
    ('RFFT', 'numsamples'): ('num_samples', True),
    ('IRFFT', 'numsamples'): ('num_samples', True),
    ('CrossPowerSpectra', 'numchannels'): ('num_channels', True),
    ('Grid', 'gpos'): ('pos', False),
    ('RectGrid', 'gpos'): ('pos', True),
    ('ImportGrid', 'from_file'): ('file', False),
    ('ImportGrid', 'gpos_file'): ('pos', False),
    ('LineGrid', 'gpos'): ('pos', True),
    ('LineGrid', 'numpoints'): ('num_points', False),
    ('MergeGrid', 'gpos'): ('pos', True),
    ('MicGeom', 'mpos_tot'): ('pos_total', False),
    ('MicGeom', 'mpos'): ('pos', True),
    ('MicGeom', 'from_file'): ('file', False),
    ('Average', 'naverage'): ('num_per_average', False),
    ('Average', 'numsamples'): ('num_samples', True),
    ('SoundDeviceSamplesGenerator', 'numchannels'): ('num_channels', False),
    ('SoundDeviceSamplesGenerator', 'numsamples'): ('num_samples', False),
    ('SoundDeviceSamplesGenerator', 'collectsamples'): ('collect_samples', False),
    ('SignalGenerator', 'numsamples'): ('num_samples', False),
    ('GenericSignalGenerator', 'rms'): ('amplitude', False),
    ('TimeSamples', 'name'): ('file', False),
    ('MaskedTimeSamples', 'numchannels_total'): ('num_channels_total', False),
    ('MaskedTimeSamples', 'numsamples_total'): ('num_samples_total', False),
    ('MaskedTimeSamples', 'numchannels'): ('num_channels', True),
    ('MaskedTimeSamples', 'numsamples'): ('num_samples', True),
    ('PointSource', 'numchannels'): ('num_channels', True),
    ('PointSource', 'numsamples'): ('num_samples', True),
    ('UncorrelatedNoiseSource', 'numchannels'): ('num_channels', True),
    ('SourceMixer', 'numchannels'): ('num_channels', True),
    ('SourceMixer', 'numsamples'): ('num_samples', True),
    ('BaseSpectra', 'numchannels'): ('num_channels', True),
    ('BaseSpectra', 'time_data'): ('source', False),
    ('MaskedTimeOut', 'numchannels_total'): ('num_channels_total', False),
    ('MaskedTimeOut', 'numsamples_total'): ('num_samples_total', False),
    ('FilterBank', 'numbands'): ('num_bands', True),
    ('WriteWAV', 'name'): ('file', False),
    ('WriteH5', 'name'): ('file', False),
    ('WriteH5', 'numsamples_write'): ('num_samples_write', False),
    ('WriteH5', 'writeflag'): ('write_flag', False),
}


def classes():
    out = {}
    for m in [ac, *(importlib.import_module(i.name) for i in pkgutil.walk_packages(ac.__path__, 'acoular.') if '.demo' not in i.name)]:
        for n, c in vars(m).items():
            if inspect.isclass(c) and issubclass(c, HasTraits) and c.__module__.startswith('acoular') and not n.startswith('_'):
                out[n] = c
    return out


def aliases(cls):
    out = {}
    for c in reversed(cls.__mro__):
        for (n, old), v in ALIASES.items():
            if n == c.__name__:
                out[old] = v
        # a class that defines the name itself has replaced the alias
    return out


FILES = ('mics.xml', 'calib.xml', 'grid.xml', 'data.h5')


def write_files():
    open('mics.xml', 'w').write('<?xml version="1.0"?><M><pos Name="a" x="1" y="2" z="3"/><pos Name="b" x="0" y="0.5" z="-3"/></M>')
    open('grid.xml', 'w').write('<?xml version="1.0"?><M><pos subgrid="a" x="1" y="2" z="3"/><pos subgrid="b" x="0" y="0.5" z="-3"/></M>')
    open('calib.xml', 'w').write('<?xml version="1.0"?><M><pos Name="a" factor="2.5"/><pos Name="b" factor="0.5"/></M>')
    with contextlib.redirect_stdout(io.StringIO()):
        ac.WriteH5(source=ac.TimeSamples(data=np.arange(8.0).reshape(4, 2), sample_freq=4.0), file='data.h5').save()


def attach(obj):
    """Something to work on, so that the values depend on it."""
    x = np.sin(np.arange(512.0)).reshape(256, 2)
    ts = ac.TimeSamples(data=x, sample_freq=100.0)
    choices = {
        'source': (ts, ac.RFFT(source=ts, block_size=128), ac.PowerSpectra(source=ts, block_size=128)),
        'mics': (ac.MicGeom(pos_total=np.eye(3)),),
        'signal': (ac.SineGenerator(sample_freq=100.0, num_samples=20, freq=5.0),),
        'sources': ([ts],),
        'grids': ([ac.RectGrid(x_min=0, x_max=1, y_min=0, y_max=1, increment=0.5)],),
    }
    for name, values in choices.items():
        if name in obj.trait_names():
            for v in values:
                with contextlib.suppress(Exception):
                    setattr(obj, name, v)
                    break


def values():
    return {
        'one': 1,
        'three': 3,
        'half': 0.5,
        'minus': -2,
        'text': 'some name',
        'none': None,
        'true': True,
        'false': False,
        'points': np.arange(6.0).reshape(3, 2),
        'other points': -np.arange(12.0).reshape(3, 4),
        'list': [[1, 2], [3, 4], [5, 6]],
        'time': ac.TimeSamples(data=np.ones((130, 3)), sample_freq=50.0),
        'object': object(),
        **{f: f for f in FILES},
    }


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
    if isinstance(a, HasTraits):
        return a is b or (getattr(a, 'digest', None) == getattr(b, 'digest', None))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (int, float, complex, str, bytes, bool)) or a is None:
        return a == b or (a != a and b != b)
    return True


def attempt(f):
    try:
        return 'ok', f()
    except Exception as e:
        return 'refused', type(e)


SKIP = {'trait_added', 'trait_modified', '_h5f', 'h5f', 'result', 'psf'}


def state(obj, old):
    return {n: attempt(lambda n=n: getattr(obj, n)) for n in sorted(obj.trait_names()) if n not in SKIP and n not in old and not n.startswith('_') and not n.endswith('_')}


def equal_states(a, b, text):
    expect(a.keys() == b.keys(), 'names', lambda: f'{text}: {a.keys() ^ b.keys()}')
    for n in a:
        expect(a[n][0] == b[n][0] and same(a[n][1], b[n][1]), 'state', lambda n=n: f'{text}: {n} is {a[n]} with the deprecated name, {b[n]} with the new one'[:400])


def use(obj, name, op, vals):
    if op[0] == 'read':
        return attempt(lambda: getattr(obj, name))
    return attempt(lambda: setattr(obj, name, vals[op[1]]))


def warned(w, name):
    return any(issubclass(x.category, DeprecationWarning) and f"'{name}'" in str(x.message) for x in w)


def listener(log, ignore):
    def heard(obj, name, was, now):
        if name not in ignore:
            log.append((name, was, now))

    return heard


def close(*objs):
    for o in objs:
        with contextlib.suppress(Exception):
            o.h5f.close()


def twins(ck, cname, old, depth, deep):
    write_files()
    cls = classes()[cname]
    every = set(aliases(cls))
    new, read_only = aliases(cls)[old]
    vals = values()
    if attempt(cls)[0] == 'refused':
        return
    text = f'{cname}.{old}'
    # which values are accepted by the new name
    accepted, refused = [], []
    for k in vals:
        o = cls()
        attach(o)
        r = use(o, new, ('write', k), vals)
        (accepted if r[0] == 'ok' else refused).append(k)
        close(o)
    ck.outcome(cname, old, tuple(accepted))
    if read_only:
        for k in vals:
            o = cls()
            attach(o)
            before = state(o, every)
            r = attempt(lambda: setattr(o, old, vals[k]))
            ck.step('read-only', cname, old, k)
            expect(r[0] == 'refused', 'accepted', lambda: f'{text} is for reading only but accepts {k}')
            equal_states(state(o, every), before, f'{text} refused {k}')
            r = attempt(lambda: cls(**{old: vals[k]}))
            expect(r[0] == 'refused', 'accepted', lambda: f'{cname}({old}={k}) accepted')
            close(o)
    else:
        for k in vals:  # at construction
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                a = attempt(lambda: cls(**{old: vals[k]}))
                expect(a[0] == 'refused' or warned(w, old), 'warning', lambda: f'{cname}({old}={k}) does not warn')
            b = attempt(lambda: cls(**{new: vals[k]}))
            ck.step('construct', cname, old, k)
            expect(a[0] == b[0] and (a[0] == 'ok' or a[1] == b[1]), 'construction', lambda: f'{cname}({old}={k}): {a} instead of {b}')
            if a[0] == 'ok':
                attach(a[1])
                attach(b[1])
                equal_states(state(a[1], every), state(b[1], every), f'{cname}({old}={k})')
                close(a[1], b[1])
    ops = [('read', None, n) for n in (0, 1)]
    ks = (accepted[: 4 if deep else 3] + refused[:1]) if depth > 1 else accepted + refused[:3]
    ops += [('write', k, 1) for k in ks] + ([] if read_only else [('write', k, 0) for k in ks])
    for seq in itertools.product(ops, repeat=depth):
        a, b = cls(), cls()
        attach(a)
        attach(b)
        heard = ([], [])
        for o, log in zip((a, b), heard):
            o.on_trait_change(listener(log, every))
        done = ''
        for op in seq:
            name = (old, new)[op[2]]
            done += f' {op[0]} {name} {op[1] or ""};'
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                ra = use(a, name, op, vals)
            if op[2] == 0 and ra[0] == 'ok':
                expect(warned(w, old), 'warning', lambda: f'{text}:{done} no warning')
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                rb = use(b, new, op, vals)
            expect(not warned(w, old), 'warning', lambda: f'{text}:{done} {new} warns')
            ck.step('twins', cname, old, op)
            expect(ra[0] == rb[0] and same(ra[1], rb[1]), 'outcome', lambda: f'{text}:{done} {ra} instead of {rb}')
            equal_states(state(a, every), state(b, every), f'{text}:{done}')
            log = [sorted(n for n, _, _ in h if n not in SKIP and not n.endswith('_')) for h in heard]
            expect(log[0] == log[1], 'notification', lambda: f'{text}:{done} notifies of {log[0]} instead of {log[1]}')
        close(a, b)


def present(ck):
    """Every deprecated name is there for its class and all derived classes."""
    cl = classes()
    for (n, old), (new, _) in ALIASES.items():
        if n not in cl:
            continue
        for c in (c for c in cl.values() if issubclass(c, cl[n])):
            ck.step('present', c.__name__, old)
            t = c.class_traits()
            expect(old in t and new in t, 'missing', lambda c=c: f'{c.__name__}.{old}')


def item(ck, it):
    kind, *a = it
    fn = {'twins': twins, 'present': present}[kind]
    with scratch(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        ck.case('/'.join(str(x) for x in it), fn, ck, *a)


def run(ck):
    cl = classes()
    items = [('present',)]
    own = {n for n, _ in ALIASES}
    for n, c in sorted(cl.items()):
        for old in aliases(c):
            deep = n in own
            if ck.quick:
                items += [('twins', n, old, 2 if (n, old) in ALIASES else 1, deep)]
            else:
                items += [('twins', n, old, 3 if deep else 2, deep)]
    ck.parallel(item, items)
    ck.rule('every deprecated name of every class that has or inherits it: '
            f'all sequences of {2 if ck.quick else 3} (inherited names: fewer) reads and writes through the old and the new name with '
            'accepted and refused values, compared with a twin that only uses the new name (values, digests, notifications); construction with either; names for '
            'reading only refuse everything')
