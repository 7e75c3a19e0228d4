"""K04: set-ups that do not fit together are refused, and work once they are corrected."""

import itertools

import acoular as ac
import numpy as np

from mc import td
from mc.core import expect


class Setup:
    """Objects whose settings (knobs) may contradict each other."""

    def __init__(self, name, knobs, build, apply, fits, run, errors=(Exception,), refused=None):
        self.name, self.knobs, self.build, self.apply = name, knobs, build, apply
        self.fits, self.run, self.errors = fits, run, errors
        self.refused = refused or (lambda knob, value: False)
        self.fresh = {}

    def first(self):
        return {k: next(iter(v)) for k, v in self.knobs.items()}

    def made(self, state):
        """What a new object with these settings delivers."""
        key = tuple(sorted(state.items()))
        if key not in self.fresh:
            self.fresh[key] = outcome(self, self.build(**state))
        return self.fresh[key]

    def moves(self, ck):
        return [(k, v) for k, values in self.knobs.items() for v in values]


def outcome(s, obj):
    try:
        return np.array(s.run(obj))
    except Exception as e:  # noqa: BLE001
        return e


def judge(s, state, got, seq):
    if not s.fits(**state):
        expect(isinstance(got, Exception), 'accepted', lambda: f'{s.name} {state} after {seq}: delivers {str(got)[:200]}')
        expect(isinstance(got, s.errors), 'error', lambda: f'{s.name} {state} after {seq}: {type(got).__name__}: {got}')
        return
    expect(not isinstance(got, Exception), 'refused', lambda: f'{s.name} {state} after {seq}: {type(got).__name__}: {got}')
    want = s.made(state)
    expect(
        not isinstance(want, Exception) and got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-12, equal_nan=True),
        'value',
        lambda: f'{s.name} {state} after {seq}: {str(got)[:150]} instead of {str(want)[:150]}',
    )


def history(ck, s, seq, asked):
    state = s.first()
    obj = s.build(**state)
    done = []
    for i, (knob, value) in enumerate(seq):
        if asked:
            judge(s, state, outcome(s, obj), done)
        refused = s.refused(knob, value)
        try:
            s.apply(obj, knob, value, state)
        except Exception as e:  # noqa: BLE001
            expect(refused, 'assignment', f'{s.name}: {knob}={value} after {done}: {type(e).__name__}: {e}')
        else:
            expect(not refused, 'assignment', f'{s.name}: {knob}={value} is accepted after {done}')
            state[knob] = value
        done.append((knob, value))
        ck.step(s.name, tuple(sorted(state.items(), key=str)))
    got = outcome(s, obj)
    judge(s, state, got, done)
    judge(s, state, outcome(s, obj), [*done, 'again'])
    ck.outcome(s.name, str(sorted(state.items(), key=str)), isinstance(got, Exception))


def stream(o, num=4):
    return np.concatenate([b.copy() for b in o.result(num)])


def pattern(n, c, tag=0):
    return td.pattern(n, c) + tag


def ts(n=10, c=2, fs=1000.0, tag=0):
    return ac.TimeSamples(data=pattern(n, c, tag), sample_freq=fs)


def setter(obj, knob, value, state):
    setattr(obj, knob, value)


MPOS = np.array([[-0.3, 0.3, 0.05, -0.1, 0.2], [0.25, -0.2, 0.3, -0.31, 0.02], [0.0, 0.02, 0.0, -0.01, 0.03]])


def mics(n):
    return ac.MicGeom(pos_total=MPOS[:, :n])


def grid():
    return ac.ImportGrid(pos=np.array([[-0.2, 0.0, 0.25], [0.1, -0.15, 0.2], [0.5, 0.6, 0.55]]))


def steer(n):
    return ac.SteeringVector(grid=grid(), mics=mics(n))


def window(start, stop, n=10):
    return len(range(*slice(start, stop).indices(n))) > 0


def setups(quick):
    out = []

    # -- sources with calibration
    def calibrated(channels, calib, samples):
        o = ac.TimeSamples(data=pattern(samples, channels), sample_freq=100.0)
        put(o, 'calib', calib, None)
        return o

    def put(o, knob, value, state):
        if knob == 'calib':
            if value is None:
                o.calib = None
            else:
                c = ac.Calib()
                c.data, c.num_mics = np.arange(1.0, value + 1), value
                o.calib = c
        else:
            s = {**state, knob: value}
            o.data = pattern(s['samples'], s['channels'])
            o.num_samples, o.num_channels = s['samples'], s['channels']

    out.append(Setup('calibrated', {'channels': (2, 3, 1), 'calib': (None, 2, 3, 1), 'samples': (5, 8, 0)}, calibrated, put,
                     lambda channels, calib, samples: calib in (None, channels) and samples > 0, stream, (ValueError, OSError)))

    def calib_block(channels, calib):
        c = ac.Calib(source=ts(c=channels))
        c.data, c.num_mics = np.arange(1.0, calib + 1), calib
        return c

    def put_block(o, knob, value, state):
        if knob == 'channels':
            o.source = ts(c=value)
        else:
            o.data, o.num_mics = np.arange(1.0, value + 1), value

    out.append(Setup('calib', {'channels': (2, 3, 1), 'calib': (2, 3, 1)}, calib_block, put_block, lambda channels, calib: channels == calib, stream, (ValueError,)))

    # -- parts of the samples
    def part(start, stop, source):
        return ac.MaskedTimeOut(source=ts(source), start=start, stop=stop)

    def put_part(o, knob, value, state):
        setattr(o, knob, ts(value) if knob == 'source' else value)

    out.append(Setup('part', {'start': (0, 3, 9, 10, 12, -2), 'stop': (None, 3, 10, 0, 20, -2), 'source': (10, 4)}, part, put_part,
                     lambda start, stop, source: window(start, stop, source), stream, (OSError,)))

    def masked(start, stop):
        o = ac.MaskedTimeSamples(data=pattern(10, 2), sample_freq=100.0)
        o.num_samples_total, o.num_channels_total = 10, 2
        o.start, o.stop = start, stop
        return o

    out.append(Setup('masked', {'start': (0, 3, 9, 10, 12, -2), 'stop': (None, 3, 10, 0, 20, -2)}, masked, setter, lambda start, stop: window(start, stop), stream, (OSError,)))

    # -- mixers
    kinds = {'a': {}, 'rate': {'fs': 2000.0}, 'channels': {'c': 3}, 'samples': {'n': 7}, 'mono': {'c': 1}, 'b': {'tag': 3}}

    def mixer(one, two, three):
        return ac.SourceMixer(sources=[ts(**kinds[k]) for k in (one, two, three) if k])

    def put_mixer(o, knob, value, state):
        s = {**state, knob: value}
        o.sources = [ts(**kinds[k]) for k in (s['one'], s['two'], s['three']) if k]

    def same(*ks):
        ks = [k for k in ks if k]
        return len(ks) > 0 and len({'a' if k == 'b' else k for k in ks}) == 1

    v = ('a', 'rate', 'channels', 'mono', 'samples', 'b')
    out.append(Setup('mixer', {'one': (*v, ''), 'two': (*v, ''), 'three': ('', 'b', 'mono')}, mixer, put_mixer, lambda one, two, three: same(one, two, three), stream, (ValueError,)))

    def changing(rate, channels, samples):
        """A source of the mixer is changed."""
        second = ac.TimeSamples(data=pattern(samples, channels, 3), sample_freq=rate)
        return ac.SourceMixer(sources=[ts(), second])

    def put_changing(o, knob, value, state):
        s = {**state, knob: value}
        second = o.sources[1]
        if knob == 'rate':
            second.sample_freq = value
        else:
            second.data = pattern(s['samples'], s['channels'], 3)
            second.num_samples, second.num_channels = s['samples'], s['channels']

    out.append(Setup('mixer-source', {'rate': (1000.0, 2000.0), 'channels': (2, 3, 1), 'samples': (10, 7)}, changing, put_changing,
                     lambda rate, channels, samples: (rate, channels, samples) == (1000.0, 2, 10), stream, (ValueError,)))

    def adder(source, other, third):
        return ac.Mixer(source=ts(**kinds[source]), sources=[ts(**kinds[k]) for k in (other, third) if k])

    def put_adder(o, knob, value, state):
        s = {**state, knob: value}
        if knob == 'source':
            o.source = ts(**kinds[value])
        else:
            o.sources = [ts(**kinds[k]) for k in (s['other'], s['third']) if k]

    def same_but_length(source, other, third):
        return same(*('a' if k == 'samples' else k for k in (source, other, third)))

    out.append(Setup('adder', {'source': v, 'other': (*v, ''), 'third': ('', 'b', 'mono')}, adder, put_adder, same_but_length, stream, (ValueError,)))

    def weighted(channels, weights):
        return ac.ChannelMixer(source=ts(c=channels), weights=np.arange(1.0, weights + 1))

    def put_weighted(o, knob, value, state):
        if knob == 'channels':
            o.source = ts(c=value)
        else:
            o.weights = np.arange(1.0, value + 1)

    out.append(Setup('weights', {'channels': (2, 3, 1), 'weights': (0, 1, 2, 3, 4)}, weighted, put_weighted, lambda channels, weights: weights in (0, 1, channels), stream, (ValueError,)))

    # -- convolution
    shapes = {'one': (4, 1), 'two': (4, 2), 'three': (2, 3), 'flat': (3,), 'cube': (3, 2, 2), 'thin': (3, 1, 2)}

    def kernel(k):
        return 0.5 + np.arange(np.prod(shapes[k]), dtype=float).reshape(shapes[k])

    def convolved(channels, kern):
        return ac.TimeConvolve(source=ts(c=channels), kernel=kernel(kern))

    def put_convolved(o, knob, value, state):
        if knob == 'channels':
            o.source = ts(c=value)
        else:
            o.kernel = kernel(value)

    out.append(Setup('kernel', {'channels': (2, 3, 1), 'kern': ('one', 'two', 'three', 'flat', 'cube', 'thin')}, convolved, put_convolved,
                     lambda channels, kern: kern in ('one', 'flat') or shapes[kern][1:] == (channels,), stream, (ValueError,)))

    # -- filters
    def octave(cls):
        def f(band, rate, fraction):
            return cls(source=ts(40, fs=rate), band=band, fraction=fraction)

        def put(o, knob, value, state):
            if knob == 'rate':
                o.source = ts(40, fs=value)
            else:
                setattr(o, knob, value)

        def fits(band, rate, fraction):
            b = {'Octave': 2**0.5, 'Third octave': 2 ** (1 / 6)}[fraction]
            return 2 * band * b / rate <= 2 ** -0.5 or 2 * band / rate * b <= 2**-0.5

        return Setup(cls.__name__, {'band': (100.0, 400.0, 1000.0, 1600.0), 'rate': (1000.0, 8000.0), 'fraction': ('Octave', 'Third octave')}, f, put, fits, stream, (ValueError,))

    out += [octave(ac.FiltOctave), octave(ac.FiltFiltOctave)]

    # -- noise
    def noise(channels, seeds, samples):
        o = ac.UncorrelatedNoiseSource(signal=ac.WNoiseGenerator(sample_freq=1000.0, num_samples=samples, seed=3), mics=mics(channels))
        o.seed = np.arange(5, 5 + seeds)
        return o

    def put_noise(o, knob, value, state):
        if knob == 'channels':
            o.mics = mics(value)
        elif knob == 'seeds':
            o.seed = np.arange(5, 5 + value)
        else:
            o.signal.num_samples = value

    out.append(Setup('seeds', {'channels': (2, 3), 'seeds': (0, 2, 3, 1), 'samples': (6, 9)}, noise, put_noise, lambda channels, seeds, samples: seeds in (0, channels), stream, (ValueError,)))

    # -- trigger
    def pulses(k, c):
        x = np.zeros((40, c))
        for i in range(k):
            x[4 + 11 * i] = 1.0
        return ac.TimeSamples(data=x, sample_freq=100.0)

    def trigger(peaks, channels):
        return ac.Trigger(source=pulses(peaks, channels), threshold=0.5, max_variation_of_duration=0.9)

    def put_trigger(o, knob, value, state):
        s = {**state, knob: value}
        o.source = pulses(s['peaks'], s['channels'])

    out.append(Setup('trigger', {'peaks': (3, 2, 1, 0), 'channels': (1, 2)}, trigger, put_trigger, lambda peaks, channels: channels == 1 and peaks > 1,
                     lambda o: np.concatenate([np.atleast_1d(a).ravel() for a in o.trigger_data])))

    # -- splitter
    class Consumer(ac.TimeOut):
        def result(self, num):
            for b in self.source.result(num):
                yield b.copy()

    def split(registered, samples):
        o = Consumer(source=ac.SampleSplitter(source=ts(samples)))
        if registered:
            o.source.register_object(o)
        return o

    def put_split(o, knob, value, state):
        if knob == 'samples':
            o.source.source = ts(value)
        elif value != state['registered']:
            (o.source.register_object if value else o.source.remove_object)(o)

    out.append(Setup('splitter', {'registered': (True, False), 'samples': (10, 6)}, split, put_split, lambda registered, samples: registered, stream, (OSError,)))

    # -- spectra and back
    class Spectra(ac.base.SpectraOut):
        """Spectra with a given block size and number of frequencies."""

        def result(self, num=1):
            for b in self.source.result(num):
                yield b[:, : self.num_freqs * self.num_channels]

    def spectra(block, freqs):
        o = ac.IRFFT(source=None)
        put_spectra(o, 'block', block, {'freqs': freqs})
        return o

    class Stub(ac.base.SpectraGenerator):
        digest = 'stub'

        def result(self, num=1):
            for i in range(3):
                yield (1.0 + i + np.arange(self.num_freqs * self.num_channels) * (1 + 0.5j))[None].repeat(num, 0)

    def put_spectra(o, knob, value, state):
        s = {**state, knob: value}
        o.source = Stub(sample_freq=100.0, num_channels=2, num_samples=3, block_size=s['block'] or 0, num_freqs=s['freqs'])

    out.append(Setup('inverse-transform', {'block': (8, 6, 7, 0, -1), 'freqs': (5, 4, 3)}, spectra, put_spectra,
                     lambda block, freqs: block > 0 and block % 2 == 0 and block == 2 * (freqs - 1), stream, (ValueError,)))

    def transform(block):
        return ac.RFFT(source=ts(24), block_size=block, window='Hanning')

    out.append(Setup('transform', {'block_size': (8, 4, 7, 12, 3)}, lambda block_size: transform(block_size), setter, lambda block_size: True, stream, refused=lambda k, v: v % 2))

    # -- interpolation over the microphones
    bad = {'1D': ('rbf-multiquadric', 'IDW'), 'ring': ('rbf-multiquadric', 'IDW'), '3D': ('spline', 'IDW')}
    a = 2 * np.pi * np.arange(6) / 6
    ring = np.array([np.cos(a), np.sin(a), 0 * a])

    def interpolator(method, array_dimension):
        return ac.SpatialInterpolatorConstantRotation(source=ts(4, 6), mics=ac.MicGeom(pos_total=ring), method=method, array_dimension=array_dimension, rotational_speed=3.0)

    dims = ('ring', '1D') if quick else ('ring', '1D', '2D')
    out.append(Setup('interpolator', {'method': ('linear', 'spline', 'rbf-multiquadric', 'rbf-cubic', 'IDW', 'custom', 'sinc'), 'array_dimension': dims}, interpolator, setter,
                     lambda method, array_dimension: method not in bad.get(array_dimension, ()), stream, (ValueError,), refused=lambda k, v: False))

    # -- beamformers
    freqs = np.array([250.0, 500.0])

    def csm(n):
        i, j = np.arange(n)[:, None], np.arange(n)[None]
        return np.array([k * np.exp(0.8j * k * (i - j)) + 0.3 * np.exp(-0.37j * k * (i * i - j * j)) + np.eye(n) * (0.1 + 0.03 * i) for k in (1, 2)])

    maps = {
        'BeamformerBase': {}, 'BeamformerEig': {'n': -1}, 'BeamformerFunctional': {}, 'BeamformerCapon': {}, 'BeamformerMusic': {'n': 1}, 'BeamformerDamas': {'n_iter': 3},
        'BeamformerDamasPlus': {'method': 'NNLS'}, 'BeamformerOrth': {'eva_list': np.array([-1])}, 'BeamformerCleansc': {'n_iter': 2}, 'BeamformerClean': {'n_iter': 2},
        'BeamformerCMF': {'method': 'NNLS'}, 'BeamformerSODIX': {'max_iter': 2}, 'BeamformerGIB': {'n': 1, 'm': 1, 'max_iter': 2, 'method': 'OMPCV'},
    }  # fmt: skip

    def beamformer(name, kw):
        def f(channels, positions, invalid):
            m = mics(positions)
            m.invalid_channels = list(range(invalid))
            return getattr(ac, name)(freq_data=ac.PowerSpectraImport(csm=csm(channels), frequencies=freqs), steer=ac.SteeringVector(grid=grid(), mics=m), cached=False, **kw)

        def put(o, knob, value, state):
            if knob == 'channels':
                o.freq_data = ac.PowerSpectraImport(csm=csm(value), frequencies=freqs)
            elif knob == 'positions':
                o.steer.mics.pos_total = MPOS[:, :value]
            else:
                o.steer.mics.invalid_channels = list(range(value))

        return Setup(name, {'channels': (3, 4), 'positions': (3, 4, 5), 'invalid': (0, 1)}, f, put, lambda channels, positions, invalid: channels == positions - invalid,
                     lambda o: o.synthetic(500.0, 0), (ValueError,))

    out += [beamformer(*i) for i in maps.items()]

    def timed(name, kw):
        def f(channels, positions, invalid):
            m = mics(positions)
            m.invalid_channels = list(range(invalid))
            return getattr(ac, name)(source=ts(40, channels), steer=ac.SteeringVector(grid=grid(), mics=m), **kw())

        def put(o, knob, value, state):
            if knob == 'channels':
                o.source = ts(40, value)
            elif knob == 'positions':
                o.steer.mics.pos_total = MPOS[:, :value]
            else:
                o.steer.mics.invalid_channels = list(range(value))

        return Setup(name, {'channels': (3, 4, 5), 'positions': (3, 4, 5), 'invalid': (0, 1)}, f, put, lambda channels, positions, invalid: channels == positions - invalid,
                     lambda o: stream(o, 8), (ValueError,))

    def moving():
        return {'trajectory': ac.Trajectory(points={t: (0.1 * t, 0.05 * t, 0.0) for t in (-1.0, -0.5, 0.0, 0.5, 1.0)})}

    for name, kw in (
        ('BeamformerTime', dict), ('BeamformerTimeSq', dict), ('BeamformerCleant', lambda: {'n_iter': 2}), ('BeamformerCleantSq', lambda: {'n_iter': 2}),
        ('BeamformerTimeTraj', moving), ('BeamformerTimeSqTraj', moving), ('BeamformerCleantTraj', lambda: {'n_iter': 2, **moving()}),
        ('BeamformerCleantSqTraj', lambda: {'n_iter': 2, **moving()}),
    ):  # fmt: skip
        out.append(timed(name, kw))

    # -- reference distance
    refs = {'1': 1.0, 'point': (0.1, 0.2, 0.3), 'pair': (1.0, 2.0), 'text': 'x', 'four': (1.0, 2.0, 3.0, 4.0)}

    def referred(ref):
        return ac.SteeringVector(grid=grid(), mics=mics(3), ref=refs[ref])

    def put_ref(o, knob, value, state):
        o.ref = refs[value]

    out.append(Setup('reference', {'ref': tuple(refs)}, referred, put_ref, lambda ref: True, lambda o: o.transfer(500.0), refused=lambda k, v: v in ('pair', 'text', 'four')))

    def imported(shape):
        return ac.PowerSpectraImport(csm=csm(3), frequencies=freqs)

    arrays = {'three': lambda: csm(3), 'four': lambda: csm(4), 'flat': lambda: csm(3)[0], 'oblong': lambda: csm(3)[:, :2], 'vector': lambda: np.ones(3, complex)}

    def put_csm(o, knob, value, state):
        o.csm = arrays[value]()

    out.append(Setup('imported', {'shape': tuple(arrays)}, lambda shape: ac.PowerSpectraImport(csm=arrays[shape](), frequencies=freqs), put_csm, lambda shape: True, lambda o: o.csm[:],
                     refused=lambda k, v: v in ('flat', 'oblong', 'vector')))

    # -- metrics
    def metric(data, target, points, target_points):
        return ac.tools.MetricEvaluator(data=levels(*data), target_data=levels(*target), grid=line(points), target_grid=line(target_points), sector=ac.CircSector(x=0, y=0, r=0.3))

    def levels(f, p):
        return 1.0 + np.arange(f * p, dtype=float).reshape(f, p)

    def line(n):
        return ac.ImportGrid(pos=np.array([np.linspace(-0.5, 0.5, n), np.zeros(n), np.ones(n)]))

    def put_metric(o, knob, value, state):
        attr = {'data': 'data', 'target': 'target_data', 'points': 'grid', 'target_points': 'target_grid'}[knob]
        setattr(o, attr, levels(*value) if knob in ('data', 'target') else line(value))

    for get in ('get_specific_level_error', 'get_overall_level_error', 'get_inverse_level_error'):
        out.append(Setup(f'metric-{get[4:-12]}', {'data': ((1, 5), (2, 5), (1, 4)), 'target': ((1, 3), (2, 3)), 'points': (5, 4), 'target_points': (3, 2)}, metric, put_metric,
                         lambda data, target, points, target_points: data[0] == target[0] and data[1] == points and target[1] == target_points,
                         lambda o, get=get: np.array(getattr(o, get)()), (ValueError,)))
    return out


def air(ck, t, h, p, co2):
    from acoular.tools import c_air

    fits = 0 <= t <= 30 and 60000 <= p <= 110000 and co2 <= 1.0
    if h == 100.0 and t == 30.0 and p == 60000.0:  # 7 % of water vapour
        fits = False
    try:
        c = c_air(t, h, p, co2)
    except ValueError:
        ck.step('air', t, p, co2)
        expect(not fits, 'refused', f'c_air({t}, {h}, {p}, {co2})')
        return
    ck.step('air', t, h, p, co2)
    expect(fits and 325 < c < 355, 'accepted', f'c_air({t}, {h}, {p}, {co2}) = {c}')


def item(ck, it):
    name, part, parts = it
    if name == 'air':
        for a in itertools.product((-1e-6, 0.0, 15.0, 30.0, 30.001), (0.0, 50.0, 100.0), (59999.0, 60000.0, 101325.0, 110000.0, 110001.0), (0.0, 0.04, 1.0, 1.01)):
            ck.case('air/' + ','.join(map(str, a)), air, ck, *a)
        return
    s = next(x for x in setups(ck.quick) if x.name == name)
    moves = s.moves(ck)
    heavy = name.startswith(('Beamformer', 'interpolator', 'metric'))
    n = 0
    for depth in range(4 if ck.quick and not heavy else 3 if ck.quick else 4):
        many = len(moves) ** depth > (1500 if ck.quick else 20000)
        if many:
            break
        for seq in itertools.product(moves, repeat=depth):
            n += 1
            if n % parts != part:
                continue
            for asked in (True, False) if depth else (False,):
                ck.case(f'{name}/{"|".join(f"{k}={v}" for k, v in seq)}/{"asked" if asked else "once"}', history, ck, s, seq, asked)


def run(ck):
    ac.config.global_caching = 'none'
    items = [(s.name, k, n) for s in setups(ck.quick) for n in ((4,) if s.name.startswith(('Beamformer', 'metric')) else (2,)) for k in range(n)]
    ck.parallel(item, [*items[::-1], ('air', 0, 1)])
    ck.rule('sets of objects whose settings may contradict each other: all sequences of up to 3 assignments (beamformers, interpolation and metrics 2 [3]) of fitting and '
            'unfitting values, with results asked for after each one or only in the end; results of fitting ones against newly built objects')
