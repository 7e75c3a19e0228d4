"""I03: recordings from a sound device are complete, in order, and end when they should."""

import itertools
from unittest import mock

import acoular as ac
import numpy as np
import sounddevice as sd

from mc.core import expect

DEVICES = [
    {'name': 'a', 'index': 0, 'max_input_channels': 2, 'default_samplerate': 44100.0},
    {'name': 'b', 'index': 1, 'max_input_channels': 1, 'default_samplerate': 8000.0},
    {'name': 'c', 'index': 2, 'max_input_channels': 4, 'default_samplerate': 48000.0},
]


class Unplugged(OSError):
    pass


class Card:
    """A sound card whose samples count up; it may overflow or break at chosen reads."""

    def __init__(self, overflow=(), broken=None, reuse=False):
        self.overflow, self.broken, self.reuse = overflow, broken, reuse
        self.opened = []

    def query_devices(self, device=None, kind=None):
        return dict(DEVICES[0 if device is None else device])

    def stream(self, **kw):
        s = Stream(self, kw)
        self.opened.append(s)
        return s

    def __enter__(self):
        self.patches = [mock.patch.object(sd, 'query_devices', self.query_devices), mock.patch.object(sd, 'InputStream', self.stream), mock.patch('builtins.print')]
        for p in self.patches:
            p.start()
        return self

    def __exit__(self, *exc):
        for p in self.patches:
            p.stop()


def samples(n, channels, dtype):
    return (np.arange(n)[:, None] + 10 * np.arange(channels)).astype(dtype)


class Stream:
    def __init__(self, card, kw):
        self.card, self.kw = card, kw
        self.state, self.at, self.reads = 'new', 0, 0
        self.memory = {}

    def __enter__(self):
        assert self.state == 'new', 'opened twice'
        self.state = 'open'
        return self

    start = __enter__

    def __exit__(self, *exc):
        self.state = 'closed'

    def stop(self, ignore_errors=True):
        self.state = 'closed'

    close = abort = stop

    def read(self, n):
        if self.state != 'open':
            raise sd.PortAudioError('stream is not open')
        k = self.reads
        self.reads += 1
        if self.card.broken == k:
            raise Unplugged
        c = self.kw['channels']
        x = samples(self.at + n, c, self.kw['dtype'])[self.at :]
        self.at += n
        return x, k < len(self.card.overflow) and self.card.overflow[k]


def settings(o, card, want):
    """The stream is opened once, with the settings of the object."""
    s = card.opened[-1]
    for k, v in want.items():
        expect(s.kw.get(k) == v, 'settings', lambda: f'stream opened with {s.kw}, expected {want}')


def idle(o, card, text):
    expect(all(s.state == 'closed' for s in card.opened), 'left-open', lambda: f'{text}: stream is {card.opened[-1].state}')
    expect(not o.running, 'running', lambda: f'{text}: running although the recording has ended')


def record(ck, device, channels, precision, total, num, end, overflow):
    """One recording that is read to its end, stopped, abandoned or broken off, and a second one of the same object."""
    kind, k = end
    with Card(overflow, k if kind == 'broken' else None) as card:
        o = ac.SoundDeviceSamplesGenerator(device=device, num_channels=channels, num_samples=total, precision=precision)
        for again in (False, True):
            if again:
                o.collect_samples = True
                card.broken = None
            text = f'{"second" if again else "first"} recording of {total} samples in blocks of {num} ({end})'
            got = []
            gen = o.result(num)
            error = None
            n = 0
            try:
                for block in gen:
                    expect(o.running, 'running', f'{text}: not running while samples are collected')
                    expect(o.overflow == (n < len(overflow) and overflow[n]), 'overflow', lambda: f'{text}: overflow is {o.overflow} at block {n}')  # noqa: B023
                    got.append(block.copy())
                    n += 1
                    if kind == 'abandon' and n == k:
                        break
                    if n == (k if kind == 'stop' else 6):
                        o.collect_samples = False
                    expect(n < 12, 'endless', f'{text}: {n} blocks')
            except Unplugged as e:
                error = e
            gen.close()
            del gen
            ck.step(total, num, end, again, n)
            settings(o, card, {'device': device, 'channels': channels, 'samplerate': DEVICES[device]['default_samplerate'], 'dtype': precision})
            expect(len(card.opened) == 1 + again, 'streams', lambda: f'{text}: {len(card.opened)} streams')  # noqa: B023
            idle(o, card, text)
            x = np.concatenate(got) if got else np.zeros((0, channels), precision)
            want = total if total >= 0 else num * (k if kind == 'stop' else 6)
            if kind == 'abandon' and n == k:
                want = num * k if total < 0 else min(num * k, total)
            if kind == 'broken' and not again and k < (6 if total < 0 else -(-total // num)):
                want = num * k
                expect(error is not None, 'error', lambda: f'{text}: the error of the device is lost')  # noqa: B023
            else:
                expect(error is None, 'error', lambda: f'{text}: {error!r}')  # noqa: B023
            expect(np.array_equal(x, samples(want, channels, precision)) and x.dtype == precision, 'samples', lambda: f'{text}: {x.tolist()} of type {x.dtype} instead of {want} samples')  # noqa: B023
            expect(all(len(b) == num for b in got[:-1]) and (not got or 0 < len(got[-1]) <= num), 'blocks', lambda: f'{text}: blocks of {[len(b) for b in got]}')  # noqa: B023
        ck.outcome(total, num, end, n, x.tobytes())


def never(ck, num):
    """Nothing is recorded when collecting is switched off beforehand."""
    with Card() as card:
        o = ac.SoundDeviceSamplesGenerator(collect_samples=False)
        got = list(itertools.islice(o.result(num), 3))
        ck.step('never', num)
        expect(not got, 'samples', lambda: f'{len(got)} blocks')
        idle(o, card, 'off')


def configured(ck, seq):
    """Settings hold in whichever order they are made and queried."""
    with Card() as card:
        o = ac.SoundDeviceSamplesGenerator(num_samples=5)
        st = {'device': 0, 'num_channels': 1, 'sample_freq': None, 'precision': 'float32'}
        seen = {}
        for k, v in seq:
            setattr(o, k, v)
            st[k] = v
            limit = DEVICES[st['device']]['max_input_channels']
            st['num_channels'] = min(st['num_channels'], limit)
            expect(o.num_channels == st['num_channels'], 'channels', lambda: f'{seq}: {o.num_channels} channels instead of {st["num_channels"]}')
            rate = st['sample_freq'] or DEVICES[st['device']]['default_samplerate']
            expect(o.sample_freq == rate, 'rate', lambda: f'{seq}: {o.sample_freq} Hz instead of {rate}')
            expect(o.device_properties() == DEVICES[st['device']], 'properties', lambda: f'{seq}: {o.device_properties()}')
            key = (*st.items(), rate)
            key = tuple(sorted((a, b) for a, b in st.items() if a != 'sample_freq')) + (rate,)
            ck.step('configured', seq, k)
            for other, d in seen.items():
                expect((other == key) == (d == o.digest), 'digest', lambda: f'{seq}: digests of {other} and {key}')  # noqa: B023
            seen[key] = o.digest
            x = np.concatenate(list(o.result(2)))
            settings(o, card, {'device': st['device'], 'channels': st['num_channels'], 'samplerate': rate, 'dtype': st['precision']})
            expect(np.array_equal(x, samples(5, st['num_channels'], st['precision'])), 'samples', lambda: f'{seq}: {x.tolist()}')
        ck.outcome('configured', seq, o.digest)


def behind(ck, total, num, which):
    """Recordings pass through the processing chain like any other source."""
    with Card() as card:
        o = ac.SoundDeviceSamplesGenerator(num_samples=total, num_channels=2)
        x = samples(total, 2, 'float32')
        ref = ac.TimeSamples(data=x.astype(float), sample_freq=44100.0)
        chain = {
            'average': lambda s: ac.TimeAverage(source=s, num_per_average=2),
            'power': lambda s: ac.TimePower(source=s),
            'cumulative': lambda s: ac.TimeCumAverage(source=s),
            'mask': lambda s: ac.MaskedTimeOut(source=s, invalid_channels=[0]),
            'reverse': lambda s: ac.TimeReverse(source=s),
            'mixer': lambda s: ac.SourceMixer(sources=[s, ac.TimePower(source=ref)]),
        }[which]
        got = np.concatenate([b.copy() for b in chain(o).result(num)] or [np.zeros((0, 2))])
        want = np.concatenate([b.copy() for b in chain(ref).result(num)] or [np.zeros((0, 2))])
        ck.step('behind', which, total, num)
        expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-5), 'chain', lambda: f'{which} {total} {num}: {got.tolist()} instead of {want.tolist()}')
        idle(o, card, which)


def item(ck, it):
    kind, *a = it
    if kind == 'record':
        (device, channels), precision, total = a
        nums = (1, 2, 3, 5) if ck.quick else (1, 2, 3, 4, 5, 6, 7, 8)
        ends = [('all', 0)] + [(e, k) for e in ('stop', 'abandon', 'broken') for k in (range(1, 4) if e != 'broken' else range(4))]
        patterns = [p for n in (0, 2, 3) for p in itertools.product((False, True), repeat=n)] if (channels, precision) == (2, 'float32') else [(), (True, False, True)]
        for num, end, over in itertools.product(nums, ends, patterns):
            if end[0] == 'stop' and total >= 0:  # ends by itself
                continue
            ck.case(f'record/{device}/{channels}/{precision}/{total}/{num}/{end}/{over}', record, ck, device, channels, precision, total, num, end, over)
    elif kind == 'never':
        for num in (1, 4):
            ck.case(f'never/{num}', never, ck, num)
    elif kind == 'configured':
        ck.case(f'configured/{a[0]}', configured, ck, a[0])
    elif kind == 'behind':
        for total, num in itertools.product(range(1, 8), range(1, 6)):
            ck.case(f'behind/{a[0]}/{total}/{num}', behind, ck, total, num, a[0])


def run(ck):
    items = [('record', dc, p, t) for dc in ((0, 1), (0, 2), (1, 1), (2, 4)) for p in ('float32', 'int16', 'uint8', 'int32') for t in (-1, 0, 1, 2, 3, 4, 5, 6, 7)]
    moves = [('device', 1), ('device', 2), ('device', 0), ('num_channels', 2), ('num_channels', 4), ('num_channels', 1), ('sample_freq', 16000.0), ('precision', 'int16')]
    items += [('configured', s) for n in ((1, 2, 3) if ck.quick else (1, 2, 3, 4)) for s in itertools.product(moves, repeat=n)]
    items += [('never',)] + [('behind', w) for w in ('average', 'power', 'cumulative', 'mask', 'reverse', 'mixer')]
    ck.parallel(item, items)
    ck.rule('a model of the sound card: devices x channels x sample types x numbers of samples x block sizes x ends (by itself, stopped, abandoned, '
            'device failing at every read) x overflow patterns, each with a second recording; all sequences of settings; processing behind it')
    ck.assume('The sound card is modelled: the functions of sounddevice that acoular calls are replaced, PortAudio itself is not run.')
