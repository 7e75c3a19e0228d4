"""I01: what is written to files is read back unchanged."""

import itertools
import os
import pathlib
import shutil
import wave
import warnings
import xml.etree.ElementTree as ET

import acoular as ac
import h5py
import numpy as np
from acoular.aiaa import CsmAIAABenchmark, MicAIAABenchmark, TimeSamplesAIAABenchmark, TriggerAIAABenchmark

from mc.core import expect

LIBS = ('pytables', 'h5py')
META = {'text': 'some words', 'number': 3.5, 'count': 7, 'array': np.arange(6.0).reshape(2, 3), 'list': [1, 2, 3], 'german': 'Mikrofon für Messung', 'empty': ''}


def values(n, ch, kind):
    rng = np.random.RandomState(100 * n + ch)
    d = rng.standard_normal((n, ch)) * 10.0 ** rng.randint(-6, 6, (n, ch))
    if kind == 'int16':
        return rng.randint(-(2**15), 2**15, (n, ch)).astype('int16')
    if kind == 'special':
        d[0, 0] = -0.0
        d[-1, -1] = np.inf
        d[n // 2, 0] = np.nan
        return d
    return d.astype(kind)


def fresh(name):
    p = pathlib.Path(name).absolute()
    if p.exists():
        p.unlink()
    return str(p)


def plain(v):
    if not isinstance(v, np.ndarray):
        v = v.read() if hasattr(v, '_v_file') else v[()]
    v = np.asarray(v)
    if v.dtype.kind == 'S':
        return v.item().decode('utf-8')
    if v.dtype.kind == 'O':
        return v.item().decode('utf-8') if isinstance(v.item(), bytes) else v.item()
    return v


def read(path, lib, masked=False):
    ac.config.h5library = lib
    ts = (ac.MaskedTimeSamples if masked else ac.TimeSamples)(file=path)
    try:
        data = np.array(ts.data[:]) if not masked else np.concatenate([b.copy() for b in ts.result(5)])
        meta = {k: plain(v) for k, v in ts.metadata.items() if k not in ('CLASS', 'TITLE', 'VERSION')}
        return data, ts.sample_freq, ts.num_samples, ts.num_channels, meta
    finally:
        ts.h5f.close()


def check_file(path, want, fs, meta, text):
    for lib, masked in itertools.product(LIBS, (False, True)):
        if masked and not len(want):
            continue
        data, f, n, ch, m = read(path, lib, masked)
        t = f'{text} read with {lib}{" masked" if masked else ""}'
        expect((n, ch) == want.shape and data.shape == want.shape, 'shape', lambda: f'{t}: {(n, ch)} {data.shape} instead of {want.shape}')
        expect(data.dtype == want.dtype, 'type', lambda: f'{t}: {data.dtype} instead of {want.dtype}')
        expect(np.array_equal(data, want, equal_nan=True), 'data', lambda: f'{t}: {data.tolist()} instead of {want.tolist()}'[:400])
        expect(f == fs, 'rate', lambda: f'{t}: {f} instead of {fs}')
        expect(set(m) == set(meta), 'metadata', lambda: f'{t}: metadata {sorted(m)} instead of {sorted(meta)}')
        for k, v in meta.items():
            ok = m[k] == v if isinstance(v, str) else not isinstance(m[k], str) and np.array_equal(m[k], np.asarray(v))
            expect(ok, 'metadata', lambda: f'{t}: metadata {k} {m[k]!r} instead of {v!r}')


def save(ck, lib, n, ch, kind, prec, fs):
    d = values(n, ch, kind)
    ac.config.h5library = lib
    for meta in ({}, {'text': 'x'}, META):
        p = fresh('save.h5')
        src = ac.TimeSamples(data=d, sample_freq=fs)
        ac.config.h5library = lib
        ac.WriteH5(source=src, file=p, precision=prec, metadata=meta).save()
        with np.errstate(over='ignore'):
            want = d.astype(prec)
        ck.step('save', lib, n, ch, kind, prec, fs, len(meta))
        check_file(p, want, fs, meta, f'{n, ch} {kind} as {prec} at {fs} saved with {lib}')
        # a second time over the first
        ac.config.h5library = lib
        ac.WriteH5(source=ac.TimeSamples(data=d[::-1], sample_freq=fs), file=p, precision=prec).save()
        check_file(p, want[::-1], fs, {}, f'{n, ch} {kind} as {prec} saved again with {lib}')
    ck.outcome(d.tobytes())


def stream(ck, lib, n, ch, num):
    d = values(n, ch, 'float64')
    for limit, prec in itertools.product((-1, *range(n + 3)), ('float64', 'float32')):
        stops = [None] if limit >= 0 else [None, *(('flag', k) for k in range(1, 4)), *(('close', k) for k in range(1, 4))]
        for stop in stops:
            p = fresh('stream.h5')
            ac.config.h5library = lib
            w = ac.WriteH5(source=ac.TimeSamples(data=d, sample_freq=50.0), file=p, precision=prec, num_samples_write=limit, metadata={'k': 1})
            g = w.result(num)
            got = []
            for b in g:
                got.append(b.copy())
                if stop and len(got) == stop[1]:
                    if stop[0] == 'flag':
                        w.write_flag = False
                    else:
                        g.close()
                        break
            total = n if limit < 0 else min(n, limit)
            if stop:
                total = min(n, stop[1] * num)
            text = f'{n, ch} by {num} limit {limit} stop {stop} with {lib}'
            ck.step('stream', lib, n, ch, num, limit, prec, stop)
            echo = np.concatenate(got) if got else d[:0]
            expect(len(echo) >= total and np.array_equal(echo, d[: len(echo)]) and len(echo) <= total + num, 'echo', lambda: f'{text}: passed on {echo.tolist()}'[:300])
            check_file(p, d[:total].astype(prec), 50.0, {'k': 1}, text)


def placed(ck, lib):
    """Without a name the file goes to the configured directory and can be read."""
    old = ac.config.td_dir
    try:
        for k in range(3):
            d = pathlib.Path(f'place{k}').absolute()
            shutil.rmtree(str(d), ignore_errors=True)
            d.mkdir()
            ac.config.td_dir = str(d)
            ac.config.h5library = lib
            data = values(4, 2, 'float32')
            w = ac.WriteH5(source=ac.TimeSamples(data=data, sample_freq=8.0))
            if k == 1:
                list(w.result(3))
            else:
                w.save()
            files = list(d.iterdir())
            ck.step('placed', lib, k)
            expect([str(f) for f in files] == [w.file], 'placed', lambda: f'{files} and {w.file}')
            check_file(w.file, data, 8.0, {}, 'unnamed')
    finally:
        ac.config.td_dir = old


def switch(ck, lib, order):
    """One reader given several files one after the other, and a file rewritten in between."""
    ac.config.h5library = lib
    content = {}
    for i, (n, ch) in enumerate(((5, 2), (3, 4), (9, 1))):
        p = fresh(f'sw{i}.h5')
        d = values(n, ch, 'float32') + i
        ac.WriteH5(source=ac.TimeSamples(data=d, sample_freq=10.0 + i), file=p, metadata={f'm{i}': i}).save()
        content[p] = (d, 10.0 + i, {f'm{i}'})
    paths = list(content)
    for cls in (ac.TimeSamples, ac.MaskedTimeSamples):
        ts = cls()
        for i in order:
            p = paths[i]
            ts.file = p
            d, fs, keys = content[p]
            got = np.concatenate([b.copy() for b in ts.result(2)])
            ck.step('switch', lib, order, i, cls.__name__)
            expect(np.array_equal(got, d) and ts.sample_freq == fs and (ts.num_samples, ts.num_channels) == d.shape, 'switched', lambda: f'{cls.__name__} {order}: {got.tolist()} {ts.sample_freq}')
            expect(set(ts.metadata) - {'CLASS', 'TITLE', 'VERSION'} == keys, 'metadata', lambda: f'{cls.__name__} {order}: {set(ts.metadata)}')
        ts.h5f.close()


# -- XML ----------------------------------------------------------------------------------------

NUMBERS = (0.0, -0.0, 0.1, -1 / 3, 1e-7, 12345678.901234567, 1e22, 5e-324, -2.5, 1.7976931348623157e308)
NAMES = ('plain.xml', 'with space.xml', 'a&b.xml', 'less<than.xml', 'quo"te.xml', "apo'strophe.xml", 'umläut.xml', 'two.dots.xml', 'amp&amp;.xml', 'noext')


def geometry(ck, name, k):
    for shift in range(0, len(NUMBERS), 2):
        pos = np.array([[NUMBERS[(shift + 3 * i + j) % len(NUMBERS)] for i in range(k)] for j in range(3)])
        for r in range(k + 1):
            for inv in itertools.combinations(range(k), r):
                m = ac.MicGeom(pos_total=pos, invalid_channels=list(inv))
                p = fresh(name)
                m.export_mpos(p)
                ck.step('geometry', name, k, shift, inv)
                left = [i for i in range(k) if i not in inv]
                rows = ET.fromstring(pathlib.Path(p).read_text(encoding='utf-8').replace('version="1.1"', 'version="1.0"'))
                expect([[float(e.get(a)) for a in 'xyz'] for e in rows.iter('pos')] == pos[:, left].T.tolist(), 'exported', lambda: f'{name} without {inv}')
                if not left:
                    continue
                back = ac.MicGeom(file=p)
                expect(back.pos_total.shape == (3, len(left)) and back.pos_total.tobytes() == np.ascontiguousarray(pos[:, left]).tobytes(), 'geometry', lambda: f'{name} without {inv}: {back.pos_total.tolist()} instead of {pos[:, left].tolist()}')
                expect(back.num_mics == len(left) and back.digest == ac.MicGeom(pos_total=pos[:, left]).digest, 'geometry-digest')


def described(ck, k):
    """Hand written descriptions of geometries, calibrations and grids, with all orders of attributes."""
    for attrs in itertools.permutations(('Name', 'x', 'y', 'z')):
        pos = [[NUMBERS[(5 * i + j) % len(NUMBERS)] for j in range(3)] for i in range(k)]
        rows = ''
        for i, q in enumerate(pos):
            val = {'Name': f'M{k - i}', 'x': repr(q[0]), 'y': repr(q[1]), 'z': repr(q[2])}
            rows += '<pos ' + ' '.join(f'{a}="{val[a]}"' for a in attrs) + (' />' if i % 2 else '></pos>') + ('\n<!-- <pos Name="no" x="1" y="1" z="1"/> -->' if i == 0 else '')
        p = fresh('described.xml')
        pathlib.Path(p).write_text(f'<?xml version="1.0" encoding="utf-8"?><MicArray name="a">{rows}</MicArray>')
        ck.step('described', k, attrs)
        expect(ac.MicGeom(file=p).pos_total.T.tolist() == pos, 'described', lambda: f'{attrs}')
        g = ac.ImportGrid(file=p)
        expect(g.pos.T.tolist() == pos and g.size == k and tuple(g.shape) == (k,), 'grid', lambda: f'{attrs}: {g.pos}')
    for names in itertools.product(('a', 'b', ''), repeat=min(k, 4)):
        names = [*names, *['a'] * (k - len(names))]
        p = fresh('grid.xml')
        rows = ''.join(f'<pos subgrid="{n}" x="{i}" y="{-i}" z="0.1"/>' for i, n in enumerate(names))
        pathlib.Path(p).write_text(f'<?xml version="1.0" encoding="utf-8"?><Grid name="g">{rows}</Grid>')
        g = ac.ImportGrid(file=p)
        ck.step('subgrids', k, tuple(names))
        expect([str(s) for s in g.subgrids] == names and g.pos.T.tolist() == [[i, -i, 0.1] for i in range(k)], 'subgrids', lambda: f'{names}: {g.subgrids}')
        m = ac.MergeGrid(grids=[g, ac.ImportGrid(file=p)])
        expect(m.size == k and sorted(m.pos.T.tolist()) == sorted([[i, -i, 0.1] for i in range(k)]), 'merged')
    for perm in itertools.permutations(NUMBERS[:4] + NUMBERS[5:7], min(k, 4)):
        p = fresh('calib.xml')
        rows = ''.join(f'<pos Name="P{len(perm) - i}" factor="{v!r}"/>' for i, v in enumerate(perm))
        pathlib.Path(p).write_text(f'<?xml version="1.0" encoding="utf-8"?><Calib name="c">{rows}</Calib>')
        c = ac.Calib(file=p)
        ck.step('calib', perm)
        expect(c.data.tolist() == list(perm) and c.num_mics == len(perm), 'calibration', lambda: f'{c.data} instead of {perm}')


def delivered(ck):
    """The geometries that come with the package."""
    for f in sorted((pathlib.Path(ac.__file__).parent / 'xml').glob('*.xml')):
        ck.step('delivered', f.name)
        el = list(ET.parse(f).getroot().iter('pos'))
        if el[0].get('factor'):
            expect(ac.Calib(file=str(f)).data.tolist() == [float(e.get('factor')) for e in el], 'delivered', f.name)
            continue
        rows = [[float(e.get(a)) for a in 'xyz'] for e in el]
        expect(ac.MicGeom(file=str(f)).pos_total.T.tolist() == rows, 'delivered', f.name)


# -- WAV ----------------------------------------------------------------------------------------


def wav(ck, n, ch, kind):
    rng = np.random.RandomState(n)
    d = {
        'noise': rng.standard_normal((n, ch)),
        'tiny': rng.standard_normal((n, ch)) * 1e-9,
        'huge': rng.standard_normal((n, ch)) * 1e9,
        'zero': np.zeros((n, ch)),
        'negative': -np.abs(rng.standard_normal((n, ch))),
        'late': np.where(np.arange(n)[:, None] == n - 1, 50.0, rng.standard_normal((n, ch))),
        'int': rng.randint(-(2**15), 2**15, (n, ch)).astype('int16'),
    }[kind]
    sels = [list(c) for k in range(1, min(ch, 3) + 1) for c in itertools.permutations(range(ch), k)]
    for sel in sels:
        p = fresh('out.wav')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ac.WriteWAV(source=ac.TimeSamples(data=d, sample_freq=8000.0), channels=sel, file=p).save()
        ck.step('wav', n, ch, kind, tuple(sel))
        with wave.open(p) as w:
            head = (w.getnchannels(), w.getsampwidth(), w.getframerate(), w.getnframes())
            got = np.frombuffer(w.readframes(n + 10), dtype='<i2').reshape(-1, len(sel)).astype(float)
        text = f'{n, ch} {kind} channels {sel}'
        expect(head == (len(sel), 2, 8000, n) and len(got) == n, 'wav-header', lambda: f'{text}: {head} with {len(got)} frames')
        want = d[:, sel].astype(float)
        mx = np.abs(want).max()
        if mx == 0:
            expect(not got.any(), 'wav-silence', text)
            continue
        top = np.abs(got).max()
        expect(10000 < top <= 32767, 'wav-level', lambda: f'{text}: largest sample {top}')
        # one factor for all samples, within one step of the resolution
        i = np.unravel_index(np.abs(want).argmax(), want.shape)
        err = min(np.abs(got - s * want).max() for s in (got[i] + np.linspace(-1, 1, 21)) / want[i])
        expect(err <= 1.2, 'wav', lambda: f'{text}: off by {err}')
    for bad in ([],):
        try:
            ac.WriteWAV(source=ac.TimeSamples(data=d, sample_freq=8000.0), channels=bad, file=fresh('bad.wav')).save()
        except ValueError:
            continue
        expect(False, 'wav-accepted', lambda: f'{bad}')


# -- benchmark files ----------------------------------------------------------------------------


def aiaa(ck, lib, n, ch, sign, order):
    rng = np.random.RandomState(n + ch)
    p = fresh('aiaa.h5')
    data = rng.standard_normal((n, ch))
    tacho = rng.standard_normal((n, 1))
    csm = rng.standard_normal((ch, ch, 4)) + 1j * rng.standard_normal((ch, ch, 4))
    pos = rng.standard_normal((ch, 3))
    freqs = np.array([[10.0, 20.0, 30.0, 40.0]])
    with h5py.File(p, 'w') as f:
        f['MicrophoneData/microphoneDataPa'] = data
        f['MicrophoneData/microphoneDataPa'].attrs['sampleRateHz'] = 123.0
        f['TachoData/tachoDataV'] = tacho
        f['TachoData/tachoDataV'].attrs['sampleRateHz'] = 321.0
        f['CsmData/csmReal'] = csm.real
        f['CsmData/csmImaginary'] = csm.imag
        f['CsmData'].attrs['fftSign'] = sign
        f['CsmData/binCenterFrequenciesHz'] = freqs if order else freqs.T
        f['MetaData/ArrayAttributes/microphonePositionsM'] = pos
        f['MetaData/ArrayAttributes'].attrs['microphoneCount'] = ch
    ac.config.h5library = lib
    ck.step('aiaa', lib, n, ch, sign, order)
    ts = TimeSamplesAIAABenchmark(file=p)
    got = np.concatenate([b.copy() for b in ts.result(3)])
    expect(np.array_equal(got, data) and ts.sample_freq == 123.0 and (ts.num_samples, ts.num_channels) == (n, ch), 'aiaa-data', lambda: f'{got}')
    expect(ts.metadata['ArrayAttributes']['microphoneCount'] == ch, 'aiaa-metadata')
    ts.h5f.close()
    tr = TriggerAIAABenchmark(file=p)
    expect(np.array_equal(np.concatenate([b.copy() for b in tr.result(2)]), tacho) and tr.sample_freq == 321.0, 'aiaa-tacho')
    tr.h5f.close()
    m = MicAIAABenchmark(file=p)
    expect(np.array_equal(m.pos_total, pos.T) and m.num_mics == ch, 'aiaa-mics')
    c = CsmAIAABenchmark(file=p)
    want = (csm.real + sign * 1j * csm.imag).transpose(2, 0, 1)
    expect(np.array_equal(c.csm, want), 'aiaa-csm', lambda: f'{c.csm} instead of {want}')
    expect(np.array_equal(c.fftfreq(), freqs[0]) and c.num_channels == ch, 'aiaa-freq', lambda: f'{c.fftfreq()} {c.num_channels}')
    expect(list(c.indices) == [0, 1, 2, 3], 'aiaa-indices')
    c.h5f.close()


def item(ck, it):
    kind, *a = it
    fn = {'save': save, 'stream': stream, 'placed': placed, 'switch': switch, 'geometry': geometry, 'described': described, 'delivered': delivered, 'wav': wav, 'aiaa': aiaa}[kind]
    lib = ac.config.h5library
    try:
        ck.case('/'.join(str(x).replace('/', '_') for x in it), fn, ck, *a)
    finally:
        ac.config.h5library = lib
        for f in os.listdir('.'):
            if os.path.isfile(f):
                os.unlink(f)


def run(ck):
    q = ck.quick
    items = [('geometry', n, k) for n in NAMES for k in (1, 2, 4)]
    items += [('described', k) for k in (1, 2, 3, 4)] + [('delivered',)]
    ns = (1, 2, 5, 4095, 4096, 4097) if q else (1, 2, 5, 100, 4095, 4096, 4097, 8192, 9000)
    items += [('save', lib, n, ch, kind, prec, fs) for lib in LIBS for n in ns for ch in (1, 3) for kind in ('float64', 'float32', 'int16', 'special') for prec in ('float32', 'float64') for fs in ((51200.0,) if n > 5 else (51200.0, 1 / 3, 1))]
    items += [('stream', lib, n, ch, num) for lib in LIBS for n in ((1, 4, 5, 8) if q else (1, 2, 3, 4, 5, 7, 8, 12)) for ch in (1, 2) for num in (1, 3, 4, 8, 9)]
    items += [('placed', lib) for lib in LIBS] + [('switch', lib, o) for lib in LIBS for k in (1, 2, 3) for o in itertools.product(range(3), repeat=k)]
    items += [('wav', n, ch, k) for n in (1, 2, 50, 1023, 1024, 1025, 2048) for ch in (1, 2, 3) for k in ('noise', 'tiny', 'huge', 'zero', 'negative', 'late', 'int')]
    items += [('aiaa', lib, n, ch, s, o) for lib in LIBS for n in (1, 5) for ch in (1, 2, 3) for s in (1, -1) for o in (0, 1)]
    ck.parallel(item, items)
    ck.rule('all sample counts, channels, sample types, precisions, metadata, limits, block sizes and ways of stopping of a menu, written with '
            'each HDF5 library and read with each; geometries with every subset of invalid channels and difficult numbers and names; '
            'calibrations and grids in every order; WAV export of all channel selections; benchmark files; readers switched between files')
    ck.assume('Attributes PyTables adds to groups (CLASS, TITLE, VERSION) are ignored. Text metadata may come back as UTF-8 bytes; WAV samples within one and a half steps.')
