"""C05: cache file handles follow the objects that use them.

Sequences of creating, querying, switching and disposing objects that share and change cache files.
The open files are those of the process (/proc/self/fd), not those of a registry in the library.
"""

import gc
import itertools
import os
import pathlib

import acoular as ac
import numpy as np

from mc import cachekit, fd, td
from mc.core import expect

SRC = [None, None]
SPEC = [None, None]


class Slot:
    """An object that may be absent, which input it is set to, and which file it uses."""

    def __init__(self, kind):
        self.kind, self.obj, self.tag, self.file, self.run, self.got = kind, None, 0, None, None, []

    def create(self):
        s = td.src(SIG[self.tag], 'fresh', fd.FS, self.tag)
        if self.kind == 'ps':
            self.obj = ac.PowerSpectra(source=s, block_size=128, window='Hanning')
        elif self.kind == 'bf':
            ps = ac.PowerSpectra(source=s, block_size=128, window='Hanning', cached=False, ind_low=3, ind_high=4)
            self.obj = fd.beamformer('Base', ps)
        elif self.kind == 'psf':
            self.obj = ac.fbeamform.PointSpreadFunction(steer=fd.steer(st=PSF[self.tag]), freq=800.0)
        else:
            self.obj = ac.Cache(source=s)

    def switch(self):
        self.tag = 1 - self.tag
        s = td.src(SIG[self.tag], 'fresh', fd.FS, self.tag)
        if self.kind in ('ps', 'time'):
            self.obj.source = s
        elif self.kind == 'bf':
            self.obj.freq_data.source = s
        else:
            self.obj.steer.steer_type = PSF[self.tag]

    def query(self, o=None):
        o = o or self.obj
        if self.kind == 'ps':
            return np.array(o.csm[:])
        if self.kind == 'bf':
            return np.array(o.result[3:5])
        if self.kind == 'psf':
            return np.array(o.psf[:])
        return np.concatenate([np.array(b) for b in o.result(100)])

    def key(self):
        """Which cache file the current setting belongs to: objects on the same data share it."""
        if self.kind == 'psf':
            return ('psf', self.tag)
        if self.kind == 'time':  # sources that are no files share a cache file
            return ('void',)
        return ('data', self.tag)


SIG = [fd.signals(300, 3, 0), fd.signals(300, 3, 1)]
PSF = ('true level', 'classic')
REF = {}


def reference(kind, tag):
    if (kind, tag) not in REF:
        old = ac.config.global_caching
        ac.config.global_caching = 'none'
        s = Slot(kind)
        s.tag = tag
        s.create()
        REF[kind, tag] = s.query()
        ac.config.global_caching = old
    return REF[kind, tag]


def open_files(d):
    out = []
    for f in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink(f'/proc/self/fd/{f}')
        except OSError:
            continue
        if t.startswith(str(d)):
            out.append(os.path.basename(t))
    return set(out)


def sequence(ck, lib, kinds, seq, cyclic):
    gc.disable()
    try:
        _sequence(ck, lib, kinds, seq, cyclic)
    finally:
        gc.enable()
        gc.collect()


def _sequence(ck, lib, kinds, seq, cyclic):
    with cachekit.env(lib, 'individual') as d:
        d = d.resolve()
        slots = [Slot(k) for k in kinds]
        names = {}  # what -> file name
        for i, op in enumerate(seq):
            what, n = op[0], int(op[1])
            s = slots[n]
            if what == 'D':
                if s.obj is None:
                    return  # same as a shorter sequence
                if n == cyclic:  # only the garbage collector finds it, and that runs when it likes
                    knot = [s.obj, s.run]
                    knot.append(knot)
                s.obj = s.file = s.run = knot = None
                s.got = []
                if n != cyclic:
                    gc.collect()
            elif what == 'S':
                if s.obj is None:
                    return
                s.switch()
            elif what == 'I':  # starts or continues a run of the time data cache
                if s.kind != 'time':
                    return
                if s.obj is None:
                    s.create()
                if s.run is None:
                    s.run, s.got, s.rtag = s.obj.result(100), [], s.tag
                    s.file = s.key()
                before = open_files(d)
                b = next(s.run, None)
                for f in open_files(d) - before:
                    names[f] = s.file
                if b is None:
                    s.run = None
                else:
                    s.got.append(np.array(b))
                    x = np.concatenate(s.got)
                    expect(td.close(x, SIG[s.rtag][: len(x)]), 'running', f'step {i} {op}')
            else:
                if s.obj is None:
                    s.create()
                before = open_files(d)
                moved = s.file != s.key()
                got = s.query()
                s.file = s.key()
                expect(td.close(got, reference(s.kind, s.tag), 1e-9), 'value', lambda: f'step {i} {op}: {got.tolist()}'[:300])
                now = open_files(d)
                opened = now - before
                expect(len(opened) <= 1, 'opened', f'step {i} {op}: {opened}')
                for f in opened:
                    names[f] = s.file
                used = {t.file for t in slots if t.obj is not None and t.file is not None}
                # runs that were started before the object moved on
                running = {('void',) for t in slots if t.run is not None}
                have = {names.get(f) for f in now}
                expect(used <= have, 'closed-in-use', f'step {i} {op}: used {used}, open {have}')
                if opened or moved and before != now:
                    expect(have <= used | running, 'left-open', f'step {i} {op}: used {used}, open {have}')
                # as soon as a further file is opened
                if i == len(seq) - 1:
                    extra = ac.fbeamform.PointSpreadFunction(steer=fd.steer(st='inverse'), freq=500.0)
                    extra.psf  # noqa: B018
                    have = {names.get(f) for f in open_files(d)} - {None}
                    expect(used <= have, 'closed-in-use', f'end: used {used}, open {have}')
                    expect(have <= used | running, 'left-open', f'end: used {used}, open {have}')
                    del extra
            ck.step(lib, kinds, tuple((t.obj is not None, t.tag, t.file, len(t.got)) for t in slots), len(open_files(d)))
        # everything still works
        for s in slots:
            if s.obj is not None:
                expect(td.close(s.query(), reference(s.kind, s.tag), 1e-9), 'value', 'final query')
        ck.outcome(lib, kinds, tuple((t.obj is not None, t.tag, t.file) for t in slots))
        s = slots = None


def item(ck, it):
    lib, kinds, first, depth, ops = it
    for k in kinds:
        for t in (0, 1):
            reference(k, t)
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (*first, *rest)
        if seq[-1][0] != 'Q':
            continue
        for c in ((1,) if ck.quick else range(-1, len(kinds))):
            if c < 0 or f'D{c}' in seq or c == 1 and ck.quick:
                ck.case(f'{lib}/{"-".join(kinds)}/{"".join(seq)}/{c}', sequence, ck, lib, kinds, seq, c)


def run(ck):
    ck.rule(
        'every sequence up to the stated length of query (creates if absent), switch to other data, dispose and advance-a-run for pairs of objects that share '
        'or change cache files, both back ends: all values correct, files used by live objects open, all others closed when the next file is opened'
    )
    ac.config.global_caching = 'none'
    items = []
    pairs = [('ps', 'ps'), ('ps', 'bf'), ('time', 'ps'), ('psf', 'psf'), ('time', 'time')]
    if not ck.quick:
        pairs += [('bf', 'bf'), ('time', 'bf'), ('psf', 'ps'), ('ps', 'ps', 'ps'), ('time', 'ps', 'bf')]
    for lib in ('tables', 'h5py'):
        for kinds in pairs:
            ops = [o + str(i) for i, k in enumerate(kinds) for o in ('QSDI' if k == 'time' else 'QSD')]
            starts = [o for o in ops if o[0] in 'QI']
            depth = (5 if 'time' not in kinds else 4) if ck.quick else 6 if len(kinds) == 2 else 5
            items += [(lib, kinds, (s, t), depth - 1, ops) for s in starts for t in ops]
    ck.parallel(item, items)
