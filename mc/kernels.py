"""Child process: runs workloads either on a model of parallel loops or on the compiled code.

usage: kernels.py REPO model|compiled QUICK OUT SHARD SHARDS

model: every function compiled for parallel execution is run as Python code. Its outermost parallel loop
(or the elements a parallel gufunc is applied to) is a set of tasks; every access of a task to shared memory
is recorded by address. Tasks without conflicting accesses commute, so that all schedules give the same
result; a conflict is reported. In addition the tasks are run one after another in many orders, which shows
values that a task takes over from another one in a variable.
compiled: the code as it is, for several numbers of threads and chunk sizes.
"""

import itertools
import os
import pickle
import re
import sys
import types

os.environ['NUMBA_NUM_THREADS'] = '8'
import numba as nb  # noqa: E402
import numpy as np  # noqa: E402
from numpy.lib.mixins import NDArrayOperatorsMixin  # noqa: E402

ALLOC = {'empty', 'zeros', 'ones', 'full', 'empty_like', 'zeros_like', 'ones_like', 'full_like', 'array', 'arange', 'copy'}


class State:
    task = None  # task under way
    depth = 0  # depth of parallel functions
    log = None  # task -> (addresses read, addresses written)
    order = 0
    races = {}
    loops = {}
    accesses = 0


def orders(n, which):
    """The which-th order of n tasks."""
    if n <= 4:
        perms = list(itertools.permutations(range(n)))
        return perms[which % len(perms)]
    forms = [range(n), range(n)[::-1], [*range(1, n, 2), *range(0, n, 2)], [*range(n // 2, n), *range(n // 2)]]
    return list(forms[which % len(forms)])


def tasks(name, n):
    """Run as a parallel loop: yields the numbers of the tasks and records what they do."""
    if State.task is not None or State.depth == 0:  # only the outermost loop runs in parallel
        yield from range(n)
        return
    State.log = {}
    State.loops[name] = max(State.loops.get(name, 0), n)
    try:
        for i in orders(n, State.order):
            State.task = i
            State.log[i] = (set(), set())
            yield i
    finally:
        State.task = None
        log, State.log = State.log, None
        writer, reader = {}, {}
        for i, (r, w) in log.items():
            State.accesses += len(r) + len(w)
            for a in w:
                if a in writer and name not in State.races:
                    State.races[name] = f'tasks {writer[a]} and {i} of {n} write to the same place'
                writer[a] = i
            for a in r:
                reader.setdefault(a, set()).add(i)
        for a, i in writer.items():
            if reader.get(a, {i}) - {i} and name not in State.races:
                State.races[name] = f'task {i} of {n} writes where tasks {sorted(reader[a] - {i})} read'


class T(NDArrayOperatorsMixin):
    """An array whose accesses are recorded."""

    def __init__(self, a, part=False):
        self.a = a
        self.part = part

    def where(self):
        p = np.array(self.a.__array_interface__['data'][0])
        for n, s in zip(self.a.shape, self.a.strides):
            p = p[..., None] + np.arange(n) * s
        return p.ravel().tolist()

    def log(self, write):
        if State.task is not None:
            State.log[State.task][write].update(self.where())

    def __getitem__(self, k):
        k = plain(k)
        v = self.a[k]
        if isinstance(v, np.ndarray):
            if v.base is None and State.task is not None:  # a copy
                self.log(0)
                return v
            return T(v, True)
        if State.task is not None:
            T(self.cell(k)).log(0)
        return v

    def cell(self, k):
        k = k if isinstance(k, tuple) else (k,)
        return self.a[tuple(slice(i, i + 1 or None) if isinstance(i, (int, np.integer)) else i for i in k)]

    def __setitem__(self, k, v):
        k = plain(k)
        if State.task is not None:
            c = self.cell(k)
            T(c if c.base is not None else self.a).log(1)
        self.a[k] = plain(v)

    def __array__(self, dtype=None, copy=None):
        self.log(0)
        return np.array(self.a, dtype=dtype)

    def __array_ufunc__(self, ufunc, method, *args, out=(), **kw):
        args = [plain(a) for a in args]
        for o in out:
            if isinstance(o, T):
                o.log(1)
        kw = {k: plain(v) for k, v in kw.items()}
        if out:
            kw['out'] = tuple(o.a if isinstance(o, T) else o for o in out)
        return kept(getattr(ufunc, method)(*args, **kw))

    def reduced(self, other, f):
        """In a parallel loop, this is a reduction when done to a variable and a plain access when done to a part of it."""
        if self.part or State.task is None:
            return f(self, plain(other), out=(self,))
        f(self.a, plain(other), out=self.a)
        return self

    def __iadd__(self, other):
        return self.update(other, np.add)

    def __isub__(self, other):
        return self.update(other, np.subtract)

    def __imul__(self, other):
        return self.update(other, np.multiply)

    def update(self, other, f):
        r = self.reduced(other, f)
        return self if isinstance(r, np.ndarray) else r

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return (self[i] for i in range(len(self.a)))

    def __getattr__(self, name):
        if name in ('shape', 'dtype', 'ndim', 'size', 'strides', 'itemsize'):
            return getattr(self.a, name)
        if name in ('T', 'real', 'imag'):
            return T(getattr(self.a, name))
        if name in ('transpose', 'reshape', 'view', 'ravel', 'swapaxes'):
            return lambda *a, **k: T(getattr(self.a, name)(*a, **k))
        if name == 'fill':
            return lambda v: self.__setitem__(Ellipsis, v)
        self.log(0)
        v = getattr(self.a, name)
        return (lambda *a, **k: kept(v(*map(plain, a), **k))) if callable(v) else v


def kept(v):
    """What is made before the tasks start is shared by them."""
    return T(v) if isinstance(v, np.ndarray) and State.depth and State.task is None else v


def plain(v):
    if isinstance(v, T):
        v.log(0)
        return v.a
    if isinstance(v, tuple):
        return tuple(plain(i) for i in v)
    return v


class Numpy:
    """Stands for numpy inside of parallel functions."""

    def __getattr__(self, name):
        v = getattr(np, name)
        return allocator(v) if name in ALLOC else v


def allocator(f):
    return lambda *a, **k: kept(f(*map(plain, a), **k))


def shared(f):
    """The function with allocations that are recorded."""
    g = dict(f.__globals__)
    own = {}
    for k, v in g.items():
        if v is np:
            own[k] = Numpy()
        elif getattr(v, '__name__', None) in ALLOC and getattr(np, getattr(v, '__name__'), None) is v:
            own[k] = allocator(v)

    def call(*a, **k):
        ns = {**f.__globals__, **own}
        return types.FunctionType(f.__code__, ns, f.__name__, f.__defaults__, f.__closure__)(*a, **k)

    return call


def model_njit(*a, **kw):
    def deco(f):
        f.py_func = f
        if not kw.get('parallel'):
            return f
        run = shared(f)

        def call(*args, **k):
            State.depth += 1
            State.names.append(f.__name__)
            try:
                r = run(*(T(x) if isinstance(x, np.ndarray) else x for x in args), **{n: T(x) if isinstance(x, np.ndarray) else x for n, x in k.items()})
            finally:
                State.depth -= 1
                State.names.pop()
            return r.a if isinstance(r, T) and not State.depth else tuple(x.a if isinstance(x, T) else x for x in r) if isinstance(r, tuple) else r

        call.py_func = f
        call.__name__ = f.__name__
        return call

    return deco(a[0]) if a and isinstance(a[0], types.FunctionType) else deco


State.names = []


def model_prange(*a):
    r = range(*(int(i) for i in a))
    name = State.names[0] if State.names else ''
    return (r[i] for i in tasks(name, len(r)))


def model_guvectorize(sigs, layout, target='cpu', **kw):
    left, right = layout.replace(' ', '').split('->')
    cores = [[d for d in g.split(',') if d] for g in re.findall(r'\(([^)]*)\)', left)]
    outs = [[d for d in g.split(',') if d] for g in re.findall(r'\(([^)]*)\)', right)]
    sigs = sigs if isinstance(sigs, list) else [sigs]
    sigs = [getattr(s, 'args', s) for s in sigs]

    def kind(t):
        return np.dtype(str(getattr(t, 'dtype', t)))

    def deco(f):
        run = shared(f)

        def call(*args):
            ins = [np.asarray(x) for x in args[: len(cores)]]
            given = list(args[len(cores) :])
            fit = [s for s in sigs if all(np.can_cast(x.dtype, kind(t), 'same_kind') for x, t in zip(ins, s)) and all(np.can_cast(kind(t), o.dtype, 'same_kind') for o, t in zip(given, s[len(ins) :]))]
            exact = [s for s in fit if all(o.dtype == kind(t) for o, t in zip(given, s[len(ins) :]))]
            sig = (exact or fit)[0]
            ins = [x.astype(kind(t), copy=False) for x, t in zip(ins, sig)]
            dims = {}
            for x, c in zip(ins, cores):
                for d, n in zip(c, x.shape[x.ndim - len(c) :]):
                    dims[d] = n
            loop = np.broadcast_shapes(*(x.shape[: x.ndim - len(c)] for x, c in zip(ins, cores)), *(o.shape[: o.ndim - len(c)] for o, c in zip(given, outs)))
            for c, t in zip(outs[len(given) :], sig[len(ins) + len(given) :]):
                given.append(np.zeros((*loop, *(dims[d] for d in c)), kind(t)))
            every = []
            for x, c in zip([*ins, *given], [*cores, *outs]):
                every.append(np.broadcast_to(x, (*loop, *x.shape[x.ndim - len(c) :])) if x.shape[: x.ndim - len(c)] != loop else x)
            index = list(np.ndindex(*loop))
            State.depth += 1
            State.names.append(f.__name__)
            try:
                for i in tasks(f.__name__ if target == 'parallel' else f.__name__ + '/serial', len(index)):
                    sub = []
                    for x, c, t in zip(every, [*cores, *outs], sig):
                        v = x[(*index[i], ...)]
                        if not c:
                            v = v.reshape(1) if hasattr(t, 'ndim') else v[()]
                        sub.append(T(v) if isinstance(v, np.ndarray) else v)
                    run(*sub)
            finally:
                State.depth -= 1
                State.names.pop()
            given = [o if o.shape else o[()] for o in given]
            return given[0] if len(outs) == 1 else tuple(given)

        call.__name__ = f.__name__
        return call

    return deco


# -- workloads ----------------------------------------------------------------------------------


def build(ac, quick):
    ac.config.global_caching = 'none'
    fs = 8192.0
    n = 3
    gpos = np.array([[-0.2, 0.0, 0.25], [0.1, -0.15, 0.2], [0.5, 0.6, 0.55]])
    if not quick:
        n = 4
        gpos = np.hstack((gpos, [[0.3], [-0.3], [0.7]]))
    mpos = np.array([[-0.3, 0.3, 0.05, -0.1], [0.25, -0.2, 0.3, -0.31], [0.0, 0.02, 0.0, -0.01]])[:, :n]
    t = np.arange(300)[:, None]
    x = np.sin(0.9 * t + 0.7 * np.arange(n)) + 0.5 * np.cos(1.7 * t - 0.4 * np.arange(n) ** 2) + 0.1 * np.cos(t * t * (1 + np.arange(n)))
    k = np.arange(3)[:, None, None] + 1
    a, b = np.arange(n)[None, :, None], np.arange(n)[None, None, :]
    csm = 2e-3 * np.exp(0.8j * k * (a - b)) / k + 7e-4 * np.exp(-0.37j * k * (a * a - b * b)) * np.sqrt(k) + 1e-4 * np.eye(n) * (1 + 0.3 * a)
    freqs = np.array([250.0, 500.0, 900.0])

    def mics():
        return ac.MicGeom(pos_total=mpos)

    def grid():
        return ac.ImportGrid(pos=gpos)

    def steer(st, **kw):
        return ac.SteeringVector(grid=grid(), mics=mics(), steer_type=st, **kw)

    class Own(ac.SteeringVector):
        def steer_vector(self, f, ind=None):
            v = self.transfer(f, ind)
            return v / (np.abs(v) ** 2).sum(1, keepdims=True)

    def source(m=40, c=None):
        return ac.TimeSamples(data=x[:m, :c], sample_freq=fs)

    def collect(o, num):
        return np.concatenate([blk.copy() for blk in o.result(num)])

    types_ = ('classic', 'inverse', 'true level', 'true location')
    work = {}

    def add(name, f, tol=1e-6):
        work[name] = (f, tol)

    maps = {
        'Base': lambda **k: ac.BeamformerBase(**k),
        'Eig': lambda **k: ac.BeamformerEig(n=-1, **k),
        'Functional': lambda **k: ac.BeamformerFunctional(gamma=3, **{**k, 'r_diag': False}),
        'Capon': lambda **k: ac.BeamformerCapon(**{**k, 'r_diag': False}),
        'Music': lambda **k: ac.BeamformerMusic(n=2, **{**k, 'r_diag': False}),
        'Damas': lambda **k: ac.BeamformerDamas(n_iter=5, **k),
        'DamasPlus': lambda **k: ac.BeamformerDamasPlus(method='NNLS', **k),
        'Orth': lambda **k: ac.BeamformerOrth(eva_list=np.array([-1, -2]), **k),
        'Cleansc': lambda **k: ac.BeamformerCleansc(n_iter=3, **k),
        'Clean': lambda **k: ac.BeamformerClean(n_iter=5, **k),
        'CMF': lambda **k: ac.BeamformerCMF(method='NNLS', **k),
    }
    for name, make in maps.items():
        for st, d in itertools.product((*types_, 'own'), (False, True)):
            if name in ('Functional', 'Capon', 'Music') and d:
                continue

            def one(make=make, st=st, d=d):
                s = Own(grid=grid(), mics=mics()) if st == 'own' else steer(st)
                bf = make(freq_data=ac.PowerSpectraImport(csm=csm, frequencies=freqs), steer=s, r_diag=d, cached=False)
                return np.array([bf.synthetic(f, 0).ravel() for f in freqs])

            add(f'{name}/{st}/{d}', one, 1e-4)
    for st in types_:
        add(f'steer/{st}', lambda st=st: np.array([steer(st).steer_vector(f) for f in freqs]))
        add(f'transfer/{st}', lambda st=st: np.array([steer(st).transfer(f) for f in freqs]))
        for mode, p in itertools.product(('single', 'block', 'full'), ('float64', 'float32')):
            add(f'psf/{st}/{mode}/{p}', lambda st=st, mode=mode, p=p: ac.PointSpreadFunction(steer=steer(st), calcmode=mode, precision=p, freq=500.0, grid_indices=np.array([0, 2])).psf, 1e-4)
    for p, o in itertools.product(('complex128', 'complex64'), ('None', '50%')):
        add(f'csm/{p}/{o}', lambda p=p, o=o: ac.PowerSpectra(source=source(300), block_size=128, overlap=o, precision=p, window='Hanning', cached=False).csm, 1e-5)
    for p in ('complex128', 'complex64'):
        add(f'cross/{p}', lambda p=p: collect(ac.CrossPowerSpectra(source=ac.RFFT(source=source(64, 3), block_size=4, window='Rectangular'), precision=p), 2), 1e-5)
    add('convolve', lambda: collect(ac.TimeConvolve(source=source(24), kernel=np.array([[1.0], [0.5], [-0.25], [0.1], [0.3]])), 3))
    tra = lambda: ac.Trajectory(points={t: (3.0 * t, -2.0 * t, 0.0) for t in (-1.0, -0.5, 0.0, 0.5, 1.0)})  # noqa: E731
    blocks = (3,) if quick else (3, 4)
    for st, num in itertools.product(types_, blocks):
        add(f'time/{st}/{num}', lambda st=st, num=num: collect(ac.BeamformerTime(source=source(), steer=steer(st)), num))
        for d in (False, True):
            add(f'timesq/{st}/{d}/{num}', lambda st=st, d=d, num=num: collect(ac.BeamformerTimeSq(source=source(), steer=steer(st), r_diag=d), num))
        for p in (64, 32):
            add(f'traj/{st}/{p}/{num}', lambda st=st, num=num, p=p: collect(ac.BeamformerTimeTraj(source=source(), steer=steer(st), conv_amp=True, trajectory=tra(), precision=p), num), 1e-4)
            add(f'trajsq/{st}/{p}/{num}', lambda st=st, num=num, p=p: collect(ac.BeamformerTimeSqTraj(source=source(), steer=steer(st), r_diag=True, trajectory=tra(), precision=p), num), 1e-4)
    add('cleant', lambda: collect(ac.BeamformerCleant(source=source(), steer=steer('true location'), n_iter=3), 3), 1e-4)
    add('cleantsq', lambda: collect(ac.BeamformerCleantSq(source=source(), steer=steer('true location'), n_iter=3), 3), 1e-4)
    add('cleanttraj', lambda: collect(ac.BeamformerCleantTraj(source=source(), steer=steer('true location'), n_iter=3, trajectory=tra()), 3), 1e-4)
    add('cleantsqtraj', lambda: collect(ac.BeamformerCleantSqTraj(source=source(), steer=steer('true location'), n_iter=3, trajectory=tra()), 3), 1e-4)
    sig = lambda: ac.SineGenerator(sample_freq=fs, num_samples=48, freq=700.0)  # noqa: E731
    add('point', lambda: collect(ac.PointSource(signal=sig(), mics=mics(), loc=(0.1, 0.0, 0.4)), 5))
    add('moving', lambda: collect(ac.MovingPointSource(signal=sig(), mics=mics(), trajectory=ac.Trajectory(points={t: (3.0 * t, 0.1, 0.4) for t in (-1.0, -0.5, 0.0, 0.5, 1.0)})), 5))
    add('dipole', lambda: collect(ac.PointSourceDipole(signal=sig(), mics=mics(), loc=(0.1, 0.0, 0.4)), 5))
    env = lambda: ac.UniformFlowEnvironment(ma=0.2, fdv=(1.0, 0.5, 0.0))  # noqa: E731
    add('flow', lambda: env()._r(gpos, mpos))
    return work


def evaluate(work):
    out = {}
    for name, (f, _) in work.items():
        try:
            out[name] = np.array(f())
        except Exception as e:  # noqa: BLE001
            out[name] = f'{type(e).__name__}: {e}'
    return out


def main(repo, mode, quick, path, shard, shards):
    quick = quick == 'True'
    if mode == 'model':
        nb.njit = nb.jit = model_njit
        nb.guvectorize = model_guvectorize
        nb.prange = model_prange
    sys.path.insert(0, repo)
    sys.stdout = open(os.devnull, 'w')
    import warnings

    warnings.simplefilter('ignore')
    import acoular as ac

    np.seterr(all='ignore')
    work = build(ac, quick)
    work = {k: work[k] for k in list(work)[int(shard) :: int(shards)]}
    res = {'tol': {k: t for k, (_, t) in work.items()}, 'runs': {}}
    if mode == 'model':
        for which in range(6 if quick else 24):
            State.order = which
            res['runs'][f'order {which}'] = evaluate(work)
        res['races'], res['loops'], res['accesses'] = State.races, State.loops, State.accesses
    else:
        for threads, chunk in itertools.product((1, 2, 3, 8) if quick else range(1, 9), (0, 1) if quick else (0, 1, 2, 3)):
            nb.set_num_threads(threads)
            nb.set_parallel_chunksize(chunk)
            res['runs'][f'{threads} threads, chunks of {chunk}'] = evaluate(work)
    with open(path, 'wb') as f:
        pickle.dump(res, f)


if __name__ == '__main__':
    main(*sys.argv[1:])
