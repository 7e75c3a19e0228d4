"""C07: results do not depend on the number of threads or on the order in which they work."""

import os
import pathlib
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from mc.core import REPO, VERIF, expect

SHARDS = {'model': 3, 'compiled': 3}


def children(ck):
    env = dict(os.environ, NUMBA_NUM_THREADS='8', NUMBA_THREADING_LAYER='workqueue', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    ps = []
    for mode, n in SHARDS.items():
        for k in range(n):
            d = tempfile.mkdtemp(prefix=f'{mode}{k}-', dir=os.getcwd())
            out = pathlib.Path(d) / 'out'
            err = open(pathlib.Path(d) / 'err', 'w')
            cmd = [sys.executable, '-W', 'ignore', str(VERIF / 'mc' / 'kernels.py'), str(REPO), mode, str(ck.quick), str(out), str(k), str(n)]
            ps.append((mode, k, out, pathlib.Path(d) / 'err', subprocess.Popen(cmd, cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=err)))
    res = {'model': [], 'compiled': []}
    for mode, k, out, err, p in ps:
        rc = p.wait()
        if rc:
            ck.case(f'{mode}/{k}', lambda: expect(False, 'ended', err.read_text()[-1500:]))
        else:
            res[mode].append(pickle.loads(out.read_bytes()))
    return res


def same(a, b, tol):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str)
    if a.shape != b.shape:
        return False
    ok = np.isfinite(a) == np.isfinite(b)
    a, b = np.where(np.isfinite(a), a, 0), np.where(np.isfinite(b), b, 0)
    return bool(ok.all() and np.all(np.abs(a - b) <= tol * max(np.abs(a).max(initial=0), np.abs(b).max(initial=0)) + 1e-300))


def one(ck, name, runs, tol):
    """All runs of a workload give the same values."""
    first, ref = next(iter(runs.items()))
    for run, got in runs.items():
        ck.step(name, run)
        expect(same(ref, got, tol), 'schedule', lambda: f'{name}: {run} gives {str(got)[:300]}; {first} gives {str(ref)[:300]}')
    ck.outcome(name, str(ref)[:200])
    if isinstance(ref, str):
        ck.assume(f'{name} ends with {ref[:80]} for every schedule')


def run(ck):
    res = children(ck)
    runs, tols = {}, {}
    races, loops, accesses = {}, {}, 0
    for mode in ('model', 'compiled'):
        for r in res[mode]:
            tols.update(r['tol'])
            for run_, values in r['runs'].items():
                for name, v in values.items():
                    runs.setdefault(name, {})[f'{mode}, {run_}'] = v
            if mode == 'model':
                races.update(r['races'])
                accesses += r['accesses']
                for k, n in r['loops'].items():
                    loops[k] = max(n, loops.get(k, 0))
    for name in runs:
        # the same precision for all runs; single precision where the workload says so
        ck.case(f'schedule/{name}', one, ck, name, runs[name], tols[name])
    for name, n in sorted(loops.items()):
        ck.transitions += n

        def race(name=name):
            expect(name not in races, 'race', lambda: f'{name}: {races[name]}')

        ck.case(f'race/{name}', race)
    ck.extra['parallel_loops'] = loops
    ck.extra['shared_accesses_compared'] = accesses
    ck.rule('every parallel loop that the workloads reach, up to the outermost: all accesses of all tasks to shared memory, by address (tasks without conflict '
            'commute, so that all schedules are equivalent); task orders (all permutations up to 4 tasks); compiled code for numbers of threads x chunk sizes')
    ck.assume('The model runs the source of the parallel functions as Python code; its results are compared with those of the compiled functions.')
