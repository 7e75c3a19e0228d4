"""Harness core: boots the code under test from /repo, counts what was explored, reports.

Every check explores a finite space of executions of the real code, completely. The unit is a
*case*: a function that builds fresh objects, drives them through one execution and compares every
step with a reference model. A case has a deterministic key; the key is what a replay file and the
known-findings file name.
"""

import contextlib
import fnmatch
import gc
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('MC_REPO', '/repo'))
FINDINGS = VERIF / 'known_findings.jsonl'
MAX_REPORTED = 25


class Mismatch(AssertionError):
    """The implementation departed from the reference model."""

    def __init__(self, symptom, message):
        super().__init__(message)
        self.symptom = symptom


def fail(symptom, message=''):
    raise Mismatch(symptom, message or symptom)


def expect(cond, symptom, message=''):
    if not cond:
        fail(symptom, message() if callable(message) else message)


def sources_hash():
    h = hashlib.sha256()
    for f in sorted((REPO / 'acoular').rglob('*.py')):
        h.update(str(f).encode())
        h.update(f.read_bytes())
    h.update(sys.version.encode())
    return h.hexdigest()[:20]


def boot():
    """Environment of the code under test: own numba cache, scratch working directory."""
    cache = VERIF / '.cache' / 'numba' / sources_hash()
    try:
        if not cache.exists() and cache.parent.exists():
            # keep the scratch space small: at most three source states
            old = sorted(cache.parent.iterdir(), key=lambda p: p.stat().st_mtime)
            for p in old[:-2]:
                shutil.rmtree(p, ignore_errors=True)
        cache.mkdir(parents=True, exist_ok=True)
        os.environ['NUMBA_CACHE_DIR'] = str(cache)
    except OSError:
        os.environ['NUMBA_CACHE_DIR'] = tempfile.mkdtemp(prefix='mc-numba-')
    scratch = pathlib.Path(tempfile.mkdtemp(prefix='mc-scratch-'))
    os.chdir(scratch)
    for v in ('ACOULAR_DATA', 'ACOULAR_CACHE'):
        os.environ.pop(v, None)
    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    warm()
    return scratch


def warm():
    if any(pathlib.Path(os.environ['NUMBA_CACHE_DIR']).rglob('*.nbi')):
        return
    n = 8
    ps = [
        subprocess.Popen(
            [sys.executable, '-W', 'ignore', str(VERIF / 'mc' / 'warm.py'), str(REPO), str(k), str(n)],
            stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL,
        )
        for k in range(n)
    ]
    for p in ps:
        try:
            p.wait(120)
        except subprocess.TimeoutExpired:
            p.kill()


def symptom_of(exc):
    if isinstance(exc, Mismatch):
        return exc.symptom
    return type(exc).__name__


class Check:
    def __init__(self, prop, tier, seed, only=None):
        self.prop = prop
        self.tier = tier
        self.quick = tier == 'quick'
        self.seed = seed
        self.only = only
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []  # (key, symptom, message)
        self.extra = {}
        self.assumptions = []
        self.rules = []
        self.capped = []
        self.per_group = {}

    # -- counting ---------------------------------------------------------------------------
    def step(self, *state):
        """One transition of the implementation, reaching the given (canonical) state."""
        self.transitions += 1
        self.states.add(hash(state))

    def outcome(self, *o):
        self.outcomes.add(hash(o))

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    # -- cases ------------------------------------------------------------------------------
    def case(self, key, fn, *args, **kw):
        """Run one execution; anything that is raised is a departure from the model."""
        if self.only is not None and key != self.only:
            return None
        group = key.split('/')[0]
        self.per_group[group] = self.per_group.get(group, 0) + 1
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                out = fn(*args, **kw)
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:  # noqa: BLE001
            self.traces += 1
            tb = traceback.format_exc(limit=-6)
            self.violations.append((key, symptom_of(e), f'{type(e).__name__}: {e}\n{tb}'))
            return None
        self.traces += 1
        n = len(self.samples)
        if n < 8 or (self.traces % 997 == 0 and n < 24):
            self.samples.append(key)
        return out

    # -- parallel ---------------------------------------------------------------------------
    def parallel(self, fn, items, workers=None):
        """fn(ck, item) for every item, in forked workers with own scratch directories."""
        items = list(items)
        workers = min(workers or 8, max(1, len(items)))
        if self.only is not None or workers == 1 or os.environ.get('MC_SERIAL'):
            for it in items:
                fn(self, it)
            return
        ctx = multiprocessing.get_context('fork')
        nxt = ctx.Value('i', 0)
        pipes = []
        procs = []
        sys.stdout.flush()
        for _ in range(workers):
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(self, fn, items, nxt, wr), daemon=True)
            p.start()
            wr.close()
            pipes.append(rd)
            procs.append(p)
        for rd, p in zip(pipes, procs):
            try:
                res = rd.recv()
            except EOFError:
                p.join()
                self.violations.append(('worker', f'exit{p.exitcode}', f'worker died with exit code {p.exitcode}'))
                continue
            self.merge(res)
            p.join()

    def merge(self, res):
        self.states |= res['states']
        self.transitions += res['transitions']
        self.traces += res['traces']
        self.outcomes |= res['outcomes']
        self.samples += res['samples'][: max(0, 24 - len(self.samples))]
        self.violations += res['violations']
        for k, v in res['per_group'].items():
            self.per_group[k] = self.per_group.get(k, 0) + v
        for a in res['assumptions']:
            self.assume(a)
        for a in res['rules']:
            self.rule(a)
        for k, v in res['extra'].items():
            if isinstance(v, (int, float)):
                self.extra[k] = self.extra.get(k, 0) + v
            else:
                self.extra[k] = v
        self.capped += res['capped']


def _worker(ck, fn, items, nxt, wr):
    ck.states = set()
    ck.transitions = ck.traces = 0
    ck.outcomes = set()
    ck.samples = []
    ck.violations = []
    ck.per_group = {}
    ck.extra = {}
    ck.capped = []
    d = tempfile.mkdtemp(prefix='w', dir=os.getcwd())
    os.chdir(d)
    while True:
        with nxt.get_lock():
            i = nxt.value
            nxt.value += 1
        if i >= len(items):
            break
        try:
            fn(ck, items[i])
        except BaseException as e:  # noqa: BLE001
            ck.violations.append((f'item/{i}', symptom_of(e), traceback.format_exc(limit=-8)))
    wr.send(
        {
            k: getattr(ck, k)
            for k in (
                'states',
                'transitions',
                'traces',
                'outcomes',
                'samples',
                'violations',
                'per_group',
                'assumptions',
                'rules',
                'extra',
                'capped',
            )
        }
    )
    wr.close()
    os._exit(0)


def preload(argv):
    """Starts again with the library that ends the process at a chosen system call."""
    src = VERIF / 'mc' / 'native' / 'crash.c'
    out = VERIF / '.cache' / 'native' / (hashlib.sha256(src.read_bytes()).hexdigest()[:16] + '.so')
    if not out.exists():
        out.parent.mkdir(parents=True, exist_ok=True)
        tmp = out.with_name(f'{out.stem}-{os.getpid()}.tmp')
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', str(tmp), str(src), '-ldl'], check=True)
        tmp.rename(out)
    env = dict(os.environ, LD_PRELOAD=str(out), MC_NATIVE='1')
    os.execve(sys.executable, [sys.executable, '-W', 'ignore', str(VERIF / 'mc' / 'run.py'), *argv], env)


def load_findings(prop):
    out = []
    if FINDINGS.exists():
        for line in FINDINGS.read_text().splitlines():
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('status') == 'known' and d.get('property') == prop:
                    out.append(d)
    return out


def main(argv):
    prop, tier = argv[0], argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = None
    if '--replay' in argv:
        only = json.loads(pathlib.Path(argv[argv.index('--replay') + 1]).read_text())['key']
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if prop == 'C04' and not os.environ.get('MC_NATIVE'):
        preload(argv)
    t0 = time.time()
    if prop in ('S07', 'S08', 'C06'):
        from mc import sched

        sched.install()
    scratch = boot()
    ck = Check(prop, tier, seed, only)
    mod = None
    try:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                import acoular  # noqa: F401
            if not str(pathlib.Path(acoular.__file__).resolve()).startswith(str(REPO)):
                print(f'wrong code under test: {acoular.__file__}')
                return 2
        except BaseException:  # noqa: BLE001
            ck.violations.append(('import', 'import', traceback.format_exc(limit=-6)))
        else:
            mod = importlib.import_module(f'mc.checks.{prop.lower()}')
            gc.collect()
            gc.freeze()  # collections of the library only have to look at what the check creates
            try:
                mod.run(ck)
            except BaseException as e:  # noqa: BLE001
                if isinstance(e, KeyboardInterrupt):
                    raise
                ck.violations.append(('run', symptom_of(e), traceback.format_exc(limit=-8)))
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
        if os.environ['NUMBA_CACHE_DIR'].startswith(tempfile.gettempdir()):
            shutil.rmtree(os.environ['NUMBA_CACHE_DIR'], ignore_errors=True)
    wall = time.time() - t0

    findings = load_findings(prop)
    seen = {}
    new = []
    for key, symptom, msg in ck.violations:
        hit = None
        for f in findings:
            if fnmatch.fnmatchcase(key, f['key']) and f.get('symptom', symptom) == symptom:
                hit = f
                break
        if hit is None:
            new.append((key, symptom, msg))
        else:
            seen.setdefault(id(hit), [hit, 0])[1] += 1
    for f, n in seen.values():
        print(f'KNOWN-FINDING: property={prop} {f["what"]} ({n} case(s), key {f["key"]})')

    cov = {
        'states': len(ck.states),
        'transitions': ck.transitions,
        'traces_validated_against_impl': ck.traces,
        'distinct_outcomes': len(ck.outcomes),
        'cases_per_group': dict(sorted(ck.per_group.items())),
        'samples': ck.samples[:24] or ['(no case completed)'],
        'rule': ' | '.join(ck.rules),
        'exhaustive': not ck.capped,
    }
    if ck.capped:
        cov['caps_hit'] = ck.capped
    cov.update(ck.extra)
    ev = {
        'property': prop,
        'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': seed,
        'level': 'model_checking',
        'coverage': cov,
        'assumptions': ck.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    if only is None:
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / f'{prop}.json').write_text(json.dumps(ev, indent=1) + '\n')
    print(
        f'{prop} {tier}: {ck.traces} executions, {ck.transitions} transitions, {len(ck.states)} states, '
        f'{len(ck.outcomes)} outcomes, {len(new)} violation(s), {wall:.1f}s'
    )
    if new and os.environ.get('MC_SUMMARY'):
        groups = {}
        for key, symptom, msg in new:
            groups.setdefault((key.split('/')[0], symptom), []).append((key, msg))
        for (g, s), v in sorted(groups.items()):
            print(f'# {g} {s} x{len(v)}: {v[0][0]}: {v[0][1].strip().splitlines()[0][:160]}')
    if new:
        rd = VERIF / 'replays'
        rd.mkdir(exist_ok=True)
        done = set()
        for key, symptom, msg in new:
            sig = hashlib.sha1(f'{key}|{symptom}'.encode()).hexdigest()[:10]
            if sig in done:
                continue
            done.add(sig)
            if len(done) > MAX_REPORTED:
                break
            p = rd / f'{prop}-{sig}.json'
            p.write_text(json.dumps({'property': prop, 'key': key, 'symptom': symptom, 'message': msg}, indent=1))
            print(f'VIOLATION property={prop} replay={p}')
            print(f'  case {key}: {symptom}: ' + msg.strip().splitlines()[0][:300])
        if len(new) > len(done):
            print(f'  ... {len(new)} violations in total')
        return 1
    if ck.traces == 0 and only is None:
        print('nothing was explored')
        return 2
    return 0
