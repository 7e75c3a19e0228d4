"""D01: equal configurations have equal digests."""

import itertools
import json
import os
import subprocess
import sys

import acoular as ac

from mc import worlds as W
from mc.checks.d02 import has_digest
from mc.checks.d03 import attempt, make
from mc.core import VERIF, expect

# settings that are stored as the same thing
RELATED = {'ind_low', 'ind_high', 'freq_range'}


def independent(w, seq):
    """Every order of the assignments ends in the same values."""
    for a, b in itertools.combinations(seq, 2):
        p, q = a[1], b[1]
        if p == q or p.startswith((q + '.', q + '[')) or q.startswith((p + '.', p + '[')):
            return False
        front_p, _, last_p = p.rpartition('.')
        front_q, _, last_q = q.rpartition('.')
        if front_p == front_q and last_p in RELATED and last_q in RELATED:
            return False
    return True


def settings(w, obj):
    """What the public settings read after the assignments."""
    out = {}
    for path in w.params():
        try:
            *front, (last, i) = list(W.parts(path))
            out[path] = W.norm(getattr(W.resolve(obj, front), last))
        except Exception:  # noqa: BLE001
            out[path] = 'raises'
    return out


def orders(ck, w, seq):
    """All orders of the same assignments; those that end in equal settings have equal digests."""
    objs = []
    for p in itertools.permutations(seq):
        o = w.make()
        done = [attempt(o, ch[1], ch[2]) for ch in p]
        ck.step(w.name, tuple(ch[0] for ch in p), tuple(done))
        if all(done):
            objs.append((p, o))
    for p, o in objs[1:]:
        p0, o0 = objs[0]
        a, b = settings(w, o0), settings(w, o)
        if W.differing(a, b) or W.differing(b, a):
            continue
        expect(
            o0.digest == o.digest,
            'order',
            lambda: f'settings in the order {[c[0] for c in p]} and {[c[0] for c in p0]} end in different digests',
        )
        ck.outcome(w.name, tuple(c[0] for c in seq))


def detour(ck, w, ch, via):
    """A setting reached directly, and through another value (asking for the digest on the way, or not)."""
    direct = make(w, [ch])
    for asked in (False, True):
        o = w.make()
        if asked:
            o.digest  # noqa: B018
        if not (attempt(o, via[1], via[2])):
            return
        if asked:
            o.digest  # noqa: B018
        if not attempt(o, ch[1], ch[2]):
            return
        a, b = settings(w, direct), settings(w, o)
        ck.step(w.name, via[0], ch[0], asked)
        if W.differing(a, b) or W.differing(b, a):
            return
        expect(direct.digest == o.digest, 'detour', lambda: f'{ch[0]} after {via[0]} has another digest than {ch[0]} alone')
        ck.outcome(w.name, via[0], ch[0])


def back(ck, w, ch):
    """A setting changed and taken back."""
    for asked in (False, True):
        o = w.make()
        d0 = w.make().digest
        before = settings(w, o)
        *front, (last, i) = list(W.parts(ch[1]))
        if i is not None or isinstance(ch[2], W.I):
            return
        old = getattr(W.resolve(o, front), last)
        old = old.copy() if hasattr(old, 'copy') else old
        if asked:
            o.digest  # noqa: B018
        if not attempt(o, ch[1], ch[2]):
            return
        if asked:
            o.digest  # noqa: B018
        try:
            setattr(W.resolve(o, front), last, old)
        except Exception:  # noqa: BLE001
            return
        after = settings(w, o)
        ck.step(w.name, ch[0], 'back', asked)
        if W.differing(before, after) or W.differing(after, before):
            return
        expect(o.digest == d0, 'undone', lambda: f'{ch[0]} and back leaves another digest')
        ck.outcome(w.name, ch[0], 'back')


def used(ck, w, seq):
    """Producing results leaves the digest alone, of the object and of all it refers to."""
    o = make(w, seq)
    d0 = digests(o)
    outs = w.outputs(o)
    d1 = digests(o)
    new = digests(make(w, seq))
    for k in d0:
        expect(d1.get(k) == d0[k], 'by-results', lambda: f'{k or "digest"} changes when results are produced')
        expect(new.get(k) == d0[k], 'by-instance', lambda: f'{k or "digest"} differs for another object built the same way')
    ck.step(w.name, tuple(s[0] for s in seq), 'used', len(outs))
    ck.outcome(w.name, tuple(s[0] for s in seq))


def digests(o, prefix='', seen=None):
    seen = set() if seen is None else seen
    out = {}
    if id(o) in seen or len(seen) > 30:
        return out
    seen.add(id(o))
    if 'digest' in o.trait_names():
        out[prefix] = o.digest
    for n in sorted(o.trait_names()):
        t = o.trait(n)
        if t.type in ('event', 'property') or n.startswith('_') or n.endswith('_') or W.is_deprecated(o, n):
            continue
        v = getattr(o, n, None)
        if isinstance(v, W.HasTraits):
            out.update(digests(v, f'{prefix}.{n}', seen))
    return out


def table(names=None):
    """{world: {change: digest}} of this process."""
    out = {}
    for w in W.worlds():
        if not has_digest(w) or w.name.endswith('-file') or 'AIAA' in w.name:
            continue
        out[w.name] = {'': w.make().digest}
        for ch in w.changes():
            o = w.make()
            if attempt(o, ch[1], ch[2]):
                out[w.name][ch[0]] = o.digest
    return out


def processes(ck, it):
    """The same configurations in this process and in others with other hash seeds."""
    seeds = ('0', '1', '77') if ck.quick else ('0', '1', '2', '3', '4', '5', '6', '77', '1234')
    prog = (
        'import sys; sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2]);'
        'import warnings; warnings.simplefilter("ignore");'
        'import json, acoular as ac; ac.config.global_caching = "none";'
        'from mc.checks.d01 import table;'
        'open(sys.argv[3], "w").write(json.dumps(table()))'
    )
    from mc.core import REPO

    ps = []
    for s in seeds:
        env = dict(os.environ, PYTHONHASHSEED=s)
        ps.append(
            subprocess.Popen(
                [sys.executable, '-W', 'ignore', '-c', prog, str(REPO), str(VERIF), f'd{s}.json'],
                env=env,
                stdout=subprocess.DEVNULL,
            )
        )
    mine = table()
    for s, p in zip(seeds, ps):
        p.wait()
        got = json.load(open(f'd{s}.json'))
        for name, t in mine.items():
            ck.case(f'{name}/process/{s}', compare, ck, name, s, t, got.get(name, {}))


def compare(ck, name, s, t, got):
    for k, d in t.items():
        ck.step(name, k, s)
        expect(got.get(k) == d, 'process', lambda: f'{name} {k}: another digest in another process')
        ck.outcome(name, k)


def one(ck, it):
    name, part, parts = it
    if name == 'processes':
        processes(ck, it)
        return
    w = next(x for x in W.worlds() if x.name == name)
    n = -1

    def mine():
        nonlocal n
        n += 1
        return n % parts == part

    every = w.changes()
    first = w.changes(first=True)
    if mine():
        ck.case(f'{name}/used', used, ck, w, [])
    for ch in every:
        if mine():
            ck.case(f'{name}/back/{ch[0]}', back, ck, w, ch)
            if not (w.heavy and ck.quick):
                ck.case(f'{name}/used/{ch[0]}', used, ck, w, [ch])
    for via, ch in itertools.permutations(every, 2):
        if via[1] == ch[1] and mine():
            ck.case(f'{name}/via/{via[0]},{ch[0]}', detour, ck, w, ch, via)
    own = [c for c in first if '.' not in c[1]] if ck.quick else first
    pairs = itertools.combinations(first if ck.quick else every, 2)
    if ck.quick and w.heavy:
        pairs = [p for p in pairs if p[0] in own and (p[1] in own[:6] or p[0] in own[:3]) or p[0] is first[0]]
    for pair in pairs:
        if independent(w, pair) and mine():
            ck.case(f'{name}/orders/' + ','.join(c[0] for c in pair), orders, ck, w, pair)
    # three settings; of the object itself only
    for three in itertools.combinations(own[:4] if ck.quick and w.heavy else own, 3):
        if independent(w, three) and mine():
            ck.case(f'{name}/orders/' + ','.join(c[0] for c in three), orders, ck, w, three)


def run(ck):
    ac.config.global_caching = 'none'
    items = [('processes', 0, 1)]
    for w in W.worlds():
        if has_digest(w):
            items += [(w.name, k, 4) for k in range(4)]
    ck.parallel(one, items)
    ck.rule('every class with a digest: all orders of all pairs and triples of settings, every setting reached through every '
            'other value of it, every setting changed and taken back, all results produced in between; other processes with other hash seeds')
    ck.assume('Assignments that depend on each other (and so end in different settings in another order) are not compared.')
