"""D03: a reconfigured object behaves like a freshly built one."""

import acoular as ac

from mc import worlds as W
from mc.core import expect


class Fresh:
    """Outputs of new objects, by the settings made."""

    def __init__(self, w):
        self.w, self.store = w, {}

    def __call__(self, seq):
        key = tuple(label for label, _, _ in seq)
        if key not in self.store:
            if len(self.store) > 400:
                self.store.clear()
            self.store[key] = observe(self.w, make(self.w, seq))
        return self.store[key]


def make(w, seq):
    obj = w.make()
    for _, path, alt in seq:
        attempt(obj, path, alt)
    return obj


def attempt(obj, path, alt):
    """Refused settings are refused in both objects."""
    try:
        W.assign(obj, path, alt)
    except Exception:  # noqa: BLE001
        return False
    return True


def observe(w, obj, only=None):
    out = w.outputs(obj, only)
    if hasattr(obj, 'digest') and (only is None or 'digest' in only):
        out['digest'] = obj.digest
    return out


def compare(ck, w, obj, fresh, seq, sig):
    got = observe(w, obj)
    want = fresh(seq)
    bad = W.differing(want, got) + [k for k in got if k not in want]
    expect(
        not bad,
        'stale',
        lambda: f'after {[s[0] for s in seq]}: {bad[0]} is {short(got.get(bad[0]))}, of a new object {short(want.get(bad[0]))}',
    )
    ck.step(w.name, str(sig), tuple(s[0] for s in seq))
    ck.outcome(w.name, tuple(s[0] for s in seq))


def short(v):
    return str(v).replace('\n', '')[:120]


def history(ck, w, fresh, seq, asked):
    """asked[i]: what is asked for before change i: 'all', '' or one quantity."""
    obj = w.make()
    for i, (ch, q) in enumerate(zip(seq, asked)):
        if q == 'all':
            if i:
                compare(ck, w, obj, fresh, seq[:i], asked)
            else:
                observe(w, obj)
        elif q:
            observe(w, obj, {q})
        attempt(obj, ch[1], ch[2])
    compare(ck, w, obj, fresh, seq, asked)


def back(ck, w, fresh, ch):
    """A setting is changed and taken back."""
    obj = w.make()
    try:
        *front, (last, i) = list(W.parts(ch[1]))
        old = getattr(W.resolve(obj, front), last)
        old = old.copy() if hasattr(old, 'copy') else old
        observe(w, obj)
        if not attempt(obj, ch[1], ch[2]):
            return
        observe(w, obj)
        setattr(W.resolve(obj, front), last, old)
    except Exception:  # noqa: BLE001
        return
    seq = [ch, ('back', ch[1], W.F(lambda: old, 'back'))]
    got, want = observe(w, obj), observe(w, make(w, seq))
    bad = W.differing(want, got)
    expect(not bad, 'stale', lambda: f'{ch[0]} and back: {bad[0]} is {short(got[bad[0]])}, of a new object {short(want[bad[0]])}')
    ck.step(w.name, 'back', ch[0])


def one(ck, it):
    name, part, parts, depth = it
    w = next(x for x in W.worlds() if x.name == name)
    fresh = Fresh(w)
    all_changes = w.changes()
    asked = sorted(fresh([]))
    for n, ch in enumerate(all_changes):
        if n % parts != part:
            continue
        ck.case(f'{name}/set/{ch[0]}', history, ck, w, fresh, [ch], ['all'])
        ck.case(f'{name}/back/{ch[0]}', back, ck, w, fresh, ch)
        if not ck.quick or not w.heavy:
            for q in asked:
                ck.case(f'{name}/ask-{q}/{ch[0]}', history, ck, w, fresh, [ch], [q])
        if depth < 2:
            continue
        for ch2 in w.changes(first=ck.quick):
            if ch2[0] == ch[0]:
                continue
            ck.case(f'{name}/two/{ch[0]},{ch2[0]}', history, ck, w, fresh, [ch, ch2], ['all', 'all'])
            ck.case(f'{name}/twoq/{ch[0]},{ch2[0]}', history, ck, w, fresh, [ch, ch2], ['all', ''])


def run(ck):
    ac.config.global_caching = 'none'
    items = []
    for w in W.worlds():
        depth = w.depth if ck.quick else 2
        parts = 1 if depth < 2 and not w.heavy else 8 if w.name == 'bf-CMF' or not ck.quick else 4
        items += [(w.name, k, parts, depth) for k in range(parts)]
    slow = ('bf-CMF', 'bf-GridlessOrth', 'PowerSpectra', 'AngleTracker', 'GeneralFlow')
    items.sort(key=lambda it: (it[0] not in slow, it[0]))
    ck.parallel(one, items)
    ck.rule('every class: all sequences of up to two changes of settings of the object and of the objects it refers to, '
            'with everything queried before and between; every change and its return; every single quantity queried before a change')
    ck.assume('Arrays and objects without change notification are replaced, not changed in place.')
