"""Snapshots of everything an object reads from: configuration values and data, recursively."""

import hashlib

import numpy as np
from traits.api import HasTraits, TraitListObject

#: not configuration: open files, queues and buffers of a run
RUNTIME = {'h5f', 'block_buffer', 'buffer', 'source_generator', 'pulls', 'file', 'trait_added', 'trait_modified'}


def _value(v, seen, depth):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('objs', tuple(_value(x, seen, depth) for x in v.ravel()))
        return ('array', v.shape, str(v.dtype), hashlib.md5(np.ascontiguousarray(v).tobytes()).hexdigest())
    if isinstance(v, HasTraits):
        return snapshot(v, seen, depth + 1)
    if isinstance(v, dict):
        return ('dict', tuple(sorted((repr(k), _value(x, seen, depth)) for k, x in v.items())))
    if isinstance(v, (list, tuple, TraitListObject)):
        return ('seq', tuple(_value(x, seen, depth) for x in v))
    if isinstance(v, (int, float, complex, str, bytes, bool, type(None), np.generic)):
        return repr(v)
    return ('other', type(v).__name__)


def snapshot(obj, seen=None, depth=0):
    """All non-property traits with their values (nested objects included)."""
    seen = {} if seen is None else seen
    if id(obj) in seen or depth > 8:
        return ('seen', type(obj).__name__)
    seen[id(obj)] = True
    out = [type(obj).__name__]
    for name in sorted(type(obj).class_trait_names()):
        if name in RUNTIME or name.startswith('_'):
            continue
        t = obj.trait(name)
        if t.type in ('property', 'event', 'delegate', 'constant') or t.transient:
            continue
        try:
            v = getattr(obj, name)
        except Exception as e:  # noqa: BLE001
            v = ('raises', type(e).__name__)
        out.append((name, _value(v, seen, depth)))
    return tuple(out)


def diff(a, b, path=''):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            d = diff(x, y, path + ('/' + str(x[0]) if isinstance(x, tuple) and x and isinstance(x[0], str) else ''))
            if d:
                return d
    return f'{path}: {str(a)[:120]} -> {str(b)[:120]}'
