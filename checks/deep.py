"""Deep snapshots and exact comparison of nested results."""
import copy

import numpy as np


def snap(x):
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(snap(v) for v in x) if type(x) in (list, tuple) else [snap(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.copy() if x.dtype != object else np.array([snap(v) for v in x.reshape(-1)], dtype=object)
    try:
        return copy.copy(x) if not callable(x) else x
    except Exception:
        return x


def plain(x):
    """Python-native form, as a results file can hold it."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


def diff(a, b, path=''):
    """First difference between nested structures (exact, nan equal nan), or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '{}: keys {} differ'.format(path, sorted(set(map(str, a)) ^ set(map(str, b))))
        for k in a:
            d = diff(a[k], b[k], path + '/' + str(k))
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if type(a) is not type(b):
            return '{}: type {} became {}'.format(path, type(a).__name__, type(b).__name__)
        if a.shape != b.shape or a.dtype != b.dtype:
            return '{}: shape/type {} {} became {} {}'.format(path, a.shape, a.dtype, b.shape, b.dtype)
        if a.dtype == object:
            return diff(list(a.reshape(-1)), list(b.reshape(-1)), path)
        with np.errstate(all='ignore'):
            ok = (a == b) | ((a != a) & (b != b))
        if not np.all(ok):
            w = np.argwhere(~np.atleast_1d(ok))[0]
            return '{}{}: {} became {}'.format(path, w.tolist(), np.atleast_1d(a)[tuple(w)], np.atleast_1d(b)[tuple(w)])
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '{}: length {} became {}'.format(path, len(a), len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '{}[{}]'.format(path, k))
            if d:
                return d
        return None
    if callable(a) and callable(b):
        return None
    try:
        if a is b or bool(a == b) or (a != a and b != b):
            return None
    except Exception:
        return None
    return '{}: {!r} became {!r}'.format(path, a, b)
