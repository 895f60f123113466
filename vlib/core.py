import math

import numpy as np


class Violation(Exception):
    pass


class HarnessError(BaseException):
    pass


class Reject(Exception):
    pass


class KnownFinding(Exception):
    def __init__(self, fid, msg=""):
        super().__init__(f"{fid}: {msg}")
        self.fid = fid


class Sub:
    def __init__(self, name, strategy, run, quick, thorough, shards=1, shards_thorough=4, weight=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough
        self.shards, self.shards_thorough = shards, shards_thorough
        self.weight = quick / shards if weight is None else weight


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg.format(*a) if a else msg)


def isnan(x):
    try:
        return x is None or (isinstance(x, (float, np.floating)) and math.isnan(x))
    except TypeError:
        return False


def close(a, b, rtol=1e-6, atol=1e-9):
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    a, b = float(a), float(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def need_close(a, b, what, rtol=1e-6, atol=1e-9):
    if not close(a, b, rtol, atol):
        raise Violation(f"{what}: got {a!r}, expected {b!r}")


def need_eq(a, b, what):
    if not (a == b):
        raise Violation(f"{what}: got {a!r}, expected {b!r}")


def need_close_arr(a, b, what, rtol=1e-6, atol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {b.shape}")
    bad = ~(np.isnan(a) & np.isnan(b))
    with np.errstate(all="ignore"):
        d = np.abs(a - b) > atol + rtol * np.maximum(np.abs(a), np.abs(b))
        d |= np.isnan(a) ^ np.isnan(b)
        d &= ~(a == b)
    bad &= d
    if bad.any():
        i = np.argwhere(bad)[0]
        raise Violation(f"{what}: at {tuple(i)} got {a[tuple(i)]!r}, expected {b[tuple(i)]!r}")


def frames_equal(a, b, what, rtol=0, atol=0):
    """Same columns, same length, same values (NaN == NaN)."""
    import pandas as pd
    if a is None or b is None:
        need(a is None and b is None, f"{what}: one side is missing")
        return
    need_eq(list(a.columns), list(b.columns), what + ": columns")
    need_eq(len(a), len(b), what + ": number of rows")
    for c in a.columns:
        x, y = a[c].tolist(), b[c].tolist()
        for i, (u, v) in enumerate(zip(x, y)):
            if same_value(u, v, rtol, atol):
                continue
            raise Violation(f"{what}: column {c} row {i}: {u!r} != {v!r}")


def same_value(u, v, rtol=0, atol=0):
    import pandas as pd
    try:
        if pd.isna(u) is True and pd.isna(v) is True:
            return True
    except (TypeError, ValueError):
        pass
    if isinstance(u, (int, float, np.number)) and isinstance(v, (int, float, np.number)) \
            and not isinstance(u, bool) and not isinstance(v, bool):
        return close(u, v, rtol, atol)
    return u == v
