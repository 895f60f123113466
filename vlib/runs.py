"""Synthetic cycler runs.

A run is described by plain data (ints, strings, lists) so that cases shrink and
replay; expand() turns the description into the raw-data table the loaders produce.
"""
import datetime as dt

import numpy as np
import pandas as pd
from hypothesis import strategies as st

UTC = dt.timezone.utc


def iso(t):
    """epoch seconds -> the ISO text the loaders write"""
    return dt.datetime.fromtimestamp(t, UTC).isoformat()


@st.composite
def step(draw, kind, si, nmin=2, nmax=8, ties=False):
    n = draw(st.integers(nmin, nmax))
    m = n - 1
    lo = 0 if ties else 1
    return dict(
        k=kind, si=si,
        v0=draw(st.integers(2400, 4200)),
        dv=draw(st.lists(st.integers(lo, 120), min_size=m, max_size=m)),
        dq=draw(st.lists(st.integers(1, 90), min_size=m, max_size=m)),
        dt=draw(st.lists(st.integers(1, 400), min_size=m, max_size=m)),
        i=draw(st.integers(1, 60)),
        gap=draw(st.integers(1, 50)),
    )


@st.composite
def cycle(draw, ix, nmax=8, ties=False, kinds=None):
    """charge-ish steps, then discharge-ish, with rests and CV holds mixed in"""
    seq = []
    base = draw(st.integers(1, 9))
    if kinds is None:
        nch = draw(st.integers(0, 2))
        ndis = draw(st.integers(0, 2))
        seq += ["chg"] * nch
        if draw(st.booleans()):
            seq.append("cv")
        if draw(st.booleans()):
            seq.append("rest")
        seq += ["dchg"] * ndis
        if draw(st.booleans()):
            seq.append("rest")
        if not seq:
            seq = ["chg"]
    else:
        seq = list(kinds)
    steps = []
    si = base
    for k in seq:
        steps.append(draw(step(k, si, 2, nmax, ties)))
        si += draw(st.integers(1, 3))
    return dict(ix=ix, temp=draw(st.integers(15, 45)),
                dT=draw(st.integers(0, 9)),
                ir=draw(st.integers(5, 90)),
                steps=steps)


@st.composite
def run(draw, cmin=1, cmax=5, nmax=8, ties=False, gaps=True, kinds=None, start=None):
    n = draw(st.integers(cmin, cmax))
    ix = draw(st.integers(0, 3)) if start is None else start
    cycles = []
    for _ in range(n):
        cycles.append(draw(cycle(ix, nmax, ties, kinds)))
        ix += draw(st.integers(1, 3)) if gaps and draw(st.integers(0, 3)) == 0 else 1
    return dict(t0=draw(st.integers(1262304000, 1700000000)), cycles=cycles)


def expand(r, temperature=True, ir=True):
    rows = []
    t = 0.0
    wall = float(r["t0"])
    tq = 0
    for c in r["cycles"]:
        qc = qd = ec = ed = 0.0
        k = 0
        for s in c["steps"]:
            v = s["v0"] / 1000.0
            kind = s["k"]
            n = len(s["dv"]) + 1
            t += s["gap"]
            wall += s["gap"]
            for j in range(n):
                if j:
                    d_t = s["dt"][j - 1]
                    t += d_t
                    wall += d_t + (s.get("pause", 0) if j == 1 else 0)
                    dq = s["dq"][j - 1] / 1000.0
                    dv = s["dv"][j - 1] / 1000.0
                    if kind == "chg":
                        v += dv
                        qc += dq
                        ec += dq * v
                    elif kind == "cv":
                        qc += dq
                        ec += dq * v
                    elif kind == "dchg":
                        v -= dv
                        qd += dq
                        ed += dq * v
                    else:
                        v -= dv / 100.0
                cur = {"chg": s["i"], "cv": s["i"] / (1.0 + 0.3 * j), "dchg": -s["i"], "rest": 0}[kind] / 10.0
                rows.append((t, c["ix"], s["si"], v, cur, qc, qd, ec, ed,
                             c["ir"] / 1000.0 + j * 1e-4,
                             float(c["temp"]) + (k % 5) * c["dT"] / 4.0, iso(wall)))
                k += 1
    df = pd.DataFrame(rows, columns=[
        "test_time", "cycle_index", "step_index", "voltage", "current", "charge_capacity",
        "discharge_capacity", "charge_energy", "discharge_energy", "internal_resistance",
        "temperature", "date_time_iso"])
    if not temperature:
        df = df.drop(columns="temperature")
    if not ir:
        df = df.drop(columns="internal_resistance")
    return df


def datapath(df, cls=None, metadata=None, paths=None, schema=None):
    from beep.structure.arbin import ArbinDatapath
    cls = cls or ArbinDatapath
    return cls(raw_data=df.copy(), metadata=metadata or {"barcode": "b", "protocol": "p", "channel_id": 3},
               paths=paths, schema=schema)


# ---------------------------------------------------------------- interpolation oracle

def direction(g):
    """charge moved by the step: +1 charge, -1 discharge, 0 none (by total counter growth)"""
    c = g.charge_capacity.iloc[-1] - g.charge_capacity.iloc[0]
    d = g.discharge_capacity.iloc[-1] - g.discharge_capacity.iloc[0]
    if c > d:
        return 1
    if d > c:
        return -1
    return 0


def bounds_on_curve(xs, ys, x):
    """Admissible values at x of the measured curve (xs sorted ascending, ties allowed).

    -> None: must be missing; otherwise (lo, hi, may_be_missing)."""
    if x < xs[0]:
        return None
    if x > xs[-1]:
        t = ys[xs == xs[-1]]
        return t.min(), t.max(), True
    eq = xs == x
    if eq.any():
        t = ys[eq]
        return t.min(), t.max(), False
    i = np.searchsorted(xs, x)
    x0, x1 = xs[i - 1], xs[i]
    a, b = ys[xs == x0], ys[xs == x1]
    w = (x - x0) / (x1 - x0)
    lo = a.min() * (1 - w) + b.min() * w
    hi = a.max() * (1 - w) + b.max() * w
    return lo, hi, False


def check_on_curve(out, axis, grid, g, columns, what, eps=2e-6):
    """out: interpolated rows (ordered by grid); g: measured rows of the step."""
    from vlib.core import Violation
    if len(out) != len(grid):
        raise Violation(f"{what}: {len(out)} points, expected {len(grid)}")
    order = np.argsort(g[axis].values, kind="stable")
    xs = g[axis].values[order].astype(float)
    span = max(abs(xs[0]), abs(xs[-1]), 1e-9)
    ax = out[axis].values.astype(float)
    if not np.allclose(ax, grid, rtol=1e-6, atol=1e-9):
        i = int(np.argmax(~np.isclose(ax, grid, rtol=1e-6, atol=1e-9)))
        raise Violation(f"{what}: grid of {axis} at {i}: {ax[i]} expected {grid[i]}")
    for col in columns:
        if col == axis:
            continue
        if col not in out.columns:
            raise Violation(f"{what}: column {col} missing")
        if col not in g.columns:
            continue
        ys = g[col].values[order].astype(float)
        vals = out[col].values.astype(float)
        if np.isnan(ys).all():
            if not np.isnan(vals).all():
                raise Violation(f"{what}: {col} invented from missing data")
            continue
        for x, y in zip(grid, vals):
            # tolerate rounding of the grid against measured abscissae
            near = xs[np.abs(xs - x) <= 1e-9 * span]
            xx = near[0] if len(near) else x
            b = bounds_on_curve(xs, ys, xx)
            tol = eps * max(1.0, np.abs(ys).max())
            if b is None:
                if not np.isnan(y):
                    raise Violation(f"{what}: {col}={y} at {axis}={x}, before the first measured point {xs[0]}")
                continue
            lo, hi, may = b
            if np.isnan(y):
                # float noise at the very first sample
                if may or abs(x - xs[0]) <= 1e-9 * span:
                    continue
                raise Violation(f"{what}: {col} missing at {axis}={x} inside the measured range")
            if not (lo - tol <= y <= hi + tol):
                raise Violation(f"{what}: {col}={y} at {axis}={x}, measured curve gives [{lo}, {hi}]")
