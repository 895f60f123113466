"""Cycle life and capacity/cycle conversions of a structured run."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import runs
from vlib.core import Sub, frames_equal, need, need_close, need_eq

PROPERTY = "C13"
RULE = ("a structured run whose per-cycle discharge capacities are drawn (including values exactly at the threshold, "
        "dips and recoveries, cycle numbers with gaps, runs shorter and longer than the averaging window) queried with "
        "drawn thresholds; non-trivial when the run reaches the threshold or when a queried cycle exists")
ORACLE = "direct evaluation of the definition over the summary table"
ASSUMPTIONS = ["runs not longer than the averaging window are referred to 1.1 Ah (documented constant)",
               "capacities at exactly the threshold are generated only where floating point represents them exactly"]

BASE = None


def make(caps, ixs):
    """a structured run with these per-cycle discharge capacities"""
    global BASE
    if BASE is None:
        r = dict(t0=1500000000, cycles=[dict(ix=k, temp=25, dT=0, ir=9, steps=[
            dict(k="chg", si=1, v0=3000, dv=[90, 90], dq=[9, 9], dt=[9, 9], i=9, gap=1),
            dict(k="dchg", si=2, v0=3500, dv=[90, 90], dq=[9, 9], dt=[9, 9], i=9, gap=1)]) for k in (1, 2)])
        BASE = runs.expand(r)
        dp = runs.datapath(BASE)
        dp.structure(resolution=3)
        BASE = BASE, dp.structured_summary
    dp = runs.datapath(BASE[0])
    s = BASE[1]
    out = pd.DataFrame({c: [s[c].iloc[0]] * len(caps) for c in s.columns})
    out["cycle_index"] = np.asarray(ixs, dtype=s.cycle_index.dtype)
    out["discharge_capacity"] = np.asarray(caps, dtype=float)
    dp.structured_summary = out
    return dp


@st.composite
def caps_(draw, nmin, nmax):
    n = draw(st.integers(nmin, nmax))
    shape = draw(st.integers(0, 3))
    if shape == 0:
        return draw(st.lists(st.integers(30, 70), min_size=n, max_size=n))
    start = draw(st.integers(56, 70))
    if shape == 1:       # slow fade to a drawn end
        end = draw(st.integers(30, start))
        return [int(round(start + (end - start) * k / max(1, n - 1))) for k in range(n)]
    a = draw(st.integers(0, n))
    b = draw(st.integers(0, n))
    lo = draw(st.integers(30, start))
    last = draw(st.integers(30, start))
    x = [start] * n
    for k in range(min(a, b), max(a, b)):
        x[k] = lo
    if shape == 3 and n > 1:
        x[-1] = last
    return x


@st.composite
def case(draw):
    caps = draw(st.one_of(caps_(41, 60), caps_(1, 60)))
    off = draw(st.integers(0, 3))
    ixs, k = [], off
    for _ in caps:
        ixs.append(k)
        k += 1 if draw(st.integers(0, 9)) else 2
    return dict(caps=caps, ixs=ixs, cut=draw(st.one_of(st.just(40), st.integers(1, 45))),
                thr=draw(st.sampled_from([0.75, 0.5, 0.875, 1.0, 0.9375, 0.8, 0.98, 0.0, 0.6])),
                cmin=draw(st.integers(0, 70)), cspan=draw(st.integers(1, 60)), cstep=draw(st.integers(1, 30)),
                tmax=draw(st.integers(60, 100)), tspan=draw(st.integers(1, 40)), tstep=draw(st.integers(1, 12)))


def life(caps, ixs, cut, thr):
    """-> expected cycle life, or None where floating point decides"""
    n = len(caps)
    if n > cut:
        top = sorted(caps[:cut])
        m = len(top)
        ref = (top[(m - 1) // 2] + top[m // 2]) / 2
        exact = True
    else:
        ref, exact = 1.1, False
    below = []
    for c in caps:
        d = c - thr * ref
        if abs(d) < 1e-9 and not (exact and thr * 64 == int(thr * 64)):
            return None, ref
        below.append(d <= 0)
    if below[-1]:
        return ixs[below.index(True)], ref
    return n + 1, ref


def run(c):
    caps = [x / 64 for x in c["caps"]]
    dp = make(caps, c["ixs"])
    before = dp.structured_summary.copy()
    labels = set()
    exp, ref = life(caps, c["ixs"], c["cut"], c["thr"])
    got = dp.get_cycle_life(n_cycles_cutoff=c["cut"], threshold=c["thr"])
    if exp is not None:
        need_eq(got, exp, f"cycle life at {c['thr']} of reference {ref}")
        labels.add("at_threshold" if any(x == c["thr"] * ref for x in caps) else "off_threshold")
        labels.add("reached" if exp != len(caps) + 1 else "not_reached")
        if exp != len(caps) + 1:
            labels.add("nontrivial")
        if c["cut"] == 40 and c["thr"] == 0.8:
            need_eq(dp.get_cycle_life(), exp, "cycle life with default settings")
    if len(caps) <= c["cut"]:
        labels.add("short_run")
    # capacities at given cycles
    lo, hi, stp = c["cmin"], c["cmin"] + c["cspan"], c["cstep"]
    got = dp.cycles_to_capacities(cycle_min=lo, cycle_max=hi, cycle_interval=stp)
    ks = list(range(lo, hi, stp))
    need_eq(list(got.columns), [f"cycle_{k}" for k in ks], "columns of cycles_to_capacities")
    need_eq(len(got), 1, "rows of cycles_to_capacities")
    for k in ks:
        need_close(got[f"cycle_{k}"].iloc[0], caps[k] if k < len(caps) else 0.0, f"capacity at cycle {k}", 0, 0)
        if k < len(caps):
            labels.add("nontrivial")
    labels.add("ragged" if c["cspan"] % stp else "even")
    # cycles at given capacities
    tmax, tmin, ts = c["tmax"], c["tmax"] - c["tspan"], c["tstep"]
    got = dp.capacities_to_cycles(thresh_max_cap=tmax / 100, thresh_min_cap=tmin / 100, interval_cap=ts / 100)
    want = list(range(tmax, tmin, -ts))
    names = list(got.columns)
    ok = [f"capacity_{t / 100}" for t in want]
    if c["tspan"] % ts == 0 and len(names) == len(ok) + 1:       # the end point is a rounding matter
        ok = ok + [f"capacity_{tmin / 100}"]
        want = want + [tmin]
    need_eq(names, ok, "columns of capacities_to_cycles")
    need_eq(len(got), 1, "rows of capacities_to_cycles")
    prev = None
    for t, name in zip(want, names):
        exp, ref = life(caps, c["ixs"], 40, t / 100)
        if exp is None:
            prev = None
            continue
        v = got[name].iloc[0]
        need_eq(v, exp, f"cycles until {name}")
    frames_equal(before, dp.structured_summary, "summary after the queries")
    return labels


SUBS = [Sub("lives", case, run, quick=3000, thorough=40000, shards=3, shards_thorough=8)]
