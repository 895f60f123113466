"""Diagnostic cycles: separated from regular cycles, interpolated per contiguous step, summarised per cycle."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import runs
from vlib.core import Sub, isnan, need, need_close, need_eq
from props.c03 import secs

PROPERTY = "C04"
RULE = ("a synthetic run mixing regular and diagnostic cycles whose step indices recur non-contiguously (pulse "
        "trains), with flat, nearly flat and sloped steps; non-trivial when a step index recurs non-contiguously in "
        "a diagnostic cycle or both time- and voltage-axis steps occur")
ASSUMPTIONS = ["voltage excursions within 10 % of the flat/sloped threshold are not generated",
               "constant-voltage columns of the diagnostic summary are judged only when the first step has such an interval",
               "beyond the last measured abscissa a point may be missing or hold the last measured value"]

COLS = ["current", "voltage", "charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy",
        "internal_resistance", "temperature", "test_time"]


@st.composite
def seg(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 4, 5, 6]))
    m = n - 1
    shape = draw(st.sampled_from(["flat", "tiny", "up", "down", "up", "down", "zig"]))
    return dict(si=draw(st.integers(1, 5)), shape=shape,
                v0=draw(st.integers(2700, 4200)),
                dv=draw(st.lists(st.integers(2, 120), min_size=m, max_size=m)),
                dq=draw(st.lists(st.integers(0, 90), min_size=m, max_size=m)),
                dt=draw(st.lists(st.integers(1, 300), min_size=m, max_size=m)),
                i=draw(st.integers(1, 40)), d=draw(st.sampled_from(["c", "d", "n"])),
                cv=draw(st.booleans()))


@st.composite
def case(draw):
    n = draw(st.integers(2, 5))
    ix = draw(st.integers(0, 2))
    cycles = []
    for _ in range(n):
        cycles.append(dict(ix=ix, ty=draw(st.sampled_from(["reg", "reset", "hppc", "rpt_1C", "rpt_0.2C"])),
                           segs=draw(st.lists(seg(), min_size=1, max_size=6))))
        ix += draw(st.integers(1, 3))
    if all(c["ty"] == "reg" for c in cycles):
        cycles[0]["ty"] = "hppc"
    if not any(c["ty"] == "reg" for c in cycles):
        cycles[-1]["ty"] = "reg"
    if not any(len(s["dv"]) for c in cycles if c["ty"] != "reg" for s in c["segs"]):
        s = next(c for c in cycles if c["ty"] != "reg")["segs"][0]
        s.update(dv=[50], dq=[10], dt=[60], shape="up")
    lo = draw(st.integers(2500, 3600))
    return dict(cycles=cycles, tres=draw(st.integers(2, 25)), vres=draw(st.integers(2, 25)),
                fb=draw(st.one_of(st.none(), st.none(), st.just([lo / 1000, (lo + 700) / 1000]))),
                extra=draw(st.integers(0, 1)), api=draw(st.sampled_from(["structure", "direct"])))


def expand(c):
    rows = []
    t, wall = 0.0, 1500000000.0
    segments = {}
    for cyc in c["cycles"]:
        qc = qd = 0.0
        for s in cyc["segs"]:
            v = s["v0"] / 1000
            cur = s["i"] / 10
            t += 1
            wall += 1
            for j in range(len(s["dv"]) + 1):
                if j:
                    t += s["dt"][j - 1]
                    wall += s["dt"][j - 1]
                    dv = s["dv"][j - 1] / 1000
                    if s["shape"] == "up":
                        v += dv
                    elif s["shape"] == "down":
                        v -= dv
                    elif s["shape"] == "zig":
                        v += dv if j % 2 else -dv / 3
                    elif s["shape"] == "tiny":
                        v += 0.0001 if j == 1 else 0
                    dq = s["dq"][j - 1] / 1000
                    if s["d"] == "c":
                        qc += dq
                    elif s["d"] == "d":
                        qd += dq
                    if s["cv"]:
                        cur *= 0.8
                rows.append((t, cyc["ix"], s["si"], v, cur if s["d"] != "d" else -cur, qc, qd, qc * 3.7, qd * 3.5,
                             0.02 + 0.001 * j, 25.0 + j, runs.iso(wall)))
    return pd.DataFrame(rows, columns=[
        "test_time", "cycle_index", "step_index", "voltage", "current", "charge_capacity",
        "discharge_capacity", "charge_energy", "discharge_energy", "internal_resistance",
        "temperature", "date_time_iso"])


def contiguous(df):
    """-> {(cycle, step_index, ordinal of the contiguous block): rows}, {cycle: [distinct steps in order]}"""
    blocks, order = {}, {}
    for cy, g in df.groupby("cycle_index", sort=True):
        k, prev, start = 0, None, 0
        sis = g.step_index.tolist()
        order[int(cy)] = list(dict.fromkeys(sis))
        for i, s in enumerate(sis + [None]):
            if i == 0 or s != prev:
                if i:
                    k += 1
                    blocks[(int(cy), int(prev), k)] = g.iloc[start:i]
                start = i
            prev = s
    return blocks, order


def cv_of_first_step(rows):
    for i, (a, b) in enumerate(zip(rows, rows[1:])):
        d_t = b["test_time"] - a["test_time"]
        if d_t < 1:
            continue
        if abs(b["voltage"] - a["voltage"]) / d_t <= 0.9e-5 and abs(b["current"] - a["current"]) / d_t >= 1.1e-4:
            return [(rows[-1]["test_time"] - rows[j]["test_time"], rows[-1]["current"],
                     rows[-1]["charge_capacity"] - rows[j]["charge_capacity"]) for j in (i - 1, i) if j >= 0]
        if abs(b["voltage"] - a["voltage"]) / d_t <= 1.1e-5 and abs(b["current"] - a["current"]) / d_t >= 0.9e-4:
            return None
    return None


def run(c):
    from beep.structure.diagnostic import DiagnosticConfig
    df = expand(c)
    types = {cy["ix"]: cy["ty"] for cy in c["cycles"] if cy["ty"] != "reg"}
    cfg = {}
    for ix, ty in types.items():
        cfg.setdefault(ty, []).append(ix)
    if c["extra"]:
        cfg.setdefault("reset", []).append(500)
    dp = runs.datapath(df)
    dp.diagnostic = DiagnosticConfig(cfg)
    tres, vres, fb = c["tres"], c["vres"], c["fb"]
    if c["api"] == "structure":
        tres = vres
        fb = None
        dp.structure(resolution=4, diagnostic_resolution=vres, charge_axis="test_time", discharge_axis="test_time")
        out, summ = dp.diagnostic_data, dp.diagnostic_summary
        reg = set(int(x) for x in dp.structured_data.cycle_index.unique()) if len(dp.structured_data) else set()
        need(not (reg & set(types)), f"diagnostic cycles {reg & set(types)} among the regular cycles")
        for x in dp.structured_summary.cycle_index:
            need(int(x) not in types, f"diagnostic cycle {x} in the regular summary")
    else:
        out = dp.interpolate_diagnostic_cycles(time_resolution=tres, voltage_resolution=vres, dv_fallback=fb)
        summ = dp.summarize_diagnostic()
    need(set(int(x) for x in out.cycle_index.unique()) <= set(types), "regular cycle in the diagnostic data")
    blocks, order = contiguous(df[df.cycle_index.isin(list(types))])
    got = {}
    for key, g in out.groupby(["cycle_index", "step_index", "step_index_counter"], sort=False):
        got[tuple(int(k) for k in key)] = g
    exp = {k: g for k, g in blocks.items() if len(g) >= 2}
    need_eq(sorted(got), sorted(exp), "interpolated (cycle, step, ordinal)")
    axes = set()
    for key, g in exp.items():
        o = got[key]
        what = f"cycle {key[0]} step {key[1]} block {key[2]}"
        lo, hi = g.voltage.min(), g.voltage.max()
        if hi - lo >= 0.001:
            a = "voltage"
            if fb and types[key[0]] != "hppc":
                lo, hi = fb
            grid = np.linspace(lo, hi, vres)
        else:
            a = "test_time"
            grid = np.linspace(g.test_time.min(), g.test_time.max(), tres)
        axes.add(a)
        need_eq(set(map(str, o.cycle_type)), {types[key[0]]}, what + " cycle_type")
        need_eq(set(map(int, o.step_type)), {order[key[0]].index(key[1])}, what + " step ordinal")
        tt = o.test_time.dropna().values
        need((np.diff(tt) >= -1e-9).all(), what + ": not in time order")
        o2 = o.sort_values(a, kind="stable")
        runs.check_on_curve(o2, a, grid, g, COLS, what, eps=4e-6)
        if a == "voltage":
            for side in ("charge", "discharge"):
                q = o2[side + "_capacity"].values
                want = np.r_[np.nan, np.diff(q) / np.diff(grid)]
                have = o2[side + "_dQdV"].values.astype(float)
                for i in range(len(grid)):
                    need_close(have[i], want[i], f"{what} {side} dQ/dV at {i}", rtol=1e-4, atol=1e-6)
    # order of the whole table: by cycle, then by block
    seq = [tuple(x) for x in out[["cycle_index", "step_index_counter"]].values.tolist()]
    need(seq == sorted(seq), "diagnostic data not ordered by cycle and step occurrence")
    # summary
    present = sorted(x for x in types)
    need_eq([int(x) for x in summ.cycle_index], present, "diagnostic summary cycles")
    labels = set("axis_" + a for a in axes)
    for rec in summ.to_dict("records"):
        ix = int(rec["cycle_index"])
        rows = df[df.cycle_index == ix].to_dict("records")
        what = f"diagnostic summary cycle {ix} "
        need_eq(str(rec["cycle_type"]), types[ix], what + "type")
        for k in ("discharge_capacity", "charge_capacity", "discharge_energy", "charge_energy"):
            need_close(rec[k], max(r[k] for r in rows), what + k)
        ts = [r["temperature"] for r in rows]
        need_close(rec["temperature_maximum"], max(ts), what + "Tmax")
        need_close(rec["temperature_minimum"], min(ts), what + "Tmin")
        need_close(rec["temperature_average"], sum(ts) / len(ts), what + "Tavg")
        need_eq(rec["date_time_iso"], rows[0]["date_time_iso"], what + "start")
        qc, qd = max(r["charge_capacity"] for r in rows), max(r["discharge_capacity"] for r in rows)
        if qc > 0:
            need_close(rec["coulombic_efficiency"], qd / qc, what + "coulombic efficiency")
        gaps = [secs(a["date_time_iso"], b["date_time_iso"]) for a, b in zip(rows, rows[1:])]
        need_close(rec["paused"], max(gaps) if gaps and max(gaps) > 3600 else 0, what + "paused")
        first = min(r["step_index"] for r in rows)
        cand = cv_of_first_step([r for r in rows if r["step_index"] == first])
        if cand:
            have = (rec["CV_time"], rec["CV_current"], rec["CV_capacity"])
            need(any(all(not isnan(a) and abs(a - b) <= 2e-5 * max(1, abs(b)) for a, b in zip(have, x)) for x in cand),
                 f"{what} constant-voltage segment {have}, admissible {cand}")
            labels.add("cv")
    rep = any(k[2] > len(order[k[0]]) for k in blocks)
    if rep:
        labels.add("recurring_step")
    if rep or len(axes) == 2:
        labels.add("nontrivial")
    return labels


SUBS = [Sub("diagnostic", case, run, quick=500, thorough=8000, shards=6, shards_thorough=8)]
