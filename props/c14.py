"""Features computed from regular cycles."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import runs, stats
from vlib.core import Sub, Violation, frames_equal, isnan, need, need_close, need_eq

PROPERTY = "C14"
RULE = ("a structured run with drawn interpolated curves and summary values, drawn comparison cycles, statistics and "
        "prediction cycles, featurized with CycleSummaryStats, DeltaQFastCharge or TrajectoryFastCharge; non-trivial "
        "when features were computed from at least two distinct cycles and compared")
ORACLE = "textbook definitions of each feature evaluated on the same tables (vlib/stats.py, numpy-free statistics)"
ASSUMPTIONS = ["skewness and kurtosis are not compared where the spread of the differences is at rounding level",
               "summary row k describes cycle k, as in the structured files the features were designed for"]

QUANT = ["charging_capacity", "discharging_capacity", "charging_energy", "discharging_energy"]
COL = {"charging_capacity": ("charge", "charge_capacity"), "discharging_capacity": ("discharge", "discharge_capacity"),
       "charging_energy": ("charge", "charge_energy"), "discharging_energy": ("discharge", "discharge_energy")}
NUM = ["charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy", "voltage", "current", "test_time",
       "internal_resistance", "temperature"]


def base():
    return runs.datapath(pd.DataFrame(dict(
        test_time=[0.0, 1.0], cycle_index=[0, 0], step_index=[1, 1], voltage=[3.0, 3.1], current=[1.0, 1.0],
        charge_capacity=[0.0, 0.1], discharge_capacity=[0.0, 0.0], charge_energy=[0.0, 0.1],
        discharge_energy=[0.0, 0.0], internal_resistance=[0.1, 0.1], temperature=[25.0, 25.0],
        date_time_iso=["2020-01-01T00:00:00+00:00"] * 2)))


def table(c, rng):
    """interpolated table: every cycle has the same number of points per step type"""
    rows = []
    for ix in c["cycles"]:
        order = ["charge", "discharge"] if rng.randint(2) else ["discharge", "charge"]
        for step in order:
            n = c["res"]
            if step == "discharge" and c.get("nodis"):
                continue
            d = {k: rng.randint(-500, 900, n) / 128.0 for k in NUM}
            d = pd.DataFrame(d)
            for k in range(c["nan"]):
                d.iloc[rng.randint(n), rng.randint(4)] = np.nan
            d["cycle_index"] = ix
            d["step_type"] = step
            rows.append(d)
    t = pd.concat(rows, ignore_index=True)
    return t.astype({"cycle_index": "int32", "step_type": "category"})


def summary(c, rng):
    n = c["n"]
    caps = rng.randint(40, 90, n) / 64.0 if c["jitter"] else \
        np.round(np.linspace(1.2, c["end"] / 100.0, n), 6) + rng.randint(0, 5, n) / 512.0
    ir = rng.randint(0 if c["zero_ir"] else 1, 9, n) / 256.0
    return pd.DataFrame(dict(
        cycle_index=np.arange(n, dtype="int32"), discharge_capacity=caps,
        charge_capacity=caps + 0.01, discharge_energy=caps * 3, charge_energy=caps * 3.2,
        dc_internal_resistance=ir.astype("float32"),
        temperature_maximum=(30 + rng.randint(0, 40, n) / 4).astype("float32"),
        temperature_average=np.full(n, 27, dtype="float32"),
        temperature_minimum=(20 + rng.randint(0, 30, n) / 4).astype("float32"),
        date_time_iso=["2020-01-01T00:00:00+00:00"] * n,
        energy_efficiency=np.full(n, 0.9, dtype="float32"),
        charge_throughput=np.cumsum(caps).astype("float32"), energy_throughput=np.cumsum(caps * 3).astype("float32"),
        charge_duration=np.where(rng.randint(0, 6, n) == 0, np.nan, rng.randint(100, 9000, n)).astype("float32"),
        time_temperature_integrated=np.where(rng.randint(0, 6, n) == 0, np.nan, rng.randint(1, 9000, n) / 4.0),
        paused=np.zeros(n, dtype="int32")))


# ------------------------------------------------------------------ cycle summary statistics

@st.composite
def css_case(draw):
    a = draw(st.integers(0, 30))
    b = draw(st.integers(0, 30).filter(lambda k: k != a))
    others = draw(st.lists(st.integers(0, 40), max_size=3, unique=True))
    cyc = sorted(set(others) | {a, b})
    if draw(st.integers(0, 7)) == 0:
        cyc = [k for k in cyc if k != b] or [b + 1]
    return dict(comp=[a, b], cycles=cyc, res=draw(st.integers(5, 12)), nan=draw(st.integers(0, 3)),
                stats=draw(st.one_of(st.just(stats.STATS), st.permutations(stats.STATS),
                                     st.lists(st.sampled_from(stats.STATS), min_size=1, max_size=7, unique=True))),
                default=draw(st.integers(0, 5)) == 0, seed=draw(st.integers(0, 2**31)))


def css_run(c):
    from beep.features.core import CycleSummaryStats
    if c["default"]:
        c = dict(c, comp=[10, 100], stats=stats.STATS, cycles=sorted(set(c["cycles"]) | {10, 100}))
    rng = np.random.RandomState(c["seed"])
    dp = base()
    t = table(c, rng)
    dp.structured_data = t.copy()
    dp.structured_summary = summary(dict(n=max(c["cycles"]) + 1, jitter=True, zero_ir=False), rng)
    f = CycleSummaryStats(dp, None if c["default"] else dict(cycle_comp_num=list(c["comp"]), statistics=list(c["stats"])))
    ok, msg = f.validate()
    have = all(k in c["cycles"] for k in c["comp"])
    need_eq(bool(ok), have, "validation of the comparison cycles")
    if not have:
        need(msg, "no reason given for refusing the run")
        return {"refused"}
    f.create_features()
    X = f.features
    need_eq(list(X.columns), [f"{s}_{q}" for q in QUANT for s in c["stats"]], "feature names")
    need_eq(len(X), 1, "number of feature rows")
    n = 0
    for q in QUANT:
        step, col = COL[q]
        g = t[t.step_type == step]
        x0 = g[g.cycle_index == c["comp"][0]][col].tolist()
        x1 = g[g.cycle_index == c["comp"][1]][col].tolist()
        d = [v1 - v0 for v0, v1 in zip(x0, x1)]
        d = [v for v in d if not math.isnan(v)]
        if len(d) < 2 or len(set(d)) < 2:
            continue
        for s in c["stats"]:
            if stats.check_log_stat(float(X[f"{s}_{q}"].iloc[0]), s, d, f"feature {s}_{q}"):
                n += 1
    lab = {"stats_default" if list(c["stats"]) == stats.STATS else "stats_custom"}
    if n:
        lab.add("nontrivial")
    return lab


# ------------------------------------------------------------------ delta Q

LABELS = ["discharge_capacity_cycle_2", "max_discharge_capacity_difference", "discharge_capacity_cycle_100",
          "integrated_time_temperature_cycles_1:100", "charge_time_cycles_1:5",
          "abs_min_discharge_capacity_difference_cycles_2:100", "abs_mean_discharge_capacity_difference_cycles_2:100",
          "abs_variance_discharge_capacity_difference_cycles_2:100",
          "abs_skew_discharge_capacity_difference_cycles_2:100",
          "abs_kurtosis_discharge_capacity_difference_cycles_2:100",
          "abs_first_discharge_capacity_difference_cycles_2:100", "max_temperature_cycles_1:100",
          "min_temperature_cycles_1:100", "slope_discharge_capacity_cycle_number_2:100",
          "intercept_discharge_capacity_cycle_number_2:100", "slope_discharge_capacity_cycle_number_91:100",
          "intercept_discharge_capacity_cycle_number_91:100", "min_internal_resistance_cycles_2:100",
          "internal_resistance_cycle_2", "internal_resistance_difference_cycles_2:100", "nominal_capacity_by_median"]


@st.composite
def dq_case(draw):
    fin = draw(st.one_of(st.just(100), st.integers(13, 40)))
    mid = draw(st.integers(9, fin + 1))
    n = max(7, fin + draw(st.integers(-1, 8)))
    return dict(fin=fin, mid=mid, init=draw(st.integers(1, 12)), nnom=draw(st.one_of(st.just(40), st.integers(1, 60))),
                n=n, off=draw(st.sampled_from([0, 0, 0, 0, 13])), res=draw(st.integers(4, 9)), nan=draw(st.integers(0, 2)),
                nodis=draw(st.integers(0, 5)) == 0, steptype=draw(st.integers(0, 4)) > 0,
                default=draw(st.integers(0, 4)) == 0, jitter=draw(st.booleans()), end=draw(st.integers(60, 120)),
                zero_ir=draw(st.booleans()), seed=draw(st.integers(0, 2**31)))


def fit(xs, ys):
    n = len(xs)
    mx, my = math.fsum(xs) / n, math.fsum(ys) / n
    k = math.fsum((x - mx) * (y - my) for x, y in zip(xs, ys)) / math.fsum((x - mx) ** 2 for x in xs)
    return k, my - k * mx


def med(x):
    x = sorted(x)
    return (x[(len(x) - 1) // 2] + x[len(x) // 2]) / 2


def dq_run(c):
    from beep.features.core import DeltaQFastCharge
    if c["default"]:
        c = dict(c, fin=100, mid=91, init=10, nnom=40, n=max(c["n"], 99))
    rng = np.random.RandomState(c["seed"])
    dp = base()
    s = summary(c, rng)
    s.index = range(c["off"], c["off"] + len(s))
    cyc = sorted({c["fin"] - 1, c["init"] - 1, 0, c["fin"], c["init"]})
    t = table(dict(c, cycles=cyc, nodis=c["nodis"] and c["steptype"]), rng)
    if not c["steptype"]:
        t = t[t.step_type == "discharge"].drop(columns="step_type").reset_index(drop=True)
    dp.structured_data = t.copy()
    dp.structured_summary = s.copy()
    hp = None if c["default"] else dict(init_pred_cycle=c["init"], mid_pred_cycle=c["mid"],
                                        final_pred_cycle=c["fin"], n_nominal_cycles=c["nnom"])
    f = DeltaQFastCharge(dp, hp)
    ok, msg = f.validate()
    want = (s.index.max() > c["fin"] and s.index.min() <= c["init"] and c["mid"] > 10 and c["fin"] > c["mid"])
    need_eq(bool(ok), bool(want), f"validation (last row {s.index.max()}, {c['init']}, {c['mid']}, {c['fin']})")
    if not want:
        need(msg, "no reason given for refusing the run")
        return {"refused"}
    f.create_features()
    X = f.features
    need_eq(list(X.columns), LABELS, "feature names")
    need_eq(len(X), 1, "number of feature rows")
    got = [float(v) for v in X.iloc[0]]
    q = s.discharge_capacity.tolist()
    F, M = c["fin"] - 1, c["mid"] - 1
    ttl = [v for v in s.time_temperature_integrated.tolist()[:F + 1] if not math.isnan(v)]
    cd = [v for v in s.charge_duration.tolist()[1:6] if not math.isnan(v)]
    ir = [v for v in s.dc_internal_resistance.tolist()[1:F + 1] if v != 0]
    g = t if "step_type" not in t.columns else t[t.step_type == "discharge"]
    a = g[g.cycle_index == c["init"] - 1].discharge_capacity.tolist()
    b = g[g.cycle_index == F].discharge_capacity.tolist()
    d = [y - x for x, y in zip(a, b)]
    dd = [v for v in d if not math.isnan(v)]
    exp = [None] * 21
    exp[0] = q[1]
    exp[1] = max(v - q[1] for v in q[:F + 1])
    exp[2] = q[F]
    exp[3] = math.fsum(ttl)
    exp[4] = math.fsum(cd) / len(cd) if cd else math.nan
    exp[11] = max(s.temperature_maximum.tolist()[1:F + 1])
    exp[12] = min(s.temperature_minimum.tolist()[1:F + 1])
    exp[13], exp[14] = fit(list(range(1, F + 1)), q[1:F + 1])
    exp[15], exp[16] = fit(list(range(M, F + 1)), q[M:F + 1])
    exp[17] = min(ir) if ir else math.nan
    exp[18] = s.dc_internal_resistance.tolist()[1]
    exp[19] = s.dc_internal_resistance.tolist()[F] - s.dc_internal_resistance.tolist()[1]
    exp[20] = med(q[:c["nnom"]])
    for i in range(21):
        if 5 <= i <= 10:
            continue
        need_close(got[i], exp[i], f"feature {LABELS[i]}", 1e-5, 1e-7)
    lab = {"nontrivial", "final=%s" % ("100" if c["fin"] == 100 else "other")}
    if not d:
        for i in range(5, 11):
            need(math.isnan(got[i]), f"feature {LABELS[i]}: {got[i]!r} although there is no discharge data")
        return lab | {"no_discharge_data"}
    if len(dd) < 2 or len(set(dd)) < 2:
        return lab
    stats.check_log_stat(got[5], "min", dd, LABELS[5])
    stats.check_log_stat(got[6], "mean", dd, LABELS[6])
    stats.check_log_stat(got[7], "var", dd, LABELS[7])
    if len(dd) == len(d) and not stats.degenerate(d):
        if abs(stats.skew(d)) > 1e-9:
            need_close(got[8], stats.log10abs(stats.skew(d)), LABELS[8], 1e-6, 1e-6)
        if abs(stats.kurt_excess(d)) > 1e-9:
            need_close(got[9], stats.log10abs(stats.kurt_excess(d)), LABELS[9], 1e-6, 1e-6)
    if not math.isnan(d[0]):
        need_close(got[10], stats.log10abs(d[0]), LABELS[10], 1e-9, 1e-9)
    return lab | {"curves"}


# ------------------------------------------------------------------ trajectory

@st.composite
def tr_case(draw):
    return dict(n=draw(st.integers(2, 70)), jitter=draw(st.booleans()), end=draw(st.integers(60, 120)), zero_ir=False,
                tmax=draw(st.integers(80, 99)), span=draw(st.integers(2, 30)), step=draw(st.integers(1, 7)),
                default=draw(st.booleans()), seed=draw(st.integers(0, 2**31)))


def tr_run(c):
    from beep.features.core import TrajectoryFastCharge
    if c["default"]:
        c = dict(c, tmax=98, span=20, step=3)
    rng = np.random.RandomState(c["seed"])
    dp = base()
    s = summary(c, rng)
    dp.structured_summary = s.copy()
    dp.structured_data = table(dict(cycles=[0, 1], res=3, nan=0), rng)
    f = TrajectoryFastCharge(dp, None if c["default"] else dict(
        thresh_max_cap=c["tmax"] / 100, thresh_min_cap=(c["tmax"] - c["span"]) / 100, interval_cap=c["step"] / 100))
    q = s.discharge_capacity.tolist()
    ratio = min(q) / max(q)
    if abs(ratio - c["tmax"] / 100) > 1e-9:
        ok, msg = f.validate()
        need_eq(bool(ok), ratio < c["tmax"] / 100, f"validation at capacity ratio {ratio}")
        if not ok:
            need(msg, "no reason given for refusing the run")
            return {"refused"}
    f.create_features()
    X = f.features
    want = list(range(c["tmax"], c["tmax"] - c["span"], -c["step"]))
    names = list(X.columns)
    exp = [f"capacity_{t / 100}" for t in want]
    if c["span"] % c["step"] == 0 and len(names) == len(exp) + 1:
        want.append(c["tmax"] - c["span"])
        exp.append(f"capacity_{want[-1] / 100}")
    need_eq(names, exp, "feature names")
    need_eq(len(X), 1, "number of feature rows")
    ref = med(q[:40]) if len(q) > 40 else 1.1
    lab = set()
    for t, name in zip(want, names):
        lim = t / 100 * ref
        if any(abs(v - lim) < 1e-9 for v in q):
            continue
        e = next(k for k, v in enumerate(q) if v < lim) if q[-1] < lim else len(q) + 1
        need_eq(X[name].iloc[0], e, f"feature {name}")
        if q[-1] < lim:
            lab.add("nontrivial")
    return lab


SUBS = [Sub("cycle_stats", css_case, css_run, quick=1200, thorough=20000, shards=3),
        Sub("delta_q", dq_case, dq_run, quick=1200, thorough=20000, shards=3),
        Sub("trajectory", tr_case, tr_run, quick=200, thorough=4000, shards=1)]
