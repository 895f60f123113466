"""Features computed from diagnostic cycles."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import diag, scratch, stats
from vlib.core import Sub, Violation, frames_equal, isnan, need, need_close, need_close_arr, need_eq

PROPERTY = "C15"
RULE = ("a structured run with two or three diagnostics (reset, HPPC, RPT at three rates) between drawn numbers of "
        "regular cycles, a drawn parameter table, drawn hyperparameters, featurized with one of the diagnostic "
        "featurizers; non-trivial when a feature row was produced and compared value by value")
ORACLE = "each feature's definition evaluated directly on the same tables; thresholds by exact piecewise-linear crossing"
ASSUMPTIONS = ["diagnostics being compared cover the same interpolation points",
               "fractional metrics decrease from one diagnostic to the next when a threshold crossing is asked for",
               "the onset of constant voltage is only required up to one sample"]

METRICS = ["discharge_capacity", "discharge_energy", "charge_capacity", "charge_energy"]
RPT = ["rpt_0.2C", "rpt_1C", "rpt_2C"]


def BFE():
    from beep.features.base import BEEPFeaturizationError
    return BEEPFeaturizationError


# ------------------------------------------------------------------ oracle for the fractional metric table

def nx(dp, metric, cycle_type, row):
    s, d = dp.structured_summary, dp.diagnostic_summary
    qty = "discharge_energy" if "energy" in metric else "discharge_capacity"
    dset = set(d.cycle_index.tolist())
    reg = [(i, v) for i, v in zip(s.cycle_index.tolist(), s[qty].tolist()) if i != 0 and i not in dset]
    # regular cycles up to the second gap
    first = [reg[0]]
    for a, b in zip(reg, reg[1:]):
        if b[0] - a[0] > 1:
            break
        first.append(b)
    init = math.fsum(v for _, v in first)
    out = []
    top = max(i for i, _ in reg)
    ref = d[metric].iloc[0]
    for i, ty, m, iso in zip(d.cycle_index.tolist(), d.cycle_type.tolist(), d[metric].tolist(), d.date_time_iso.tolist()):
        if ty != cycle_type or i > top:
            continue
        out.append(dict(
            cycle_index=i, fractional_metric=m / ref, initial_regular_throughput=init,
            normalized_regular_throughput=math.fsum(v for j, v in reg if j < i) / init,
            normalized_diagnostic_throughput=math.fsum(
                v for j, v in zip(d.cycle_index.tolist(), d[qty].tolist()) if j < i) / init,
            diagnostic_start_cycle=row["diagnostic_start_cycle"], diagnostic_interval=row["diagnostic_interval"],
            epoch_time=pd.Timestamp(iso).timestamp()))
    return out


@st.composite
def nx_case(draw):
    return dict(d=draw(diag.case(nwmax=2)), metric=draw(st.sampled_from(METRICS)), ty=draw(st.sampled_from(diag.TYPES)),
                cut=draw(st.integers(0, 4)))


def nx_run(c):
    from beep.features import featurizer_helpers as fh
    if True:
        path = scratch.new()
        dp, truth, row = diag.build(c["d"], path, data=False)
        if c["cut"] == 0:      # run stopped inside the last diagnostic: drop trailing regular cycles
            last = dp.diagnostic_summary.cycle_index.tolist()[-5]
            if c["d"]["nd"] > 2:
                dp.structured_summary = dp.structured_summary[dp.structured_summary.cycle_index < last].copy()
        got = fh.get_fractional_quantity_remaining_nx(dp, c["metric"], c["ty"], parameters_path=path)
        exp = nx(dp, c["metric"], c["ty"], row)
    need_eq(len(got), len(exp), "number of diagnostics")
    for k, e in enumerate(exp):
        for col, v in e.items():
            need_close(got[col].iloc[k], v, f"{col} of diagnostic {k} ({c['ty']}, {c['metric']})", 1e-9, 1e-9)
    return {"nontrivial", f"nd={c['d']['nd']}"} if exp else {"none"}


# ------------------------------------------------------------------ step annotation

def step_case():
    return diag.case(nwmax=4)


def step_run(c):
    from beep.features import featurizer_helpers as fh
    c = dict(c, late=False)
    if True:
        path = scratch.new()
        dp, truth, row = diag.build(c, path)
        for k in range(c["nd"]):
            for ty in diag.TYPES:
                if ty == "hppc" and c["nw"][k] < 2 and c["fin"]:
                    continue
                got = fh.get_step_index(dp, cycle_type=ty, diag_pos=k, parameters_path=path)
                need_eq({a: int(b) for a, b in got.items()}, truth[k, ty], f"steps of {ty} in diagnostic {k}")
    return {"nontrivial"}


# ------------------------------------------------------------------ DiagnosticSummaryStats

@st.composite
def dss_case(draw):
    d = draw(diag.case(nwmax=2))
    pos = draw(st.sampled_from([[0, 1], [0, 1], [1, 0]] + ([[0, 2], [1, 2]] if d["nd"] > 2 else [[0, 2]])))
    return dict(d=d, pos=pos, ty=draw(st.sampled_from(RPT + ["reset"])),
                stats=draw(st.one_of(st.just(stats.STATS), st.permutations(stats.STATS),
                                     st.lists(st.sampled_from(stats.STATS), min_size=1, max_size=7, unique=True))))


Q6 = [("charging_capacity", "charge", "charge_capacity"), ("discharging_capacity", "discharge", "discharge_capacity"),
      ("charging_energy", "charge", "charge_energy"), ("discharging_energy", "discharge", "discharge_energy"),
      ("charging_dQdV", "charge", "charge_dQdV"), ("discharging_dQdV", "discharge", "discharge_dQdV")]


def dss_run(c):
    from beep.features.core import DiagnosticSummaryStats
    ty, pos = c["ty"], c["pos"]
    if True:
        path = scratch.new()
        dp, truth, row = diag.build(c["d"], path)
        f = DiagnosticSummaryStats(dp, dict(
            test_time_filter_sec=1000000, cycle_index_filter=6, diagnostic_cycle_type=ty, diag_pos_list=list(pos),
            statistics=list(c["stats"]), parameters_path=path))
        ok, msg = f.validate()
        need_eq(bool(ok), max(pos) < c["d"]["nd"], "validation of the number of diagnostics")
        if not ok:
            need(msg, "no reason given")
            return {"refused"}
        data = dp.diagnostic_data.copy()
        f.create_features()
        X = f.features
    cyc, _ = diag.layout(c["d"])
    names = [f"{s}_{q[0]}" for q in Q6 for s in c["stats"]]
    names += [f"diag_sum_diff_{pos[0]}_{pos[1]}_{t}{m}" for t in RPT for m in METRICS]
    need_eq(list(X.columns), names, "feature names")
    need_eq(len(X), 1, "number of feature rows")
    data = data[~((data.test_time > 1000000) & (data.cycle_index < 6))]
    j = diag.TYPES.index(ty)
    for name, step, col in Q6:
        v = []
        for p in pos:
            g = data[(data.cycle_index == cyc[p][j]) & (data.step_index == truth[p, ty][f"{ty}_{step}"])]
            v.append(g[col].tolist())
        d = [b - a for a, b in zip(*v)]
        d = [x for x in d if not math.isnan(x)]
        for s in c["stats"]:
            stats.check_log_stat(float(X[f"{s}_{name}"].iloc[0]), s, d, f"feature {s}_{name}")
    ds = dp.diagnostic_summary
    for t in RPT:
        g = ds[ds.cycle_type == t]
        for m in METRICS:
            a, b = g[m].iloc[pos[0]], g[m].iloc[pos[1]]
            need_close(X[f"diag_sum_diff_{pos[0]}_{pos[1]}_{t}{m}"].iloc[0], (b - a) / a, f"relative change of {t} {m}", 1e-9, 1e-12)
    return {"nontrivial", ty, "late" if c["d"]["late"] else "plain"}


# ------------------------------------------------------------------ DiagnosticProperties

@st.composite
def dprop_case(draw):
    d = draw(diag.case(nwmax=2))
    return dict(d=dict(d, fade=draw(st.integers(1, 20))), thr=draw(st.integers(50, 100)) / 100, metric=draw(st.sampled_from(METRICS)),
                ty=draw(st.sampled_from(RPT + ["reset", "hppc"])), ext=draw(st.booleans()),
                axes=draw(st.sampled_from([["normalized_regular_throughput", "cycle_index"],
                                           ["normalized_regular_throughput"], ["cycle_index"],
                                           ["cycle_index", "normalized_regular_throughput"],
                                           ["normalized_diagnostic_throughput", "epoch_time", "cycle_index"]])),
                quant=draw(st.sampled_from([[], ["discharge_energy"], ["charge_capacity", "discharge_capacity"]])),
                first=draw(st.booleans()))


def dprop_run(c):
    from beep.features.core import DiagnosticProperties
    quant = list(dict.fromkeys(([c["metric"]] + c["quant"]) if c["first"] else (c["quant"] + [c["metric"]])))
    thr = c["thr"]
    if True:
        path = scratch.new()
        dp, truth, row = diag.build(c["d"], path, data=False)
        dp.diagnostic_data = pd.DataFrame({"cycle_index": [1]})
        f = DiagnosticProperties(dp, dict(
            parameters_dir=path, quantities=quant, threshold=thr, metric=c["metric"], filter_kinks=None,
            interpolation_axes=list(c["axes"]), cycle_type=c["ty"], extrapolate_threshold=c["ext"]))
        need(f.validate()[0], "run with diagnostics refused")
        e = nx(dp, c["metric"], c["ty"], row)
        y = [r["fractional_metric"] for r in e]
        if any(b >= a for a, b in zip(y, y[1:])) or any(abs(v - thr) < 1e-6 for v in y):
            return {"skipped"}
        err = None
        try:
            f.create_features()
        except BFE() as ex:
            err = ex
    crossed = min(y) < thr
    if not crossed and not c["ext"]:
        need(err is not None, "threshold not reached and extrapolation not allowed, but a value was reported")
        return {"nontrivial", "not_reached"}
    # exact crossing on each axis
    exp, res = [], []
    for ax in c["axes"]:
        x = [float(r[ax]) for r in e]
        if y[0] < thr:
            exp.append(None)
            res.append(None)
            continue
        k = next((k for k in range(len(y) - 1) if y[k] >= thr >= y[k + 1]), len(y) - 2)
        slope = (x[k + 1] - x[k]) / (y[k + 1] - y[k])
        exp.append(x[k] + (thr - y[k]) * slope)
        end = x[-1] if crossed else x[-2] + (thr - 0.1 - y[-2]) * (x[-1] - x[-2]) / (y[-1] - y[-2])
        res.append(abs(end - x[0]) / 999)
    if y[0] < thr:
        # below from the start: the nearest point is the first diagnostic
        pos = all(float(e[0][ax]) > 0 for ax in c["axes"])
        if not pos:
            need(err is not None, "a run below the threshold from the start got a throughput to threshold")
        return {"below_from_start"}
    if err is not None:
        need(any(x <= 2 * r for x, r in zip(exp, res)), f"refused although the threshold is crossed at {exp}: {err}")
        return {"crossed_at_once"}
    X = f.features
    need_eq(len(X), 1, "number of feature rows")
    pre = c["ty"] + c["metric"] + str(thr) + "_"
    names = ["initial_regular_throughput"] + [pre + a for a in c["axes"]]
    if "normalized_regular_throughput" in c["axes"]:
        names.append(pre + "real_regular_throughput")
    need_eq(list(X.columns), names, "feature names")
    init = e[0]["initial_regular_throughput"]
    need_close(X["initial_regular_throughput"].iloc[0], init, "initial throughput", 1e-9, 1e-9)
    for ax, x, r in zip(c["axes"], exp, res):
        g = float(X[pre + ax].iloc[0])
        need(abs(g - x) <= 1.01 * r + 1e-9 * abs(x), f"{ax} at threshold {thr}: got {g}, crossing at {x} (resolution {r})")
        if ax == "normalized_regular_throughput":
            need_close(X[pre + "real_regular_throughput"].iloc[0], g * init, "real throughput", 1e-9, 1e-9)
    return {"nontrivial", "crossed" if crossed else "extrapolated", f"axes={len(c['axes'])}"}


# ------------------------------------------------------------------ ExclusionCriteria

@st.composite
def excl_case(draw):
    d = draw(diag.case(nwmax=2))
    return dict(d=dict(d, allsum=False, fade=draw(st.integers(-6, 20))), n=draw(st.integers(1, 4)), cut=draw(st.integers(1, 40)) / 2,
                thr=draw(st.integers(60, 105)) / 100, ty=draw(st.sampled_from(RPT)), q=draw(st.sampled_from(METRICS)),
                efc=draw(st.integers(0, 20)), early=draw(st.integers(5, 60)) / 100, nom=draw(st.sampled_from([None, 2.0])))


def excl_run(c):
    from beep.features.core import ExclusionCriteria
    if True:
        path = scratch.new()
        dp, truth, row = diag.build(c["d"], path, data=False)
        dp.diagnostic_data = pd.DataFrame({"cycle_index": [1]})
        dp.structuring_parameters = {} if c["nom"] is None else {"nominal_capacity": c["nom"]}
        s, sd = dp.structured_summary, dp.structured_data
        f = ExclusionCriteria(dp, dict(
            parameters_dir=path, EOL_conditions=dict(cycle_type=c["ty"], threshold=c["thr"], quantity=c["q"]),
            throughput_first_n_cycles=dict(n=c["n"], cutoff=c["cut"]), equivalent_full_cycles_cutoff=c["efc"],
            early_CV_cutoff=c["early"]))
        need(f.validate()[0], "run with diagnostics refused")
        e = nx(dp, c["q"], c["ty"], row)
        f.create_features()
    X = f.features
    need_eq(len(X), 1, "number of feature rows")
    g = X.iloc[0]
    thr = c["thr"]
    n = c["n"]
    through = s.charge_throughput.iloc[n]
    frac = e[-1]["fractional_metric"]
    if frac > 1 and len(e) > 1:
        frac = e[-2]["fractional_metric"]
    if any(abs(r["fractional_metric"] - v) < 1e-9 for r in e for v in (thr, 1.0)):
        return {"skipped"}
    below = frac < thr
    cyc = next(r["cycle_index"] for r in e if r["fractional_metric"] < thr) if below else e[-1]["cycle_index"]
    nom = c["nom"] if c["nom"] is not None else row["capacity_nominal"]
    efc = max(zip(s.cycle_index[s.cycle_index <= cyc].tolist(), s.charge_throughput[s.cycle_index <= cyc].tolist()))[1] / nom
    need_close(g["first_n_cycles_throughput"], through, "throughput of the first cycles", 1e-6)
    need_eq(bool(g["is_above_first_n_cycles_throughput"]), bool(through > c["cut"]), "throughput criterion")
    need_close(g["fractional_capacity_at_EOT"], frac, "fraction left at the end of the test", 1e-9)
    need_eq(bool(g["is_below_fractional_capacity_at_EOT"]), bool(below), "end of life criterion")
    need_close(g["equivalent_full_cycles_at_EOL"], efc, "equivalent full cycles", 1e-6)
    need_eq(bool(g["is_above_equivalent_full_cycles_at_EOL"]), bool(efc > c["efc"]), "equivalent full cycles criterion")
    # constant voltage reached early?
    lo = hi = False       # early for the earliest / latest admissible onset
    if c["d"]["cc"][0] > c["d"]["cc"][1]:
        for i in s.cycle_index[s.cycle_index <= cyc]:
            a = sd[sd.cycle_index == i]
            ch = a[a.step_type == "charge"]
            t = ch.test_time.tolist()
            v = ch.voltage.tolist()
            k = next(k for k in range(len(v)) if v[k] == v[-1])
            span = a.test_time.max() - a.test_time.min()
            early = [(t[max(0, j)] - a.test_time.min()) / span < c["early"] for j in (k - 1, k, k + 1)]
            lo |= early[0]
            hi |= early[2]
    if lo == hi:
        need_eq(bool(g["is_not_early_CV"]), not lo, "early constant voltage criterion")
    need_eq(bool(g["to_include"]), all(bool(g[k]) for k in X.columns if k.startswith("is_")), "overall verdict")
    need_eq(sum(k.startswith("is_") for k in X.columns), 4, "number of criteria")
    return {"nontrivial", f"include={bool(g['to_include'])}", f"eol={bool(below)}", f"early={bool(lo)}"}


# ------------------------------------------------------------------ ChargingProtocol, RawInterpolatedData

@st.composite
def raw_case(draw):
    d = draw(diag.case(nwmax=2))
    return dict(d=dict(d, late=False), types=draw(st.lists(st.sampled_from(RPT + ["reset", "hppc"]), min_size=1, max_size=3, unique=True).filter(lambda t: t != ["hppc"])),
                metrics=draw(st.lists(st.sampled_from(["capacity", "energy", "dQdV", "test_time", "voltage", "current"]), min_size=1, max_size=4, unique=True)),
                pos=draw(st.lists(st.integers(0, d["nd"] - 1), min_size=1, max_size=2, unique=True)), impute=draw(st.booleans()),
                quant=draw(st.lists(st.sampled_from(["charge_constant_current_1", "charge_constant_current_2", "charge_cutoff_voltage",
                                                     "charge_constant_voltage_time", "discharge_constant_current",
                                                     "discharge_cutoff_voltage", "capacity_nominal"]), min_size=1, max_size=7, unique=True)),
                noraw=draw(st.booleans()))


def fill(v):
    out = list(v)
    for k in range(1, len(out)):
        if math.isnan(out[k]):
            out[k] = out[k - 1]
    for k in range(len(out) - 2, -1, -1):
        if math.isnan(out[k]):
            out[k] = out[k + 1]
    return out


def raw_run(c):
    from beep.features.core import ChargingProtocol, RawInterpolatedData
    if True:
        path = scratch.new()
        dp, truth, row = diag.build(c["d"], path)
        if c["noraw"]:
            dp.paths.pop("raw")
        f = ChargingProtocol(dp, dict(parameters_dir=path, quantities=list(c["quant"])))
        need(f.validate()[0], "run with diagnostics refused")
        f.create_features()
        need_eq(list(f.features.columns), c["quant"], "protocol feature names")
        need_eq(len(f.features), 1, "protocol feature rows")
        for q in c["quant"]:
            need_close(f.features[q].iloc[0], row[q], f"protocol parameter {q}", 1e-12)
        f = RawInterpolatedData(dp, dict(metrics=list(c["metrics"]), cycle_types=list(c["types"]),
                                         diag_positions=list(c["pos"]), impute=c["impute"]))
        need(f.validate()[0], "run with diagnostics refused")
        f.create_features()
        X = f.features
        d = dp.diagnostic_data
    cyc, _ = diag.layout(c["d"])
    exp = {}
    for ty in c["types"]:
        if ty == "hppc":
            continue
        for m in c["metrics"]:
            for i, way in enumerate(["charge", "discharge"]):
                for p in c["pos"]:
                    g = d[(d.cycle_index == cyc[p][diag.TYPES.index(ty)]) & (d.step_index == truth[p, ty][f"{ty}_{way}"])]
                    if m in ("capacity", "energy"):
                        a, b = g["charge_" + m].tolist(), g["discharge_" + m].tolist()
                        top = max(v for v in a if not math.isnan(v))
                        v = [min(x, top - z) if not (math.isnan(x) or math.isnan(z)) else math.nan for x, z in zip(a, b)]
                        if c["impute"]:
                            v = fill(v)
                    elif m == "test_time":
                        a = g.test_time.tolist()
                        lo = min(x for x in a if not math.isnan(x))
                        v = [x - lo for x in a]
                    elif m == "dQdV":
                        v = [x + z for x, z in zip(g.charge_dQdV.tolist(), g.discharge_dQdV.tolist())]
                    else:
                        v = g[m].tolist()
                    if c["impute"] and m in ("test_time", "dQdV"):
                        v = [0.0 if math.isnan(x) else x for x in v]
                    exp[f"diag_cycle_{p}_{ty}_{m}_step_{i}"] = v
    need_eq(sorted(X.columns), sorted(exp), "interpolated feature names")
    for k, v in exp.items():
        need_close_arr(X[k].iloc[0], v, f"feature {k}", 1e-9, 1e-9)
    return {"nontrivial"} if exp else {"no_rpt"}


SUBS = [Sub("fractions", nx_case, nx_run, quick=300, thorough=5000, shards=1),
        Sub("steps", step_case, step_run, quick=100, thorough=1500, shards=2),
        Sub("summary_stats", dss_case, dss_run, quick=220, thorough=4000, shards=3),
        Sub("threshold", dprop_case, dprop_run, quick=320, thorough=5000, shards=2),
        Sub("exclusion", excl_case, excl_run, quick=300, thorough=5000, shards=2),
        Sub("raw", raw_case, raw_run, quick=200, thorough=3000, shards=2)]
