"""HPPC features: resistances, open-circuit voltages, voltage differences, diffusion slopes."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import diag, scratch, stats
from vlib.core import Sub, Violation, isnan, need, need_close, need_eq

PROPERTY = "C16"
RULE = ("a structured run with two or three diagnostics whose HPPC cycles have drawn numbers of state-of-charge windows, "
        "pulse currents, relaxations and step numbers; non-trivial when resistance, open-circuit, voltage-difference or "
        "diffusion features were compared")
ORACLE = ("Ohm's law on the individual samples, textbook statistics, the generating polynomial for voltage "
          "differences, closed-form least squares for diffusion slopes")
ASSUMPTIONS = ["the rested voltage is constant over the last eleven interpolated points of a long rest",
               "the first HPPC cycle's discharge curve within a window is a cubic polynomial of capacity (so that cubic "
               "interpolation is exact)",
               "diffusion slopes are not compared where the reference slope vanishes"]


@st.composite
def case(draw):
    d = draw(diag.case(nwmin=2, nwmax=10, resmin=12, resmax=15))
    if draw(st.booleans()):
        d = dict(d, nw=[10, 10, 10])
    return dict(d=dict(d, late=False), pos=draw(st.integers(1, d["nd"] - 1)), soc=draw(st.integers(0, 9)), default=draw(st.booleans()))


def groups(d, ci, si):
    g = d[(d.cycle_index == ci) & (d.step_index == si)]
    return [g[g.step_index_counter == k].sort_values("test_time") for k in sorted(g.step_index_counter.unique())]


def resist(rest, pulse, scale):
    v0, i0 = rest.voltage.iloc[-1], rest.current.tail(5).mean()
    if scale == "end":
        p = pulse.iloc[-1]
    else:
        lim = {"0s": 0.001, "3s": 3.0}[scale]
        p = pulse[pulse.test_time - pulse.test_time.iloc[0] <= lim].iloc[-1]
    return (p.voltage - v0) / (p.current - i0)


def slope(x, y):
    mx, my = math.fsum(x) / len(x), math.fsum(y) / len(y)
    return math.fsum((a - mx) * (b - my) for a, b in zip(x, y)) / math.fsum((a - mx) ** 2 for a in x)


def diffusion(d, ci, steps):
    pulses, rests = groups(d, ci, steps["hppc_discharge_pulse"]), groups(d, ci, steps["hppc_short_rest"])
    out = {}
    for k in range(1, min(len(pulses), len(rests), 9)):
        td = pulses[k].test_time.iloc[-1] - pulses[k].test_time.iloc[0]
        r = rests[k]
        t = [v - r.test_time.iloc[0] for v in r.test_time]
        x = [math.sqrt(v + td) - math.sqrt(v) for v in t]
        y = r.voltage.tolist()
        n = round(2 * len(x) / 3)
        out[k] = slope(x[n:], y[n:]), (max(y[n:]) - min(y[n:])) / (max(x[n:]) - min(x[n:]))
    return out


def seven(v):
    out = dict(var=stats.var(v), min=min(v), mean=math.fsum(v) / len(v), sum=math.fsum(abs(x) for x in v),
               sum_square=math.fsum(x * x for x in v))
    if not stats.degenerate(v):
        out["skew"] = stats.skew(v)
        if len(v) > 3:
            out["kurtosis"] = stats.kurt_pearson_unbiased(v)
    return out


def run(c):
    from beep.features.core import HPPCResistanceVoltageFeatures
    p, soc, dc = c["pos"], c["soc"], c["d"]
    if c["default"]:
        p, soc = 1, 8
    path = scratch.new()
    dp, truth, row = diag.build(dc, path)
    f = HPPCResistanceVoltageFeatures(dp, dict(test_time_filter_sec=1000000, cycle_index_filter=6, diag_pos=p,
                                               soc_window=soc, parameters_path=path))
    need(f.validate()[0], "run with HPPC cycles refused")
    f.create_features()
    X = f.features
    need_eq(len(X), 1, "number of feature rows")
    d = dp.diagnostic_data
    cyc, _ = diag.layout(dc)
    ci = [cyc[0][1], cyc[p][1]]
    steps = [truth[0, "hppc"], truth[p, "hppc"]]
    exp = {}
    lab = set()
    for way, rest, pulse in (("c", "short_rest", "charge_pulse"), ("d", "long_rest", "discharge_pulse")):
        gs = [(groups(d, ci[k], steps[k]["hppc_" + rest]), groups(d, ci[k], steps[k]["hppc_" + pulse])) for k in (0, 1)]
        for sc in ("0s", "3s", "end"):
            for w in range(9):
                if w >= min(len(a) for g in gs for a in g):
                    exp[f"r_{way}_{sc}_{w}0"] = math.nan
                    lab.add("missing_window")
                    continue
                r0, r1 = [resist(g[0][w], g[1][w], sc) for g in gs]
                exp[f"r_{way}_{sc}_{w}0"] = (r1 - r0) / r0
    ocv = [[g.voltage.iloc[-1] for g in groups(d, ci[k], steps[k]["hppc_long_rest"])][:9] for k in (0, 1)]
    dv = [a - b for a, b in zip(*ocv)]
    for k, v in seven(dv).items():
        exp[f"{k}_ocv"] = v
    nw = [min(dc["nw"][0], dc["nw"][0]), dc["nw"][p]]
    has = soc < min(nw)
    if has:
        a = groups(d, ci[0], steps[0]["hppc_discharge_to_next_soc"])[soc]
        b = groups(d, ci[1], steps[1]["hppc_discharge_to_next_soc"])[soc]
        lo, hi = a.discharge_capacity.min(), a.discharge_capacity.max()
        b = b[(b.discharge_capacity > lo) & (b.discharge_capacity < hi)]
        sh = truth[0, "poly", soc][0]
        diff = [float(sh(q)) - v for q, v in zip(b.discharge_capacity, b.voltage)]
        if len(diff) >= 4:
            for k, v in seven(diff).items():
                exp[f"{k}_v_diff"] = v
            lab.add("v_diff")
    tols = {}
    d0, d1 = diffusion(d, ci[0], steps[0]), diffusion(d, ci[1], steps[1])
    for k in set(d0) & set(d1):
        (a0, s0), (a1, s1) = d0[k], d1[k]
        if abs(a0) < 0.05 * s0:        # a vanishing reference slope is at rounding level: the ratio means nothing
            lab.add("flat_reference")
            continue
        exp[f"D_{k}"] = (a1 - a0) / a0
        tols[f"D_{k}"] = dict(rtol=2e-3, atol=1e-4 * (1 + s1 / abs(a0)))
    order = [f"r_{w}_{s}_{k}0" for w in "cd" for s in ("0s", "3s", "end") for k in range(9)]
    need_eq([x for x in X.columns if x.startswith("r_")], order, "resistance feature names")
    need_eq([x for x in X.columns if x.endswith("_ocv")],
            [k + "_ocv" for k in ("var", "min", "mean", "skew", "kurtosis", "sum", "sum_square")], "open-circuit feature names")
    if has and "v_diff" in lab:
        need_eq([x for x in X.columns if x.endswith("_v_diff")],
                [k + "_v_diff" for k in ("var", "min", "mean", "skew", "kurtosis", "sum", "sum_square")], "voltage difference feature names")
    if not has:
        need(not any(x.endswith("v_diff") for x in X.columns), f"voltage differences for missing window {soc}")
        lab.add("no_window")
    for k, v in exp.items():
        need(k in X.columns, f"feature {k} missing")
        tol = dict(rtol=1e-5, atol=1e-9)
        if k.startswith("D_"):
            tol = tols[k]
        if k.startswith(("skew", "kurtosis")):
            tol = dict(rtol=1e-4, atol=1e-5)
        got = X[k].iloc[0]
        if isnan(v):
            need(isnan(got), f"feature {k}: {got} although the window is missing")
        else:
            need_close(got, v, f"feature {k}", **tol)
    return lab | {"nontrivial", f"pos={p}"}


# ------------------------------------------------------------------ a run without HPPC is refused

@st.composite
def refuse_case(draw):
    return dict(d=draw(diag.case(nwmax=2)), what=draw(st.sampled_from(["no_hppc", "none", "empty"])))


def refuse_run(c):
    from beep.features.core import HPPCResistanceVoltageFeatures
    dp, truth, row = diag.build(c["d"], scratch.new(), data=False)
    if c["what"] == "none":
        dp.diagnostic_summary = None
    elif c["what"] == "empty":
        dp.diagnostic_summary = dp.diagnostic_summary.iloc[:0]
    else:
        s = dp.diagnostic_summary
        s = s[s.cycle_type != "hppc"].copy()
        s["cycle_type"] = s.cycle_type.astype(str).astype("category")
        dp.diagnostic_summary = s
    ok, msg = HPPCResistanceVoltageFeatures(dp).validate()
    need(not ok, f"run accepted ({c['what']})")
    need(isinstance(msg, str) and msg, "no reason given")
    return {"nontrivial", c["what"]}


SUBS = [Sub("hppc", case, run, quick=110, thorough=3000, shards=7, shards_thorough=8),
        Sub("refusal", refuse_case, refuse_run, quick=40, thorough=200, shards=1)]
