"""Interpolated regular cycles lie on the measured curve, on the requested grid."""
import numpy as np
from hypothesis import strategies as st

from vlib import runs
from vlib.core import Sub, Violation, need, need_eq

PROPERTY = "C01"
RULE = ("a synthetic run (1-5 cycles of charge / constant-voltage / rest / discharge steps with irregular "
        "sampling) some of them diagnostic, structured with drawn axes, ranges, resolution and excluded cycles; non-trivial when at "
        "least one charge and one discharge step with >= 3 samples were interpolated")
ASSUMPTIONS = ["within one step the interpolation axis is monotonic (documented precondition)",
               "beyond the last measured abscissa a point may be missing or hold the last measured value"]

COLS = ["test_time", "voltage", "current", "charge_capacity", "discharge_capacity", "charge_energy",
        "discharge_energy", "internal_resistance", "temperature"]
AX_C = ["charge_capacity", "test_time", "voltage"]
AX_D = ["voltage", "test_time", "discharge_capacity"]


@st.composite
def case(draw):
    r = draw(runs.run(1, 5, nmax=8, ties=draw(st.booleans())))
    ixs = [c["ix"] for c in r["cycles"]]
    lo = draw(st.integers(2200, 3600))
    n = len(ixs)
    # counters that do not restart at zero in every cycle
    for cyc in r["cycles"]:
        cyc["q0"] = draw(st.sampled_from([[0, 0], [0, 0], [0, 0], [40, 0], [0, 55], [90, 20]]))
    diag = draw(st.one_of(st.just([]), st.lists(st.integers(0, n - 1), min_size=1, max_size=max(1, n - 1), unique=True))) if n > 1 else []
    return dict(diag=diag, wfdiag=draw(st.booleans()), run=r, res=draw(st.integers(2, 40)),
                ca=draw(st.sampled_from(AX_C)), da=draw(st.sampled_from(AX_D)),
                vr=draw(st.one_of(st.none(), st.just([lo / 1000, (lo + draw(st.integers(1, 1500))) / 1000]))),
                excl=draw(st.one_of(st.none(), st.lists(st.sampled_from(ixs), max_size=2, unique=True))),
                wf=draw(st.sampled_from(["", "", "", "chg", "dchg"])))


def run(c):
    df = runs.expand(c["run"])
    for cyc in c["run"]["cycles"]:
        m = df.cycle_index == cyc["ix"]
        for col, q in zip(("charge_capacity", "discharge_capacity"), cyc["q0"]):
            df.loc[m, col] += q / 1000
    diag = [c["run"]["cycles"][i]["ix"] for i in c["diag"]]
    wf_dir = None
    if c["wf"]:
        df["_wf_chg_cap"] = np.nan
        df["_wf_dis_cap"] = np.nan
        for cyc in c["run"]["cycles"]:
            for s in cyc["steps"]:
                # one step of a regular cycle, and perhaps steps of diagnostic cycles, which do not matter
                if s["k"] == c["wf"] and (c["wfdiag"] if cyc["ix"] in diag else wf_dir is None and not (c["wfdiag"] and diag)):
                    m = (df.cycle_index == cyc["ix"]) & (df.step_index == s["si"])
                    df.loc[m, "_wf_chg_cap" if c["wf"] == "chg" else "_wf_dis_cap"] = 0.5
                    if cyc["ix"] not in diag:
                        wf_dir = c["wf"]
    dp = runs.datapath(df)
    if diag:
        from beep.structure.diagnostic import DiagnosticConfig
        dp.diagnostic = DiagnosticConfig({"hppc": diag})
    dp.structure(v_range=c["vr"], resolution=c["res"], charge_axis=c["ca"], discharge_axis=c["da"],
                 exclude_cycles=c["excl"])
    out = dp.structured_data
    vr = c["vr"] or [2.8, 3.5]
    axis = {"charge": c["ca"], "discharge": c["da"]}
    if wf_dir == "chg":
        axis["charge"] = "test_time"
    if wf_dir == "dchg":
        axis["discharge"] = "test_time"
    expected = {}
    for (cy, si), g in df.groupby(["cycle_index", "step_index"]):
        if c["excl"] and cy in c["excl"]:
            continue
        if cy in diag:
            continue
        if len(g) < 2:
            continue
        d = "discharge" if runs.direction(g) < 0 else "charge"
        expected[(int(cy), int(si), d)] = g
    got = {}
    if len(out):
        for (cy, si, d), g in out.groupby(["cycle_index", "step_index", "step_type"], observed=True, sort=False):
            got[(int(cy), int(si), str(d))] = g
    need_eq(sorted(got), sorted(expected), "interpolated (cycle, step, direction)")
    seen = set()
    for key, g in expected.items():
        a = axis[key[2]]
        if a == "voltage":
            lo, hi = vr
        elif a == "test_time":
            lo, hi = g.test_time.min(), g.test_time.max()
        else:
            lo, hi = df[a].min(), df[a].max()
        grid = np.linspace(lo, hi, c["res"]) if hi > lo else np.array([lo])
        runs.check_on_curve(got[key], a, grid, g, COLS, f"cycle {key[0]} step {key[1]} {key[2]}")
        if len(g) >= 3:
            seen.add(runs.direction(g))
    labels = {"axis_" + axis["charge"], "axis_d_" + axis["discharge"]}
    if {1, -1} <= seen:
        labels.add("nontrivial")
    if c["excl"]:
        labels.add("excluded")
    if diag:
        labels.add("diagnostic")
    if wf_dir:
        labels.add("waveform")
    return labels


SUBS = [Sub("interp", case, run, quick=900, thorough=12000, shards=6, shards_thorough=8)]
