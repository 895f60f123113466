"""Histories of structuring operations: raw data untouched, results depend only on data and settings."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import runs, scratch
from vlib.core import Sub, Violation, frames_equal, need, need_eq
from props.c06 import TABLES

PROPERTY = "C07"
RULE = ("a history of 3-9 operations (set diagnostic, structure with drawn parameters, summarise, interpolate, "
        "unstructure, validate, save, query) over two interleaved runs, checked after every step against freshly "
        "built runs; non-trivial when some run was structured at least twice or unstructured and structured again")
ASSUMPTIONS = ["the diagnostic configuration is only removed through unstructuring"]

PARAMS = st.fixed_dictionaries(dict(
    res=st.integers(2, 8), dres=st.integers(2, 8), ca=st.sampled_from(["charge_capacity", "test_time"]),
    da=st.sampled_from(["voltage", "test_time"]), nom=st.sampled_from([0.05, 0.2, 1.1]),
    vr=st.sampled_from([None, [2.6, 4.0]]), excl=st.booleans()))


@st.composite
def op(draw):
    k = draw(st.sampled_from(["structure", "structure", "structure", "diag", "unstructure", "summarize", "interp",
                              "diag_interp", "validate", "save", "query"]))
    o = dict(k=k, w=draw(st.integers(0, 1)))
    if k in ("structure", "summarize", "interp", "diag_interp"):
        o["p"] = draw(PARAMS)
    if k == "diag":
        o["n"] = draw(st.integers(0, 3))
        o["ty"] = draw(st.sampled_from(["hppc", "reset", "rpt"]))
    return o


@st.composite
def case(draw):
    rs = [draw(runs.run(2, 3, nmax=5, gaps=False)) for _ in range(2)]
    return dict(runs=rs, temp=[draw(st.booleans()), draw(st.booleans())],
                ops=draw(st.lists(op(), min_size=3, max_size=9)))


def structure(dp, p, ixs):
    dp.structure(v_range=p["vr"], resolution=p["res"], diagnostic_resolution=p["dres"], charge_axis=p["ca"],
                 discharge_axis=p["da"], nominal_capacity=p["nom"], exclude_cycles=[ixs[0]] if p["excl"] else None)


def run(c):
    from beep.structure.diagnostic import DiagnosticConfig
    dfs = [runs.expand(r, temperature=t) for r, t in zip(c["runs"], c["temp"])]
    ixs = [[cy["ix"] for cy in r["cycles"]] for r in c["runs"]]
    dps = [runs.datapath(d) for d in dfs]
    raws = [dp.raw_data.copy() for dp in dps]
    model = [dict(cfg=None, struct=None, n=0, uns=0) for _ in dps]

    def fresh(w):
        dp = runs.datapath(dfs[w])
        if model[w]["cfg"]:
            dp.diagnostic = DiagnosticConfig(model[w]["cfg"])
        return dp

    def verify(w, what):
        dp, m = dps[w], model[w]
        frames_equal(raws[w], dp.raw_data, f"{what}: raw data")
        need_eq(dp.is_structured, m["struct"] is not None, f"{what}: structured state")
        if m["struct"] is None:
            for t in TABLES:
                need(getattr(dp, t) is None, f"{what}: {t} present although not structured")
        else:
            ref = m["ref"]
            for t in TABLES:
                frames_equal(ref[t], getattr(dp, t), f"{what}: {t}")
            got = dp.structuring_parameters
            p = m["struct"]
            for k, v in dict(v_range=p["vr"], resolution=p["res"], diagnostic_resolution=p["dres"],
                             nominal_capacity=p["nom"], charge_axis=p["ca"], discharge_axis=p["da"]).items():
                need_eq(got.get(k), v, f"{what}: recorded parameter {k}")

    labels = set()
    for i, o in enumerate(c["ops"]):
        w = o["w"]
        dp, m = dps[w], model[w]
        what = f"op {i} {o['k']}"
        labels.add(o["k"])
        if o["k"] == "diag":
            pick = ixs[w][:o["n"] % len(ixs[w])]
            if not pick:
                continue
            if m["struct"] is not None:
                continue
            m["cfg"] = {o["ty"]: pick}
            dp.diagnostic = DiagnosticConfig(m["cfg"])
        elif o["k"] == "structure":
            structure(dp, o["p"], ixs[w])
            f = fresh(w)
            structure(f, o["p"], ixs[w])
            m["struct"] = o["p"]
            m["ref"] = {t: getattr(f, t) for t in TABLES}
            m["n"] += 1
        elif o["k"] == "unstructure":
            dp.unstructure()
            if m["struct"] is not None:
                m["uns"] += 1
            m.update(cfg=None, struct=None)
            need(dp.diagnostic is None, what + ": diagnostic configuration kept")
            need_eq(dp.structuring_parameters, {}, what + ": parameters kept")
        elif o["k"] == "summarize":
            a = dp.summarize_cycles(nominal_capacity=o["p"]["nom"])
            frames_equal(fresh(w).summarize_cycles(nominal_capacity=o["p"]["nom"]), a, what)
        elif o["k"] == "interp":
            p = o["p"]
            kw = dict(v_range=p["vr"], resolution=p["res"], charge_axis=p["ca"], discharge_axis=p["da"])
            frames_equal(fresh(w).interpolate_cycles(**kw), dp.interpolate_cycles(**kw), what)
        elif o["k"] == "diag_interp":
            if not m["cfg"]:
                try:
                    dp.interpolate_diagnostic_cycles()
                except ValueError:
                    pass
                else:
                    raise Violation(what + ": accepted without a diagnostic configuration")
            else:
                kw = dict(time_resolution=o["p"]["res"], voltage_resolution=o["p"]["dres"])
                frames_equal(fresh(w).interpolate_diagnostic_cycles(**kw), dp.interpolate_diagnostic_cycles(**kw), what)
                frames_equal(fresh(w).summarize_diagnostic(), dp.summarize_diagnostic(), what)
        elif o["k"] == "validate":
            need_eq(dp.validate()[0], fresh(w).validate()[0], what)
        elif o["k"] == "save":
            dp.to_json_file(os.path.join(scratch.new(), "s.json"), omit_raw=False)
        elif o["k"] == "query":
            if m["struct"] is None:
                for f in ("get_cycle_life", "cycles_to_capacities", "capacities_to_cycles"):
                    try:
                        getattr(dp, f)()
                    except RuntimeError:
                        continue
                    raise Violation(f"{what}: {f} answered on an unstructured run")
            elif len(dp.structured_summary):
                dp.get_cycle_life()
                dp.cycles_to_capacities()
                dp.capacities_to_cycles()
            dp.paused_intervals
        for x in (0, 1):
            verify(x, what + (" (other run)" if x != w else ""))
    if any(m["n"] >= 2 for m in model):
        labels.add("nontrivial")
    return labels


SUBS = [Sub("history", case, run, quick=240, thorough=4000, shards=8, shards_thorough=8)]
