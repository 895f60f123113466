"""Featurizing leaves the run alone, does not depend on what was featurized before, and survives saving."""
import copy
import json
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import diag, scratch
from vlib.core import Sub, Violation, frames_equal, need, need_eq

PROPERTY = "C17"
RULE = ("one structured run featurized by a drawn sequence of two to five featurizers (repeats allowed), some saved and "
        "loaded in between by drawn routes; every result is compared with the same featurizer on a freshly built run, "
        "and the run's tables, the hyperparameters and the class defaults are compared with copies taken before; "
        "regular: the same for runs with zero and missing summary values; non-trivial when at least two featurizers produced features")
ORACLE = "a fresh copy of the run (differential), deep copies taken before each operation, and the saved object itself"
TABLES = ["structured_data", "structured_summary", "diagnostic_data", "diagnostic_summary", "raw_data"]
KINDS = ["hppc", "dss", "dprop", "excl", "raw", "proto", "css", "dq", "traj"]


def make(kind, dp, path, c):
    from beep.features import core
    regs = diag.layout(c["d"])[1]
    st7 = ["var", "min", "mean", "skew", "kurtosis", "abs", "square"]
    if kind == "hppc":
        return core.HPPCResistanceVoltageFeatures, dict(test_time_filter_sec=1000000, cycle_index_filter=6, diag_pos=1, soc_window=1, parameters_path=path)
    if kind == "dss":
        return core.DiagnosticSummaryStats, dict(test_time_filter_sec=1000000, cycle_index_filter=6, diagnostic_cycle_type="rpt_0.2C",
                                                 diag_pos_list=[0, 1], statistics=st7, parameters_path=path)
    if kind == "dprop":
        return core.DiagnosticProperties, dict(parameters_dir=path, quantities=["discharge_energy", "discharge_capacity"], threshold=0.8,
                                               metric="discharge_energy", filter_kinks=None, cycle_type="rpt_1C", extrapolate_threshold=True,
                                               interpolation_axes=["normalized_regular_throughput", "cycle_index"])
    if kind == "excl":
        return core.ExclusionCriteria, dict(parameters_dir=path, EOL_conditions=dict(cycle_type="rpt_0.2C", threshold=0.8, quantity="discharge_capacity"),
                                            throughput_first_n_cycles=dict(n=3, cutoff=2), equivalent_full_cycles_cutoff=3, early_CV_cutoff=0.3)
    if kind == "raw":
        return core.RawInterpolatedData, (None if c["defaults"] else dict(metrics=["capacity", "voltage"], cycle_types=["rpt_1C"],
                                                                          diag_positions=[0, 1], impute=False))
    if kind == "proto":
        return core.ChargingProtocol, dict(parameters_dir=path, quantities=["charge_constant_current_1", "charge_cutoff_voltage"])
    if kind == "css":
        return core.CycleSummaryStats, dict(cycle_comp_num=[regs[1], regs[-1]], statistics=st7)
    if kind == "dq":
        fin = [i for i in regs if 11 < i + 1 and i + 2 < len(dp.structured_summary)]
        if not fin:
            return None, None
        return core.DeltaQFastCharge, dict(init_pred_cycle=1, mid_pred_cycle=11, final_pred_cycle=fin[-1] + 1, n_nominal_cycles=5)
    return core.TrajectoryFastCharge, (None if c["defaults"] else dict(thresh_max_cap=0.99, thresh_min_cap=0.6, interval_cap=0.07))


@st.composite
def case(draw):
    d = draw(diag.case(nwmin=2, nwmax=3, resmin=12, resmax=13))
    d = dict(d, allsum=True, cc=[2, 3], fade=draw(st.integers(2, 9)), nd=draw(st.sampled_from([2, 3])))
    return dict(d=d, ops=draw(st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 5)), min_size=2, max_size=5)),
                defaults=draw(st.booleans()))


def snapshot(dp):
    s = {t: None if getattr(dp, t) is None else getattr(dp, t).copy(deep=True) for t in TABLES}
    s["paths"] = copy.deepcopy(dp.paths)
    s["meta"] = copy.deepcopy(dp.metadata.raw)
    s["params"] = copy.deepcopy(dp.structuring_parameters)
    return s


def unchanged(dp, s, what):
    for t in TABLES:
        frames_equal(s[t], getattr(dp, t), f"{what}: {t} of the run changed")
        if s[t] is not None:
            need_eq(list(s[t].index), list(getattr(dp, t).index), f"{what}: index of {t} changed")
    need_eq(dp.paths, s["paths"], f"{what}: paths of the run changed")
    need_eq(dp.metadata.raw, s["meta"], f"{what}: metadata of the run changed")
    need_eq(dp.structuring_parameters, s["params"], f"{what}: structuring parameters changed")


def same_features(a, b, what):
    need_eq(list(a.columns), list(b.columns), what + ": feature names")
    need_eq(len(a), len(b), what + ": feature rows")
    for k in a.columns:
        need_eq(repr(a[k].tolist()), repr(b[k].tolist()), f"{what}: feature {k}")


def all_defaults():
    from beep.features import core
    from beep.features.base import BEEPFeaturizer
    return {k: copy.deepcopy(v.DEFAULT_HYPERPARAMETERS) for k, v in vars(core).items()
            if isinstance(v, type) and issubclass(v, BEEPFeaturizer)}


def featurize(cls, hp, dp):
    f = cls(dp, copy.deepcopy(hp))
    ok, msg = f.validate()
    if not ok:
        return None
    from beep.features.base import BEEPFeaturizationError
    try:
        f.create_features()
    except BEEPFeaturizationError as e:
        return str(e)
    return f


def reload(f, how, d, k):
    from monty.serialization import dumpfn, loadfn
    from monty.json import MontyDecoder
    fn = os.path.join(d, f"feat{k}" + (".json.gz" if how % 2 else ".json"))
    if how in (0, 1):
        f.to_json_file(fn)
        g = type(f).from_json_file(fn)
        need_eq(g.paths, dict(f.paths, features=os.path.abspath(fn)), "paths after loading")
    elif how in (2, 3):
        f.to_json_file(fn)
        g = loadfn(fn)
        need_eq(g.paths, f.paths, "paths after loading")
    elif how == 4:
        dumpfn(f, fn)
        g = loadfn(fn)
    else:
        g = MontyDecoder().decode(json.dumps(f.as_dict()))
    need(type(g) is type(f), f"class after loading: {type(g).__name__}")
    same_features(f.features, g.features, "after loading")
    need_eq(g.hyperparameters, f.hyperparameters, "hyperparameters after loading")
    need_eq(g.metadata, f.metadata, "metadata after loading")
    need_eq(g.linked_semiunique_id, f.linked_semiunique_id, "linked run after loading")
    return g


def run(c):
    path = scratch.new()
    dp, truth, row = diag.build(c["d"], path)
    defaults = all_defaults()
    snap = snapshot(dp)
    n = 0
    labels = set()
    for k, (kind, how) in enumerate(c["ops"]):
        cls, hp = make(kind, dp, path, c)
        if cls is None:
            continue
        what = f"{kind} as step {k}"
        hp0 = copy.deepcopy(hp)
        if hp is None:
            f = cls(dp)
        else:
            f = cls(dp, hp)
        ok, msg = f.validate()
        unchanged(dp, snap, what + " validation")
        fresh = featurize(cls, hp0, diag.build(c["d"], path)[0])
        need_eq(bool(ok), fresh is not None, f"{what}: validation differs from a fresh run")
        if not ok:
            labels.add("refused")
            continue
        from beep.features.base import BEEPFeaturizationError
        try:
            f.create_features()
        except BEEPFeaturizationError as e:
            need(isinstance(fresh, str), f"{what}: failed ({e}) but succeeds on a fresh run")
            unchanged(dp, snap, what)
            continue
        unchanged(dp, snap, what)
        need_eq(hp, hp0, f"{what}: caller's hyperparameters changed")
        need_eq(f.hyperparameters, hp0 if hp0 is not None else defaults[cls.__name__], f"{what}: hyperparameters recorded")
        need_eq(all_defaults(), defaults, f"{what}: class defaults changed")
        need(not isinstance(fresh, str), f"{what}: succeeds but fails on a fresh run")
        same_features(fresh.features, f.features, what + " against a fresh run")
        need_eq(f.metadata, snap["meta"], f"{what}: metadata of the features")
        need_eq(f.paths, snap["paths"], f"{what}: paths of the features")
        need_eq(f.linked_semiunique_id, dp.semiunique_id, f"{what}: linked run")
        g = reload(f, how, path, k)
        if how % 2:
            reload(g, how - 1, path, k + 50)
        unchanged(dp, snap, what + " saved")
        labels |= {kind, f"how={how}"}
        n += 1
    if n >= 2:
        labels.add("nontrivial")
    return labels


# ------------------------------------------------------------------ runs without diagnostics, with zero and missing summary values

@st.composite
def regular_case(draw):
    fin = draw(st.integers(13, 30))
    return dict(fin=fin, mid=draw(st.integers(11, fin - 1)), init=draw(st.integers(1, 12)), nnom=draw(st.integers(1, 40)),
                n=fin + draw(st.integers(2, 40)), res=draw(st.integers(4, 9)), nan=draw(st.integers(0, 2)), jitter=draw(st.booleans()),
                end=draw(st.integers(60, 110)), zero_ir=draw(st.booleans()), seed=draw(st.integers(0, 2**31)),
                ops=draw(st.lists(st.sampled_from(["dq", "css", "traj"]), min_size=2, max_size=4)), default=draw(st.booleans()))


def regular_build(c):
    from props import c14
    rng = np.random.RandomState(c["seed"])
    dp = c14.base()
    dp.structured_summary = c14.summary(c, rng)
    cyc = sorted({c["fin"] - 1, c["init"] - 1, 0, c["fin"], c["init"]})
    dp.structured_data = c14.table(dict(c, cycles=cyc), rng)
    return dp


def regular_run(c):
    from beep.features import core
    dp = regular_build(c)
    snap = snapshot(dp)
    n = 0
    for k, kind in enumerate(c["ops"]):
        if kind == "dq":
            cls, hp = core.DeltaQFastCharge, dict(init_pred_cycle=c["init"], mid_pred_cycle=c["mid"], final_pred_cycle=c["fin"], n_nominal_cycles=c["nnom"])
        elif kind == "css":
            cls, hp = core.CycleSummaryStats, dict(cycle_comp_num=[0, c["fin"]], statistics=["var", "min", "mean", "skew", "kurtosis", "abs", "square"])
        else:
            cls, hp = core.TrajectoryFastCharge, (None if c["default"] else dict(thresh_max_cap=0.99, thresh_min_cap=0.6, interval_cap=0.07))
        fresh = featurize(cls, hp, regular_build(c))
        f = cls(dp, hp)
        ok, _ = f.validate()
        what = f"{kind} as step {k}"
        need_eq(bool(ok), fresh is not None, f"{what}: validation differs from a fresh run")
        unchanged(dp, snap, what + " validation")
        if ok:
            f.create_features()
            unchanged(dp, snap, what)
            same_features(fresh.features, f.features, what + " against a fresh run")
            n += 1
    return {"nontrivial"} if n >= 2 else set()


# ------------------------------------------------------------------ refusals

@st.composite
def refuse_case(draw):
    return dict(what=draw(st.sampled_from(["unstructured", "incomplete", "unsaved"])), kind=draw(st.sampled_from(KINDS)),
                drop=draw(st.integers(0, 9)), d=draw(diag.case(nwmax=2)))


def refuse_run(c):
    from beep.features.base import BEEPFeaturizationError
    from props.c14 import base
    path = scratch.new()
    d = dict(d=dict(c["d"], nd=3, reg=[4, 4, 4, 4], allsum=True), defaults=False)
    dp, _, _ = diag.build(d["d"], path, data=False)
    cls, hp = make(c["kind"], dp, path, d)

    def refused(fn, what):
        try:
            fn()
        except BEEPFeaturizationError:
            return
        raise Violation(what)
    if c["what"] == "unstructured":
        refused(lambda: cls(base(), hp), "an unstructured run was accepted for featurizing")
    elif c["what"] == "incomplete":
        hp = dict(hp)
        if len(hp) == 1:
            return set()
        hp.pop(sorted(hp)[c["drop"] % len(hp)])
        refused(lambda: cls(dp, hp), f"incomplete hyperparameters {sorted(hp)} were accepted by {cls.__name__}")
    else:
        refused(lambda: cls(dp, hp).as_dict(), "features that were never created could be serialised")
    return {"nontrivial", c["what"]}


SUBS = [Sub("sequence", case, run, quick=60, thorough=1500, shards=7, shards_thorough=8),
        Sub("regular", regular_case, regular_run, quick=250, thorough=5000, shards=1, shards_thorough=4),
        Sub("refusal", refuse_case, refuse_run, quick=60, thorough=300, shards=1)]
