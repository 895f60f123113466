"""Feature matrices place every featurizer's values in the row of its file and the column of its settings."""
import copy
import json
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import scratch
from vlib.core import Sub, Violation, frames_equal, isnan, need, need_eq

PROPERTY = "C18"
RULE = ("one to ten featurizers of drawn classes, hyperparameters, source files, feature names and values (missing and "
        "infinite included) joined into a matrix; non-trivial when at least two featurizers were joined")
ORACLE = "a dictionary (file, feature, class, hyperparameters) -> value filled directly from the featurizers"
ASSUMPTIONS = ["the hyperparameters of one class differ in value, not only in type"]

FILES = ["/data/a_structured.json", "/data/b_structured.json", "rel/c.json", "/data/a_structured.json.gz", "d e.json"]
NAMES = ["capacity_0.98", "capacity_0.8", "abs_mean", "x", "x::y", "r_c_0s_00", "0", "var charge"]
EOL = dict(cycle_type="rpt_0.2C", threshold=0.8, quantity="discharge_capacity")
KINDS = ["CycleSummaryStats", "TrajectoryFastCharge", "DeltaQFastCharge", "ExclusionCriteria", "HPPCResistanceVoltageFeatures"]


def variants(kind):
    from beep.features import core
    base = getattr(core, kind).DEFAULT_HYPERPARAMETERS
    mods = {"CycleSummaryStats": [{}, dict(cycle_comp_num=[10, 101]), dict(cycle_comp_num=[100, 10]), dict(statistics=["var"]),
                                  dict(statistics=["min", "var"]), dict(statistics=["var", "min"])],
            "TrajectoryFastCharge": [{}, dict(thresh_max_cap=0.9), dict(thresh_min_cap=0.8), dict(interval_cap=0.1),
                                     dict(thresh_max_cap=0.78, thresh_min_cap=0.98), dict(extra=1)],
            "DeltaQFastCharge": [{}, dict(init_pred_cycle=91, mid_pred_cycle=10), dict(n_nominal_cycles=4), dict(final_pred_cycle=0),
                                 dict(final_pred_cycle=1001), dict(init_pred_cycle=1, mid_pred_cycle=91)],
            "ExclusionCriteria": [{}, dict(EOL_conditions=dict(EOL, threshold=0.7)), dict(EOL_conditions=dict(EOL, cycle_type="rpt_1C")),
                                  dict(parameters_dir="/p"), dict(early_CV_cutoff=None), dict(throughput_first_n_cycles=dict(n=20, cutoff=30))],
            "HPPCResistanceVoltageFeatures": [{}, dict(diag_pos=2), dict(soc_window=1), dict(diag_pos=8, soc_window=1),
                                              dict(parameters_path="/p"), dict(test_time_filter_sec=100000)]}[kind]
    return [dict(copy.deepcopy(base), **m) for m in mods]


@st.composite
def case(draw):
    val = st.one_of(st.integers(-999, 999), st.sampled_from([None, None, "inf", "-inf", 0]))
    n = draw(st.integers(1, 10))
    fs = [dict(kind=draw(st.integers(0, 4)), hp=draw(st.integers(0, 5)), file=draw(st.integers(0, 4)), rev=draw(st.booleans()),
               feats=draw(st.dictionaries(st.sampled_from(NAMES), val, min_size=1, max_size=4)), ints=draw(st.integers(0, 4)) == 0,
               idx=draw(st.integers(0, 2)))
          for _ in range(n)]
    if draw(st.integers(0, 2)):          # mostly: the same few operations on several files
        ops = fs[:draw(st.integers(1, 3))]
        fs = [dict(o, file=k, feats={a: (v if v is None or isinstance(v, str) else v + 13 * k) for a, v in o["feats"].items()})
              for k in range(draw(st.integers(1, 5))) for o in ops] + fs[len(ops):]
    return dict(fs=fs, bad=draw(st.sampled_from([None] * 9 + ["nofeat", "tworow", "zerorow", "nopath", "dup"])), at=draw(st.integers(0, 9)),
                seed=draw(st.integers(0, 99)), how=draw(st.integers(0, 4)))


def conv(v):
    return {None: np.nan, "inf": np.inf, "-inf": -np.inf}[v] if v is None or isinstance(v, str) else v / 8


def build(f, k):
    from beep.features import core
    hp = variants(KINDS[f["kind"]])[f["hp"]]
    if f["rev"]:
        hp = dict(reversed(list(hp.items())))
    b = getattr(core, KINDS[f["kind"]])(None, hp)
    vals = {a: [conv(v)] for a, v in f["feats"].items()}
    if f["ints"] and all(isinstance(v, int) for v in f["feats"].values()):
        vals = {a: [v] for a, v in f["feats"].items()}
    b.features = pd.DataFrame(vals, index=[[0], [7], ["row"]][f["idx"]])
    b.paths = {"structured": FILES[f["file"]], "raw": f"/raw/{k}"}
    b.metadata = {"barcode": f"EL{k}"}
    b.linked_semiunique_id = f"id{k}"
    return b


def run(c):
    from beep.features.base import BEEPFeatureMatrix, BEEPFeatureMatrixError
    bfs = [build(f, k) for k, f in enumerate(c["fs"])]
    seen, dup = set(), False
    for f in c["fs"]:
        for a in f["feats"]:
            key = (f["file"], f["kind"], f["hp"], a)
            dup |= key in seen
            seen.add(key)
    at = c["at"] % len(bfs)
    bad = c["bad"]
    if bad == "nofeat":
        bfs[at].features = None
    elif bad == "tworow":
        bfs[at].features = pd.concat([bfs[at].features] * 2)
    elif bad == "zerorow":
        bfs[at].features = bfs[at].features.iloc[:0]
    elif bad == "nopath":
        bfs[at].paths = {"raw": "x"}
    elif bad == "dup":
        bfs.append(build(c["fs"][at], 99))
    if bad or dup:
        try:
            BEEPFeatureMatrix(bfs)
        except BEEPFeatureMatrixError:
            return {"refused", "nontrivial" if len(bfs) > 1 else "single", str(bad or "duplicate")}
        raise Violation(f"featurizers were joined although one is unusable ({bad or 'the same feature twice for one file'})")
    snap = [(b.features.copy(), copy.deepcopy(b.hyperparameters), copy.deepcopy(b.paths)) for b in bfs]
    m = BEEPFeatureMatrix(bfs)
    M = m.matrix
    files = [FILES[k] for k in sorted({f["file"] for f in c["fs"]})]
    need_eq(sorted(M.index), sorted(files), "rows of the matrix")
    need(M.columns.is_unique, f"column labels repeat: {list(M.columns)}")
    # columns of each featurizer, from a matrix of its own
    want, names = {}, {}
    for f, b in zip(c["fs"], bfs):
        own = BEEPFeatureMatrix([b]).matrix
        need_eq(own.shape, (1, len(f["feats"])), "shape of the matrix of a single featurizer")
        for col in own.columns:
            a, cls, h = col.rsplit("::", 2)
            need_eq(cls, KINDS[f["kind"]], "class named by the column")
            need(a in f["feats"], f"column for unknown feature {a}")
            need(col in M.columns, f"column {col} of {FILES[f['file']]} missing in the joined matrix")
            op = (f["kind"], f["hp"])
            need_eq(names.setdefault(h, op), op, "two settings share a column")
            need_eq([x for x, o in names.items() if o == op], [h], f"the same settings of {cls} give different columns")
            want[FILES[f["file"]], col] = b.features[a].iloc[0]
    need_eq(set(M.columns), {k[1] for k in want}, "columns of the matrix")
    lab = set()
    for i in M.index:
        for col in M.columns:
            got, exp = M.loc[i, col], want.get((i, col), np.nan)
            if isnan(exp):
                need(isnan(got), f"cell {i}, {col}: {got} where there is no value")
                lab.add("missing_cell")
            else:
                need_eq(float(got), float(exp), f"cell {i}, {col}")
    for b, (x, hp, p) in zip(bfs, snap):
        frames_equal(b.features, x, "a featurizer's features after joining")
        need(list(b.features.index) == list(x.index), "joining changed the row label of a featurizer's features")
        need_eq(b.hyperparameters, hp, "hyperparameters after joining")
        need_eq(b.paths, p, "paths after joining")
    # order of the featurizers
    rng = np.random.RandomState(c["seed"])
    perm = rng.permutation(len(bfs))
    N = BEEPFeatureMatrix([bfs[k] for k in perm]).matrix
    need_eq(set(N.columns), set(M.columns), "columns after reordering the featurizers")
    need_eq(sorted(N.index), sorted(M.index), "rows after reordering the featurizers")
    frames_equal(N.loc[M.index, M.columns].reset_index(drop=True).astype(float), M.reset_index(drop=True).astype(float), "matrix after reordering the featurizers")
    # saving
    fn = os.path.join(scratch.new(), "m.json" + [".gz", "", ""][c["how"] % 3])
    from monty.json import MontyDecoder
    from monty.serialization import loadfn
    if c["how"] in (0, 1):
        m.to_json_file(fn)
        r = BEEPFeatureMatrix.from_json_file(fn)
    elif c["how"] == 2:
        m.to_json_file(fn)
        r = loadfn(fn)
    elif c["how"] == 3:
        r = BEEPFeatureMatrix.from_dict(json.loads(json.dumps(m.as_dict())))
    else:
        r = MontyDecoder().decode(m.to_json())
    need(isinstance(r, BEEPFeatureMatrix), f"loaded object is a {type(r).__name__}")
    need_eq(list(r.matrix.index), list(M.index), "rows after loading")
    need_eq(list(r.matrix.columns), list(M.columns), "columns after loading")
    frames_equal(r.matrix.reset_index(drop=True).astype(float), M.reset_index(drop=True).astype(float), "matrix after loading")
    need_eq(len(r.featurizers), len(bfs), "featurizers after loading")
    for a, b in zip(r.featurizers, bfs):
        need_eq(type(a), type(b), "class of a loaded featurizer")
        need_eq(a.hyperparameters, b.hyperparameters, "hyperparameters after loading")
        need_eq((a.paths, a.metadata, a.linked_semiunique_id), (b.paths, b.metadata, b.linked_semiunique_id), "origin after loading")
    return lab | ({"nontrivial"} if len(bfs) > 1 else {"single"}) | {f"how={c['how']}"}


SUBS = [Sub("matrix", case, run, quick=800, thorough=20000, shards=6, shards_thorough=8)]
