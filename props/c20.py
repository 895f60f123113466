"""Data splitter: cleaning, exclusion, grouping and folds."""
import json
import math
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from props.c19 import impute, matrix
from vlib import scratch
from vlib.core import Sub, Violation, frames_equal, isnan, need, need_close, need_eq

PROPERTY = "C20"
RULE = ("a feature matrix over four to twelve files with drawn features, targets, grouping columns and exclusion verdicts, missing and "
        "infinite cells, drawn thresholds, imputation and numbers of folds, split, saved, loaded and split again; non-trivial when "
        "folds were produced and compared")
ORACLE = "cleaning and exclusion re-implemented over dictionaries; folds judged as set partitions of samples and groups"
ASSUMPTIONS = ["grouping and exclusion columns are known for enough files not to be dropped as features",
               "cases in which it matters whether grouping and exclusion columns count as features for the sample threshold are not judged",
               "a file is featurized with one setting of each featurizer"]

FEATS = [("a", "CycleSummaryStats"), ("b", "CycleSummaryStats"), ("e", "DeltaQFastCharge"), ("f", "CycleSummaryStats")]
TARGS = [("t0", "TrajectoryFastCharge"), ("t1", "TrajectoryFastCharge")]
SPLITS = [("cc1", "ChargingProtocol"), ("cc2", "ChargingProtocol")]
EXCL = [("ok1", "ExclusionCriteria"), ("ok2", "ExclusionCriteria"), ("ok3", "ExclusionCriteria")]


@st.composite
def case(draw):
    return dict(n=draw(st.integers(4, 12)), nf=draw(st.integers(1, 4)), nt=draw(st.integers(1, 2)), seed=draw(st.integers(0, 10 ** 6)),
                ns=draw(st.sampled_from([0, 0, 1, 2])), also=draw(st.integers(0, 3)) == 0, ne=draw(st.sampled_from([0, 0, 1, 2, 3])),
                enan=draw(st.integers(0, 3)) == 0, pok=draw(st.integers(5, 10)), miss=draw(st.integers(0, 2)), inf=draw(st.booleans()),
                smiss=draw(st.integers(0, 4)) == 0, ngr=draw(st.integers(1, 3)),
                tmiss=draw(st.integers(0, 2)) == 0, tdrop=draw(st.integers(0, 4)) > 0, fthr=draw(st.sampled_from([0.75, 0.5, 0.25, 0.625])),
                sthr=draw(st.sampled_from([0.5, 0.25, 0.75])), imp=draw(st.sampled_from(["median", "mean"])),
                k=draw(st.integers(2, 5)), rs=draw(st.integers(0, 20)), thr=draw(st.sampled_from([0.5, 0.25, 0.75, 1.0, 0.0])),
                mixed=draw(st.booleans()), homog=draw(st.integers(0, 3)) > 0, how=draw(st.integers(0, 3)))


def run(c):
    from beep.prediction.beep_data_splitter import BEEPDataSplitter as S, BEEPDataSplitterError
    rng = np.random.RandomState(c["seed"])
    n = c["n"]
    files = [f"/d/s{k}.json" for k in rng.permutation(n)]
    mixed = c["mixed"] and c["homog"]
    feats = FEATS[:c["nf"]]
    splits, excl, targs = SPLITS[:c["ns"]], EXCL[:c["ne"]], TARGS[:c["nt"]]
    ent, rows = [], {}
    for f in files:
        r = {}
        for k in feats:
            v = rng.randint(-40, 41) / 8
            if c["miss"] and rng.rand() < 0.12 * c["miss"]:
                v = [np.nan, np.inf, -np.inf][rng.randint(3)] if c["inf"] else np.nan
            r[k] = v
        for k in splits:
            r[k] = float(rng.randint(1, 1 + c["ngr"]))
            if c["smiss"] and rng.rand() < 0.1:
                r[k] = np.nan
        for k in targs:
            r[k] = rng.randint(-40, 41) / 8
            if c["tmiss"] and rng.rand() < 0.15:
                r[k] = [np.nan, np.inf][rng.randint(2)]
        absent = c["enan"] and rng.rand() < 0.15
        for k in excl:
            if not absent:
                r[k] = bool(rng.rand() < c["pok"] / 10)
        h = rng.randint(2) if mixed else 0
        for (a, cls), v in r.items():
            ent.append((f, a, cls, h, v))
        rows[f] = {k: (math.nan if not isinstance(v, bool) and not np.isfinite(v) else v) for k, v in r.items()}
    M = matrix(ent)
    order = list(M.matrix.index)
    lab = {}
    for x in M.matrix.columns:
        a, cls, _ = x.rsplit("::", 2)
        lab[a, cls] = f"{a}::{cls}" if c["homog"] else x
    if any(k not in lab for k in excl):
        return {"no_verdicts"}
    get = lambda f, k: rows[f].get(k, math.nan)
    features = [lab[k] for k in feats]
    if c["also"] and splits:
        feats = feats + splits
        features = features + [lab[k] for k in splits]
    kw = dict(feature_matrix=M, features=features, targets=[lab[k] for k in targs], train_feature_drop_nan_thresh=c["fthr"],
              train_sample_drop_nan_thresh=c["sthr"], drop_nan_training_targets=c["tdrop"], impute_strategy=c["imp"], n_splits=c["k"],
              homogenize_features=c["homog"], random_state=c["rs"], split_columns=[lab[k] for k in splits] or None,
              exclusion_columns=[lab[k] for k in excl] or None, drop_split_threshold=c["thr"])
    allc = list(dict.fromkeys(feats + splits + excl))
    keep = [k for k in allc if sum(not isnan(get(f, k)) for f in files) >= c["fthr"] * n]
    if any(k not in keep for k in splits + excl) or not any(k in keep for k in feats):
        return {"column_lost"}
    fk = [k for k in keep if k in feats]
    kept = [f for f in order if sum(not isnan(get(f, k)) for k in keep) >= c["sthr"] * len(keep)]
    if kept != [f for f in order if sum(not isnan(get(f, k)) for k in fk) >= c["sthr"] * len(fk)]:
        return {"ambiguous_threshold"}
    num = [k for k in keep if k not in excl]
    filled = impute([{k: get(f, k) for k in num} for f in kept], num, c["imp"])
    if filled is None:
        return {"unknown_feature"}
    filled = dict(zip(kept, filled))
    group = {f: tuple(filled[f][k] for k in splits) for f in kept}
    use = [f for f in kept if all(get(f, k) is True for k in excl)]
    if excl and splits:
        full, inc = {}, {}
        for f in kept:
            full[group[f]] = full.get(group[f], 0) + 1
        for f in use:
            inc[group[f]] = inc.get(group[f], 0) + 1
        gone = {g for g in full if inc.get(g, 0) / full[g] < c["thr"]}
        use = [f for f in use if group[f] not in gone]
    labels = set()

    def refused(what):
        try:
            S(**kw)
        except BEEPDataSplitterError:
            return {"refused", what}
        raise Violation(f"a splitter was set up although {what}")
    if len(use) < 2:
        return refused("fewer than two samples remain")
    tnan = [f for f in use if any(isnan(get(f, k)) for k in targs)]
    if tnan and not c["tdrop"]:
        return refused("a target is missing")
    if len(use) - len(tnan) < 2:
        return refused("fewer than two samples have targets")
    if len(use) < len(kept):
        labels.add("excluded")
    use = [f for f in use if f not in tnan]
    s = S(**kw)
    cols, tc = [lab[k] for k in fk], [lab[k] for k in targs]

    def judge_xy(s, what):
        need_eq(sorted(s.X.index), sorted(use), f"{what}: samples")
        need_eq(list(s.y.index), list(s.X.index), f"{what}: samples of features and targets")
        need_eq(sorted(s.feature_labels), sorted(cols), f"{what}: features kept")
    judge_xy(s, "cleaned")

    def cell(frame, f, x):
        return float(frame.loc[f, x])

    def judge(sets, what):
        need_eq(len(sets), c["k"], f"{what}: number of folds")
        seen, sizes = [], []
        for j, d in enumerate(sets):
            for X, y, part in ((d.train_X, d.train_y, "train"), (d.test_X, d.test_y, "test")):
                need_eq(list(X.index), list(y.index), f"{what}, fold {j}: {part} samples of features and targets")
                need_eq(sorted(X.columns), sorted(cols), f"{what}, fold {j}: {part} features")
                need_eq(list(y.columns), tc, f"{what}, fold {j}: {part} targets")
                for f in X.index:
                    for k in fk:
                        need_close(cell(X, f, lab[k]), filled[f][k], f"{what}, fold {j}: {part} feature {lab[k]} of {f}", 1e-12, 1e-12)
                    for k in targs:
                        need_close(cell(y, f, lab[k]), get(f, k), f"{what}, fold {j}: {part} target {lab[k]} of {f}", 0, 0)
            tr, te = list(d.train_X.index), list(d.test_X.index)
            need_eq(sorted(tr + te), sorted(use), f"{what}, fold {j}: training and test samples together")
            seen += te
            if splits:
                a, b = {group[f] for f in tr}, {group[f] for f in te}
                need(not a & b, f"{what}, fold {j}: groups {a & b} are in both training and test")
                sizes.append(len(b))
            else:
                sizes.append(len(te))
        need_eq(sorted(seen), sorted(use), f"{what}: test samples of all folds")
        need(max(sizes) - min(sizes) <= 1, f"{what}: uneven folds {sizes}")
    many = len({group[f] for f in use}) if splits else len(use)
    if many < c["k"]:
        return {"too_few_for_folds"}
    np.random.seed(c["seed"] % 99)
    sets = s.split()
    judge(sets, "split")
    need(s.datasets is sets or len(s.datasets) == len(sets), "datasets kept by the splitter")
    first = [(sorted(d.train_X.index), sorted(d.test_X.index)) for d in sets]
    np.random.seed(3)
    again = s.split()
    need_eq([(sorted(d.train_X.index), sorted(d.test_X.index)) for d in again], first, "splitting again with the same random state")
    # saving
    from monty.serialization import loadfn
    fn = os.path.join(scratch.new(), "s.json" + (".gz" if c["how"] == 1 else ""))
    if c["how"] < 2:
        s.to_json_file(fn)
        r = S.from_json_file(fn)
    elif c["how"] == 2:
        s.to_json_file(fn)
        r = loadfn(fn)
    else:
        r = S.from_dict(json.loads(json.dumps(s.as_dict())))
    need(isinstance(r, S), f"loaded object is a {type(r).__name__}")
    judge_xy(r, "loaded")
    judge(r.datasets, "loaded folds")
    need_eq([(sorted(d.train_X.index), sorted(d.test_X.index)) for d in r.datasets], first, "folds after loading")
    r.split()
    judge(r.datasets, "loaded splitter, split again")
    need_eq([(sorted(d.train_X.index), sorted(d.test_X.index)) for d in r.datasets], first, "folds of the loaded splitter")
    if splits:
        labels.add("grouped")
    if excl:
        labels.add("with_exclusion")
    if tnan:
        labels.add("target_dropped")
    return labels | {"nontrivial"}


@st.composite
def refuse_case(draw):
    return dict(what=draw(st.integers(0, 3)), n=draw(st.integers(4, 8)))


def refuse_run(c):
    from beep.prediction.beep_data_splitter import BEEPDataSplitter as S, BEEPDataSplitterError
    M = matrix([(f"f{i}", a, cls, 0, float(i)) for i in range(c["n"]) for a, cls in FEATS[:3] + TARGS + SPLITS[:1]])
    kw = dict(feature_matrix=M, features=["a::CycleSummaryStats"], targets=["t0::TrajectoryFastCharge"])
    bad = "missing::CycleSummaryStats"
    kw.update([dict(features=["a::CycleSummaryStats", bad]), dict(targets=[bad]), dict(split_columns=[bad]),
               dict(exclusion_columns=[bad])][c["what"]])
    try:
        S(**kw)
    except BEEPDataSplitterError:
        return {"nontrivial", str(c["what"])}
    raise Violation("a column that does not exist was accepted")


SUBS = [Sub("split", case, run, quick=900, thorough=20000, shards=7, shards_thorough=8),
        Sub("refusal", refuse_case, refuse_run, quick=12, thorough=20, shards=1)]
