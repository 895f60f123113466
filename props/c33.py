"""The command line for models: training and predicting use the options given, and report truthfully."""
import json
import os

import numpy as np
from hypothesis import strategies as st

from props.c19 import FEATS, TARGS, draw_value, matrix
from props.c32 import COMMON, globals_of, invoke, md5, report
from vlib import scratch
from vlib.core import Sub, frames_equal, need, need_eq, same_value

PROPERTY = "C33"
RULE = ("drawn feature and target matrices saved to files and drawn options given to the train and predict commands, the "
        "library called with the same settings being the reference; non-trivial when a model was trained or predictions made and compared")
ORACLE = "the library called with the settings the options name (differential), and hashes of the files on disk"


@st.composite
def tcase(draw):
    c = {k: draw(v) for k, v in COMMON.items()}
    o = lambda *v: draw(st.sampled_from([None, None] + list(v)))
    c.update(n=draw(st.integers(6, 9)), nf=draw(st.integers(2, 4)), miss=draw(st.integers(0, 2)), tmiss=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)),
             model=draw(st.sampled_from(["ridge", "ridge", "lasso", "elasticnet"])), targets=draw(st.sampled_from([[0], [1], [2], [0, 2]])),
             homog=o(True, False), fthr=o(0.25, 0.5, 0.75, 0.0, 1.0), sthr=o(0.25, 0.75, 0.0, 1.0), pthr=o(0.25, 0.5, 0.0, 1.0), drop=o(True, False),
             imp=o("median", "mean"), k=o(2, 3), mi=o(500, 2000), tol=o(0.01, 0.001), l1=o("0.25,0.75", "0.5", "0.1, 1.0"),
             al=draw(st.sampled_from([[0.25, 2.0, 3], [0.5, 0.5, 1], [0.125, 1.0, 2], None, [0, 1.0, 3], [0.25, 2.0, 4]])),
             part=draw(st.integers(0, 12)),
             frac=o(0.6, 0.8), out=draw(st.booleans()), rel=draw(st.booleans()),
             wrong=draw(st.sampled_from([None] * 16 + ["model", "target", "garbage", "rows"])))
    return c


def add(args, c, *opts):
    for o, s, v in opts:
        if v is not None:
            args += [s if c["short"] and s else o, v]
    return args


def trun(c):
    from beep.features.base import BEEPFeatureMatrix
    from beep.model import BEEPLinearModelExperiment as E
    base = scratch.new()
    cwd = os.path.join(base, "cwd")
    os.makedirs(cwd)
    rng = np.random.RandomState(c["seed"])
    files = [f"/d/s{k}.json" for k in range(c["n"])]
    FM = matrix([(f, a, cls, 0, draw_value(rng, c["miss"], False)) for f in files for a, cls in FEATS[:c["nf"]]])
    TM = matrix([(f, a, cls, 0, np.nan if c["tmiss"] and rng.rand() < 0.15 else rng.randint(-40, 41) / 8) for f in (files[:-1] if c["wrong"] == "rows" else files)
                 for a, cls in TARGS])
    fm, tm = os.path.join(base, "features.json.gz"), os.path.join(base, "targets.json")
    FM.to_json_file(fm)
    TM.to_json_file(tm)
    short = c["homog"] is not False
    full = {x.rsplit("::", 1)[0]: x for x in TM.matrix.columns}
    targets = [f"{a}::{k}" if short else full[f"{a}::{k}"] for a, k in (TARGS[i] for i in c["targets"])]
    if c["wrong"] == "target":
        targets = ["nothing::X"]
    model = "elasticnet" if len(targets) > 1 else c["model"]
    al = c["al"]
    if al is None and model != "ridge":
        al = [0.25, 2.0, 3]     # a path of a hundred tiny alphas takes too long to converge
    if c["part"] in (5, 7, 11):
        al = {5: [0.25, None, None], 7: [None, 1.0, 2], 11: [None, None, 3]}[c["part"]]
    if c["wrong"] == "model":
        model = "forest"
    if c["wrong"] == "garbage":
        open(fm, "w").write("{")
    before = open(fm, "rb").read(), open(tm, "rb").read()
    out = os.path.join(base, "model.json.gz") if c["out"] else None
    p = lambda x: x and (os.path.relpath(x, cwd) if c["rel"] else x)
    args = globals_of(c, base) + ["train"]
    add(args, c, ("--output-filename", "-o", p(out)), ("--feature-matrix-file", "-fm", p(fm)), ("--target-matrix-file", "-tm", p(tm)),
        ("--model-name", "-m", model), ("--train-on-frac-and-score", "-s", c["frac"]), ("--train-feature-nan-thresh", None, c["fthr"]),
        ("--train-sample-nan-thresh", None, c["sthr"]), ("--predict-sample-nan-thresh", None, c["pthr"]), ("--impute-strategy", None, c["imp"]),
        ("--kfold", None, c["k"]), ("--max-iter", None, c["mi"]), ("--tol", None, c["tol"]), ("--l1-ratios", None, c["l1"]),
        ("--homogenize-features", None, c["homog"]), *[("--targets", "-t", t) for t in targets])
    if al:
        add(args, c, ("--alpha-lower", "-al", al[0]), ("--alpha-upper", "-au", al[1]), ("--n-alphas", "-an", al[2]))
    if c["drop"]:
        args.append("--drop-nan-training-targets")
    np.random.seed(c["seed"] % 1000)
    r = invoke(args, cwd)
    need((open(fm, "rb").read(), open(tm, "rb").read()) == before, "training changed its inputs")
    made = [os.path.join(d, x) for d in (cwd, base) for x in os.listdir(d) if x.startswith("LinearModel") or x == "model.json.gz"]
    if al and None in al:
        need(r.exit_code != 0, "only part of the alpha options were given, exit code 0")
        need_eq(made, [], "models written by a refused command")
        return {"refused"}
    kw = dict(targets=targets, model_name=model, train_feature_drop_nan_thresh=c["fthr"], train_sample_drop_nan_thresh=c["sthr"],
              predict_sample_nan_thresh=c["pthr"], drop_nan_training_targets=True, impute_strategy=c["imp"], kfold=c["k"], max_iter=c["mi"], tol=c["tol"],
              l1_ratio=[float(x) for x in c["l1"].split(",")] if c["l1"] else None, homogenize_features=c["homog"],
              alphas=np.linspace(al[0], al[1], al[2]) if al else None)
    tr = te = None
    try:
        e = E(feature_matrix=BEEPFeatureMatrix.from_json_file(fm), target_matrix=BEEPFeatureMatrix.from_json_file(tm),
              **{k: v for k, v in kw.items() if v is not None})
        np.random.seed(c["seed"] % 1000)
        if c["frac"] is not None:
            _, tr, te = e.train_and_score(train_and_val_frac=c["frac"])
        else:
            _, tr = e.train()
    except BaseException as x:
        if not isinstance(x, Exception) and not type(x).__module__.startswith("beep"):
            raise
        e = None
    lab = {"failed" if e is None else "trained"}
    if e is None and c["halt"]:
        need(r.exit_code != 0, "exit code 0 although training failed and --halt-on-error was given")
        need_eq(made, [], "models written")
        return lab | {"halted"}
    need_eq((r.exit_code, r.exception), (0, None), "exit code and exception")
    need_eq(len(made), int(e is not None), "models written")
    if e is not None:
        need_eq(made[0] if out else os.path.dirname(made[0]), out or cwd, "place of the model")
        g = E.from_json_file(made[0])
        for k in ("targets", "model_name", "kfold", "max_iter", "tol", "homogenize_features", "impute_strategy", "drop_nan_training_targets",
                  "train_feature_drop_thresh", "train_sample_drop_thresh", "predict_sample_nan_thresh", "feature_labels"):
            need_eq(getattr(g, k), getattr(e, k), f"{k} of the trained model")
        need_eq(list(g.l1_ratio), list(e.l1_ratio), "l1 ratios of the trained model")
        need_eq(None if g.alphas is None else [float(a) for a in g.alphas], [float(a) for a in kw["alphas"]] if al else None, "alphas of the trained model")
        for k in ("X", "y"):
            a, b = getattr(g, k), getattr(e, k)
            need_eq(list(a.index), list(b.index), f"samples of {k}")
            frames_equal(a.reset_index(drop=True), b.reset_index(drop=True), f"{k} of the trained model", rtol=1e-12)
        for k in ("coef_", "intercept_"):
            need(np.allclose(getattr(g.model, k), getattr(e.model, k), rtol=1e-9, atol=1e-12), "{} of the trained model", k)
        need(same_value(dict(g.optimal_hyperparameters), dict(e.optimal_hyperparameters), rtol=1e-9), "hyperparameters {}", g.optimal_hyperparameters)
        lab |= {"nontrivial", model}
        if len(e.feature_labels) < c["nf"]:
            lab.add("features_dropped")
        if len(e.X) < c["n"]:
            lab.add("samples_dropped")
        if al:
            lab.add("alphas")
    if c["status"]:
        s = report(os.path.join(base, "status.json"), "train", c)
        need_eq(s["files"], dict(features=fm, targets=tm, features_md5_chksum=md5(fm), targets_md5_chksum=md5(tm)), "files in the report")
        need_eq(s["trained_model"], dict(created=e is not None, output=made[0] if made else None), "model in the report")
        need((s["traceback"] is None) == (e is not None), "traceback {}", s["traceback"])
        if te is not None:
            m = s["model_results"]
            need_eq(m["test_fraction"], c["frac"], "fraction in the report")
            need(same_value(m["training_error"], json.loads(json.dumps(tr, default=float)), rtol=1e-9), "training error reported {}, expected {}", m["training_error"], tr)
            need(same_value(m["test_error"], json.loads(json.dumps(te, default=float)), rtol=1e-9), "test error reported {}, expected {}", m["test_error"], te)
            lab.add("scored")
    return lab


@st.composite
def pcase(draw):
    c = {k: draw(v) for k, v in COMMON.items()}
    c.update(n=draw(st.integers(5, 7)), nf=draw(st.integers(2, 4)), np_=draw(st.integers(1, 5)), miss=draw(st.sampled_from([2, 1, 0, 3, 4, 2])), seed=draw(st.integers(0, 10 ** 6)),
             multi=draw(st.booleans()), pthr=draw(st.sampled_from([None, 0.25, 0.0, 0.0, 0.5, 1.0])), mthr=draw(st.sampled_from([0.75, 0.5, 1.0])),
             lack=draw(st.integers(0, 7)) == 5, out=draw(st.sampled_from([None, "p.json", "p.json", None, "p.json", "p.csv", None])), rel=draw(st.booleans()),
             wrong=draw(st.sampled_from([None] * 16 + ["model", "matrix"])))
    return c


def prun(c):
    from beep.features.base import BEEPFeatureMatrix
    from beep.model import BEEPLinearModelExperiment as E
    base = scratch.new()
    cwd = os.path.join(base, "cwd")
    os.makedirs(cwd)
    rng = np.random.RandomState(c["seed"])
    files = [f"/d/s{k}.json" for k in range(c["n"])]
    FM = matrix([(f, a, cls, 0, rng.randint(-40, 41) / 8) for f in files for a, cls in FEATS[:c["nf"]]])
    TM = matrix([(f, a, cls, 0, rng.randint(-40, 41) / 8) for f in files for a, cls in TARGS])
    targets = [f"{a}::{k}" for a, k in (TARGS[:2] if c["multi"] else TARGS[:1])]
    e = E(feature_matrix=FM, target_matrix=TM, targets=targets, model_name="elasticnet" if c["multi"] else "ridge", alphas=[0.5, 1.0], kfold=2,
          l1_ratio=[0.5], predict_sample_nan_thresh=c["mthr"])
    e.train()
    mf, pm = os.path.join(base, "model.json.gz"), os.path.join(base, "new.json")
    e.to_json_file(mf)
    feats = FEATS[:c["nf"] - 1] if c["lack"] else FEATS[:c["nf"]]
    matrix([(f"/p/q{k}.json", a, cls, 0, draw_value(rng, c["miss"], True)) for k in range(c["np_"]) for a, cls in feats]).to_json_file(pm)
    if c["wrong"]:
        open(mf if c["wrong"] == "model" else pm, "w").write("[]")
    before = open(mf, "rb").read(), open(pm, "rb").read()
    out = os.path.join(base, "o", c["out"]) if c["out"] else None
    os.makedirs(os.path.join(base, "o"))
    p = lambda x: x and (os.path.relpath(x, cwd) if c["rel"] else x)
    args = add(globals_of(c, base) + ["predict"], c, ("--feature-matrix-file", "-fm", p(pm)), ("--output-filename", "-o", p(out)),
               ("--predict-sample-nan-thresh", None, c["pthr"])) + [p(mf)]
    r = invoke(args, cwd)
    need((open(mf, "rb").read(), open(pm, "rb").read()) == before, "predicting changed its inputs")
    made = [os.path.join(d, x) for d in (cwd, os.path.join(base, "o")) for x in os.listdir(d)]
    if c["out"] == "p.csv":
        need(r.exit_code != 0, "an output name that is not json ends with exit code 0")
        need_eq(made, [], "files written by a refused command")
        return {"refused"}
    try:
        m = E.from_json_file(mf)
        if c["pthr"] is not None:
            m.predict_sample_nan_thresh = c["pthr"]
        want, _ = m.predict(BEEPFeatureMatrix.from_json_file(pm))
    except BaseException as x:
        if not isinstance(x, Exception) and not type(x).__module__.startswith("beep"):
            raise
        want = None
    lab = {"failed" if want is None else "predicted"}
    if want is None and c["halt"]:
        need(r.exit_code != 0, "exit code 0 although prediction failed and --halt-on-error was given")
        need_eq(made, [], "predictions written")
        return lab | {"halted"}
    need_eq((r.exit_code, r.exception), (0, None), "exit code and exception")
    need_eq(len(made), int(want is not None), "predictions written")
    if want is not None:
        need_eq(made[0] if out else os.path.dirname(made[0]), out or cwd, "place of the predictions")
        with open(made[0]) as f:
            g = json.load(f)
        need_eq(sorted(g), sorted(want.columns), "targets predicted")
        for t in want.columns:
            w = dict(zip(want.index, want[t].astype(float)))
            need_eq(sorted(g[t]), sorted(w), f"samples predicted with threshold {c['pthr']}")
            for k, v in w.items():
                need(abs(g[t][k] - v) <= 1e-8 * max(1, abs(v)), "{} of {}: {}, expected {}", t, k, g[t][k], v)
        lab.add("nontrivial")
        if len(want) < c["np_"]:
            lab.add("dropped")
        if c["pthr"] is not None and c["pthr"] < c["mthr"]:
            lab.add("lower_threshold")
    if c["status"]:
        s = report(os.path.join(base, "status.json"), "predict", c)
        need_eq(s["files"], dict(model=mf, predict_on_features=pm, model_md5_chksum=md5(mf), predict_on_features_md5_chksum=md5(pm)), "files in the report")
        need_eq(s["predictions"], dict(created=want is not None, output=made[0] if made else None), "predictions in the report")
        need((s["traceback"] is None) == (want is not None), "traceback {}", s["traceback"])
    return lab


SUBS = [Sub("train", tcase, trun, 200, 2500, shards=4, shards_thorough=8),
        Sub("predict", pcase, prun, 240, 2500, shards=3, shards_thorough=4)]
