"""Linear models: cleaning, fitting, prediction, scoring and persistence."""
import itertools
import json
import math
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import scratch
from vlib.core import Sub, Violation, close, frames_equal, isnan, need, need_close, need_eq

PROPERTY = "C19"
RULE = ("a feature matrix and a target matrix over five to eight files with drawn values, missing and infinite cells, "
        "one or two settings of each featurizer, drawn cleaning thresholds, imputation, model and targets; trained, used to "
        "predict another drawn matrix, scored, saved and loaded; non-trivial when a model was trained and its predictions compared")
ORACLE = ("cleaning re-implemented over dictionaries, the linear formula with the training mean and deviation, the closed-form "
          "or proximal-gradient optimum of the stated objective, textbook error metrics, exhaustive search over the possible splits")
ASSUMPTIONS = ["a file is featurized with one setting of each featurizer",
               "every feature is known for at least one of the samples kept (imputation has something to start from)",
               "missing values in a prediction are imputed from the samples predicted together",
               "features and targets cover the same files"]

FEATS = [("a", "CycleSummaryStats"), ("b", "CycleSummaryStats"), ("c::d", "DeltaQFastCharge"), ("e", "DeltaQFastCharge"), ("f", "CycleSummaryStats")]
TARGS = [("capacity_0.9", "TrajectoryFastCharge"), ("capacity_0.8", "TrajectoryFastCharge"), ("g", "HPPCResistanceVoltageFeatures")]


@st.composite
def case(draw):
    n = draw(st.integers(5, 8))
    nf = draw(st.integers(2, 5))
    miss = draw(st.integers(0, 3))
    return dict(n=n, nf=nf, miss=miss, inf=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)),
                hp=draw(st.lists(st.integers(0, 1), min_size=8, max_size=8)), hp2=draw(st.lists(st.integers(0, 1), min_size=8, max_size=8)),
                mixed=draw(st.booleans()), homog=draw(st.integers(0, 3)) > 0,
                targets=draw(st.sampled_from([[0], [1], [0], [2], [0, 1], [1, 0], [0, 2]])), model=draw(st.integers(0, 2)),
                fthr=draw(st.sampled_from([0.95, 0.75, 0.5, 0.25, 0.875])), sthr=draw(st.sampled_from([0.5, 0.25, 0.75])),
                pthr=draw(st.sampled_from([0.75, 0.5, 0.25, 1.0])), tmiss=draw(st.integers(0, 3)) == 0, tdrop=draw(st.integers(0, 4)) > 0,
                imp=draw(st.sampled_from(["median", "mean"])), k=draw(st.integers(2, 3)),
                alphas=draw(st.sampled_from([[0.0625, 0.5], [1.0], "array", "tuple", None])),
                np_=draw(st.integers(1, 5)), pmiss=draw(st.integers(0, 3)), extra=draw(st.integers(0, 3)), frame=draw(st.booleans()),
                how=draw(st.integers(0, 3)), score=draw(st.booleans()), frac=draw(st.sampled_from([0.8, 0.7, 0.6])), lin=draw(st.booleans()))


def matrix(entries):
    """entries: (file, feature, class, setting, value)"""
    from beep.features import core
    from beep.features.base import BEEPFeatureMatrix
    g = {}
    for f, a, cls, hp, v in entries:
        g.setdefault((f, cls, hp), {})[a] = [v]
    bfs = []
    for (f, cls, hp), d in g.items():
        h = dict(getattr(core, cls).DEFAULT_HYPERPARAMETERS)
        h[sorted(h)[0]] = 1000 + hp
        b = getattr(core, cls)(None, h)
        b.features = pd.DataFrame(d)
        b.paths = {"structured": f}
        bfs.append(b)
    return BEEPFeatureMatrix(bfs)


def draw_value(rng, miss, inf):
    if miss and rng.rand() < 0.12 * miss:
        return [np.nan, np.inf, -np.inf][rng.randint(3)] if inf else np.nan
    return rng.randint(-40, 41) / 8.0


def median(x):
    x = sorted(x)
    m = len(x)
    return (x[(m - 1) // 2] + x[m // 2]) / 2


def impute(rows, cols, how):
    """rows: list of dict label -> value|nan; None if a column has no value at all"""
    out = [dict(r) for r in rows]
    for c in cols:
        have = [r[c] for r in rows if not isnan(r[c])]
        if not have:
            return None
        fill = median(have) if how == "median" else math.fsum(have) / len(have)
        for r in out:
            if isnan(r[c]):
                r[c] = fill
    return out


def errors(t, p):
    d = [a - b for a, b in zip(t, p)]
    mt = math.fsum(t) / len(t)
    ss = math.fsum((a - mt) ** 2 for a in t)
    sr = math.fsum(x * x for x in d)
    return dict(rmse=math.sqrt(sr / len(d)), mae=math.fsum(map(abs, d)) / len(d), max_error=max(map(abs, d)),
                r2=1 - sr / ss if ss else None)


def same_errors(got, T, P, targets):
    """-> None or a description of the mismatch; T, P: n x m arrays"""
    for j, t in enumerate(targets):
        e = errors(T[:, j].tolist(), P[:, j].tolist())
        for k, v in e.items():
            g = got[k][t] if len(targets) > 1 else got[k]
            if v is not None and not close(g, v, 1e-6, 1e-8):
                return f"{k} of {t}: got {g}, expected {v}"
    return None if set(got) == {"rmse", "mae", "r2", "max_error"} else f"error metrics {sorted(got)}"


def objective(X, Y, W, alpha, l1, multi):
    R = Y - X @ W
    n = len(X)
    if multi:
        pen = np.sqrt((W ** 2).sum(axis=1)).sum()
    else:
        pen = np.abs(W).sum()
    return (R ** 2).sum() / (2 * n) + alpha * l1 * pen + alpha * (1 - l1) / 2 * (W ** 2).sum()


def optimum(X, Y, alpha, l1, multi):
    n = len(X)
    L = np.linalg.norm(X, 2) ** 2 / n + alpha * (1 - l1) + 1e-12
    W = Z = np.zeros((X.shape[1], Y.shape[1]))
    t = 1.0
    for _ in range(400):
        G = Z - (X.T @ (X @ Z - Y) / n + alpha * (1 - l1) * Z) / L
        s = alpha * l1 / L
        if multi:
            nr = np.sqrt((G ** 2).sum(axis=1, keepdims=True))
            N = G * np.maximum(0, 1 - s / np.maximum(nr, 1e-300))
        else:
            N = np.sign(G) * np.maximum(np.abs(G) - s, 0)
        t2 = (1 + math.sqrt(1 + 4 * t * t)) / 2
        Z = N + (t - 1) / t2 * (N - W)
        W, t = N, t2
    return W


def snap(m):
    return list(m.columns), list(m.index), m.copy()


def same(m, s, what):
    need_eq(list(m.columns), s[0], f"{what}: column labels")
    need_eq(list(m.index), s[1], f"{what}: row labels")
    frames_equal(m.reset_index(drop=True), s[2].reset_index(drop=True), what)


def run(c):
    from beep.model import BEEPLinearModelExperiment as E, BEEPMLExperimentError
    rng = np.random.RandomState(c["seed"])
    n = c["n"]
    files = [f"/d/s{k}.json" for k in rng.permutation(n)]
    feats = FEATS[:c["nf"]]
    hp = {f: (c["hp"][k] if c["mixed"] else c["hp"][0]) for k, f in enumerate(files)}
    ent = [(f, a, cls, hp[f], draw_value(rng, c["miss"], c["inf"])) for f in files for a, cls in feats]
    if c["miss"] == 3:      # a file lacking one featurizer altogether, except that its row must exist
        ent = [e for e in ent if not (e[0] == files[1] and e[2] == "DeltaQFastCharge")]
    X0 = {(f, a, cls, h): v for f, a, cls, h, v in ent}
    w = rng.randint(-3, 4, len(feats))
    tfiles = [files[k] for k in rng.permutation(n)]
    tent = []
    for f in tfiles:
        for a, cls in TARGS:
            v = rng.randint(-40, 41) / 8.0
            if c["lin"]:
                v = v / 8 + sum(wi * (X0.get((f, x, k, hp[f]), 0.0) if np.isfinite(X0.get((f, x, k, hp[f]), 0.0)) else 0.0)
                                for wi, (x, k) in zip(w, feats))
            if c["tmiss"] and rng.rand() < 0.25:
                v = [np.nan, np.inf][rng.randint(2)]
            tent.append((f, a, cls, c["hp2"][files.index(f)] if c["mixed"] and c["homog"] else 0, v))
    FM, TM = matrix(ent), matrix(tent)

    def label(M, a, cls, h):
        if c["homog"]:
            return f"{a}::{cls}"
        # settings are told apart by the last part of the column label (C18)
        ks = sorted({e[3] for e in (ent if M is FM else tent) if e[2] == cls})
        cs = [x for x in M.matrix.columns if x.rsplit("::", 1)[0] == f"{a}::{cls}"]
        if len(ks) == 1:
            return cs[0]
        for x in cs:
            for f, a2, c2, h2, v in (ent if M is FM else tent):
                if (a2, c2, h2) == (a, cls, h):
                    one = matrix([(f, a, cls, h, 0.0)]).matrix.columns[0]
                    if one == x:
                        return x
        raise KeyError((a, cls, h))
    lab = {}
    for f, a, cls, h, v in ent:
        if (a, cls, h) not in lab:
            lab[a, cls, h] = label(FM, a, cls, h)
    tlab = {(a, cls): label(TM, a, cls, 0) for a, cls in TARGS}
    targets = [tlab[TARGS[k]] for k in c["targets"]]
    cols = sorted(set(lab.values()))
    rows = {f: {x: math.nan for x in cols} for f in files}
    for f, a, cls, h, v in ent:
        rows[f][lab[a, cls, h]] = v if np.isfinite(v) else math.nan
    Y0 = {f: {} for f in files}
    for f, a, cls, h, v in tent:
        Y0[f][tlab[a, cls]] = v if np.isfinite(v) else math.nan
    # cleaning
    keep = [x for x in cols if sum(not isnan(rows[f][x]) for f in files) >= c["fthr"] * n]
    order = list(FM.matrix.index)
    kept = [f for f in order if sum(not isnan(rows[f][x]) for x in keep) >= c["sthr"] * len(keep)]
    labels = set()
    model = ["ridge", "lasso", "elasticnet"][c["model"] if len(targets) == 1 else 2]
    if c["alphas"] is None and model != "ridge":       # a path of a hundred tiny alphas takes too long to converge
        c = dict(c, alphas="tuple")
    alphas = {"array": np.array([0.25, 1.0]), "tuple": (0.25, 1.0)}.get(c["alphas"], c["alphas"]) if isinstance(c["alphas"], str) else c["alphas"]
    kw = dict(feature_matrix=FM, target_matrix=TM, targets=targets, model_name=model, alphas=alphas,
              train_feature_drop_nan_thresh=c["fthr"], train_sample_drop_nan_thresh=c["sthr"], predict_sample_nan_thresh=c["pthr"],
              drop_nan_training_targets=c["tdrop"], impute_strategy=c["imp"], kfold=c["k"], l1_ratio=(0.25, 0.75, 1), homogenize_features=c["homog"])
    s1, s2 = snap(FM.matrix), snap(TM.matrix)

    def refused(what):
        try:
            E(**kw)
        except BEEPMLExperimentError:
            return {"refused", what}
        raise Violation(f"an experiment was set up although {what}")
    if len(kept) < 2 or not keep:
        return refused("fewer than two samples or no feature remain")
    train = impute([rows[f] for f in kept], keep, c["imp"])
    tnan = [f for f in kept if any(isnan(Y0[f][t]) for t in targets)]
    if tnan and not c["tdrop"]:
        return refused("a target is missing")
    if len(kept) - len(tnan) < 2:
        return refused("fewer than two samples have targets")
    if train is None:
        return {"unknown_feature"}
    e = E(**kw)
    same(FM.matrix, s1, "feature matrix after setting up the experiment")
    same(TM.matrix, s2, "target matrix after setting up the experiment")
    use = [f for f in kept if f not in tnan]
    byf = dict(zip(kept, train))
    X = np.array([[byf[f][x] for x in keep] for f in use])
    Y = np.array([[Y0[f][t] for t in targets] for f in use])
    need_eq(sorted(e.X.columns), keep, f"features kept at threshold {c['fthr']}")
    need_eq(sorted(e.X.index), sorted(use), f"samples kept at threshold {c['sthr']}")
    need_eq(list(e.y.index), list(e.X.index), "samples of features and targets")
    got = e.X.loc[use, keep].values.astype(float)
    need(np.allclose(got, X, rtol=1e-12, atol=1e-12), f"cleaned features {got.tolist()}, expected {X.tolist()}")
    need(np.array_equal(e.y.loc[use, targets].values.astype(float), Y), "cleaned targets")
    if len(use) < max(4, c["k"]):
        return {"few_samples"}
    try:
        e.predict(FM)
    except BEEPMLExperimentError:
        pass
    else:
        raise Violation("an untrained model made predictions")
    _, err = e.train()
    labels |= {"nontrivial", model, "multi" if len(targets) > 1 else "single"}
    if tnan:
        labels.add("target_dropped")
    if len(use) < n:
        labels.add("samples_dropped")
    if len(keep) < len(cols):
        labels.add("features_dropped")
    # the linear formula
    mu, sd = X.mean(axis=0), X.std(axis=0)
    sd = np.where(sd < 1e-12, 1.0, sd)
    # the experiment reports features in its own order
    pos = [keep.index(x) for x in e.feature_labels]
    need_eq(sorted(e.feature_labels), keep, "features required for prediction")
    W = np.zeros((len(keep), len(targets)))
    W[pos, :] = np.atleast_2d(np.asarray(e.model.coef_, dtype=float)).T.reshape(len(keep), len(targets))
    b = np.asarray(e.model.intercept_, dtype=float).reshape(-1)
    Z = (X - mu) / sd

    def formula(A):
        return (A - mu) / sd @ W + b
    bad = same_errors(err, Y, formula(X), targets)
    need(bad is None, f"training error {bad}")
    # the fit is the optimum for the chosen hyperparameters
    hyp = e.optimal_hyperparameters
    if alphas is not None:
        need(any(hyp["alpha"] == a for a in alphas), f"alpha {hyp['alpha']} is not one of {alphas}")
    Yc = Y - Y.mean(axis=0)
    need(np.allclose(b, Y.mean(axis=0), rtol=1e-9, atol=1e-9), f"intercept {b}, expected the mean target {Y.mean(axis=0)}")
    if model == "ridge":
        R = np.linalg.solve(Z.T @ Z + hyp["alpha"] * np.eye(len(keep)), Z.T @ Yc)
        need(np.allclose(W, R, rtol=1e-5, atol=1e-7), f"ridge coefficients {W.ravel()}, expected {R.ravel()}")
    else:
        l1 = hyp.get("l1_ratio", 1.0)
        if model == "elasticnet":
            need(any(l1 == x for x in (0.25, 0.75, 1)), f"l1 ratio {l1} is not one of those offered")
        multi = len(targets) > 1
        a, o = objective(Z, Yc, W, hyp["alpha"], l1, multi), objective(Z, Yc, optimum(Z, Yc, hyp["alpha"], l1, multi), hyp["alpha"], l1, multi)
        need(a <= o + 2e-4 * (Yc ** 2).sum() / len(Z) + 1e-9, f"objective {a} of the fit, although {o} is possible")
    # prediction
    pf = [f"/p/q{k}.json" for k in range(c["np_"])]
    ph = {f: (c["hp2"][k] if c["homog"] and c["mixed"] else None) for k, f in enumerate(pf)}
    pent, pr = [], {f: {x: math.nan for x in keep} for f in pf}
    for f in pf:
        for (a, cls, h), x in lab.items():
            if c["homog"] and h != min(k[2] for k in lab if k[:2] == (a, cls)):
                continue
            v = draw_value(rng, c["pmiss"], c["inf"])
            if x in keep:
                pr[f][x] = v if np.isfinite(v) else math.nan
            elif x not in keep and not c["extra"]:
                continue
            pent.append((f, a, cls, h if ph[f] is None else ph[f], v))
        for k in range(c["extra"]):
            pent.append((f, f"extra{k}", "HPPCResistanceVoltageFeatures", 0, 1.0 if c["extra"] % 2 else math.nan))
    PM = matrix(pent)
    if c["frame"]:      # a frame's columns and rows come in any order
        PM.matrix = PM.matrix.iloc[rng.permutation(PM.matrix.shape[0]), rng.permutation(PM.matrix.shape[1])]
    arg = PM.matrix if c["frame"] else PM
    s3 = snap(PM.matrix)
    order = list(PM.matrix.index)
    stay = [f for f in order if sum(not isnan(v) for v in pr[f].values()) >= c["pthr"] * len(keep)]
    pi = impute([pr[f] for f in stay], keep, c["imp"]) if stay else None

    def predict(m, what):
        if pi is None:
            return None
        y, dropped = m.predict(arg)
        same(PM.matrix, s3, f"matrix after {what}")
        need_eq(sorted(dropped), sorted(f for f in order if f not in stay), f"{what}: samples dropped at threshold {c['pthr']}")
        need_eq(list(y.columns), targets, f"{what}: columns")
        need_eq(sorted(y.index), sorted(stay), f"{what}: samples predicted")
        exp = formula(np.array([[r[x] for x in keep] for r in pi]))
        got = y.loc[stay, targets].values.astype(float)
        need(np.allclose(got, exp, rtol=1e-7, atol=1e-7), f"{what}: got {got.tolist()}, expected {exp.tolist()}")
        return got
    p1 = predict(e, "prediction")
    if p1 is None:
        labels.add("nothing_to_predict")
    elif len(stay) < len(order):
        labels.add("prediction_dropped")
    predict(e, "second prediction")
    # scoring on a split, afterwards predictions come from that model
    if c["score"] and len(use) >= 5 and math.floor(c["frac"] * len(use)) >= max(3, c["k"]):
        np.random.seed(c["seed"] % 1000)
        _, tr, te = e.train_and_score(train_and_val_frac=c["frac"])
        k = math.floor(c["frac"] * len(use))
        P = e.predict(e.X, homogenize_features=False)[0].loc[use, targets].values.astype(float)
        allix = set(range(len(use)))
        for S in itertools.combinations(range(len(use)), k):
            T = sorted(allix - set(S))
            S = list(S)
            if same_errors(tr, Y[S], P[S], targets) is None and same_errors(te, Y[T], P[T], targets) is None:
                mu, sd = X[S].mean(axis=0), X[S].std(axis=0)
                sd = np.where(sd < 1e-12, 1.0, sd)
                W[pos, :] = np.atleast_2d(np.asarray(e.model.coef_, dtype=float)).T.reshape(len(keep), len(targets))
                b = np.asarray(e.model.intercept_, dtype=float).reshape(-1)
                if np.allclose(formula(X), P, rtol=1e-7, atol=1e-7):
                    break
        else:
            raise Violation(f"no split of {len(use)} samples into {k} and the rest has these errors: {tr}, {te}")
        labels.add("scored")
        predict(e, "prediction after scoring")
    # saving
    fn = os.path.join(scratch.new(), "model.json" + (".gz" if c["how"] == 1 else ""))
    from monty.serialization import loadfn
    if c["how"] < 2:
        e.to_json_file(fn)
        r = E.from_json_file(fn)
    elif c["how"] == 2:
        e.to_json_file(fn)
        r = loadfn(fn)
    else:
        d = e.as_dict()
        if isinstance(d["alphas"], np.ndarray):
            d["alphas"] = d["alphas"].tolist()
        r = E.from_dict(json.loads(json.dumps(d)))
    need(isinstance(r, E), f"loaded object is a {type(r).__name__}")
    for k in ("targets", "model_name", "kfold", "max_iter", "tol", "homogenize_features", "impute_strategy", "drop_nan_training_targets",
              "feature_labels", "optimal_hyperparameters", "predict_sample_nan_thresh"):
        need_eq(getattr(r, k), getattr(e, k), f"{k} after loading")
    need_eq(list(r.l1_ratio), list(e.l1_ratio), "l1_ratio after loading")
    need_eq(None if r.alphas is None else [float(a) for a in r.alphas], None if alphas is None else [float(a) for a in alphas], "alphas after loading")
    same(r.X, snap(e.X), "training features after loading")
    same(r.y, snap(e.y), "training targets after loading")
    predict(r, "prediction of the loaded model")
    return labels


# ------------------------------------------------------------------ refusals

@st.composite
def refuse_case(draw):
    return dict(what=draw(st.integers(0, 7)), seed=draw(st.integers(0, 999)), model=draw(st.integers(0, 2)), pos=draw(st.integers(0, 3)))


def refuse_run(c):
    from beep.model import BEEPLinearModelExperiment as E, BEEPMLExperimentError
    rng = np.random.RandomState(c["seed"])
    files = [f"s{k}" for k in range(5)]
    FM = matrix([(f, a, cls, 0, rng.randint(99) / 8) for f in files for a, cls in FEATS[:4]])
    TM = matrix([(f, a, cls, 0, rng.randint(99) / 8) for f in files for a, cls in TARGS])
    name = ["ridge", "lasso", "elasticnet"][c["model"]]
    t = ["capacity_0.9::TrajectoryFastCharge"]
    kw = dict(feature_matrix=FM, target_matrix=TM, targets=t, model_name=name, alphas=[0.5, 1.0], kfold=2)
    errs = (BEEPMLExperimentError, ValueError)

    def refused(fn, what):
        try:
            fn()
        except errs:
            return {"nontrivial", what}
        raise Violation(f"accepted: {what}")
    w = c["what"]
    if w == 0:
        return refused(lambda: E(**dict(kw, model_name="svm")), "unknown model")
    if w == 1:
        return refused(lambda: E(**dict(kw, targets=[])), "no target")
    if w == 2:
        return refused(lambda: E(**dict(kw, targets=t + ["capacity_0.7::TrajectoryFastCharge"])), "target not in the matrix")
    if w == 3:
        return refused(lambda: E(**dict(kw, targets=t + ["g::HPPCResistanceVoltageFeatures"], model_name=["ridge", "lasso"][c["model"] % 2])), "two targets for a single-target model")
    if w == 4:
        TM2 = matrix([(f, a, cls, 0, 1.0) for f in files[:4] for a, cls in TARGS])
        return refused(lambda: E(**dict(kw, target_matrix=TM2)), "unequal numbers of samples")
    if w == 5:
        return refused(lambda: E(**kw).as_dict(), "an untrained model was serialised")
    if w == 6:
        return refused(lambda: E(**dict(kw, impute_strategy="zero")), "unknown imputation")
    e = E(**kw)
    e.train()
    P = matrix([(f, a, cls, 0, 1.0) for f in ("p", "q") for k, (a, cls) in enumerate(FEATS[:4]) if k != c["pos"]])
    return refused(lambda: e.predict(P), "prediction without a feature of the training")


SUBS = [Sub("model", case, run, quick=650, thorough=12000, shards=7, shards_thorough=8),
        Sub("refusal", refuse_case, refuse_run, quick=40, thorough=300, shards=1)]
