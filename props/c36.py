"""Principal components: pivoted curves, projection, errors, outliers and saving."""
import json
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import scratch
from vlib.core import Reject, Sub, need, need_close, need_close_arr, need_eq, frames_equal

PROPERTY = "C36"
RULE = ("random training tables (4-20 rows, 2-12 columns; one or two directions dominate; some columns constant), decomposed and "
        "compared with a singular value decomposition computed here; new rows near and far from the training set; structured runs "
        "(1-3 files) written and pivoted; non-trivial when fewer components than columns are kept, or at least two files are pivoted")
ASSUMPTIONS = ["the threshold of explained variance can be reached with the requested number of components",
               "a regular cycle has one discharging step",
               "components of nearly equal variance, and values within rounding of an outlier limit, are not judged"]


@st.composite
def table(draw):
    n, m = draw(st.integers(4, 20)), draw(st.integers(2, 12))
    return dict(n=n, m=m, seed=draw(st.integers(0, 10**6)), rank=draw(st.integers(1, 3)), noise=draw(st.sampled_from([0.02, 0.2, 1.0])),
                const=draw(st.integers(0, 6)) == 5, k=draw(st.integers(1, min(n - 1, m))), thr=draw(st.integers(20, 98)) / 100,
                index=draw(st.booleans()), shift=draw(st.sampled_from([0.0, 5.0, -100.0])),
                scale=draw(st.sampled_from([1.0, 1e-3, 50.0])),
                new=draw(st.integers(1, 6)), far=draw(st.integers(0, 3)), up=draw(st.sampled_from([95, 75, 100, 60])),
                lo=draw(st.sampled_from([5, 25, 0, 40])), err=draw(st.sampled_from([1.5, 1.0, 0.5, 3.0])))


def build(c):
    r = np.random.RandomState(c["seed"])
    base = r.randn(c["rank"], c["m"])
    w = r.randn(c["n"], c["rank"]) * (3.0 ** -np.arange(c["rank"]))
    x = w @ base + c["noise"] * r.randn(c["n"], c["m"]) * np.linspace(0.6, 1.6, c["m"])
    x = x * (c["scale"] * (1 + np.arange(c["m"]))) + c["shift"]
    if c["const"]:
        x[:, 0] = 7.0
    w2 = r.randn(c["new"], c["rank"]) * (3.0 ** -np.arange(c["rank"])) * (1 + c["far"])
    y = w2 @ base + c["noise"] * (1 + c["far"]) * r.randn(c["new"], c["m"])
    y = y * (c["scale"] * (1 + np.arange(c["m"]))) + c["shift"]
    cols = [3.5 - 0.1 * j for j in range(c["m"])]
    ix = [10 * i + 3 for i in range(c["n"])] if c["index"] else None
    return pd.DataFrame(x, columns=cols, index=ix), pd.DataFrame(y, columns=cols)


class Oracle:
    def __init__(self, c, x):
        a = x.values
        self.mu, sd = a.mean(axis=0), a.std(axis=0)
        self.sd = np.where(sd <= 1e-12 * np.maximum(1, np.abs(self.mu)), 1.0, sd)
        z = (a - self.mu) / self.sd
        _, s, vt = np.linalg.svd(z - z.mean(axis=0), full_matrices=False)
        k = c["k"]
        self.k, self.s, self.v = k, s, vt[:k]
        self.ratio = s ** 2 / (s ** 2).sum()
        cut = s[k] if k < len(s) else 0.0
        if s[k - 1] < 1e-6 * s[0] or s[k - 1] - cut < 1e-3 * s[0]:
            raise Reject("kept and dropped components not distinct")
        self.distinct = k == 1 or (np.diff(-s[:k]) > 1e-3 * s[0]).all()
        self.e = z @ self.v.T

    def project(self, x):
        z = (np.asarray(x) - self.mu) / self.sd
        e = z @ self.v.T
        return e, (e @ self.v) * self.sd + self.mu


def close_frames(got, want, what, scale):
    need_close_arr(np.asarray(got, float), np.asarray(want, float), what, rtol=1e-6, atol=1e-8 * scale)


def prepare(c):
    from beep.features.principal_components import PrincipalComponents
    x, y = build(c)
    o = Oracle(c, x)
    cum = np.cumsum(o.ratio[:c["k"]])
    if cum[-1] <= c["thr"] + 1e-9:
        # not reachable with the components asked for: outside the statement
        c = dict(c, thr=float(cum[-1]) * 0.97)
    if (np.abs(cum - c["thr"]) < 1e-9).any():
        raise Reject("threshold within rounding")
    keep = x.copy()
    p = PrincipalComponents(x, name="n", n_components=c["k"], explained_variance_threshold=c["thr"])
    frames_equal(x, keep, "training table after the fit")
    return c, x, y, o, p, cum


def align(o, p, e):
    """sign of each component is free"""
    s = np.sign((p.embeddings * o.e).sum(axis=0))
    return np.asarray(e) * s


def run_fit(c):
    c, x, y, o, p, cum = prepare(c)
    sc = float(np.abs(x.values).max())
    need_eq(int(p.min_components), int(np.argmax(cum > c["thr"])) + 1, "components needed for the threshold")
    need_eq(np.asarray(p.embeddings).shape, (c["n"], c["k"]), "shape of the embeddings")
    if o.distinct:
        close_frames(align(o, p, p.embeddings), o.e, "embeddings of the training rows", np.abs(o.e).max())
    _, rec = o.project(x)
    close_frames(p.reconstructions, rec, "training rows rebuilt", sc)
    need_eq(len(p.reconstruction_errors), c["n"], "one error per training row")
    close_frames(p.reconstruction_errors, np.abs(rec - x.values).mean(axis=1), "errors of the training rows", sc)
    keep = y.copy()
    e = p.get_pca_embeddings(y)
    e2, rec2 = o.project(y)
    if o.distinct:
        close_frames(align(o, p, e), e2, "embeddings of new rows", np.abs(e2).max() + 1)
    close_frames(p.get_pca_reconstruction(e), rec2, "new rows rebuilt", sc)
    close_frames(p.get_pca_embeddings(x), p.embeddings, "training rows embedded again", np.abs(o.e).max())
    close_frames(p.get_pca_embeddings(p.get_pca_reconstruction(e)), e, "rebuilding and embedding again", np.abs(e2).max() + 1)
    frames_equal(y, keep, "new table after embedding")
    lab = {"k%d" % min(c["k"], 4)}
    if c["k"] < c["m"]:
        lab.add("nontrivial")
    return lab


def run_outliers(c):
    c, x, y, o, p, cum = prepare(c)
    if not o.distinct:
        raise Reject("order of components not determined")
    before = (np.array(p.embeddings), np.array(p.reconstruction_errors))
    full = pd.concat([y, x.reset_index(drop=True)], ignore_index=True) if c["index"] else y
    keep = full.copy()
    d, out = p.get_pca_decomposition_outliers(full, upper_quantile=c["up"], lower_quantile=c["lo"])
    we = (o.e - o.e.mean(axis=0)) / o.e.std(axis=0)
    e, rec = o.project(full)
    w = (e - o.e.mean(axis=0)) / o.e.std(axis=0)
    # signs are free: quantiles are taken in the object's own orientation
    s = np.sign((p.embeddings * o.e).sum(axis=0))
    we, w = we * s, w * s
    hi, lo = np.percentile(we, [c["up"], c["lo"]], axis=0)
    dist = np.sqrt(((w - np.median(we, axis=0)) ** 2).sum(axis=1))
    close_frames(d, dist, "distances to the centre", 1 + dist.max())
    need_eq(len(out), len(full), "one verdict per row")
    tol = 1e-7
    n = 0
    for i in range(len(full)):
        sure_in = (w[i] < hi - tol).all() and (w[i] > lo + tol).all()
        sure_out = (w[i] > hi + tol).any() or (w[i] < lo - tol).any()
        if sure_in or sure_out:
            need_eq(bool(out[i]), bool(sure_out), f"row {i} outside the quantiles of the training set")
            n += 1
    err, flag = p.get_reconstruction_error_outliers(full, threshold=c["err"])
    want = np.abs(rec - full.values).mean(axis=1)
    sc = float(np.abs(full.values).max())
    close_frames(err, want, "reconstruction errors", sc)
    top = np.abs(o.project(x)[1] - x.values).mean(axis=1).max() * c["err"]
    for i in range(len(full)):
        if abs(want[i] - top) > 1e-7 * sc:
            need_eq(bool(np.asarray(flag)[i]), bool(want[i] > top), f"row {i}: error beyond {c['err']} times the worst training error")
    frames_equal(full, keep, "table after looking for outliers")
    need(np.array_equal(before[0], p.embeddings) and np.array_equal(before[1], p.reconstruction_errors), "looking for outliers changed the fit")
    lab = {"far%d" % c["far"]}
    if n and c["k"] < c["m"]:
        lab.add("nontrivial")
    return lab


def run_save(c):
    from beep.features.principal_components import PrincipalComponents
    from monty.serialization import dumpfn, loadfn
    c, x, y, o, p, cum = prepare(c)
    d = scratch.new()
    f = os.path.join(d, "pc.json" + (".gz" if c["index"] else ""))
    dumpfn(p, f)
    for how, q in (("file", loadfn(f)), ("text", PrincipalComponents.from_dict(json.loads(p.to_json())))):
        need(isinstance(q, PrincipalComponents), f"{how}: class")
        need_eq((q.name, q.n_components, int(q.min_components)), ("n", c["k"], int(p.min_components)), how + ": settings")
        sc = float(np.abs(x.values).max())
        close_frames(q.embeddings, p.embeddings, how + ": embeddings", 1)
        close_frames(q.reconstruction_errors, p.reconstruction_errors, how + ": errors", sc)
        close_frames(q.get_pca_embeddings(y.values), p.get_pca_embeddings(y.values), how + ": new rows", 1)
        close_frames(q.get_pca_reconstruction(p.embeddings), p.reconstructions, how + ": rebuilt", sc)
        need_close_arr(q.get_pca_decomposition_outliers(y.values)[0], p.get_pca_decomposition_outliers(y.values)[0], how + ": distances", rtol=1e-6)
    return {"nontrivial"} if c["k"] < c["m"] else set()


@st.composite
def files(draw):
    nv = draw(st.integers(2, 6))
    fs = []
    for _ in range(draw(st.integers(1, 3))):
        cyc = sorted(draw(st.lists(st.integers(0, 14), min_size=1, max_size=6, unique=True)))
        fs.append(dict(cycles=cyc, q=[[draw(st.integers(0, 999)) for _ in range(nv)] for _ in cyc],
                       nan=draw(st.lists(st.integers(0, 30), max_size=2)), rev=draw(st.booleans())))
    return dict(nv=nv, files=fs, want=draw(st.lists(st.integers(0, 14), min_size=1, max_size=10, unique=True)),
                qty=draw(st.sampled_from(["discharge_capacity", "temperature", "discharge_energy"])),
                pivot=draw(st.sampled_from(["voltage", "charge_capacity"])), disk=draw(st.booleans()), array=draw(st.booleans()))


def run_pivot(c):
    from beep.features.principal_components import pivot_data
    from beep.structure.arbin import ArbinDatapath
    d = scratch.new()
    grid = [round(2.5 + 0.2 * k, 3) for k in range(c["nv"])]
    names, rows = [], []
    for i, f in enumerate(c["files"]):
        recs = []
        k = 0
        for ci, q in zip(f["cycles"], f["q"]):
            vals = []
            for g, v in zip(grid, q):
                x = np.nan if k in f["nan"] else v / 100.0
                vals.append(x)
                for t in ("charge", "discharge"):
                    rec = dict(cycle_index=ci, step_type=t, voltage=-1.0, charge_capacity=-1.0, discharge_capacity=-1.0,
                               temperature=-1.0, discharge_energy=-1.0, current=1.0)
                    rec[c["pivot"]] = g
                    rec[c["qty"]] = x if t == "discharge" else -5.0
                    recs.append(rec)
                k += 1
            if ci in c["want"]:
                rows.append(vals)
        if f["rev"]:
            recs = recs[::-1]
        raw = pd.DataFrame(dict(cycle_index=[0], step_index=[1], voltage=[3.0]))
        dp = ArbinDatapath(raw_data=raw, metadata=dict(barcode="b", protocol="p", channel_id=1))
        dp.structured_data = pd.DataFrame(recs)
        dp.structured_summary = pd.DataFrame(dict(cycle_index=f["cycles"]))
        p = os.path.join(d, f"run{i}_structure.json")
        dp.to_json_file(p, omit_raw=True)
        names.append(p)
    arg = json.dumps(dict(file_list=names, run_list=list(range(len(names)))))
    if c["disk"]:
        p = os.path.join(d, "list.json")
        with open(p, "w") as fh:
            fh.write(arg)
        arg = p
    want = np.array(c["want"]) if c["array"] else c["want"]
    # every file has at least one of the cycles, so that the column labels are defined
    if not all(set(f["cycles"]) & set(c["want"]) for f in c["files"]):
        raise Reject("a file without any of the cycles")
    t = pivot_data(arg, c["qty"], c["pivot"], want)
    need_eq(t.shape, (len(rows), c["nv"]), "shape of the pivoted table")
    need_close_arr(np.array(t.columns, float), np.array(grid), "columns are the grid", rtol=1e-6)
    need_eq(list(t.index), list(range(len(rows))), "rows are numbered through the files")
    need_close_arr(t.values.astype(float), np.array(rows, float), "values by file and cycle", rtol=1e-6, atol=1e-9)
    return {"nontrivial"} if len(names) > 1 and len(rows) > 2 else set()


SUBS = [
    Sub("fit", table, run_fit, 500, 20000, 2, 8),
    Sub("outliers", table, run_outliers, 500, 20000, 2, 8),
    Sub("save", table, run_save, 80, 3000, 1, 4),
    Sub("pivot", files, run_pivot, 100, 4000, 1, 4),
]
