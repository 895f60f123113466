"""Electrode analysis: the full cell made of two electrodes, and the fit of measured cells to it."""
import contextlib
import os
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import scratch
from vlib.core import Reject, Sub, frames_equal, need, need_close, need_close_arr, need_eq

PROPERTY = "C35"
RULE = ("generated monotone half-cell curves, electrode sizes, offsets and losses, and cells simulated from them; "
        "non-trivial when both electrodes bend inside the full cell's window and the voltages compared there differ")
ORACLE = "the curves as drawn (piecewise linear functions of charge), evaluated with numpy.interp"
ASSUMPTIONS = ["half-cell files have 1001 evenly spaced rows from 0 to 100, as the shipped ones and the blends do",
               "charge data; the optimiser visits the points it is given (its search itself is scipy's)"]

warnings.simplefilter("ignore")
N = 1001
GRID = np.linspace(0, 100, N)
LEVELS = [round(4.2 - 0.1 * k, 1) for k in range(16)]
LAB = [("%.1f" % v).replace(".", "p") for v in LEVELS]
INFO = ([f"pe_voltage_FC{v}V" for v in LAB] + [f"pe_soc_FC{v}V" for v in LAB] + [f"ne_voltage_FC{v}V" for v in LAB]
        + [f"ne_soc_FC{v}V" for v in LAB] + ["Q_fc", "Q_pe", "Q_ne", "Q_li"])
V2COLS = ["rmse_error", "LLI_opt", "Q_pe_opt", "Q_ne_opt", "x_NE_2"] + INFO
V1COLS = ["LLI", "LAM_PE", "LAM_NE", "x_NE_2", "alpha_real", "alpha_emulated", "PE_upper_voltage", "PE_lower_voltage",
          "PE_upper_SOC", "PE_lower_SOC", "PE_mass", "NE_upper_voltage", "NE_lower_voltage", "NE_upper_SOC",
          "NE_lower_SOC", "NE_mass", "Li_mass"]


# ------------------------------------------------------------------ curves

@st.composite
def knots(draw, lo, hi):
    xs = sorted(draw(st.sets(st.integers(3, 97), min_size=1, max_size=5)))
    return dict(x=xs, w=[draw(st.integers(1, 8)) for _ in range(len(xs) + 1)],
                a=draw(st.integers(*lo)) / 100.0, b=draw(st.integers(*hi)) / 100.0)


def pe_knots():
    return knots((270, 330), (425, 440))


def ne_knots():
    return knots((80, 150), (1, 10))


def pts(k):
    x = np.array([0.0] + [float(i) for i in k["x"]] + [100.0])
    y = np.concatenate([[0.0], np.cumsum(np.array(k["w"], dtype=float) * np.diff(x))])
    return x, k["a"] + (k["b"] - k["a"]) * y / y[-1]


def frame(k):
    x, y = pts(k)
    return pd.DataFrame(dict(SOC_aligned=GRID, Voltage_aligned=np.interp(GRID, x, y)))


def at(x, xs, ys):
    return np.interp(x, xs, ys, left=np.nan, right=np.nan)


def write(d, name, k):
    p = os.path.join(d, name)
    f = frame(k)
    f.insert(0, "noise", 1.5)
    f.to_csv(p, index=False)
    return p


def v2(c, **kw):
    from beep.features.intracell_analysis_v2 import IntracellAnalysisV2
    d = scratch.new()
    ia = IntracellAnalysisV2(write(d, "c.csv", c["pe"]), write(d, "a.csv", c["ne"]), **kw)
    need_close_arr(ia.pe_pristine["Voltage_aligned"], frame(c["pe"])["Voltage_aligned"], "positive electrode as read")
    need_close_arr(ia.ne_1_pristine["Voltage_aligned"], frame(c["ne"])["Voltage_aligned"], "negative electrode as read")
    return ia, (ia.pe_pristine.copy(), ia.ne_1_pristine.copy(), pd.DataFrame(), pd.DataFrame())


def v1(c, **kw):
    from beep.features.intracell_analysis import IntracellAnalysis
    d = scratch.new()
    ia = IntracellAnalysis(write(d, "c.csv", c["pe"]), write(d, "a.csv", c["ne"]), **kw)
    need_close_arr(ia.pe_pristine["Voltage_aligned"], frame(c["pe"])["Voltage_aligned"], "positive electrode as read")
    need_close_arr(ia.ne_1_pristine["Voltage_aligned"], frame(c["ne"])["Voltage_aligned"], "negative electrode as read")
    return ia, (ia.pe_pristine.copy(), ia.ne_1_pristine.copy(), pd.DataFrame(), pd.DataFrame())


@st.composite
def sizes(draw):
    return [draw(st.integers(0, 60)) / 50.0, draw(st.integers(250, 650)) / 100.0, draw(st.integers(250, 650)) / 100.0, 1]


def cell(c, x):
    """the two electrodes and the full cell of the drawn curves on one axis of charge -> grid, pe, ne, full, first, last"""
    px, py = pts(c["pe"])
    nx, ny = pts(c["ne"])
    px, nx = px / 100 * x[1], nx / 100 * x[2] + x[0]
    g = np.linspace(min(px[0], nx[0]), max(px[-1], nx[-1]), N)
    p, n = at(g, px, py), at(g, nx, ny)
    full = p - n
    with np.errstate(invalid="ignore"):
        ok = np.where((full >= 2.7) & (full <= 4.2))[0]
        edge = min(np.nanmin(np.abs(full - 2.7)), np.nanmin(np.abs(full - 4.2))) if len(ok) else 0
    if len(ok) < 30 or edge < 1e-9:            # on the limit itself rounding decides
        raise Reject()
    return g, p, n, full, ok[0], ok[-1], (px, nx)


def ends(a, b, what):
    """equal, but a value at the very edge of a curve may have been lost to rounding"""
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    need_eq(len(a), len(b), what + ": length")
    x = np.where(np.isnan(a) != np.isnan(b))[0]
    need(len(x) <= 2, "{}: {} places are (not) missing", what, len(x))
    for i in x:
        near = np.isnan(b[max(0, i - 1): i + 2])
        need(near.any(), "{}: the place {} should have a value", what, i) if np.isnan(a[i]) else None
    m = ~(np.isnan(a) | np.isnan(b))
    need_close_arr(a[m], b[m], what, rtol=1e-7, atol=1e-7)


def bends(x, q0, q1):
    """drawn knots inside (q0, q1)"""
    return [v for v in x if q0 < v < q1]


# ------------------------------------------------------------------ V2: scaling, full cell, fit

@st.composite
def cell_case(draw):
    return dict(pe=draw(pe_knots()), ne=draw(ne_knots()), x=draw(sizes()), y=draw(sizes()))


def run_scale(c):
    ia, p = v2(c)
    keep = [f.copy() for f in p]
    out = ia._impose_electrode_scale(p[0], p[1], p[2], p[3], *c["x"])
    g, pv, nv, full, i0, i1, (px, nx) = cell(c, c["x"])
    for f, v, what in ((out[0], pv, "positive electrode"), (out[1], nv, "negative electrode")):
        need_close_arr(f["Q_aligned"], g, what + ": charge", rtol=1e-9, atol=1e-9)
        ends(f["Voltage_aligned"], v, what + ": voltage")
    for a, b in zip(p, keep):
        frames_equal(a, b, "pristine electrode afterwards")
    lab = {"offset" if c["x"][0] else "aligned", "ne-larger" if nx[-1] > px[-1] else "pe-larger"}
    if bends(px, g[i0], g[i1]) and bends(nx, g[i0], g[i1]):
        lab.add("nontrivial")
    return lab


def run_forward(c):
    ia, p = v2(c)
    g, pv, nv, full, i0, i1, (px, nx) = cell(c, c["x"])
    for name in ("halfcell_degradation_matching_ah_no_real", "get_v_over_q_from_degradation_matching_ah_no_real"):
        pe, ne, em = getattr(ia, name)(c["x"], *p)
        z = g[i0]
        for f, v, what in ((pe, pv, "positive electrode"), (ne, nv, "negative electrode")):
            need_close_arr(f["Q_aligned"], g - z, name + ": charge of the " + what, rtol=1e-9, atol=1e-9)
            ends(f["Voltage_aligned"], v, name + ": voltage of the " + what)
        q = np.linspace(0, g[i1] - z, N)
        need_close_arr(em["Q_aligned"], q, name + ": charge of the full cell", rtol=1e-9, atol=1e-9)
        ends(em["Voltage_aligned"], np.interp(q, g[i0:i1 + 1] - z, full[i0:i1 + 1]), name + ": voltage of the full cell")
        v = em["Voltage_aligned"].dropna()
        need(v.min() >= 2.7 - 1e-12 and v.max() <= 4.2 + 1e-12, "{}: the full cell leaves 2.7..4.2 V: {}..{}", name, v.min(), v.max())
    lab = {"upper" if full[i1] > 4.15 else "upper-not-reached", "lower" if full[i0] < 2.75 else "lower-not-reached"}
    if bends(px, g[i0], g[i1]) and bends(nx, g[i0], g[i1]):
        lab.add("nontrivial")
    return lab


@st.composite
def match_case(draw):
    c = draw(cell_case())
    c.update(n=draw(st.integers(20, 300)), noise=draw(st.integers(0, 2)), seed=draw(st.integers(0, 10**6)), nan=draw(st.integers(0, 3)))
    return c


def measured(c, x, n, noise, seed, nan=0):
    """a measured charge: n points of the cell x, uneven, with noise -> Q, V"""
    g, pv, nv, full, i0, i1, _ = cell(c, x)
    rng = np.random.RandomState(seed)
    q = np.sort(np.concatenate([[0.0, g[i1] - g[i0]], rng.uniform(0, g[i1] - g[i0], n - 2)]))
    v = np.interp(q, g[i0:i1 + 1] - g[i0], full[i0:i1 + 1]) + noise * rng.uniform(-0.005, 0.005, n)
    if nan:
        v[rng.randint(1, n - 1, nan)] = np.nan
    return q, v


def seuclid(a, b):
    """mean over a's points of the standardised distance to b's nearest point"""
    s = np.var(np.vstack([a, b]), axis=0, ddof=1)
    best = np.empty(len(a))
    for i in range(len(a)):
        best[i] = np.sqrt((((b - a[i]) ** 2) / s).sum(axis=1).min())
    return best


def run_match(c):
    q, v = measured(c, c["y"], c["n"], c["noise"], c["seed"], c["nan"])
    real = pd.DataFrame(dict(Voltage_aligned=v, Q_aligned=q))
    keep = real.copy()
    ia, p = v2(c)
    g, pv, nv, full, i0, i1, (px, nx) = cell(c, c["x"])
    z = g[i0]
    ok = ~np.isnan(v)
    qq = np.linspace(q[ok][0], q[ok][-1], N)
    want_r = at(qq, q[ok], v[ok])
    want_e = at(qq, g[i0:i1 + 1] - z, full[i0:i1 + 1])
    for name in ("halfcell_degradation_matching_ah", "get_v_over_q_from_degradation_matching_ah"):
        pe, ne, ra, em = getattr(ia, name)(c["x"], *p, real)
        need_close_arr(pe["Q_aligned"], g - z, name + ": charge of the positive electrode", rtol=1e-9, atol=1e-9)
        need_close_arr(ne["Q_aligned"], g - z, name + ": charge of the negative electrode", rtol=1e-9, atol=1e-9)
        ends(pe["Voltage_aligned"], pv, name + ": voltage of the positive electrode")
        ends(ne["Voltage_aligned"], nv, name + ": voltage of the negative electrode")
        for f, w, what in ((ra, want_r, "measured"), (em, want_e, "emulated")):
            need_close_arr(f["Q_aligned"], qq, name + f": charge of the {what} cell", rtol=1e-9, atol=1e-9)
            ends(f["Voltage_aligned"], w, name + f": voltage of the {what} cell")
    frames_equal(real, keep, "measured profile afterwards")
    err, vec, xa, xb = ia._get_error_from_degradation_matching_v_q(c["x"], *p, real)
    a = np.column_stack([qq, want_r])[~np.isnan(want_r)]
    b = np.column_stack([qq, want_e])[~np.isnan(want_e)]
    if len(b) < 5:
        raise Reject()
    w = seuclid(a, b)
    need(abs(err - w.mean()) < 2e-3 * max(w.mean(), 0.02), "V-Q error is {}, the mean nearest distance is {}", err, w.mean())
    lab = {"noise" if c["noise"] else "clean"}
    if bends(px, g[i0], g[i1]) and bends(nx, g[i0], g[i1]) and c["x"] != c["y"]:
        lab.add("nontrivial")
    return lab


TYPES = {"V-Q": "_get_error_from_degradation_matching_v_q", "dVdQ": "_get_error_from_degradation_matching_dvdq",
         "dQdV": "_get_error_from_degradation_matching_dqdv"}


def run_error(c):
    """the error is that of the representation asked for, zero at the cell's own parameters and nowhere else"""
    lab = set()
    g, pv, nv, full, i0, i1, (px, nx) = cell(c, c["x"])
    if g[i1] - g[i0] < 0.8:
        raise Reject()
    y = list(c["y"])
    far = max(abs(y[1] - c["x"][1]), abs(y[2] - c["x"][2]), abs(y[0] - c["x"][0])) > 0.05
    got = {}
    for kind in ("V-Q", "dVdQ", "dQdV", "other"):
        ia, p = v2(c, error_type=kind)
        em = ia.get_v_over_q_from_degradation_matching_ah_no_real(c["x"], *p)[-1]
        for name in ("_get_error_from_degradation_matching_ah", "_get_error_from_synthetic_fitting_ah"):
            e0 = getattr(ia, name)(c["x"], *p, em)
            e1 = getattr(ia, name)(y, *p, em)
            own = getattr(ia, TYPES.get(kind, TYPES["V-Q"]))(y, *p, em)[0]
            need(abs(e0) < 1e-9, "{} ({}): error {} at the parameters the cell was made with", name, kind, e0)
            need_close(e1, own, f"{name} with error type {kind}: not the error of that representation")
            got[kind] = e1
        if far and kind == "V-Q":
            z = cell(c, y)
            same = abs((z[0][z[5]] - z[0][z[4]]) - (g[i1] - g[i0])) < 1e-3
            if not same and e1 != 100:
                need(e1 > 1e-9, "{} error is {} for a different cell", kind, e1)
    need_close(got["other"], got["V-Q"], "an unknown representation falls back to V-Q")
    if len(set(round(got[k], 9) for k in TYPES)) == 3:
        lab.add("nontrivial")
    lab.add("no-fit" if got["V-Q"] == 100 else "fit")
    return lab


def run_slopes(c):
    """dV/dQ and dQ/dV are the slopes of the curve, away from its bends"""
    ia, p = v2(c)
    g, pv, nv, full, i0, i1, (px, nx) = cell(c, c["x"])
    em = ia.get_v_over_q_from_degradation_matching_ah_no_real(c["x"], *p)[-1]
    z, qe = g[i0], g[i1] - g[i0]
    knot = np.sort(np.concatenate([px, nx])) - z
    step = g[1] - g[0]
    margin = 3 * step + 12 * qe / (N - 1)
    ys = np.interp(knot + z, px, pts(c["pe"])[1]) - np.interp(knot + z, nx, pts(c["ne"])[1])

    def slope(q):
        k = np.clip(np.searchsorted(knot, q) - 1, 0, len(knot) - 2)
        return (ys[k + 1] - ys[k]) / (knot[k + 1] - knot[k])

    out = ia.get_dvdq_over_q_from_degradation_matching_ah(c["x"], *p, em)
    n = 0
    for f, what in ((out[2], "measured"), (out[3], "emulated")):
        need_close_arr(f["Q_aligned"], np.linspace(0, qe, N), f"charge of the {what} cell", rtol=1e-9, atol=1e-9)
        q = f["Q_aligned"].to_numpy()
        far = np.array([np.min(np.abs(knot - t)) > margin for t in q]) & (q > margin) & (q < qe - margin)
        n += int(far.sum())
        need_close_arr(f["dVdQ"].to_numpy()[far], slope(q[far]), f"dV/dQ of the {what} cell", rtol=1e-4, atol=1e-5)
    out = ia.get_dqdv_over_v_from_degradation_matching_ah(c["x"], *p, em)
    vg = np.linspace(2.7, 4.2, N)
    for f, what in ((out[2], "measured"), (out[3], "emulated")):
        need_close_arr(f["Voltage_aligned"], vg, f"voltage axis of the {what} cell", rtol=1e-9, atol=1e-9)
        q = np.interp(vg, full[i0:i1 + 1], g[i0:i1 + 1] - z)
        ins = (vg > full[i0] + 1e-6) & (vg < full[i1] - 1e-6)
        near = ins & (vg > full[i0] + 0.002) & (vg < full[i1] - 0.002)
        need_close_arr(f["Q_aligned"].to_numpy()[near], q[near], f"charge over voltage of the {what} cell", rtol=1e-4, atol=4 * step)
        far = near & np.array([np.min(np.abs(knot - t)) > margin for t in q]) & (q > margin) & (q < qe - margin)
        n += int(far.sum())
        need_close_arr(f["dQdV"].to_numpy()[far], 1 / slope(q[far]), f"dQ/dV of the {what} cell", rtol=1e-3, atol=1e-5)
        out_ = ~ins & ((vg < full[i0] - 1e-6) | (vg > full[i1] + 1e-6))
        need_close_arr(f["dQdV"].to_numpy()[out_], np.zeros(int(out_.sum())), f"dQ/dV of the {what} cell beyond its ends")
        need_close_arr(f["Q_aligned"].to_numpy()[out_], np.where(vg[out_] < full[i0], 0.0, qe),
                       f"charge of the {what} cell beyond its ends", rtol=1e-6, atol=1e-6)
    return {"nontrivial"} if n > 200 and bends(px - z, 0, qe) and bends(nx - z, 0, qe) else set()


# ------------------------------------------------------------------ electrode information

def info_of(q, p, n):
    """by hand: at the place where the full cell is nearest to each level"""
    full = p - n
    pi, ni, fi = np.where(~np.isnan(p))[0], np.where(~np.isnan(n))[0], np.where(~np.isnan(full))[0]
    at_ = {v: fi[np.argmin(np.abs(full[fi] - v))] for v in LEVELS}
    w = {}
    for v, s in zip(LEVELS, LAB):
        i = at_[v]
        w[f"pe_voltage_FC{s}V"], w[f"ne_voltage_FC{s}V"] = p[i], n[i]
        w[f"pe_soc_FC{s}V"] = (q[i] - q[pi].min()) / (q[pi].max() - q[pi].min())
        w[f"ne_soc_FC{s}V"] = (q[i] - q[ni].min()) / (q[ni].max() - q[ni].min())
    w["Q_fc"] = q[at_[4.2]]
    w["Q_pe"], w["Q_ne"], w["Q_li"] = np.ptp(q[pi]), np.ptp(q[ni]), np.ptp(q[fi])
    return w


def electrodes(c, x):
    g, pv, nv, full, i0, i1, k = cell(c, x)
    q = g - g[i0]
    return pd.DataFrame(dict(SOC_aligned=GRID, Voltage_aligned=pv, Q_aligned=q)), \
        pd.DataFrame(dict(SOC_aligned=GRID, Voltage_aligned=nv, Q_aligned=q))


def run_info(c):
    from beep.features.intracell_analysis_v2 import get_electrode_info_ah
    from beep.features.intracell_analysis import get_halfcell_voltages
    pe, ne = electrodes(c, c["x"])
    keep = pe.copy(), ne.copy()
    df = get_electrode_info_ah(pe, ne)
    q, p, n = pe["Q_aligned"].to_numpy(), pe["Voltage_aligned"].to_numpy(), ne["Voltage_aligned"].to_numpy()
    w = info_of(q, p, n)
    need_eq(list(df.columns), INFO, "names of the electrode information")
    need_eq(len(df), 1, "rows of the electrode information")
    for k in INFO:
        need_close(df[k].iloc[0], w[k], k, rtol=1e-9, atol=1e-9)
    frames_equal(pe, keep[0], "positive electrode afterwards")
    frames_equal(ne, keep[1], "negative electrode afterwards")
    # the older analysis, same quantities at 4.2 and 2.7 V on a percent axis
    a = pe.assign(SOC_aligned=q * 20)[["SOC_aligned", "Voltage_aligned"]]
    b = ne.assign(SOC_aligned=q * 20)[["SOC_aligned", "Voltage_aligned"]]
    r = get_halfcell_voltages(a, b)
    full = p - n
    fi = np.where(~np.isnan(full))[0]
    u, l = (fi[np.argmin(np.abs(full[fi] - v))] for v in (4.2, 2.7))
    want = [p[u], p[l], w["pe_soc_FC4p2V"] * 100, w["pe_soc_FC2p7V"] * 100, w["Q_pe"] * 20, n[u], n[l],
            w["ne_soc_FC4p2V"] * 100, w["ne_soc_FC2p7V"] * 100, w["Q_ne"] * 20, q[u] * 20, q[l] * 20, w["Q_li"] * 20]
    need_close_arr(list(r), want, "half-cell voltages (upper, lower voltage, SOC and mass of both electrodes, SOC, lithium)", rtol=1e-9, atol=1e-9)
    s = {w[k] for k in INFO}
    return {"nontrivial"} if len(s) > 40 else set()


# ------------------------------------------------------------------ blends

@st.composite
def blend_case(draw):
    a = draw(ne_knots())
    b, d = draw(ne_knots()), draw(ne_knots())
    for k in (b, d):
        k["a"], k["b"] = a["a"], a["b"]
    return dict(ne=a, pos=b, neg=d, pe=draw(pe_knots()), frac=draw(st.integers(-20, 20)) / 20.0, only=draw(st.integers(0, 4)) == 3,
                none=draw(st.integers(0, 7)) == 5, x=draw(sizes()))


def run_blend(c):
    import beep.features.intracell_analysis as m1
    import beep.features.intracell_analysis_v2 as m2
    e1, pos, neg = frame(c["ne"]), frame(c["pos"]), frame(c["neg"])
    if c["only"]:
        neg = pd.DataFrame()
    if c["none"]:
        pos = neg = pd.DataFrame()
    other = c["pos"] if c["frac"] > 0 or c["only"] else c["neg"]
    x = 0.0 if c["none"] else abs(c["frac"])
    keep = [f.copy() for f in (e1, pos, neg)]
    v = np.linspace(c["ne"]["b"], c["ne"]["a"], 20001)
    s1, s2 = (np.interp(v, pts(k)[1][::-1], pts(k)[0][::-1]) for k in (c["ne"], other))
    for m in (m1, m2):
        f = m.blend_electrodes(e1, pos, neg, c["frac"])
        need_eq(len(f), N, "length of the blend")
        # capacity at a voltage is the sum of the shares of both
        s = np.interp(f["Voltage_aligned"].dropna(), v, (1 - x) * s1 + x * s2)
        got = f["SOC_aligned"][f["Voltage_aligned"].notna()].to_numpy()
        need(len(got) >= N - 2, "blend has {} values", len(got))
        d = np.abs(got - s)
        lim = 0.45
        need(d.max() < lim, "blend with {} of the second electrode: {} of capacity at {} V, the shares make {}", c["frac"], got[d.argmax()],
             f["Voltage_aligned"].dropna().iloc[d.argmax()], s[d.argmax()])
        for a, b in zip((e1, pos, neg), keep):
            frames_equal(a, b, "electrode afterwards")
    return {"nontrivial", "pos" if c["frac"] > 0 or c["only"] else "neg"} if x not in (0.0, 1.0) else {"pure"}


# ------------------------------------------------------------------ structured runs

@contextlib.contextmanager
def visiting(points):
    """an optimiser that visits the given points and returns the best"""
    import scipy.optimize as so
    import beep.features.intracell_analysis as m1
    import beep.features.intracell_analysis_v2 as m2
    calls = []

    def search(func, bounds, args=(), **kw):
        b = [tuple(t) for t in (zip(bounds.lb, bounds.ub) if hasattr(bounds, "lb") else bounds)]
        todo = [p for p in points(len(b)) if all(lo - 1e-9 <= v <= hi + 1e-9 for v, (lo, hi) in zip(p, b))]
        need(todo, "the bounds {} leave out every usual cell", b)
        vals = [float(func(np.array(p, dtype=float), *args)) for p in todo]
        k = int(np.argmin(vals))
        calls.append((b, vals))
        return so.OptimizeResult(x=np.array(todo[k], dtype=float), fun=vals[k], success=True, message="", nfev=len(vals), nit=1)

    old = [(m, m.differential_evolution) for m in (so, m1, m2) if hasattr(m, "differential_evolution")]
    for m, _ in old:
        m.differential_evolution = search
    try:
        yield calls
    finally:
        for m, f in old:
            m.differential_evolution = f


@st.composite
def run_case(draw):
    n = draw(st.integers(1, 4))
    c = dict(pe=draw(pe_knots()), ne=draw(ne_knots()), cells=[draw(sizes()) for _ in range(n)], seed=draw(st.integers(0, 10**6)),
             type=draw(st.sampled_from(["rpt_0.2C", "rpt_0.2C", "rpt_1C"])), error=draw(st.sampled_from(["V-Q", "dVdQ", "dQdV"])),
             gap=draw(st.integers(3, 40)), n=draw(st.integers(120, 300)), dead=draw(st.integers(0, 4)) == 3,
             given=draw(st.booleans()), above=draw(st.booleans()))
    return c


def datapath(c, profiles, low=0.0):
    """diagnostics with the given charge profiles in cycles of c['type'], different ones elsewhere"""
    from props.c14 import base
    rng = np.random.RandomState(c["seed"])
    rows, summ, cycles = [], [], []
    ix = int(rng.randint(1, 4))
    for k, (q, v) in enumerate(profiles):
        for ty in ["reset", "rpt_0.2C", "rpt_1C"]:
            own = ty == c["type"]
            qq, vv = (q, v) if own else (np.linspace(0, 3, 50), np.linspace(2.9, 4.15, 50) - 0.01 * k)
            if own:
                cycles.append(ix)
                if c.get("above"):       # the constant-voltage end of the charge
                    qq = np.concatenate([qq, qq[-1] + np.linspace(0.01, 0.2, 5)])
                    vv = np.concatenate([vv, np.full(5, 4.2)])
            for si, (a, b, ch) in enumerate([(qq, vv, 0), (qq * 0.98, vv[::-1] - 0.05, 1)]):
                rows.append(pd.DataFrame(dict(
                    voltage=b, charge_capacity=a if ch == 0 else qq[-1], discharge_capacity=a if ch == 1 else 0.0,
                    current=1.0 if ch == 0 else -1.0, test_time=np.arange(len(a)) + 1000.0 * len(rows), cycle_index=ix,
                    cycle_type=ty, step_index=si + 1, step_index_counter=si + 1, step_type=ch)))
            summ.append(dict(cycle_index=ix, cycle_type=ty, discharge_capacity=qq[-1] * 0.98, charge_capacity=qq[-1], paused=0))
            ix += 1
        ix += c["gap"]
    dp = base()
    dp.diagnostic_data = pd.concat(rows, ignore_index=True)
    dp.diagnostic_summary = pd.DataFrame(summ)
    for f in (dp.diagnostic_data, dp.diagnostic_summary):
        f["cycle_type"] = f["cycle_type"].astype("category")
        f["cycle_index"] = f["cycle_index"].astype("int32")
    dp.structured_summary = pd.DataFrame(dict(cycle_index=[0], discharge_capacity=[1.0]))
    dp.structured_data = pd.DataFrame(dict(cycle_index=[0], voltage=[3.0]))
    if c.get("dead"):
        # a failed diagnostic: no discharge at all
        i = dp.diagnostic_summary.index[dp.diagnostic_summary.cycle_index == cycles[-1]][0]
        dp.diagnostic_summary.loc[i, "discharge_capacity"] = low
    return dp, cycles


def charge(c, x):
    """what the cycler would record of the cell x: n points from the first inside the window"""
    g, pv, nv, full, i0, i1, _ = cell(c, x)
    if g[i1] - g[i0] < 0.8 or full[i1] < 3.6:
        raise Reject()
    q = np.linspace(0, g[i1] - g[i0], c["n"])
    return q, np.minimum(np.interp(q, g[i0:i1 + 1] - g[i0], full[i0:i1 + 1]), 4.1999)


def apart(cells):
    for i, a in enumerate(cells):
        for b in cells[:i]:
            if max(abs(a[1] - b[1]), abs(a[2] - b[2])) < 0.3 and abs(a[0] - b[0]) < 0.2:
                return False
    return True


def profile_v2(q, v):
    m = (v < 4.2) & (q > 0)
    q, v = q[m], v[m]
    g = np.linspace(0, q.max(), N)
    return g, np.where(g < q[0], 2.7, np.interp(g, q, v))


def run_profile(c):
    profs = [charge(c, x) for x in c["cells"]]
    dp, cycles = datapath(c, profs)
    keep = dp.diagnostic_data.copy()
    ia, _ = v2(c, cycle_type=c["type"])
    for ix, (q, v) in zip(cycles, profs):
        f = ia.process_beep_cycle_data_for_candidate_halfcell_analysis_ah(dp, ix)
        g, w = profile_v2(q, v)
        need_close_arr(f["Q_aligned"], g, f"charge of the profile of cycle {ix}", rtol=1e-9, atol=1e-9)
        edge = np.abs(g - q[(v < 4.2) & (q > 0)][0]) < 1e-9
        need_close_arr(f["Voltage_aligned"][~edge], w[~edge], f"voltage of the profile of cycle {ix}", rtol=1e-7, atol=1e-7)
    frames_equal(dp.diagnostic_data, keep, "diagnostic data afterwards")
    # the older analysis: state of charge relative to the first such diagnostic
    ia, _ = v1(c, cycle_type=c["type"])
    al, first = ia.process_beep_cycle_data_for_initial_halfcell_analysis(dp)
    q, v = profs[0]
    m = (v < 4.2) & (v > 2.7)
    q0, q1 = q[m].min(), q[m].max()
    need_close_arr(al["SOC_aligned"], GRID, "SOC of the first profile", rtol=1e-9, atol=1e-9)
    ends(al["Voltage_aligned"], at(GRID, (q[m] - q0) / (q1 - q0) * 100, v[m]), "voltage of the first profile")
    need_close_arr(first["SOC"], (q[m] - q0) / (q1 - q0) * 100, "SOC of the first cycle's points", rtol=1e-9, atol=1e-7)
    need_close_arr(first["Voltage"], v[m], "voltage of the first cycle's points", rtol=1e-9, atol=1e-9)
    for ix, (q, v) in zip(cycles, profs):
        f = ia.process_beep_cycle_data_for_candidate_halfcell_analysis(dp, al, first, ix)
        m = (v < 4.2) & (q > 0)
        s = (q[m] - q0) / (q1 - q0) * 100
        g = np.linspace(0, s.max(), N)
        edge = np.abs(g - s[0]) < 1e-7
        need_close_arr(f["Voltage_aligned"][~edge], np.where(g < s[0], 2.7, np.interp(g, s, v[m]))[~edge], f"voltage of cycle {ix} over SOC", rtol=1e-6, atol=1e-6)
        top = GRID[al["Voltage_aligned"].notna().to_numpy()].max()
        need_close_arr(f["SOC_aligned"], g / top * 100, f"SOC of cycle {ix}", rtol=1e-9, atol=1e-7)
    return {"nontrivial", c["type"]} if len(cycles) > 1 else {"one"}


def usual(c, n=4):
    """points within the default bounds, including every cell of the case"""
    return c["cells"] + [[0.5, 4.0, 4.0, 1], [0.1, 5.5, 3.4, 1], [2.0, 5.0, 5.0, 1]]


def run_fit(c):
    """each diagnostic is matched to the cell it was made of"""
    from beep.features.intracell_losses_v2 import IntracellCyclesV2, IntracellFeaturesV2
    if not apart(usual(c)):
        raise Reject()
    profs = [charge(c, x) for x in c["cells"]]
    dp, cycles = datapath(c, profs)
    alive = cycles[:-1] if c["dead"] else cycles
    ia, p = v2(c, cycle_type=c["type"], error_type=c["error"])
    with visiting(lambda n: usual(c)) as calls:
        for ix in cycles:
            bounds = tuple((min(t) - 0.1, max(t) + 0.1) for t in zip(*usual(c))) if c["given"] else None
            loss, prof = ia.intracell_values_wrapper_ah(ix, dp, bounds) if bounds else ia.intracell_values_wrapper_ah(ix, dp)
            need_eq((list(loss), list(prof)), ([ix], [ix]), "cycles of the result")
            if bounds:
                need_eq(len(calls[-1][0]), 4, "number of parameters searched")
                need(all(abs(a - b) < 1e-12 for s, t in zip(calls[-1][0], bounds) for a, b in zip(s, t)), "bounds searched {}, given {}", calls[-1][0], bounds)
            real = ia.process_beep_cycle_data_for_candidate_halfcell_analysis_ah(dp, ix)
            errs = [getattr(ia, TYPES[c["error"]])(u, *p, real)[0] for u in usual(c)]
            check_fit(c, ix, loss[ix], prof[ix], errs, p, ia, real)
    # the synthetic fit finds the cell a profile was simulated from
    with visiting(lambda n: usual(c)):
        for x in c["cells"][:2]:
            em = ia.get_v_over_q_from_degradation_matching_ah_no_real(x, *p)[-1]
            r = ia.solve_emulated_degradation(em)
            need(abs(r.fun) < 1e-9, "error {} for a profile simulated from {}, found {}", r.fun, x, list(r.x))
            need_close_arr(r.x, x, "cell found for a simulated profile")
    # featurizers
    ia, p = v2(c, cycle_type=c["type"])
    d = scratch.new()
    hp = dict(diagnostic_cycle_type=c["type"], step_type=0, anode_file=write(d, "a.csv", c["ne"]), cathode_file=write(d, "c.csv", c["pe"]))
    want = {}
    for ix in cycles:
        real = ia.process_beep_cycle_data_for_candidate_halfcell_analysis_ah(dp, ix)
        errs = [ia._get_error_from_degradation_matching_v_q(u, *p, real)[0] for u in usual(c)]
        k = int(np.argmin(errs))
        x = usual(c)[k]
        pe, ne = electrodes(c, x)
        inf = info_of(pe["Q_aligned"].to_numpy(), pe["Voltage_aligned"].to_numpy(), ne["Voltage_aligned"].to_numpy())
        want[ix] = [errs[k]] + list(x) + [inf[n] for n in INFO]
    with visiting(lambda n: usual(c)):
        features(c, dp, hp, IntracellCyclesV2, IntracellFeaturesV2, V2COLS, want, alive)
    return {"nontrivial", c["error"], "given" if c["given"] else "default"} | ({"dead"} if c["dead"] else set()) \
        if len(cycles) > 1 else {"one"}


def features(c, dp, hp, cyc, feat, cols, want, alive, tol=1e-6):
    f = cyc(dp, hp)
    ok, why = f.validate()
    if not alive:
        need(not ok, "valid without any usable diagnostic")
        return
    need(ok, "not valid: {}", why)
    f.create_features()
    df = f.features
    need_eq(list(df.columns), cols, "columns")
    need_eq([int(i) for i in df.index], list(alive), "cycles featurized")
    for ix in alive:
        need_close_arr(df.loc[ix].tolist(), want[ix], f"features of cycle {ix}", rtol=tol, atol=tol)
    f = feat(dp, hp)
    ok, why = f.validate()
    if len(alive) < 2:
        need(not ok, "features of the first two diagnostics are announced for a run with one")
        return
    need(ok, "not valid: {}", why)
    f.create_features()
    df = f.features
    need_eq(list(df.columns), ["diag_0_" + k for k in cols] + ["diag_1_" + k for k in cols], "columns of the two diagnostics")
    need_eq(len(df), 1, "rows")
    need_close_arr(df.iloc[0].tolist(), list(want[alive[0]]) + list(want[alive[1]]), "features of the first two diagnostics", rtol=tol, atol=tol)


def check_fit(c, ix, row, prof, errs, p, ia, real):
    k = int(np.argmin(errs))
    x = usual(c)[k]
    row = [float(t) for t in row]
    need_eq(len(row), len(V2COLS), "number of values")
    need_close(row[0], errs[k], f"error of the fit of cycle {ix}")
    need_close_arr(row[1:5], x, f"cell found for cycle {ix}")
    pe, ne = electrodes(c, x)
    inf = info_of(pe["Q_aligned"].to_numpy(), pe["Voltage_aligned"].to_numpy(), ne["Voltage_aligned"].to_numpy())
    for name, v in zip(INFO, row[5:]):
        need_close(v, inf[name], f"{name} of cycle {ix}", rtol=1e-6, atol=1e-6)
    need_close_arr(prof["PE_zeroed"]["Q_aligned"], pe["Q_aligned"], "charge of the fitted positive electrode", rtol=1e-7, atol=1e-7)
    ends(prof["PE_zeroed"]["Voltage_aligned"], pe["Voltage_aligned"], "voltage of the fitted positive electrode")
    ends(prof["NE_zeroed"]["Voltage_aligned"], ne["Voltage_aligned"], "voltage of the fitted negative electrode")
    frames_equal(prof["real_cell_candidate_charge_profile_aligned"][real.columns], real, "measured profile", rtol=1e-7, atol=1e-7)
    o = ia.get_dqdv_over_v_from_degradation_matching_ah(x, *p, real)
    for name, f in zip(["dQdV_over_v_real", "dQdV_over_v_emulated", "df_real_interped", "emulated_full_cell_interped"], o[2:]):
        frames_equal(prof[name], f, name, rtol=1e-7, atol=1e-7)


# ------------------------------------------------------------------ the older analysis

@st.composite
def loss_case(draw):
    n = draw(st.integers(1, 3))
    return dict(pe=draw(knots((285, 330), (425, 440))), ne=draw(ne_knots()),
                init=[draw(st.integers(90, 115)) / 100.0, float(draw(st.integers(-12, 3)))], seed=draw(st.integers(0, 10**6)),
                loss=[[draw(st.integers(-8, 30)), draw(st.integers(-8, 30)), draw(st.integers(-8, 30)), 1, 0.1, 0.1] for _ in range(n)],
                type=draw(st.sampled_from(["rpt_0.2C", "rpt_0.2C", "rpt_1C"])), n=draw(st.integers(150, 300)), gap=draw(st.integers(3, 40)),
                dead=draw(st.integers(0, 4)) == 3, above=False, cap=draw(st.integers(90, 130)) / 20.0)


def degraded(pe, ne, lli, lpe, lne):
    """electrodes (SOC, V) after the losses, by hand -> grid, pe, ne"""
    ps, pv = pe["SOC_aligned"].to_numpy(), pe["Voltage_aligned"].to_numpy()
    ns, nv = ne["SOC_aligned"].to_numpy(), ne["Voltage_aligned"].to_numpy()
    full = pv - nv
    fi = np.where(~np.isnan(full))[0]
    up = ps[fi[np.argmin(np.abs(full[fi] - 4.2))]]
    lo = ns[fi[np.argmin(np.abs(full[fi] - 2.7))]]
    ps = up + (ps - up) * (1 - lpe / 100)                 # shrinks towards the charged end
    ns = lo + (ns - lo) * (1 - lne / 100) + lli           # shrinks towards the discharged end, shifts with the lithium lost
    g = np.linspace(min(ps.min(), ns.min()), max(ps.max(), ns.max()), N)

    def put(s, v):
        m = ~np.isnan(v)
        return at(g, s[m], v[m])
    return g, put(ps, pv), put(ns, nv)


def run_losses(c):
    ia, p = v1(c)
    pe, ne = p[0], p[1]
    lab = set()
    for lo in c["loss"]:
        a, b = ia._impose_degradation(pe, ne, pd.DataFrame(), pd.DataFrame(), lo[0], lo[1], lo[2], 1)
        g, pv, nv = degraded(pe, ne, *lo[:3])
        need_close_arr(a["SOC_aligned"], g, "SOC axis", rtol=1e-9, atol=1e-7)
        need_close_arr(b["SOC_aligned"], g, "SOC axis of the negative electrode", rtol=1e-9, atol=1e-7)
        ends(a["Voltage_aligned"], pv, f"positive electrode after losses {lo[:3]}")
        ends(b["Voltage_aligned"], nv, f"negative electrode after losses {lo[:3]}")
        full = pv - nv
        fi = np.where(~np.isnan(full))[0]
        if len(fi) < 50:
            continue
        z = g[np.where((a["Voltage_aligned"] - b["Voltage_aligned"]).notna())[0][0]]    # an edge may be lost to rounding
        if lo[1] and lo[2] and lo[0]:
            lab.add("nontrivial")
        # the profile of this cell fits its own losses exactly
        real = pd.DataFrame(dict(SOC_aligned=a["SOC_aligned"] - z, Voltage_aligned=a["Voltage_aligned"] - b["Voltage_aligned"]))
        e0 = ia._get_error_from_degradation_matching(lo, pe, ne, pd.DataFrame(), pd.DataFrame(), real)
        need(e0 < 0.0025, "error {} at the losses {} the cell has", e0, lo[:3])
        other = [lo[0] + 7, lo[1] + 5, lo[2], 1, 0.1, 0.1]
        e1 = ia._get_error_from_degradation_matching(other, pe, ne, pd.DataFrame(), pd.DataFrame(), real)
        a2, b2 = ia._impose_degradation(pe, ne, pd.DataFrame(), pd.DataFrame(), other[0], other[1], other[2], 1)
        g2, f2 = a2["SOC_aligned"].to_numpy(), (a2["Voltage_aligned"] - b2["Voltage_aligned"]).to_numpy()
        f2i = np.where(~np.isnan(f2))[0]
        if len(f2i) > 50:
            rs, rv = real["SOC_aligned"].to_numpy(), real["Voltage_aligned"].to_numpy()
            rs, rv = rs[~np.isnan(rv)], rv[~np.isnan(rv)]
            q = np.linspace(rs[0], rs[-1], N)
            e = at(q, g2[f2i] - g2[f2i[0]], f2[f2i])
            r = np.interp(q, rs, rv)
            m = ~np.isnan(e)
            want = np.sqrt(((r[m] - e[m]) ** 2).sum()) + 0.001 * (~m).sum()
            need(abs(e1 - want) < 1e-5 * want + 5e-3, "error of the losses {} is {}, expected {}", other[:3], e1, want)
        (pc, nc, re, em) = ia.halfcell_degradation_matching_v3(lo, pe, ne, pd.DataFrame(), pd.DataFrame(), real)
        need_close_arr(pc["SOC_aligned"], g - z, "SOC of the centred electrodes", rtol=1e-9, atol=1e-6)
        need_close_arr(nc["SOC_aligned"], g - z, "SOC of the centred electrodes", rtol=1e-9, atol=1e-6)
    return lab


def matched(c):
    """the electrodes of the fresh cell on its own SOC axis (2.7 V at 0, 4.2 V at 100), by hand"""
    px, py = pts(c["pe"])
    nx, ny = pts(c["ne"])
    px = px * c["init"][0] + c["init"][1]
    g = np.linspace(min(px[0], nx[0]), max(px[-1], nx[-1]), N)
    p, n = at(g, px, py), at(g, nx, ny)
    full = p - n
    fi = np.where(~np.isnan(full))[0]
    if not len(fi) or full[fi].max() < 4.2 or full[fi].min() > 2.7:
        raise Reject()
    z = g[fi[np.argmin(np.abs(full[fi] - 2.7))]]
    win = np.where((full >= 2.7) & (full <= 4.2))[0]
    if len(win) < 200:
        raise Reject()
    s = (g - z) / (g[win[-1]] - z) * 100
    return s, p, n, full, win


def run_initial(c):
    ia, p = v1(c)
    s, pv, nv, full, win = matched(c)
    real = pd.DataFrame(dict(SOC_aligned=GRID, Voltage_aligned=np.linspace(2.8, 4.19, N)))
    pe, ne, re, em = ia.halfcell_initial_matching_v2(c["init"] + [1.0, 0.1, 0.1], real, *p)
    need_close_arr(pe["SOC_aligned"], s, "SOC of the matched electrodes", rtol=1e-7, atol=1e-7)
    need_close_arr(ne["SOC_aligned"], s, "SOC of the matched electrodes", rtol=1e-7, atol=1e-7)
    ends(pe["Voltage_aligned"], pv, "matched positive electrode")
    ends(ne["Voltage_aligned"], nv, "matched negative electrode")
    need_close_arr(re["Voltage_aligned"], np.linspace(2.8, 4.19, N), "measured cell", rtol=1e-7, atol=1e-7)
    need_close_arr(em["SOC_aligned"], GRID, "SOC of the emulated cell", rtol=1e-9, atol=1e-7)
    m = (GRID > s[win[2]]) & (GRID < s[win[-3]])
    d = np.abs(em["Voltage_aligned"].to_numpy() - np.interp(GRID, s[win], full[win]))[m]
    need(d.max() < 0.01, "emulated cell is {} V away from the difference of its electrodes", d.max())
    mine = pd.DataFrame(dict(SOC_aligned=GRID, Voltage_aligned=em["Voltage_aligned"]))
    e0 = ia._get_error_from_halfcell_initial_matching(c["init"] + [1.0, 0.1, 0.1], mine, *p)
    need(e0 < 1e-6, "error {} at the cell's own alignment", e0)
    return {"nontrivial"} if c["init"][1] and c["init"][0] != 1 else set()


def run_fit1(c):
    from beep.features.intracell_losses import IntracellCycles, IntracellFeatures
    s, pv, nv, full, win = matched(c)
    pe, ne = pd.DataFrame(dict(SOC_aligned=s, Voltage_aligned=pv)), pd.DataFrame(dict(SOC_aligned=s, Voltage_aligned=nv))
    fi = np.where((full >= 2.7) & (full <= 4.2))[0]
    profs = []
    q = np.linspace(0, c["cap"], c["n"])
    profs.append((q, np.clip(np.interp(q / c["cap"] * 100, s[fi], full[fi]), 2.7001, 4.1999)))
    for lo in c["loss"]:
        g, p_, n_ = degraded(pe, ne, *lo[:3])
        f = p_ - n_
        ok = np.where((f >= 2.7) & (f <= 4.2))[0]
        if len(ok) < 100 or f[ok[0]] > 2.9:
            raise Reject()
        first = np.where(~np.isnan(f))[0][0]
        qc = (g - g[first]) / 100 * c["cap"]
        w = np.linspace(qc[ok[0]], qc[ok[-1]], c["n"])
        profs.append((w, np.clip(np.interp(w, qc[ok], f[ok]), 2.7001, 4.1999)))
    low = 4.84 * 0.7
    if min(q[-1] for q, _ in profs) * 0.98 < low + 0.05:
        raise Reject()
    dp, cycles = datapath(c, profs, low=low - 0.3)
    alive = cycles[:-1] if c["dead"] else cycles
    inits = [c["init"] + [1, 0.1, 0.1], [0.85, -15.0, 1, 0.1, 0.1], [1.19, 15.0, 1, 0.1, 0.1]]
    losses = [[0, 0, 0, 1, 0.1, 0.1]] + c["loss"] + [[20, 2, 40, 1, 0.1, 0.1]]
    d = scratch.new()
    hp = dict(diagnostic_cycle_type=c["type"], step_type=0, anode_file=write(d, "a.csv", c["ne"]), cathode_file=write(d, "c.csv", c["pe"]))
    ia, p = v1(c, cycle_type=c["type"])
    with visiting(lambda n: inits if n == 5 else losses):
        al, first, pm, nm = ia.intracell_wrapper_init(dp)
        want = {}
        # the same steps one at a time, best of the points
        errs = [ia._get_error_from_halfcell_initial_matching(x, al, *p) for x in inits]
        o = ia.halfcell_initial_matching_v2(inits[int(np.argmin(errs))], al, *p)
        frames_equal(pm, o[0], "matched positive electrode", rtol=1e-9, atol=1e-9)
        frames_equal(nm, o[1], "matched negative electrode", rtol=1e-9, atol=1e-9)
        for ix in cycles:
            prof = ia.process_beep_cycle_data_for_candidate_halfcell_analysis(dp, al, first, ix)
            errs = [ia._get_error_from_degradation_matching(x, pm, nm, pd.DataFrame(), pd.DataFrame(), prof) for x in losses]
            x = losses[int(np.argmin(errs))]
            a, b = ia.halfcell_degradation_matching_v3(x, pm, nm, pd.DataFrame(), pd.DataFrame(), prof)[:2]
            inf = info_of(a["SOC_aligned"].to_numpy(), a["Voltage_aligned"].to_numpy(), b["Voltage_aligned"].to_numpy())
            want[ix] = list(x) + [inf["pe_voltage_FC4p2V"], inf["pe_voltage_FC2p7V"], inf["pe_soc_FC4p2V"] * 100, inf["pe_soc_FC2p7V"] * 100,
                                  inf["Q_pe"], inf["ne_voltage_FC4p2V"], inf["ne_voltage_FC2p7V"], inf["ne_soc_FC4p2V"] * 100,
                                  inf["ne_soc_FC2p7V"] * 100, inf["Q_ne"], inf["Q_li"]]
            loss, prf = ia.intracell_values_wrapper(ix, dp, al, first, pm, nm)
            need_eq((list(loss), list(prf)), ([ix], [ix]), "cycles of the result")
            need_close_arr(loss[ix], want[ix], f"values of cycle {ix} {V1COLS}", rtol=1e-5, atol=1e-5)
            frames_equal(prf[ix], prof, "profile", rtol=1e-9, atol=1e-9)
        features(c, dp, hp, IntracellCycles, IntracellFeatures, V1COLS, want, alive, tol=1e-5)
    found = [want[ix][:3] for ix in cycles[1:]]
    n = sum(f == lo[:3] for f, lo in zip(found, c["loss"]))
    return {"nontrivial"} | ({"found"} if n == len(c["loss"]) else {"other-point"}) | ({"dead"} if c["dead"] else set())


SUBS = [
    Sub("scale", cell_case, run_scale, 500, 10000),
    Sub("forward", cell_case, run_forward, 300, 6000),
    Sub("match", match_case, run_match, 120, 3000),
    Sub("error", cell_case, run_error, 60, 2000, shards=2),
    Sub("slopes", cell_case, run_slopes, 150, 3000),
    Sub("info", cell_case, run_info, 60, 1500, shards=2),
    Sub("blend", blend_case, run_blend, 250, 5000),
    Sub("profile", run_case, run_profile, 120, 2500),
    Sub("fit", run_case, run_fit, 36, 900, shards=2),
    Sub("losses", loss_case, run_losses, 150, 3000),
    Sub("initial", loss_case, run_initial, 200, 4000),
    Sub("fit1", loss_case, run_fit1, 40, 900, shards=2),
]
