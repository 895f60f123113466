"""The cycle summary equals per-cycle aggregates recomputed row by row."""
import datetime as dt
import math

from hypothesis import strategies as st

from vlib import runs
from vlib.core import Sub, need, need_close, need_eq, isnan, Violation

PROPERTY = "C03"
RULE = ("a synthetic run of 1-6 cycles (pauses, missing temperatures or resistances, diagnostic cycles, drawn "
        "thresholds) summarised and compared column by column with a plain-Python reference; non-trivial when "
        "at least two regular cycles were summarised")
ASSUMPTIONS = ["within a cycle samples are in time order",
               "a constant-voltage segment may start at the first constant-voltage sample or the sample before it",
               "cycles whose charge has no constant-voltage interval are not judged on their CV columns",
               "the incomplete-last-cycle rule is judged only when the last recorded cycle is a regular one"]


@st.composite
def case(draw):
    r = draw(runs.run(1, 6, nmax=7, ties=draw(st.booleans())))
    for c in r["cycles"]:
        for s in c["steps"]:
            if draw(st.integers(0, 5)) == 0:
                s["pause"] = draw(st.sampled_from([3000, 3599, 3600, 3601, 5000, 90000]))
    n = len(r["cycles"])
    diag = []
    if n > 2 and draw(st.booleans()):
        diag = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n - 2, unique=True))
    last = draw(st.sampled_from(["asis", "complete", "short", "complete", "short", "edge", "nearly", "low"]))
    return dict(run=r, diag=diag, last=last,
                temp=draw(st.integers(0, 3)) > 0, ir=draw(st.integers(0, 3)) > 0,
                nan_t=draw(st.lists(st.integers(0, 60), max_size=3)) if draw(st.integers(0, 3)) == 2 else [],
                nan_ir=draw(st.lists(st.integers(0, 60), max_size=6)),
                nom=draw(st.sampled_from([0.05, 0.1, 0.2, 1.1])), ffc=draw(st.sampled_from([0.8, 0.5, 1.0])),
                err=draw(st.sampled_from([1e6, 1e6, 0.5, 0.1])),
                api=draw(st.sampled_from(["structure", "summarize"])))


def parse(s):
    return dt.datetime.fromisoformat(s)


def secs(a, b):
    return (parse(b) - parse(a)).total_seconds()


def ref_row(rows, nom, ffc):
    o = {}
    o["cycle_index"] = rows[0]["cycle_index"]
    for c in ("discharge_capacity", "charge_capacity", "discharge_energy", "charge_energy"):
        o[c] = max(r[c] for r in rows)
    ir = [r["internal_resistance"] for r in rows if not isnan(r.get("internal_resistance", math.nan))]
    o["dc_internal_resistance"] = ir[-1] if ir else math.nan
    t = [r["temperature"] for r in rows if not isnan(r.get("temperature", math.nan))]
    o["temperature_maximum"] = max(t) if t else math.nan
    o["temperature_minimum"] = min(t) if t else math.nan
    o["temperature_average"] = sum(t) / len(t) if t else math.nan
    o["date_time_iso"] = rows[0]["date_time_iso"]
    o["energy_efficiency"] = o["discharge_energy"] / o["charge_energy"] if o["charge_energy"] else math.nan
    fin = [r for r in rows if r["charge_capacity"] >= nom * ffc]
    o["charge_duration"] = secs(rows[0]["date_time_iso"], fin[0]["date_time_iso"]) if fin else math.nan
    if t and len(t) < len(rows):
        o["time_temperature_integrated"] = math.nan
    elif t:
        acc = 0.0
        for a, b in zip(rows, rows[1:]):
            acc += secs(a["date_time_iso"], b["date_time_iso"]) / 60 * (a["temperature"] + b["temperature"]) / 2
        o["time_temperature_integrated"] = acc
    else:
        o["time_temperature_integrated"] = math.nan if len(rows) > 1 else 0.0
    gaps = [secs(a["date_time_iso"], b["date_time_iso"]) for a, b in zip(rows, rows[1:])]
    o["paused"] = max(gaps) if gaps and max(gaps) > 3600 else 0
    return o


def cv_candidates(rows):
    """-> list of admissible (time, current, capacity), or None when nothing is asserted"""
    chg = [r for r in rows if r["current"] > 0]
    if not chg:
        return [(math.nan, math.nan, math.nan)]
    for i, (a, b) in enumerate(zip(chg, chg[1:])):
        d_t = b["test_time"] - a["test_time"]
        if d_t < 1:
            continue
        dv, di = abs((b["voltage"] - a["voltage"]) / d_t), abs((b["current"] - a["current"]) / d_t)
        if dv <= 1e-5 and di >= 1e-4:
            out = []
            for j in (i - 1, i):
                if j < 0:
                    continue
                out.append((chg[-1]["test_time"] - chg[j]["test_time"], chg[-1]["current"],
                            chg[-1]["charge_capacity"] - chg[j]["charge_capacity"]))
            return out
    return None


def borderline(rows):
    chg = [r for r in rows if r["current"] > 0]
    for a, b in zip(chg, chg[1:]):
        d_t = b["test_time"] - a["test_time"]
        if d_t <= 0:
            continue
        dv, di = abs((b["voltage"] - a["voltage"]) / d_t), abs((b["current"] - a["current"]) / d_t)
        if abs(dv - 1e-5) < 1e-12 or abs(di - 1e-4) < 1e-12:
            return True
    return False


def build(c):
    r = c["run"]
    df = runs.expand(r, temperature=c["temp"], ir=c["ir"])
    if c["ir"]:
        for i in c["nan_ir"]:
            if i < len(df):
                df.loc[i, "internal_resistance"] = math.nan
    if c["temp"]:
        for i in c["nan_t"]:
            if i < len(df):
                df.loc[i, "temperature"] = math.nan
    lix = r["cycles"][-1]["ix"]
    m = df.cycle_index == lix
    if c["last"] != "asis":
        # force the last cycle to look complete / cut short
        rows = df.index[m]
        # limits of a finished cycle: the voltage passes 3.3 V both ways and 97 % of the charge comes out again
        ratio = {"complete": 0.98, "edge": 0.98, "low": 0.98, "nearly": 0.96, "short": 0.5}[c["last"]]
        if c["last"] in ("edge", "low"):
            df.loc[m, "voltage"] = df.loc[m, "voltage"].clip(3.3 if c["last"] == "edge" else 3.0, None if c["last"] == "edge" else 3.3)
        df.loc[rows[0], "voltage"] = {"short": 3.4, "edge": 3.3}.get(c["last"], 2.9)
        if c["last"] != "low":
            df.loc[rows[-1], "voltage"] = 3.9
        q = max(df.loc[m, "charge_capacity"].max(), 0.01)
        if c["last"] in ("nearly", "edge", "low"):
            q = max(q, round(df.loc[m, "discharge_capacity"].max() / ratio, 6))
        df.loc[rows[-1], "charge_capacity"] = q
        df.loc[rows[-1], "discharge_capacity"] = max(df.loc[m, "discharge_capacity"].max(), q * ratio)
    return df


def run(c):
    df = build(c)
    dp = runs.datapath(df)
    diag_ix = [c["run"]["cycles"][i]["ix"] for i in c["diag"]]
    if diag_ix:
        from beep.structure.diagnostic import DiagnosticConfig
        dp.diagnostic = DiagnosticConfig({"hppc": diag_ix})
    thr = 1e6
    if c["api"] == "structure":
        dp.structure(resolution=4, diagnostic_resolution=4, charge_axis="test_time", discharge_axis="test_time",
                     nominal_capacity=c["nom"], full_fast_charge=c["ffc"])
        s = dp.structured_summary
    else:
        thr = c["err"]
        s = dp.summarize_cycles(nominal_capacity=c["nom"], full_fast_charge=c["ffc"], error_threshold=thr)
    by = {}
    for row in df.to_dict("records"):
        by.setdefault(row["cycle_index"], []).append(row)
    ref = []
    q = e = 0.0
    for ix in sorted(by):
        if ix in diag_ix:
            continue
        o = ref_row(by[ix], c["nom"], c["ffc"])
        for k in ("discharge_energy", "charge_energy"):
            if abs(o[k]) > thr:
                o[k] = math.nan
        q += o["charge_capacity"]
        o["charge_throughput"] = q
        if not isnan(o["charge_energy"]):
            e += o["charge_energy"]
            o["energy_throughput"] = e
        else:
            o["energy_throughput"] = math.nan
        ref.append(o)
    labels = set()
    n_all = len(ref)
    lix = max(by)
    last = ref[-1]
    if n_all > 1:
        lv = [r["voltage"] for r in by[lix]]
        complete = min(lv) < 3.3 < max(lv) and last["discharge_capacity"] > 0.97 * last["charge_capacity"]
        edge = abs(last["discharge_capacity"] - 0.97 * last["charge_capacity"]) < 1e-9
        if lix in diag_ix or edge:
            need(len(s) in (n_all, n_all - 1), f"{len(s)} summary rows for {n_all} regular cycles")
        else:
            need_eq(len(s), n_all if complete else n_all - 1,
                    f"summary rows (last cycle {'complete' if complete else 'incomplete'})")
            labels.add("last_" + ("complete" if complete else "incomplete"))
    else:
        need_eq(len(s), 1, "summary rows of a single-cycle run")
    recs = s.to_dict("records")
    for o, g in zip(ref, recs):
        ix = o["cycle_index"]
        need_eq(int(g["cycle_index"]), ix, "cycle_index")
        for k, v in o.items():
            if k in ("cycle_index",):
                continue
            if k == "date_time_iso":
                need_eq(g[k], v, f"cycle {ix} start time")
                continue
            if k == "charge_duration":
                need_close(g[k], v, f"cycle {ix} {k}", rtol=1e-6, atol=0.02)
                continue
            need_close(g[k], v, f"cycle {ix} {k}", rtol=3e-6, atol=1e-7)
        cand = cv_candidates(by[ix])
        if cand is not None and not borderline(by[ix]):
            got = (g["CV_time"], g["CV_current"], g["CV_capacity"])
            ok = any(all((isnan(a) and isnan(b)) or (not isnan(a) and not isnan(b) and abs(a - b) <= 2e-5 * max(1, abs(b)))
                         for a, b in zip(got, x)) for x in cand)
            need(ok, f"cycle {ix}: constant-voltage segment (time, current, capacity) {got}, admissible {cand}")
            labels.add("cv" if not isnan(cand[0][0]) else "no_charge")
        if o["paused"]:
            labels.add("paused")
        if not isnan(o["charge_duration"]):
            labels.add("charge_duration")
    if len(recs) > 1:
        labels.add("nontrivial")
    if diag_ix:
        labels.add("with_diagnostic")
    return labels


SUBS = [Sub("summary", case, run, quick=900, thorough=12000, shards=6, shards_thorough=8)]
