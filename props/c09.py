"""Maccor ingestion: values preserved, per-cycle accumulated capacities and energies, UTC times, metadata."""
import datetime as dt
import os

import numpy as np
from hypothesis import strategies as st

from vlib import scratch
from vlib.core import Sub, need, need_close, need_eq

PROPERTY = "C09"
RULE = ("generated Maccor exports (1-10 steps over several cycles, charge / discharge / rest / waveform states, end "
        "codes, possibly cut off mid-step) loaded and compared row by row with a reference accumulation; non-trivial "
        "when a cycle has at least two steps of one state or the file ends inside a step that starts a cycle")
ASSUMPTIONS = ["consecutive steps have different step numbers", "local times that daylight saving skips do not occur",
               "within a step the recorded amp-hours start from zero"]

HEAD = ["Rec#", "Cyc#", "Step", "Test (Sec)", "Step (Sec)", "Amp-hr", "Watt-hr", "Amps", "Volts", "State", "ES",
        "DPt Time", "ACImp/Ohms", "DCIR/Ohms", "WF Chg Cap", "WF Dis Cap", "WF Chg E", "WF Dis E", "Range"] + \
       [f"VAR{i}" for i in range(1, 16)]

NAMES = ["PreDiag_000412_00008F", "xTESLADIAG_000020_CH71", "Talos_001385_NCR", "other_000001", "PredictionDiagnostics_000151"]


@st.composite
def case(draw):
    ix = draw(st.integers(0, 2))
    steps, prev = [], None
    n = draw(st.integers(1, 10))
    wf = draw(st.integers(0, 2)) == 0
    for i in range(n):
        if i and draw(st.integers(0, 2)) == 0:
            ix += draw(st.integers(1, 2))
        si = draw(st.integers(1, 7).filter(lambda x: x != prev))
        prev = si
        k = draw(st.sampled_from(["C", "D", "R", "C", "D", "P"] + (["W"] if wf else [])))
        rows = draw(st.integers(1, 5))
        steps.append(dict(ix=ix, si=si, k=k,
                          dq=draw(st.lists(st.integers(0, 900), min_size=rows, max_size=rows)),
                          dw=draw(st.lists(st.integers(0, 900), min_size=rows, max_size=rows)),
                          dt=draw(st.lists(st.integers(1, 5000), min_size=rows, max_size=rows)),
                          v=draw(st.integers(2000, 4400)), i=draw(st.integers(0, 5000)),
                          end=draw(st.sampled_from([128, 130, 132, 133, 200, 255])),
                          mid=draw(st.sampled_from([0, 1, 5, 7, 127]))))
    y = draw(st.integers(2010, 2022))
    t0 = draw(st.sampled_from([f"{y}-03-12T23:50:00", f"{y}-11-04T22:00:00", f"{y}-07-01T12:00:00", f"{y}-12-31T23:59:00",
                               f"{y}-01-15T08:30:00", f"{nth_sunday(y, 11, 1)}T00:50:00"]))
    return dict(steps=steps, t0=t0, cut=draw(st.booleans()), name=draw(st.sampled_from(NAMES)),
                ext=draw(st.sampled_from(["010", "092", "000", "7", "txt", "105"])),
                bar=draw(st.text("ABCDEF0123456789_", min_size=1, max_size=8)),
                short=draw(st.booleans()), loops=draw(st.booleans()), upper=draw(st.booleans()))


def nth_sunday(y, m, n):
    d = dt.date(y, m, 1)
    d += dt.timedelta(days=(6 - d.weekday()) % 7 + 7 * (n - 1))
    return d


def to_utc(t):
    """US Pacific wall time -> UTC; ambiguous autumn hour read as daylight saving"""
    a = dt.datetime.combine(nth_sunday(t.year, 3, 2), dt.time(2))
    b = dt.datetime.combine(nth_sunday(t.year, 11, 1), dt.time(2))
    if a <= t < a + dt.timedelta(hours=1):
        return None
    off = 7 if a <= t < b else 8
    return t + dt.timedelta(hours=off)


def table(c):
    rows, t, rec = [], 0.0, 0
    wall = dt.datetime.fromisoformat(c["t0"])
    ref = []
    acc = {}
    cyc = None
    for si, s in enumerate(c["steps"]):
        q = w = 0.0
        if s["ix"] != cyc:
            cyc = s["ix"]
            acc = dict(C=[0.0, 0.0], D=[0.0, 0.0])
        n = len(s["dq"])
        last_step = si == len(c["steps"]) - 1
        for j in range(n):
            t += s["dt"][j] / 10
            wall += dt.timedelta(seconds=s["dt"][j] // 10 + 1)
            while to_utc(wall) is None:
                wall += dt.timedelta(hours=1)
            q += s["dq"][j] / 10000
            w += s["dw"][j] / 10000
            rec += 1
            end = j == n - 1 and not (last_step and c["cut"])
            es = s["end"] if end else s["mid"]
            if s["k"] == "W" and not end and j % 2:
                es = 200  # waveforms print end codes inside a step
            k = "P" if s["k"] == "W" else s["k"]
            if s["k"] == "W":
                wf = [q, q * 0.5, w, w * 0.5]
                wfs = ["%.6f" % x for x in wf]
                wf = [float(x) for x in wfs]
            else:
                wfs = ["N/A"] * 4
            stamp = wall.strftime("%m/%d/%Y %H:%M:%S")
            if c["short"] and wall.time() == dt.time(0):
                stamp = wall.strftime("%m/%d/%Y")
            line = [rec, s["ix"], s["si"], "%.4f" % t, "%.4f" % (s["dt"][j] / 10 * (j + 1)), "%.10f" % q, "%.10f" % w,
                    "%.10f" % (s["i"] / 1000), "%.8f" % ((s["v"] + j) / 1000), k, es, stamp]
            line += ["0.00000", "%.5f" % (0.01 * (si + 1))] + wfs + [1] + ["0.00000"] * 15
            rows.append([str(x) for x in line])
            cc = list(acc["C"])
            dd = list(acc["D"])
            if s["k"] == "C":
                cc = [cc[0] + q, cc[1] + w]
            elif s["k"] == "D":
                dd = [dd[0] + q, dd[1] + w]
            elif s["k"] == "W":
                cc = [cc[0] + wf[0], cc[1] + wf[2]]
                dd = [dd[0] + wf[1], dd[1] + wf[3]]
            ref.append(dict(charge_capacity=cc[0], charge_energy=cc[1], discharge_capacity=dd[0], discharge_energy=dd[1],
                            cycle_index=s["ix"], step_index=s["si"], test_time=float("%.4f" % t),
                            voltage=(s["v"] + j) / 1000, current=s["i"] / 1000, data_point=rec,
                            internal_resistance=0.01 * (si + 1),
                            date_time_iso=to_utc(wall).isoformat() + "+00:00"))
        if s["k"] in ("C", "D"):
            acc[s["k"]] = [acc[s["k"]][0] + q, acc[s["k"]][1] + w]
        elif s["k"] == "W":
            acc["C"] = [acc["C"][0] + wf[0], acc["C"][1] + wf[2]]
            acc["D"] = [acc["D"][0] + wf[1], acc["D"][1] + wf[3]]
    return rows, ref


def write(c, rows, d):
    name = f"{c['name']}.{c['ext']}"
    path = os.path.join(d, name)
    head = [h.upper() if c["upper"] else h for h in HEAD]
    if c["loops"]:
        head = head[:12] + ["Loop1", "Loop2"] + head[12:]
        rows = [r[:12] + ["0", "0"] + r[12:] for r in rows]
    with open(path, "w") as f:
        f.write(f"Today's Date 12/20/2020  Date of Test:\t12/19/2020\t Filename:\tE:\\Backup\\{name} "
                f"Procedure: {c['name']}.000\tComment/Barcode: {c['bar']}\n")
        f.write("\t".join(head) + "\n")
        for r in rows:
            f.write("\t".join(r) + "\n")
    return path


def run(c):
    from beep.structure.maccor import MaccorDatapath
    from beep import VALIDATION_SCHEMA_DIR
    rows, ref = table(c)
    path = write(c, rows, scratch.new())
    dp = MaccorDatapath.from_file(path)
    df = dp.raw_data
    need_eq(len(df), len(ref), "number of samples")
    recs = df.to_dict("records")
    for i, (g, o) in enumerate(zip(recs, ref)):
        for k, v in o.items():
            if k == "date_time_iso":
                need_eq(dt.datetime.fromisoformat(g[k]), dt.datetime.fromisoformat(v), f"sample {i} time")
            elif k in ("cycle_index", "step_index", "data_point"):
                need_eq(int(g[k]), v, f"sample {i} {k}")
            else:
                need_close(g[k], v, f"sample {i} {k}", rtol=2e-6, atol=2e-6)
    m = dp.metadata
    need_eq(m.barcode, c["bar"], "barcode")
    need_eq(m.protocol, c["name"] + ".000", "protocol")
    need_eq(m.channel_id, int(c["ext"]) if c["ext"].isdigit() else None, "channel")
    need_eq(m.raw["start_datetime"], "12/19/2020", "test date")
    need_eq(dp.paths["raw"], path, "raw path")
    need_eq(os.path.dirname(dp.schema), os.path.abspath(VALIDATION_SCHEMA_DIR), "schema folder")
    need_eq(os.path.basename(dp.schema), "schema-maccor-2170.yaml", "schema")
    labels = set()
    seen = {}
    for s in c["steps"]:
        seen[(s["ix"], s["k"])] = seen.get((s["ix"], s["k"]), 0) + 1
    if any(v > 1 and k[1] in "CD" for k, v in seen.items()):
        labels |= {"nontrivial", "accumulated"}
    if c["cut"]:
        labels.add("cut")
        if len(c["steps"]) > 1 and c["steps"][-1]["ix"] != c["steps"][-2]["ix"]:
            labels |= {"cut_in_new_cycle", "nontrivial"}
    if any(s["k"] == "W" for s in c["steps"]):
        labels.add("waveform")
    return labels


SUBS = [Sub("maccor", case, run, quick=800, thorough=10000, shards=5, shards_thorough=8)]
