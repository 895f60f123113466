"""Maccor impedance spectra: loaded sample by sample, found next to their run, and serialised."""
import datetime as dt
import json
import os

import pandas as pd
from hypothesis import strategies as st

from vlib import scratch
from vlib.core import Sub, need, need_close, need_eq, frames_equal
from props import c09

PROPERTY = "C12"
RULE = ("0-3 generated spectra (1-12 frequencies) written next to a generated Maccor run together with files of other runs; "
        "loaded singly and through the run, serialised as dictionary and JSON text and rebuilt; non-trivial when at least "
        "two spectra belong to the run or an unrelated spectrum lies in the same folder")
ASSUMPTIONS = ["spectrum files are named <run>.<tag>.<channel>, as the cycler does"]

COLS = ["Freq(Hz)", "Polar(V)", "time(sec)", "Z'(a)", "Z''(b)", "Phase_Angle", "Z-Mag", "C(F)", "Status"]


@st.composite
def spectrum(draw):
    n = draw(st.integers(1, 12))
    return dict(rows=[[draw(st.integers(-10**7, 10**7)) / 1000 for _ in COLS] for _ in range(n)],
                t=draw(st.integers(0, 20 * 365 * 24 * 60)), circut=draw(st.booleans()),
                l8=draw(st.lists(st.integers(0, 9999), min_size=1, max_size=6)),
                method=draw(st.sampled_from(["EIS 1.000FRA default", "FRA 2", "x"])))


@st.composite
def case(draw):
    return dict(run=draw(c09.case()), eis=draw(st.lists(spectrum(), max_size=3)), other=draw(st.lists(spectrum(), max_size=1)),
                explicit=draw(st.booleans()), crlf=draw(st.booleans()),
                folder=draw(st.sampled_from(["", "", "batch_1.2", "a.b.c"])))


def write(path, s, crlf):
    w = dt.datetime(2005, 1, 1) + dt.timedelta(minutes=s["t"])
    nl = "\r\n" if crlf else "\n"
    lines = ["MACCOR, INC.    AC Impedance Test", "Frequency Sweep:   Open " + ("Circut" if s["circut"] else "Circuit") + " Voltage",
             s["method"], "HOST_" + os.path.basename(path), "Line 4", "Line 5",
             f"Start Date:  {w.strftime('%A, %B')} {w.day}, {w.year} Start Time:   {w.strftime('%H:%M')}", "Line 7",
             "  ".join(map(str, s["l8"])), "", "\t".join(COLS), ""]
    lines += ["\t".join("%.6f" % x for x in r) for r in s["rows"]]
    with open(path, "w", newline="") as f:
        f.write(nl.join(lines) + nl)
    return w


def judge(e, s, w, path, what):
    need_eq(list(e.data.columns), COLS, what + ": columns")
    need_eq(len(e.data), len(s["rows"]), what + ": number of points")
    for i, r in enumerate(s["rows"]):
        for k, c in enumerate(COLS):
            need_close(e.data[c].iloc[i], r[k], f"{what}: point {i} {c}", rtol=1e-9, atol=1e-6)
    m = e.metadata
    need_eq(m["frequency_sweep"], "Open Circuit Voltage", what + ": sweep")
    need_eq(m["method"].strip(), s["method"], what + ": method")
    need_eq(m["filename"].strip(), "HOST_" + os.path.basename(path), what + ": file name")
    need_eq(m["start"], w.isoformat(), what + ": start")
    need_eq([str(x) for x in m["line_8"]], [str(x) for x in s["l8"]], what + ": settings line")


def run(c):
    from beep.structure.maccor import MaccorDatapath
    d = os.path.join(scratch.new(), c["folder"])
    os.makedirs(d, exist_ok=True)
    c["run"]["ext"] = "041"
    rows, _ = c09.table(c["run"])
    path = c09.write(c["run"], rows, d)
    stem = path[:-len(".041")]
    own = []
    for i, s in enumerate(c["eis"]):
        p = f"{stem}.EDA{i + 1:04d}.041"
        own.append((p, s, write(p, s, c["crlf"])))
    for i, s in enumerate(c["other"]):
        p = os.path.join(d, f"another_{i}.EDA0001.041")
        write(p, s, c["crlf"])
    dp = MaccorDatapath.from_file(path)
    need(dp.eis is None, "spectra before any were loaded")
    need_eq(dp.paths["raw"], path, "raw path")
    dp.load_eis(paths=[p for p, _, _ in own] if c["explicit"] else None)
    need_eq(sorted(dp.paths["eis"]), sorted(p for p, _, _ in own), "spectrum files of the run")
    need_eq(len(dp.eis), len(own), "number of spectra")
    need_eq(dp.paths["raw"], path, "raw path")
    for e, p in zip(dp.eis, dp.paths["eis"]):
        _, s, w = next(x for x in own if x[0] == p)
        judge(e, s, w, p, "loaded")
        for what, b in (("dictionary", e.as_dict()), ("JSON", json.loads(json.dumps(e.as_dict())))):
            back = type(e).from_dict(b)
            judge(back, s, w, p, "after " + what)
            frames_equal(back.data, e.data, what)
    for p, s, w in own:
        judge(MaccorDatapath.MaccorEIS.from_file(p), s, w, p, "loaded singly")
    lab = set()
    if len(own) > 1 or (own and c["other"]):
        lab.add("nontrivial")
    return lab


SUBS = [Sub("eis", case, run, quick=300, thorough=4000, shards=4, shards_thorough=8)]
