"""Novonix and BioLogic ingestion."""
import datetime as dt
import json
import math
import os

from hypothesis import strategies as st

from vlib import scratch
from vlib.core import Sub, isnan, need, need_close, need_eq
from props.c09 import to_utc

PROPERTY = "C11"
RULE = ("generated Novonix exports (cycles built from a physical charge balance, rests, discharge-only cycles) and "
        "BioLogic exports (any column order, both dialects, cycle rules files) loaded and compared sample by sample; "
        "non-trivial when there are at least two cycles or a cycle with charge and discharge")
ASSUMPTIONS = ["Novonix: within a cycle, charging precedes discharging, except for a last charge that stays below the top", "BioLogic: the run does not cross a daylight "
               "saving change"]

HEAD = ["Date and Time", "Cycle Number", "Step Type", "Run Time (h)", "Step Time (h)", "Current (A)", "Potential (V)",
        "Capacity (Ah)", "Temperature (°C)", "Circuit Temperature (°C)", "Energy (Wh)", "dVdt (I/h)", "dIdt (V/h)",
        "Step Number", "Step position"]
CHG, DIS = [1, 7, 8], [2, 9, 10]
NAMES = {0: "rest", 1: "cc_charge", 2: "cc_discharge", 7: "cccv_charge", 8: "cv_hold_charge", 9: "cccv_discharge",
         10: "cv_hold_discharge"}


@st.composite
def nov(draw):
    cycles = []
    for _ in range(draw(st.integers(1, 4))):
        plan = []
        only = draw(st.integers(0, 3)) == 0
        if draw(st.booleans()):
            plan.append(0)
        if not only:
            for _ in range(draw(st.integers(1, 2))):
                plan.append(draw(st.sampled_from(CHG)))
                if draw(st.integers(0, 2)) == 0:
                    plan.append(0)
        for _ in range(draw(st.integers(1 if only else 0, 2))):
            plan.append(draw(st.sampled_from(DIS)))
            if draw(st.integers(0, 2)) == 0:
                plan.append(0)
        if not only and any(k in DIS for k in plan) and draw(st.integers(0, 2)) == 1:
            plan.append(-draw(st.sampled_from(CHG)))  # charged again, but not to the top
        steps = [[k, [[draw(st.integers(1, 9000)), draw(st.integers(1, 400)), draw(st.integers(1, 900)),
                       draw(st.integers(1500, 4400)), draw(st.integers(200, 450))]
                      for _ in range(draw(st.integers(1, 4)))]] for k in plan]
        cycles.append(dict(steps=steps, q0=draw(st.integers(0, 500)) if only else 0, skip=draw(st.integers(0, 5)) == 0))
    word = st.text("abcCellPrtoMsDV 12-_", min_size=0, max_size=10)
    return dict(cycles=cycles, first=draw(st.integers(0, 2)), t0=draw(st.integers(1293840000, 1690000000)),
                fmt=draw(st.booleans()), pad=draw(st.booleans()),
                meta=dict(Channel=draw(st.sampled_from(["01", "7", "13"])),
                          Cell=draw(word), **{"Serial Number": draw(word)},
                          Description=draw(st.one_of(word, st.sampled_from(["Cell 5 of Protocol B", "Capacity check", "Mass: 3"]))),
                          Protocol=draw(word),
                          Mass=draw(st.sampled_from(["1.000", "2.5"])), Capacity=draw(st.sampled_from(["0.24", "3.1"])),
                          Area=draw(st.sampled_from(["1.000", "4.2"])), Version=draw(st.sampled_from(["2.2.1.6", "1.0"]))),
                badtype=draw(st.integers(0, 15)) == 0, summ=draw(st.booleans()))


def run_nov(c):
    from beep.structure.novonix import NovonixDatapath
    d = scratch.new()
    path = os.path.join(d, "Form-CH01-01.csv")
    rows, ref = [], []
    t, cy, step = 0, c["first"], 0
    lab = set()
    for cyc in c["cycles"]:
        q = cyc["q0"]
        e = 3 * q
        qdis = edis = 0
        top = None
        for k, rs in cyc["steps"]:
            step += 1
            again, k = k < 0, abs(k)
            room = qdis
            ts = 0
            for ddt, dq, i, v, T in rs:
                t += ddt
                ts += ddt
                if k in CHG:
                    dq = min(dq, room) if again else dq
                    room -= dq
                    q += dq
                    e += (3 if again else 4) * dq
                elif k in DIS:
                    q -= dq
                    e -= 3 * dq
                if top is None:
                    top = (q, e)
                if k in DIS:
                    only = all(abs(x) not in CHG for x, _ in cyc["steps"])
                    base = top if only else None
                    if base is None:
                        qdis += dq
                        edis += 3 * dq
                    else:
                        qdis, edis = base[0] - q, base[1] - e
                w = dt.datetime(1970, 1, 1) + dt.timedelta(seconds=c["t0"] + t)
                if c["fmt"]:
                    stamp = w.strftime("%Y-%m-%d %I:%M:%S %p")
                else:
                    stamp = w.strftime("%m/%d/%Y %I:%M:%S %p")
                cur = (0 if k == 0 else i if k in CHG else -i) / 1000
                rows.append([stamp, cy, 3 if c["badtype"] and not rows else k, repr(t / 3600), repr(ts / 3600), repr(cur),
                             repr(v / 1000), repr(q / 1000), repr(T / 10), "23.1", repr(e / 1000), "0.0", "0.0", step, 0])
                ref.append(dict(cycle_index=cy, step_index=k, step_type_name=NAMES[k], step_type="charge" if k in CHG else "discharge",
                                test_time=t, step_time=ts, current=cur, voltage=v / 1000, temperature=T / 10,
                                circuit_temperature=23.1, step_num=step, date_time_iso=w.isoformat(),
                                charge_capacity=q / 1000 if k in CHG else None, charge_energy=e / 1000 if k in CHG else None,
                                discharge_capacity=None if k in CHG else qdis / 1000,
                                discharge_energy=None if k in CHG else edis / 1000))
        kinds = {abs(k) for k, _ in cyc["steps"]}
        if kinds & set(CHG) and kinds & set(DIS):
            lab.add("nontrivial")
        if not kinds & set(CHG):
            lab.add("discharge-only")
        cy += 2 if cyc["skip"] else 1
    m = c["meta"]
    unit = dict(Mass=" (g)", Capacity=" (Ah)", Area=" (cm2)")
    with open(path, "w", encoding="utf-8") as f:
        f.write("[Summary]\nNovonix HPC data file\nNovonix\n")
        for k, v in m.items():
            f.write(f"{k}{unit.get(k, '')}: {v}\n")
            if k == "Area":
                f.write("DC Offset Voltage (V): 0.00000\nStarted: 2022-04-11 10:58:07 AM\n")
        f.write("[End Summary]\n[Protocol]\nProtocol: other.pro1\n[0: Open_circuit_storage:]\n")
        if c["pad"]:
            f.write('"   [During CV, End step when hold time > 15 hours]"\n   [End step when step time > 2 minutes]\n')
        f.write("[End Protocol]\n[Data]\n")
        f.write('"' + ",".join(HEAD) + '"\n')
        for r in rows:
            f.write('"' + ",".join(map(str, r)) + '"\n')
    sp = None
    if c["summ"]:
        sp = os.path.join(d, "summary.csv")
        open(sp, "w").write(",Cycle,Qc,Qd\n0,1,0.5,0.25\n1,2,0.75,0.125\n")
    if c["badtype"]:
        try:
            NovonixDatapath.from_file(path)
        except ValueError:
            return lab | {"refused"}
        need(False, "a file with an unknown step type was loaded")
    dp = NovonixDatapath.from_file(path, summary_path=sp)
    df = dp.raw_data
    need_eq(len(df), len(ref), "number of samples")
    for n, (g, o) in enumerate(zip(df.to_dict("records"), ref)):
        for k, v in o.items():
            if v is None:
                need(isnan(g[k]), f"sample {n} {k} is {g[k]} in a step of the other kind")
            elif isinstance(v, str):
                need_eq(g[k], v, f"sample {n} {k}")
            else:
                need_close(g[k], v, f"sample {n} {k}", rtol=1e-9, atol=1e-9)
    raw = dp.metadata.raw
    want = dict(channel="Channel", cell="Cell", barcode="Serial Number", description="Description", protocol="Protocol",
                mass="Mass", nominal_capacity="Capacity", area="Area", software_version="Version")
    for k, f in want.items():
        need_eq(raw.get(k), m[f].strip() or None, f"metadata {k}")
    need_eq(dp.metadata.barcode, m["Serial Number"].strip() or None, "barcode")
    if sp:
        need_eq(dp.external_summary, {"Cycle": [1, 2], "Qc": [0.5, 0.75], "Qd": [0.25, 0.125]}, "external summary")
    else:
        need(dp.external_summary is None, "external summary without a summary file")
    dp.structure(resolution=3, charge_axis="test_time", discharge_axis="test_time")
    recs = dp.structured_summary.to_dict("records")
    for rec in recs:
        rs = [o for o in ref if o["cycle_index"] == int(rec["cycle_index"])]
        need(rs, "summary of a cycle not in the file")
        for k in ("charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy"):
            vals = [o[k] for o in rs if o[k] is not None]
            if vals:
                need_close(rec[k], max(vals), f"summary of cycle {rec['cycle_index']}: {k}", rtol=1e-5, atol=1e-6)
    if len(c["cycles"]) > 1:
        lab.add("nontrivial")
    return lab


# ---------------------------------------------------------------- BioLogic

COLS = ["mode", "time/s", "Ecell/V", "I/mA", "cycle number", "Q charge/mA.h", "Q discharge/mA.h", "Energy charge/W.h",
        "Energy discharge/W.h", "Ns"]


@st.composite
def bio(draw):
    n = draw(st.integers(1, 16))
    rows, ns, loop, cn = [], draw(st.integers(0, 3)), 0, draw(st.integers(0, 1))
    for j in range(n):
        if j and draw(st.integers(0, 1)):
            ns = draw(st.integers(0, 4))
        if j and draw(st.integers(0, 4)) == 0:
            loop = 0 if loop and draw(st.integers(0, 3)) == 2 else loop + 1
        if j and draw(st.integers(0, 4)) == 0:
            cn += 1
        rows.append([draw(st.integers(1, 900000)), ns, loop, cn, draw(st.integers(1, 9)), draw(st.integers(2000, 4400)),
                     draw(st.integers(-5000, 5000)), draw(st.integers(0, 4000)), draw(st.integers(0, 4000)),
                     draw(st.integers(0, 4000)), draw(st.integers(0, 4000))])
    extra = [x for x, w in (("Loop", 3), ("cycle_index", 1), ("Loop2", 2)) if draw(st.integers(0, 3)) < w]
    cols = draw(st.permutations(COLS + extra))
    trans = draw(st.dictionaries(st.tuples(st.integers(0, 4), st.integers(0, 4)), st.integers(0, 3), max_size=4))
    for a, b in zip(rows, rows[1:]):
        if a[1] != b[1] and draw(st.booleans()):
            trans[(a[1], b[1])] = draw(st.integers(0, 3))
    y, mo = draw(st.integers(2012, 2023)), draw(st.sampled_from([1, 2, 5, 6, 7, 8, 9, 12]))
    return dict(rows=rows, cols=list(cols), txt=draw(st.integers(0, 3)) == 0, crlf=draw(st.booleans()),
                t0=f"{y}-{mo:02d}-{draw(st.integers(1, 27)):02d}T{draw(st.integers(0, 23)):02d}:00:00",
                rules=dict(start=draw(st.integers(0, 2)), tech=draw(st.integers(0, 2)), seq=[[a, b, v] for (a, b), v in trans.items()])
                if draw(st.integers(0, 2)) else None,
                chan=[draw(st.sampled_from("ABCEG")), draw(st.integers(1, 16))],
                bar=draw(st.one_of(st.text("ABC012_- ", max_size=8), st.just("cell : B 7"))), intform=draw(st.sampled_from(["d", "f"])), vdec=draw(st.booleans()),
                after=draw(st.booleans()))


def run_bio(c):
    from beep.structure.biologic import BiologicDatapath, CycleTransitionRules, CycleTransitionRulesSerializer
    d = scratch.new()
    sep, enc = ("\t", "iso-8859-1") if c["txt"] else (";", "utf-8")
    nl = "\r\n" if c["crlf"] else "\n"
    path = os.path.join(d, "cell_MB_CE1" + (".txt" if c["txt"] else ".csv"))
    wall = dt.datetime.fromisoformat(c["t0"])
    first = None
    ref, lines = [], []
    for j, (ddt, ns, loop, cn, ci, v, i, q1, q2, e1, e2) in enumerate(c["rows"]):
        wall += dt.timedelta(milliseconds=ddt)
        first = first or wall
        u = to_utc(wall).replace(tzinfo=dt.timezone.utc)
        ref.append(dict(step_index=ns, voltage=v / 1000, current=i / 1000, charge_capacity=q1 / 1000, discharge_capacity=q2 / 1000,
                        charge_energy=e1 / 1000, discharge_energy=e2 / 1000, test_time=(wall - first).total_seconds(),
                        date_time_iso=u, data_point=j + 1))
        whole = (lambda x: f"{x}.0") if c["intform"] == "f" else str
        vals = {"mode": "3", "time/s": wall.strftime("%m/%d/%Y %H:%M:%S.") + f"{wall.microsecond // 1000:03d}",
                "Ecell/V": repr(v / 1000), "I/mA": repr(float(i)), "cycle number": whole(cn), "Q charge/mA.h": repr(float(q1)),
                "Q discharge/mA.h": repr(float(q2)), "Energy charge/W.h": repr(e1 / 1000), "Energy discharge/W.h": repr(e2 / 1000),
                "Ns": whole(ns), "Loop": str(loop), "cycle_index": whole(ci), "Loop2": "x°"}
        lines.append(sep.join(vals[k] for k in c["cols"]))
    meta = ["BT-Lab LOG FILE", "", "Modulo Bat", "", f"Run on channel : {c['chan'][0]}{c['chan'][1]} (SN 0600)", "User : ",
            "Electrolyte : ", "Comments : " + c["bar"], "   Variables : mode;Ecell/V;I/mA", "Cycle Definition : Charge/Discharge alternance",
            "Ns                  0                   1                   2", "ctrl_type           Rest                CC                  CV",
            f"ctrl1_val           {c['chan'][1]}                   2.000               3.000", ""]
    with open(path, "w", encoding=enc, newline="") as f:
        if c["txt"]:
            f.write("\r\n".join(meta) + "\r\n")
        f.write(sep.join(c["cols"]) + nl)
        f.write(nl.join(lines) + nl)
    if not c["txt"]:
        with open(os.path.join(d, "cell_MB_CE1.mpl"), "w", encoding="iso-8859-1", newline="") as f:
            f.write("\r\n".join(meta) + "\r\n")
    mp = None
    if c["rules"]:
        r = c["rules"]
        rules = CycleTransitionRules(1, True, r["start"], r["tech"], {(a, b): n for a, b, n in r["seq"]}, {(1, 2): 1})
        ser = CycleTransitionRulesSerializer()
        txt = ser.json(rules)
        back = ser.parse_json(txt)
        need_eq(vars(back), vars(rules), "cycle rules after a round trip")
        mp = os.path.join(d, "rules.json")
        open(mp, "w").write(txt)
    if "cycle_index" in c["cols"]:
        want = [r[4] for r in c["rows"]]
    elif c["rules"]:
        seq = {(a, b): n for a, b, n in c["rules"]["seq"]}
        cyc, want = 1 + c["rules"]["start"], []
        for j, r in enumerate(c["rows"]):
            if j:
                p = c["rows"][j - 1]
                if "Loop" in c["cols"] and r[2] != p[2]:
                    cyc += c["rules"]["tech"]
                elif r[1] != p[1]:
                    cyc += seq.get((p[1], r[1]), 0)
            want.append(cyc)
    else:
        want = [r[3] for r in c["rows"]]
    if mp is None and c["after"]:
        from beep.structure.cli import auto_load
        dp = auto_load(path)
    else:
        dp = BiologicDatapath.from_file(path, mapping_file=mp)
    need(type(dp) is BiologicDatapath, f"loaded by {type(dp).__name__}")
    df = dp.raw_data
    need_eq(len(df), len(ref), "number of samples")
    need_eq([int(x) for x in df.cycle_index], want, "cycle indices")
    for n, (g, o) in enumerate(zip(df.to_dict("records"), ref)):
        for k, v in o.items():
            if k == "date_time_iso":
                need_eq(dt.datetime.fromisoformat(g[k]), v, f"sample {n} time")
            else:
                need_close(g[k], v, f"sample {n} {k}", rtol=1e-9, atol=1e-9)
    m = dp.metadata
    need_eq(int(m.channel_id), int(f"{'ABCDEFGH'.index(c['chan'][0]) + 1}{c['chan'][1]}"), "channel")
    need_eq(m.barcode, c["bar"].strip(), "barcode")
    need(m.protocol, "no protocol digest")
    fn = os.path.join(d, "saved.json")
    dp.structure(resolution=3, charge_axis="test_time", discharge_axis="test_time")
    dp.to_json_file(fn)
    back = BiologicDatapath.from_json_file(fn)
    need_eq((back.metadata.barcode, back.metadata.protocol, back.metadata.channel_id), (m.barcode, m.protocol, m.channel_id), "metadata after saving")
    lab = {"txt" if c["txt"] else "csv"}
    if c["rules"]:
        lab.add("rules")
    if len(set(want)) > 1:
        lab.add("nontrivial")
    return lab


SUBS = [Sub("novonix", nov, run_nov, quick=500, thorough=8000, shards=4, shards_thorough=8),
        Sub("biologic", bio, run_bio, quick=500, thorough=8000, shards=4, shards_thorough=8)]
