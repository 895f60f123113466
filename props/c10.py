"""Arbin, Neware, Indigo and Battery Archive ingestion; automatic choice of loader."""
import datetime as dt
import math
import os

import numpy as np
from hypothesis import strategies as st

from vlib import runs, scratch
from vlib.core import Sub, isnan, need, need_close, need_eq
from props.c09 import to_utc

PROPERTY = "C10"
RULE = ("generated export files of four cycler formats (and a Maccor file) loaded by their class or by automatic "
        "selection from the file name, compared sample by sample with the numbers written; non-trivial when the file "
        "holds at least two cycles or two steps")
ASSUMPTIONS = ["file names follow the documented patterns and no directory name looks like a file name",
               "Neware: across steps, the test time is judged when each step starts at 0"]


@st.composite
def samples(draw, nmin=2, nmax=14):
    """rows of (dt, cycle, step, current sign, v, i, q increments)"""
    n = draw(st.integers(nmin, nmax))
    out = []
    cyc = draw(st.integers(0, 2))
    step = 1
    for j in range(n):
        if j and draw(st.integers(0, 3)) == 0:
            step += 1
            if draw(st.integers(0, 2)) == 0:
                cyc += 1
                step = 1
        out.append([draw(st.integers(1, 50000)), cyc, step, draw(st.sampled_from([-1, 0, 1])),
                    draw(st.integers(2000, 4400)), draw(st.integers(1, 6000)), draw(st.integers(0, 900)),
                    draw(st.integers(0, 900)), draw(st.integers(100, 450)), draw(st.integers(1, 99))])
    return out


@st.composite
def case(draw):
    fmt = draw(st.sampled_from(["arbin", "neware", "indigo", "ba"]))
    t0 = draw(st.integers(1293840000, 1690000000))
    return dict(fmt=fmt, rows=draw(samples(1 if fmt == "ba" else 2)), t0=t0, ms=draw(st.integers(0, 999)),
                auto=draw(st.booleans()), meta=draw(st.booleans()), name=draw(st.integers(0, 3)),
                nan=draw(st.lists(st.integers(0, 13), max_size=2)), perm=draw(st.permutations(list(range(13)))),
                ir=draw(st.lists(st.integers(-1, 90), min_size=15, max_size=15)), zero=draw(st.booleans()),
                long=draw(st.integers(0, 3)) == 2, tiny=draw(st.integers(0, 5)) == 3, two=draw(st.integers(0, 15)) == 7,
                late=draw(st.integers(0, 5)) == 3, elsewhere=draw(st.booleans()))


def loader(c, cls, path, **kw):
    from beep.structure.cli import auto_load
    dp = auto_load(path) if c["auto"] and not kw else cls.from_file(path, **kw)
    need(type(dp) is cls, f"{os.path.basename(path)} loaded by {type(dp).__name__}, expected {cls.__name__}")
    need_eq(dp.paths["raw"], path, "raw path")
    return dp


def can_structure(dp, ref):
    """every loaded run can be structured, and its summary reflects the file"""
    dp.structure(resolution=3, charge_axis="test_time", discharge_axis="test_time")
    s = dp.structured_summary
    for rec in s.to_dict("records"):
        rows = [o for o in ref if o["cycle_index"] == int(rec["cycle_index"])]
        need(rows, "summary of a cycle that is not in the file")
        for k in ("charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy"):
            need_close(rec[k], max(o[k] for o in rows), f"summary of cycle {rec['cycle_index']}: {k}", rtol=2e-6, atol=2e-6)


def cmp(df, ref, ints=("cycle_index", "step_index"), tol=2e-6):
    need_eq(len(df), len(ref), "number of samples")
    for i, (g, o) in enumerate(zip(df.to_dict("records"), ref)):
        for k, v in o.items():
            if k == "date_time_iso":
                need(abs((dt.datetime.fromisoformat(g[k]) - v).total_seconds()) < 2e-3, f"sample {i} time {g[k]}, expected {v}")
            elif k in ints:
                need_eq(int(g[k]), v, f"sample {i} {k}")
            else:
                need_close(g[k], v, f"sample {i} {k}", rtol=tol, atol=tol)


def utc(s):
    return dt.datetime.fromtimestamp(s, dt.timezone.utc)


def run_arbin(c, d):
    from beep.structure.arbin import ArbinDatapath
    name = ["2017-05-09_test-TC_CH33", "FastCharge_000025_CH8", "PriorLAMVal_000101_CH2", "Talos_001385_CH33"][c["name"]]
    path = os.path.join(d, name + ".csv")
    t, ref, lines = 0.0, [], []
    for j, (ddt, cy, si, sg, v, i, q1, q2, T, ir) in enumerate(c["rows"]):
        t += ddt / 1000
        stamp = round(c["t0"] + c["ms"] / 1000 + t, 3)
        o = dict(test_time=round(t, 4), cycle_index=cy, step_index=si, current=sg * i / 1000, voltage=v / 1000,
                 charge_capacity=q1 / 1000, discharge_capacity=q2 / 1000, charge_energy=q1 / 300, discharge_energy=q2 / 300,
                 internal_resistance=math.nan if j in c["nan"] else ir / 1000, temperature=T / 10, date_time_iso=utc(stamp))
        ref.append(o)
        lines.append([j, repr(o["test_time"]), repr(stamp), repr(ddt / 1000), si, cy, repr(o["current"]), repr(o["voltage"]),
                      repr(o["charge_capacity"]), repr(o["discharge_capacity"]), repr(o["charge_energy"]),
                      repr(o["discharge_energy"]), 0.0, "" if j in c["nan"] else repr(o["internal_resistance"]),
                      repr(o["temperature"])])
    with open(path, "w") as f:
        f.write("Data_Point,Test_Time,DateTime,Step_Time,Step_Index,Cycle_Index,Current,Voltage,Charge_Capacity,"
                "Discharge_Capacity,Charge_Energy,Discharge_Energy,dV/dt,Internal_Resistance,Temperature\n")
        for ln in lines:
            f.write(",".join(map(str, ln)) + "\n")
    if c["meta"]:
        mp = os.path.join(d, "other_data.csv" if c["elsewhere"] else name + "_Metadata.csv")
        if c["elsewhere"]:
            with open(os.path.join(d, name + "_Metadata.csv"), "w") as f:
                f.write(",Test_ID,Device_ID,IV_Ch_ID,First_Start_DateTime,Schedule_File_Name,Item_ID\n0,1,2,99,3,other.sdu,other\n")
        with open(mp, "w") as f:
            f.write(",Test_ID,Device_ID,IV_Ch_ID,First_Start_DateTime,Schedule_File_Name,Item_ID\n")
            f.write(f"0,144,60369369,{c['name'] + 7},{c['t0']},20170509-6C.sdu,EL15080046\n")
    dp = loader(c, ArbinDatapath, path, **(dict(metadata_path=mp) if c["meta"] and c["elsewhere"] else {}))
    cmp(dp.raw_data, ref)
    can_structure(dp, ref)
    m = dp.metadata
    if c["meta"]:
        need_eq((m.barcode, m.protocol, int(m.channel_id)), ("EL15080046", "20170509-6C.sdu", c["name"] + 7), "metadata")
        need_eq(dp.paths["metadata"], mp, "metadata path")
    else:
        need_eq((m.barcode, m.protocol, m.channel_id), (None, None, None), "metadata without a metadata file")
        need(not dp.paths["metadata"], "a metadata file that does not exist is listed")
    schema = ["schema-arbin-lfp.yaml", "schema-arbin-lfp.yaml", "schema-arbin-18650-2170.yaml", "schema-arbin-18650-2170.yaml"][c["name"]]
    need_eq(os.path.basename(dp.schema), schema, "schema chosen by project")


def run_ba(c, d):
    from beep.structure.battery_archive import BatteryArchiveDatapath
    path = os.path.join(d, ["HNEI_timeseries.csv", "SNL_timeseries.csv", "a_timeseries.csv", "timeseries.csv"][c["name"]])
    t, ref, lines = 0.0, [], []
    start, prev = None, None
    for j, (ddt, cy, si, sg, v, i, q1, q2, T, ir) in enumerate(c["rows"]):
        t += ddt / 1000
        tt = round(t, 3)
        kind = {0: 1, 1: 2, -1: 3}[sg]
        if kind != prev:
            start, prev = tt, kind
        stamp = utc(c["t0"] + c["ms"] / 1000 + tt)
        cur = sg * (i / 1000 if not c["tiny"] else i / 1e8)
        if abs(cur) < 5e-6:
            cur = sg * 5e-6
        o = dict(test_time=tt, cycle_index=cy, step_index=kind, step_time=tt - start, current=cur, voltage=v / 1000,
                 charge_capacity=q1 / 1000, discharge_capacity=q2 / 1000, charge_energy=q1 / 300, discharge_energy=q2 / 300,
                 temperature=T / 10, date_time_iso=stamp)
        ref.append(o)
        lines.append([stamp.strftime("%Y-%m-%d %H:%M:%S.%f"), repr(tt), cy, repr(o["current"]), repr(o["voltage"]),
                      repr(o["charge_capacity"]), repr(o["discharge_capacity"]), repr(o["charge_energy"]),
                      repr(o["discharge_energy"]), "25.0", repr(o["temperature"])])
    with open(path, "w") as f:
        f.write("Date_Time,Test_Time (s),Cycle_Index,Current (A),Voltage (V),Charge_Capacity (Ah),Discharge_Capacity (Ah),"
                "Charge_Energy (Wh),Discharge_Energy (Wh),Environment_Temperature (C),Cell_Temperature (C)\n")
        for ln in lines:
            f.write(",".join(map(str, ln)) + "\n")
    dp = loader(c, BatteryArchiveDatapath, path)
    cmp(dp.raw_data, ref)
    can_structure(dp, ref)


def run_indigo(c, d):
    import h5py
    from beep.structure.indigo import IndigoDatapath
    path = os.path.join(d, ["a.h5", "indigo_x.h5", "run 7.h5", "cell.h5"][c["name"]])
    ints = ["cell_id", "experiment_count", "cycle_count", "half_cycle_count", "experiment_type"]
    us = ["system_time_us"]
    fl = ["time_s", "cell_coulomb_count_c", "cell_current_a", "cell_temperature_c", "cell_power_w", "cell_energy_j", "cell_voltage_v"]
    order = ints + us + fl
    if c["meta"]:
        order = [order[k] for k in c["perm"]]
    b0, b1, b2, ref = [], [], [], []
    t = 0
    for j, (ddt, cy, si, sg, v, i, q1, q2, T, ir) in enumerate(c["rows"]):
        t += ddt * 1000
        half = 2 * cy + (si % 2)
        e = -float(q2 * 10) if sg < 0 else float(q2 * 10)
        q = float(q1 * 4) * (-1 if sg < 0 else 1)
        b0.append([453 if c["two"] and j == len(c["rows"]) - 1 else 452, 1, cy, half, 1])
        b1.append([c["t0"] * 1000000 + c["ms"] * 1000 + t])
        b2.append([t / 1e6, q, (1 if sg == 0 else sg) * i / 1000, T / 10, 1.0, e, v / 1000])
        chg = half % 2 == 1
        ref.append(dict(cycle_index=cy, step_index=half, current=(1 if sg == 0 else sg) * i / 1000, voltage=v / 1000,
                        temperature=T / 10, test_time=(t - c["rows"][0][0] * 1000) / 1e6, data_point=j,
                        charge_capacity=abs(q) / 3600 if chg else 0.0, discharge_capacity=0.0 if chg else abs(q) / 3600,
                        charge_energy=abs(e) / 3600 if chg else 0.0, discharge_energy=0.0 if chg else abs(e) / 3600,
                        date_time_iso=utc(c["t0"] + c["ms"] / 1000 + t / 1e6)))
    if c["late"]:
        # the first sample was stored last
        for b in (b0, b1, b2, ref):
            b.append(b.pop(0))
        for j, o in enumerate(ref):
            o["data_point"] = j
    blocks = [[x for x in order if x in grp] for grp in (ints, us, fl)]

    def reorder(b, grp, want):
        return [[row[grp.index(w)] for w in want] for row in b]

    with h5py.File(path, "w") as f:
        g = f.create_group("time_series_data")
        g["axis0"] = np.array(order, dtype="S20")
        g["axis1"] = np.arange(len(ref)) * 3 + 240
        for n, (want, b, grp, ty) in enumerate(zip(blocks, (b0, b1, b2), (ints, us, fl), ("int32", "int64", "float32"))):
            g[f"block{n}_items"] = np.array(want, dtype="S20")
            g[f"block{n}_values"] = np.array(reorder(b, grp, want), dtype=ty)
    if c["two"]:
        try:
            loader(c, IndigoDatapath, path)
        except ValueError:
            return
        need(False, "a file with two cells was loaded as one run")
    dp = loader(c, IndigoDatapath, path)
    cmp(dp.raw_data, ref, ints=("cycle_index", "step_index", "data_point"), tol=3e-6)
    can_structure(dp, ref)
    need_eq(dp.metadata.raw["indigo_cell_id"], 452, "cell id")
    need_eq(dt.datetime.fromisoformat(dp.metadata.raw["start_datetime"]).replace(microsecond=0),
            min(o["date_time_iso"] for o in ref).replace(microsecond=0), "start time")


def run_neware(c, d):
    from beep.structure.neware import NewareDatapath
    os.chdir(d)
    path = os.path.join(d, ["neware_a.csv", "my_neware.csv", "x-neware-y.csv", "neware.csv"][c["name"]])
    rec_cols = ["", "", '"Record ID"', '"Realtime"', '"Time(h:min:s.ms)"', '"Voltage(V)"', '"Current(mA)"', '"Temperature(\xb0C)"',
                '"Capacity(mAh)"', '"Capacity Density(mAh/g)"', '"Energy(mWh)"', '"CmpEng(mWh/g)"', '"Capacitance_Chg(mAh)"',
                '"Capacitance_DChg(mAh)"', '"Engy_Chg(mWh)"', '"Engy_DChg(mWh)"', '"Min-T(\xb0C)"', '"Max-T(\xb0C)"',
                '"Avg-T(\xb0C)"', '"Power(mW)"', '"dQ/dV(mAh/V)"', '"dQm/dV(mAh/V.g)"', "", ""]
    step_cols = ["", '"Step ID"', '"Step Name"', '"Step Time(h:min:s.ms)"', '"DCIR(O)"', ""]
    lines = ['"Cycle ID","Cap_Chg(mAh)","Cap_DChg(mAh)",', ",".join(step_cols), ",".join(rec_cols)]
    ref, wall = [], dt.datetime(2018, 7, 1, 10, 0, 0) + dt.timedelta(seconds=c["t0"] % 1000000)
    pc = ps = None
    irs = []
    t = 0.0
    sidx = 0
    for j, (ddt, cy, si, sg, v, i, q1, q2, T, ir) in enumerate(c["rows"]):
        if cy != pc:
            lines.append(f'"{cy}","1.0","2.0",')
            ps = None
        fresh = si != ps
        if fresh:
            x = c["ir"][sidx % 15]
            sidx += 1
            irs.append(math.nan if x < 0 else x / 10)
            lines.append(f',"{si}","CC_Chg","0:01:00.000","{chr(9) + "-" if x < 0 else x / 10}",')
            t = 0.0
        pc, ps = cy, si
        t = round(t + ddt * (3000 if c["long"] else 1) / 1000, 3)
        if c["zero"] and fresh:
            t = 0.0
        wall += dt.timedelta(seconds=ddt // 1000 + 1)
        while to_utc(wall) is None:
            wall += dt.timedelta(hours=1)
        h, rem = divmod(t, 3600)
        mi, s = divmod(rem, 60)
        st_ = f"{int(h)}:{int(mi):02d}:{s:06.3f}"
        ref.append(dict(cycle_index=cy, step_index=si, step_time=int(h) * 3600 + int(mi) * 60 + float("%06.3f" % s),
                        voltage=v / 1000, current=sg * i / 1000,
                        charge_capacity=q1 / 1000, discharge_capacity=q2 / 1000, charge_energy=q1 * 3 / 1000,
                        discharge_energy=q2 * 3 / 1000, temperature=T / 10, data_point=j + 1, _step=len(irs) - 1,
                        date_time_iso=to_utc(wall).replace(tzinfo=dt.timezone.utc)))
        lines.append(",".join(["", "", f'"{j + 1}"', f'"\t{wall.strftime("%m/%d/%Y %H:%M:%S")}"', f'"{st_}"', f'"{v / 1000}"',
                               f'"{sg * i}"', f'"{T / 10}"', '"0"', '"0"', '"0"', '"0"', f'"{q1}"', f'"{q2}"', f'"{q1 * 3}"',
                               f'"{q2 * 3}"', '"0"', '"0"', '"0"', '"0"', '"0"', '"0"', "", ""]))
    with open(path, "w", encoding="ISO-8859-1") as f:
        f.write("\n".join(lines) + "\n")
    before = sorted(os.listdir(d))
    dp = loader(c, NewareDatapath, path)
    need_eq(sorted(os.listdir(d)), before, "files left in the working directory")
    need_eq(os.path.realpath(os.getcwd()), os.path.realpath(d), "working directory")
    df = dp.raw_data
    steps = [o.pop("_step") for o in ref]
    # resistance: that of the step, else of the nearest earlier, else later step that has one
    known = [(n, x) for n, x in enumerate(irs) if not isnan(x)]
    used = {n for n in steps}
    for n, o in zip(steps, ref):
        back = [x for k, x in known if k <= n and k in used]
        fwd = [x for k, x in known if k > n and k in used]
        o["internal_resistance"] = back[-1] if back else (fwd[0] if fwd else math.nan)
    cmp(df, ref, ints=("cycle_index", "step_index", "data_point"))
    can_structure(dp, ref)
    tt = df.test_time.tolist()
    if c["zero"]:
        done = 0.0
        for j, o in enumerate(ref):
            if j and steps[j] != steps[j - 1]:
                done += ref[j - 1]["step_time"]
            need_close(tt[j], done + o["step_time"], f"sample {j} test time", rtol=1e-6, atol=1e-6)
    for j in range(1, len(ref)):
        need(tt[j] >= tt[j - 1] - 1e-9, "test time decreases")
        if steps[j] == steps[j - 1]:
            need_close(tt[j] - tt[j - 1], ref[j]["step_time"] - ref[j - 1]["step_time"], f"sample {j} test time increment",
                       rtol=1e-6, atol=1e-6)


def run(c):
    d = scratch.new()
    {"arbin": run_arbin, "ba": run_ba, "indigo": run_indigo, "neware": run_neware}[c["fmt"]](c, d)
    lab = {c["fmt"], "auto" if c["auto"] else "direct"}
    if len({(r[1], r[2]) for r in c["rows"]}) > 1:
        lab.add("nontrivial")
    return lab


@st.composite
def name_case(draw):
    return dict(name=draw(st.sampled_from(["a.xlsx", "notes.txt", "x.mpr", "plain.csv", "cells.json", "b.h4", "data"])))


def run_name(c):
    from beep.structure.cli import auto_load
    p = os.path.join(scratch.new(), c["name"])
    open(p, "w").write("1,2\n")
    try:
        auto_load(p)
    except ValueError as e:
        need(c["name"] in str(e), "the error does not name the file")
        return {"nontrivial"}
    need(False, f"{c['name']} was loaded although it matches no known pattern")


SUBS = [Sub("unknown", name_case, run_name, quick=20, thorough=40),
        Sub("formats", case, run, quick=900, thorough=12000, shards=6, shards_thorough=8)]
