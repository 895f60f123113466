"""Waveform files: played back second by second they are the requested profile, scaled and limited as requested."""
import copy
import csv
import math
import os

import numpy as np
from hypothesis import strategies as st

from vlib import scratch
from vlib.core import Sub, Violation, close, need, need_close, need_eq

PROPERTY = "C23"
RULE = ("mwf: drawn power or current profiles (runs of equal values, zeros, charge and discharge) and cycler settings; drive: drawn "
        "driving parameters, repeats and scaling; velocity: drawn velocity profiles, time steps and units; charge: drawn fast-charging "
        "rates and state-of-charge windows. Non-trivial when a waveform was written and played back")
ORACLE = ("the file is expanded to one value per second and compared with the requested profile; finite differences and the road-load "
          "equation written out; charge delivered by summing current over time")
ASSUMPTIONS = ["profiles are sampled once per second and not zero throughout",
               "within two grid points of a window boundary the stepwise charging current may take any value up to its neighbours"]

FIELDS = ["control_mode", "value_scale", "charge_limit_mode", "charge_limit_value", "discharge_limit_mode", "discharge_limit_value",
          "charge_end_mode", "charge_end_operation", "charge_end_mode_value", "discharge_end_mode", "discharge_end_operation",
          "discharge_end_mode_value", "report_mode", "report_value", "range"]
DEFAULT = dict(zip(FIELDS, ["P", 1, "V", 4.2, "V", 2.7, "V", ">=", 4.25, "V", "<=", 2.5, "T", 3.0, "A"]))


def rows(path):
    with open(path, newline="") as f:
        rs = list(csv.reader(f, delimiter="\t"))
    for r in rs:
        need_eq(len(r), 12, "columns of a waveform row")
    return rs


def playback(path, cfg, power):
    """seconds -> signed value; checks the settings of every row on the way"""
    out = []
    for r in rows(path):
        v = float(r[2])
        need(v >= 0, "negative magnitude {}", v)
        chg = r[0] == "C"
        need(r[0] in "CD", "state {!r}", r[0])
        need(chg == (v > 0 and chg), "a zero setpoint is marked as charging")
        k = "charge" if chg else "discharge"
        need_eq(r[3], str(cfg[k + "_limit_mode"]), k + " limit mode")
        need_close(float(r[4]), cfg[k + "_limit_value"], k + " limit", atol=1e-9)
        need_eq(r[6], str(cfg[k + "_end_mode"]), k + " end mode")
        need_eq(r[7], cfg[k + "_end_operation"], k + " end operation")
        need_close(float(r[8]), cfg[k + "_end_mode_value"], k + " end value", atol=1e-9)
        need_eq(r[9], cfg["report_mode"], "report mode")
        need_close(float(r[10]), cfg["report_value"], "report value")
        need_eq(r[11], cfg["range"], "range")
        d = float(r[5])
        need(d >= 1 and d == int(d), "duration {}", d)
        out += [(v if chg else -v, r[1])] * int(d)
    return out


def same_profile(got, want, mode, power, what):
    need_eq(len(got), len(want), what + ": seconds")
    top = max(abs(w) for w in want)
    for t, ((g, m), w) in enumerate(zip(got, want)):
        if not close(g, w, rtol=1e-9, atol=5.1e-6):
            raise Violation(f"{what}: {g} at {t} s, expected {w}")
        z = "I" if power and mode == "P" and w == 0 else mode
        need_eq(m, z, f"{what}: control mode at {t} s (value {w})")
    need_close(max(abs(g) for g, _ in got), top, what + ": largest setpoint", atol=5.1e-6)


# ------------------------------------------------------------------ MWF from a profile
@st.composite
def mwf_case(draw):
    run = st.tuples(st.sampled_from([-24, -12, -8, -3, -1, 0, 0, 1, 2, 5, 8, 40]), st.integers(1, 9))
    cfg = dict(DEFAULT)
    if draw(st.booleans()):
        for k, alt in dict(control_mode=["P", "I"], value_scale=[1, 10, 0.5, 40.25], charge_limit_mode=["V", "R", "P"],
                           charge_limit_value=[4.2, 2, 4.15], discharge_limit_mode=["V", "P"], discharge_limit_value=[2.7, 3, 2.45],
                           charge_end_mode_value=[4.25, 4.3], discharge_end_mode_value=[2.5, 2, 3], report_mode=["T", "V"],
                           report_value=[3.0, 10, 0.5], range=["A", "4"], charge_end_mode=["V", "I"], discharge_end_mode=["V", "P"]).items():
            cfg[k] = draw(st.sampled_from(alt))
    return dict(runs=draw(st.lists(run, min_size=1, max_size=12).filter(lambda x: any(a for a, _ in x))), cfg=cfg,
                power=draw(st.booleans()), default=draw(st.booleans()), scale=draw(st.sampled_from([1, 1, 0.125, 1000, 1 / 3])),
                extra=draw(st.booleans()), idx=draw(st.integers(0, 2)), again=draw(st.booleans()))


def run_mwf(c):
    import pandas as pd
    from beep.conversion_schemas import MACCOR_WAVEFORM_CONFIG
    from beep.protocol.maccor import generate_maccor_waveform_file
    prof = [a * c["scale"] for a, n in c["runs"] for _ in range(n)]
    cfg = dict(DEFAULT) if c["default"] else dict(c["cfg"])
    col = "power" if c["power"] or c["default"] else "current"
    df = pd.DataFrame({"time": np.arange(len(prof)), col: prof})
    if c["extra"]:
        df["note"] = "x"
    if c["idx"] == 1:
        df.index = [0] * len(df)
    elif c["idx"] == 2:
        df.index = df.index + 7
    before, g0 = df.copy(deep=True), copy.deepcopy(dict(MACCOR_WAVEFORM_CONFIG))
    need_eq({k: g0[k] for k in FIELDS}, DEFAULT, "the default waveform settings")
    d = scratch.new()
    arg = None if c["default"] else dict(cfg)
    f = generate_maccor_waveform_file(df, "w_1", d, **({} if c["default"] else dict(mwf_config=arg)))
    need_eq(f, os.path.join(d, "w_1.MWF"), "path returned")
    need_eq(os.listdir(d), ["w_1.MWF"], "files written")
    top = max(abs(p) for p in prof)
    want = [p / top * cfg["value_scale"] for p in prof]
    same_profile(playback(f, cfg, col == "power"), want, cfg["control_mode"], col == "power", col)
    need(list(df.columns) == list(before.columns) and df.equals(before), "the profile passed in was changed: {} -> {}", before[col].tolist()[:5], df[col].tolist()[:5])
    need_eq(arg if arg else cfg, cfg, "the settings passed in")
    need_eq(dict(MACCOR_WAVEFORM_CONFIG), g0, "the default settings after writing")
    if c["again"]:
        a = open(f, "rb").read()
        generate_maccor_waveform_file(df, "w_1", d, **({} if c["default"] else dict(mwf_config=arg)))
        need_eq(open(f, "rb").read(), a, "the same waveform written again")
    return {"nontrivial", col}


# ------------------------------------------------------------------ velocity -> power
@st.composite
def vel_case(draw):
    v = st.one_of(st.integers(0, 160).map(lambda x: x / 2), st.just(0))
    return dict(v=draw(st.lists(v, min_size=3, max_size=25)), dt=draw(st.lists(st.sampled_from([1, 1, 1, 2, 0.5]), min_size=25, max_size=25)),
                unit=draw(st.sampled_from(["mph", "kmph", "mps", "mps", "knots"])), t0=draw(st.sampled_from([0, 5])),
                names=draw(st.sampled_from([("Time(s)", "Speed(mph)"), ("t", "v"), ("x", "y")])))


def gradient(v, t):
    n = len(v)
    g = [(v[1] - v[0]) / (t[1] - t[0])]
    for i in range(1, n - 1):
        a, b = t[i] - t[i - 1], t[i + 1] - t[i]
        g.append((a * a * v[i + 1] + (b * b - a * a) * v[i] - b * b * v[i - 1]) / (a * b * (a + b)))
    return g + [(v[-1] - v[-2]) / (t[-1] - t[-2])]


def road_load(v, t):
    a = gradient(v, t)
    return [-(1500 * a[i] + 0.01 * 1500 * 9.8 + 0.5 * 1.225 * 0.34 * 1.75 * v[i] ** 2) * v[i] for i in range(len(v))]


def run_vel(c):
    from beep.utils.waveform import convert_velocity_to_power_waveform
    t = [c["t0"]]
    for k in range(len(c["v"]) - 1):
        t.append(t[-1] + c["dt"][k])
    f = os.path.join(scratch.new(), "v.txt")
    with open(f, "w") as h:
        h.write("\t".join(c["names"]) + "\n")
        for a, b in zip(t, c["v"]):
            h.write(f"{a}\t{b}\n")
    if c["unit"] == "knots":
        try:
            convert_velocity_to_power_waveform(f, velocity_units=c["unit"])
        except NotImplementedError:
            return {"refused"}
        raise Violation("an unknown unit of velocity is accepted")
    df = convert_velocity_to_power_waveform(f, velocity_units=c["unit"])
    need_eq(list(df.columns), ["time", "power"], "columns")
    need_eq([float(x) for x in df["time"]], [float(x) for x in t], "time axis")
    ok = []
    for mile in (1600, 1609.344):
        k = {"mph": mile / 3600, "kmph": 1 / 3.6, "mps": 1}[c["unit"]]
        want = road_load([x * k for x in c["v"]], t)
        ok.append(all(close(a, b, rtol=1e-9, atol=1e-6) for a, b in zip(df["power"], want)))
    need(any(ok), "power for {} {}: {}, expected {}", c["v"], c["unit"], df["power"].tolist(), want)
    return {"nontrivial"} if any(c["v"]) else set()


# ------------------------------------------------------------------ driving profiles
@st.composite
def drive_case(draw):
    return dict(profile=draw(st.sampled_from(["US06", "LA4"])), limit=draw(st.sampled_from([4.2, 4.1, 4.35])), power=draw(st.sampled_from([40, 32.5, 24, 100])),
                n=draw(st.integers(1, 4)), low=draw(st.sampled_from([2.7, 2.5, 3.0])), scaling=draw(st.sampled_from([1.0, 0.6, 0.27, 0.99])),
                series=draw(st.booleans()), twice=draw(st.booleans()), limit2=draw(st.sampled_from([4.2, 4.15])), sub=draw(st.booleans()))


def run_drive(c):
    import pandas as pd
    from beep.conversion_schemas import MACCOR_WAVEFORM_CONFIG
    from beep.protocol import PROTOCOL_SCHEMA_DIR
    from beep.protocol.maccor import insert_driving_parametersv1
    g0 = copy.deepcopy(dict(MACCOR_WAVEFORM_CONFIG))
    need_eq({k: g0[k] for k in FIELDS}, DEFAULT, "the default waveform settings")
    with open(os.path.join(PROTOCOL_SCHEMA_DIR, c["profile"] + "_velocity_waveform.txt")) as f:
        tv = [tuple(map(float, x.split())) for x in f.read().splitlines()[1:] if x.strip()]
    unit = {}
    for mile in (1600, 1609.344):
        p = road_load([v * mile / 3600 for _, v in tv], [t for t, _ in tv])
        top = max(abs(x) for x in p)
        unit[mile] = [x / top for x in p]
    base = scratch.new()
    d = os.path.join(base, "a", "mwf") if c["sub"] else base
    for k, lim in enumerate([c["limit"]] + ([c["limit2"]] if c["twice"] else [])):
        q = dict(discharge_profile=c["profile"], profile_charge_limit=lim, max_profile_power=c["power"] + k, n_repeats=c["n"] + k,
                 discharge_cutoff_voltage=c["low"], power_scaling=c["scaling"], project_name="Drive")
        row = pd.Series(q, dtype=object) if c["series"] else dict(q)
        f = insert_driving_parametersv1(row, waveform_directory=d)
        need_eq(dict(row), q, "the parameters passed in")
        need_eq(dict(MACCOR_WAVEFORM_CONFIG), g0, "the default settings after a driving profile was made")
        w = q["max_profile_power"] * q["power_scaling"]
        need_eq(f, os.path.join(d, "{}_x{}_{}W.MWF".format(c["profile"], q["n_repeats"], int(w))), "path returned")
        cfg = dict(DEFAULT, value_scale=w, charge_limit_value=lim, charge_end_mode_value=lim + 0.05, discharge_end_mode_value=c["low"] - 0.1)
        got = playback(f, cfg, True)
        err = None
        for mile in unit:
            try:
                same_profile(got, [x * w for x in unit[mile]] * q["n_repeats"], "P", True, c["profile"])
                err = None
                break
            except Violation as e:
                err = err or e
        if err:
            raise err
    return {"nontrivial"}


# ------------------------------------------------------------------ fast charging
@st.composite
def charge_case(draw):
    soc = sorted(draw(st.lists(st.integers(1, 19), min_size=4, max_size=4, unique=True)))
    return dict(soc=[x / 20 for x in soc], rates=draw(st.lists(st.integers(4, 50).map(lambda x: x / 20), min_size=4, max_size=4)),
                kind=draw(st.sampled_from(["smooth", "step", "step", "other"] + ["smooth"] * 3)), cap=draw(st.sampled_from([4.84, 1.1, 2])),
                vmax=draw(st.sampled_from([4.2, 4.1])), off=draw(st.sampled_from([0.01, 0.05])), seq=draw(st.integers(0, 999)),
                project=draw(st.sampled_from(["RapidC", "RapidC", "AVeryLongProjectName"])), swap=draw(st.sampled_from([None] * 4 + [0, 1, 2])),
                kmax=draw(st.sampled_from([3.0, 3.0, 2.0])), kmin=draw(st.sampled_from([0.2, 0.2, 0.5])), series=draw(st.booleans()))


def run_charge(c):
    import pandas as pd
    from beep.protocol.maccor import insert_charging_parametersv1
    s = list(c["soc"])
    if c["swap"] is not None:
        s[c["swap"]], s[c["swap"] + 1] = s[c["swap"] + 1], s[c["swap"]]
    r = c["rates"]
    q = dict(charge_type_1=c["kind"], charge_start_soc=s[0], charge_current_param_1=r[0], charge_current_param_2=r[1],
             charge_current_param_3=r[2], charge_current_param_4=r[3], charge_soc_param_1=s[1], charge_soc_param_2=s[2],
             charge_fast_soc_limit=s[3], charge_cutoff_voltage=c["vmax"], charge_voltage_offset_1=c["off"], capacity_nominal=c["cap"],
             project_name=c["project"], seq_num=c["seq"])
    row = pd.Series(q, dtype=object) if c["series"] else dict(q)
    d = os.path.join(scratch.new(), "w")
    try:
        f = insert_charging_parametersv1(row, waveform_directory=d, max_c_rate=c["kmax"], min_c_rate=c["kmin"])
    except AssertionError:
        if os.path.isdir(d):
            need_eq(os.listdir(d), [], "files left behind by a refused charge")
        return {"refused"}
    except NotImplementedError:
        need_eq(c["kind"], "other", "kind of charge refused")
        return {"refused"}
    except (ValueError, IndexError):
        if c["swap"] is None:
            raise
        return {"refused"}
    need(c["swap"] is None, "state-of-charge windows {} are not increasing, but were accepted", s)
    need(c["kind"] != "other", "kind of charge {!r} was accepted", c["kind"])
    need_eq(dict(row), q, "the parameters passed in")
    need_eq(f, os.path.join(d, "{}_{}_{}.MWF".format(c["project"], c["kind"], c["seq"])), "path returned")
    got = playback(f, dict(DEFAULT, control_mode="I", charge_limit_value=c["vmax"] - c["off"]), False)
    I = [g / c["cap"] for g, _ in got]
    need(all(m == "I" for _, m in got), "control mode")
    eps = 1e-4
    need(max(I) <= c["kmax"] + eps, "{} C exceeds the limit of {} C", max(I), c["kmax"])
    need(min(I) > 0, "the charge is interrupted: {} C", min(I))
    q_in = sum(I) / 3600
    h = (s[3] - s[0]) / 999                        # grid of the charging profile
    need(abs(q_in - (s[3] - s[0])) <= 3 * h + 4 * max(I) / 3600, "{} of the capacity is charged instead of {}", q_in, s[3] - s[0])
    # the charging time is that of the stepwise charge
    T = sum((s[k + 1] - s[k]) / r[k] for k in range(3)) * 3600
    need(abs(len(I) - T) <= 6 + 0.004 * T + 3 * h * 3600 / min(r), "charging takes {} s instead of {}", len(I), T)
    if c["kind"] == "step":
        z, bad = s[0], 0
        for x in I:
            z += x / 3600
            k = sum(z >= b for b in s[1:3])
            if min(abs(z - b) for b in s) > 2.5 * h + 5 * max(r) / 3600 and not close(x, r[k], rtol=0, atol=eps):
                raise Violation(f"{x} C at a state of charge of {z}, expected {r[k]} C (windows {s}, rates {r})")
    else:
        need(min(I) >= min(c["kmin"], min(r)) - eps, "{} C is below the limit of {} C", min(I), c["kmin"])
        jump = max([abs(a - b) for a, b in zip(I, I[1:])] or [0])
        need(jump <= 0.35 * (max(r) + c["kmax"]), "jump of {} C in a smooth charge", jump)
        # the curve passes through the first rate in the middle of the first window, and ends at the last one;
        # the two rates between are shifted by one and the same amount (or limited)
        z = s[0] + np.cumsum(I) / 3600
        lim = [min(max(x, c["kmin"]), c["kmax"]) for x in r]
        sh, room = [], []
        for k, at in enumerate([(s[0] + s[1]) / 2, (s[1] + s[2]) / 2, (s[2] + s[3]) / 2, s[3]]):
            i = int(np.argmin(abs(z - at)))
            part = I[max(0, i - 8):i + 9]
            tol = 0.02 + max(part) - min(part)
            if k in (0, 3):
                need(abs(I[i] - lim[k]) <= tol, "{} C at a state of charge of {}, expected {} C", I[i], at, lim[k])
            else:
                sh.append(I[i] - r[k])
                room.append(tol if c["kmin"] + tol < I[i] < c["kmax"] - tol else None)
        if None not in room:
            need(abs(sh[0] - sh[1]) <= sum(room), "the rates of the smooth charge are shifted by {} and {} C", *sh)
    return {"nontrivial", c["kind"]}


SUBS = [
    Sub("mwf", mwf_case, run_mwf, 400, 6000, shards=2, shards_thorough=4),
    Sub("velocity", vel_case, run_vel, 200, 3000),
    Sub("drive", drive_case, run_drive, 40, 500, shards=1, shards_thorough=4),
    Sub("charge", charge_case, run_charge, 120, 2000, shards=2, shards_thorough=6),
]
