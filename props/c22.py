"""Parameterised Maccor procedures: every named step gets its value, everything else stays as in the template."""
import copy
import os
import re

import xmltodict
from hypothesis import strategies as st

from props.c21 import plain
from vlib import scratch
from vlib.core import Sub, Violation, close, need, need_eq

PROPERTY = "C22"
RULE = ("capacity, C-rates, cut-offs, durations (beyond a day included), loop counts and diagnostic parameters drawn for each procedure "
        "kind, given as dictionary or table row; built, written and read back; non-trivial when a procedure was built and every one of "
        "its steps compared")
ORACLE = ("the template as parsed from its file, overridden by a table of (step, field) -> value written from the documented meaning "
          "of each parameter; times judged by the seconds they denote")
ASSUMPTIONS = ["durations are whole seconds", "the template is one of those shipped, with the layout it is used with"]

RATES = [0.05, 0.1, 0.1429, 0.2, 0.333, 0.5, 0.75, 1, 1.5, 2, 2.75, 3.6]


@st.composite
def case(draw):
    r = lambda: draw(st.sampled_from(RATES))
    mins = lambda: draw(st.one_of(st.integers(0, 90), st.sampled_from([1439, 1440, 1500, 2880, 4321, 60, 600])))
    kind = draw(st.sampled_from(["reg2", "reg3", "reg3", "drive", "charge"]))
    vmax = draw(st.integers(3500, 4400)) / 1000
    p = dict(charge_constant_current_1=r(), charge_percent_limit_1=draw(st.integers(1, 100)), charge_constant_current_2=r(),
             charge_cutoff_voltage=vmax, charge_constant_voltage_time=mins(), charge_rest_time=mins(),
             discharge_constant_current=r(), discharge_cutoff_voltage=draw(st.integers(2000, 3300)) / 1000, discharge_rest_time=mins(),
             cell_temperature_nominal=25, capacity_nominal=draw(st.one_of(st.integers(1, 6000).map(lambda x: x / 1000), st.sampled_from([1.1, 4.84, 3.71, 250]))),
             diagnostic_start_cycle=draw(st.integers(1, 400)), diagnostic_interval=draw(st.integers(1, 400)),
             charge_current_param_4=r(), charge_fast_soc_limit=draw(st.integers(1, 99)) / 100)
    if kind == "drive":
        p["charge_constant_current_1"], p["charge_constant_current_2"] = sorted([p["charge_constant_current_1"], p["charge_constant_current_2"]])
    d = dict(diagnostic_charge_cutoff_voltage=draw(st.integers(3500, 4400)) / 1000, diagnostic_discharge_cutoff_voltage=draw(st.integers(2000, 3300)) / 1000,
             diagnostic_cutoff_current=r() / 10, HPPC_baseline_constant_current=r(), HPPC_pulse_cutoff_voltage=draw(st.integers(3500, 4400)) / 1000,
             HPPC_pulse_current_1=r(), HPPC_pulse_current_2=r(), HPPC_pulse_duration_1=draw(st.integers(1, 4000)),
             HPPC_pulse_rest_time=draw(st.integers(1, 4000)), HPPC_pulse_duration_2=draw(st.integers(1, 4000)), HPPC_interval=draw(st.integers(1, 100)),
             HPPC_rest_time=mins(), RPT_charge_constant_current=r(), RPT_discharge_constant_current_1=r(), RPT_discharge_constant_current_2=r(),
             RPT_discharge_constant_current_3=r(), reset_cycle_current=r(), reset_cycle_cutoff_current=r() / 10)
    return dict(kind=kind, p=p, d=d, diag=draw(st.booleans()), index=draw(st.integers(0, 500)), series=draw(st.booleans()),
                template=draw(st.sampled_from(["default", "V3", "V5", "V4"])), order=draw(st.booleans()),
                wave=draw(st.sampled_from(["US06_x4_24W.MWF", "w.MWF", "RapidC_smooth_000100.mwf", "LA4_x12_18W.MWF", "a" * 24 + ".MWF"])),
                wdir=draw(st.sampled_from(["mwf_files", "out.d", ".", "a b", "v1.2/x.y"])), wlimit=draw(st.integers(1, 60)) / 1000,
                bad=draw(st.sampled_from([None] * 12 + ["cutoff", "rates", "long", "ext", "wlimit"])), rel=draw(st.booleans()))


class T(float):
    """a duration, to be rounded to seconds (either way in a tie)"""


class R(float):
    """a value to be rounded to n decimals (either way in a tie)"""

    def __new__(cls, v, n):
        x = super().__new__(cls, v)
        x.n = n
        return x


def table(kind, p, d, index, wave):
    """(step, field path) -> value, steps counted from zero"""
    q = p["capacity_nominal"]
    amp = lambda rate, n=3: R(q * rate, n)
    o = {}

    def end(i, k, v):
        o[i, "Ends", "EndEntry", k, "Value"] = v

    def charge(i, v3):
        o[i, "StepValue"] = amp(p["charge_constant_current_1"])
        end(i, 0, T(3600 * p["charge_percent_limit_1"] / 100 / p["charge_constant_current_1"]))
        if v3:
            end(i, 1, round(p["charge_cutoff_voltage"], 3))
        cv(i, p["charge_constant_current_2"])

    def cv(i, rate):
        o[i + 1, "StepValue"] = amp(rate)
        end(i + 1, 0, round(p["charge_cutoff_voltage"], 3))
        o[i + 2, "StepValue"] = p["charge_cutoff_voltage"]
        end(i + 2, 0, T(60 * p["charge_constant_voltage_time"]))
        end(i + 3, 0, T(60 * p["charge_rest_time"]))

    def fast(i):
        o[i, "StepType"] = "FastWave"
        o[i, "StepValue"] = wave
        for k in ("StepMode", "Ends", "Reports", "Range", "Option1", "Option2", "Option3"):
            o[i, k] = None

    def rest_loop(i):
        end(i + 1, 0, T(60 * p["discharge_rest_time"]))
        o[i + 3, "Ends", "EndEntry", "Value"] = p["diagnostic_start_cycle"] if i == 32 else p["diagnostic_interval"]

    def discharge(i):
        o[i, "StepValue"] = amp(p["discharge_constant_current"])
        end(i, 0, round(p["discharge_cutoff_voltage"], 3))

    o[1, "StepValue"] = amp(1)                                     # resistance check at 1C
    for c0, d0 in ((28, 32), (60, 64)):                            # the initial and the repeated block of regular cycles
        if kind == "charge":
            fast(c0)
            cv(c0, p["charge_current_param_4"])
        else:
            charge(c0, kind != "reg2")
        if kind == "drive":
            fast(d0)
        else:
            discharge(d0)
        rest_loop(d0)
    s = 69 if kind == "reg2" else 93                               # storage
    o[s, "StepValue"] = amp(0.5)
    o[s, "Limits", "Voltage"] = round(p["discharge_cutoff_voltage"], 3)
    if kind == "reg2":
        o[s, "Ends", "EndEntry", "Value"] = amp(0.05)
    else:
        end(s, 0, amp(0.05))
    o[s + 1, "StepValue"] = amp(0.5)
    end(s + 1, 0, T(720))
    if kind != "reg2":
        end(0, 0, T(3 * 3600 + 720 * (index % 96)))
    if d:
        for reset, hppc, rpt in ((4, 8, 18), (37, 40, 50)) + (((70, 74, 84),) if kind != "reg2" else ()):
            vmax, vmin = round(d["diagnostic_charge_cutoff_voltage"], 3), round(d["diagnostic_discharge_cutoff_voltage"], 3)
            o[reset, "StepValue"] = o[reset + 1, "StepValue"] = amp(d["reset_cycle_current"], 4)
            o[reset, "Limits", "Voltage"] = vmax
            end(reset, 0, amp(d["reset_cycle_cutoff_current"], 4))
            end(reset + 1, 0, vmin)
            base = d["HPPC_baseline_constant_current"]
            o[hppc, "StepValue"] = amp(base)
            o[hppc, "Limits", "Voltage"] = vmax
            end(hppc, 0, amp(d["diagnostic_cutoff_current"]))
            end(hppc + 2, 0, T(60 * d["HPPC_rest_time"]))
            o[hppc + 3, "StepValue"] = amp(d["HPPC_pulse_current_1"])
            end(hppc + 3, 0, T(d["HPPC_pulse_duration_1"]))
            end(hppc + 3, 1, vmin)
            end(hppc + 4, 0, T(d["HPPC_pulse_rest_time"]))
            o[hppc + 5, "StepValue"] = amp(d["HPPC_pulse_current_2"])
            end(hppc + 5, 0, T(d["HPPC_pulse_duration_2"]))
            end(hppc + 5, 1, round(d["HPPC_pulse_cutoff_voltage"], 3))
            o[hppc + 6, "StepValue"] = amp(base)
            end(hppc + 6, 0, T(36 * d["HPPC_interval"] / base - 1))
            end(hppc + 6, 1, vmin)
            o[hppc + 8, "StepValue"] = vmin
            o[hppc + 8, "Limits", "Current"] = amp(base)
            end(hppc + 8, 0, amp(d["diagnostic_cutoff_current"]))
            for k in range(3):
                o[rpt + 3 * k, "StepValue"] = amp(d["RPT_charge_constant_current"])
                o[rpt + 3 * k, "Limits", "Voltage"] = vmax
                end(rpt + 3 * k, 0, amp(d["diagnostic_cutoff_current"]))
                o[rpt + 3 * k + 1, "StepValue"] = amp(d["RPT_discharge_constant_current_%d" % (k + 1)])
                end(rpt + 3 * k + 1, 0, vmin)
    return o


def seconds(v):
    m = re.fullmatch(r"(\d{2,}):([0-5]\d):([0-5]\d)", str(v))
    need(m, "{!r} is not a step time", v)
    return int(m[1]) * 3600 + int(m[2]) * 60 + int(m[3])


def compare(got, tmpl, over, path=()):
    """got must equal tmpl except where over says otherwise"""
    what = "step " + " ".join(map(str, path))
    if path in over:
        v = over[path]
        if isinstance(v, T):
            s = seconds(got)
            need(abs(s - v) <= 0.5 + 1e-6, "{}: {} is {} s, expected {} s", what, got, s, float(v))
        elif v is None or isinstance(v, str):
            need((got or None) == v, "{}: {!r}, expected {!r}", what, got, v)
        else:
            try:
                ok = close(float(got), v, rtol=0, atol=1e-9)
                if isinstance(v, R):
                    ok = abs(float(got) - v) <= 0.5 * 10 ** -v.n + 1e-9 and close(float(got), round(float(got), v.n), rtol=0, atol=1e-9)
            except (TypeError, ValueError):
                ok = False
            need(ok, "{}: {!r}, expected {!r}", what, got, v)
        return 1
    if isinstance(tmpl, dict):
        need(isinstance(got, dict) and list(got) == list(tmpl), "{}: {!r}, template has {!r}", what, got, tmpl)
        return sum(compare(got[k], tmpl[k], over, path + (k,)) for k in tmpl)
    if isinstance(tmpl, list):
        need(isinstance(got, list) and len(got) == len(tmpl), "{}: {!r}, template has {!r}", what, got, tmpl)
        return sum(compare(a, b, over, path + (k,)) for k, (a, b) in enumerate(zip(got, tmpl)))
    need_eq(got, tmpl, what + " (not to be changed)")
    return 0


def parse(f):
    return plain(xmltodict.parse(open(f, "rb").read().decode(), process_namespaces=False, strip_whitespace=True))


def check(proc, template, over, what):
    t = parse(template)
    g = plain(proc)
    ts, gs = t["MaccorTestProcedure"]["ProcSteps"].pop("TestStep"), g["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
    rest = copy.deepcopy(g)
    rest["MaccorTestProcedure"]["ProcSteps"].pop("TestStep")
    need_eq(rest, t, what + ": outside the steps")
    n = compare(gs, ts, over)
    need_eq(n, len(over), what + ": values placed")


def run(c):
    import pandas as pd
    from beep.protocol import PROCEDURE_TEMPLATE_DIR
    from beep.protocol.maccor import Procedure
    kind, p, d, bad = c["kind"], dict(c["p"]), c["d"], c["bad"]
    name = c["wave"]
    if bad == "cutoff":
        p["charge_cutoff_voltage"] = p["discharge_cutoff_voltage"] - 0.1
    elif bad == "rates" and kind == "drive":
        p["charge_constant_current_1"] = p["charge_constant_current_2"] + 0.5
    elif bad == "long" and kind in ("drive", "charge"):
        name = "a" * 25 + ".MWF"
    elif bad == "ext" and kind in ("drive", "charge"):
        name = "wave.txt"
    elif not (bad == "wlimit" and kind == "charge"):
        bad = None
    base = scratch.new()
    os.makedirs(os.path.join(base, c["wdir"]), exist_ok=True)
    wf = os.path.join(base, c["wdir"], name)
    lim = p["charge_cutoff_voltage"] - c["wlimit"] if bad != "wlimit" else p["charge_cutoff_voltage"] + c["wlimit"]
    with open(wf, "w") as f:
        for k in range(3):
            f.write("\t".join(map(str, ["C", "I", 1.5 - k / 4, "V", round(lim - 0.1 * (k != 1), 6), 60, "V", ">=", 4.35, "T", 3.0, "A"])) + "\n")
    if c["rel"]:
        os.chdir(base)
        wf = os.path.join(c["wdir"], name) if c["wdir"] != "." else "./" + name
    dflt = {"reg2": "diagnosticV2.000", "reg3": "diagnosticV3.000", "drive": "drivingV1.000", "charge": "diagnosticV4.000"}[kind]
    tn = dflt if c["template"] == "default" or kind == "reg2" else "diagnostic%s.000" % c["template"]
    tmpl = os.path.join(PROCEDURE_TEMPLATE_DIR, tn)
    arg = None if c["template"] == "default" else tmpl
    row = dict(p, project_name="X", template=tn)
    row = pd.Series(row, dtype=object) if c["series"] else row
    dd = pd.Series(dict(d, diagnostic_type="HPPC+RPT"), dtype=object) if c["series"] else dict(d)
    row0, dd0 = copy.deepcopy(row), copy.deepcopy(dd)

    def build():
        if kind == "reg2":
            return Procedure.from_regcyclev2(row, template=arg) if arg else Procedure.from_regcyclev2(row)
        kw = dict(template=arg) if arg else {}
        if kind == "reg3":
            return Procedure.generate_procedure_regcyclev3(c["index"], row, **kw)
        f = Procedure.generate_procedure_drivingv1 if kind == "drive" else Procedure.generate_procedure_chargingv1
        return f(c["index"], row, wf, **kw)

    if bad:
        try:
            build()
        except AssertionError:
            return {"refused:" + bad}
        raise Violation(f"{kind} accepts {bad}: {p} {name}")
    pr = build()
    stem = os.path.splitext(name)[0]
    if c["order"]:
        check(pr, tmpl, table(kind, p, None, c["index"], stem), kind)
    diag = d if c["diag"] else None
    if diag:
        add = pr.add_procedure_diagcyclev2 if kind == "reg2" else pr.generate_procedure_diagcyclev3
        r = add(p["capacity_nominal"], dd)
        need(r is pr, "adding diagnostics does not return the procedure")
    over = table(kind, p, diag, c["index"], stem)
    check(pr, tmpl, over, kind)
    need_eq(list(dict(row).items()), list(dict(row0).items()), "the parameters passed in")
    need_eq(list(dict(dd).items()), list(dict(dd0).items()), "the diagnostic parameters passed in")
    f = os.path.join(base, "out.000")
    pr.to_file(f)
    check(Procedure.from_file(f), tmpl, over, kind + " from file")
    return {"nontrivial", kind} | ({"diagnostics"} if diag else set())


# ------------------------------------------------------------------ EXP and end-of-test limits
@st.composite
def exp_case(draw):
    v = st.sampled_from([4.2, 4, "4.1", 3.65])
    r = st.sampled_from(["2.0C", 1, 0.5, "0.5C", 3.25])
    return dict(v=draw(v), c=draw(r), d=draw(r), file=draw(st.booleans()))


def run_exp(c):
    from beep.protocol import PROCEDURE_TEMPLATE_DIR
    from beep.protocol.maccor import Procedure
    tmpl = os.path.join(PROCEDURE_TEMPLATE_DIR, "EXP.000")
    ts = parse(tmpl)["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
    types = [s["StepType"] for s in ts]
    a, b = types.index("Do 1"), types.index("Loop 1")
    over = {}
    for i, s in enumerate(ts):
        if s["StepType"] == "Charge" and s["Limits"] and "Voltage" in s["Limits"]:
            over[i, "Limits", "Voltage"] = c["v"]
        if a < i < b and s["StepMode"] == "Current" and s["StepType"] in ("Charge", "Dischrge"):
            over[i, "StepValue"] = c["c"] if s["StepType"] == "Charge" else c["d"]
    p = Procedure.from_exp(c["v"], c["c"], c["d"], **(dict(template=tmpl) if c["file"] else {}))
    check(p, tmpl, over, "EXP")
    return {"nontrivial"}


@st.composite
def skip_case(draw):
    return dict(t=draw(st.sampled_from(["diagnosticV3.000", "diagnosticV2.000", "EXP.000", "drivingV1.000", "BioTest_000001.000"])),
                hi=draw(st.sampled_from([4.5, 4.25, "4.4", 3.9])), lo=draw(st.sampled_from([2, 2.45, 1.999, "1"])),
                key=draw(st.sampled_from(["070", "070", "023", "096", "015", "017"])), new=draw(st.sampled_from([None, "095", "002"])),
                default=draw(st.booleans()), keep=draw(st.lists(st.tuples(st.integers(0, 95), st.integers(0, 3)), max_size=4)))


def run_skip(c):
    from beep.protocol import PROCEDURE_TEMPLATE_DIR
    from beep.protocol.maccor import Procedure
    p = Procedure.from_file(os.path.join(PROCEDURE_TEMPLATE_DIR, c["t"]))
    steps = p["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
    for i, k in c["keep"]:                     # steps with a single ending, as they are read from a file
        s = steps[i % len(steps)]
        if s["Ends"] and isinstance(s["Ends"]["EndEntry"], list):
            s["Ends"]["EndEntry"] = s["Ends"]["EndEntry"][k % len(s["Ends"]["EndEntry"])]
    ts = plain(copy.deepcopy(steps))
    key = "070" if c["default"] else c["key"]
    n = 0
    for s in ts:
        e = s["Ends"]["EndEntry"] if s["Ends"] else []
        for x in e if isinstance(e, list) else [e]:
            if x["Step"] == key and x["EndType"] == "Voltage" and x["Oper"] in (">=", "<="):
                x["Value"] = c["hi"] if x["Oper"] == ">=" else c["lo"]
                if c["new"]:
                    x["Step"] = c["new"]
                n += 1
    kw = {} if c["default"] else dict(step_key=key)
    if c["new"]:
        kw["new_step_key"] = c["new"]
    r = p.set_skip_to_end_diagnostic(c["hi"], c["lo"], **kw)
    need(r is p, "set_skip_to_end_diagnostic does not return the procedure")
    compare(plain(p)["MaccorTestProcedure"]["ProcSteps"]["TestStep"], ts, {})
    return {"nontrivial"} if n else set()


SUBS = [
    Sub("procedures", case, run, 180, 3000, shards=3, shards_thorough=6),
    Sub("exp", exp_case, run_exp, 40, 300),
    Sub("skip", skip_case, run_skip, 60, 800),
]
