"""Batch generation: one correct file per supported row of the parameter table, every other row reported."""
import csv
import json
import os
import re

from hypothesis import strategies as st

from props import c22, c23
from vlib import scratch
from vlib.core import KnownFinding, Sub, Violation, close, need, need_eq

PROPERTY = "C24"
RULE = ("parameter tables of one to six rows of one project family (EXP, diagnostic, fast charge, driving, formation) with drawn "
        "values, diagnostic sets and templates, unsupported templates among them, generated one to two times into a drawn directory; "
        "non-trivial when at least one file was generated and compared")
ORACLE = ("the tables of C22 applied to each row's own values and diagnostic set, the waveform of each row generated on its own, "
          "and the row-by-row list of what has to be generated and reported")
ASSUMPTIONS = ["project name and sequence number identify a row", "rows of a supported template carry complete and consistent parameters",
               "rows asking for diagnosticV1 are not judged"]

UNSUPPORTED = ["EXP-SOH.000", "diagnosticV9.000", "schedule.sdu", "20170630-3_6C_9per_5C.sdu", "formationV9.mps", "notes.txt"]
SETS = ["Tesla21700", "BJ-A1003335AA", "18650HD2", "LiFun72530", "NCR18650B", "PHEVNMC"]
# what each formation parameter sets: (step, field, factor from capacity)
FORM = dict(initial_charge_current_1=[(2, "ctrl1_val", "A")], initial_charge_voltage_1=[(2, "lim1_value", "V"), (3, "ctrl1_val", "V")],
            initial_charge_cvhold_1=[(3, "lim1_value", "mn")], initial_charge_rest_1=[(4, "lim1_value", "mn")],
            initial_charge_current_2=[(5, "ctrl1_val", "A")], initial_charge_voltage_2=[(5, "lim1_value", "V"), (6, "ctrl1_val", "V")],
            initial_charge_cvhold_2=[(6, "lim1_value", "mn")], initial_charge_rest_2=[(7, "lim1_value", "mn")],
            initial_discharge_current_1=[(8, "ctrl1_val", "A")], initial_discharge_voltage_1=[(8, "lim1_value", "V")],
            mid_charge_current_1=[(9, "ctrl1_val", "A")], mid_charge_voltage_1=[(9, "lim1_value", "V")],
            mid_discharge_current_1=[(10, "ctrl1_val", "A")], mid_discharge_voltage_1=[(10, "lim1_value", "V")],
            mid_cycle_reps=[(11, "ctrl_repeat", "n")], final_charge_current_1=[(12, "ctrl1_val", "A")],
            final_charge_voltage_1=[(12, "lim1_value", "V")], final_discharge_current_1=[(13, "ctrl1_val", "A")],
            final_discharge_voltage_1=[(13, "lim1_value", "V"), (14, "ctrl1_val", "V")], final_discharge_cvhold_1=[(14, "lim1_value", "mn")])


@st.composite
def formation(draw):
    p = dict(capacity_nominal=draw(st.integers(1, 5000)) / 1000)
    for k in FORM:
        if "current" in k:
            p[k] = draw(st.sampled_from([0.05, 0.1, 0.2, 0.5, 1, 0.333]))
        elif "voltage" in k:
            p[k] = draw(st.integers(2500, 4400)) / 1000
        elif k == "mid_cycle_reps":
            p[k] = draw(st.integers(1, 30))
        else:
            p[k] = draw(st.sampled_from([30, 60, 1440, 0.5, 7.25]))
    p["initial_temperature_1"] = 30
    return p


@st.composite
def case(draw):
    fam = draw(st.sampled_from(["EXP", "PreDiag", "PreDiag", "RapidC", "Drive", "Drive", "Form", "Form"]))
    r = lambda: draw(st.sampled_from([0.2, 0.5, 1, 1.5, 2]))
    mins = lambda: draw(st.sampled_from([5, 15, 30, 90, 1500]))
    rows = []
    for k in range(draw(st.integers(1, 4 if fam in ("RapidC", "Drive") else 6))):
        t = None
        if fam == "EXP":
            p, t = dict(cutoff_voltage=draw(st.sampled_from([4.2, 4, 4.1])), charge_rate=r(), discharge_rate=r()), "EXP.000"
        elif fam == "Form":
            p, t = draw(formation()), "formationV1.mps"
        else:
            p = dict(charge_cutoff_voltage=draw(st.sampled_from([4.1, 4.2, 3.6])), charge_constant_voltage_time=mins(), charge_rest_time=mins(),
                     discharge_cutoff_voltage=draw(st.sampled_from([2.7, 2.5, 3.0])), discharge_rest_time=mins(), cell_temperature_nominal=25,
                     cell_type="X", capacity_nominal=draw(st.sampled_from([4.84, 1.1, 3.71, 0.25])), diagnostic_type="HPPC+RPT",
                     diagnostic_parameter_set=draw(st.sampled_from(SETS)), diagnostic_start_cycle=draw(st.integers(1, 99)), diagnostic_interval=draw(st.integers(1, 99)))
            if fam == "RapidC":
                t = draw(st.sampled_from(["diagnosticV4.000", "diagnosticV4.000", "diagnosticV3.000"]))
                w = draw(st.sampled_from([[1.5, 2, 1, 0.5], [1, 1.5, 1.25, 0.75], [2, 1.5, 1, 0.5]]))
                p.update(charge_type_1=draw(st.sampled_from(["step", "smooth"])), charge_start_soc=0.05, charge_soc_param_1=0.2, charge_soc_param_2=0.5,
                         charge_fast_soc_limit=0.8, charge_voltage_offset_1=0.01, discharge_constant_current=r(),
                         **{"charge_current_param_%d" % (i + 1): w[i] for i in range(4)})
            else:
                a, b = sorted([r(), r()])
                p.update(charge_constant_current_1=a, charge_percent_limit_1=draw(st.integers(10, 90)), charge_constant_current_2=b)
                if fam == "Drive":
                    t = draw(st.sampled_from(["diagnosticV5.000", "drivingV1.000"]))
                    p.update(discharge_profile=draw(st.sampled_from(["US06", "LA4"])), profile_charge_limit=draw(st.sampled_from([4.2, 4.3])),
                             max_profile_power=draw(st.sampled_from([40, 30])), n_repeats=draw(st.integers(1, 2)), power_scaling=draw(st.sampled_from([0.6, 0.27, 1])))
                else:
                    t = draw(st.sampled_from(["diagnosticV2.000", "diagnosticV3.000", "diagnosticV4.000", "diagnosticV5.000"]))
                    p["discharge_constant_current"] = r()
        if draw(st.integers(0, 4)) == 0:
            t = draw(st.sampled_from(UNSUPPORTED))
        rows.append(dict(p, template=t))
    return dict(fam=fam, rows=rows, seq0=draw(st.integers(0, 999999 - 30)), step=draw(st.integers(1, 3)), pad=draw(st.booleans()),
                name=draw(st.sampled_from(["p_params.csv", "Drive_parameters - GP.csv", "x.csv", "a b.csv"])), rel=draw(st.booleans()),
                out=draw(st.sampled_from(["out", "a/b.c", "."])), pre=draw(st.booleans()), again=draw(st.integers(0, 3)) == 0)


def diag_sets():
    from beep.protocol import PROCEDURE_TEMPLATE_DIR
    with open(os.path.join(PROCEDURE_TEMPLATE_DIR, "PreDiag_parameters - DP.csv"), newline="") as f:
        out = {}
        for r in csv.DictReader(f):
            d = {}
            for k, v in r.items():
                try:
                    d[k] = float(v)
                except (TypeError, ValueError):
                    d[k] = v
            out[r["diagnostic_parameter_set"]] = d
        return out


def check_form(path, row):
    """the settings file against the template's own text, column by column"""
    from beep.protocol import BIOLOGIC_TEMPLATE_DIR
    read = lambda f: open(f, "rb").read().decode("ISO-8859-1").split("\r\n")
    t, g = read(os.path.join(BIOLOGIC_TEMPLATE_DIR, "formationV1.mps")), read(path)
    need_eq(len(g), len(t), "lines of the settings file")
    over = {}
    for k, places in FORM.items():
        for s, f, u in places:
            over[f, s] = (row[k] * row["capacity_nominal"] if u == "A" else row[k] - 1 if u == "n" else row[k]), u
    seen = set()
    for a, b in zip(t, g):
        f = a[:20].strip()
        cols = {s for (h, s) in over if h == f}
        if not cols or "Ns " not in "\n".join(t):
            need_eq(b, a, "line not to be changed")
            continue
        need_eq(b[:20], a[:20], "row name")
        need_eq(len(b), len(a), f"width of row {f}")
        for s in range(1, len(a) // 20):
            x, y = a[s * 20:(s + 1) * 20], b[s * 20:(s + 1) * 20]
            if s in cols:
                v, u = over[f, s]
                seen.add((f, s))
                need(close(float(y), v, rtol=0, atol=0.00051), "{} of step {}: {!r}, expected {}", f, s, y, v)
                if u == "n":
                    need_eq(y.strip(), str(int(v)), "number of repetitions")
            else:
                need_eq(y, x, f"{f} of step {s}, not to be changed")
    need_eq(seen, set(over), "fields found in the settings file")


def run(c):
    from beep.protocol import PROCEDURE_TEMPLATE_DIR
    from beep.protocol.generate_protocol import generate_protocol_files_from_csv
    from beep.protocol.maccor import insert_charging_parametersv1, insert_driving_parametersv1
    fam = c["fam"]
    base = scratch.new()
    os.chdir(base)
    out = c["out"] if c["rel"] else os.path.normpath(os.path.join(base, c["out"]))
    if c["pre"]:
        os.makedirs(os.path.join(out, "procedures"), exist_ok=True)
    sets = diag_sets()
    project = {"PreDiag": "PreDiag"}.get(fam, fam)
    lab = {fam}
    templates = {f: open(os.path.join(PROCEDURE_TEMPLATE_DIR, f), "rb").read() for f in os.listdir(PROCEDURE_TEMPLATE_DIR)
                 if os.path.isfile(os.path.join(PROCEDURE_TEMPLATE_DIR, f))}
    everything, collision = {}, None
    for rnd in range(2 if c["again"] else 1):
        rows = [dict(project_name=project, seq_num=c["seq0"] + k * c["step"], **r) for k, r in enumerate(c["rows"] if rnd == 0 else c["rows"][::-1])]
        os.makedirs(os.path.join(base, "csv%d" % rnd))
        cf = os.path.join(base, "csv%d" % rnd, c["name"])
        cols = ["project_name", "seq_num", "template"] + sorted({k for r in rows for k in r} - {"project_name", "seq_num", "template"})
        with open(cf, "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(cols)
            for r in rows:
                w.writerow(["%06d" % r[k] if k == "seq_num" and c["pad"] else r[k] for k in cols])
        if rnd:
            for f in os.listdir(os.path.join(out, "names")):
                os.remove(os.path.join(out, "names", f))
        got = generate_protocol_files_from_csv(cf, output_directory=out)
        new, fail, result, message = got
        want, failed, stems = [], [], {}
        for k, r in enumerate(rows):
            t = r["template"]
            stem = "%s_%06d" % (project, r["seq_num"])
            if t in UNSUPPORTED:
                failed.append(t)
                continue
            want.append((os.path.join(out, "settings", stem + ".mps") if fam == "Form" else os.path.join(out, "procedures", stem + ".000"), k, r, stem))
        need_eq(new, [w[0] for w in want], "files reported as generated")
        need_eq(len(fail), len(failed), "rows reported as failed")
        for f, t in zip(fail, failed):
            need_eq(f["error"], "Not Implemented" if t.endswith(".sdu") else "Not Found", "error reported for " + t)
            if not t.endswith(".sdu"):
                need(t in f["comment"], "{} is reported as {}", t, f)
        need_eq(result, "error" if failed else "success", "result")
        need_eq(message, {"comment": f"Generated {len(want)} of {len(rows)} protocols",
                          "error": f"Failed to generate {len(failed)} of {len(rows)} protocols" if failed else ""}, "message")
        nf = os.listdir(os.path.join(out, "names"))
        need_eq(len(nf), 1, "files of names")
        need(re.fullmatch(re.escape(c["name"].split("_")[0]) + r"_names_\d{8}_\d{4}\.csv", nf[0]), "file of names {!r}", nf[0])
        with open(os.path.join(out, "names", nf[0]), newline="") as f:
            need_eq([x for x in csv.reader(f)], [[w[3] + "_"] for w in want], "names of the runs")
        for w in want:
            everything[w[0]] = w
        # contents
        waves = {}
        for path, k, r, stem in want:
            if fam == "Form":
                check_form(path, r)
            elif fam == "EXP":
                ts = c22.parse(os.path.join(PROCEDURE_TEMPLATE_DIR, "EXP.000"))["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
                over = {(5, "Limits", "Voltage"): r["cutoff_voltage"], (5, "StepValue"): r["charge_rate"], (6, "StepValue"): r["discharge_rate"]}
                gs = c22.parse(path)["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
                need_eq(c22.compare(gs, ts, over), 3, "values placed")
            else:
                kind = {"RapidC": "charge", "Drive": "drive"}.get(fam) or ("reg2" if r["template"] == "diagnosticV2.000" else "reg3")
                wave = None
                if kind in ("charge", "drive"):
                    alone = os.path.join(base, "alone%d_%d" % (rnd, k))
                    fn = insert_charging_parametersv1 if kind == "charge" else insert_driving_parametersv1
                    wf = fn(dict(r), waveform_directory=alone)
                    wave = os.path.splitext(os.path.basename(wf))[0]
                    waves[stem] = (os.path.basename(wf), open(wf, "rb").read())
                d = sets[r["diagnostic_parameter_set"]]
                over = c22.table(kind, r, d, k, wave)
                tmpl = os.path.join(PROCEDURE_TEMPLATE_DIR, r["template"])
                g = c22.parse(path)
                c22.check(g, tmpl, over, f"row {k} ({r['template']})")
        for stem, (name, text) in waves.items():
            p = os.path.join(out, "mwf_files", name)
            need(os.path.exists(p), "waveform {} of {} was not written", name, stem)
            if open(p, "rb").read() != text:
                others = [s for s, (n, x) in waves.items() if n == name and x != text]
                if fam == "Drive" and others:
                    collision = f"waveform {name} of {stem} holds the waveform of {others[-1]}"
                else:
                    raise Violation(f"waveform {name} of {stem} is not the one its parameters describe")
        if waves:
            need_eq(sorted(os.listdir(os.path.join(out, "mwf_files"))) if not rnd else None,
                    sorted({n for n, _ in waves.values()}) if not rnd else None, "waveforms written")
        if want:
            lab.add("nontrivial")
        if failed:
            lab.add("failures")
    for sub, ext in (("procedures", ".000"), ("settings", ".mps")):
        d = os.path.join(out, sub)
        need_eq(sorted(os.listdir(d)), sorted(os.path.basename(f) for f in everything if f.endswith(ext)), f"files in {sub}")
    after = {f: open(os.path.join(PROCEDURE_TEMPLATE_DIR, f), "rb").read() for f in os.listdir(PROCEDURE_TEMPLATE_DIR)
             if os.path.isfile(os.path.join(PROCEDURE_TEMPLATE_DIR, f))}
    need(after == templates, "the templates were changed")
    if collision:
        raise KnownFinding("C24-drive-waveform-names", collision)
    return lab


SUBS = [Sub("tables", case, run, 100, 1500, shards=3, shards_thorough=6)]
