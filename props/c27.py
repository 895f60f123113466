"""Maccor procedures become Arbin schedules with the same steps, controls, end conditions, targets, loops and logging, or are refused."""
import copy
import os
from collections import OrderedDict

from hypothesis import strategies as st

from vlib import scratch
from vlib.core import Sub, Violation, Reject, need, need_eq, close

PROPERTY = "C27"
RULE = ("convert: procedures of 2 to 14 steps (charge, discharge, rest, cycle advance, nested loops, end) with drawn ends, targets and reports, "
        "given as steps or as a Maccor file, converted into a schedule file that is read back, and both programs run step by step under drawn "
        "choices of end conditions; shipped: the procedure templates; refused: procedures with one step, end or report that has no translation. "
        "Non-trivial when a schedule was written and compared, or a refusal seen")
ORACLE = "an independent translation table, an independent reader of schedule files, and two small interpreters (Maccor steps, Arbin steps with counters)"
ASSUMPTIONS = ["Step of an end is the three-digit number of a step; loops use counters 1 and 2 and are properly nested",
               "empty fields of a duration count as zero; voltage-limited steps given in C-rate keep the number of the C-rate",
               "a loop body entered by a jump past its Do is not followed further"]

VOLT = ["4.2", "3.6", "2.7", "0.5", "3.80", "4"]
AMPS = ["1.000", "0.05", "20", "0.2404", "1.0E-4"]
NOTES = [None, None, "reset cycle C/20", "a-b", "5", "x [1]", "µ"]
RANGES = ["Range1", "Range2", "Range4", "Parallel-High"]


def number(txt, what):
    try:
        return float(txt)
    except (TypeError, ValueError):
        raise Violation(f"{what}: {txt!r} is not a number")


def seconds(txt):
    h, m, s = txt.split(":")
    return 3600 * float(h or 0) + 60 * float(m or 0) + float(s or 0)


# ------------------------------------------------------------------ procedures

def duration():
    return st.one_of(st.sampled_from(["00:00:01", "00:15:00", "03:12:00", "::.01", "00:00:00.5", "::30", "::5.25", "23:59:59", "24:00:00", "100:00:00", "00:00:10.125"]),
                     st.tuples(st.integers(0, 200), st.integers(0, 59), st.integers(0, 59)).filter(any).map(lambda t: "%02d:%02d:%02d" % t))


@st.composite
def work_step(draw):
    kind = draw(st.sampled_from(["A", "A", "C", "cccv", "cv", "v", "rest", "rest", "ccc"]))
    side = draw(st.sampled_from(["Charge", "Dischrge"]))
    return dict(kind=kind, side=side, a=draw(st.sampled_from(AMPS)), v=draw(st.sampled_from(VOLT)), c=draw(st.sampled_from(["1C", "0.5C", "0.05C"])),
                note=draw(st.sampled_from(NOTES)), nends=draw(st.sampled_from([0, 1, 1, 2, 3, 4])), single=draw(st.booleans()),
                reports=draw(st.lists(st.one_of(st.tuples(st.sampled_from(["Voltage", "Current"]), st.sampled_from(["0.001", "5.0E-4", "1"])),
                                                st.tuples(st.just("StepTime"), duration())), max_size=3)))


@st.composite
def body(draw, depth):
    out = []
    for _ in range(draw(st.integers(1, 3 if depth else 2))):
        what = draw(st.integers(0, 5))
        if what == 0 and depth:
            inner = draw(body(depth - 1))
            k = 3 - depth
            n = draw(st.sampled_from(["1", "2", "3", "20"]))
            out += [dict(kind="do", k=k, note=draw(st.sampled_from(NOTES)))] + inner + [dict(kind="loop", k=k, n=n, note=draw(st.sampled_from(NOTES)))]
        elif what == 1:
            out.append(dict(kind="adv", note=draw(st.sampled_from(NOTES))))
        else:
            out.append(draw(work_step()))
    return out


@st.composite
def procedure(draw):
    steps = (draw(body(2)) + (draw(body(2)) if draw(st.booleans()) else []))[:40]
    steps.append(dict(kind="end", note=None))
    n = len(steps)
    flip = draw(st.integers(0, 3)) == 0
    for k, s in enumerate(steps):
        if flip and "k" in s:
            s["k"] = 3 - s["k"]
        if s["kind"] == "loop":
            s["to"] = k + 2
        if "nends" in s:
            types = ["Voltage", "StepTime"] + (["Current"] * 2 if s["kind"] in ("cccv", "cv", "v", "ccc") else [])
            s["ends"] = []
            for _ in range(s.pop("nends")):
                ty = draw(st.sampled_from(types))
                op = "=" if ty == "StepTime" else draw(st.sampled_from(["<=", ">=", "<=", "<", ">"]))
                val = draw(duration()) if ty == "StepTime" else draw(st.sampled_from(VOLT if ty == "Voltage" else AMPS))
                s["ends"].append([ty, op, draw(st.sampled_from([k + 2, k + 2, k + 2, k + 2, n, draw(st.integers(1, n))])), val])
    return steps


def maccor(steps, cls=dict):
    out = []
    for k, s in enumerate(steps):
        d = cls(StepType=s["kind"], StepMode=None, StepValue=None, Limits=None, Ends=None, Reports=None, Range="4", Option1="N", Option2="N", Option3="N", StepNote=s["note"])
        kd = s["kind"]
        if kd in ("A", "C", "cccv", "ccc"):
            d.update(StepType=s["side"], StepMode="Current", StepValue=s["c"] if kd in ("C", "ccc") else s["a"])
            if kd in ("cccv", "ccc"):
                d["Limits"] = cls(Voltage=s["v"])
        elif kd in ("cv", "v"):
            d.update(StepType=s["side"], StepMode="Voltage", StepValue=s["v"])
            if kd == "cv":
                d["Limits"] = cls(Current=s["a"])
        elif kd == "rest":
            d["StepType"] = "Rest"
        elif kd == "adv":
            d["StepType"] = "AdvCycle"
        elif kd == "end":
            d["StepType"] = "End"
        elif kd == "do":
            d["StepType"] = f"Do {s['k']}"
        elif kd == "loop":
            d["StepType"] = f"Loop {s['k']}"
            d["Ends"] = cls(EndEntry=cls(EndType="Loop Cnt", SpecialType=None, Oper="=", Step="%03d" % s["to"], Value=s["n"]))
        else:
            d.update(copy.deepcopy(s["raw"]))
        if s.get("ends"):
            e = [cls(EndType=ty, SpecialType=None, Oper=op, Step="%03d" % min(to, len(steps)), Value=v) for ty, op, to, v in s["ends"]]
            d["Ends"] = cls(EndEntry=e[0] if len(e) == 1 and s["single"] else e)
        if s.get("reports"):
            r = [cls(ReportType=ty, Value=v) for ty, v in s["reports"]]
            d["Reports"] = cls(ReportEntry=r[0] if len(r) == 1 and s["single"] else r)
        out.append(d)
    return out


# ------------------------------------------------------------------ schedule files

def shell(c):
    secs = [("Version Section", [("Current_Version", "7.00")]),
            ("Schedule", [("m_uMUID", "1"), ("m_szComments", c["comment"]), ("m_uStepNum", "2"), ("m_AuxSafetyEnabled", "0^0"), ("m_AuxTempSafetyScope", "0^0"),
                          ("m_VoltageSafetyScope", "0^5"), ("m_CurrentSafetyScope", "0^0")])]
    for k in range(c["old"]):
        secs.append((f"Schedule_Step{k}", [("m_uLimitNum", "1"), ("m_szLabel", f"old{k}"), ("m_szOld", "1")]))
        secs.append((f"Schedule_Step{k}_Limit0", [("m_bStepLimit", "1"), ("m_szGotoStep", "Next Step"), ("m_szOld", "1")]))
    for k in range(c["safe"]):
        secs.append((f"Schedule_UserDefineSafety{k}", [("m_szType", f"s{k}"), ("m_bEnable", "0")]))
    return secs


def read_sdu(fn):
    with open(fn, "rb") as f:
        txt = f.read().decode("latin-1")
    out = []
    for line in txt.replace("\r\n", "\n").split("\n"):
        if not line:
            continue
        if line.startswith("[") and line.endswith("]") and "=" not in line:
            out.append((line[1:-1], []))
        else:
            k, v = line.split("=", 1)
            out[-1][1].append((k, v))
    return out


@st.composite
def setup(draw):
    lo, hi = draw(st.sampled_from([(2.5, 4.5), (2.0, 3.8), (-1, 0.25)]))
    return dict(comment=draw(st.sampled_from(["", "old comment", "a=b"])), old=draw(st.sampled_from([0, 1, 3, 12])), safe=draw(st.integers(0, 2)),
                range=draw(st.sampled_from(RANGES)), v=[lo, hi], t=draw(st.sampled_from([[-100, 100], [0, 60], [-20.5, 55]])), i=draw(st.sampled_from([[-30, 30], [-3.3, 3.3]])),
                via=draw(st.sampled_from(["dict", "ordered", "file"])), picks=draw(st.lists(st.integers(0, 3), max_size=30)), defaults=draw(st.booleans()),
                twice=draw(st.booleans()))


@st.composite
def case(draw):
    return dict(steps=draw(procedure()), s=draw(setup()))


def write_procedure(steps, fn):
    import xmltodict
    doc = {"MaccorTestProcedure": {"header": {"BuildTestVersion": "1"}, "ProcSteps": {"TestStep": maccor(steps)}}}
    with open(fn, "w", encoding="utf-8") as f:
        f.write(xmltodict.unparse(doc, pretty=True))


def convert(steps, s, shell_file=None):
    """-> (sections of the written file, expected sections of the shell)"""
    from beep.protocol.maccor import Procedure
    from beep.protocol.maccor_to_arbin import ProcedureToSchedule
    d = scratch.new()
    src, dst = os.path.join(d, "in.sdu"), os.path.join(d, "out.sdu")
    secs = shell(s)
    if shell_file is None:
        with open(src, "wb") as f:
            f.write("".join(f"[{h}]\r\n" + "".join(f"{k}={v}\r\n" for k, v in kv) for h, kv in secs).encode("latin-1"))
    else:
        src, secs = shell_file, read_sdu(shell_file)
    if s["via"] == "file":
        fn = os.path.join(d, "p.000")
        write_procedure(steps, fn)
        given = Procedure.from_file(fn)["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
    else:
        given = maccor(steps, OrderedDict if s["via"] == "ordered" else dict)
    kw = {} if s["defaults"] else dict(current_range=s["range"], global_v_range=s["v"], global_temp_range=s["t"], global_current_range=s["i"])
    before = copy.deepcopy(given)
    conv = ProcedureToSchedule(given)
    texts = []
    for k in range(2 if s["twice"] else 1):
        if os.path.exists(dst):
            os.remove(dst)
        try:
            conv.create_sdu(src, dst, **kw)
        except Exception:
            need(not os.path.exists(dst), "a refused procedure leaves a schedule file")
            raise
        with open(dst, "rb") as f:
            texts.append(f.read())
        if given != before:
            bad = [i for i, (a, b) in enumerate(zip(given, before)) if a != b]
            raise Violation(f"converting changes the procedure it is given (step {bad[0] + 1} is now {given[bad[0]]!r})"[:600])
    need(len(set(texts)) == 1, "converting the same procedure twice gives two different schedules")
    return read_sdu(dst), secs


FIELDS = {"m_uLimitNum", "m_szLabel", "m_szStepCtrlType", "m_szCurrentRange", "m_szCtrlValue", "m_szExtCtrlValue1", "m_szExtCtrlValue2"}


def steps_of(secs, n):
    """sections of the steps -> [(fields, [limit fields])]"""
    out = []
    for h, kv in secs:
        p = h.split("_")
        if p[0] != "Schedule" or len(p) < 2 or not p[1].startswith("Step"):
            continue
        k = int(p[1][4:])
        if len(p) == 2:
            need_eq(k, len(out), "number of the next step section")
            out.append((dict(kv), []))
        else:
            need(k == len(out) - 1 and p[2].startswith("Limit"), f"section {h} is out of place")
            need_eq(p[2], f"Limit{len(out[-1][1])}", f"next limit section of step {k}")
            out[-1][1].append(dict(kv))
    need_eq(len(out), n, "number of steps in the schedule")
    return out


def want_control(s, kd):
    if kd == "raw":
        raise Violation("not reached")
    sg = -1 if s.get("side") == "Dischrge" else 1
    if kd == "A":
        return "Current(A)", sg * float(s["a"]), None
    if kd == "C":
        return "C-Rate", sg * float(s["c"][:-1]), None
    if kd in ("cccv", "cv"):
        return "CCCV", sg * float(s["a"]), float(s["v"])
    if kd == "ccc":
        return "CCCV", sg * float(s["c"][:-1]), float(s["v"])
    if kd == "v":
        return "Voltage(V)", float(s["v"]), None
    if kd in ("rest", "end"):
        return "Rest", None, None
    if kd == "adv":
        return "Set Variable(s)", 15.0, 1.0
    if kd == "do":
        return "Set Variable(s)", float(1 << (s["k"] + 15)), 0.0
    return "Set Variable(s)", 0.0, float(1 << s["k"])


FLIP = {"<=": ">=", ">=": "<=", "<": ">", ">": "<"}


def want_end(s, kd, end, n):
    """-> (variable, comparisons, value, target)"""
    ty, op, to, v = end
    to = min(to, n)
    if ty == "Voltage":
        return "PV_CHAN_Voltage", (op,), float(v), to
    if ty == "StepTime":
        return "PV_CHAN_Step_Time", (">", ">="), seconds(v), to
    var = "PV_CHAN_Current" if kd == "v" else "PV_CHAN_CV_Stage_Current"
    if s["side"] == "Dischrge":
        return var, (FLIP[op],), -float(v), to
    return var, (op,), float(v), to


def target(txt, k, labels, what):
    if txt == "Next Step":
        return k + 1
    if txt not in labels:
        raise Violation(f"{what}: goes to {txt!r}, no such label")
    return labels.index(txt)


def check_schedule(secs, base, steps, s):
    n = len(steps)
    arb = steps_of(secs, n)
    labels = [f["m_szLabel"] for f, _ in arb]
    crange = "Range1" if s["defaults"] else s["range"]
    do = []
    program = []
    for k, (st_, (f, lims)) in enumerate(zip(steps, arb)):
        what = f"step {k + 1}"
        kd = st_["kind"]
        need_eq(f["m_szLabel"], f"{k + 1}-{st_['note']}", f"{what}: label")
        need_eq(f["m_szCurrentRange"], crange, f"{what}: current range")
        need_eq(f["m_uLimitNum"], str(len(lims)), f"{what}: number of limits")
        ctrl, v, ext = want_control(st_, kd)
        need_eq(f["m_szStepCtrlType"], ctrl, f"{what} ({kd}): control type")
        for key, w in (("m_szCtrlValue", v), ("m_szExtCtrlValue1", ext)):
            if w is None:
                need_eq(f[key], "", f"{what}: {key}")
            else:
                need_eq(number(f[key], f"{what}: {key}"), w, f"{what} ({kd}): {key}")
        stops = [l for l in lims if l["m_bStepLimit"] == "1"]
        logs = [l for l in lims if l["m_bStepLimit"] != "1"]
        got = [(l["Equation0_szLeft"], l["Equation0_szCompareSign"], number(l["Equation0_szRight"], f"{what}: limit"), target(l["m_szGotoStep"], k, labels, what) + 1)
               for l in stops]
        for l in lims:
            need(not any(l[f"Equation{j}_sz{p}"] for j in (1, 2) for p in ("Left", "CompareSign", "Right")), f"{what}: a limit has a second equation")
        if kd == "loop":
            want = sorted([(f"TC_Counter{st_['k']}", "<", float(st_["n"]), do[-1] + 2), (f"TC_Counter{st_['k']}", "=", float(st_["n"]), st_["to"])])
            need_eq(sorted(got), want, f"{what}: limits of the loop")
            do.pop()
        elif not st_.get("ends"):
            need_eq([(g[0], g[2], g[3]) for g in got], [("PV_CHAN_Step_Time", 0.0, k + 2)], f"{what}: limit of a step without ends")
        else:
            need_eq(len(got), len(st_["ends"]), f"{what}: number of step limits")
            for g, e in zip(got, st_["ends"]):
                w = want_end(st_, kd, e, n)
                need((g[0], g[3]) == (w[0], w[3]) and g[1] in w[1] and close(g[2], w[2], 1e-12), f"{what} ({kd} {st_.get('side')}): end {e} became {g}")
        if kd == "do":
            do.append(k)
        need_eq(len(logs), len(st_.get("reports") or []), f"{what}: number of logging limits")
        for l, (ty, val) in zip(logs, st_.get("reports") or []):
            need_eq(l["m_bLogDataLimit"], "1", f"{what}: report {ty} logs")
            need_eq(l["Equation0_szLeft"], {"Voltage": "DV_Voltage", "Current": "DV_Current", "StepTime": "DV_Time"}[ty], f"{what}: report {ty}")
            need(l["Equation0_szCompareSign"] in (">", ">="), f"{what}: report {ty} compares with {l['Equation0_szCompareSign']!r}")
            need(close(number(l["Equation0_szRight"], f"{what}: report"), seconds(val) if ty == "StepTime" else float(val), 1e-12),
                 f"{what}: report {ty} {val} became {l['Equation0_szRight']}")
        program.append((f, stops))
    # the rest of the file is the shell
    rest = [(h, kv) for h, kv in secs if not (h.startswith("Schedule_Step"))]
    old = [(h, kv) for h, kv in base if not (h.startswith("Schedule_Step"))]
    v, t, i = ([2.5, 4.5], [-100, 100], [-30, 30]) if s["defaults"] else (s["v"], s["t"], s["i"])
    scope = {"m_VoltageSafetyScope": v, "m_AuxTempSafetyScope": t, "m_CurrentSafetyScope": i}
    need_eq([h for h, _ in rest], [h for h, _ in old], "sections other than steps")
    for (h, a), (_, b) in zip(rest, old):
        need_eq([k for k, _ in a], [k for k, _ in b], f"keys of {h}")
        for (key, x), (_, y) in zip(a, b):
            if h == "Schedule" and key in scope:
                need_eq([number(p, key) for p in x.split("^")], [round(float(p), 6) for p in scope[key]], key)
            elif h == "Schedule" and key == "m_uStepNum":
                need_eq(x, str(n), key)
            elif h == "Schedule" and key == "m_AuxSafetyEnabled":
                if list(t) == [-100, 100]:
                    need_eq(x, y, key)
                else:
                    need("1^1" in [p.strip() for p in x.split(";")], f"a temperature range is given, {key} is {x}")
            else:
                need_eq(x, y, f"{h} {key}")
    return program, labels


# ------------------------------------------------------------------ running both programs

def run_maccor(steps, picks, cap):
    n, at, trace, count, active = len(steps), 0, [], {}, set()
    matching = {}
    stack = []
    for k, s in enumerate(steps):
        if s["kind"] == "do":
            stack.append(k)
        elif s["kind"] == "loop":
            matching[k] = stack.pop()
    p = 0
    while len(trace) < cap and at < n:
        s = steps[at]
        # bodies around this step must have been entered through their Do and not left since
        active = {a for b, a in matching.items() if a in active and a < at <= b}
        if any(a < at <= b and a not in active for b, a in matching.items()):
            return trace
        trace.append(at)
        if s["kind"] == "end":
            return trace
        if s["kind"] == "do":
            active.add(at)
            count[at] = 0
            at += 1
        elif s["kind"] == "loop":
            a = matching[at]
            count[a] += 1
            if count[a] < int(s["n"]):
                at = a + 1
            else:
                active.discard(a)
                at = s["to"] - 1
        elif s.get("ends"):
            at = min(s["ends"][(picks[p % len(picks)] if picks else 0) % len(s["ends"])][2], n) - 1
            p += 1
        else:
            at += 1
    return trace


def run_arbin(program, labels, steps, picks, cap):
    at, trace, tc, p = 0, [], {k: 0 for k in range(1, 5)}, 0
    while len(trace) < cap and at < len(program):
        trace.append(at)
        f, stops = program[at]
        if steps[at]["kind"] == "end":
            break
        if f["m_szStepCtrlType"] == "Set Variable(s)":
            reset, inc = int(f["m_szCtrlValue"]) >> 15, int(f["m_szExtCtrlValue1"])
            for k in tc:
                if reset >> k & 1:
                    tc[k] = 0
                if inc >> k & 1:
                    tc[k] += 1
            hit = []
            for l in stops:
                left, v = l["Equation0_szLeft"], float(l["Equation0_szRight"])
                x = tc[int(left[-1])] if left.startswith("TC_Counter") else 1
                if {"<": x < v, "=": x == v, ">": x > v}[l["Equation0_szCompareSign"]]:
                    hit.append(l)
            if not hit:
                trace.append("stuck")
                break
            at = target(hit[0]["m_szGotoStep"], at, labels, f"step {at + 1}")
        else:
            k = 0
            if steps[at].get("ends"):
                k = (picks[p % len(picks)] if picks else 0) % len(stops)
                p += 1
            at = target(stops[k]["m_szGotoStep"], at, labels, f"step {at + 1}")
    return trace


def same_run(steps, program, labels, picks, cap=400):
    want = run_maccor(steps, picks, cap)
    got = run_arbin(program, labels, steps, picks, len(want))
    for k, w in enumerate(want):
        g = got[k] if k < len(got) else None
        if g != w:
            raise Violation(f"running both with choices {picks}: after {k} steps (last ones {[x + 1 for x in want[max(0, k - 4):k]]}) the procedure is at step {w + 1}, "
                            f"the schedule at {g + 1 if isinstance(g, int) else g}")
    return len(want)


def convert_run(c):
    secs, base = convert(c["steps"], c["s"])
    program, labels = check_schedule(secs, base, c["steps"], c["s"])
    m = same_run(c["steps"], program, labels, c["s"]["picks"])
    kinds = {s["kind"] for s in c["steps"]}
    return {"nontrivial", "via " + c["s"]["via"], "run of 20 or more" if m >= 20 else "short run"} | kinds | ({"nested loops"} if any(s.get("k") == 2 for s in c["steps"]) else set()) \
        | ({"single end"} if any(len(s.get("ends") or []) == 1 and s["single"] for s in c["steps"]) else set())


# ------------------------------------------------------------------ shipped templates

TEMPLATES = ["EXP.000", "diagnosticV2.000", "diagnosticV3.000", "diagnosticV4.000", "diagnosticV5.000", "BioTest_000001.000"]


@st.composite
def shipped_case(draw):
    return dict(t=draw(st.sampled_from(TEMPLATES)), s=draw(setup()), shell=draw(st.integers(0, 4)) == 0)


def abstract(steps):
    """steps of a shipped procedure in the terms of this module, or None when something has no translation"""
    out = []

    def many(x, key):
        x = x and x[key]
        return [] if not x else x if isinstance(x, list) else [x]
    for s in steps:
        ty, mode, lim, val = s["StepType"], s["StepMode"], s["Limits"], s["StepValue"]
        a = dict(note=s["StepNote"], single=False, ends=[[e["EndType"], e["Oper"], int(e["Step"]), e["Value"]] for e in many(s["Ends"], "EndEntry")],
                 reports=[(r["ReportType"], r["Value"]) for r in many(s["Reports"], "ReportEntry")])
        if ty in ("Charge", "Dischrge") and mode == "Current":
            a.update(side=ty, kind=("C" if val.endswith("C") else "A") if lim is None else "ccc" if val.endswith("C") else "cccv", a=val, c=val, v=lim and lim["Voltage"])
        elif ty in ("Charge", "Dischrge") and mode == "Voltage":
            a.update(side=ty, kind="v" if lim is None else "cv", v=val, a=lim and lim["Current"])
        elif ty == "Rest":
            a["kind"] = "rest"
        elif ty == "AdvCycle":
            a["kind"] = "adv"
        elif ty == "End":
            a["kind"] = "end"
        elif ty[:2] == "Do" and ty[3:] in "12":
            a.update(kind="do", k=int(ty[3:]))
        elif ty[:4] == "Loop" and ty[5:] in "12":
            a.update(kind="loop", k=int(ty[5:]), n=a["ends"][0][3], to=a["ends"][0][2], ends=[])
        else:
            return None
        if any(v.endswith("C") for _, v in a["reports"]):
            return None
        out.append(a)
    return out


def shipped_run(c):
    from beep.protocol import PROCEDURE_TEMPLATE_DIR, SCHEDULE_TEMPLATE_DIR
    from beep.protocol.maccor import Procedure
    steps = abstract(Procedure.from_file(os.path.join(PROCEDURE_TEMPLATE_DIR, c["t"]))["MaccorTestProcedure"]["ProcSteps"]["TestStep"])
    if steps is None:
        raise Reject("a step has no translation")
    sh = os.path.join(SCHEDULE_TEMPLATE_DIR, "20170630-3_6C_9per_5C.sdu") if c["shell"] else None
    secs, base = convert(steps, c["s"], sh)
    program, labels = check_schedule(secs, base, steps, c["s"])
    m = same_run(steps, program, labels, c["s"]["picks"], 4000)
    return {"nontrivial", c["t"], "run of 100 or more" if m >= 100 else "short run"}


# ------------------------------------------------------------------ refusals

BAD = [("step", dict(StepType="Chg Func", StepMode="Current", StepValue="1.0")), ("step", dict(StepType="FastWave", StepMode=None, StepValue="x.mwf")),
       ("step", dict(StepType="Charge", StepMode="Power", StepValue="1.0")), ("step", dict(StepType="Charge", StepMode="Voltage", StepValue="4.2", Limits=dict(Current="0.5C"))),
       ("step", dict(StepType="Rest", StepMode=None, Limits=dict(Voltage="4.2"))), ("step", dict(StepType="Do Test", StepMode=None)),
       ("step", dict(StepType="Pause", StepMode=None)), ("end", ("Capacity", ">=", "1.0")), ("end", ("Energy", ">=", "1.0")), ("report", ("Temp", "0.5"))]


@st.composite
def refused_case(draw):
    return dict(steps=draw(procedure()), s=draw(setup()), bad=draw(st.integers(0, len(BAD) - 1)), at=draw(st.integers(0, 40)))


def refused_run(c):
    steps = copy.deepcopy(c["steps"])
    what, bad = BAD[c["bad"]]
    work = [k for k, s in enumerate(steps) if "ends" in s]
    if not work:
        raise Reject("no working step")
    k = work[c["at"] % len(work)]
    if what == "step":
        steps[k] = dict(kind="raw", raw=bad, note=steps[k]["note"])
    elif what == "end":
        steps[k]["ends"] = [[bad[0], bad[1], k + 2, bad[2]]] + steps[k]["ends"]
    else:
        steps[k]["reports"] = list(steps[k]["reports"]) + [bad]
    try:
        secs, _ = convert(steps, c["s"])
    except Violation:
        raise
    except Exception as e:
        return {"nontrivial", what, type(e).__name__}
    f, lims = steps_of(secs, len(steps))[k]
    raise Violation(f"{what} {bad} has no translation, and the schedule written without complaint has {f['m_szStepCtrlType']!r} {f['m_szCtrlValue']!r} with "
                    f"{[(l['Equation0_szLeft'], l['Equation0_szRight']) for l in lims]}")


SUBS = [Sub("convert", case, convert_run, quick=130, thorough=2500, shards=2),
        Sub("shipped", shipped_case, shipped_run, quick=12, thorough=100, shards=2),
        Sub("refused", refused_case, refused_run, quick=60, thorough=600, shards=1)]
