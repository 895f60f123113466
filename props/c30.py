"""BioLogic settings become Maccor procedures that do the same: steps, values in Maccor's units, limits, targets, loops; or are refused."""
import os
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from vlib import scratch
from vlib.core import KnownFinding, Reject, Sub, Violation, close, need, need_eq

PROPERTY = "C30"
RULE = ("convert: settings of 1 to 16 sequences (constant current, voltage, resistance and power, rests, loops, loops of no repeats, cycle advances) "
        "with drawn values, units, limits, targets and records, converted into a procedure that is read step by step; refused: settings with one "
        "thing that has no translation. Non-trivial when a procedure was compared or a refusal seen")
ORACLE = "an independent numbering of the steps (Do before, cycle advance and loop after each loop) and a table of units, applied to the parsed XML"
ASSUMPTIONS = ["values have three decimals, as BT-Lab writes them", "limits that go on name the next sequence, limits that end name sequence 9999",
               "jumps that Maccor could follow may be refused when they leave a loop backwards or touch an empty loop"]

SI = {"h": 3600, "mn": 60, "s": 1, "ms": 1e-3, "A": 1, "mA": 1e-3, "µA": 1e-6, "nA": 1e-9, "pA": 1e-12, "V": 1, "mV": 1e-3,
      "MOhm": 1e6, "kOhm": 1e3, "Ohm": 1, "mOhm": 1e-3, "µOhm": 1e-6, "W": 1, "mW": 1e-3, "µW": 1e-6}
UNITS = dict(CC=["A", "mA", "µA", "nA", "pA"], CV=["V", "mV"], CR=["MOhm", "kOhm", "Ohm", "mOhm", "µOhm"], CP=["W", "mW", "µW"])
MODE = dict(CC="Current", CV="Voltage", CR="Resistance", CP="Power", Rest=None)
KIND = {"Time": ["h", "mn", "s", "ms"], "Ecell": ["V", "mV"], "I": UNITS["CC"], "Power": UNITS["CP"]}
NAMED = {"Time": "StepTime", "Ecell": "Voltage", "I": "Current", "Power": "Power"}


def number():
    return st.one_of(st.sampled_from(["0.001", "0.100", "1.000", "4.200", "22.820", "100.000", "3600.000", "0.000"]),
                     st.integers(0, 10 ** 7).map(lambda k: "%.3f" % (k / 1000)))


@st.composite
def quantity(draw, kind):
    u = draw(st.sampled_from(KIND[kind]))
    if u == "ms":
        return ["%.3f" % (10 * draw(st.one_of(st.integers(1, 20), st.integers(1, 10 ** 9)))), u]
    return [draw(number()), u]


@st.composite
def work(draw):
    t = draw(st.sampled_from(["CC", "CC", "CV", "Rest", "CR", "CP"]))
    lims = []
    for _ in range(draw(st.integers(0, 3))):
        ty = draw(st.sampled_from(["Time", "Ecell", "I"]))
        lims.append([ty, ">" if ty == "Time" else draw(st.sampled_from("<>"))] + draw(quantity(ty)) +
                    [draw(st.sampled_from(["Next sequence"] * 3 + ["Goto sequence"] * 3 + ["End"])), draw(st.integers(0, 30))])
    return dict(t=t, v="" if t == "Rest" else draw(number()), u="" if t == "Rest" else draw(st.sampled_from(UNITS[t])), lims=lims,
                dir=draw(st.sampled_from(["Charge"] + ["Discharge"] * 5)), recs=[[k] + draw(quantity(k)) for k in
                                                                        draw(st.lists(st.sampled_from(["Time", "Ecell", "I", "Power"]), max_size=3))])


@st.composite
def settings(draw):
    seqs = []
    for _ in range(draw(st.integers(1, 5))):
        what = draw(st.sampled_from(["work", "work", "loop", "loop", "empty", "advance"]))
        at = len(seqs)
        if what == "work":
            seqs += draw(st.lists(work(), min_size=1, max_size=3))
        elif what == "loop":
            seqs += draw(st.lists(work(), min_size=1, max_size=3))
            seqs.append(dict(t="Loop", to=at, n=draw(st.sampled_from([1, 2, 10, 50, 999]))))
        elif what == "empty":
            seqs.append(dict(t="Loop", to=draw(st.integers(0, at)), n=0))
        else:
            seqs += [dict(t="Loop", to=draw(st.integers(0, at)), n=0), dict(t="Loop", to=at, n=1)]
    n = len(seqs)
    tame = draw(st.integers(0, 3)) > 0
    for k, s in enumerate(seqs):
        fine = [j for j in range(n) if allowed(seqs, k, j) == "accept"] if s["t"] != "Loop" else []
        for l in s.get("lims", []):
            if l[4] == "Goto sequence":
                l[5] = fine[l[5] % len(fine)] if tame and fine else l[5] % n
            else:
                l[5] = k + 1 if l[4] == "Next sequence" else 9999
    return dict(seqs=seqs, blank=draw(st.booleans()), header=draw(st.booleans()))


# ------------------------------------------------------------------ the numbering

def shape(seqs):
    """-> (steps, step number of each sequence, range of the loop each sequence is in, ends of loops); steps are (what, sequence number)"""
    advance = {k for k, s in enumerate(seqs) if s["t"] == "Loop" and s["n"] and s["to"] == k - 1 and seqs[k - 1]["t"] == "Loop" and not seqs[k - 1]["n"]}
    loops = {k: s["to"] for k, s in enumerate(seqs) if s["t"] == "Loop" and s["n"] and k not in advance}
    inside = {}
    for b, a in loops.items():
        for k in range(a, b + 1):
            inside[k] = (a, b)
    steps, num = [], {}
    for k, s in enumerate(seqs):
        if s["t"] == "Loop" and not s["n"]:
            continue
        if k in loops.values():
            steps.append(("do", k))
        num[k] = len(steps) + 1
        if k in advance:
            steps.append(("advance", k))
        elif s["t"] == "Loop":
            steps += [("advance", k), ("loop", k)]
        else:
            steps.append(("work", k))
    steps.append(("end", None))
    return steps, num, inside, sorted(list(loops) + list(advance))


def allowed(seqs, k, t):
    """may sequence k jump to sequence t: accept, refuse, or either"""
    steps, num, inside, ends = shape(seqs)
    if t not in num:
        return "refuse"
    mine, his = inside.get(k), inside.get(t)
    done = max([e for e in ends if e < k], default=-1)
    if mine == his and mine:
        return "accept"
    if his and (mine or t != his[0]):
        return "either" if mine and t == his[0] and t > k else "refuse"
    if t < done:
        return "refuse" if any(b <= done and b >= t for a, b in inside.values() if b < k) else "either"
    if seqs[t]["t"] == "Loop" or mine and t < k:
        return "either"
    return "accept"


def place(seqs, k, t):
    """number of the step a jump from sequence k to sequence t leads to"""
    steps, num, inside, _ = shape(seqs)
    start = inside.get(t) and inside[t][0] == t and inside.get(k) != inside[t]
    return num[t] - 1 if start else num[t]


# ------------------------------------------------------------------ the settings file

FIELDS = ("Ns ctrl_type Apply_I/C ctrl1_val ctrl1_val_unit ctrl1_val_vs ctrl2_val ctrl2_val_unit ctrl2_val_vs ctrl3_val ctrl3_val_unit ctrl3_val_vs N "
          "charge/discharge ctrl_seq ctrl_repeat ctrl_trigger ctrl_TO_t ctrl_TO_t_unit ctrl_Nd ctrl_Na ctrl_corr lim_nb "
          + " ".join(f"lim{i}_{x}" for i in (1, 2, 3) for x in "type comp Q value value_unit action seq".split())
          + " rec_nb " + " ".join(f"rec{i}_{x}" for i in (1, 2, 3) for x in "type value value_unit".split())
          + " E_range_min_(V) E_range_max_(V) I_Range I_Range_min I_Range_max I_Range_init auto_rest Bandwidth").split()


def column(k, s):
    d = {"Ns": k, "ctrl_type": s["t"], "Apply_I/C": "I", "charge/discharge": s.get("dir", "Charge"), "ctrl_seq": 0, "ctrl_repeat": 0, "lim_nb": 0, "rec_nb": 0,
         "ctrl1_val_vs": "Ref" if s["t"] == "CV" else "<None>", "ctrl_trigger": "Falling Edge", "N": "15.00", "auto_rest": "1", "Bandwidth": "5", "I_Range": "1 A",
         "E_range_min_(V)": "0.000", "E_range_max_(V)": "9.000"}
    for i in (1, 2, 3):
        d.update({f"lim{i}_type": "Time", f"lim{i}_comp": ">", f"lim{i}_Q": "Q limit", f"lim{i}_value": "0.000", f"lim{i}_value_unit": "s",
                  f"lim{i}_action": "Next sequence", f"lim{i}_seq": k + 1, f"rec{i}_type": "Time", f"rec{i}_value": "10.000", f"rec{i}_value_unit": "s"})
    if s["t"] == "Loop":
        d.update(ctrl_seq=s["to"], ctrl_repeat=s["n"], ctrl1_val="100.000")
    else:
        d.update(ctrl1_val=s["v"], ctrl1_val_unit=s["u"], lim_nb=len(s["lims"]), rec_nb=len(s["recs"]))
        for i, l in enumerate(s["lims"], 1):
            d.update(zip([f"lim{i}_{x}" for x in ("type", "comp", "value", "value_unit", "action", "seq")], l))
        for i, r in enumerate(s["recs"], 1):
            d.update(zip([f"rec{i}_{x}" for x in ("type", "value", "value_unit")], r))
    d.update(s.get("raw", {}))
    return {f: d.get(f, "") for f in FIELDS}


def text(c, techniques=1, kind="Modulo Bat"):
    lines = ["BT-LAB SETTING FILE", "", f"Number of linked techniques : {techniques}", "", "Filename : x.mps", "", "Cycle Definition : Loop", ""]
    for t in range(techniques):
        cols = [column(k, s) for k, s in enumerate(c["seqs"])] + ([dict.fromkeys(FIELDS, "")] if c["blank"] else [])
        lines += [f"Technique : {t + 1}", kind] + [f.replace("_", " ").ljust(20) + "".join(str(x[f]).ljust(20) for x in cols)
                                                   if f[0] in "AEI" or f == "auto_rest" else f.ljust(20) + "".join(str(x[f]).ljust(20) for x in cols) for f in FIELDS] + [""]
    return "\r\n".join(lines)


def convert(c, **kw):
    """-> text of the procedure; when refused, nothing may be written"""
    from collections import OrderedDict
    from beep.protocol.biologic_mb_to_maccor import BiologicMbToMaccorProcedure
    d = scratch.new()
    src, out = os.path.join(d, "a.mps"), os.path.join(d, "out.000")
    with open(src, "wb") as f:
        f.write(text(c, **kw).encode("ISO-8859-1"))
    extra = dict(maccor_header=OrderedDict(ProcDesc=OrderedDict(desc="mine"))) if c["header"] else {}
    with open(out, "w") as f:
        f.write("old")
    try:
        need(BiologicMbToMaccorProcedure.convert(src, out, **extra) is None, "convert returns something")
    except Violation:
        raise
    except Exception:
        with open(out) as f:
            need_eq(f.read(), "old", "output file after a refusal")
        raise
    with open(out, "rb") as f:
        return f.read().decode("utf-8")


def bare(e, name):
    x = e.find(name)
    return None if x is None or x.text is None or not x.text.strip() else x.text.strip()


def amount(txt, kind, what):
    try:
        if kind == "Time":
            h, m, s = txt.split(":")
            return float(h) * 3600 + float(m) * 60 + float(s)
        return float(txt)
    except ValueError:
        raise Violation(f"{what}: {txt!r} is not a value of Maccor")


def same(txt, v, u, kind, what):
    need(txt is not None, f"{what}: no value")
    got, want = amount(txt, kind, what), float(v) * SI[u]
    need(close(got, want, rtol=1e-9, atol=1e-4 if u == "ms" else 0), f"{what}: {txt}, expected {v} {u}")


def run(c):
    from beep.protocol.maccor import Procedure
    seqs = c["seqs"]
    kinds = {allowed(seqs, k, l[5]) for k, s in enumerate(seqs) for l in s.get("lims", []) if l[4] == "Goto sequence"}
    before = repr(c)
    try:
        xml = convert(c)
    except Violation:
        raise
    except Exception as e:
        if kinds <= {"accept"}:
            raise
        return {"nontrivial", "refused", type(e).__name__}
    need("refuse" not in kinds, "a jump Maccor cannot follow is converted without complaint")
    need_eq(repr(c), before, "settings")
    need_eq(xml.splitlines()[:3], ['<?xml version="1.0" encoding="UTF-8"?>', '<?maccor-application progid="Maccor Procedure File"?>', "<MaccorTestProcedure>"],
            "first lines of the procedure")
    root = ET.fromstring(xml.encode("utf-8"))
    need_eq(root.tag, "MaccorTestProcedure", "root element")
    need_eq([e.tag for e in root], ["header", "ProcSteps"], "parts of the procedure")
    need_eq(root.find("header/ProcDesc/desc").text, "mine" if c["header"] else None, "description in the header")
    got = root.findall("ProcSteps/TestStep")
    steps, num, inside, _ = shape(seqs)
    need_eq(len(got), len(steps), "number of steps")
    known = set()
    for i, ((what, k), e) in enumerate(zip(steps, got)):
        lab = f"step {i + 1} ({what} of sequence {k})"
        typ, mode = bare(e, "StepType"), bare(e, "StepMode")
        ends, recs = e.findall("Ends/EndEntry"), e.findall("Reports/ReportEntry")
        need_eq(bare(e, "Limits"), None, f"{lab}: limits")
        if what != "work":
            need_eq(typ, {"do": "Do 1", "advance": "AdvCycle", "loop": "Loop 1", "end": "End"}[what], lab)
            need_eq((mode, bare(e, "StepValue"), len(recs)), (None, None, 0), lab)
            need_eq(len(ends), 1 if what == "loop" else 0, f"{lab}: ends")
            if what == "loop":
                d = ends[0]
                need_eq((bare(d, "EndType"), bare(d, "Oper")), ("Loop Cnt", "="), lab)
                count, to = bare(d, "Value"), int(bare(d, "Step"))
                if (count, to) == (None, place(seqs, k + 10 ** 6, seqs[k]["to"])) and bare(d, "StepValue") == str(seqs[k]["n"]):
                    known.add("C30-loops")
                else:
                    need_eq((count, to), (str(seqs[k]["n"] + 1), i + 2), f"{lab}: count and next step")
            continue
        s = seqs[k]
        need_eq(mode, MODE[s["t"]], f"{lab}: mode")
        if s["t"] == "Rest":
            need_eq((typ, bare(e, "StepValue")), ("Rest", None), lab)
        else:
            if s["dir"] == "Charge" and typ == "Dischrge":
                known.add("C30-charge")
            else:
                need_eq(typ, {"Charge": "Charge", "Discharge": "Dischrge"}[s["dir"]], f"{lab}: type")
            same(bare(e, "StepValue"), s["v"], s["u"], s["t"], f"{lab}: value")
        need_eq([bare(e, x) for x in ("Range", "Option1", "Option2", "Option3", "StepNote")], ["4", "N", "N", "N", None], f"{lab}: options")
        need_eq(len(ends), len(s["lims"]), f"{lab}: number of ends")
        for l, d in zip(s["lims"], ends):
            need_eq(bare(d, "EndType"), NAMED[l[0]], f"{lab}: end")
            need_eq(bare(d, "Oper"), "=" if l[0] == "Time" else l[1] + "=", f"{lab}: comparison of {l}")
            same(bare(d, "Value"), l[2], l[3], l[0], f"{lab}: end")
            to = i + 2 if l[4] == "Next sequence" else len(steps) if l[4] == "End" else place(seqs, k, l[5])
            need_eq(bare(d, "Step"), "%03d" % to, f"{lab}: target of {l}")
        need_eq(len(recs), len(s["recs"]), f"{lab}: number of reports")
        for r, d in zip(s["recs"], recs):
            need_eq(bare(d, "ReportType"), NAMED[r[0]], f"{lab}: report")
            same(bare(d, "Value"), r[1], r[2], r[0], f"{lab}: report")
    # the package reads its own procedure
    fn = os.path.join(scratch.new(), "p.000")
    with open(fn, "wb") as f:
        f.write(xml.encode("utf-8"))
    p = Procedure.from_file(fn)["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
    p = p if isinstance(p, list) else [p]
    need_eq([str(x["StepType"]).strip() for x in p], [bare(e, "StepType") for e in got], "procedure read again")
    for f in sorted(known):
        raise KnownFinding(f, {"C30-charge": "charging sequences become discharge steps",
                               "C30-loops": "the count of a loop is left out of the value of its end, which goes back to the Do"}[f])
    return {"nontrivial", "jumps" if kinds else "no jumps"} | {s["t"] for s in seqs}


# ------------------------------------------------------------------ refusals

BAD = [("raw", {"ctrl_type": "Pulse"}), ("raw", {"ctrl_type": "C / N"}), ("raw", {"ctrl_type": "CC", "ctrl1_val": "1.000", "ctrl1_val_unit": "V"}),
       ("raw", {"ctrl_type": "CV", "ctrl1_val": "1.000", "ctrl1_val_unit": "V", "ctrl1_val_vs": "Eoc"}), ("raw", {"charge/discharge": ""}),
       ("raw", {"ctrl_type": "CC", "ctrl1_val": "1.000", "ctrl1_val_unit": "kA"}), ("raw", {"ctrl_type": "CR", "ctrl1_val": "1.000", "ctrl1_val_unit": "W"}),
       ("raw", {"ctrl_type": "CP", "ctrl1_val": "1.000", "ctrl1_val_unit": "kW"}), ("raw", {"lim_nb": "4"}), ("raw", {"rec_nb": "4"}),
       ("lim", {"type": "|Q|"}), ("lim", {"type": "Time", "comp": "<>"}), ("lim", {"comp": "="}), ("lim", {"type": "Time", "value_unit": "d"}),
       ("lim", {"type": "Time", "value_unit": "ms", "value": "3.000"}), ("lim", {"type": "Ecell", "value_unit": "s"}), ("lim", {"type": "I", "value_unit": "V"}),
       ("lim", {"action": "Pause"}), ("lim", {"action": "Goto sequence", "seq": 99}), ("rec", {"type": "Q"}), ("rec", {"type": "Time", "value_unit": "V"}),
       ("rec", {"type": "Power", "value_unit": "V"}), ("two", None), ("ocv", None), ("overlap", None), ("overlap", None), ("into", None), ("into", None),
       ("behind", None), ("behind", None)]


@st.composite
def refused_case(draw):
    return dict(base=draw(settings()), bad=draw(st.integers(0, len(BAD) - 1)), at=draw(st.integers(0, 40)), which=draw(st.integers(0, 40)), to=draw(st.integers(0, 40)))


def refused_run(c):
    c = dict(c, base=dict(c["base"], seqs=[dict(s, lims=[list(l) for l in s.get("lims", [])]) for s in c["base"]["seqs"]]))
    seqs = c["base"]["seqs"]
    for k, s in enumerate(seqs):
        for l in s["lims"]:
            l[4:] = ["Next sequence", k + 1]
    what, bad = BAD[c["bad"]]
    at = [k for k, s in enumerate(seqs) if s["t"] != "Loop"]
    if not at:
        raise Reject("no working sequence")
    k = at[c["at"] % len(at)]
    kw = {}
    if what == "raw":
        seqs[k]["raw"] = bad
    elif what in ("lim", "rec"):
        m = seqs[k]["lims" if what == "lim" else "recs"]
        if not m:
            m = ["Time", ">", "1.000", "s", "Next sequence", k + 1] if what == "lim" else ["Time", "1.000", "s"]
            seqs[k]["lims" if what == "lim" else "recs"] = [m]
            i = 1
        else:
            i = 1 + c["which"] % len(m)
        seqs[k]["raw"] = {f"{what}{i}_{x}": v for x, v in bad.items()}
    elif what == "two":
        kw["techniques"] = 2
    elif what == "ocv":
        kw["kind"] = "OCV"
    else:
        loops = [(s["to"], j) for j, s in enumerate(seqs) if s["t"] == "Loop" and s["n"] and not (s["to"] == j - 1 and seqs[j - 1]["t"] == "Loop")]
        if not loops:
            raise Reject("no loop")
        a, b = loops[c["at"] % len(loops)]
        if what == "overlap":
            seqs.append(dict(t="Rest", v="", u="", dir="Charge", lims=[], recs=[]))
            to = a + c["to"] % (b - a + 1)
            seqs.append(dict(t="Loop", to=to, n=2, lims=[]))
        else:
            # from outside into the loop past its start, or from behind it back to it or before it
            out = [j for j in at if (j < a if what == "into" else j > b)]
            if what == "into" and c["which"] % 2:
                out = [j for j in at if not a <= j <= b]
            if not out or what == "into" and a == b:
                raise Reject("nothing outside the loop")
            j = out[c["which"] % len(out)]
            to = a + 1 + c["to"] % (b - a) if what == "into" else c["to"] % (b + 1)
            while to in range(len(seqs)) and seqs[to]["t"] == "Loop" and not seqs[to]["n"]:
                to -= 1
            if to < 0 or what == "into" and to <= a or what == "behind" and to == b:
                raise Reject("empty loop")
            seqs[j]["lims"] = seqs[j]["lims"][:2] + [["Time", ">", "1.000", "mn", "Goto sequence", to]]
            what += f" {j} to {to}"
    try:
        convert(c["base"], **kw)
    except Violation:
        raise
    except Exception as e:
        return {"nontrivial", what.split()[0], type(e).__name__}
    raise Violation(f"{what} {bad or ''} at sequence {k} has no translation and is converted without complaint")


SUBS = [Sub("convert", settings, run, quick=500, thorough=20000, shards=3),
        Sub("refused", refused_case, refused_run, quick=250, thorough=8000, shards=2)]
