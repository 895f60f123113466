"""Maccor procedure files: what is written is what is read, and edits touch only what they name."""
import copy
import os
import xml.etree.ElementTree as ET
from collections import OrderedDict

from hypothesis import strategies as st

from vlib import scratch
from vlib.core import Sub, Violation, need, need_eq

PROPERTY = "C21"
RULE = ("files: a procedure of one to eight steps with drawn types, limits, endings, reports, notes and encodings, written and read "
        "twice; edits: drawn edits of a shipped template; paths: a history of dotted-path operations on a nested structure. "
        "Non-trivial when at least one ending, edit or write was exercised")
ORACLE = ("an independent XML parser (xml.etree) and whitespace normalisation; the template's own text lines with the edited ones "
          "replaced; nested dictionaries and lists walked by hand")
ASSUMPTIONS = ["text contains only characters XML 1.0 can carry", "dotted-path operations go through containers, never through plain values"]

TEMPLATES = ["EXP.000", "diagnosticV1.000", "diagnosticV2.000", "diagnosticV3.000", "diagnosticV4.000", "diagnosticV5.000",
             "drivingV1.000", "BioTest_000001.000"]
TYPES = ["Rest", "Charge", "Dischrge", "Do 1", "Do 2", "Loop 1", "Loop 2", "AdvCycle", "End", "FastWave", "Chg Func", "Pause", "DO", "Imp"]
ENDS = ["StepTime", "Voltage", "Current", "Loop Cnt", "ACI", "Half Cyc", "User Var"]
REPS = ["StepTime", "Voltage", "Current", "PwrDelta", "T"]
TEXTS = ["", "resistance check", "a & b", "<Limits></Limits>", "\"q\" 'r'", "5 > 4 < 6", "µΩ °C", "]]>", "0|4*CRATE*(STIME/3600)",
         "x" * 60, "two\nlines", "é", "<!-- no -->", "  padded  ", "&amp;", "None", "%s {}"]
NUMS = [0, 1, 4.2, 0.0286, 1e-05, 1000000, 3.7100000000000004, -1.5, 12345.678]


def text():
    return st.one_of(st.sampled_from(TEXTS), st.text("abcXYZ 019.,:;<>&'\"-_=/()µé\t", max_size=12))


def value():
    return st.one_of(st.none(), st.sampled_from(NUMS), text(), st.floats(-1e6, 1e6, allow_nan=False), st.sampled_from(["00:10:00", "::.01", "2.0C"]))


def entries(kind):
    if kind == "E":
        e = st.fixed_dictionaries(dict(EndType=st.sampled_from(ENDS), SpecialType=st.sampled_from([None, "  ", "x"]),
                                       Oper=st.sampled_from(["=", ">=", "<=", "<", "<>=", None]), Step=st.sampled_from(["002", "070", 5, None]), Value=value()))
    else:
        e = st.fixed_dictionaries(dict(ReportType=st.sampled_from(REPS), Value=value()))
    key = {"E": "EndEntry", "R": "ReportEntry"}[kind]
    return st.one_of(st.none(), st.one_of(e, st.lists(e, min_size=1, max_size=3)).map(lambda x: {key: x}))


def step():
    return st.fixed_dictionaries(dict(
        StepType=st.sampled_from(TYPES), StepMode=st.sampled_from([None, None, "Current", "Voltage", "Power", ""]), StepValue=value(),
        Limits=st.one_of(st.none(), st.fixed_dictionaries(dict(Voltage=value())), st.fixed_dictionaries(dict(Current=value(), Voltage=value()))),
        Ends=entries("E"), Reports=entries("R"), Range=st.sampled_from(["A", "4", None, ""]), Option1=st.sampled_from(["N", None]),
        Option2=st.sampled_from(["N", None]), Option3=st.sampled_from(["N", None]), StepNote=st.one_of(st.none(), text())))


@st.composite
def file_case(draw):
    return dict(steps=draw(st.lists(step(), min_size=1, max_size=8)), desc=draw(text()), name=draw(text()),
                enc=draw(st.sampled_from(["UTF-8", "UTF-8", "default", "iso-8859-1", "utf-16"])), again=draw(st.booleans()))


def norm(x):
    """what an XML reader that strips whitespace makes of a nested structure"""
    if isinstance(x, dict):
        d = {k: norm(v) for k, v in x.items()}
        return d or None
    if isinstance(x, list):
        return norm(x[0]) if len(x) == 1 else [norm(v) for v in x]
    if x is None:
        return None
    s = str(x).strip()
    return s or None


def etree(el):
    if len(el) == 0:
        t = (el.text or "").strip()
        return t or None
    d = {}
    for ch in el:
        d.setdefault(ch.tag, []).append(etree(ch))
    return {k: (v[0] if len(v) == 1 else v) for k, v in d.items()}


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


def tolist(x):
    return x if isinstance(x, list) else [x]


def run_file(c):
    from beep.protocol.maccor import Procedure
    steps = copy.deepcopy(c["steps"])
    body = {"MaccorTestProcedure": {"header": {"BuildTestVersion": {"major": "1", "minor": "5"}, "FileVersion": None,
                                               "ProcDesc": c["desc"] or None},
                                    "ProcSteps": {"TestStep": steps}, "SafetyLimits": {"a": c["name"] or None}}}
    if len(steps) == 1:
        body["MaccorTestProcedure"]["ProcSteps"]["TestStep"] = steps[0]      # as read from a file
    p = Procedure(copy.deepcopy(body))
    d = scratch.new()
    f = os.path.join(d, "p.000")
    enc = c["enc"]
    if enc == "iso-8859-1" and "Ω" in str(body):
        enc = "UTF-8"
    kw = {} if enc == "default" else dict(encoding=enc)
    p.to_file(f, **kw)
    need_eq(plain(p), body, "the procedure after it was written")
    root = ET.parse(f).getroot()
    want = norm(body)
    need_eq({root.tag: etree(root)}, want, "the file as an independent XML parser reads it")
    raw = open(f, "rb").read().decode("UTF-8" if enc == "default" else enc)
    need_eq(raw.count('<?maccor-application progid="Maccor Procedure File"?>'), 1, "the Maccor processing instruction")
    need_eq(raw.splitlines()[1], '<?maccor-application progid="Maccor Procedure File"?>', "second line")
    # fixed-width fields
    for s in root.iter("TestStep"):
        need(len(s.find("StepType").text) == 8, "step type {!r} is not eight characters wide", s.find("StepType").text)
        need(len(s.find("StepMode").text) == 8, "step mode {!r} is not eight characters wide", s.find("StepMode").text)
        for tag in ("EndType", "ReportType"):
            for e in s.iter(tag):
                need(len(e.text) == 8, "{} {!r} is not eight characters wide", tag, e.text)
    q = Procedure.from_file(f, **kw)
    need_eq(plain(q), want, "the procedure read back")
    g = os.path.join(d, "q.000")
    q.to_file(g, **kw)
    r = Procedure.from_file(g, **kw)
    need_eq(plain(r), want, "the procedure written and read a second time")
    h = os.path.join(d, "r.000")
    r.to_file(h, **kw)
    need_eq(open(h, "rb").read(), open(g, "rb").read(), "bytes of the second and third writing")
    if c["again"]:
        p.to_file(f, **kw)
        need_eq(open(f, "rb").read().decode("UTF-8" if enc == "default" else enc), raw, "writing over the same file")
    out = {"enc:" + enc}
    if any(s["Ends"] for s in steps):
        out.add("nontrivial")
    if len(steps) == 1:
        out.add("one-step")
    return out


# ------------------------------------------------------------------ templates
@st.composite
def edit_case(draw):
    e = st.tuples(st.integers(0, 999), st.integers(0, 9), st.sampled_from(["X1", "4.123", "a<b", "00:07:00", "77"]), st.integers(0, 3))
    return dict(t=draw(st.integers(0, len(TEMPLATES) - 1)), edits=draw(st.lists(e, max_size=6)))


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
    else:
        yield path, x


def run_edit(c):
    from beep.protocol import PROCEDURE_TEMPLATE_DIR
    from beep.protocol.maccor import Procedure
    t = os.path.join(PROCEDURE_TEMPLATE_DIR, TEMPLATES[c["t"]])
    before = open(t, "rb").read()
    p = Procedure.from_file(t)
    root = ET.fromstring(before)
    want = {root.tag: etree(root)}
    need_eq(plain(p), want, "the template as read")
    d = scratch.new()
    f = os.path.join(d, "o.000")
    p.to_file(f)
    lines = open(f, "rb").read().decode().split("\n")
    need_eq(lines, before.decode().replace("\r\n", "\n").split("\n"), "an unedited template written again")
    steps = want["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
    changed = 0
    for i, j, v, how in c["edits"]:
        k = i % len(steps)
        if how == 0:      # modify_step_value: only when the type matches
            typ = steps[k]["StepType"] if j % 2 else "Charge"
            r = p.modify_step_value(k, typ, v)
            need(r is p, "modify_step_value does not return the procedure")
            if steps[k]["StepType"] == typ and steps[k]["StepValue"] != v:
                steps[k]["StepValue"] = v
                changed += 1
        else:
            ls = [q for q, x in leaves(steps[k]) if x is not None and q[-1] in ("StepValue", "Value", "Voltage", "Current", "Step", "StepNote", "Range")]
            if not ls:
                continue
            q = ls[j % len(ls)]
            p.set("MaccorTestProcedure.ProcSteps.TestStep.{}.{}".format(k, ".".join(map(str, q))), v)
            o = steps[k]
            for a in q[:-1]:
                o = o[a]
            if o[q[-1]] != v:
                changed += 1
            o[q[-1]] = v
            need_eq(p.get_path("MaccorTestProcedure.ProcSteps.TestStep.{}.{}".format(k, ".".join(map(str, q)))), v, "the value just set")
    need_eq(plain(p), want, "the template after edits")
    p.to_file(f)
    new = open(f, "rb").read().decode().split("\n")
    if len(new) == len(lines):
        diff = sum(a != b for a, b in zip(new, lines))
        need(diff <= changed, "{} lines differ after {} edits", diff, changed)
    else:
        raise Violation(f"{len(new)} lines after edits, {len(lines)} before")
    need_eq(plain(Procedure.from_file(f)), norm(want), "the edited template read back")
    need_eq(open(t, "rb").read(), before, "the template on disk")
    return {"nontrivial"} if changed else set()


# ------------------------------------------------------------------ dotted paths
KEYS = ["a", "b", "c", "Step_1", "x y", "k-1"]


@st.composite
def path_case(draw):
    leaf = st.one_of(st.none(), st.integers(-3, 3), st.sampled_from(["", "v", "1.5"]))
    tree = st.recursive(leaf, lambda s: st.one_of(st.dictionaries(st.sampled_from(KEYS), s, max_size=3), st.lists(s, min_size=1, max_size=3)), max_leaves=8)
    start = draw(st.dictionaries(st.sampled_from(KEYS), tree, max_size=4))
    op = st.tuples(st.sampled_from(["set", "set", "setnew", "get", "unset", "merge", "str"]), st.integers(0, 99), tree,
                   st.lists(st.sampled_from(KEYS), min_size=1, max_size=3))
    return dict(start=start, ops=draw(st.lists(op, min_size=1, max_size=12)))


def walk(x, path=()):
    if path:
        yield path, x
    if isinstance(x, dict):
        for k, v in x.items():
            yield from walk(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from walk(v, path + (k,))


def at(m, path):
    for a in path:
        m = m[a]
    return m


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            merge(a[k], v)
        else:
            a[k] = copy.deepcopy(v)


def nolists(x):
    if isinstance(x, dict):
        return all(nolists(v) for v in x.values())
    return not isinstance(x, list)


def run_path(c):
    from beep.utils import DashOrderedDict
    m = copy.deepcopy(c["start"])
    d = DashOrderedDict(copy.deepcopy(c["start"]))
    lab = set()
    for op, i, v, ks in c["ops"]:
        paths = list(walk(m))
        v0 = copy.deepcopy(v)
        if op == "set" and paths:
            q = paths[i % len(paths)][0]
            d.set(".".join(map(str, q)), copy.deepcopy(v))
            at(m, q[:-1])[q[-1]] = v0
            lab.add("nontrivial")
        elif op == "setnew":
            o, q = m, []
            for k in ks:                      # stop before walking through a plain value
                q.append(k)
                if k in o and isinstance(o[k], dict):
                    o = o[k]
                elif k in o:
                    break
            o = m
            for k in q[:-1]:
                o = o.setdefault(k, {})
            d.set(".".join(q), copy.deepcopy(v))
            o[q[-1]] = v0
            lab.add("nontrivial")
        elif op == "get":
            if paths and i % 3:
                q, x = paths[i % len(paths)]
                got = d.get_path(".".join(map(str, q)))
                need_eq(plain(got), x, f"value at {q}")
            else:
                q = ks + ["nothere"]
                need_eq(d.get_path(".".join(q), default=17), 17, "value at a path that does not exist")
                need_eq(d.get_path(".".join(q)), None, "value at a path that does not exist")
        elif op == "unset":
            if paths and i % 4:
                q = paths[i % len(paths)][0]
                d.unset(".".join(map(str, q)))
                del at(m, q[:-1])[q[-1]]
                lab.add("nontrivial")
            else:
                d.unset(".".join(ks + ["nothere"])) if all(isinstance(k, str) for k in ks) else None
        elif op == "merge" and isinstance(v, dict) and nolists(v) and nolists(m):
            d.merge(copy.deepcopy(v))
            merge(m, v)
            lab.add("nontrivial")
        elif op == "str":
            need(str(d).startswith("DashOrderedDict:\n"), "text of the structure")
        need_eq(plain(d), m, f"structure after {op}")
    return lab


SUBS = [
    Sub("files", file_case, run_file, 500, 8000, shards=2, shards_thorough=6),
    Sub("edits", edit_case, run_edit, 90, 1500, shards=2, shards_thorough=6),
    Sub("paths", path_case, run_path, 800, 12000, shards=1, shards_thorough=4),
]
