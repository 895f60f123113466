"""Arbin schedule files: what is written is what is read, and parameters go to the named steps and limits only."""
import os
import warnings
from collections import OrderedDict

from hypothesis import strategies as st

from vlib import scratch
from vlib.core import Sub, Violation, need, need_eq

PROPERTY = "C25"
RULE = ("files: schedules of drawn sections, steps, limits and values (text with brackets, equal signs, blanks, Latin-1 characters), "
        "read, written, edited and read again with drawn line ends and encodings; labels: drawn label edits of drawn schedules or of the "
        "shipped template; fastcharge: drawn currents and capacities. Non-trivial when a schedule was written and compared line by line")
ORACLE = "the text of the file itself, split into lines, with the lines of the edited fields replaced"
ASSUMPTIONS = ["sections follow their parent section, keys are unique within a section and contain no '='",
               "when a label is used for several steps, limits of the later ones may or may not follow"]

TEMPLATE = "20170630-3_6C_9per_5C.sdu"
LABELS = ["CC1", "CC2", "rest", "pulse charge", "CC1 ", "c[1]", ""]
VARS = ["PV_CHAN_Charge_Capacity", "PV_CHAN_Voltage", "PV_CHAN_Step_Time", ""]
VALUES = ["", "0", "1", "3.6", "a=b", "=", "[3]", "x [Schedule_Step0] y", "batch [A", "[a]=[b]", "C:\\ArbinSoftware\\x", "0.000000^0.000000",
          "0^0 ; 1^0", "Use T-Ty-e sens.&CH33", "µÿ°", "a.b_c", "None", "%s {0}", "#", "a b", "1 "]


def value():
    return st.one_of(st.sampled_from(VALUES), st.text("abc 019[]=_.;^-/µ", max_size=8).map(str.strip))


@st.composite
def schedule(draw):
    n = draw(st.integers(1, 12 if draw(st.integers(0, 4)) == 0 else 4))
    steps = []
    for k in range(n):
        lims = [dict(stop=draw(st.sampled_from(["1", "1", "0"])), left=draw(st.sampled_from(VARS)), sign=draw(st.sampled_from([">", "<", ">=", ""])),
                     right=draw(value()), goto=draw(value())) for _ in range(draw(st.integers(0, 3)))]
        steps.append(dict(label=draw(st.sampled_from(LABELS)), ctrl=draw(value()), more=draw(value()), limits=lims))
    return dict(steps=steps, comment=draw(value()), extra=draw(st.lists(value(), max_size=3)), tail=draw(st.integers(0, 2)))


def sections(c):
    """-> [(heading, [(key, value)])]"""
    out = [("Version Section", [("Current_Version", "Schedule Version 7.00.13")]), ("Signature Section", [("Signature", "{107D-4AB}")]),
           ("Schedule", [("m_uMUID", "660851408"), ("m_szComments", c["comment"]), ("m_uStepNum", str(len(c["steps"])))]
            + [(f"m_x{k}", v) for k, v in enumerate(c["extra"])])]
    for k, s in enumerate(c["steps"]):
        out.append((f"Schedule_Step{k}", [("m_uLimitNum", str(len(s["limits"]))), ("m_szLabel", s["label"]), ("m_szCtrlValue", s["ctrl"]),
                                          ("m_szExtDef1", s["more"])]))
        for j, l in enumerate(s["limits"]):
            out.append((f"Schedule_Step{k}_Limit{j}", [("m_bStepLimit", l["stop"]), ("m_szGotoStep", l["goto"]), ("Equation0_szLeft", l["left"]),
                                                       ("Equation0_szCompareSign", l["sign"]), ("Equation0_szRight", l["right"]), ("Equation1_szLeft", "")]))
    if c["tail"]:
        out.append(("Schedule_UserDefineSafety0", [("m_szType", c["comment"]), ("m_bEnable", "0")]))
    if c["tail"] == 2:
        out.append(("Schedule_UserDefineSafety0_Limit0", [("a", "1")]))
    return out


def text(secs, sep):
    return "".join(f"[{h}]{sep}" + "".join(f"{k}={v}{sep}" for k, v in kv) for h, kv in secs)


def parse(txt, sep):
    """independent reader: a heading is a line in brackets"""
    out = []
    for line in txt.split(sep)[:-1]:
        if line.startswith("[") and line.endswith("]") and "=" not in line:
            out.append((line[1:-1], []))
        else:
            k, v = line.split("=", 1)
            out[-1][1].append((k, v))
    return out


def same_text(got, want, what):
    if got == want:
        return
    g, w = got.splitlines(), want.splitlines()
    for k in range(max(len(g), len(w))):
        a, b = (x[k] if k < len(x) else None for x in (g, w))
        if a != b:
            raise Violation(f"{what}: line {k + 1} is {a!r}, expected {b!r}")
    raise Violation(f"{what}: line ends differ")


def lookup(obj, heading):
    for k in heading.split("_"):
        obj = obj[k]
    return obj


def checked(obj, secs, what):
    """the parsed object holds exactly the sections"""
    for h, kv in secs:
        d = lookup(obj, h)
        need(isinstance(d, dict), f"{what}: section {h} missing")
        need_eq([(k, str(v)) for k, v in d.items() if not isinstance(v, dict)], kv, f"{what}: section {h}")


@st.composite
def file_case(draw):
    return dict(s=draw(schedule()), sep=draw(st.sampled_from(["\r\n", "\n"])), enc=draw(st.sampled_from(["latin-1", "latin-1", "utf-8"])),
                edits=draw(st.lists(st.tuples(st.integers(0, 99), st.integers(0, 9), st.one_of(value(), st.integers(-5, 5), st.floats(-9, 9).map(lambda x: round(x, 3)))), max_size=3)),
                sep2=draw(st.sampled_from([None, "\r\n", "\n"])))


def file_run(c):
    from beep.protocol.arbin import Schedule
    secs = sections(c["s"])
    d = scratch.new()
    fn, out = os.path.join(d, "a.sdu"), os.path.join(d, "b.sdu")
    txt = text(secs, c["sep"])
    with open(fn, "wb") as f:
        f.write(txt.encode(c["enc"]))
    obj = Schedule.from_file(fn, encoding=c["enc"])
    checked(obj, secs, "reading")
    kw = {} if c["sep2"] is None else dict(linesep=c["sep2"])
    for how in range(2):
        before = repr(obj)
        obj.to_file(out, encoding=c["enc"], **kw)
        need_eq(repr(obj), before, "schedule after writing it")
        with open(out, "rb") as f:
            same_text(f.read().decode(c["enc"]), text(secs, c["sep2"] or "\r\n"), "written file")
        obj = Schedule.from_file(out, encoding=c["enc"])
    for a, b, v in c["edits"]:
        h, kv = secs[a % len(secs)]
        k = kv[b % len(kv)][0]
        if isinstance(v, str) and v != v.strip():
            continue
        obj.set(".".join(h.split("_") + [k]), v)
        secs = [(h2, [(k2, str(v) if (h2, k2) == (h, k) else v2) for k2, v2 in kv2]) for h2, kv2 in secs]
    obj.to_file(out, encoding=c["enc"], **kw)
    with open(out, "rb") as f:
        same_text(f.read().decode(c["enc"]), text(secs, c["sep2"] or "\r\n"), "edited file")
    return {"nontrivial", f"{len(c['s']['steps'])} steps"} | ({"edited"} if c["edits"] else set())


# ------------------------------------------------------------------ labels

@st.composite
def label_case(draw):
    return dict(s=draw(st.one_of(st.none(), schedule(), schedule())), label=draw(st.integers(0, 20)), mode=draw(st.sampled_from([None, "first", "all"])),
                key=draw(st.sampled_from(["m_szCtrlValue", "m_szExtDef1", "m_szNew"])), val=draw(st.sampled_from(["3.5", "[1]", "0", "-2.000", None, None])),
                var=draw(st.sampled_from(VARS[:3])), sign=draw(st.sampled_from([">", "<=", "="])), lim=draw(st.sampled_from(["0.086", "", "7", 4, 0.25])),
                order=draw(st.booleans()))


def load(c):
    from beep.protocol import SCHEDULE_TEMPLATE_DIR
    from beep.protocol.arbin import Schedule
    if c is None:
        fn = os.path.join(SCHEDULE_TEMPLATE_DIR, TEMPLATE)
        with open(fn, "rb") as f:
            txt = f.read().decode("latin-1")
        secs = parse(txt, "\r\n" if "\r\n" in txt else "\n")
    else:
        secs = sections(c)
        fn = os.path.join(scratch.new(), "a.sdu")
        with open(fn, "wb") as f:
            f.write(text(secs, "\r\n").encode("latin-1"))
    return secs, Schedule.from_file(fn)


def steps_of(secs, label):
    return [h for h, kv in secs if h.startswith("Schedule_Step") and h.count("_") == 1 and dict(kv)["m_szLabel"] == label]


def put(secs, h, k, v):
    """the same sections with one field set (appended if new)"""
    out = []
    for h2, kv in secs:
        if h2 == h:
            kv = [(a, v if a == k else b) for a, b in kv] if k in dict(kv) else kv + [(k, v)]
        out.append((h2, kv))
    return out


def put_limits(secs, step, var, sign, val):
    for h, kv in list(secs):
        d = dict(kv)
        if h.startswith(step + "_Limit") and d["m_bStepLimit"] == "1" and d["Equation0_szLeft"] == var:
            secs = put(put(secs, h, "Equation0_szCompareSign", sign), h, "Equation0_szRight", str(val))
    return secs


def written(obj):
    out = os.path.join(scratch.new(), "b.sdu")
    obj.to_file(out)
    with open(out, "rb") as f:
        return f.read().decode("latin-1")


def label_run(c):
    secs, obj = load(c["s"])
    labels = sorted({dict(kv)["m_szLabel"] for h, kv in secs if h.startswith("Schedule_Step") and h.count("_") == 1}) + ["no such label"]
    label = labels[c["label"] % len(labels)]
    hit = steps_of(secs, label)
    need_eq(list(obj.get_labelled_steps(label)), [h.split("_")[1] for h in hit], f"steps labelled {label!r}")

    val = c["val"]
    if val is None:
        # what the first of the steps has already
        val = ([dict(kv).get(c["key"], "") for h, kv in secs if h in hit] + [""])[0]

    def set_steps():
        nonlocal secs
        kw = {} if c["mode"] is None else dict(mode=c["mode"])
        obj.set_labelled_steps(label, c["key"], val, **kw)
        for h in hit if c["mode"] == "all" else hit[:1]:
            secs = put(secs, h, c["key"], val)
    if c["order"]:
        set_steps()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        obj.set_labelled_limits(label, c["var"], c["sign"], c["lim"])
    if not c["order"]:
        set_steps()
    first = put_limits(secs, hit[0], c["var"], c["sign"], c["lim"]) if hit else secs
    every = secs
    for h in hit:
        every = put_limits(every, h, c["var"], c["sign"], c["lim"])
    got = written(obj)
    if got != text(every, "\r\n"):
        same_text(got, text(first, "\r\n"), f"limits of {label!r}")
    return {"nontrivial", f"{min(len(hit), 2)} steps"}


# ------------------------------------------------------------------ fast charging

@st.composite
def fast_case(draw):
    num = st.one_of(st.integers(1, 12), st.integers(1, 12000).map(lambda k: k / 1000), st.floats(0.001, 12))
    return dict(cc1=draw(num), cap=draw(num), cc2=draw(num))


def fast_run(c):
    from beep.protocol import SCHEDULE_TEMPLATE_DIR
    from beep.protocol.arbin import Schedule
    secs, _ = load(None)
    obj = Schedule.from_fast_charge(c["cc1"], c["cap"], c["cc2"], os.path.join(SCHEDULE_TEMPLATE_DIR, TEMPLATE))
    got = parse(written(obj), "\r\n")
    one, two = steps_of(secs, "CC1")[0], steps_of(secs, "CC2")[0]
    n = 0
    need_eq([h for h, _ in got], [h for h, _ in secs], "sections")
    for (h, a), (_, b) in zip(got, secs):
        need_eq([k for k, _ in a], [k for k, _ in b], f"keys of {h}")
        stop = h.startswith(one + "_Limit") and dict(b)["m_bStepLimit"] == "1" and dict(b)["Equation0_szLeft"] == "PV_CHAN_Charge_Capacity"
        for (k, x), (_, y) in zip(a, b):
            want = c["cc1"] if (h, k) == (one, "m_szCtrlValue") else c["cc2"] if (h, k) == (two, "m_szCtrlValue") else \
                c["cap"] if stop and k == "Equation0_szRight" else None
            if want is None:
                need_eq(x, ">" if stop and k == "Equation0_szCompareSign" else y, f"{h} {k}")
            else:
                n += 1
                need(abs(float(x) - want) <= 0.000501, f"{h} {k}: {x}, expected {want}")
    need_eq(n, 3, "parameters inserted")
    return {"nontrivial"}


SUBS = [Sub("files", file_case, file_run, quick=700, thorough=30000, shards=3),
        Sub("labels", label_case, label_run, quick=500, thorough=20000, shards=3),
        Sub("fastcharge", fast_case, fast_run, quick=100, thorough=2000, shards=1)]
