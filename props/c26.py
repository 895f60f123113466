"""BioLogic settings files: what is written is what is read, and an edit touches one cell only."""
import os

from hypothesis import strategies as st

from props import c24
from vlib import scratch
from vlib.core import KnownFinding, Sub, Violation, need, need_eq

PROPERTY = "C26"
RULE = ("files: settings with one to twelve linked techniques of one to fourteen sequences, drawn cells, comments and other metadata; "
        "read, written, edited and read again with drawn line ends, encodings and column widths; shipped: drawn edits of the shipped "
        "templates; formation: one to two drawn parameter sets put into the shipped formation settings. Non-trivial when a settings file was written and compared line by line")
ORACLE = ("the lines of the file itself, cut into columns by position, with the edited cells replaced; the table of the cells each "
          "formation parameter governs")
ASSUMPTIONS = ["cells are shorter than a column and columns are padded, as BT-Lab writes them", "techniques of one file have the same number of fields",
               "the last technique ends the file except for blank lines"]

SHIPPED = ["formationV1.mps", "BCS - 171.64.160.115_Ta19_ourprotocol_gdocSEP2019_CC7.mps"]
FIELDS = ["Ns", "ctrl_type", "Apply I/C", "ctrl1_val", "ctrl1_val_unit", "charge/discharge", "lim1_type", "lim1_comp", "E range min (V)", "rec1_value",
          "I Range", "auto rest", "Bandwidth"]
CELLS = ["", "0", "1", "0.100", "4.2", "mA", "C / N", "<None>", "Falling Edge", "Ecell", "µA", ">", "Q limit", "a:b", "x : y", "Next sequence", "Technique"]
COMMENTS = ["", "no comment", "10:30", "a : b", "blank", "Technique", "Technique : 7", "Technique.1", "Metadata", "line3", "ohne Umlaut µ", "x ", "=", ":", "1",
            "Technique 2 of 3", "Device"]
FREE = ["free text", "12:30 started", "for DX = 1, DQ = 26.802 mA.h", "Techniques: two", "note: see Technique 1", "Comments:", "Turn to OCV between techniques"]


def text():
    return st.one_of(st.sampled_from(COMMENTS), st.text("aT 0:.µ-", max_size=8))


@st.composite
def case(draw):
    nt = draw(st.sampled_from([1, 1, 1, 1, 2, 2, 2, 3, 12]))
    nf = draw(st.integers(2, len(FIELDS) if nt < 9 else 3))
    width = draw(st.sampled_from([20, 20, 20, 25]))
    techs = [dict(type=draw(st.sampled_from(["Modulo Bat", "Loop", "Modulo Bat", "OCV"])),
                  cols=[[draw(st.sampled_from(CELLS)) for _ in range(nf)] for _ in range(draw(st.integers(1, 14 if k == 0 and nf < 5 else 4 if nt < 9 else 1)))])
             for k in range(nt)]
    return dict(techs=techs, nf=nf, width=width, comment=draw(text()), state=draw(text()), file=draw(text()),
                free=draw(st.lists(st.sampled_from(FREE), unique=True, max_size=3)),
                blanks=draw(st.lists(st.integers(0, 9), max_size=2)), sep=draw(st.sampled_from(["\r\n", "\r\n", "\n"])), enc=draw(st.sampled_from(["ISO-8859-1", "ISO-8859-1", "utf-8"])),
                sep2=draw(st.sampled_from([None, "\r\n", "\n"])), end=draw(st.integers(0, 2)), repeat=draw(st.sampled_from(["", "", "", "", "x", "x", "=", "=", "=="])),
                edits=draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 20), st.integers(0, 20),
                                              st.one_of(st.sampled_from(CELLS), st.integers(0, 99), st.floats(0, 99).map(lambda x: round(x, 3)))), max_size=3)))


def head(c):
    h = ["BT-LAB SETTING FILE", "", f"Number of linked techniques : {len(c['techs'])}", "", f"Filename : {c['file']}", "", "Device : BCS-815",
         "Ecell ctrl range : min = 0.00 V, max = 9.00 V", f"Initial state : {c['state']}", f"Comments : {c['comment']}", " at x = 0.000",
         "Electrode surface area : 0.001 cm²", "Cycle Definition : Charge/Discharge alternance"] + c["free"]
    if c["repeat"]:
        h += [f"Comments : {c['comment']}{c['repeat'].strip('=')}"] * len(c["repeat"])
    for b in c["blanks"]:
        h.insert(2 + b % (len(h) - 2), "")
    return h + [""]


def lines_of(c, techs):
    out = head(c)
    for k, t in enumerate(techs):
        out += [f"Technique : {k + 1}", t["type"]]
        for r in range(c["nf"]):
            out.append("".join(x.ljust(c["width"]) for x in [FIELDS[r]] + [str(col[r]) for col in t["cols"]]))
        if k < len(techs) - 1:
            out.append("")
    return out + [""] * c["end"]


def compare(got, want, what):
    g, w = got, want
    if g == w:
        return
    for k in range(max(len(g), len(w))):
        a, b = (x[k] if k < len(x) else None for x in (g, w))
        if a != b:
            raise Violation(f"{what}: line {k + 1} is {a!r}, expected {b!r}")


def read(path, enc):
    with open(path, "rb") as f:
        return f.read().decode(enc)


def parsed(obj, c, techs, what):
    need_eq(list(obj["Technique"]), [str(k + 1) for k in range(len(techs))], f"{what}: techniques")
    for k, t in enumerate(techs):
        o = obj["Technique"][str(k + 1)]
        need_eq(o["Type"], t["type"], f"{what}: type of technique {k + 1}")
        need_eq(list(o["Step"]), [str(j + 1) for j in range(len(t["cols"]))], f"{what}: sequences of technique {k + 1}")
        for j, col in enumerate(t["cols"]):
            need_eq(list(o["Step"][str(j + 1)].items()), list(zip(FIELDS, map(str, col))), f"{what}: sequence {j + 1} of technique {k + 1}")
    need_eq(obj["Metadata"].get("Device"), "BCS-815", f"{what}: Device")
    need_eq(obj["Metadata"].get("Comments"), c["comment"], f"{what}: Comments")
    need_eq(obj["Metadata"].get("Initial state"), c["state"], f"{what}: Initial state")


def run(c):
    from beep.protocol.biologic import Settings
    d = scratch.new()
    fn, out = os.path.join(d, "a.mps"), os.path.join(d, "b.mps")
    want = lines_of(c, c["techs"])
    with open(fn, "wb") as f:
        f.write(c["sep"].join(want).encode(c["enc"]))
    rkw = dict(encoding=c["enc"], column_width=c["width"], step_entry_length=c["nf"] + 1)
    wkw = dict(encoding=c["enc"], column_width=c["width"], **({} if c["sep2"] is None else dict(linesep=c["sep2"])))
    obj = Settings.from_file(fn, **rkw)
    parsed(obj, c, c["techs"], "reading")
    sep = c["sep2"] or "\r\n"
    labels = {"nontrivial", f"{len(c['techs'])} techniques"}
    once = list(want)
    if c["repeat"] == "==":
        del once[len(once) - 1 - once[::-1].index(f"Comments : {c['comment']}")]
    for how in range(2):
        before = repr(obj)
        obj.to_file(out, **wkw)
        need_eq(repr(obj), before, "settings after writing them")
        got = read(out, c["enc"]).split(sep)
        if c["repeat"] == "==" and got != want:
            compare(got, once, "written file")
            raise KnownFinding("C26-repeated-metadata", "metadata lines repeated more than once are dropped")
        compare(got, want, "written file")
        obj = Settings.from_file(out, **rkw)
        parsed(obj, c, c["techs"], "reading again")
    techs = [dict(t, cols=[list(x) for x in t["cols"]]) for t in c["techs"]]
    for a, b, r, v in c["edits"]:
        a, r = a % len(techs), r % c["nf"]
        b = b % len(techs[a]["cols"])
        techs[a]["cols"][b][r] = v
        obj.set(f"Technique.{a + 1}.Step.{b + 1}.{FIELDS[r]}", v)
    if c["edits"]:
        obj.to_file(out, **wkw)
        compare(read(out, c["enc"]).split(sep), lines_of(c, techs), "edited file")
        parsed(Settings.from_file(out, **rkw), c, techs, "reading the edited file")
        labels.add("edited")
    return labels


# ------------------------------------------------------------------ shipped settings

@st.composite
def shipped_case(draw):
    return dict(file=draw(st.integers(0, 1)), edits=draw(st.lists(st.tuples(st.integers(0, 60), st.integers(0, 61),
                st.one_of(st.sampled_from(CELLS), st.integers(0, 9999), st.floats(0, 99).map(lambda x: round(x, 3)))), max_size=4)))


def shipped_run(c):
    from beep.protocol import BIOLOGIC_TEMPLATE_DIR
    from beep.protocol.biologic import Settings
    fn = os.path.join(BIOLOGIC_TEMPLATE_DIR, SHIPPED[c["file"]])
    want = [x.rstrip("\r") for x in read(fn, "ISO-8859-1").split("\n")]
    first = want.index("Technique : 1") + 2
    obj = Settings.from_file(fn)
    ncol = len(want[first]) // 20 - 1
    for b, r, v in c["edits"]:
        b, r = b % ncol, r % 62
        line = want[first + r]
        name = line[:20].strip()
        old = line[20 * (b + 1):20 * (b + 2)].strip()
        got = obj.get_path(f"Technique.1.Step.{b + 1}.{name}")
        need_eq(str(got), old, f"sequence {b + 1} {name}")
        obj.set(f"Technique.1.Step.{b + 1}.{name}", v)
        want[first + r] = line[:20 * (b + 1)] + str(v).ljust(20) + line[20 * (b + 2):]
    out = os.path.join(scratch.new(), "b.mps")
    obj.to_file(out)
    compare(read(out, "ISO-8859-1").split("\r\n"), want, "written file")
    return {"nontrivial", SHIPPED[c["file"]][:3]}


# ------------------------------------------------------------------ formation parameters

@st.composite
def formation_case(draw):
    return dict(rows=draw(st.lists(c24.formation(), min_size=1, max_size=2)), fresh=draw(st.booleans()), series=draw(st.booleans()))


def formation_run(c):
    import copy
    import pandas as pd
    from beep.protocol import BIOLOGIC_TEMPLATE_DIR
    from beep.protocol.biologic import Settings
    fn = os.path.join(BIOLOGIC_TEMPLATE_DIR, SHIPPED[0])
    template = read(fn, "ISO-8859-1")
    out = os.path.join(scratch.new(), "b.mps")
    obj = None
    for k, row in enumerate(c["rows"]):
        if obj is None or c["fresh"]:
            obj = Settings.from_file(fn)
        params = pd.Series(row) if c["series"] else copy.deepcopy(row)
        got = obj.formation_protocol_bcs(params)
        need_eq(dict(params), dict(pd.Series(row)) if c["series"] else row, "parameters given")
        got.to_file(out)
        c24.check_form(out, row)
        again = Settings.from_file(out)
        again.to_file(out)
        c24.check_form(out, row)
        need_eq(read(fn, "ISO-8859-1"), template, "shipped template")
    return {"nontrivial", "twice" if len(c["rows"]) > 1 and not c["fresh"] else "once"}


SUBS = [Sub("formation", formation_case, formation_run, quick=80, thorough=3000, shards=2),
        Sub("files", case, run, quick=900, thorough=40000, shards=4),
        Sub("shipped", shipped_case, shipped_run, quick=100, thorough=3000, shards=2)]
