"""Parameters of a run: the row of its own project and number, whatever else is in the directory."""
import os

from hypothesis import strategies as st

from vlib import scratch
from vlib.core import Sub, need, need_eq, same_value

PROPERTY = "C34"
RULE = ("directories of generated parameter tables whose projects' names contain each other, asked for generated run "
        "files; the tables as written are the reference; non-trivial when a row (lookup), the limits of a parameter "
        "set (diagnostic) or the places of at least two diagnostics (structuring) were found and compared")
ASSUMPTIONS = ["tables are named <project>_<anything>.csv as those shipped with beep", "run names hold a project and a number"]

NAMES = ["Pre", "PreDiag", "PreDiag2", "Pred", "PredictionDiagnostics", "Form", "Form-2", "Form[1]", "F", "Talos", "talos", "A+B", "2017-05-09", "a b", "Diag", "x?"]
TAILS = ["_parameters - GP.csv", "_parameters.csv", "_parameters - DP.csv", "_p.csv", "_000001.csv"]


def text(draw, k):
    return draw(st.sampled_from(["%d" % (k % 7), "%.1f" % (k * 0.5), "%.3f" % (2.7 + k * 0.037), "%.6g" % (k * 0.123457)]))


@st.composite
def tables(draw, cols, some=False):
    """{project: [rows]}; a row is {column: text}"""
    names = draw(st.lists(st.sampled_from(draw(st.sampled_from([NAMES, NAMES[:5]]))), min_size=1, max_size=5, unique=True))
    out = []
    for n in names:
        have = [c for c in cols if not some or draw(st.integers(0, 5)) != 3]
        seqs = draw(st.lists(st.one_of(st.integers(0, 12), st.sampled_from([100, 287, 123456])), min_size=1, max_size=5, unique=True))
        rows = [dict({c: text(draw, draw(st.integers(0, 20))) for c in have}, seq_num=str(s)) for s in seqs]
        out.append(dict(project=n, tail=draw(st.sampled_from(TAILS[:3] * 3 + TAILS[3:])), cols=have, rows=rows, twice=draw(st.integers(0, 11)) == 7))
    return out


PLACE = dict(dir=st.sampled_from(["params", "p_q", "Form_1", "my [set]", "a.b", "params"]), src=st.sampled_from(["/data/run_1.x", "", "/a/PreDiag_000001", "rel_dir"]),
             pad=st.sampled_from([6, 6, 1, 8]), rest=st.sampled_from(["_0000A1.092", ".csv", "_00012short.092.gz", "_x_y_structured.json", "_000002_CH3.tsv"]))


def layout(c, pad=True):
    """write the tables -> directory"""
    d = os.path.join(scratch.new(), c["dir"])
    os.makedirs(d)
    os.makedirs(os.path.join(d, "Other_dir"))
    open(os.path.join(d, "readme_Pre.txt"), "w").write("Pre\n")
    for t in c["tables"]:
        cols = (["seq_num"] if "seq_num" in t["rows"][0] else []) + list(t["cols"])
        body = "\n".join([",".join(cols)] + [",".join(r[k] for k in cols) for r in t["rows"]]) + "\n"
        for tail in [t["tail"]] + (["_older.csv"] if t["twice"] else []):
            open(os.path.join(d, t["project"] + tail), "w").write(body)
    return d


def runfile(c, project, seq):
    return os.path.join(c["src"], f"{project}_{seq:0{c['pad']}d}{c['rest']}")


def matches(row, want, cols):
    for k in cols:
        need(same_value(float(row[k]), float(want[k])), "{}: {}, the table has {}", k, row[k], want[k])


# --------------------------------------------------------------------- lookup

@st.composite
def lcase(draw):
    c = {k: draw(v) for k, v in PLACE.items()}
    c.update(tables=draw(tables(["capacity_nominal", "charge_constant_current_1", "discharge_cutoff_voltage"])))
    c["ask"] = draw(st.lists(st.tuples(st.one_of(st.integers(0, 4), st.sampled_from(NAMES + ["Fake", "P"])), st.integers(0, 5)), min_size=1, max_size=4))
    c["gone"] = draw(st.integers(0, 11)) == 7
    return c


def lrun(c):
    from beep.deprecated.parameters_lookup import get_project_sequence, get_protocol_parameters
    d = layout(c)
    files = sorted(os.listdir(d))
    lab = set()
    by = {t["project"]: t for t in c["tables"]}
    for who, k in c["ask"]:
        t = c["tables"][who % len(c["tables"])] if isinstance(who, int) else by.get(who)
        project = t["project"] if t else who
        seqs = [int(r["seq_num"]) for r in t["rows"]] if t else [1]
        seq = seqs[k] if k < len(seqs) else 77 + k
        f = runfile(c, project, seq)
        need_eq(get_project_sequence(f), os.path.basename(f).split(".")[0].split("_"), f"parts of the name {f}")
        where = os.path.join(d, "gone") if c["gone"] else d
        if t and t["twice"] and not c["gone"]:
            try:
                got = get_protocol_parameters(f, where)
            except AssertionError:
                lab.add("ambiguous")
                continue
            need(False, "a project with two tables gives {}", got)
        row, table = get_protocol_parameters(f, where)
        if t is None or c["gone"] or seq not in seqs:
            need(row is None and table is None, "parameters for {} although its table does not have it: {}", f, row)
            lab.add("no_table" if t is None or c["gone"] else "no_row")
            continue
        need(row is not None, "no parameters for {} although {} has it", f, files)
        need_eq((len(row), len(table)), (1, len(t["rows"])), "rows found, rows of the table")
        matches(row.iloc[0], t["rows"][seqs.index(seq)], t["cols"] + ["seq_num"])
        for i, r in enumerate(t["rows"]):
            matches(table.iloc[i], r, t["cols"] + ["seq_num"])
        lab.add("nontrivial")
        if any(o != project and o.startswith(project) for o in by):
            lab.add("longer_name_there")
    need_eq(sorted(os.listdir(d)), files, "files in the directory after looking")
    return lab


# ----------------------------------------------------------------- diagnostic

@st.composite
def dcase(draw):
    c = {k: draw(v) for k, v in PLACE.items()}
    ts = draw(tables(["diagnostic_charge_cutoff_voltage", "diagnostic_discharge_cutoff_voltage", "other"]))
    for t in ts:
        for i, r in enumerate(t["rows"]):
            del r["seq_num"]
            r["diagnostic_parameter_set"] = draw(st.sampled_from(["Tesla21700", "Set %d" % i, "%d" % i])) + "x" * (i > 0) * draw(st.integers(0, 1)) + "_%d" % i
        t["cols"] = t["cols"] + ["diagnostic_parameter_set"]
    c.update(tables=ts, ask=draw(st.one_of(st.integers(0, 4), st.sampled_from(NAMES))), k=draw(st.integers(0, 4)))
    return c


def drun(c):
    from beep.deprecated.parameters_lookup import get_diagnostic_parameters
    d = layout(c)
    by = {t["project"]: t for t in c["tables"]}
    t = c["tables"][c["ask"] % len(c["tables"])] if isinstance(c["ask"], int) else by.get(c["ask"])
    r = t["rows"][c["k"] % len(t["rows"])] if t else dict(diagnostic_parameter_set="x")
    av = dict(parameter_set=r["diagnostic_parameter_set"], cycle_type=["reset"], length=1, diagnostic_starts_at=[1])
    keep = dict(av)
    if t and t["twice"]:
        try:
            got = get_diagnostic_parameters(av, d, t["project"])
        except AssertionError:
            return {"ambiguous"}
        need(False, "a project with two tables gives {}", got)
    got = get_diagnostic_parameters(av, d, t["project"] if t else c["ask"])
    need_eq(av, keep, "diagnostic given")
    if t is None:
        need_eq(list(got), [2.7, 4.2], "limits without a table")
        return {"no_table"}
    want = [float(r["diagnostic_discharge_cutoff_voltage"]), float(r["diagnostic_charge_cutoff_voltage"])]
    need(same_value([float(x) for x in got], want), "limits {}, the table has {}", got, want)
    return {"nontrivial"} | ({"longer_name_there"} if any(o != t["project"] and o.startswith(t["project"]) for o in by) else set())


# ---------------------------------------------------------------- structuring

COLS = ["capacity_nominal", "discharge_cutoff_voltage", "charge_cutoff_voltage", "diagnostic_type", "diagnostic_start_cycle", "diagnostic_interval",
        "diagnostic_parameter_set"]


@st.composite
def scase(draw):
    c = {k: draw(v) for k, v in PLACE.items()}
    ts = draw(tables(COLS[:3], some=True))
    for t in ts:
        diag = draw(st.integers(0, 5)) != 3
        for r in t["rows"]:
            r.update(diagnostic_type=draw(st.sampled_from(["HPPC+RPT", "HPPC+RPT", "HPPC+RPT", "HPPC", "none"])), diagnostic_start_cycle=str(draw(st.integers(1, 9))),
                     diagnostic_interval=str(draw(st.integers(1, 9))), diagnostic_parameter_set=draw(st.sampled_from(["Tesla21700", "A", "7"])))
        t["cols"] = t["cols"] + (COLS[3:] if diag else [])
        t["twice"] = False
    c.update(tables=ts, who=draw(st.integers(0, 4)), k=draw(st.sampled_from([0, 0, 0, 1, 0, 2, 9])),
             counts=[draw(st.integers(2, 4)), draw(st.integers(6, 9)), draw(st.integers(2, 4)), draw(st.integers(2, 4)), draw(st.integers(2, 4))],
             nreg=draw(st.integers(1, 3)), zero=draw(st.integers(1, 4)), ndiag=draw(st.sampled_from([2, 3, 4, 1, 3])), cut=draw(st.integers(0, 9)),
             last=draw(st.booleans()), after=draw(st.sampled_from([0, 0, 1, 2])), args=dict(v_range=draw(st.sampled_from([None, [3.0, 4.0]])), resolution=draw(st.sampled_from([1000, 50])),
                                                 nominal_capacity=draw(st.sampled_from([1.1, 4.84])), full_fast_charge=draw(st.sampled_from([0.8, 0.5]))))
    return c


def cycles(c, start, interval):
    """steps of each cycle -> ({cycle: [step numbers]}, where diagnostics start)"""
    cyc, at, step = {0: list(range(1, c["zero"] + 1))}, [], 20
    sets = []
    for k in range(3):      # the first diagnostic, those in the loop, one after the loop
        one = []
        for n in c["counts"]:
            one.append(list(range(step, step + n)))
            step += n
        sets.append(one)
    regular = list(range(step, step + c["nreg"]))
    n = 1
    for k in range(c["ndiag"]):
        final = c["last"] and k == c["ndiag"] - 1 and k >= 2
        at.append(n)
        for s in sets[0 if k == 0 else 2 if final else 1]:
            cyc[n] = s
            n += 1
        if final:
            for _ in range(c["after"]):
                cyc[n] = regular
                n += 1
            break
        for _ in range(start if k == 0 else interval):
            cyc[n] = regular
            n += 1
    final = c["last"] and c["ndiag"] >= 3
    if not final:
        for k in range(min(c["cut"], n - 2)):       # the run stopped between two cycles
            del cyc[n - 1 - k]
    return cyc, [a for a in at if a in cyc]


def srun(c):
    import pandas as pd
    from beep.deprecated.parameters_lookup import determine_structuring_parameters
    from beep.structure.arbin import ArbinDatapath
    d = layout(c)
    t = c["tables"][c["who"] % len(c["tables"])]
    r = t["rows"][c["k"]] if c["k"] < len(t["rows"]) else None
    seq = int(r["seq_num"]) if r else 999999
    start, interval = (int(r["diagnostic_start_cycle"]), int(r["diagnostic_interval"])) if r else (2, 2)
    cyc, at = cycles(c, start, interval)
    raw = pd.DataFrame([(n, s, 0.5 * i) for n in sorted(cyc) for s in cyc[n] for i in range(2)], columns=["cycle_index", "step_index", "test_time"])
    src = runfile(dict(c, src="/data/x_1"), t["project"], seq)
    dp = ArbinDatapath(raw_data=raw.copy(), metadata={}, paths={"raw": src})
    held = dp.raw_data.copy()
    got = determine_structuring_parameters(dp, parameters_path=d, **c["args"])
    need(dp.raw_data.equals(held), "looking for parameters changed the data")
    a = c["args"]
    cap, vr, dia, lab = a["nominal_capacity"], a["v_range"], False, set()
    if r:
        if "capacity_nominal" in t["cols"]:
            cap = float(r["capacity_nominal"])
        if {"discharge_cutoff_voltage", "charge_cutoff_voltage"} <= set(t["cols"]):
            vr = [min(float(x["discharge_cutoff_voltage"]) for x in t["rows"]), max(float(x["charge_cutoff_voltage"]) for x in t["rows"])]
            lab.add("range")
        if "diagnostic_type" in t["cols"] and r["diagnostic_type"] == "HPPC+RPT":
            dia = dict(cycle_type=["reset", "hppc", "rpt_0.2C", "rpt_1C", "rpt_2C"], length=5, diagnostic_starts_at=at)
    need(same_value(None if got[0] is None else [float(x) for x in got[0]], vr), "voltage range {}, expected {}", got[0], vr)
    need_eq(got[1], a["resolution"], "resolution")
    need(same_value(float(got[2]), cap), "nominal capacity {}, expected {}", got[2], cap)
    need_eq(got[3], a["full_fast_charge"], "full fast charge")
    if not dia:
        need_eq(got[4], False, "diagnostic")
        return lab | {"no_diagnostic"}
    g = dict(got[4])
    need_eq(str(g.pop("parameter_set")), r["diagnostic_parameter_set"], "parameter set")
    need_eq([int(x) for x in g.pop("diagnostic_starts_at")], dia.pop("diagnostic_starts_at"), "cycles at which diagnostics start")
    need_eq(g, dia, "diagnostic")
    if len(at) >= 2:
        lab.add("nontrivial")
    if c["last"] and c["ndiag"] >= 3:
        lab.add("final_diagnostic")
    return lab


SUBS = [Sub("lookup", lcase, lrun, 1000, 12000, shards=2, shards_thorough=4),
        Sub("diagnostic", dcase, drun, 600, 8000, shards=1, shards_thorough=4),
        Sub("structuring", scase, srun, 800, 10000, shards=2, shards_thorough=4)]
