"""The command line: every file processed as on its own, and a truthful report."""
import glob
import hashlib
import json
import os
import re

from hypothesis import strategies as st

from props import c09, c24
from vlib import diag, runs, scratch
from vlib.core import KnownFinding, Sub, Violation, frames_equal, need, need_eq, same_value

PROPERTY = "C32"
RULE = ("drawn batches of input files (good, failing validation, damaged, of unknown kind) with drawn options given to the "
        "structure, featurize, protocol and inspect commands, the library applied to each file alone being the reference; "
        "non-trivial when at least one file was processed and compared")
ORACLE = ("the library called on each file by itself (differential), file contents before and after, and the hashes of the files on disk")
ASSUMPTIONS = ["commands run one after another in a process see only their own arguments"]
TABLES = ["raw_data", "structured_data", "structured_summary", "diagnostic_data", "diagnostic_summary"]


def invoke(args, cwd):
    from click.testing import CliRunner
    from beep.cmd import cli
    os.chdir(cwd)
    try:
        r = CliRunner().invoke(cli, [str(a) for a in args])
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:      # errors of the library that are no Exception end the interpreter with code 1
        if not type(e).__module__.startswith("beep"):
            raise
        r = Ended(e)
    need_eq(os.getcwd(), cwd, "working directory")
    return r


class Ended:
    exit_code, output = 1, ""

    def __init__(self, e):
        self.exception = e


def md5(p):
    with open(p, "rb") as f:
        return hashlib.md5(f.read()).hexdigest()


def tree(d):
    return {os.path.relpath(p, d): open(p, "rb").read() for p in glob.glob(os.path.join(d, "**"), recursive=True) if os.path.isfile(p)}


def report(path, op, c):
    with open(path) as f:
        s = json.load(f)
    need_eq(s["op_type"], op, "operation named in the report")
    need_eq(s["metadata"]["run_id"], c["rid"], "run id in the report")
    need_eq(list(s["metadata"]["tags"] or []), c["tags"], "tags in the report")
    return s


def globals_of(c, d):
    a = []
    if c["status"]:
        a += ["--output-status-json", os.path.join(d, "status.json")]
    if c["rid"] is not None:
        a += ["-r" if c["short"] else "--run-id", c["rid"]]
    for t in c["tags"]:
        a += ["-t" if c["short"] else "--tags", t]
    if c["halt"]:
        a += ["--halt-on-error"]
    return a


COMMON = dict(rid=st.one_of(st.none(), st.integers(0, 999)), tags=st.lists(st.sampled_from(["a", "exp for k", "ü"]), max_size=2),
              halt=st.integers(0, 5).map(lambda x: x == 3), short=st.booleans(), status=st.integers(0, 7).map(lambda x: x > 0))


# ------------------------------------------------------------------ structure

@st.composite
def sfile(draw):
    k = draw(st.sampled_from(["arbin", "arbin", "arbin", "maccor", "maccor", "bad", "garbage", "unknown", "empty", "arbin"]))
    return dict(k=k, n=draw(st.integers(0, 5)), d=draw(st.integers(0, 1)), ext=draw(st.integers(0, 2)),
                run=draw(runs.run(2, 3, nmax=4)) if k in ("arbin", "bad") else None,
                mac=draw(c09.case()) if k == "maccor" else None)


@st.composite
def scase(draw):
    n = draw(st.integers(1, 4))
    c = {k: draw(v) for k, v in COMMON.items()}
    c.update(files=[draw(sfile()) for _ in range(n)], out=draw(st.sampled_from([None, "dir", "dir", "names", "names", "both", "few"])),
             gz=draw(st.booleans()), vr=draw(st.one_of(st.none(), st.sampled_from([[2.7, 4.1], [3.0, 3.6]]))),
             res=draw(st.integers(2, 12)), nom=draw(st.one_of(st.none(), st.sampled_from([1.1, 2.5, 0.01]))),
             ffc=draw(st.one_of(st.none(), st.sampled_from([0.5, 0.8]))),
             cax=draw(st.sampled_from([None, "voltage", "test_time", None, "nope"])), dax=draw(st.sampled_from([None, "test_time", "discharge_capacity"])),
             auto=draw(st.integers(0, 7)) == 5, only=draw(st.integers(0, 7)) == 3, noraw=draw(st.booleans()),
             missing=draw(st.integers(0, 15)) == 7, rel=draw(st.booleans()))
    return c


def write_arbin(path, df, bad):
    cols = dict(data_point="Data_Point", test_time="Test_Time", date_time="DateTime", step_time="Step_Time", step_index="Step_Index",
                cycle_index="Cycle_Index", current="Current", voltage="Voltage", charge_capacity="Charge_Capacity",
                discharge_capacity="Discharge_Capacity", charge_energy="Charge_Energy", discharge_energy="Discharge_Energy",
                internal_resistance="Internal_Resistance", temperature="Temperature")
    import pandas as pd
    d = pd.DataFrame({v: (df[k] if k in df else 0.0) for k, v in cols.items() if k not in ("data_point", "date_time")})
    d["Voltage"] = d["Voltage"].clip(upper=3.75)
    d["Temperature"] = d["Temperature"].clip(lower=21)
    for k in ("Charge_Capacity", "Discharge_Capacity"):
        d[k] = d[k].clip(upper=1.9)
    if bad:
        d.loc[len(d) - 1, "Voltage"] = 9.0
    d.insert(0, "DateTime", 1500000000.0 + d["Test_Time"])
    d.to_csv(path)


def make_files(c, base):
    out = []
    for i, f in enumerate(c["files"]):
        d = os.path.join(base, "in%d" % f["d"])
        os.makedirs(d, exist_ok=True)
        if f["k"] == "maccor":
            p = os.path.join(d, "PreDiag_00020%d_00021F.0%d" % (f["n"], 10 + f["ext"]))
            rows, _ = c09.table(f["mac"])
            for r in rows:
                r[1] = str(int(r[1]) - int(rows[0][1]))
                if r[9] == "D":
                    r[7] = "-" + r[7]
            q = c09.write(dict(f["mac"], name="PreDiag_00020%d_00021F" % f["n"], ext="0%d" % (10 + f["ext"])), rows, d)
            need_eq(q, p, "name")
        elif f["k"] == "unknown":
            p = os.path.join(d, "notes%d.dat" % f["n"])
            open(p, "w").write("a,b\n1,2\n")
        else:
            p = os.path.join(d, "2017-05-09_test_CH%d.csv" % f["n"])
            if f["k"] == "garbage":
                open(p, "w").write("x;y\n\"1;2\n,,,,\n")
            elif f["k"] == "empty":
                open(p, "w").close()
            else:
                write_arbin(p, runs.expand(f["run"]), f["k"] == "bad")
        if p not in out:
            out.append(p)
    return out


def alone(path, c, params, pdir, tmp, k):
    """the library on one file -> dict(schema, valid, ok, ref)"""
    from beep.structure.cli import auto_load, auto_load_processed
    r = dict(schema=None, valid=False, ok=False, ref=None)
    try:
        dp = auto_load(path)
        r["schema"] = dp.schema
        r["valid"] = bool(dp.validate()[0])
        if not r["valid"] or c["only"]:
            return r
        if c["auto"]:
            dp.autostructure(charge_axis=params["charge_axis"], discharge_axis=params["discharge_axis"], parameters_path=pdir)
        else:
            dp.structure(**params)
        ref = os.path.join(tmp, "ref%d.json" % k)
        dp.to_json_file(ref, omit_raw=c["noraw"])
        r["ref"] = auto_load_processed(ref)
        r["ok"] = True
    except BaseException as e:
        if not isinstance(e, Exception) and not type(e).__module__.startswith("beep"):
            raise
        r["why"] = f"{type(e).__name__}: {e}"
    return r


def srun(c):
    from beep.structure.cli import auto_load_processed
    base = scratch.new()
    files = make_files(c, base)
    cwd, odir, tmp, pdir = (os.path.join(base, x) for x in ("cwd", "out", "tmp", "params"))
    for d in (cwd, odir, tmp, pdir):
        os.makedirs(d)
    lab = set()
    given = list(files)
    if c["missing"]:
        given.append(os.path.join(base, "in0", "2017-05-09_test_CH99.csv"))
    before = [open(p, "rb").read() for p in files]
    params = dict(v_range=tuple(c["vr"]) if c["vr"] else None, resolution=c["res"], nominal_capacity=c["nom"] or 1.1,
                  full_fast_charge=c["ffc"] or 0.8, charge_axis=c["cax"] or "charge_capacity", discharge_axis=c["dax"] or "voltage")
    names = [os.path.join(odir, "o%d.json%s" % (i, ".gz" if c["gz"] else "")) for i in range(len(given))]
    auto_names = [re.sub(r"\.[^.]*$", "", os.path.basename(f)) + "_structured.json.gz" for f in given]
    args = globals_of(c, base) + ["structure"]
    few = c["out"] == "few" and len(given) > 1
    if c["out"] in ("dir", "both"):
        args += ["-d" if c["short"] else "--output-dir", os.path.relpath(odir, cwd) if c["rel"] else odir]
        want = [os.path.join(odir, n) for n in auto_names]
    elif c["out"] in ("names", "few"):
        want = names
    else:
        want = [os.path.join(cwd, n) for n in auto_names]
    if c["out"] in ("names", "both", "few"):
        for n in (names[:-1] if few else names):
            args += ["-o" if c["short"] else "--output-filenames", os.path.relpath(n, cwd) if c["rel"] else n]
    for o, s, v in (("--v-range", "-v", c["vr"]), ("--resolution", "-r", c["res"]), ("--nominal-capacity", "-n", c["nom"]),
                    ("--full-fast-charge", "-f", c["ffc"]), ("--charge-axis", "-c", c["cax"]), ("--discharge-axis", "-x", c["dax"])):
        if v is not None:
            args += [s if c["short"] else o] + (list(v) if isinstance(v, list) else [v])
    args += (["--automatic", "--protocol-parameters-dir", pdir] if c["auto"] else []) + (["--validation-only"] if c["only"] else [])
    args += ["--no-raw"] if c["noraw"] else []
    args += [os.path.relpath(f, cwd) if c["rel"] else f for f in given]
    r = invoke(args, cwd)
    for p, b in zip(files, before):
        need(open(p, "rb").read() == b, "structuring changed the input {}", p)
    made = {os.path.join(d, x) for d in (cwd, odir) for x in os.listdir(d)}
    clash = len(set(want)) < len(want) and not c["only"]
    if c["missing"] or few or (clash and r.exit_code):
        need(r.exit_code != 0, "a command that cannot be carried out ends with exit code 0")
        need_eq(made, set(), "files written by a command that was refused")
        return {"refused", "missing" if c["missing"] else "few" if few else "clash"}
    exp = [alone(f, c, params, pdir, tmp, k) for k, f in enumerate(files)]
    good = [e["valid"] and c["only"] or e["ok"] for e in exp]
    stop = len(files)
    if c["halt"] and not all(good):
        stop = good.index(False)
        need(r.exit_code != 0, "exit code 0 although a file failed and --halt-on-error was given")
        lab.add("halted")
    else:
        need_eq((r.exit_code, r.exception), (0, None), "exit code and exception")
    need_eq(sorted(made), sorted(w for w, e in zip(want[:stop], exp) if e["ok"]), "files written")
    for w, e, f in zip(want[:stop], exp, files):
        if not e["ok"]:
            continue
        dp = auto_load_processed(w)
        need(type(dp) is type(e["ref"]), "{} became a {}", f, type(dp).__name__)
        for t in TABLES:
            frames_equal(getattr(dp, t), getattr(e["ref"], t), f"{os.path.basename(f)}: {t}")
        need(same_value(dp.structuring_parameters, e["ref"].structuring_parameters), "structuring parameters of {}", f)
        need(same_value(dp.metadata.raw, e["ref"].metadata.raw), "metadata of {}", f)
        lab |= {"nontrivial", "processed"}
    if stop == len(files):
        if c["status"]:
            s = report(os.path.join(base, "status.json"), "structure", c)
            need_eq(list(s["files"]), files, "files in the report")
            for w, e, f in zip(want, exp, files):
                g = s["files"][f]
                need_eq(g["raw_md5_chksum"], md5(f), "hash of the input " + f)
                need_eq(g["validation_schema"], e["schema"], "schema of " + f)
                need_eq(g["validated"], e["valid"], "validated " + f)
                need_eq(g["structured"], e["ok"], "structured " + f)
                need_eq(g["output"], w if e["ok"] else None, "output of " + f)
                need_eq(g["processed_md5_chksum"], md5(w) if e["ok"] else None, "hash of the output of " + f)
                need((g["traceback"] is None) == bool(e["ok"] or (c["only"] and e["valid"])), "traceback of {}: {}", f, g["traceback"])
                if e["ok"]:
                    need(same_value(json.loads(json.dumps(g["structuring_parameters"])),
                                    json.loads(json.dumps(e["ref"].structuring_parameters, default=list))), "parameters reported for {}", f)
                if not e["ok"]:
                    lab.add("failed_file")
                    if e["schema"] and not e["valid"]:
                        lab.add("invalid_file")
                elif not all(good):
                    lab.add("good_beside_bad")
        else:
            need(not os.path.exists(os.path.join(base, "status.json")), "a report nobody asked for")
    if c["only"]:
        lab |= {"validation_only"} | ({"nontrivial"} if any(e["valid"] for e in exp) else set())
    if c["auto"] and not c["only"] and any("autostructure" in e.get("why", "") for e in exp):
        raise KnownFinding("C32-automatic", "structure --automatic fails for every valid file: BEEPDatapath has no autostructure")
    return lab


# ------------------------------------------------------------------ featurize

FEATS = ["CycleSummaryStats", "TrajectoryFastCharge", "DeltaQFastCharge", "DiagnosticSummaryStats", "HPPCResistanceVoltageFeatures",
         "beep.features.core.CycleSummaryStats", "beep.features.core.ExclusionCriteria", "DiagnosticProperties"]


@st.composite
def fcase(draw):
    c = {k: draw(v) for k, v in COMMON.items()}
    d = draw(diag.case(nwmin=2, nwmax=2, resmin=12, resmax=12))
    files = draw(st.lists(st.tuples(st.sampled_from(["diag", "diag2", "diag", "plain", "garbage", "diag", "list", "diag2", "plain", "diag", "diag"]), st.integers(0, 3), st.integers(0, 1)),
                          min_size=1, max_size=3, unique_by=lambda x: x[1:]))
    c.update(d=dict(d, allsum=True, nd=2, cc=[2, 3], fade=5), files=files, feats=draw(st.lists(st.sampled_from(FEATS), min_size=0, max_size=2, unique=True)),
             hyp=draw(st.lists(st.tuples(st.sampled_from(["CycleSummaryStats", "CycleSummaryStats", "TrajectoryFastCharge", "DiagnosticSummaryStats"]), st.integers(0, 2)),
                               max_size=3)),
             sets=draw(st.sampled_from([None, None, None, "all_targets"])), out=draw(st.sampled_from([None, "file", "dir", "dir", "both"])),
             keep=draw(st.booleans()), gz=draw(st.booleans()), rel=draw(st.booleans()),
             missing=draw(st.integers(0, 19)) == 11, wrong=draw(st.sampled_from([None] * 19 + ["Foo", "beep.structure.base.BEEPDatapath", "{\"A\": 1, \"B\": 2}", "[1]"])))
    return c


def hyper(name, k, pdir, regs):
    if name == "CycleSummaryStats":
        return dict(cycle_comp_num=[regs[1], regs[-1]], **([{}, dict(statistics=["var", "mean"]), dict(statistics=["abs", "min", "square"])][k]))
    if name == "TrajectoryFastCharge":
        return [dict(thresh_max_cap=0.99, thresh_min_cap=0.6, interval_cap=0.07), dict(interval_cap=0.05), {}][k]
    return dict(parameters_path=pdir, test_time_filter_sec=1000000, cycle_index_filter=6, diagnostic_cycle_type="rpt_0.2C",
                diag_pos_list=[0, 1], statistics=[["var"], ["mean", "abs"], ["min"]][k])


def frun(c):
    import importlib
    from monty.serialization import loadfn
    from beep.features.base import BEEPFeatureMatrix
    from beep.structure.cli import auto_load_processed
    from monty.serialization import dumpfn
    base = scratch.new()
    cwd, odir, pdir, tmp = (os.path.join(base, x) for x in ("cwd", "out", "params", "tmp"))
    for d in (cwd, odir, pdir, tmp):
        os.makedirs(d)
    files = []
    for kind, n, sub in c["files"]:
        d = os.path.join(base, "in%d" % sub)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "Proj_%06d_0000A%d_structured.json%s" % (c["d"]["seq"], n, ".gz" if c["gz"] and kind not in ("garbage", "list") else ""))
        if kind in ("diag", "diag2"):
            dd = c["d"] if kind == "diag" else dict(c["d"], seed=c["d"]["seed"] // 2 + 7 + n)
            dp, _, _ = diag.build(dd, pdir)
            dp.paths = {"raw": p.replace("_structured.json", ".csv")}
            dp.to_json_file(p, omit_raw=True)
        elif kind == "plain":
            from props.c14 import base as empty
            dp = empty()
            dp.paths = {"raw": p.replace("_structured.json", ".csv")}
            dp.structured_summary, _ = diag.summaries(c["d"], __import__("numpy").random.RandomState(n))
            dp.structured_data = diag.structured_data(c["d"], __import__("numpy").random.RandomState(n))
            dp.to_json_file(p, omit_raw=True)
        elif kind == "garbage":
            open(p, "w").write('{"a": [1, ')
        elif kind == "list":
            open(p, "w").write("[1, 2]")
        files.append(p)
    if c["missing"]:
        files.append(os.path.join(base, "in0", "gone_structured.json"))
    diag.parameters(c["d"], pdir)
    regs = diag.layout(c["d"])[1]
    here = [p for p in files if os.path.exists(p)]
    before = [open(p, "rb").read() for p in here]
    todo = []
    args = globals_of(c, base) + ["featurize"]
    if c["sets"] == "all_targets":
        names = ["TrajectoryFastCharge", "DiagnosticProperties"]
        args += ["-f", "all_targets"] + [x for f in c["feats"] for x in ("-f", f)]
    elif c["feats"]:
        names = c["feats"]
        args += [x for f in names for x in ("-f" if c["short"] else "--featurize-with", f)]
    else:
        names = ["HPPCResistanceVoltageFeatures", "DeltaQFastCharge", "DiagnosticSummaryStats", "CycleSummaryStats"]
    core = importlib.import_module("beep.features.core")
    for f in names:
        cls = getattr(core, f.rpartition(".")[2])
        todo.append((cls, dict(cls.DEFAULT_HYPERPARAMETERS)))
    for f, k in c["hyp"]:
        cls, h = getattr(core, f), hyper(f, k, pdir, regs)
        todo.append((cls, dict(cls.DEFAULT_HYPERPARAMETERS, **h)))
        args += ["-h" if c["short"] else "--featurize-with-hyperparams", repr({f: h})]
    if c["wrong"]:
        if c["wrong"][0] in "{[":
            args += ["-h", c["wrong"]]
        elif c["sets"]:     # other names beside a set are ignored
            args += ["-h", repr({c["wrong"]: {}})]
        else:
            args += ["-f", c["wrong"]]
    of = os.path.join(base, "tmp", "m.json" + (".gz" if c["gz"] else ""))
    if c["out"] in ("file", "both"):
        args += ["-o" if c["short"] else "--output-filename", os.path.relpath(of, cwd) if c["rel"] else of]
    if c["out"] in ("dir", "both"):
        args += ["-d" if c["short"] else "--output-dir", os.path.relpath(odir, cwd) if c["rel"] else odir]
    args += (["--save-intermediates"] if c["keep"] else []) + [os.path.relpath(f, cwd) if c["rel"] else f for f in files]
    r = invoke(args, cwd)
    for p, b in zip(here, before):
        need(open(p, "rb").read() == b, "featurizing changed the input {}", p)
    made = {os.path.join(d, x) for d in (cwd, odir, tmp) for x in os.listdir(d)}
    if c["wrong"]:
        need(r.exit_code != 0, "a command naming an unusable featurizer {} ends with exit code 0", c["wrong"])
        need_eq(made, set(), "files written by a refused command")
        return {"refused"}
    if len(here) < len(files):
        need(r.exit_code != 0, "a command naming a missing file ends with exit code 0")
        return {"missing"}
    lab, exp, ok_bfs, stop = set(), [], [], None
    for i, p in enumerate(files):
        rows = []
        for cls, h in todo:
            e = dict(valid=False, done=False, bf=None)
            try:
                dp = auto_load_processed(p)
                e["loaded"] = True
                f = cls(structured_datapath=dp, hyperparameters=json.loads(json.dumps(h)) if not any(isinstance(v, tuple) for v in h.values()) else dict(h))
                e["valid"] = bool(f.validate()[0])
                if e["valid"]:
                    f.create_features()
                    e["done"], e["bf"] = True, f
            except BaseException as x:
                if not isinstance(x, Exception) and not type(x).__module__.startswith("beep"):
                    raise
                e["why"] = type(x).__name__
            rows.append(e)
            if not e["done"] and stop is None:
                stop = (i, len(rows))
        exp.append(rows)
    ref, refused = None, False
    if c["halt"] and stop is not None:
        need(r.exit_code != 0, "exit code 0 although a featurizer failed and --halt-on-error was given")
        return {"halted"}
    bfs = [e["bf"] for rows in exp for e in rows if e["done"]]
    try:
        ref = BEEPFeatureMatrix(bfs)
        dumpfn(ref, os.path.join(base, "ref.json"))
    except BaseException as x:
        if not isinstance(x, Exception) and not type(x).__module__.startswith("beep"):
            raise
        ref = None      # no features, or the same features twice
    if ref is None and c["halt"]:
        need(r.exit_code != 0, "exit code 0 although no matrix could be made and --halt-on-error was given")
        return {"halted"}
    need_eq((r.exit_code, r.exception), (0, None), "exit code and exception")
    where = odir if c["out"] in ("dir", "both") else cwd
    mats = [p for p in made if os.path.basename(p).startswith("FeatureMatrix-")] if c["out"] not in ("file", "both") else [p for p in made if p == of]
    if ref is not None:
        need_eq(len(mats), 1, "feature matrices written")
        if c["out"] not in ("file", "both"):
            need_eq(os.path.dirname(mats[0]), where, "folder of the feature matrix")
            need(mats[0].endswith(".json.gz"), "name of the feature matrix {}", mats[0])
        m = loadfn(mats[0])
        need(isinstance(m, BEEPFeatureMatrix), "the matrix loads as {}", type(m).__name__)
        need_eq(list(m.matrix.columns), list(ref.matrix.columns), "matrix columns")
        need_eq(list(m.matrix.index), list(ref.matrix.index), "matrix rows")
        frames_equal(m.matrix.reset_index(drop=True), ref.matrix.reset_index(drop=True), "matrix", rtol=1e-12)
        lab |= {"nontrivial", "matrix"}
    inter = made - set(mats)
    n = sum(e["done"] for rows in exp for e in rows)
    need_eq(len(inter) if ref is not None else None, (n if c["keep"] else 0) if ref is not None else None, "featurizers saved")
    if not c["status"]:
        return lab
    s = report(os.path.join(base, "status.json"), "featurize", c)
    need_eq(s["feature_matrix"]["created"], ref is not None, "matrix reported as created")
    need_eq(s["feature_matrix"]["output"], mats[0] if ref is not None else None, "matrix file reported")
    need((s["feature_matrix"]["traceback"] is None) == (ref is not None), "traceback of the matrix")
    need_eq(list(s["files"]), files, "files in the report")
    outs = []
    for p, rows in zip(files, exp):
        g = s["files"][p]
        need_eq(g["processed_md5_chksum"], md5(p), "hash of " + p)
        if not rows[0].get("loaded"):
            need(not any(x["featurized"] or x["valid"] for x in g["featurizers"]), "a file that cannot be read is reported as featurized")
            need(g.get("traceback") or any(x["traceback"] for x in g["featurizers"]), "the report does not tell why {} failed", p)
            lab |= {"unreadable"}
            if n:
                lab.add("good_beside_bad")
            continue
        need_eq([x["featurizer_name"] for x in g["featurizers"]], [cls.__name__ for cls, _ in todo], "featurizers reported")
        for x, e, (cls, h) in zip(g["featurizers"], rows, todo):
            w = f"{cls.__name__} of {os.path.basename(p)}"
            need(same_value(x["hyperparameters"], json.loads(json.dumps(h, default=str))), "hyperparameters of {}: {}, expected {}", w, x["hyperparameters"], h)
            need_eq((x["valid"], x["featurized"]), (e["valid"], e["done"]), "valid and featurized: " + w)
            need((x["traceback"] is None) == e["done"], "traceback of {}: {}", w, x["traceback"])
            if e["done"] and c["keep"]:
                need(x["output"] and os.path.dirname(x["output"]) == where, "{} saved to {}", w, x["output"])
                need(os.path.exists(x["output"]), "{} is reported as saved to {}", w, x["output"])
                outs.append(x["output"])
                need_eq(x["subop_md5_chksum"], md5(x["output"]), "hash of the file of " + w)
                b = loadfn(x["output"])
                need(type(b) is cls, "{} loads as {}", w, type(b).__name__)
                frames_equal(b.features, e["bf"].features, w, rtol=1e-12)
                lab.add("saved")
            else:
                need_eq((x["output"], x["subop_md5_chksum"]), (None, None), "file reported for " + w)
            lab.add("featurized" if e["done"] else "featurizer_failed")
    need_eq(len(set(outs)), len(outs), "files of different results")
    return lab


# ------------------------------------------------------------------ protocol

@st.composite
def pcase(draw):
    c = {k: draw(v) for k, v in COMMON.items()}
    c.update(g=draw(c24.case()), out=draw(st.sampled_from(["dir", "dir", None, "dir", "dir", "missing", None, None])), wreck=draw(st.integers(0, 4)) == 0)
    return c


def write_csv(path, c, wreck):
    import csv
    project = c["fam"]
    rows = [dict(project_name=project, seq_num=c["seq0"] + k * c["step"], **r) for k, r in enumerate(c["rows"])]
    if wreck:
        for k in ("cutoff_voltage", "capacity_nominal"):
            if k in rows[-1]:
                rows[-1][k] = "abc"
    cols = ["project_name", "seq_num", "template"] + sorted({k for r in rows for k in r} - {"project_name", "seq_num", "template"})
    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(cols)
        for r in rows:
            w.writerow([r.get(k, "") for k in cols])


def names_free(t):
    return {re.sub(r"_\d{8}_\d{4}\.csv$", "_T.csv", k): v for k, v in t.items()}


def prun(c):
    from beep.protocol.generate_protocol import generate_protocol_files_from_csv
    base = scratch.new()
    cwd, odir, lib = (os.path.join(base, x) for x in ("cwd", "out", "lib"))
    for d in (cwd, lib) + ((odir,) if c["out"] == "dir" else ()):
        os.makedirs(d)
    cf = os.path.join(base, c["g"]["name"])
    if c["out"] != "missing":
        write_csv(cf, c["g"], c["wreck"])
    args = globals_of(c, base) + ["protocol"] + (["-d" if c["short"] else "--output-dir", odir] if c["out"] == "dir" else []) + [cf]
    r = invoke(args, cwd)
    dst = odir if c["out"] == "dir" else cwd
    if c["out"] == "missing":
        need(r.exit_code != 0, "a missing table ends with exit code 0")
        need_eq(tree(cwd), {}, "files written")
        return {"refused"}
    try:
        got, fail, result, message = generate_protocol_files_from_csv(cf, output_directory=lib)
        why = None
    except Exception as e:
        got, fail, result, why = None, [], "error", type(e).__name__
    a, b = names_free(tree(dst)), names_free(tree(lib))
    need_eq(sorted(a), sorted(b), "files generated")
    for k in b:
        need(a[k] == b[k], "{} differs from what the library generates", k)
    lab = {c["g"]["fam"]}
    bad = result == "error"
    if c["halt"] and bad:
        need(r.exit_code != 0, "exit code 0 although a protocol failed and --halt-on-error was given")
        return lab | {"halted"}
    need_eq((r.exit_code, r.exception), (0, None), "exit code and exception")
    if c["status"]:
        s = report(os.path.join(base, "status.json"), "protocol", c)
        need_eq((s["files"]["csv"], s["files"]["csv_md5_chksum"]), (cf, md5(cf)), "table named in the report")
        need((s["traceback"] is None) == (not bad), "traceback {}", s["traceback"])
        done = sorted(k for k, v in s["protocol"].items() if v["generated"])
        need_eq(done, sorted(os.path.join(dst, os.path.relpath(x, lib)) for x in (got or [])), "protocols reported as generated")
        need(all(os.path.exists(x) for x in done), "a reported protocol does not exist")
    if got:
        lab.add("nontrivial")
        if fail:
            lab.add("good_beside_bad")
    if why:
        lab.add("wrecked")
    return lab


# ------------------------------------------------------------------ inspect

@st.composite
def icase(draw):
    return dict(d=draw(diag.case(nwmin=2, nwmax=2, resmin=12, resmax=12)), k=draw(st.sampled_from(["structured", "raw", "maccor", "featurizer", "matrix", "model", "junk", "junkraw"])),
                raw=draw(runs.run(2, 3, nmax=4)), mac=draw(c09.case()), gz=draw(st.booleans()), seed=draw(st.integers(0, 99)))


def irun(c):
    import numpy as np
    from monty.serialization import dumpfn
    from beep.features import core
    base = scratch.new()
    gz = ".gz" if c["gz"] else ""
    p, head, shows = os.path.join(base, "x_structured.json" + gz), None, []
    if c["k"] in ("structured", "featurizer"):
        dp, _, _ = diag.build(dict(c["d"], allsum=True), base)
        dp.paths = {"raw": os.path.join(base, "raw.csv")}
        if c["k"] == "structured":
            dp.to_json_file(p, omit_raw=c["gz"])
            head, shows = "BEEP Datapath", [dp.metadata.protocol, "structured_summary"]
        else:
            regs = diag.layout(c["d"])[1]
            f = core.CycleSummaryStats(dp, dict(hyper("CycleSummaryStats", 2, "", regs)))
            f.create_features()
            dumpfn(f, p)
            head, shows = "BEEP Featurizer", ["cycle_comp_num"]
    elif c["k"] == "raw":
        p = os.path.join(base, "2017-05-09_test_CH3.csv")
        write_arbin(p, runs.expand(c["raw"]), False)
        head, shows = "BEEP Datapath", ["raw_data", "schema-arbin-lfp.yaml"]
    elif c["k"] == "maccor":
        rows, _ = c09.table(c["mac"])
        p = c09.write(dict(c["mac"], name="PreDiag_000203_00021F", ext="010"), rows, base)
        head, shows = "BEEP Datapath", ["raw_data", c["mac"]["bar"]]
    elif c["k"] in ("matrix", "model"):
        from props.c19 import FEATS as F, TARGS, matrix
        rng = np.random.RandomState(c["seed"])
        fs = [f"/d/s{k}.json" for k in range(6)]
        FM = matrix([(f, a, cls, 0, rng.randint(99) / 8) for f in fs for a, cls in F[:3]])
        if c["k"] == "matrix":
            dumpfn(FM, p)
            head, shows = "BEEP Feature Matrix", ["CycleSummaryStats", "6 entries"]
        else:
            from beep.model import BEEPLinearModelExperiment as E
            TM = matrix([(f, a, cls, 0, rng.randint(99) / 8) for f in fs for a, cls in TARGS])
            e = E(feature_matrix=FM, target_matrix=TM, targets=["g::HPPCResistanceVoltageFeatures"], model_name="ridge", alphas=[0.5, 1.0], kfold=2)
            e.train()
            e.to_json_file(p)
            head, shows = "BEEP Linear Model Experiment", ["g::HPPCResistanceVoltageFeatures", "ridge", "0.75"]
    elif c["k"] == "junk":
        p = os.path.join(base, "junk.json")
        open(p, "w").write("[1, 2, 3]")
    else:
        p = os.path.join(base, "junk.dat")
        open(p, "w").write("hello")
    before = tree(base)
    cwd = os.path.join(base, "cwd")
    os.makedirs(cwd)
    r = invoke(["inspect", p], cwd)
    need_eq(tree(base), before, "files after inspecting")
    if head is None:
        need(r.exit_code != 0, "a file that is no BEEP object was inspected with exit code 0")
        return {"refused"}
    need_eq((r.exit_code, r.exception), (0, None), "exit code and exception of inspect")
    need(head in r.output, "a {} is shown without the title {}", c["k"], head)
    for x in [p] + shows:
        need(str(x) in r.output, "{} does not appear for a {}", x, c["k"])
    return {"nontrivial", c["k"]}


# ------------------------------------------------------------------ interrupted

@st.composite
def kcase(draw):
    n = draw(st.integers(1, 3))
    return dict(what=draw(st.sampled_from(["structure", "structure", "featurize"])), runs=[draw(runs.run(2, 2, nmax=3)) for _ in range(n)],
                at=draw(st.integers(0, n - 1)), halt=draw(st.booleans()))


def krun(c):
    from beep.structure.arbin import ArbinDatapath
    from beep.features.core import TrajectoryFastCharge as T
    base = scratch.new()
    cwd = os.path.join(base, "cwd")
    os.makedirs(cwd)
    files = []
    for i, r in enumerate(c["runs"]):
        p = os.path.join(base, "2017-05-09_test_CH%d.%s" % (i, "csv" if c["what"] == "structure" else "json"))
        df = runs.expand(r)
        if c["what"] == "structure":
            write_arbin(p, df, False)
        else:
            dp = runs.datapath(df, cls=ArbinDatapath, metadata={"barcode": "b"}, paths={"raw": os.path.join(base, "x.csv")})
            dp.structure(resolution=3, charge_axis="test_time", discharge_axis="test_time")
            dp.to_json_file(p)
        files.append(p)
    owner, name = (ArbinDatapath, "from_file") if c["what"] == "structure" else (T, "create_features")
    real, n = owner.__dict__[name], [0]

    def interrupted(*a, **k):
        n[0] += 1
        if n[0] == c["at"] + 1:
            raise KeyboardInterrupt()
        return real.__func__(*a, **k) if c["what"] == "structure" else real(*a, **k)
    setattr(owner, name, classmethod(interrupted) if c["what"] == "structure" else interrupted)
    g = ["--halt-on-error"] if c["halt"] else []
    try:
        r = invoke(g + ([c["what"], "-r", 3, "-c", "test_time"] if c["what"] == "structure" else
                        ["featurize", "--save-intermediates", "-f", "TrajectoryFastCharge"]) + files, cwd)
    finally:
        setattr(owner, name, real)
    if n[0] <= c["at"]:
        return {"not_reached"}
    need(r.exit_code != 0, "an interrupted command ends with exit code 0")
    need_eq(n[0], c["at"] + 1, "files started although the command was interrupted at this one")
    need_eq([f for f in os.listdir(cwd) if f.startswith("FeatureMatrix")], [], "matrix of an interrupted command")
    return {"nontrivial", c["what"]}


SUBS = [Sub("structure", scase, srun, 240, 3000, shards=3, shards_thorough=6),
        Sub("featurize", fcase, frun, 220, 3000, shards=3, shards_thorough=6),
        Sub("protocol", pcase, prun, 90, 1000, shards=2, shards_thorough=4),
        Sub("inspect", icase, irun, 70, 800, shards=1, shards_thorough=2),
        Sub("interrupt", kcase, krun, 50, 400, shards=1, shards_thorough=2)]
