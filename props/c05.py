"""Diagnostic configuration: each cycle has at most one type; matching follows the rules; round trips."""
import json
import os

import pandas as pd
from hypothesis import strategies as st

from vlib import scratch
from vlib.core import Sub, Violation, need, need_eq

PROPERTY = "C05"
RULE = ("(a) drawn type->cycles maps, with and without overlap, built, serialised (dict, JSON text, file) and rebuilt; "
        "(b) drawn step tables classified by drawn contains/exact patterns against a set-based reference; "
        "non-trivial when at least two types hold cycles, or when some cycles match and some do not")
ASSUMPTIONS = []

NAMES = ["hppc", "HPPC_soc", "rpt_0.2C", "RPT 1C", "reset", "Reset2", "custom", "rpt-hppc", "aging check", "Diag"]


@st.composite
def cfg_case(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    pool = draw(st.lists(st.integers(0, 400), min_size=0, max_size=14, unique=True))
    cfg = {n: [] for n in names}
    for x in pool:
        cfg[draw(st.sampled_from(names))].append(x)
    overlap = None
    if pool and len(names) > 1 and draw(st.integers(0, 2)) == 0:
        x = draw(st.sampled_from(pool))
        other = draw(st.sampled_from([n for n in names if x not in cfg[n]]))
        cfg[other].append(x)
        overlap = x
    dup = draw(st.booleans())
    if dup:
        for n in names:
            if cfg[n]:
                cfg[n].append(cfg[n][0])
    params = draw(st.dictionaries(st.sampled_from(["alpha", "beta", "note", "flag"]),
                                  st.one_of(st.integers(-5, 5), st.booleans(), st.text("abc", max_size=3),
                                            st.integers(0, 100).map(lambda x: x / 8)), max_size=3))
    return dict(cfg=cfg, overlap=overlap, params=params, it=draw(st.sampled_from(["list", "tuple", "set"])),
                bad=draw(st.sampled_from(["", "", "list", "dict", "None"])))


def run_cfg(c):
    from beep.structure.diagnostic import DiagnosticConfig
    mk = {"list": list, "tuple": tuple, "set": set}[c["it"]]
    arg = {k: mk(v) for k, v in c["cfg"].items()}
    kw = dict(c["params"])
    if c["bad"]:
        try:
            DiagnosticConfig(arg, wrong={"list": [1], "dict": {"a": 1}, "None": None}[c["bad"]], **kw)
        except (TypeError, ValueError):
            pass
        else:
            raise Violation("a parameter that is not a primitive was accepted")
    if c["overlap"] is not None:
        try:
            DiagnosticConfig(arg, **kw)
        except ValueError:
            return {"overlap", "nontrivial"}
        raise Violation(f"cycle {c['overlap']} accepted under two types: {c['cfg']}")
    d = DiagnosticConfig(arg, **kw)

    def check(d, what):
        want = {k: set(v) for k, v in c["cfg"].items()}
        need_eq({k: set(v) for k, v in d.cycles.items()}, want, what + " cycles by type")
        allix = set().union(*want.values())
        need_eq(set(d.all_ix), allix, what + " all cycles")
        need_eq({int(k): v for k, v in d.type_by_ix.items()}, {i: k for k, v in want.items() for i in v}, what + " type by cycle")
        for tag, got in (("hppc", d.hppc_ix), ("rpt", d.rpt_ix), ("reset", d.reset_ix)):
            need_eq(set(got), {i for k, v in want.items() if tag in k.lower() for i in v}, f"{what} {tag} cycles")
        need_eq(d.params, c["params"], what + " params")

    check(d, "built")
    check(DiagnosticConfig.from_dict(d.as_dict()), "dict round trip")
    check(DiagnosticConfig.from_dict(json.loads(d.to_json())), "JSON round trip")
    from monty.serialization import dumpfn, loadfn
    p = os.path.join(scratch.new(), "d.json")
    dumpfn(d, p)
    back = loadfn(p)
    need(isinstance(back, DiagnosticConfig), f"file reloaded as {type(back)}")
    check(back, "file round trip")
    check(d, "after serialising")
    lab = {"roundtrip"}
    if sum(1 for v in c["cfg"].values() if v) > 1:
        lab.add("nontrivial")
    return lab


@st.composite
def match_case(draw):
    cyc = []
    ix = draw(st.integers(0, 4))
    pats = draw(st.lists(st.lists(st.integers(1, 6), min_size=1, max_size=4), min_size=1, max_size=4))
    for _ in range(draw(st.integers(1, 8))):
        if draw(st.booleans()):
            s = list(draw(st.sampled_from(pats)))
            s += draw(st.lists(st.integers(1, 8), max_size=1))
        else:
            s = draw(st.lists(st.integers(1, 8), min_size=1, max_size=5))
        cyc.append(dict(ix=ix, steps=s))
        ix += draw(st.integers(1, 5))
    crit = {}
    for n in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)):
        crit[n] = [draw(st.sampled_from(["contains", "exact"])),
                   draw(st.lists(st.sampled_from(pats), max_size=3))]
    return dict(cycles=cyc, crit=crit, bad=draw(st.integers(0, 9)) == 0)


def run_match(c):
    from beep.structure.diagnostic import DiagnosticConfig
    rows = [(cy["ix"], s) for cy in c["cycles"] for s in cy["steps"] for _ in range(2)]
    df = pd.DataFrame(rows, columns=["cycle_index", "step_index"])
    keep = df.copy()
    crit = {k: (v[0], [tuple(p) for p in v[1]]) for k, v in c["crit"].items()}
    if c["bad"]:
        k = next(iter(crit))
        try:
            DiagnosticConfig.from_step_numbers(df, {**crit, k: ("matches", crit[k][1])})
        except ValueError:
            pass
        else:
            raise Violation("an unknown matching rule was accepted")
    want = {}
    for k, (rule, pats) in crit.items():
        want[k] = set()
        for cy in c["cycles"]:
            have = set(cy["steps"])
            for p in pats:
                if (rule == "contains" and set(p) <= have) or (rule == "exact" and set(p) == have):
                    want[k].add(cy["ix"])
    n = sum(len(v) for v in want.values())
    clash = n != len(set().union(*want.values()))
    try:
        d = DiagnosticConfig.from_step_numbers(df, crit, alpha=3)
    except ValueError:
        need(clash, f"rejected although no cycle matches two types: {want}")
        return {"clash", "nontrivial"}
    need(not clash, f"accepted although a cycle matches two types: {want}")
    need_eq({k: {int(x) for x in v} for k, v in d.cycles.items()}, want, "cycles matched")
    need_eq(d.params, {"alpha": 3}, "params")
    need(df.equals(keep), "the raw data was modified")
    back = DiagnosticConfig.from_dict(json.loads(d.to_json()))
    need_eq({k: {int(x) for x in v} for k, v in back.cycles.items()}, want, "cycles after a JSON round trip")
    lab = set()
    allm = set().union(*want.values())
    if allm and len(allm) < len(c["cycles"]):
        lab.add("nontrivial")
    return lab | {"rule_" + r for r, _ in crit.values()}


SUBS = [Sub("config", cfg_case, run_cfg, quick=1200, thorough=20000, shards=2),
        Sub("match", match_case, run_match, quick=1200, thorough=20000, shards=3)]
