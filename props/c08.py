"""Validation accepts a table exactly when every schema rule holds."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import runs, scratch
from vlib.core import Sub, frames_equal, need, need_eq

PROPERTY = "C08"
RULE = ("(a) drawn schemas and tables with values on, just inside and just outside every limit; (b) the shipped "
        "schemas with one or no rule broken in a conforming table; judged against a rule-by-rule reference; "
        "non-trivial when exactly one rule is broken or a value lies exactly on an inclusive limit")
ASSUMPTIONS = ["missing values break only the integer rule", "a minimum exactly equal to a must-reach-below limit is not judged",
               "columns named by the schema are present"]

GRID = [-3.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 2.5, 4.0]


@st.composite
def case(draw):
    schema, table = {}, {}
    n = draw(st.integers(1, 6))
    for i in range(draw(st.integers(1, 4))):
        col = "abcd"[i] + draw(st.sampled_from(["", "_x", " y"]))
        rules = {}
        ty = draw(st.sampled_from([None, "integer", "float", "numeric", "string"]))
        data = draw(st.sampled_from(["int", "float", "float"])) if ty != "string" else draw(st.sampled_from(["str", "str", "float"]))
        if ty:
            rules["type"] = ty
        if data == "str":
            vals = draw(st.lists(st.sampled_from(["a", "R", ""]), min_size=n, max_size=n))
        else:
            pool = [-3, -1, 0, 1, 2, 4] if data == "int" or (ty == "integer" and draw(st.booleans())) else GRID
            vals = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n))
            if data == "float":
                vals = [float(v) for v in vals]
            for r in draw(st.lists(st.sampled_from(["max", "min", "max_at_least", "min_is_below"]), max_size=3, unique=True)):
                rules[r] = draw(st.sampled_from(GRID))
            if rules.get("min_is_below") == min(vals):
                rules["min_is_below"] += 0.25
            if draw(st.integers(0, 3)) == 0:
                rules["monotonic"] = "increasing"
                if draw(st.booleans()):
                    vals = sorted(vals)
            elif data == "float" and draw(st.integers(0, 3)) == 0:
                vals[draw(st.integers(0, n - 1))] = None
                if all(v is None for v in vals):
                    rules.pop("max_at_least", None)
                    rules.pop("min_is_below", None)
                elif rules.get("min_is_below") == min(v for v in vals if v is not None):
                    rules["min_is_below"] += 0.25
        schema[col] = {"schema": rules, "type": "list"}
        table[col] = dict(data=data, vals=vals)
    return dict(schema=schema, table=table, upper=draw(st.booleans()), extra=draw(st.booleans()),
                via=draw(st.sampled_from(["datapath", "validator"])))


def broken(rules, data, vals):
    out = []
    have = [v for v in vals if v is not None and v == v]
    t = rules.get("type")
    if t == "integer" and any(v is None or v != v or v != round(v) for v in vals):
        out.append("type")
    if t == "float" and data != "float":
        out.append("type")
    if t == "numeric" and data == "str":
        out.append("type")
    if t == "string" and data != "str":
        out.append("type")
    if "max" in rules and any(v > rules["max"] for v in have):
        out.append("max")
    if "min" in rules and any(v < rules["min"] for v in have):
        out.append("min")
    if "max_at_least" in rules and have and max(have) < rules["max_at_least"]:
        out.append("max_at_least")
    if "min_is_below" in rules and have and min(have) > rules["min_is_below"]:
        out.append("min_is_below")
    if rules.get("monotonic") == "increasing" and any(b < a for a, b in zip(have, have[1:])):
        out.append("monotonic")
    return out


def frame(table, upper=False, extra=False):
    d = {}
    for k, v in table.items():
        vals = v["vals"]
        name = k.upper() if upper else k
        if v["data"] == "int":
            d[name] = pd.Series([int(x) for x in vals], dtype="int64")
        elif v["data"] == "float":
            d[name] = pd.Series([np.nan if x is None else x for x in vals], dtype="float64")
        else:
            d[name] = pd.Series(vals, dtype=object)
    df = pd.DataFrame(d)
    if extra:
        df["unlisted"] = -1e9
    return df


def judge(res, bad, what):
    ok, reason = res
    need_eq(bool(ok), not bad, f"{what}: verdict (reason {reason!r}); rules broken: {bad}")
    if bad:
        need(any(col in reason for col, _ in bad), f"{what}: reason {reason!r} names none of the offending columns {bad}")
    else:
        need_eq(reason, "", what + ": reason of an accepted table")


def run(c):
    from monty.serialization import dumpfn
    from beep.structure.validate import SimpleValidator
    p = os.path.join(scratch.new(), "schema.yaml")
    dumpfn(c["schema"], p)
    df = frame(c["table"], c["upper"], c["extra"])
    keep = df.copy()
    bad = [(col, r) for col, s in c["schema"].items()
           for r in broken(s["schema"], c["table"][col]["data"], c["table"][col]["vals"])]
    if c["via"] == "validator":
        res = SimpleValidator(schema_filename=p).validate(df)
        after = df
    else:
        dp = runs.datapath(df, schema=p)
        keep = dp.raw_data.copy()
        res = dp.validate()
        after = dp.raw_data
    judge(res, bad, "drawn schema")
    frames_equal(keep, after, "the validated table")
    lab = {"bad_" + r for _, r in bad}
    edge = any(s["schema"].get(k) in [v for v in c["table"][col]["vals"]]
               for col, s in c["schema"].items() for k in ("max", "min", "max_at_least") if k in s["schema"])
    if len(bad) == 1 or (not bad and edge):
        lab.add("nontrivial")
    return lab


SHIPPED = ["schema-arbin-18650-2170.yaml", "schema-arbin-lfp.yaml", "schema-arbin-nmc-phev.yaml",
           "schema-maccor-2170.yaml", "schema-maccor-lfp.yaml", "schema-novonix.yaml", None]


@st.composite
def shipped_case(draw):
    return dict(schema=draw(st.sampled_from(SHIPPED)), n=draw(st.integers(2, 6)),
                frac=draw(st.lists(st.integers(0, 8), min_size=6, max_size=6)),
                col=draw(st.integers(0, 30)), rule=draw(st.sampled_from(["max", "min", "max_at_least", "min_is_below", "monotonic", "type", "none", "none"])),
                at=draw(st.integers(0, 5)), eps=draw(st.sampled_from([1e-6, 0.5, 10.0])))


def run_shipped(c):
    from monty.serialization import loadfn
    from beep import VALIDATION_SCHEMA_DIR
    schema = loadfn(os.path.join(VALIDATION_SCHEMA_DIR, c["schema"] or "schema-arbin-lfp.yaml"))
    n = c["n"]
    table = {}
    for col, s in schema.items():
        r = s["schema"]
        if r.get("type") == "string":
            table[col] = dict(data="str", vals=["R"] * n)
            continue
        lo = r.get("min", r.get("min_is_below", 0) - 1 if "min_is_below" in r else 0)
        hi = r.get("max", max(r.get("max_at_least", lo + 8), lo + 8))
        vals = [lo + (hi - lo) * f / 8 for f in c["frac"][:n]]
        if r.get("type") == "integer":
            vals = [int(round(v)) for v in vals]
        vals[0] = lo if "min_is_below" in r or "min" in r else vals[0]
        vals[-1] = hi
        if r.get("monotonic"):
            vals.sort()
        table[col] = dict(data="int" if r.get("type") == "integer" else "float",
                          vals=vals if r.get("type") == "integer" else [float(v) for v in vals])
    cols = list(schema)
    col = cols[c["col"] % len(cols)]
    r = schema[col]["schema"]
    t = table[col]
    i = c["at"] % n
    broke = None
    step = 1 if t["data"] == "int" else c["eps"]
    if t["data"] != "str":
        if c["rule"] == "max" and "max" in r:
            t["vals"][i] = r["max"] + step
            broke = "max"
        elif c["rule"] == "min" and "min" in r:
            t["vals"][i] = r["min"] - step
            broke = "min"
        elif c["rule"] == "max_at_least" and "max_at_least" in r:
            t["vals"] = [min(v, r["max_at_least"] - step) for v in t["vals"]]
            broke = "max_at_least"
        elif c["rule"] == "min_is_below" and "min_is_below" in r:
            t["vals"] = [max(v, r["min_is_below"] + step) for v in t["vals"]]
            broke = "min_is_below"
        elif c["rule"] == "monotonic" and r.get("monotonic") and n > 1:
            t["vals"] = sorted(t["vals"])[::-1]
            broke = "monotonic"
        elif c["rule"] == "type":
            if r.get("type") == "integer":
                t["vals"][i] += 0.5
                t["data"] = "float"
                t["vals"] = [float(v) for v in t["vals"]]
                broke = "type"
            elif r.get("type") == "float":
                t["data"] = "int"
                t["vals"] = [int(v) for v in t["vals"]]
                broke = "type"
    for cc in cols:
        rr = schema[cc]["schema"]
        if "min_is_below" in rr and table[cc]["data"] != "str" and min(table[cc]["vals"]) == rr["min_is_below"]:
            from vlib.core import Reject
            raise Reject()
    bad = [(cc, x) for cc, s in schema.items() for x in broken(s["schema"], table[cc]["data"], table[cc]["vals"])]
    dp = runs.datapath(frame(table), schema=c["schema"])
    keep = dp.raw_data.copy()
    judge(dp.validate(), bad, f"{c['schema']}")
    frames_equal(keep, dp.raw_data, "the validated table")
    lab = {str(c["schema"])}
    if len(bad) == 1 or not bad:
        lab.add("nontrivial")
    if broke:
        lab.add("shipped_" + broke)
    return lab


SUBS = [Sub("drawn", case, run, quick=1500, thorough=20000, shards=4),
        Sub("shipped", shipped_case, run_shipped, quick=800, thorough=10000, shards=3)]
