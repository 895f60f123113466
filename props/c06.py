"""A structured run survives saving and loading."""
import json
import math
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import runs, scratch
from vlib.core import Sub, frames_equal, need, need_eq, same_value

PROPERTY = "C06"
RULE = ("a synthetic run, structured or not, with or without diagnostic cycles, saved to .json or .json.gz with or "
        "without raw data and loaded by class or automatically, possibly twice; non-trivial when at least two tables "
        "with rows were compared")
ASSUMPTIONS = ["files without raw data keep only barcode, protocol and channel of the metadata (documented)"]

CLASSES = ["arbin.ArbinDatapath", "maccor.MaccorDatapath", "neware.NewareDatapath", "indigo.IndigoDatapath",
           "biologic.BiologicDatapath", "battery_archive.BatteryArchiveDatapath", "novonix.NovonixDatapath"]


@st.composite
def case(draw):
    r = draw(runs.run(2, 4, nmax=5))
    n = len(r["cycles"])
    return dict(run=r, cls=draw(st.sampled_from(CLASSES)),
                diag=draw(st.lists(st.integers(0, n - 1), max_size=n - 1, unique=True)),
                structured=draw(st.integers(0, 5)) < 5,
                gz=draw(st.booleans()), omit=draw(st.booleans()), auto=draw(st.booleans()),
                rel=draw(st.booleans()), again=draw(st.booleans()),
                temp=draw(st.booleans()), ir=draw(st.booleans()),
                vr=draw(st.one_of(st.none(), st.just([2.7, 4.1]))), res=draw(st.integers(2, 12)),
                nan=draw(st.lists(st.integers(0, 50), max_size=3)),
                schema=draw(st.sampled_from([None, "schema-arbin-lfp.yaml", "schema-maccor-2170.yaml"])),
                meta=draw(st.dictionaries(st.sampled_from(["barcode", "protocol", "channel_id", "note", "x y", "ü"]),
                                          st.one_of(st.none(), st.integers(0, 99), st.text("aé \"\\/b", max_size=6)),
                                          max_size=5)))


def get_cls(name):
    import importlib
    m, c = name.split(".")
    return getattr(importlib.import_module("beep.structure." + m), c)


TABLES = ["structured_data", "structured_summary", "diagnostic_data", "diagnostic_summary"]


def snapshot(dp):
    return {t: (None if getattr(dp, t) is None else getattr(dp, t).copy()) for t in TABLES}


def compare(a, b, what):
    n = 0
    for t in TABLES:
        frames_equal(a[t], getattr(b, t), f"{what} {t}")
        if a[t] is not None and len(a[t]):
            n += 1
    return n


def run(c):
    from beep.structure.diagnostic import DiagnosticConfig
    from beep.structure.cli import auto_load_processed
    cls = get_cls(c["cls"])
    df = runs.expand(c["run"], temperature=c["temp"], ir=c["ir"])
    for i in c["nan"]:
        if i < len(df) and c["ir"]:
            df.loc[i, "internal_resistance"] = math.nan
    d = scratch.new()
    rawpath = os.path.join(d, "raw.csv")
    dp = runs.datapath(df, cls=cls, metadata=dict(c["meta"]) or {"barcode": None}, paths={"raw": rawpath, "metadata": None},
                       schema=c["schema"])
    ixs = [cy["ix"] for cy in c["run"]["cycles"]]
    if c["diag"]:
        cfg = {"hppc": [ixs[c["diag"][0]]], "reset": [ixs[i] for i in c["diag"][1:]]}
        dp.diagnostic = DiagnosticConfig(cfg, tag="a", n=3)
    if c["structured"]:
        dp.structure(v_range=c["vr"], resolution=c["res"], diagnostic_resolution=c["res"] + 1,
                     charge_axis="test_time", nominal_capacity=0.2)
    before = snapshot(dp)
    raw = dp.raw_data.copy()
    params = json.loads(json.dumps(dp.structuring_parameters))
    os.chdir(d)
    name = "out.json" + (".gz" if c["gz"] else "")
    path = name if c["rel"] else os.path.join(d, name)
    dp.to_json_file(path, omit_raw=c["omit"])
    compare(before, dp, "the saved object itself:")
    frames_equal(raw, dp.raw_data, "raw data of the saved object")

    def load(p):
        return auto_load_processed(p) if c["auto"] else cls.from_json_file(p)

    back = load(path)
    legacy = c["omit"]

    def check(back, what):
        need(type(back) is cls, f"{what}: loaded as {type(back).__name__}")
        need_eq(back.is_structured, dp.is_structured, what + " structured state")
        n = compare(before, back, what)
        for k in ("barcode", "protocol", "channel_id"):
            need(same_value(getattr(back.metadata, k), getattr(dp.metadata, k)), f"{what} metadata {k}")
        if not legacy:
            need_eq(back.metadata.raw, dp.metadata.raw, what + " metadata")
            frames_equal(raw, back.raw_data, what + " raw data")
        else:
            need(back.raw_data is None, what + " raw data present although omitted")
        need_eq(back.schema, dp.schema, what + " schema")
        need_eq(json.loads(json.dumps(back.structuring_parameters)), params, what + " structuring parameters")
        if c["diag"]:
            need(back.diagnostic is not None, what + " diagnostic configuration lost")
            need_eq(back.diagnostic.type_by_ix, dp.diagnostic.type_by_ix, what + " diagnostic configuration")
            need_eq(back.diagnostic.params, dp.diagnostic.params, what + " diagnostic parameters")
        else:
            need(back.diagnostic is None, what + " diagnostic configuration invented")
        need_eq(back.paths.get("raw"), rawpath, what + " raw path")
        need_eq(os.path.abspath(back.paths["structured"]), os.path.join(d, name), what + " structured path")
        if c["structured"] and len(before["structured_summary"]):
            need_eq(int(back.get_cycle_life(3, 0.9)), int(dp.get_cycle_life(3, 0.9)), what + " cycle life")
            frames_equal(dp.capacities_to_cycles(), back.capacities_to_cycles(), what + " cycles to capacities")
        return n

    n = check(back, "reloaded:")
    labels = {c["cls"].split(".")[0]}
    if c["again"] and not legacy:
        p2 = os.path.join(d, "two.json")
        back.to_json_file(p2, omit_raw=False)
        third = load(p2)
        name = "two.json"
        check(third, "saved twice:")
        labels.add("twice")
        if c["structured"]:
            third.structure(v_range=c["vr"], resolution=c["res"], diagnostic_resolution=c["res"] + 1,
                            charge_axis="test_time", nominal_capacity=0.2)
            compare(before, third, "re-structured after loading:")
    if not c["structured"]:
        labels.add("unstructured")
    if n >= 2:
        labels.add("nontrivial")
    return labels


SUBS = [Sub("file", case, run, quick=500, thorough=6000, shards=6, shards_thorough=8)]
