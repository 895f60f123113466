"""Every regular step is structured exactly once, in the direction its charge moved."""
from hypothesis import strategies as st

from vlib import runs
from vlib.core import Sub, need_eq, need

PROPERTY = "C02"
RULE = ("a synthetic run whose steps may carry a slow creep or one spurious jump of the opposite capacity counter, "
        "structured with either default for indeterminate steps; non-trivial when a disturbed step or a rest "
        "step was classified next to a normal charge or discharge step")
ASSUMPTIONS = ["a step whose charge moved in a single sample of >= 3 is not generated: it cannot be told from a spurious jump",
               "a step is identified by (cycle_index, step_index)"]


@st.composite
def case(draw):
    r = draw(runs.run(1, 4, nmax=7))
    mods = []
    for ci, c in enumerate(r["cycles"]):
        for si, s in enumerate(c["steps"]):
            n = len(s["dv"]) + 1
            if n == 3 and s["k"] != "rest":
                # two increments of comparable size: neither dwarfs the other
                s["dq"] = [max(x, 5) for x in s["dq"]]
            kind = draw(st.sampled_from(["none", "none", "jump", "creep"]))
            if kind == "none" or s["k"] == "rest" or n < 3:
                continue
            mods.append(dict(c=ci, s=si, kind=kind, at=draw(st.integers(1, n - 1)),
                             size=draw(st.integers(1, 50)), frac=draw(st.integers(0, 95))))
    return dict(run=r, mods=mods, default=draw(st.booleans()),
                diag=draw(st.booleans()),
                ca=draw(st.sampled_from(["charge_capacity", "test_time"])),
                da=draw(st.sampled_from(["voltage", "test_time"])))


def disturb(df, c):
    for m in c["mods"]:
        cyc = c["run"]["cycles"][m["c"]]
        s = cyc["steps"][m["s"]]
        opp = "discharge_capacity" if s["k"] in ("chg", "cv") else "charge_capacity"
        own = "charge_capacity" if opp == "discharge_capacity" else "discharge_capacity"
        rows = df.index[(df.cycle_index == cyc["ix"]) & (df.step_index == s["si"])]
        rest = df.index[(df.cycle_index == cyc["ix"]) & (df.index > rows[-1])]
        if m["kind"] == "jump":
            df.loc[rows[m["at"]:], opp] += float(m["size"])
            df.loc[rest, opp] += float(m["size"])
        else:
            base = df.loc[rows, own] - df.loc[rows[0], own]
            add = base * (m["frac"] / 100.0)
            df.loc[rows, opp] += add
            df.loc[rest, opp] += add.iloc[-1]


def run(c):
    df = runs.expand(c["run"])
    disturb(df, c)
    dp = runs.datapath(df)
    dp.indeterminate_step_default_charge = c["default"]
    diag_ix = []
    if c["diag"] and len(c["run"]["cycles"]) > 2:
        from beep.structure.diagnostic import DiagnosticConfig
        diag_ix = [c["run"]["cycles"][0]["ix"]]
        dp.diagnostic = DiagnosticConfig({"reset": diag_ix})
    dp.structure(resolution=5, diagnostic_resolution=5, charge_axis=c["ca"], discharge_axis=c["da"])
    out = dp.structured_data
    expected = {}
    dis = {(m["c"], m["s"]) for m in c["mods"]}
    labels = set()
    special = normal = False
    for ci, cyc in enumerate(c["run"]["cycles"]):
        if cyc["ix"] in diag_ix:
            labels.add("diagnostic_excluded")
            continue
        for si, s in enumerate(cyc["steps"]):
            k = s["k"]
            d = {"chg": "charge", "cv": "charge", "dchg": "discharge",
                 "rest": "charge" if c["default"] else "discharge"}[k]
            expected[(cyc["ix"], s["si"])] = d
            if (ci, si) in dis:
                labels.add("disturbed")
                special = True
            elif k == "rest":
                special = True
            else:
                normal = True
            if len(s["dv"]) == 1:
                labels.add("two_samples_" + k)
    got = {}
    for (cy, si, d), g in out.groupby(["cycle_index", "step_index", "step_type"], observed=True):
        need((int(cy), int(si)) not in got, f"step {int(si)} of cycle {int(cy)} structured in both directions")
        got[(int(cy), int(si))] = str(d)
    need_eq(got, expected, "direction of each (cycle, step)")
    if special and normal:
        labels.add("nontrivial")
    if not c["default"]:
        labels.add("default_discharge")
    return labels


SUBS = [Sub("direction", case, run, quick=900, thorough=12000, shards=6, shards_thorough=8)]
