"""The cycle index recomputed from BioLogic data with the written rules counts the cycle advances of the Maccor procedure."""
import os

from hypothesis import strategies as st

from vlib import scratch
from vlib.core import Sub, Violation, Reject, need, need_eq
from props.c28 import procedure, convert, partition, drop_loopless, hopeless_cycles

PROPERTY = "C29"
RULE = ("cycles: procedures of straight steps, loops and loops in loops with drawn cycle advances at every place, converted; the run of the procedure is "
        "simulated, the data files its techniques would write are generated with 1 to 3 rows per sequence, and the cycle column added from the rules is compared "
        "row by row. Non-trivial when the procedure advances the cycle at least once or is refused")
ORACLE = "a simulation of the Maccor procedure that counts cycle advances as they happen"
ASSUMPTIONS = ["every end condition goes to the next step", "every sequence that measures writes at least one row; loops write none",
               "the Loop column counts the repeats of a looped technique"]


@st.composite
def case(draw):
    steps = draw(procedure(simple=True, advances=True))
    for s in steps:
        if "ends" in s:
            s.update(ends=s["ends"][:1] if s["kind"] not in ("cccv", "cv") else [], reports=s["reports"][:1])
    return dict(steps=steps, rows=draw(st.lists(st.integers(1, 3), min_size=1, max_size=6)), first_loop=draw(st.integers(0, 1)))


def simulate(steps, c):
    """-> per technique: rows of (Ns, Loop, cycle)"""
    cycle, count, r = 1, 0, 0
    out = []
    for a, b, loops in partition(steps):
        ns, m = {}, 0
        for k in range(a, b):
            w = 0 if steps[k]["kind"] in ("do", "adv") else 2 if steps[k]["kind"] in ("cccv", "cv") else 1
            ns[k] = (m, w)
            m += w
        rows = []
        for turn in range(loops or 1):
            at, stack = a, []
            while at < b:
                s = steps[at]
                if s["kind"] == "adv":
                    cycle += 1
                elif s["kind"] == "do":
                    stack.append([at, 0])
                elif s["kind"] == "loop":
                    stack[-1][1] += 1
                    if stack[-1][1] < int(s["n"]):
                        at = stack[-1][0]
                    else:
                        stack.pop()
                else:
                    q, w = ns[at]
                    for j in range(w):
                        n = c["rows"][r % len(c["rows"])]
                        r += 1
                        rows += [(q + j, turn + c["first_loop"], cycle)] * n
                at += 1
                count += 1
                if count > 3000:
                    raise Reject("long run")
        out.append(rows)
    return out


def cycles_run(c):
    from beep.protocol.maccor_to_biologic_mb import add_cycle_nums_to_csvs
    import pandas as pd
    steps = [dict(s) for s in c["steps"]]
    drop_loopless(steps)
    data = simulate(steps, c)
    cfg = dict(lo=None, hi=None, imax=None, imin=None, mappers=0, picks=[])
    try:
        mps, rules = convert(steps, cfg)
    except Violation:
        raise
    except Exception as e:
        if not hopeless_cycles(steps):
            raise
        return {"nontrivial", "refused", type(e).__name__}
    need_eq(len(rules), len(data), "number of rule files")
    d = scratch.new()
    ins, outs = [], []
    for k, rows in enumerate(data):
        fn = os.path.join(d, f"t{k}.csv")
        with open(fn, "w") as f:
            f.write("Ns;Loop;Ecell/V\n" + "".join(f"{q};{l};{3 + i / 1000}\n" for i, (q, l, _) in enumerate(rows)))
        ins.append(fn)
        outs.append(os.path.join(d, f"o{k}.csv"))
    add_cycle_nums_to_csvs(ins, rules, outs)
    for k, rows in enumerate(data):
        df = pd.read_csv(outs[k], sep=";")
        need_eq(len(df), len(rows), f"technique {k + 1}: rows")
        got = [(int(a), int(b), int(x)) for a, b, x in zip(df["Ns"], df["Loop"], df["cycle_index"])]
        for i, (g, w) in enumerate(zip(got, rows)):
            if g != w:
                raise Violation(f"data file {k + 1}, row {i}: (Ns, Loop, cycle) is {g}, the procedure is at {w} (row before: {rows[i - 1] if i else None}); "
                                f"steps {[s['kind'] + s.get('n', '') for s in steps]}")
        need(all(abs(float(x) - 3 - i / 1000) < 1e-9 for i, x in enumerate(df["Ecell/V"])), "data columns changed")
    top = max(x[2] for rows in data for x in rows)
    return {f"{len(data)} techniques", "looped technique" if any(p[2] for p in partition(steps)) else "flat"} | ({"nontrivial"} if top > 1 else {"no advance"})


SUBS = [Sub("cycles", case, cycles_run, quick=400, thorough=6000, shards=3)]
