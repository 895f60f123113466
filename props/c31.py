"""Joining two Maccor files of one run: nothing lost, counters carried on, everything else as recorded."""
import os

from hypothesis import strategies as st

from props import c09
from vlib import scratch
from vlib.core import Sub, need, need_eq, need_close, frames_equal

PROPERTY = "C31"
RULE = ("two generated Maccor exports (steps, states, waveforms and loop counters as for C09) whose counters restart, "
        "carry on or start part way, with optional column order changes in the second; the joined file is read as text "
        "and by the Maccor loader and compared with a joined table written by the check; non-trivial when at least one "
        "counter has to be carried over and another must not be")
ASSUMPTIONS = ["both files hold the columns the joiner renumbers", "both files hold at least two samples"]

COUNTERS = ["Rec#", "Cyc#", "Test (Sec)", "Loop1", "Loop2", "Loop3", "Loop4"]
HEAD = c09.HEAD[:12] + ["Loop1", "Loop2", "Loop3", "Loop4"] + c09.HEAD[12:]


@st.composite
def case(draw):
    a, b = draw(c09.case()), draw(c09.case())
    loops = [[draw(st.lists(st.integers(0, 3), min_size=4, max_size=4)) for _ in range(2)] +
             [draw(st.lists(st.sampled_from([0, 2, 3]), min_size=4, max_size=4))] for _ in range(2)]
    return dict(a=a, b=b, loops=loops, shift={k: draw(st.sampled_from([0, 0, 1, -1])) for k in COUNTERS},
                extra=draw(st.integers(0, 3)), reorder=draw(st.booleans()), crlf=draw(st.booleans()),
                over=draw(st.sampled_from([None, "first", "second"])), dpt=draw(st.booleans()))


def rows_of(c, loops):
    rows, _ = c09.table(c)
    if len(rows) < 2:
        rows = rows + [list(rows[0])]
        rows[1][0] = str(int(rows[1][0]) + 1)
    n = len(rows)
    out = []
    for i, r in enumerate(rows):
        # loop counters grow and, with a wrap, restart inside the file
        lo = [(loops[0][k] + (i * loops[1][k]) // n) for k in range(4)]
        lo = [str(v % w if w else v) for v, w in zip(lo, (loops[2] if len(loops) > 2 else [0] * 4))]
        out.append(dict(zip(HEAD, r[:12] + lo + r[12:])))
    return out


def number(s):
    return float(s) if "." in s else int(s)


def line0(name, bar):
    return (f"Today's Date 12/20/2020  Date of Test:\t12/19/2020\t Filename:\tE:\\Backup\\{name} "
            f"Procedure: {name}.000\tComment/Barcode: {bar}")


def write(path, first, head, rows, nl="\n"):
    with open(path, "w", newline="") as f:
        f.write(nl.join([first, "\t".join(head)] + ["\t".join(r[h] for h in head) for r in rows]) + nl)


def run(c):
    import pandas as pd
    from beep.structure.maccor import MaccorDatapath
    from beep.utils.splice import MaccorSplice
    d = scratch.new()
    one, two = rows_of(c["a"], c["loops"][0]), rows_of(c["b"], c["loops"][1])
    for k, how in c["shift"].items():
        if how == 0:
            continue  # the second file restarts this counter, wherever that leaves it
        last, first = number(one[-1][k]), number(two[0][k])
        move = last - first + (c["extra"] if how > 0 else -1 - c["extra"])
        for r in two:
            v = number(r[k]) + move
            r[k] = "%.4f" % v if k == "Test (Sec)" else str(int(v))
    labels, want, carried, kept = {"restarted"} if any(max(number(r[k]) for r in one) > number(one[-1][k]) for k in COUNTERS[3:]) else set(), [dict(r) for r in one] + [dict(r) for r in two], 0, 0
    for k in COUNTERS:
        last, first = number(one[-1][k]), number(two[0][k])
        if first < last:
            carried += 1
            for r in want[len(one):]:
                v = number(r[k]) + last
                r[k] = "%.4f" % v if k == "Test (Sec)" else str(v)
        else:
            kept += 1
    head2 = HEAD[::-1] if c["reorder"] else HEAD
    names = [os.path.join(d, x) for x in (c["a"]["name"] + ".011", c["a"]["name"] + "con.011",
                                           c["a"]["name"] + "joined.011")]
    nl = "\r\n" if c["crlf"] else "\n"
    write(names[0], line0(c["a"]["name"], "A" + c["a"]["bar"]), HEAD, one, nl)
    write(names[1], line0(c["b"]["name"], "B" + c["b"]["bar"]), head2, two, nl)
    raw = [open(p, "rb").read() for p in names[:2]]
    out = {None: names[2], "first": names[0], "second": names[1]}[c["over"]]
    MaccorSplice(names[0], names[1], out).run_splice()
    for p, b in zip(names[:2], raw):
        if p != out:
            need(open(p, "rb").read() == b, "the joiner changed one of its inputs")
    with open(out) as f:
        lines = f.read().split("\n")
    need_eq(lines[0], line0(c["a"]["name"], "A" + c["a"]["bar"]), "first line of the joined file")
    need_eq(lines[1].split("\t"), HEAD, "columns of the joined file")
    body = [x.split("\t") for x in lines[2:] if x]
    need_eq(len(body), len(want), "samples in the joined file")
    for i, (g, w) in enumerate(zip(body, want)):
        need_eq(len(g), len(HEAD), f"fields of sample {i}")
        for k, v in zip(HEAD, g):
            if w[k] == "N/A":
                need(v in ("", "N/A", "nan"), f"sample {i}: {k} was not recorded but reads {v!r}")
                continue
            try:
                float(w[k])
            except ValueError:
                need_eq(v, w[k], f"sample {i} {k}")
                continue
            need_close(float(v), float(w[k]), f"sample {i} {k}", rtol=1e-12, atol=1e-12)
    ref = os.path.join(d, "ref.011")
    write(ref, line0(c["a"]["name"], "A" + c["a"]["bar"]), HEAD, want)
    x, y = MaccorDatapath.from_file(out), MaccorDatapath.from_file(ref)
    frames_equal(x.raw_data, y.raw_data, "the joined run as loaded", rtol=1e-6, atol=1e-9)
    need_eq(x.metadata.barcode, "A" + c["a"]["bar"], "barcode of the joined run")
    if carried and kept:
        labels.add("nontrivial")
    labels.add("carried_%d" % min(carried, 3))
    for k in ("reorder", "crlf"):
        if c[k]:
            labels.add(k)
    if c["over"]:
        labels.add("over_" + c["over"])
    return labels


SUBS = [Sub("splice", case, run, quick=300, thorough=4000, shards=4, shards_thorough=8)]
