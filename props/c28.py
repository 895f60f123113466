"""Maccor procedures become BioLogic settings that do the same: control, limits, records, targets, loops, in the right units; or are refused."""
import copy
import os

from hypothesis import strategies as st

from vlib import scratch
from vlib.core import Sub, Violation, Reject, KnownFinding, need, need_eq
from props.c27 import seconds

PROPERTY = "C28"
RULE = ("convert: procedures of 2 to 20 steps (charge, discharge, rest, cycle advance, loops with and without an outer loop, end) with drawn ends, "
        "targets, records and global limits, converted into a settings file that is read column by column and run beside the procedure under drawn "
        "choices of end conditions; refused: procedures with one thing that has no translation. Non-trivial when a file was compared or a refusal seen")
ORACLE = "an independent translation table with units, an independent reader of settings files, and two small interpreters (Maccor steps, BioLogic techniques)"
ASSUMPTIONS = ["sequence 9999 ends the test", "a technique loop of n may be written as n or n-1 repeats", "values have at most 6 decimals (V), 9 (A), 3 (s)",
               "a loop body entered by a jump past its Do is not followed further"]

VOLT = ["4.2", "3.6", "2.7", "0.5", "3.80", "4", "3.0001", "4.20125", "0.0005"]
AMPS = ["1.000", "0.05", "20", "0.2404", "1.0E-4", "2.5e-7", "0.0000031", "1.23456", "0.240", "1.2345", "12.000001", "2.5005"]
FIELDS = 3


def duration():
    return st.one_of(st.sampled_from(["00:00:01", "00:15:00", "03:12:00", "::.01", "00:00:00.5", "::30", "23:59:59", "24:00:00", "100:00:00", "::1.001", "::8.29",
                                      "3600::", "0.5::", ":1.5:", "1.25:30:", ":90:", "3600::.5", "2800::.001", "00:01:00.57", ":0.25:", "1.5:0.5:30"]),
                     st.tuples(st.integers(0, 200), st.integers(0, 59), st.integers(0, 59)).filter(any).map(lambda t: "%02d:%02d:%02d" % t),
                     st.tuples(st.integers(0, 5), st.integers(0, 59999).filter(bool)).map(lambda t: "%d::%.3f" % (t[0], t[1] / 1000)))


@st.composite
def work_step(draw, simple=False):
    kind = draw(st.sampled_from(["A"] * 4 + ["v", "v", "rest", "rest", "rest", "cccv", "cccv"] + ([] if simple else ["cv"])))
    return dict(kind=kind, side=draw(st.sampled_from(["Charge", "Dischrge"])), a=draw(st.sampled_from(AMPS)), v=draw(st.sampled_from(VOLT)),
                note=draw(st.sampled_from([None, "x"])), nends=draw(st.sampled_from([0, 1, 2, 3] if kind not in ("cccv", "cv") else [0, 0, 0, 0, 0, 1, 2])), single=draw(st.booleans()),
                reports=draw(st.lists(st.one_of(st.tuples(st.just("Voltage"), st.sampled_from(VOLT)), st.tuples(st.just("Current"), st.sampled_from(AMPS)),
                                                st.tuples(st.just("StepTime"), duration())), min_size=1, max_size=3)))


@st.composite
def works(draw, least, most, simple=False):
    out = []
    for _ in range(draw(st.integers(least, most))):
        if draw(st.integers(0, 3)) == 0:
            out.append(dict(kind="adv", note=None))
        out.append(draw(work_step(simple)))
    return out


@st.composite
def loop(draw, k, inner):
    n = draw(st.sampled_from(["1", "2", "3", "7"]))
    return [dict(kind="do", k=k, note=None)] + inner + [dict(kind="loop", k=k, n=n, note=None)]


@st.composite
def procedure(draw, simple=False, advances=False):
    """blocks: straight steps, a loop of counter 1, or a loop of counter 1 with loops of counter 2 inside"""
    adv = st.lists(st.just(dict(kind="adv", note=None)), max_size=2 if advances else 0)
    least = 2 if advances and draw(st.integers(0, 4)) else 1
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        what = draw(st.sampled_from(["straight", "loop", "nested"]))
        if steps and steps[-1]["kind"] == "loop" and what == "nested":
            steps += draw(works(1, 1, simple))
        steps += draw(adv)
        if what == "straight":
            steps += draw(works(1, 3, simple))
        elif what == "loop":
            steps += draw(loop(1, draw(adv) + draw(works(least, 3, simple)) + draw(adv)))
        else:
            inner = draw(adv)
            parts = draw(st.lists(st.sampled_from(["works", "loop"]), min_size=1, max_size=3))
            if "loop" not in parts:
                parts.append("loop")
            for p in parts:
                inner += draw(works(1, 2, simple)) if p == "works" else draw(loop(2, draw(adv) + draw(works(least, 2, simple)) + draw(adv)))
                inner += draw(adv)
            steps += draw(loop(1, inner))
    steps += draw(adv)
    if draw(st.booleans()) or not any("nends" in s for s in steps[-1:]):
        steps += draw(works(1, 2, simple))
    steps = [dict(s) for s in steps]
    steps.append(dict(kind="end", note=None))
    n = len(steps)
    mostly = draw(st.integers(0, 9)) > 0
    for k, s in enumerate(steps):
        if s["kind"] == "loop":
            s["to"] = k + 2
        lo = k
        while lo and steps[lo - 1]["kind"] not in ("do", "loop"):
            lo -= 1
        hi = k
        while hi < n - 1 and steps[hi]["kind"] not in ("do", "loop"):
            hi += 1
        if "nends" in s:
            s["ends"] = []
            for _ in range(s.pop("nends")):
                ty = draw(st.sampled_from(["Voltage", "StepTime", "Current"] if s["kind"] != "A" else ["Voltage", "StepTime"]))
                op = "=" if ty == "StepTime" else draw(st.sampled_from(["<=", ">=", "<="]))
                val = draw(duration()) if ty == "StepTime" else draw(st.sampled_from(VOLT if ty == "Voltage" else AMPS))
                s["ends"].append([ty, op, k + 2 if simple else draw(st.sampled_from([k + 2, k + 2, n, draw(st.integers(lo + 1, hi) if mostly else st.integers(1, n))])), val])
    return steps


def maccor(steps):
    out = []
    for k, s in enumerate(steps):
        d = dict(StepType=s["kind"], StepMode=" ", StepValue=None, Limits=None, Ends=None, Reports=None, Range="4", Option1="N", Option2="N", Option3="N", StepNote=s["note"])
        kd = s["kind"]
        if kd in ("A", "cccv"):
            d.update(StepType=s["side"], StepMode="Current ", StepValue=s["a"])
            if kd == "cccv":
                d["Limits"] = dict(Voltage=s["v"])
        elif kd in ("cv", "v"):
            d.update(StepType=s["side"], StepMode="Voltage ", StepValue=s["v"])
            if kd == "cv":
                d["Limits"] = dict(Current=s["a"])
        elif kd == "rest":
            d["StepType"] = "  Rest  "
        elif kd == "adv":
            d["StepType"] = "AdvCycle"
        elif kd == "end":
            d["StepType"] = "  End   "
        elif kd == "do":
            d["StepType"] = f"  Do {s['k']}  "
        elif kd == "loop":
            d["StepType"] = f" Loop {s['k']} "
            d["Ends"] = dict(EndEntry=dict(EndType="Loop Cnt", SpecialType=" ", Oper=" = ", Step="%03d" % s["to"], Value=s["n"]))
        else:
            d.update(copy.deepcopy(s["raw"]))
        if s.get("ends"):
            d["Ends"] = dict(EndEntry=[dict(EndType=ty, SpecialType=" ", Oper=op.center(3), Step="%03d" % min(to, len(steps)), Value=v) for ty, op, to, v in s["ends"]])
        if s.get("reports"):
            d["Reports"] = dict(ReportEntry=[dict(ReportType=ty, Value=v) for ty, v in s["reports"]])
        out.append(d)
    return out


def write_procedure(steps, fn):
    import xmltodict
    doc = {"MaccorTestProcedure": {"header": {"BuildTestVersion": "1"}, "ProcSteps": {"TestStep": maccor(steps)}}}
    with open(fn, "w", encoding="utf-8") as f:
        f.write(xmltodict.unparse(doc, pretty=True))


# ------------------------------------------------------------------ settings files

def read_mps(fn):
    """-> (header lines, [("Modulo Bat", [column dict]) or ("Loop", to, times)])"""
    with open(fn, "rb") as f:
        txt = f.read().decode("latin-1")
    blocks = txt.split("\r\nTechnique : ")
    techs = []
    for k, b in enumerate(blocks[1:]):
        lines = b.split("\r\n")
        need_eq(lines[0].strip(), str(k + 1), "number of the technique")
        rows = [(l[:20].strip(), [l[i:i + 20].strip() for i in range(20, len(l), 20)]) for l in lines[2:] if l.strip()]
        if lines[1] == "Loop":
            d = dict(rows)
            techs.append(("Loop", int(d["goto Ne"][0]), int(d["nt times"][0])))
        else:
            need_eq(lines[1], "Modulo Bat", f"technique {k + 1}")
            n = len(rows[0][1])
            for key, v in rows:
                need_eq(len(v), n, f"technique {k + 1}: columns of {key}")
            techs.append(("Modulo Bat", [{key: v[j] for key, v in rows} for j in range(n)]))
    return blocks[0].split("\r\n"), techs


UNITS = {"V": 1, "mV": 1e-3, "µV": 1e-6, "A": 1, "mA": 1e-3, "µA": 1e-6, "nA": 1e-9, "pA": 1e-12, "h": 3600, "mn": 60, "s": 1, "ms": 1e-3, "µs": 1e-6, "d": 86400}


def quantity(val, unit, kind, what):
    need(unit in UNITS and (unit[-1:] == kind or kind == "s" and unit in ("h", "mn", "s", "ms", "µs", "d")), f"{what}: unit {unit!r} for {kind}")
    try:
        return float(val) * UNITS[unit]
    except ValueError:
        raise Violation(f"{what}: {val!r} is not a number")


def same_quantity(val, unit, want, kind, what):
    got = quantity(val, unit, kind, what)
    if abs(got - want) > 1e-9 * abs(want) + {"V": 2e-9, "A": 2e-13, "s": 1e-7}[kind]:
        raise Violation(f"{what}: {val} {unit}, expected {want!r} {kind}")


@st.composite
def setup(draw):
    lo, hi = draw(st.sampled_from([(None, None), (2.0, 4.5), (0, 4.45), (0.5, 4.2), (2.71, 3.7), (2.5, 10.0)]))
    return dict(lo=lo, hi=hi, imax=draw(st.sampled_from([None, None, 0.7, 19.0])), imin=draw(st.sampled_from([None, None, 0.06])),
                mappers=draw(st.integers(0, 3)), picks=draw(st.lists(st.integers(0, 7), max_size=30)))


@st.composite
def case(draw):
    return dict(steps=draw(procedure()), s=draw(setup()))


def converter(s):
    from beep.protocol.maccor_to_biologic_mb import MaccorToBiologicMb
    c = MaccorToBiologicMb()
    if s["lo"] is not None:
        c.min_voltage_v, c.max_voltage_v = s["lo"], s["hi"]
    c.max_current_a, c.min_current_a = s["imax"], s["imin"]

    def setter(key, val):
        def f(tech, seq, i):
            seq = copy.deepcopy(seq)
            seq[key] = f"{val} {tech} {i}" if key == "I Range" else val
            return seq
        return f
    if s["mappers"] & 1:
        c.seq_mappers.append(setter("I Range", "A"))
    if s["mappers"] & 2:
        c.seq_mappers.append(setter("Bandwidth", "7"))
    return c


def convert(steps, s, name="out"):
    d = scratch.new()
    fn = os.path.join(d, "p.000")
    write_procedure(steps, fn)
    c = converter(s)
    try:
        mps, rules = c.convert(fn, d, name)
    except Exception:
        need_eq(sorted(os.listdir(d)), ["p.000"], "files left by a refused procedure")
        raise
    need_eq(os.path.normpath(mps), os.path.join(d, name + ".mps"), "path of the settings file")
    need_eq(sorted(os.listdir(d)), sorted(["p.000", os.path.basename(mps)] + [os.path.basename(r) for r in rules]), "files written")
    return mps, rules


def partition(steps):
    """-> [(first index, one past the last, loops or None)] of the steps in each modulo bat technique (bounds of looped ones exclude Do and Loop)"""
    out, k, start = [], 0, 0
    n = len(steps) - 1
    while k < n:
        if steps[k]["kind"] == "do":
            depth, j = 0, k
            while True:
                depth += {"do": 1, "loop": -1}.get(steps[j]["kind"], 0)
                if depth == 0:
                    break
                j += 1
            if any(s["kind"] == "do" for s in steps[k + 1:j]):
                if start < k:
                    out.append((start, k, None))
                out.append((k + 1, j, int(steps[j]["n"])))
                start = j + 1
            k = j + 1
        else:
            k += 1
    if start < n:
        out.append((start, n, None))
    return out


def kept_ends(s, n, cfg):
    lo, hi = (0, 4.45) if cfg["lo"] is None else (cfg["lo"], cfg["hi"])
    out = []
    for j, (ty, op, to, v) in enumerate(s["ends"]):
        if ty == "Voltage" and (op == ">=" and float(v) >= hi or op == "<=" and float(v) <= lo):
            continue
        if ty == "Current" and (op == ">=" and cfg["imax"] is not None and float(v) > cfg["imax"] or op == "<=" and cfg["imin"] is not None and float(v) < cfg["imin"]):
            continue
        out.append((j, ty, op, min(to, n), v))
    return out


def limits_of(col, what):
    n = int(col["lim_nb"])
    return [{k: col[f"lim{j}_{k}"] for k in ("type", "comp", "value", "value_unit", "action", "seq")} for j in range(1, n + 1)]


def go(lim, ns, what):
    """-> target sequence"""
    if lim["action"] == "Next sequence":
        return ns + 1
    need_eq(lim["action"], "Goto sequence", f"{what}: action")
    return int(lim["seq"])


def check_limit(lim, end, ns, want_seqs, what):
    j, ty, op, to, v = end
    what = f"{what}: end {ty} {op} {v} -> {to}"
    need_eq(lim["type"], {"Voltage": "Ecell", "StepTime": "Time", "Current": "|I|"}[ty], f"{what}: type")
    need_eq(lim["comp"], {">=": ">", "<=": "<", "=": ">"}[op], f"{what}: comparison")
    kind = {"Voltage": "V", "StepTime": "s", "Current": "A"}[ty]
    same_quantity(lim["value"], lim["value_unit"], seconds(v) if ty == "StepTime" else float(v), kind, what)
    got = go(lim, ns, what)
    need(got in want_seqs, f"{what}: goes to sequence {got}, expected {sorted(want_seqs)}")


def tidy_targets(steps, lo, hi):
    """targets that must be accepted: next step, end, or within the same piece of a technique between loop boundaries"""
    n = len(steps)
    for k in range(lo, hi):
        for e in steps[k].get("ends") or []:
            t = min(e[2], n) - 1
            if t == k + 1 or t == n - 1:
                continue
            if not lo <= t < hi or any(steps[j]["kind"] in ("do", "loop") for j in range(min(t, k), max(t, k) + 1)):
                return False
    return True


def check_file(steps, s, mps):
    n = len(steps)
    header, techs = read_mps(mps)
    lo, hi = (0, 4.45) if s["lo"] is None else (s["lo"], s["hi"])
    parts = partition(steps)
    need_eq([t[0] for t in techs], [x for p in parts for x in (["Modulo Bat", "Loop"] if p[2] else ["Modulo Bat"])], "techniques")
    need(f"Number of linked techniques : {len(techs)}" in header, "number of linked techniques in the header")
    lims = {k.strip(): v for k, v in (l.split(" = ") for l in header if "Ecell m" in l)}
    need_eq((float(lims["Ecell min"].split()[0]), float(lims["Ecell max"].split()[0])), (float(lo), float(hi)), "safety limits in the header")
    known = set()
    number = 0
    where = {}
    program = []
    for a, b, loops in parts:
        number += 1
        cols = techs[number - 1][1]
        # sequences of each step
        seqs, m = {}, 0
        for k in range(a, b):
            kd = steps[k]["kind"]
            w = 0 if kd in ("do", "adv") else 2 if kd in ("cccv", "cv") else 1
            seqs[k] = (m, w)
            m += w
        seqs[b] = (m, 0)
        need_eq(len(cols), m, f"technique {number}: sequences")
        if loops:
            t = techs[number]
            need_eq(t[1], number, f"technique {number + 1}: goes back to")
            need(t[2] in (loops, loops - 1), f"technique {number + 1}: {t[2]} times, the loop counts to {loops}")
        open_do = None
        for k in range(a, b):
            st_, (q, w) = steps[k], seqs[k]
            kd, what = st_["kind"], f"step {k + 1} ({st_['kind']})"
            if kd == "do":
                open_do = k
            for j in range(w):
                c = cols[q + j]
                need_eq(c["Ns"], str(q + j), f"{what}: Ns")
                need_eq((float(c["E range min (V)"]), float(c["E range max (V)"])), (float(lo), float(hi)), f"{what}: voltage range")
                if s["mappers"] & 1:
                    need_eq(c["I Range"], f"A {number} {q + j}", f"{what}: I Range set by the first mapping")
                if s["mappers"] & 2:
                    need_eq(c["Bandwidth"], "7", f"{what}: Bandwidth set by the last mapping")
            if kd == "loop":
                c = cols[q]
                need_eq(c["ctrl_type"], "Loop", what)
                need_eq(int(c["ctrl_repeat"]), int(st_["n"]) - 1, f"{what}: repeats")
                need_eq(int(c["ctrl_seq"]), seqs[open_do][0], f"{what}: goes back to sequence")
                continue
            if not w:
                continue
            ends = kept_ends(st_, n, s)

            def targets(to):
                out = set()
                if to - 1 == k + 1:
                    out.add(q + w)
                if to == n:
                    out.add(9999)
                if to - 1 in seqs and to != n:
                    out.add(seqs[to - 1][0])
                return out
            for j in range(w):
                c = cols[q + j]
                lim = limits_of(c, what)
                need_eq(int(c["rec_nb"]), len(st_["reports"]), f"{what}: number of records")
                for i, (ty, v) in enumerate(st_["reports"], 1):
                    kind = {"Voltage": "V", "StepTime": "s", "Current": "A"}[ty]
                    need_eq(c[f"rec{i}_type"], {"Voltage": "Ecell", "StepTime": "Time", "Current": "I"}[ty], f"{what}: record {i}")
                    same_quantity(c[f"rec{i}_value"], c[f"rec{i}_value_unit"], seconds(v) if ty == "StepTime" else float(v), kind, f"{what}: record {i}")
                if kd == "rest":
                    need_eq(c["ctrl_type"], "Rest", what)
                else:
                    need_eq(c["charge/discharge"], "Charge" if st_["side"] == "Charge" else "Discharge", what)
                    cc = kd == "A" or kd == "cccv" and j == 0 or kd == "cv" and j == 0
                    if kd == "cv" and (cols[q]["ctrl_type"], cols[q + 1]["ctrl_type"]) == ("CV", "CC"):
                        known.add("C28-voltage-step-with-current-limit")
                        cc = j == 1
                    need_eq(c["ctrl_type"], "CC" if cc else "CV", f"{what} part {j + 1}")
                    same_quantity(c["ctrl1_val"], c["ctrl1_val_unit"], float(st_["a"] if cc else st_["v"]), "A" if cc else "V", f"{what} part {j + 1}: value")
                if w == 2 and j == 0:
                    # the switch to the second part
                    if kd == "cccv":
                        sw = lim[-1] if lim else {}
                        need(lim and (sw["type"], sw["comp"]) == ("Ecell", ">" if st_["side"] == "Charge" else "<") and go(sw, q, what) == q + 1,
                             f"{what}: the constant current ends with {sw}")
                        same_quantity(sw["value"], sw["value_unit"], float(st_["v"]), "V", f"{what}: switch to constant voltage")
                    rest = lim[:-1]
                    if not rest and ends:
                        known.add("C28-ends-of-first-part")
                    elif kd == "cccv":
                        mine = [e for e in ends if e[1] != "Voltage"] if len(rest) != len(ends) else ends
                        need_eq(len(rest), len(mine), f"{what}: limits of the constant current part")
                        for l, e in zip(rest, mine):
                            check_limit(l, e, q, targets(e[3]), f"{what} part 1")
                else:
                    need_eq(len(lim), len(ends), f"{what}: number of limits")
                    for l, e in zip(lim, ends):
                        check_limit(l, e, q + j, targets(e[3]), what)
        program.append((a, b, cols, loops))
        number += 1 if loops else 0
        where.update({k: (len(program) - 1, seqs[k][0], seqs[k][1]) for k in range(a, b)})
    return program, where, known


# ------------------------------------------------------------------ running both programs

def run_maccor(steps, s, picks, cap):
    """steps that measure, one by one"""
    n, at, trace, count, active, p, guard = len(steps), 0, [], {}, set(), 0, 0
    matching, stack = {}, []
    for k, x in enumerate(steps):
        if x["kind"] == "do":
            stack.append(k)
        elif x["kind"] == "loop":
            matching[k] = stack.pop()
    while len(trace) < cap and guard < 20 * cap:
        guard += 1
        x = steps[at]
        active = {a for b, a in matching.items() if a in active and a < at <= b}
        if any(a < at <= b and a not in active for b, a in matching.items()):
            return trace, False
        if x["kind"] == "end":
            return trace, True
        if x["kind"] == "do":
            active.add(at)
            count[at] = 0
            at += 1
        elif x["kind"] == "loop":
            a = matching[at]
            count[a] += 1
            at = a + 1 if count[a] < int(x["n"]) else at + 1
        elif x["kind"] == "adv":
            at += 1
        else:
            trace.append(at)
            ends = kept_ends(x, n, s)
            if not ends:
                at += 1
                continue
            at = ends[(picks[p % len(picks)] if picks else 0) % len(ends)][3] - 1
            p += 1
    return trace, False


def run_mps(program, where, steps, s, picks, cap):
    back = {(t, q): k for k, (t, q, w) in where.items() if w}
    t, q, trace, p, left, tleft, guard = 0, 0, [], 0, {}, {}, 0
    while len(trace) < cap and guard < 20 * cap + 100:
        guard += 1
        if t >= len(program):
            return trace, True
        a, b, cols, loops = program[t]
        if q == 9999:
            return trace, True
        if q >= len(cols):
            # end of the technique
            q = 0
            if loops:
                tleft[t] = tleft.get(t, loops) - 1
                left = {}
                if tleft[t] > 0:
                    continue
                tleft.pop(t)
            t += 1
            continue
        c = cols[q]
        if c["ctrl_type"] == "Loop":
            left[q] = left.get(q, int(c["ctrl_repeat"])) - 1
            if left[q] >= 0:
                q = int(c["ctrl_seq"])
            else:
                left.pop(q)
                q += 1
            continue
        k = back[t, q]
        trace.append(k)
        if where[k][2] == 2:
            q += 1
            c = cols[q]
        ends = kept_ends(steps[k], len(steps), s)
        if not ends:
            q += 1
            continue
        j = (picks[p % len(picks)] if picks else 0) % len(ends)
        p += 1
        q = go(limits_of(c, "")[j], q, f"step {k + 1}")
    return trace, False


def same_run(steps, s, program, where, cap=300):
    want, done = run_maccor(steps, s, s["picks"], cap)
    got, ended = run_mps(program, where, steps, s, s["picks"], len(want) + 1 if done else len(want))
    for k, w in enumerate(want):
        g = got[k] if k < len(got) else None
        if g != w:
            raise Violation(f"running both with choices {s['picks']}: after steps {[x + 1 for x in want[max(0, k - 4):k]]} the procedure measures step {w + 1}, "
                            f"the settings {'end' if g is None else g + 1}")
    if done and len(got) > len(want):
        raise Violation(f"running both with choices {s['picks']}: the procedure ends after steps {[x + 1 for x in want[-4:]]}, the settings go on with step {got[len(want)] + 1}")
    return len(want)


def drop_loopless(steps):
    if not any("ends" in x for x in steps):
        raise Reject("no working step")
    for a, b, _ in partition(steps):
        if not any("ends" in x for x in steps[a:b]):
            raise Reject("a technique without a working step")


def convert_run(c):
    steps, s = copy.deepcopy(c["steps"]), c["s"]
    drop_loopless(steps)
    n = len(steps)
    fine = all(tidy_targets(steps, a, b) for a, b, _ in partition(steps)) and all(e[2] != k + 1 or True for k, x in enumerate(steps) for e in x.get("ends") or [])
    try:
        mps, _ = convert(steps, s)
    except Violation:
        raise
    except Exception as e:
        if fine and not hopeless_cycles(steps) and not too_many(steps, s):
            raise
        return {"nontrivial", "refused", type(e).__name__}
    program, where, known = check_file(steps, s, mps)
    m = same_run(steps, s, program, where)
    kinds = {x["kind"] for x in steps}
    for f in sorted(known):
        raise KnownFinding(f, {"C28-ends-of-first-part": "the constant-current part of a step with a voltage limit keeps none of its other end conditions",
                               "C28-voltage-step-with-current-limit": "a voltage step with a current limit starts with the full voltage and turns to constant current"}[f])
    return {"nontrivial", "run of 20 or more" if m >= 20 else "short run", f"{len(program)} techniques"} | kinds | (set() if fine else {"odd targets"})


def too_many(steps, s):
    """a first part that keeps all its ends may need a fourth limit"""
    return any(x["kind"] in ("cccv", "cv") and len(kept_ends(x, len(steps), s)) >= 3 for x in steps)


def hopeless_cycles(steps):
    """loops of one working step that advance the cycle: cycles cannot be told from the data"""
    for k, x in enumerate(steps):
        if x["kind"] == "loop":
            j = k - 1
            while steps[j]["kind"] not in ("do", "loop"):
                j -= 1
            inner = steps[j + 1:k]
            if steps[j]["kind"] == "do" and any(y["kind"] == "adv" for y in inner) and sum("ends" in y for y in inner) < 2:
                return True
    return False


# ------------------------------------------------------------------ refusals

BAD = [("step", dict(StepType="Chg Func", StepMode="Current", StepValue="1.0")), ("step", dict(StepType="FastWave", StepValue="x.mwf")),
       ("step", dict(StepType="Charge", StepMode="Power", StepValue="1.0")), ("step", dict(StepType="Charge", StepMode="Current", StepValue="0.5C")),
       ("step", dict(StepType="Rest", Limits=dict(Voltage="4.2"))), ("step", dict(StepType="Pause")),
       ("end", ("Capacity", ">=", "1.0")), ("end", ("Voltage", "=", "3.0")), ("end", ("StepTime", ">=", "00:10:00")), ("end", ("Current", "<=", "0.05C")),
       ("report", ("Temp", "0.5")), ("report", ("Current", "0.001C")), ("loop", None), ("noend", None), ("records", None), ("norecords", None), ("norecords", None),
       ("back", None), ("back", None), ("back", None)]


@st.composite
def refused_case(draw):
    return dict(steps=draw(procedure(simple=True)), bad=draw(st.integers(0, len(BAD) - 1)), at=draw(st.integers(0, 40)), to=draw(st.integers(0, 40)))


def refused_run(c):
    steps = copy.deepcopy(c["steps"])
    s = dict(lo=None, hi=None, imax=None, imin=None, mappers=0, picks=[])
    drop_loopless(steps)
    what, bad = BAD[c["bad"]]
    work = [k for k, x in enumerate(steps) if "ends" in x]
    k = work[c["at"] % len(work)]
    if what == "step":
        steps[k] = dict(kind="raw", raw=bad, note=steps[k]["note"], reports=steps[k]["reports"])
    elif what == "end":
        steps[k]["ends"] = [[bad[0], bad[1], k + 2, bad[2]]] + steps[k]["ends"][:2]
    elif what == "report":
        steps[k]["reports"] = list(steps[k]["reports"])[:2] + [bad]
    elif what == "records":
        steps[k]["reports"] = [("Voltage", "0.1"), ("Current", "0.1"), ("StepTime", "::1"), ("StepTime", "::2")]
    elif what == "back":
        # to the Do of the loop the step is in, or further back
        inside = []
        for a, b, _ in partition(steps):
            for j in range(a, b):
                if steps[j]["kind"] in ("do", "loop"):
                    last = j if steps[j]["kind"] == "do" else None
                elif j == a:
                    last = None
                if "ends" in steps[j] and last is not None:
                    inside.append((j, last))
        if not inside:
            raise Reject("no loop")
        k, d = inside[c["at"] % len(inside)]
        steps[k]["ends"] = [["StepTime", "=", d + 1 - c["to"] % (d + 1), "00:20:00"]] + steps[k]["ends"][:2]
        if steps[k]["kind"] in ("cccv", "cv"):
            steps[k]["kind"] = "rest"
    elif what == "norecords":
        steps[k]["reports"] = []
    elif what == "noend":
        steps = steps[:-1]
    else:
        loops = [k for k, x in enumerate(steps) if x["kind"] == "loop"]
        if not loops:
            raise Reject("no loop")
        k = loops[c["at"] % len(loops)]
        to = 1 + c["to"] % len(steps)
        if to == k + 2:
            raise Reject("the next step")
        steps[k]["to"] = to
    try:
        convert(steps, s)
    except Violation:
        raise
    except Exception as e:
        return {"nontrivial", what, type(e).__name__}
    raise Violation(f"{what} {bad if bad else ''} at step {k + 1} has no translation and is converted without complaint")


SUBS = [Sub("convert", case, convert_run, quick=600, thorough=4000, shards=3),
        Sub("refused", refused_case, refused_run, quick=150, thorough=1500, shards=1)]
