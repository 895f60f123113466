"""Development helper: systematic small mutations of beep, judged by the quick checks.

mutate.py cover OUT.json [CHECK ...]            which check executes which line of beep
mutate.py run COVER.json OUT.jsonl [--files f,g] [--n N] [--workers W] [--seed S]
Survivors are read by hand: equivalent, outside every property, or a gap in a check.
"""
import ast
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def jobs_of(mod, prop, frac, shrink_s, seed=1):
    jobs = []
    for s in mod.SUBS:
        n = max(1, int(s.quick * frac))
        sh = max(1, s.shards) if frac >= 1 else 1
        for k in range(sh):
            jobs.append(dict(prop=prop, sub=s.name, shard=k, seed=seed, examples=max(1, -(-n // sh)),
                             budget=200, shrink_s=shrink_s))
    return jobs


def cover_one(prop):
    from vlib import runner
    runner.import_beep()
    mod = importlib.import_module("props." + prop.lower())
    seen = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "cov")
    root = os.path.join(runner.REPO, "beep") + os.sep

    def line(code, ln):
        if code.co_filename.startswith(root) and "/tests/" not in code.co_filename:
            seen.add((os.path.relpath(code.co_filename, runner.REPO), ln))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    for j in jobs_of(mod, prop, 0.34, 0):
        runner.run_job(j)
    return sorted(seen)


def judge(props):
    """Run the quick checks on the tree in VERIF_REPO; print the first that fails."""
    from vlib import runner
    import multiprocessing as mp
    try:
        runner.import_beep()
    except Exception as e:
        print("RESULT " + json.dumps(dict(kind="import", msg=str(e)[-200:])))
        return
    err = None
    for prop in props:
        mod = importlib.import_module("props." + prop.lower())
        jobs = jobs_of(mod, prop, 1.0, 0)
        ctx = mp.get_context("fork")
        active, todo = [], list(jobs)
        while todo or active:
            while todo and len(active) < 2:
                j = todo.pop(0)
                q = ctx.SimpleQueue()
                p = ctx.Process(target=runner.worker, args=(j, q))
                p.start()
                active.append((p, q, j))
            for a in list(active):
                p, q, j = a
                r = None
                if not q.empty():
                    r = q.get()
                    p.join()
                elif not p.is_alive():
                    r = q.get() if not q.empty() else dict(error="died")
                if r is None:
                    continue
                active.remove(a)
                if r.get("fail"):
                    for p2, _, _ in active:
                        p2.kill()
                    print("RESULT " + json.dumps(dict(kind="killed", by=prop + "/" + j["sub"], msg=r["fail"]["msg"][-200:])))
                    return
                if r.get("error"):
                    err = prop + "/" + j["sub"] + ": " + r["error"][-300:]
            time.sleep(0.02)
    print("RESULT " + json.dumps(dict(kind="error" if err else "survived", msg=err)))


CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd],
       ast.Mod: [ast.FloorDiv], ast.FloorDiv: [ast.Div]}
SWAP = {"min": "max", "max": "min", "any": "all", "all": "any", "first": "last", "last": "first", "head": "tail", "tail": "head",
        "sum": "mean", "mean": "median", "median": "mean", "left": "right", "right": "left", "inner": "outer", "outer": "inner",
        "ffill": "bfill", "bfill": "ffill", "idxmin": "idxmax", "idxmax": "idxmin", "argmin": "argmax", "argmax": "argmin",
        "append": "extend", "charge": "discharge", "discharge": "charge", "floor": "ceil", "ceil": "floor", "startswith": "endswith",
        "endswith": "startswith", "current": "voltage", "charge_capacity": "discharge_capacity", "discharge_capacity": "charge_capacity",
        "charge_energy": "discharge_energy", "discharge_energy": "charge_energy", "loc": "iloc", "lower": "upper", "keys": "values",
        "cumsum": "cumprod", "nanmin": "nanmax", "nanmax": "nanmin", "std": "var", "var": "std", "abs": "square"}


def text_edits(src):
    """(line, start, end, replacement, note) as character offsets, one per mutant"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln))

    def pos(line, col):
        return off[line - 1] + len(lines[line - 1].encode()[:col].decode())
    out = []

    def rep(node, new, note):
        s, e = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
        out.append((node.lineno, s, e, new, note))
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(n.value)
        if isinstance(n, ast.Raise):
            doc.update(ast.walk(n))
        if isinstance(n, ast.Call) and "logger" in ast.unparse(n.func) or isinstance(n, ast.Call) and ast.unparse(n.func) == "print":
            doc.update(ast.walk(n))
    infunc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name.startswith("plot") or n.name in ("__repr__", "__str__"):
                continue
            for c in ast.walk(n):
                infunc.add(c)
    import copy
    for n in ast.walk(tree):
        if n in doc or n not in infunc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for t in CMP.get(type(n.ops[0]), []):
                m = copy.deepcopy(n)
                m.ops = [t()]
                rep(n, "(" + ast.unparse(m) + ")", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)) \
                and not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
            for t in BIN[type(n.op)]:
                m = copy.deepcopy(n)
                m.op = t()
                rep(n, "(" + ast.unparse(m) + ")", "bin")
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            rep(n, "(" + ast.unparse(m) + ")", "bool")
            rep(n, "(" + ast.unparse(n.values[0]) + ")", "bool-drop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            rep(n, "(" + ast.unparse(n.operand) + ")", "unary")
        elif isinstance(n, (ast.If, ast.IfExp)) and not isinstance(n.test, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            rep(n.test, "(not " + ast.unparse(n.test) + ")", "ifnot")
        elif isinstance(n, ast.Constant) and not isinstance(par.get(n), (ast.JoinedStr, ast.FormattedValue)):
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), "bool-const")
            elif isinstance(v, int):
                rep(n, str(v + 1), "int+1")
                if v > 1:
                    rep(n, str(v - 1), "int-1")
            elif isinstance(v, float):
                rep(n, repr(v * 1.05 if v else 0.01), "float")
            elif isinstance(v, str) and v in SWAP:
                rep(n, repr(SWAP[v]), "str-swap")
        elif isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
            m = copy.deepcopy(n)
            m.attr = SWAP[n.attr]
            rep(n, ast.unparse(m), "attr")
        elif isinstance(n, ast.Name) and n.id in ("min", "max", "any", "all"):
            rep(n, SWAP[n.id], "builtin")
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ("abs", "round", "sorted", "int", "float", "set", "list") and len(n.args) >= 1:
                rep(n, "(" + ast.unparse(n.args[0]) + ")", "drop-call")
            if ast.unparse(n.func) in ("np.abs", "copy.deepcopy", "deepcopy", "copy.copy") and n.args:
                rep(n, "(" + ast.unparse(n.args[0]) + ")", "drop-call")
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "copy", "dropna", "fillna", "sort_values", "sort_index", "reset_index", "strip", "abs", "astype", "round",
                    "drop_duplicates", "lower", "upper", "ffill", "bfill", "interpolate", "rename", "unique"):
                rep(n, "(" + ast.unparse(n.func.value) + ")", "drop-method")
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    m = copy.deepcopy(n)
                    m.keywords = [q for q in m.keywords if q.arg != k.arg]
                    rep(n, ast.unparse(m), "drop-kw " + k.arg)
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(n, ast.AugAssign) or isinstance(t, (ast.Subscript, ast.Attribute)):
                rep(n, "pass", "del-assign")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, "pass", "del-call")
        if isinstance(n, (ast.Continue, ast.Break)):
            rep(n, "pass", "del-jump")
    return out


def main():
    a = sys.argv[1:]
    if a[0] == "_cover":
        print("RESULT " + json.dumps(cover_one(a[1])))
        return
    if a[0] == "_judge":
        judge(a[1].split(","))
        return
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", BEEP_ENV="dev", TQDM_OFF="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")

    def call(args, repo, timeout):
        e = dict(env, VERIF_REPO=repo, PYTHONPATH=os.pathsep.join([repo, HERE, HERE + "/vendor"]))
        import signal
        p = subprocess.Popen([PY, "-W", "ignore", os.path.abspath(__file__)] + args, env=e, cwd=HERE, text=True,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            o, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return dict(kind="timeout", msg="")
        for ln in o.splitlines():
            if ln.startswith("RESULT "):
                return json.loads(ln[7:])
        return dict(kind="crash", msg=o[-300:])
    base = os.environ.get("VERIF_REPO") or "/repo"
    if a[0] == "cover":
        props = a[2:] or sorted(f[:-3].upper() for f in os.listdir(HERE + "/props") if f.startswith("c") and f.endswith(".py"))
        res = {}
        lock = threading.Lock()
        todo = list(props)

        def w():
            while True:
                with lock:
                    if not todo:
                        return
                    p = todo.pop(0)
                r = call(["_cover", p], base, 900)
                with lock:
                    res[p] = r if isinstance(r, list) else []
                    print(p, len(res[p]), flush=True)
        ts = [threading.Thread(target=w) for _ in range(5)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        json.dump(res, open(a[1], "w"))
        return
    cov = json.load(open(a[1]))
    opt = dict(zip(a[3::2], a[4::2]))
    rnd = random.Random(int(opt.get("--seed", "1")))
    by = {}
    for p, ls in cov.items():
        for f, ln in ls:
            by.setdefault(f, {}).setdefault(ln, set()).add(p)
    size = {p: len(v) for p, v in cov.items()}
    sys.path.insert(0, HERE + "/tools")
    import defs
    claims = {}
    for d in defs.D:
        for f in d["files"]:
            claims.setdefault(f, []).append(d["id"])
    muts = []
    files = opt.get("--files", "").split(",") if opt.get("--files") else sorted(by)
    for f in files:
        p = os.path.join(base, f)
        src = open(p, newline="").read()
        cand = [e for e in text_edits(src) if e[0] in by.get(f, {})]
        rng = opt.get("--lines")
        if rng:
            lo, hi = map(int, rng.split("-"))
            cand = [e for e in cand if lo <= e[0] <= hi]
        n = int(opt.get("--n", "40"))
        # spread over lines
        rnd.shuffle(cand)
        seen, first, rest = set(), [], []
        for e in cand:
            (rest if e[0] in seen else first).append(e)
            seen.add(e[0])
        for e in (first + rest)[:n]:
            ps = [q for q in claims.get(f, []) if q in by[f][e[0]]]
            ps += sorted((q for q in by[f][e[0]] if q not in ps), key=lambda q: size[q])
            muts.append((f, e, ps[:int(opt.get("--checks", "4"))]))
    rnd.shuffle(muts)
    done = set()
    if os.path.exists(a[2]):
        for ln in open(a[2]):
            d = json.loads(ln)
            done.add((d["file"], d["line"], d["old"], d["new"]))
    print(len(muts), "mutants", flush=True)
    lock = threading.Lock()

    def work(k):
        wt = f"/tmp/mut/wt{k}"
        shutil.rmtree(wt, ignore_errors=True)
        subprocess.run(["cp", "-a", base, wt], check=True)
        subprocess.run(f"find {wt}/beep -name '*.pyc' -delete", shell=True)
        while True:
            with lock:
                if not muts:
                    break
                f, (ln, s, e, new, note), ps = muts.pop()
            p = os.path.join(wt, f)
            src = open(p, newline="").read()
            old = src[s:e]
            if (f, ln, old, new) in done:
                continue
            mut = src[:s] + new + src[e:]
            try:
                compile(mut, p, "exec")
            except SyntaxError:
                continue
            open(p, "w", newline="").write(mut)
            t = time.time()
            try:
                r = call(["_judge", ",".join(ps)], wt, 900)
            finally:
                open(p, "w", newline="").write(src)
            r.update(file=f, line=ln, old=old, new=new, note=note, checks=ps, s=round(time.time() - t, 1))
            with lock:
                open(a[2], "a").write(json.dumps(r) + "\n")
        shutil.rmtree(wt, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(opt.get("--workers", "4")))]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
