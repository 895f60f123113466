"""Generic driver: generated-input search against an explicit oracle.

A property module (props/cNN.py) exports PROPERTY, RULE, SUBS (list of Sub) and
optionally ASSUMPTIONS.  Every Sub has a Hypothesis strategy that yields a
JSON-able case and a run(case) function which exercises the real code in /repo
and judges it; it returns a collection of labels ("nontrivial" marks the case as
non-trivial by RULE) and raises Violation/AssertionError when the property is broken.
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO") or "/repo"
sys.path.insert(0, HERE)
sys.path.append(os.path.join(HERE, "vendor"))

from vlib.core import Violation, KnownFinding, HarnessError, Reject, Sub  # noqa: E402


def clear_bytecode():
    """Stale .pyc files must not hide an edit of the sources."""
    for d, _, fs in os.walk(os.path.join(REPO, "beep")):
        if os.path.basename(d) == "__pycache__":
            for f in fs:
                if f.endswith(".pyc"):
                    with contextlib.suppress(OSError):
                        os.unlink(os.path.join(d, f))


def beep_frames(tb):
    for f in traceback.extract_tb(tb):
        if os.path.abspath(f.filename).startswith(REPO + os.sep):
            return True
    return False


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e.get("status") == "open"]


CASE_LIMIT_S = 150


class _TooLong(BaseException):
    pass


def _alarm(*_):
    raise _TooLong()


def execute(sub, case, known_ids):
    """-> (kind, info); kind in ok / known / reject / violation"""
    from vlib import scratch
    out = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            labels = sub.run(json.loads(json.dumps(case)))
        return "ok", set(labels or ())
    except KnownFinding as k:
        if k.fid in known_ids:
            return "known", k.fid
        return "violation", str(k)
    except Reject as r:
        return "reject", str(r)
    except (Violation, AssertionError) as e:
        return "violation", f"{type(e).__name__}: {e}"
    except (MemoryError, KeyboardInterrupt, HarnessError):
        raise
    except (OSError, ImportError) as e:
        if beep_frames(e.__traceback__):
            return "violation", "".join(traceback.format_exception(e))[-1800:]
        raise HarnessError(f"{sub.name}: {e!r}\n" + "".join(traceback.format_exception(e))[-3000:])
    except Exception as e:
        # raised by the code under test, or by the judge on an output of unexpected shape
        return "violation", "".join(traceback.format_exception(e))[-1800:]
    except SystemExit as e:
        return "violation", f"SystemExit {e}"
    except _TooLong:
        return "violation", f"no answer within {CASE_LIMIT_S} s"
    except GeneratorExit:
        raise
    except BaseException as e:      # several errors of the code under test derive from BaseException
        return "violation", "".join(traceback.format_exception(e))[-1800:]
    finally:
        signal.alarm(0)
        scratch.cleanup()


class _Found(Exception):
    pass


def cjson(case):
    return json.dumps(case, sort_keys=True)


def run_job(job):
    """Run one shard of one sub-check in this (forked) process."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    mod = importlib.import_module("props." + job["prop"].lower())
    sub = {s.name: s for s in mod.SUBS}[job["sub"]]
    known_ids = {k["id"] for k in load_known()}
    st = dict(sub=sub.name, shard=job["shard"], evaluations=0, rejected=0, known={}, labels={},
              hashes=set(), samples=[], skipped=0, fail=None, error=None, wall=0.0)
    t0 = time.time()
    budget = job["budget"]
    best = {"case": None, "msg": None, "t": None, "n": 0}

    def body(case):
        now = time.time()
        if best["case"] is not None:
            # shrinking: bounded in wall-clock time; afterwards only the best case fails
            if now - best["t"] > job["shrink_s"]:
                if cjson(case) == cjson(best["case"]):
                    raise _Found(best["msg"])
                return
        elif now - t0 > budget:
            st["skipped"] += 1
            return
        kind, info = execute(sub, case, known_ids)
        if best["case"] is None:
            st["evaluations"] += 1
        if kind == "ok":
            if best["case"] is None:
                for lb in info:
                    st["labels"][lb] = st["labels"].get(lb, 0) + 1
                if "nontrivial" in info:
                    st["hashes"].add(hashlib.sha1(cjson(case).encode()).hexdigest()[:16])
                    if len(st["samples"]) < 2:
                        st["samples"].append(case)
        elif kind == "known":
            st["known"][info] = st["known"].get(info, 0) + 1
        elif kind == "reject":
            st["rejected"] += 1
            hypothesis.reject()
        else:
            if best["t"] is None:
                best["t"] = now
            if best["case"] is None or len(cjson(case)) <= len(cjson(best["case"])):
                best["case"], best["msg"] = case, info
            raise _Found(info)

    seed = zlib.crc32(f"{job['seed']}|{job['prop']}|{sub.name}|{job['shard']}".encode())
    test = given(sub.strategy())(body)
    test = settings(max_examples=job["examples"], database=None, deadline=None,
                    suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                    report_multiple_bugs=False, print_blob=False, verbosity=Verbosity.quiet,
                    derandomize=False)(test)
    test = hypothesis.seed(seed)(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            test()
    except _Found:
        pass
    except HarnessError as e:
        st["error"] = str(e)
    except BaseException as e:  # Flaky etc: judged below by the recorded case
        if best["case"] is None:
            st["error"] = "".join(traceback.format_exception(e))[-4000:]
    if best["case"] is not None:
        st["fail"] = {"case": best["case"], "msg": best["msg"]}
        st["error"] = None
    st["wall"] = time.time() - t0
    st["hashes"] = sorted(st["hashes"])
    return st


def worker(job, q):
    try:
        r = run_job(job)
    except BaseException as e:
        r = dict(sub=job["sub"], shard=job["shard"], error="".join(traceback.format_exception(e))[-4000:])
    q.put(r)


def run_jobs(jobs, procs):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    results, active, todo = [], {}, list(enumerate(jobs))
    ident = {}
    while todo or active:
        while todo and len(active) < procs:
            i, j = todo.pop(0)
            qq = ctx.SimpleQueue()
            p = ctx.Process(target=worker, args=(j, qq), daemon=False)
            p.start()
            active[i] = (p, qq, j)
        done = []
        for i, (p, qq, j) in active.items():
            if not qq.empty():
                results.append((i, qq.get()))
                p.join()
                done.append(i)
            elif not p.is_alive():
                if not qq.empty():
                    results.append((i, qq.get()))
                else:
                    results.append((i, dict(sub=j["sub"], shard=j["shard"],
                                            error=f"worker died (exit {p.exitcode})")))
                done.append(i)
        for i in done:
            del active[i]
        time.sleep(0.02)
    return [r for _, r in sorted(results, key=lambda x: x[0])]


def import_beep():
    import warnings
    warnings.filterwarnings("ignore")
    import logging
    import beep
    assert os.path.realpath(beep.__file__).startswith(REPO + os.sep), beep.__file__
    logging.disable(logging.CRITICAL)


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module("props." + prop.lower())
    known_ids = {k["id"] for k in load_known()}
    if "job" in d:
        st = run_job(d["job"])
        if st.get("fail"):
            print("REPRODUCED (history of one generated run)", d["sub"], st["fail"]["msg"])
            return 1
        print("did not reproduce")
        return 0
    sub = {s.name: s for s in mod.SUBS}[d["sub"]]
    kind, info = execute(sub, d["case"], known_ids)
    if kind == "violation":
        print(f"REPRODUCED {prop}/{d['sub']}: {info}")
        return 1
    print(f"replay result: {kind} {info}")
    return 0


def fresh_replay(prop, path):
    p = subprocess.run(["bash", os.path.join(HERE, "run.sh"), prop, "--replay", path],
                       capture_output=True, text=True, timeout=400)
    return p.returncode == 1 and "REPRODUCED" in p.stdout


def main(argv):
    prop = argv[0]
    if prop == "--selftest":
        import hypothesis
        import_beep()
        for f in sorted(os.listdir(os.path.join(HERE, "props"))):
            if f.startswith("c") and f.endswith(".py"):
                importlib.import_module("props." + f[:-3])
        print("ok", hypothesis.__version__)
        return 0
    clear_bytecode()
    import_beep()
    if len(argv) >= 3 and argv[1] == "--replay":
        return replay(prop, argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    only = os.environ.get("VERIF_ONLY")
    t0 = time.time()
    mod = importlib.import_module("props." + prop.lower())
    assert mod.PROPERTY == prop
    thorough = tier == "thorough"
    jobs = []
    for s in mod.SUBS:
        if only and s.name not in only.split(","):
            continue
        n = s.thorough if thorough else s.quick
        n = max(1, int(n * scale))
        shards = max(1, s.shards_thorough if thorough else s.shards)
        for k in range(shards):
            jobs.append(dict(prop=prop, sub=s.name, shard=k, seed=seed,
                             examples=max(1, -(-n // shards)),
                             budget=1500 if thorough else 200,
                             shrink_s=90 if thorough else 40))
    jobs.sort(key=lambda j: -next(s.weight for s in mod.SUBS if s.name == j["sub"]))
    procs = min(8, os.cpu_count() or 4)
    results = run_jobs(jobs, procs)

    # known findings: replay each listed case; say so while it still fails
    known = [k for k in load_known() if k["property"] == prop]
    known_seen = []
    for k in known:
        sub = {s.name: s for s in mod.SUBS}[k["sub"]]
        kind, info = execute(sub, k["case"], {k["id"]})
        if kind == "known" and info == k["id"]:
            known_seen.append(k["id"])
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    errors = [r for r in results if r.get("error")]
    fails = [r for r in results if r.get("fail")]
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rc, viol = 0, []
    seen = set()
    for r in fails:
        if r["sub"] in seen:
            continue
        path = os.path.join(HERE, "replays", f"{prop}-{r['sub']}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, sub=r["sub"], case=r["fail"]["case"], message=r["fail"]["msg"]), f, indent=1)
        ok = fresh_replay(prop, path)
        if not ok:
            job = next(j for j in jobs if j["sub"] == r["sub"] and j["shard"] == r["shard"])
            with open(path, "w") as f:
                json.dump(dict(property=prop, sub=r["sub"], job=job, case=r["fail"]["case"],
                               message=r["fail"]["msg"]), f, indent=1)
            ok = fresh_replay(prop, path)
        if ok:
            seen.add(r["sub"])
            viol.append({"sub": r["sub"], "replay": path, "message": r["fail"]["msg"][-600:], "case": r["fail"]["case"]})
            rc = 1
        else:
            errors.append(dict(sub=r["sub"], shard=r["shard"],
                               error="failure did not reproduce in a fresh process: " + r["fail"]["msg"]))
    hashes = set()
    labels = {}
    samples = []
    for r in results:
        for h in r.get("hashes", []):
            hashes.add(r["sub"] + h)
        for k, v in r.get("labels", {}).items():
            labels.setdefault(r["sub"], {})[k] = labels.setdefault(r["sub"], {}).get(k, 0) + v
        for c in r.get("samples", [])[:1]:
            txt = cjson(c)
            samples.append({"sub": r["sub"], "case": c if len(txt) < 1500 else txt[:1500] + " ..."})
    per_sub = {}
    for r in results:
        d = per_sub.setdefault(r["sub"], dict(evaluations=0, rejected=0, budget_skipped=0, known=0, wall_s=0.0))
        d["evaluations"] += r.get("evaluations", 0)
        d["rejected"] += r.get("rejected", 0)
        d["budget_skipped"] += r.get("skipped", 0)
        d["known"] += sum(r.get("known", {}).values())
        d["wall_s"] = round(d["wall_s"] + r.get("wall", 0.0), 2)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=sum(r.get("evaluations", 0) for r in results),
                            distinct_nontrivial=len(hashes), rule=mod.RULE,
                            samples=samples[:12], per_check=per_sub, classes=labels),
              wall_s=round(time.time() - t0, 2),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              known_findings_seen=known_seen,
              violations=viol)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier} seed={seed}: {ev['coverage']['evaluations']} cases, "
          f"{len(hashes)} distinct non-trivial, {ev['wall_s']}s")
    for v in viol:
        print(f"  [{v['sub']}] {v['message'][-500:]}")
    for v in viol[:1]:
        print(f"VIOLATION property={prop} replay={v['replay']}")
    if rc == 1:
        return 1
    if errors:
        for e in errors:
            print("HARNESS-ERROR", e["sub"], e["error"][-3000:], file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
