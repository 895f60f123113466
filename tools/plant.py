"""Development helper: turn a spec into /verif/seeded/<id>/ and validate it in a scratch copy of /repo.

spec file: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new), ...], DEMO (python source; cwd /repo)
usage: plant.py spec.py [--no-tests]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
SEEDED = "/verif/seeded"
DEMO_SH = '''#!/bin/bash
export BEEP_ENV=dev TQDM_OFF=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    ident = spec["ID"]
    wt = tempfile.mkdtemp(prefix="wt", dir="/tmp")
    out = os.path.join(SEEDED, ident)
    res = {"id": ident}
    try:
        # test data and sources only; history is not needed
        sh(f"cp -a /repo/. {wt}/")
        for f, old, new in spec["EDITS"]:
            p = os.path.join(wt, f)
            s = open(p, newline="").read()
            if s.count(old) != 1:
                print(ident, "EDIT-ERROR", f, s.count(old), "matches:", old[:80])
                return 1
            open(p, "w", newline="").write(s.replace(old, new))
        diff = sh(["git", "-C", wt, "diff"]).stdout
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.py", "w").write(spec["DEMO"])
        open(f"{out}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{out}/demo.sh", 0o755)
        json.dump(dict(property=spec["PROP"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]),
                  open(f"{out}/meta.json", "w"), indent=1)
        env = dict(os.environ)
        r0 = sh(["bash", f"{out}/demo.sh"], cwd="/repo", env=env)
        env["PYTHONPATH"] = wt
        r1 = sh(["bash", f"{out}/demo.sh"], cwd=wt, env=env)
        res["demo_clean"], res["demo_patched"] = r0.returncode, r1.returncode
        if r0.returncode:
            print("CLEAN DEMO FAILS:", r0.stdout[-800:], r0.stderr[-1500:])
        else:
            res["demo_says"] = (r1.stderr or r1.stdout).strip().splitlines()[-1:]
        if "--no-tests" not in sys.argv:
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            env.update(MPLBACKEND="Agg", BEEP_ENV="dev", TQDM_OFF="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                       OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", AWS_EC2_METADATA_DISABLED="true")
            sh([PY, "-m", "pytest", "beep", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "4", "--dist", "loadfile",
                "-o", "junit_family=xunit2", f"--junitxml={wt}/junit.xml"], cwd=wt, env=env)
            import xml.etree.ElementTree as ET
            ok = set()
            for tc in ET.parse(f"{wt}/junit.xml").iter("testcase"):
                if not any(c.tag in ("failure", "error", "skipped") for c in tc):
                    ok.add(f"{tc.get('classname')}::{tc.get('name')}")
            res["stable_lost"] = sorted(set(stable) - ok)
        if "--no-check" not in sys.argv:
            e2 = dict(os.environ, VERIF_REPO=wt)
            props = spec["PROP"].split(",")
            for pr in props:
                r = sh(["bash", "/verif/run.sh", pr, "quick"], env=e2)
                res["check " + pr] = r.returncode
                res["says " + pr] = [x for x in r.stdout.splitlines() if x.startswith("  [")][:2] or r.stdout[-300:] + r.stderr[-500:]
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    print(json.dumps(res, indent=1))
    lf = "/verif/tools/planted.json"
    import fcntl
    with open("/tmp/planted.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = json.load(open(lf)) if os.path.exists(lf) else {}
        e = d.setdefault(ident, {})
        for k, v in res.items():
            if k.startswith("check "):
                e[k[6:]] = "caught" if v == 1 else "missed" if v == 0 else "error"
        if "stable_lost" in res:
            e["stable_tests"] = "pass" if not res["stable_lost"] else "LOST " + ", ".join(res["stable_lost"])
        json.dump(d, open(lf, "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    sys.exit(main())
