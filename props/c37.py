"""Objects kept in S3: listed, fetched, structured and moved between projects (S3 is a stand-in in memory)."""
import contextlib
import fnmatch
import json
import os
import shutil
from types import SimpleNamespace as NS

from hypothesis import strategies as st

from props import c32
from vlib import runs, scratch
from vlib.core import Sub, frames_equal, need, need_eq

PROPERTY = "C37"
RULE = ("drawn buckets (0-8 objects in folders, several pages, files of the same name in different folders) behind a stand-in for boto3; "
        "keys, globs and local files given to the structure command in any order; objects of drawn content moved between projects, with "
        "failing uploads; non-trivial when at least one object was fetched or moved and its content compared")
ORACLE = "a dictionary model of the buckets, and the library applied to the content of each object on its own"
ASSUMPTIONS = ["S3 is replaced by a stand-in that keeps buckets in memory and checks that an uploaded file is complete when upload_file is called"]


class Fake:
    """buckets: {name: {key: bytes}}"""

    def __init__(self, buckets, refuse=(), page=3):
        self.b, self.refuse, self.page = buckets, set(refuse), page
        self.fetched = []
        self.exceptions = NS()

    def get(self, bucket, key):
        return self.b[bucket][key]

    # client
    def download_file(self, Bucket, Key, Filename, **kw):
        self.fetched.append((Bucket, Key))
        with open(Filename, "wb") as f:
            f.write(self.get(Bucket, Key))

    def upload_file(self, Filename, Bucket, Key, **kw):
        from botocore.exceptions import ClientError
        if Key in self.refuse:
            raise ClientError({"Error": {"Code": "403", "Message": "no"}}, "PutObject")
        with open(Filename, "rb") as f:
            self.b.setdefault(Bucket, {})[Key] = f.read()

    def _list(self, Bucket, Prefix="", Delimiter=None):
        cont, pre = [], set()
        for k in sorted(self.b.get(Bucket, {})):
            if not k.startswith(Prefix):
                continue
            rest = k[len(Prefix):]
            if Delimiter and Delimiter in rest:
                pre.add(Prefix + rest.split(Delimiter)[0] + Delimiter)
            else:
                cont.append(dict(Key=k, Size=len(self.b[Bucket][k])))
        return cont, sorted(pre)

    def get_paginator(self, op):
        assert op in ("list_objects_v2", "list_objects"), op

        def paginate(Bucket, Prefix="", Delimiter=None, **kw):
            cont, pre = self._list(Bucket, Prefix, Delimiter)
            items = sorted([(p, True, p) for p in pre] + [(c["Key"], False, c) for c in cont])
            for i in range(0, max(1, len(items)), self.page):
                part = items[i:i + self.page]
                r = {}
                if any(not x[1] for x in part):
                    r["Contents"] = [x[2] for x in part if not x[1]]
                if any(x[1] for x in part):
                    r["CommonPrefixes"] = [dict(Prefix=x[2]) for x in part if x[1]]
                yield r
        return NS(paginate=paginate)

    # resource
    def Bucket(self, name):
        def objs(Prefix=""):
            return [NS(key=k, bucket_name=name, size=len(v)) for k, v in sorted(self.b.get(name, {}).items()) if k.startswith(Prefix)]
        return NS(name=name, objects=NS(all=lambda: iter(objs()), filter=lambda Prefix="", **kw: iter(objs(Prefix))),
                  download_file=lambda Key, Filename, **kw: self.download_file(name, Key, Filename))

    def Object(self, bucket, key):
        return NS(key=key, download_file=lambda Filename: self.download_file(bucket, key, Filename))


@contextlib.contextmanager
def s3(fake):
    import boto3
    old = boto3.client, boto3.resource
    boto3.client = lambda *a, **k: fake
    boto3.resource = lambda *a, **k: fake
    try:
        yield
    finally:
        boto3.client, boto3.resource = old


# ------------------------------------------------------------------ structure

RUNS = 3


@st.composite
def scase(draw):
    keys = draw(st.lists(st.tuples(st.sampled_from(["", "a/", "b/", "a/c/"]), st.integers(0, 9)), min_size=1, max_size=5, unique=True))
    keys = [[d + "2017-05-09_test_CH%d.csv" % n, draw(st.integers(0, RUNS))] for d, n in keys]     # RUNS = a bad file
    local = [["2017-05-09_test_CH%d.csv" % n, draw(st.integers(0, RUNS - 1))] for n in
             draw(st.lists(st.integers(0, 7), max_size=2, unique=True))]
    globs = ["a/*", "b/*CH?.csv", "*CH1*", "a/*CH2.csv", "*CH[0-3].csv"]
    globs = [g for g in globs if any(fnmatch.fnmatchcase(k, g) for k, _ in keys)] + ["zz/*"] * (draw(st.integers(0, 9)) == 5)
    cand = sorted(set([k for k, _ in keys] + [n for n, _ in local] + globs))
    args = draw(st.lists(st.sampled_from(cand), min_size=1, max_size=4, unique=True))
    return dict(keys=keys, local=local, args=args, runs=[draw(runs.run(2, 2, nmax=3)) for _ in range(RUNS)], cache=draw(st.booleans()),
                names=draw(st.booleans()), bucket=draw(st.integers(0, 19)) != 13, missing=draw(st.integers(0, 19)) == 13, rev=draw(st.booleans()))


def expected(c, have):
    """-> list of (origin, content index) in the order given, None when an argument names nothing"""
    out = []
    keys = dict(map(tuple, c["keys"]))
    local = dict(map(tuple, c["local"]))
    for a in have:
        if a in local:
            out.append(("local", a, local[a]))
            continue
        m = []
        if c["bucket"]:
            m = [k for k in sorted(keys) if fnmatch.fnmatchcase(k, a)] if "*" in a else [a] * (a in keys)
        if not m:
            return None
        out += [("s3", k, keys[k]) for k in m]
    return out


def srun(c):
    import beep.cmd
    from beep.structure.cli import auto_load, auto_load_processed
    base = scratch.new()
    cwd, out, ref, cache = (os.path.join(base, x) for x in ("cwd", "out", "ref", "cache"))
    for d in (cwd, out, ref):
        os.makedirs(d)
    content = []
    for i, r in enumerate(c["runs"] + [c["runs"][0]]):
        p = os.path.join(ref, "2017-05-09_test_CH%d.csv" % i)
        c32.write_arbin(p, runs.expand(r), i == RUNS)
        content.append((p, open(p, "rb").read()))
    for n, i in c["local"]:
        with open(os.path.join(cwd, n), "wb") as f:
            f.write(content[i][1])
    fake = Fake({"buck": {k: content[i][1] for k, i in c["keys"]}, "other": {"2017-05-09_test_CH9.csv": content[0][1]}})
    have = list(c["args"]) + (["nope.csv"] if c["missing"] else [])
    if c["rev"]:
        have = have[::-1]
    want = expected(c, have)
    args = ["--output-status-json", os.path.join(base, "status.json"), "structure", "--resolution", 5]
    if c["bucket"]:
        args += ["--s3-bucket", "buck"]
    if c["cache"]:
        args += ["--s3-use-cache"]
    names = None
    if c["names"] and want is not None:
        names = [os.path.join(out, "o%d.json" % i) for i in range(len(want))]
        for n in names:
            args += ["-o", n]
    else:
        args += ["-d", out]
    args += have
    old = beep.cmd.S3_CACHE
    beep.cmd.S3_CACHE = cache
    try:
        with s3(fake):
            r = c32.invoke(args, cwd)
    finally:
        beep.cmd.S3_CACHE = old
        os.chdir("/")
    touched = {os.path.basename(k) for k, _ in c["keys"]} if want is None else {os.path.basename(k) for o, k, _ in want if o == "s3"}
    for n, i in c["local"]:
        if n not in touched:
            need(open(os.path.join(cwd, n), "rb").read() == content[i][1], f"local file {n} was changed")
    if want is None:
        need(r.exit_code != 0, "an input that is nowhere was not reported")
        return {"missing"}
    dirs = {"s3": cache if c["cache"] else cwd, "local": cwd}
    where = [os.path.join(dirs[o], os.path.basename(k)) for o, k, _ in want]
    inputs = {os.path.join(cwd, k): i for o, k, i in want if o == "local"}
    for p, i in inputs.items():
        need(open(p, "rb").read() == content[i][1], f"the input file {p} was overwritten")
    outs = names or [os.path.join(out, os.path.basename(k)[:-4] + "_structured.json.gz") for _, k, _ in want]
    if len(set(where)) < len(where) or len(set(outs)) < len(outs):
        # two inputs cannot share one local name or one output: refused, or each output is right
        if r.exit_code != 0:
            return {"shared name refused"}
    need_eq(r.exit_code, 0, f"exit code ({r.exception!r})")
    for (o, k, i), p in zip(want, where):
        need(open(p, "rb").read() == content[i][1], f"{p} is not the content of {o} {k}")
    need_eq(sorted(k for b, k in fake.fetched), sorted(k for o, k, _ in want if o == "s3"), "objects fetched")
    with open(os.path.join(base, "status.json")) as f:
        status = json.load(f)["files"]
    need_eq(set(status), set(where), "files reported")
    n = 0
    for (o, k, i), p, q in zip(want, where, outs):
        if i == RUNS:
            need(not status[p]["validated"] and not os.path.exists(q), f"{k}: an invalid file counts as valid")
            continue
        need(status[p]["structured"], f"{k} was not structured: {status[p]['traceback']}")
        need_eq(status[p]["output"], q, f"{k}: output named in the report")
        dp = auto_load(content[i][0])
        dp.structure(resolution=5)
        g = auto_load_processed(q)
        frames_equal(g.structured_data, dp.structured_data, f"{k}: structured data", rtol=1e-5, atol=1e-6)
        need_eq(len(g.raw_data), len(dp.raw_data), f"{k}: samples")
        n += 1
    lab = {o for o, _, _ in want}
    if n and "s3" in lab:
        lab.add("nontrivial")
    return lab


# ------------------------------------------------------------------ plain functions

BYTES = st.binary(max_size=60)


@st.composite
def fcase(draw):
    return dict(objs={draw(st.sampled_from(["", "a/", "b/c/"])) + draw(st.text("abc._ é", min_size=1, max_size=6)): draw(st.integers(0, 10**6))
                      for _ in range(draw(st.integers(0, 6)))}, other=draw(st.booleans()))


def frun(c):
    from beep.utils.s3 import download_s3_object, list_s3_objects
    d = scratch.new()
    b = {"x": {k: (b"%d\r\n\x00\xff" % v) * (v % 50) for k, v in c["objs"].items()}, "y": {"q": b"1"}}
    keep = json.dumps({k: sorted(v) for k, v in b.items()})
    fake = Fake(b)
    with s3(fake):
        need_eq(sorted(o.key for o in list_s3_objects("x")), sorted(c["objs"]), "objects of the bucket")
        need_eq([o.key for o in list_s3_objects("y")], ["q"], "objects of the other bucket")
        for i, k in enumerate(sorted(c["objs"])):
            p = os.path.join(d, str(i))
            download_s3_object("x", k, p)
            need(open(p, "rb").read() == b["x"][k], f"content of {k!r}")
    need_eq(json.dumps({k: sorted(v) for k, v in b.items()}), keep, "keys after reading")
    return {"nontrivial"} if c["objs"] else set()


# ------------------------------------------------------------------ transfer

PROJECTS = ["PreDiag", "PredictionDiagnostics", "XTesla", "Form", "A"]


@st.composite
def tcase(draw):
    src, dst = draw(st.sampled_from([(a, b) for a in PROJECTS for b in PROJECTS if a != b]))
    objs = {}
    prefix = draw(st.sampled_from(["d3Batt/raw/maccor", "raw/STANFORD LOANER #2", "p/", "raw/" + src, src + "/"]))
    for _ in range(draw(st.integers(1, 6))):
        proj = draw(st.sampled_from([src, src, src, dst, "Other"]))
        name = "%s_%06d%s.0%d" % (proj, draw(st.integers(0, 20)), draw(st.sampled_from(["_00010F", "", "_Logs"])), draw(st.integers(10, 40)))
        folder = draw(st.sampled_from(["", "", "", "sub/", "../elsewhere/"]))
        first = draw(st.sampled_from(["Today's Date, \tProcedure:\t%s_000001.000" % src, "x %s y %s" % (src, src), "nothing here", "", "°C %s" % src]))
        body = draw(st.lists(st.sampled_from(["1\t2\t3", src + " stays", "°µ", "", "a,b", "x" * 3000]), max_size=6))
        nl = draw(st.sampled_from(["\n", "\r\n"]))
        enc = draw(st.sampled_from(["utf-8", "latin-1"]))
        last = draw(st.booleans())
        key = folder.replace("../elsewhere/", "") + name
        key = ("elsewhere/" if folder.startswith("..") else prefix.rstrip("/") + "/") + key
        objs[key] = [nl.join([first] + body) + (nl if last else ""), enc]
    return dict(src=src, dst=dst, prefix=prefix, objs=objs, dry=draw(st.booleans()), page=draw(st.integers(1, 4)),
                excl=draw(st.lists(st.sampled_from(["Logs", "_000005", "zzz"]), max_size=2, unique=True)),
                refuse=draw(st.integers(0, 12)))


def trun(c):
    from beep.utils.project_transfer import ProjectTransfer
    d = scratch.new()
    objs = {k: t.encode(e) for k, (t, e) in c["objs"].items()}
    pre = c["prefix"] if c["prefix"].endswith("/") else c["prefix"] + "/"
    mine = sorted(k for k in objs if k.startswith(pre) and "/" not in k[len(pre):] and k[len(pre):].startswith(c["src"])
                  and not any(x in k for x in c["excl"]))
    # a project whose name merely begins like the source project is not judged
    fuzzy = {k for k in mine if not k[len(pre):].startswith(c["src"] + "_")}
    fake = Fake({"in": dict(objs)}, page=c["page"])
    t = ProjectTransfer(c["src"], c["dst"], "in", c["prefix"], dry_run=c["dry"])
    os.chdir(d)
    try:
        with s3(fake):
            got = t.get_list_files(list(c["excl"]))
            need_eq(sorted(set(got) - fuzzy), sorted(set(mine) - fuzzy), "objects of the project")
            need_eq(len(set(got)), len(got), "objects named once")
            names = sorted(set(mine) - fuzzy)

            def new(k):
                a, b = k.rsplit("/", 1)
                return a + "/" + b.replace(c["src"], c["dst"])
            if len({new(k) for k in names}) < len(names):
                return set()
            refused = [new(names[c["refuse"] % len(names)])] if names and c["refuse"] > 6 else []
            fake.refuse = set(refused)
            t.download_and_modify(names)
    finally:
        os.chdir("/")
    need_eq(os.listdir(d), [], "working folder afterwards")
    out = "beep-sync-test-stage" if c["dry"] else "in"
    want = {} if c["dry"] else dict(objs)
    for k in names:
        first, nl, rest = objs[k].partition(b"\n")
        if new(k) not in refused:
            want[new(k)] = first.replace(c["src"].encode(), c["dst"].encode()) + nl + rest
    res = fake.b.get(out, {})
    need_eq(sorted(res), sorted(want), "objects afterwards")
    for k in want:
        need(res[k] == want[k], f"content of {k}: {res[k][:200]!r} expected {want[k][:200]!r}")
    need(all(fake.b["in"][k] == v for k, v in objs.items() if k not in want or out != "in"), "the originals changed")
    return {"nontrivial", "dry" if c["dry"] else "real"} if names else set()


SUBS = [
    Sub("structure", scase, srun, 90, 4000, 4, 8),
    Sub("objects", fcase, frun, 60, 1000, 1, 1),
    Sub("transfer", tcase, trun, 250, 10000, 2, 4),
]
