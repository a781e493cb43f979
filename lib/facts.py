"""Extract facts from /repo's current working tree (cached by content)."""
import glob
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KEEP = int(os.environ.get("VERIF_KEEP", "8"))
CACHE = os.path.join(VERIF, ".cache")
EXTRACT = os.path.join(VERIF, "build", "extract")


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (exit status 2, never a violation)."""


COMMON = ["-std=c++17", "-w", "-I" + os.path.join(VERIF, "stubs"),
          "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/src/include",
          "-I" + REPO + "/third_party",
          "-DSHIRAKAMI_LINUX", "-DINDEX_YAKUSHIMA", "-DYAKUSHIMA_EPOCH_TIME=40",
          "-DKVS_MAX_PARALLEL_THREADS=300", "-DYAKUSHIMA_MAX_PARALLEL_SESSIONS=300",
          "-DPARAM_EPOCH_TIME=0", "-DPARAM_RETRY_READ=0", "-DPARAM_SNAPSHOT_EPOCH=25",
          "-DPARAM_CHECKPOINT_REST_EPOCH=40", "-DPARAM_PWAL_LOG_GCOMMIT_THRESHOLD=1000",
          "-DPARAM_CPR_DIFF_SET_RESERVE_NUM=0"]
PWAL = ["-DPWAL", "-DHAVE_LIMESTONE_CONFIG_CTOR_NONE=1",
        "-DHAVE_LIMESTONE_CONFIG_SET_DATA_LOCATION_STDFSPATH=1",
        "-DHAVE_LIMESTONE_DATASTORE_CREATE_CHANNEL_NONE=1"]


def sources(config):
    fs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    if config == "nolog":
        fs = [f for f in fs if "/src/datastore/limestone/" not in f]
    return fs


def _h(path):
    with open(path, "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def tree_hash(config):
    """(hash of everything but the .cpp files, {.cpp: hash}, hash of both)."""
    h = hashlib.sha256()
    h.update((config + REPO).encode())
    for p in (REPO + "/src", REPO + "/include", REPO + "/third_party", os.path.join(VERIF, "stubs")):
        for d, dn, fn in sorted(os.walk(p)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".h", ".hpp", ".inc", ".ipp")):
                    q = os.path.join(d, f)
                    h.update(q.encode())
                    h.update(_h(q).encode())
    for f in ("tools/extract/extract.cpp", "lib/facts.py"):
        h.update(_h(os.path.join(VERIF, f)).encode())
    base = h.hexdigest()[:24]
    cpps = {f: _h(f) for f in sources(config)}
    h.update(json.dumps(cpps, sort_keys=True).encode())
    return base, cpps, h.hexdigest()[:24]


def _run(args):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def extract(config, only=None):
    r = subprocess.run(["bash", os.path.join(VERIF, "tools", "build.sh")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(EXTRACT):
        raise AnalysisBroken("cannot build the extractor:\n" + r.stdout[-2000:])
    fs = sources(config)
    if len(fs) < 40:
        raise AnalysisBroken("only %d source files found under %s/src" % (len(fs), REPO))
    nfiles = len(fs)
    if only is not None:
        fs = list(only)
    flags = COMMON + (PWAL if config == "log" else [])
    n = max(1, min(os.cpu_count() or 4, 8))
    # spread big files over the workers
    fs.sort(key=lambda f: -os.path.getsize(f))
    n = min(n, len(fs))
    groups = [fs[i::n] for i in range(n)]
    tmp = tempfile.mkdtemp(prefix="skfacts")
    try:
        outs = [os.path.join(tmp, "%d.json" % i) for i in range(n)]
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda ga: _run([EXTRACT, REPO, ga[1]] + ga[0] + ["--"] + flags),
                             zip(groups, outs)))
        for r in rs:
            if r.returncode != 0:
                raise AnalysisBroken("the source does not parse:\n" + r.stderr[-3000:])
        fns, classes, enums, globs = {}, {}, {}, {}
        for o in outs:
            with open(o) as fh:
                d = json.load(fh)
            for f in d["fns"]:
                fns.setdefault(f["id"], f)
            for c in d["classes"]:
                classes.setdefault(c["n"], c)
            for e in d["enums"]:
                enums.setdefault(e["n"], e)
            for g in d["globals"]:
                globs.setdefault(g["n"], g)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return {"fns": fns, "classes": classes, "enums": enums, "globals": globs,
            "files": nfiles, "config": config}


def load(config="log"):
    base, cpps, key = tree_hash(config)
    os.makedirs(CACHE, exist_ok=True)
    path = os.path.join(CACHE, "facts-%s-%s-%s.pickle" % (config, base, key))
    if os.path.exists(path):
        try:
            with open(path, "rb") as fh:
                d = pickle.load(fh)
            os.utime(path)
            return d
        except Exception:
            pass
    d = None
    for old in sorted(glob.glob(os.path.join(CACHE, "facts-%s-%s-*.pickle" % (config, base))), key=os.path.getmtime):
        try:
            with open(old, "rb") as fh:
                o = pickle.load(fh)
        except Exception:
            continue
        d = update(config, o, cpps)
        if d is not None:
            break
    if d is None:
        d = extract(config)
    d["cpps"] = cpps
    tmp = path + ".%d" % os.getpid()
    with open(tmp, "wb") as fh:
        pickle.dump(d, fh, protocol=4)
    os.replace(tmp, path)
    allc = sorted(glob.glob(os.path.join(CACHE, "facts-%s-*.pickle" % config)), key=os.path.getmtime)
    for old in allc[:-KEEP]:
        try:
            os.unlink(old)
        except OSError:
            pass
    return d


def update(config, o, cpps):
    """Facts for a tree that differs from an analysed one in a few .cpp files only."""
    old = o.get("cpps", {})
    changed = [f for f in cpps if old.get(f) != cpps[f]]
    gone = [f for f in old if f not in cpps]
    if len(changed) > 12:
        return None
    d = extract(config, changed) if changed else {"fns": {}, "classes": {}, "enums": {}, "globals": {}}
    rel = {f[len(REPO) + 1:] for f in changed + gone}
    out = {"files": len(cpps), "config": config}
    for k in ("fns", "classes", "enums", "globals"):
        m = {i: x for i, x in o[k].items() if x.get("file") not in rel}
        for i, x in d[k].items():
            m.setdefault(i, x)
        out[k] = m
    return out


if __name__ == "__main__":
    for c in ("log", "nolog"):
        d = load(c)
        print(c, d["files"], "files", len(d["fns"]), "functions")
