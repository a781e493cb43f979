#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's working tree.

exit 0: held;  exit 1 with a VIOLATION line: broken;  exit 2: no answer.
"""
import importlib
import json
import os
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "rules"))
sys.setrecursionlimit(20000)
import facts  # noqa: E402
from facts import AnalysisBroken  # noqa: E402


def run_config(prop, config):
    from engine import Engine
    from rulekit import Kit
    t0 = time.time()
    try:
        F = facts.load(config)
        eng = Engine(F)
        K = Kit(eng, prop)
        K.config = config
        mod = importlib.import_module(prop.lower())
        mod.check(K)
        if K.broken and not K.viol:
            return {"config": config, "broken": "; ".join(K.broken)}
        return {"config": config, "unanswered": K.broken, "files": F["files"], "functions_total": len(F["fns"]),
                "functions_analysed": len(eng.analysed), "abstract_states": eng.nstates, "call_sites_evaluated": eng.ncalls,
                "paths_to_exit": eng.nexits, "rules": K.rules, "viol": list(K.viol.values()),
                "wall_s": round(time.time() - t0, 2)}
    except AnalysisBroken as e:
        return {"config": config, "broken": str(e)}
    except Exception:
        return {"config": config, "broken": traceback.format_exc()}


def known():
    ks = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                ks.append(json.loads(l[len("known: "):]))
    return ks


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    mod = importlib.import_module(prop.lower())
    configs = getattr(mod, "CONFIGS", ["log", "nolog"])
    if os.environ.get("VERIF_CONFIGS"):
        configs = [c for c in configs if c in os.environ["VERIF_CONFIGS"].split(",")]
    # extract one after the other (each uses all cores), analyse side by side
    try:
        for c in configs:
            facts.load(c)
    except AnalysisBroken as e:
        print("ERROR property=%s analysis broken: %s" % (prop, e))
        return 2
    if len(configs) > 1:
        with ProcessPoolExecutor(len(configs)) as ex:
            rs = list(ex.map(run_config, [prop] * len(configs), configs))
    else:
        rs = [run_config(prop, configs[0])]
    broken = [r for r in rs if "broken" in r]
    viols = {}
    for r in rs:
        for v in r.get("viol", ()):
            k = (v["rule"], v["file"], v["function"], v["what"])
            viols.setdefault(k, dict(v, config=r["config"]))
    ks = [k for k in known() if k["property"] == prop]
    new = []
    for k, v in sorted(viols.items()):
        hit = None
        for kf in ks:
            if kf["rule"] == v["rule"] and kf["file"] == v["file"] and kf["function"] == v["function"] and kf["what"] == v["what"]:
                hit = kf
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit["description"]))
        else:
            new.append(v)
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other",
          "coverage": {"explanation": "static analysis of the resolved program (clang AST and control-flow graphs of every "
                                      "source file, per build configuration); each rule lists the obligations it examined on "
                                      "this run and how many failed",
                       "configurations": [{k: v for k, v in r.items() if k != "viol"} for r in rs],
                       "obligations": sum(x["obligations"] for r in rs for x in r.get("rules", ())),
                       "known_findings": len(viols) - len(new)},
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
              "the source is analysed against stand-in headers for the index (yakushima) and log (limestone) libraries",
              "exceptions thrown by the standard library (out of memory) are not followed"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if new:
        path = os.path.join(EVID, prop + ".violations.json")
        with open(path, "w") as fh:
            json.dump(new, fh, indent=1)
        for v in new:
            print("%s:%d: in %s: [%s] %s" % (v["file"], v["line"], v["function"], v["rule"], v["what"]))
            for p in v["path"]:
                print("      via %s" % p)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if broken:
        for r in broken:
            print("ERROR property=%s config=%s analysis broken: %s" % (prop, r["config"], r["broken"]))
        return 2
    n = sum(x["obligations"] for r in rs for x in r.get("rules", ()))
    print("OK property=%s rules=%d obligations=%d wall=%.1fs" % (prop, sum(len(r["rules"]) for r in rs), n, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
