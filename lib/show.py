import sys, json
sys.path.insert(0, __file__.rsplit('/',1)[0])
import facts
d=facts.load("log")
pat=sys.argv[1]
for f in d["fns"].values():
    if f["n"].endswith(pat):
        print(f["n"],f["file"],f["l"],f["kind"],[ (p["n"],p["v"]) for p in f["params"]])
        for b in f["B"]:
            print(" B",b["i"],{k:v for k,v in b.items() if k not in("i","e","s")},"->",b["s"])
            for e in b["e"]:
                if isinstance(e,int): print("   ",e,json.dumps(f["X"][str(e)])[:230])
                else: print("    --",json.dumps(e))
        ex={k:v for k,v in f["X"].items()}
        seen={e for b in f["B"] for e in b["e"] if isinstance(e,int)}
        for k,v in ex.items():
            if int(k) not in seen: print("  lazy",k,json.dumps(v)[:200])
