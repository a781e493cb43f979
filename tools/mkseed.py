"""mkseed.py <spec> : assemble seeded/<id>/ from a specification.

The specification is a text file: a JSON object on the first line (id, property,
needs, what_it_breaks, optional nolog and cxxflags), then a line '#### edits'
with `file|||old|||new` edits separated by '&&&&' lines, then '#### demo' and
the body of the demonstration program.
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kit = os.path.join(V, "tools", "seedkit")
R = os.environ.get("SEED_SCRATCH", "/tmp/w/seedrepo")
for spec in sys.argv[1:]:
    txt = open(spec).read()
    head, rest = txt.split("\n#### edits\n")
    edits, demo = rest.split("\n#### demo\n")
    meta = json.loads(head)
    sid = meta.pop("id")
    d = os.path.join(V, "seeded", sid)
    shutil.rmtree(R, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
    for ed in edits.split("\n&&&&\n"):
        f, old, new = ed.split("|||")
        f, old, new = f.strip(), old.strip("\n"), new.strip("\n")
        p = os.path.join(R, f)
        s = open(p).read()
        if s.count(old) < 1:
            sys.exit("%s: no match in %s:\n%s" % (sid, f, old))
        open(p, "w").write(s.replace(old, new, 1))
    diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE, check=True).stdout
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    shutil.copy(os.path.join(kit, "demo.sh"), d)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.copy(os.path.join(kit, "harness.h"), d)
    shutil.copytree(os.path.join(V, "stubs"), os.path.join(d, "stubs"))
    if meta.pop("nolog", False):
        open(os.path.join(d, "nolog"), "w").write("built without the log\n")
    fl = meta.pop("cxxflags", None)
    if fl:
        open(os.path.join(d, "cxxflags"), "w").write(fl + "\n")
    open(os.path.join(d, "demo.cpp"), "w").write('#include "harness.h"\n\n' + demo.strip("\n") + "\n")
    json.dump(meta, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("seeded", sid, flush=True)
    shutil.rmtree(R + "0", ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", R + "0"], check=True)
    a = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=R + "0", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("  unchanged: %d  %s" % (a.returncode, a.stdout.strip()[-200:]))
    print("  changed:   %d  %s" % (b.returncode, b.stdout.strip()[-300:]), flush=True)
