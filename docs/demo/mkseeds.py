#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seeds_*.py (edits to /repo plus a demonstration)."""
import glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
SRC = os.path.join(os.path.dirname(os.path.dirname(HERE)), "mc/src")
PRE = open(HERE + "/prelude.rs").read()
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))
for f in sorted(glob.glob(HERE + "/seeds_*.py")):
    exec(open(f).read())
only = sys.argv[1:]
for s in SEEDS:
    if only and s["id"] not in only: continue
    d = f"{OUT}/{s['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/demo")
    w = "/tmp/mkseed_repo"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, a, b in s["edits"]:
        t = open(f"{w}/{f}").read()
        assert t.count(a) == 1, (s["id"], f, t.count(a), a)
        open(f"{w}/{f}", "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
    shutil.rmtree(w)
    for f in ["world", "lending", "exec", "model", "env_mock", "probe", "alpha"]:
        shutil.copy(f"{SRC}/{f}.rs", d + "/demo/")
    for f in ["Cargo.toml.in", "Cargo.lock"]:
        shutil.copy(f"{HERE}/{f}", d + "/demo/")
    open(d + "/demo/main.rs", "w").write(PRE + s["demo"])
    shutil.copy(HERE + "/demo.sh", d)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
