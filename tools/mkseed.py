#!/usr/bin/env python3
"""mkseed.py SPEC.py...: make /verif/seeded/<id>/ from a spec: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (main.rs text)"""
import json, os, runpy, shutil, subprocess, sys, tempfile
T = os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_template")
STUBS = "/verif/analysis/stubs"
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def one(spec):
    d = runpy.run_path(spec)
    out = "/verif/seeded/" + d["ID"]
    wt = tempfile.mkdtemp(prefix="hbseed")
    try:
        sh("git", "-C", "/repo", "worktree", "prune")
        shutil.rmtree(wt); sh("git", "clone", "-q", "/repo", wt)
        for f, old, new in d["EDITS"]:
            p = os.path.join(wt, f); s = open(p).read()
            assert s.count(old) == 1, (d["ID"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        patch = sh("git", "-C", wt, "diff").stdout
        if os.path.isdir(out): shutil.rmtree(out)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(patch)
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        open(out + "/main.rs", "w").write(d["MAIN"])
        for n in ("demo.sh", "Cargo.toml.in", "Cargo.lock"): shutil.copy(os.path.join(T, n), out)
        shutil.copytree(STUBS, out + "/stubs", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        a = sh("bash", out + "/demo.sh", cwd="/repo"); b = sh("bash", out + "/demo.sh", cwd=wt)
        print(d["ID"], "clean", a.returncode, "patched", b.returncode, "" if a.returncode == 0 and b.returncode not in (0, 3) else "BAD " + a.stdout[-1500:] + "|||" + b.stdout[-1500:] + b.stderr[-500:])
    finally:
        shutil.rmtree(wt, ignore_errors=True)
for s in sys.argv[1:]: one(s)
