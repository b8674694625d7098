#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (C text) [, extra, leaks, demo_sh, files].
Confirms in a scratch copy that the change builds, passes the stable tests, and that the demo discriminates; then stores the seed."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
ns = {}
exec(open(sys.argv[1]).read(), ns)
out = f"{V}/seeded/{ns['id']}"
os.makedirs(out, exist_ok=True)
T = tempfile.mkdtemp(prefix="seed_")
try:
    sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
    R = T + "/r"
    subprocess.check_call(["git", "clone", "-q", "/repo", R])
    for f, old, new in ns["edits"]:
        s = open(f"{R}/{f}").read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(f"{R}/{f}", "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=R).stdout
    open(out + "/patch.diff", "w").write(diff)
    demo_sh = ns.get("demo_sh") or open(V + "/tools/demo.sh").read().replace("EXTRA", ns.get("extra", "")).replace("LEAKS", "1" if ns.get("leaks") else "0")
    open(out + "/demo.sh", "w").write(demo_sh)
    if "demo" in ns:
        open(out + "/demo.c", "w").write('#include "demo_util.h"\n' + ns["demo"])
        shutil.copy(V + "/tools/demo_util.h", out)
    for n, t in ns.get("files", {}).items():
        open(f"{out}/{n}", "w").write(t)
    json.dump(dict(property=ns["property"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(out + "/meta.json", "w"), indent=1)
    a = sh(f"sh {out}/demo.sh", cwd="/repo")
    b = sh(f"sh {out}/demo.sh", cwd=R)
    print(ns["id"], "demo unchanged:", a.returncode, "patched:", b.returncode)
    if a.returncode: print(a.stdout[-1500:], a.stderr[-3000:])
    if b.returncode == 0 or b.returncode == 2: print("NOT DISCRIMINATING", b.stderr[-2000:])
    else: print("   ", [l for l in b.stderr.splitlines() if "DEMO" in l or "ERROR: " in l or "runtime error" in l][:3])
finally:
    shutil.rmtree(T)
