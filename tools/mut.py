#!/usr/bin/env python3
"""mut.py CHECK[,CHECK] FILE OLD NEW [OLD NEW...] - plants a textual change in a scratch copy and runs the checks."""
import sys, subprocess, os, shutil
checks, f = sys.argv[1:3]
w = "/tmp/mut.%d" % os.getpid()
subprocess.run(["cp", "-a", os.environ.get("MUT_BASE", "/repo"), w], check=True)
p = w + "/" + f
s = open(p).read()
a = sys.argv[3:]
for old, new in zip(a[::2], a[1::2]):
    n = s.count(old)
    if n == 0: print("NOT FOUND:", old); shutil.rmtree(w); sys.exit(9)
    s = s.replace(old, new, 1)
open(p, "w").write(s)
for c in checks.split(","):
    r = subprocess.run(["timeout", "600", "python3", "/verif/check.py"] + c.replace(":", " --unit ").split(), env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith(("violation", "ERROR", "/"))]
    print(c, "rc=%d" % r.returncode, {1: "CAUGHT", 0: "MISSED"}.get(r.returncode, "BROKEN"), v[:1], "|", a[0][:60].replace("\n", " "), "->", (a[1] or "(deleted)")[:60].replace("\n", " "))
shutil.rmtree(w)
