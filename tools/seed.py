#!/usr/bin/env python3
"""seed.py make ID full|header   - copies the kit into seeded/ID, and the patch from /tmp/seedwork (a copy of /repo)
seed.py verify ID              - checks everything a planted change has to satisfy"""
import os, shutil, subprocess, sys, json
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
W = "/tmp/seedwork"
def fresh():
    if not os.path.exists(W): sh("cp -a /repo " + W)
    sh("cd %s && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq" % W)
cmd, sid = sys.argv[1:3]
d = "%s/seeded/%s" % (V, sid)
if cmd == "fresh":
    fresh(); sys.exit(0)
if cmd == "make":
    kit = sys.argv[3]
    os.makedirs(d, exist_ok=True)
    env = " ".join(sys.argv[4:])
    open(d + "/demo.sh", "w").write("#!/bin/bash\n%s. \"$(dirname \"$0\")/%s.sh\"\n" % (("export " + env + "\n") if env else "", kit))
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy("%s/tools/seedkit/%s.sh" % (V, kit), d)
    shutil.rmtree(d + "/shim", ignore_errors=True)
    shutil.copytree(V + "/shim", d + "/shim")
    p = sh("cd %s && git diff" % W).stdout
    assert p.strip(), "no change in " + W
    open(d + "/patch.diff", "w").write(p)
    cmd = "verify"
if cmd == "verify":
    fresh()
    r = sh("cd %s && bash %s/demo.sh" % (W, d))
    print("unchanged: exit", r.returncode); 
    if r.returncode: print(r.stdout[-3000:]); sys.exit(1)
    r = sh("cd %s && git apply %s/patch.diff" % (W, d))
    assert r.returncode == 0, r.stdout
    r = sh("cd %s && bash %s/demo.sh" % (W, d))
    print("patched: exit", r.returncode); print(r.stdout[-600:])
    if r.returncode == 0: sys.exit(1)
    # stable tests in /repo
    if os.environ.get("NOREPO"): sys.exit(0)
    r = sh("git -C /repo apply %s/patch.diff && bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedtest.json; git -C /repo checkout -- ." % d)
    t = json.load(open("/tmp/seedtest.json"))
    print("tests: passed %s failed %s" % (len(t["passed"]) if hasattr(t["passed"], "__len__") else t["passed"], t["failed"]))
    m = json.load(open(d + "/meta.json"))
    assert set(m) >= {"property", "needs", "what_it_breaks"}
    sh("bash /opt/vp/build.sh")
