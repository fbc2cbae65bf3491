#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--only SCENARIO] [--keep]

Builds what property ID's harnesses need from /repo's working tree, runs them,
writes evidence/ID.json and reports. Exit 0 / 1 (VIOLATION line) / 2 (error).

check.py --replay FILE re-runs one recorded counterexample.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

BASE = ["-std=c++17", "-g1", "-fsized-deallocation", "-DSpinLock=VerifSpinLock",
        "-DSpinLockHolder=VerifSpinLockHolder", "-w", "-fno-strict-aliasing",
        "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE"]
T0 = time.time()


class BuildError(Exception):
    pass


def absl_libs():
    l = sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so"))
    skip = ("test", "mock", "benchmark", "gtest")
    return [x for x in l if not any(s in os.path.basename(x) for s in skip)]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, **kw)
    if p.returncode != 0:
        c = " ".join(x for x in cmd if "libabsl" not in x)
        raise BuildError("%s\n%s" % (c[:1500], p.stdout[:5000]))
    return p.stdout


def full_sources():
    out = []
    for d in ("tcmalloc", "tcmalloc/internal"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if not f.endswith(".cc"):
                continue
            if re.search(r"(_test|_fuzz|_benchmark|_helper)\.cc$", f):
                continue
            if f.startswith(("mock_", "want_", "enable_heap")):
                continue
            if f == "percpu_rseq_unsupported.cc":
                continue
            out.append(d + "/" + f)
    out.append("tcmalloc/internal/percpu_rseq_asm.S")
    return out


class Builder:
    """Builds binaries in a directory of its own, from /repo's working tree."""

    def __init__(self, bdir):
        self.dir = bdir
        os.makedirs(bdir, exist_ok=True)
        self.gen = os.path.join(bdir, "gen")
        self.have_gen = False
        self.cache = os.environ.get("VERIF_CACHE")
        self.tree = None

    def tree_hash(self):
        if self.tree is None:
            h = hashlib.sha256()
            for root in (REPO + "/tcmalloc", VERIF + "/shim", VERIF + "/lib"):
                for dp, dn, fn in os.walk(root):
                    dn.sort()
                    for f in sorted(fn):
                        if f.endswith((".h", ".cc", ".S", ".proto", ".inc")):
                            p = os.path.join(dp, f)
                            h.update(p.replace(REPO, "R").encode())
                            h.update(open(p, "rb").read())
            self.tree = h.hexdigest()
        return self.tree

    def ensure_gen(self):
        if self.have_gen:
            return
        os.makedirs(self.gen, exist_ok=True)
        run(["protoc", "--cpp_out=" + self.gen, "tcmalloc/internal/profile.proto"],
            cwd=REPO)
        self.have_gen = True

    def includes(self):
        return ["-I" + VERIF + "/shim", "-I" + REPO, "-I" + self.gen,
                "-I" + VERIF]

    def compile(self, jobs):
        """jobs: list of (source path, object name, cc, flags)."""
        def one(j):
            src, obj, cc, flags = j
            path = os.path.join(self.dir, obj)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            key = None
            if self.cache:
                h = hashlib.sha256()
                h.update(self.tree_hash().encode())
                h.update(repr((src, cc, flags)).replace(self.dir, "").encode())
                h.update(open(src, "rb").read())
                key = os.path.join(self.cache, h.hexdigest() + ".o")
                if os.path.exists(key):
                    shutil.copy(key, path)
                    return path
            run([cc] + flags + self.includes() + ["-c", src, "-o", path])
            if key:
                os.makedirs(self.cache, exist_ok=True)
                shutil.copy(path, key + ".%d" % os.getpid())
                os.rename(key + ".%d" % os.getpid(), key)
            return path
        # biggest first
        jobs = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            return list(ex.map(one, jobs))

    def binary(self, name, spec):
        """spec: harness (list), full (bool), sources (list of repo files),
        flags, cc, defs, libs, exclude, lib_flags (flags only for repo code)."""
        cc = spec.get("cc", "g++")
        opt = spec.get("opt", "-O1")
        pages = spec.get("pages", "-DTCMALLOC_INTERNAL_8K_PAGES")
        common = BASE + [opt, pages] + spec.get("flags", [])
        if cc == "clang++":
            common += ["-D__restrict__="]
        lib_flags = common + spec.get("lib_flags", [])
        har_flags = common + spec.get("har_flags", [])
        srcs = list(spec.get("sources", []))
        if spec.get("full"):
            self.ensure_gen()
            srcs = full_sources() + srcs
        srcs = [s for s in srcs if s not in spec.get("exclude", [])]
        if spec.get("gen"):
            self.ensure_gen()
        tag = hashlib.sha256(repr((cc, lib_flags)).encode()).hexdigest()[:10]
        htag = hashlib.sha256(repr((cc, har_flags)).encode()).hexdigest()[:10]
        jobs = []
        for s in srcs:
            jobs.append((os.path.join(REPO, s), "o-%s/%s.o" % (tag, s.replace("/", "_")),
                         cc, lib_flags))
        if spec.get("full") or spec.get("gen"):
            jobs.append((os.path.join(self.gen, "tcmalloc/internal/profile.pb.cc"),
                         "o-%s/profile.pb.o" % htag, cc, BASE + ["-O0"]))
        for s in spec["harness"]:
            jobs.append((os.path.join(VERIF, s), "o-%s/%s-%s.o" % (htag, name, s.replace("/", "_")),
                         cc, har_flags))
        for s in spec.get("plain", []):   # compiled without instrumentation
            jobs.append((os.path.join(VERIF, s), "p/%s.o" % (s.replace("/", "_")),
                         "g++", BASE + ["-O2"] + spec.get("plain_flags", [])))
        # avoid recompiling what another unit of this check already built
        todo = [j for j in jobs if not os.path.exists(os.path.join(self.dir, j[1]))]
        self.compile(todo)
        out = os.path.join(self.dir, name)
        run([cc] + [os.path.join(self.dir, j[1]) for j in jobs] + ["-o", out] +
            spec.get("link", []) + ([] if spec.get("noabsl") else absl_libs()) +
            (["-lprotobuf"] if spec.get("full") or spec.get("gen") else []) +
            ["-lpthread", "-ldl"])
        return out


def load_known(pid):
    """known_findings.txt: `finding: property=<id> key=<key> text` lines."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3).strip()
    return res


def main(argv):
    from checks import registry
    replay = None
    if argv and argv[0] == "--replay":
        replay = argv[1]
        head = open(replay).readline().split()
        pid, unit_name = head[1], head[2]
        tier = "quick"
        rest = []
    else:
        pid = argv[0]
        tier = os.environ.get("VERIF_TIER", "quick")
        rest = argv[1:]
    only = None
    keep = False
    only_unit = None
    i = 0
    while i < len(rest):
        if rest[i] == "--tier":
            tier = rest[i + 1]; i += 2
        elif rest[i] == "--only":
            only = rest[i + 1]; i += 2
        elif rest[i] == "--unit":
            only_unit = rest[i + 1]; i += 2
        elif rest[i] == "--keep":
            keep = True; i += 1
        else:
            print("unknown argument", rest[i]); return 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    chk = registry.CHECKS.get(pid)
    if not chk:
        print("no check for", pid)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    bdir = os.path.join(VERIF, "build", "%s.%d" % (pid, os.getpid()))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    known = load_known(pid)
    b = Builder(bdir)
    scen = []
    rc = 0
    err = None
    viol = None
    hit = {}
    binaries = {}
    budget = 870 if tier == "quick" else 6 * 3600
    try:
        for unit in chk["units"]:
            uname = unit["name"]
            if replay and uname != unit_name:
                continue
            if only_unit and uname != only_unit:
                continue
            if unit.get("thorough_only") and tier != "thorough" and not only_unit:
                continue
            bname, bspec = unit["bin"]
            if bname not in binaries:
                binaries[bname] = b.binary(bname, bspec)
            t_build = time.time() - T0
            exe = binaries[bname]
            env = dict(os.environ)
            for k in ("TCMALLOC_SAMPLE_RATE", "BORG_EXPERIMENTS", "BORG_DISABLE_EXPERIMENTS"):
                env.pop(k, None)
            env.update(unit.get("env", {}))
            args = list(unit.get("args", []))
            if replay:
                tmp = os.path.join(bdir, "replay.txt")
                with open(tmp, "w") as f:
                    f.write("".join(open(replay).readlines()[1:]))
                p = subprocess.run([exe, "--replay", tmp] + args + sum((["--known", k] for k in known), []), env=env)
                return p.returncode
            out = os.path.join(bdir, uname + ".json")
            rp = os.path.join(bdir, uname + ".replay")
            cmd = [exe, "--tier", tier, "--out", out, "--replay-out", rp] + args
            if only:
                cmd += ["--only", only]
            for k in known:
                cmd += ["--known", k]
            left = budget - (time.time() - T0)
            try:
                p = subprocess.run(cmd, env=env, timeout=max(left, 1),
                                   stdin=subprocess.DEVNULL)
                prc = p.returncode
            except subprocess.TimeoutExpired:
                err = "%s: out of time" % uname
                rc = 2
                break
            try:
                res = json.load(open(out))
            except Exception as e:
                if prc in (-4, -6, -7, -8, -11):
                    # the code under test dies before the exploration starts;
                    # believe it if it does so again
                    p2 = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL, timeout=120)
                    if p2.returncode == prc:
                        rdir = os.path.join(VERIF, "replays")
                        os.makedirs(rdir, exist_ok=True)
                        rfile = os.path.join(rdir, "%s-%s.txt" % (pid, uname))
                        msg = "the program dies with signal %d during start-up, before the first operation" % -prc
                        with open(rfile, "w") as f:
                            f.write("check %s %s\n# %s\n" % (pid, uname, msg))
                        viol = {"unit": uname, "scenario": "start-up", "message": msg, "replay": rfile}
                        rc = 1
                        break
                err = "%s: no result (exit %s): %s" % (uname, prc, e)
                rc = 2
                break
            for s in res.get("scenarios", []):
                s["unit"] = uname
                scen.append(s)
                for k in s.get("known_keys", []):
                    hit[k] = True
            print("%s/%s: exit %d (%.1fs build so far, %.1fs total)" % (
                pid, uname, prc, t_build, time.time() - T0), flush=True)
            if "error" in res or prc not in (0, 1):
                err = "%s: %s (exit %s)" % (uname, res.get("error"), prc)
                rc = 2
                break
            if prc == 1:
                viol = res["violation"]
                viol["unit"] = uname
                rdir = os.path.join(VERIF, "replays")
                os.makedirs(rdir, exist_ok=True)
                rfile = os.path.join(rdir, "%s-%s.txt" % (pid, uname))
                with open(rfile, "w") as f:
                    f.write("check %s %s\n" % (pid, uname))
                    f.write(open(rp).read())
                viol["replay"] = rfile
                rc = 1
                break
    except BuildError as e:
        err = "build failed: %s" % e
        rc = 2
    finally:
        if not keep:
            shutil.rmtree(bdir, ignore_errors=True)
            try:
                os.rmdir(os.path.join(VERIF, "build"))
            except OSError:
                pass
        else:
            print("kept", bdir)
    samples = []
    for s in scen:
        samples += ["[%s] %s" % (s["unit"], x) for x in s.pop("samples", [])[:2]]
    if replay:
        print(err)
        return 2
    cov = {
        "states": sum(s["states"] for s in scen),
        "transitions": sum(s["steps"] for s in scen),
        "traces_validated_against_impl": sum(s["executions"] for s in scen),
        "samples": samples[:40] or ["none"],
        "exhaustive_within": chk.get("bounds", ""),
        "scenarios": scen,
    }
    if err:
        cov["error"] = err
    if viol:
        cov["violation"] = viol
    json.dump({"property": pid, "tier": tier, "seed": seed,
               "level": "model_checking", "coverage": cov,
               "wall_s": round(time.time() - T0, 2)}, open(ev, "w"), indent=1)
    if not only and not only_unit:
        for k in hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known[k]))
    if rc == 2:
        print("ERROR", err)
    elif rc == 1:
        print("violation: %s/%s: %s" % (viol["unit"], viol["scenario"], viol["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, viol["replay"]))
    else:
        print("%s ok: %d executions, %d states, %d transitions, %.1fs" % (
            pid, cov["traces_validated_against_impl"], cov["states"],
            cov["transitions"], time.time() - T0))
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
