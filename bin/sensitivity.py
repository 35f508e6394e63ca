#!/usr/bin/env python3
"""sensitivity.py [-p PROP,PROP..] [-s SCALE] [-j N] PATCH...

Applies each patch to a scratch copy of /repo, builds the simulator against it
and says which properties' simulations report a violation (and after how many
runs). A development tool: no check uses it. `revert:<commit>` instead of a
patch file undoes a commit."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib  # noqa: E402
import check  # noqa: E402

TOP = os.environ.get("SENS_TOP", "/tmp/sens")
props = list(check.QUICK)
scale, jobs, patches = 1.0, 4, []
a = sys.argv[1:]
while a:
    x = a.pop(0)
    if x == "-p":
        props = a.pop(0).split(",")
    elif x == "-s":
        scale = float(a.pop(0))
    elif x == "-j":
        jobs = int(a.pop(0))
    else:
        patches.append(x)

slots = queue.Queue()
for i in range(jobs):
    slots.put(i)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(patch):
    slot = slots.get()
    try:
        d = os.path.join(TOP, "s%d" % slot)
        os.makedirs(d, exist_ok=True)
        repo, sim = os.path.join(d, "repo"), os.path.join(d, "sim")
        for p in (repo, sim):
            shutil.rmtree(p, ignore_errors=True)
        sh(["git", "clone", "-q", "/repo", repo])
        if patch.startswith("revert:"):
            r = sh(["git", "-C", repo, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-commit", patch[7:]])
        elif patch == "none":
            r = sh(["true"])
        else:
            r = sh(["git", "-C", repo, "apply", os.path.abspath(patch)])
        if r.returncode:
            return patch, "does not apply: " + r.stdout
        shutil.copytree(simlib.SIM, sim, ignore=shutil.ignore_patterns("target"))
        t = open(os.path.join(sim, "Cargo.toml")).read().replace('"/repo', '"' + repo)
        open(os.path.join(sim, "Cargo.toml"), "w").write(t)
        env = simlib.environment()
        exes = {}
        for v in ("checked", "release") + (("nostd",) if "C27" in props else ()):
            profile, extra, _ = simlib.VARIANTS[v]
            env["CARGO_TARGET_DIR"] = os.path.join(d, "target")
            r = sh(["cargo", "build", "--offline", "--quiet", "--profile", profile] + extra, cwd=sim, env=env)
            if r.returncode:
                return patch, "does not build: " + r.stdout[-1500:]
            exes[v] = os.path.join(d, "sim-" + v)
            shutil.copy(os.path.join(d, "target", profile, "sim"), exes[v])
        out = []
        for p in props:
            n = max(200, int(check.QUICK[p] * scale))
            k = n * 7 // 10
            hit = None
            if p == "C27":
                ds = []
                for v in exes:
                    w = os.path.join(d, "out")
                    shutil.rmtree(w, ignore_errors=True)
                    os.makedirs(w)
                    code, o = simlib.run([exes[v], "batch", p, v, "1", "0", str(n), "300", str(max(2, 8 // jobs)), w],
                                         timeout=500)
                    if code:
                        hit = "C27: %s in build %s" % (o.strip()[-100:] or code, v)
                        break
                    ds.append(open(os.path.join(w, "digest." + v), "rb").read())
                for x in ds[1:]:
                    for i in range(0, len(x), 8):
                        if x[i:i + 8] != ds[0][i:i + 8] and not hit:
                            hit = "C27: builds differ at case %d" % (i // 8)
                if hit:
                    out.append(hit)
                continue
            for v, start, cnt in (("checked", 0, k), ("release", k, n - k)):
                w = os.path.join(d, "out")
                shutil.rmtree(w, ignore_errors=True)
                os.makedirs(w)
                code, o = simlib.run([exes[v], "batch", p, v, "1", str(start), str(cnt), "300", str(max(2, 8 // jobs)), w],
                                     timeout=500)
                if code == 1:
                    r = json.load(open(os.path.join(w, "result.%s.json" % v)))
                    f = json.load(open(r["found"]))["violation"]
                    hit = "%s: %s at case %d: %s" % (p, f["class"], r["found_index"], f["message"][:110])
                    break
                if code != 0:
                    hit = "%s: ended with %s (%s)" % (p, code, o.strip()[-100:])
                    break
            if hit:
                out.append(hit)
        return patch, "\n   ".join(out) if out else "NOT CAUGHT"
    finally:
        slots.put(slot)


with ThreadPoolExecutor(jobs) as ex:
    for patch, res in ex.map(one, patches):
        print("%s\n   %s" % (patch, res), flush=True)
