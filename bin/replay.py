#!/usr/bin/env python3
"""replay.py FILE [-v]: replays a violation against the working tree of /repo.

Exit 1 if it is still there, 0 if not."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import compare  # noqa: E402
import simlib  # noqa: E402

if len(sys.argv) < 2:
    simlib.die("usage: replay.py FILE [-v]")
plan = json.load(open(sys.argv[1]))
if plan.get("builds"):
    # A difference between builds
    try:
        o = compare.outcomes({v: simlib.build(v) for v in plan["builds"]}, sys.argv[1])
    except simlib.BuildError as e:
        simlib.die(str(e))
    for v in o:
        print("%s: %s" % (v, o[v]))
    sys.exit(1 if len(set(o.values())) > 1 else 0)
variant = plan.get("variant") or "checked"
try:
    exe = simlib.build(variant if variant in simlib.VARIANTS else "checked")
except simlib.BuildError as e:
    simlib.die(str(e))
code, out = simlib.run([exe, "replay", sys.argv[1]] + sys.argv[2:3], timeout=200, cpu=60, quiet=True)
print(out, end="")
if code not in (0, 1, 2):
    print("the process ended with %s" % code)
    code = 1
sys.exit(code)
