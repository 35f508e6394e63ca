#!/usr/bin/env python3
"""determinism.py [COUNT [PROP..]]: one seed is one execution.

Runs the same seeds of each property in several processes, with different
numbers of worker threads and in different batches, and in a loaded process,
and compares every recorded plan (each fault, context switch, message fate)
and outcome. A development tool; `replay_differed` in the evidence is the
part of it that each check repeats."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402
import simlib  # noqa: E402

count = int(sys.argv[1]) if len(sys.argv) > 1 else 200
props = sys.argv[2:] or list(check.QUICK)
bad = 0
for v in ("checked", "release"):
    exe = simlib.build(v)
    for p in props:
        def run(lo, n, threads):
            code, out = simlib.run([exe, "trace", p, "99", str(lo), str(n), str(threads)], timeout=600)
            if code:
                simlib.die("%s: %s" % (p, out[-500:]))
            return out.splitlines()
        ref = run(0, count, 1)
        others = {"8 threads": run(0, count, 8), "3 threads": run(0, count, 3),
                  "two batches": run(0, count // 2, 2) + run(count // 2, count - count // 2, 5)}
        for what, o in others.items():
            if o != ref:
                bad += 1
                d = [(a, b) for a, b in zip(ref, o) if a != b]
                print("%s %s: %d of %d differ with %s, e.g. %s" % (v, p, len(d), count, what, d[:1]))
        assert len(ref) == count
    print(v, "done")
print("determinism:", "differences" if bad else "%d seeds of each of %d properties, two builds, 4 arrangements: all alike" % (count, len(props)))
sys.exit(1 if bad else 0)
