"""Runs one plan in several builds of the simulator and compares what it comes to."""

import copy
import time

import simlib


def outcomes(exes, file):
    out = {}
    for v, exe in exes.items():
        code, o = simlib.run([exe, "replay", file], timeout=60, cpu=40)
        out[v] = o.strip() if code in (0, 1) else "ended with %s: %s" % (code, o.strip()[-200:])
    return out


def shrink(plan, bad, secs):
    """Removes steps and faults as long as the builds still differ."""
    until = time.time() + secs

    def lists(p):
        for q in [p] + p.get("parts", []):
            yield q, "steps"
            yield q, "messages"
            for s in q.get("steps", []):
                yield s, "faults"
        yield p, "parts"

    changed = True
    while changed and time.time() < until:
        changed = False
        i = 0
        while i < len(list(lists(plan))) and time.time() < until:
            o, k = list(lists(plan))[i]
            size = len(o.get(k, []))
            while size >= 1 and time.time() < until:
                j = 0
                while True:
                    o, k = list(lists(plan))[i]
                    if j >= len(o.get(k, [])) or time.time() > until:
                        break
                    small = copy.deepcopy(plan)
                    o2, _ = list(lists(small))[i]
                    del o2[k][j:j + size]
                    # A plan without steps stands for its seed.
                    if (small.get("steps") or small.get("parts")) and bad(small):
                        plan = small
                        changed = True
                    else:
                        j += size
                size //= 2
            i += 1
    return plan
