#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by simulation.

VERIF_SEED chooses the seeds, VERIF_TIER quick or thorough the effort.
Exit 0: held on everything explored. Exit 1: "VIOLATION property=.. replay=..".
"""

import array
import json
import os
import re
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import compare  # noqa: E402
import simlib  # noqa: E402

# Cases per check in the quick tier, by property.
QUICK = {
    "C01": 500_000, "C02": 400_000, "C03": 500_000, "C04": 500_000, "C05": 220_000,
    "C06": 500_000, "C07": 50_000, "C08": 60_000, "C09": 70_000, "C10": 50_000,
    "C11": 56_000, "C12": 50_000, "C13": 70_000, "C14": 400_000, "C15": 400_000,
    "C16": 400_000, "C17": 120_000, "C18": 120_000, "C19": 24_000, "C20": 400_000,
    "C24": 360_000, "C25": 50_000, "C26": 44_000, "C27": 24_000,
    "C21": 200_000, "C22": 70_000, "C23": 70_000, "C28": 50_000, "C29": 160_000, "C30": 300_000, "C31": 80_000, "C32": 60_000,
    "C33": 200_000, "C34": 120_000, "C35": 50_000, "C36": 16_000, "C37": 120_000,
    "C38": 100_000,
    "C39": 30_000, "C40": 120_000,
}
ACROSS = ["checked", "release", "nostd"]
RATE_HINT = 250  # seconds after which a quick check stops, whatever its count
THOROUGH_SECS = 3600

RULE = (
    "A case is a seed. The seed fixes the configuration (durability mode, number of leaves present from the "
    "start, key universe, actors), the operations, the rates of every fault kind, each single fault, and each "
    "scheduling choice. Two executions are distinct if the hash over every storage call (key, kind), every fault "
    "that fired, every result and, in concurrent and replicated runs, every scheduling choice or message differs. "
    "One is non-trivial if it made at least 4 storage calls and met at least one of: an injected storage fault "
    "that fired, a crash, a reload from storage, a snapshot, a context switch between actors inside an operation, "
    "or a message lost, duplicated, delayed, damaged or cut off by a partition."
)

STUBS = {
    "real": [
        "fuel_merkle::binary::MerkleTree, ::in_memory, Position/PositionPath/Subtree, hashing",
        "fuel_merkle::sparse::MerkleTree, ::in_memory, StorageNode, hashing",
        "fuel_merkle::sum::MerkleTree",
        "fuel_merkle::common::StorageMap (as the medium of one run in three, always in C23, and as scratch storage of binary trees)",
        "fuel_merkle::common::Position, PositionPath, AsPathIterator (by the walking process of C21, and in all binary trees)",
        "fuel_merkle_test_helpers::binary::verify (the verifier of the light client in C20, and in C37)",
        "fuel_merkle_test_helpers::binary::MerkleTree (the streaming prover of C37)",
        "sha2, digest, hashbrown, fuel-storage",
    ],
    "stub": [
        "the disk: a simulated store behind fuel_storage::StorageInspect/StorageMutate, with durability modes",
        "the network, the replication and fetching protocols and the virtual clock (C19, C20, C36): the simulator's",
        "the thread scheduler (C05, C12, C17, C18, C26, C29, C38, C39): real threads, one running at a time, switched at storage calls only",
    ],
}


def union(d, name):
    s = set()
    for f in os.listdir(d):
        if f.startswith(name + "."):
            a = array.array("Q")
            p = os.path.join(d, f)
            a.fromfile(open(p, "rb"), os.path.getsize(p) // 8)
            s.update(a)
    return len(s)


def known_findings(prop):
    """(class, text) of the findings listed for a property."""
    out = []
    try:
        with open(os.path.join(simlib.VERIF, "known-findings.txt")) as f:
            for line in f:
                if line.startswith("finding: property=%s " % prop):
                    out.append(line.strip())
    except OSError:
        pass
    return out


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.seed &= (1 << 64) - 1
        self.t0 = time.time()
        self.threads = max(2, min(16, os.cpu_count() or 8))
        self.dir = tempfile.mkdtemp(prefix="sim-%s-" % prop)
        self.results = []
        self.digests = {}
        self.compared = 0

    def violation(self, exe, found, variant, index):
        """Minimises, confirms in a fresh process, reports."""
        rep = os.path.join(simlib.VERIF, "replays")
        os.makedirs(rep, exist_ok=True)
        final = os.path.join(rep, "%s-%s-%d-%d.json" % (self.prop, variant, self.seed, index))
        small = os.path.join(self.dir, "small.json")
        simlib.run([exe, "shrink", found, small, "25"], timeout=90)
        for f in [small, found]:
            if not os.path.exists(f):
                continue
            code, out = simlib.run([exe, "replay", f], timeout=120)
            if code not in (0, 2):
                shutil.copy(f, final)
                print(out.strip())
                break
        else:
            # The recorded plan does not reproduce; the seed itself must.
            with open(final, "w") as f:
                json.dump({"property": self.prop, "variant": variant, "seed": self.case_seed(exe, index),
                           "kind": "generated from the seed"}, f)
            code, out = simlib.run([exe, "replay", final], timeout=120)
            if code in (0, 2):
                out = self.chain(exe, variant, index, final) or simlib.die(
                    "a violation was seen but does not replay: " + found)
            print(out.strip())
        self.evidence(1)
        print("VIOLATION property=%s replay=%s" % (self.prop, final))
        sys.stdout.flush()
        sys.exit(1)

    def chain(self, exe, variant, index, final):
        """Every case is a function of its seed unless the library keeps state
        outside its trees. Then a sequence of cases in one process shows it:
        search for a short one."""
        def attempt(lo, hi, secs):
            code, out = simlib.run([exe, "chain", self.prop, variant, str(self.seed), str(lo), str(hi)], timeout=secs)
            m = re.search(r"case (\d+):", out)
            return (int(m.group(1)), out) if code == 1 and m else None

        for lo, hi, secs in [(max(0, index - 400), index + 1, 60), (0, index + 1, 150), (0, index + 100_000, 150)]:
            r = attempt(lo, hi, secs)
            if not r:
                continue
            best = (lo, r[0], r[1])
            back = 0
            while best[1] - back > best[0]:
                q = attempt(best[1] - back, best[1] + 1, 60)
                if q:
                    best = (best[1] - back, q[0], q[1])
                    break
                back = 2 * back + 1
            with open(final, "w") as f:
                json.dump({"property": self.prop, "variant": variant, "kind": "cases run one after another in one process",
                           "chain": {"seed": self.seed, "from": best[0], "to": best[1] + 1}}, f)
            return best[2]
        return None

    def case_seed(self, exe, index):
        _, out = simlib.run([exe, "seed", self.prop, str(self.seed), str(index)], timeout=20)
        return int(out.strip())

    def died(self, exe, variant, code):
        """The batch ended abnormally: find the case that does it."""
        p = os.path.join(self.dir, "progress")
        a = array.array("Q")
        a.fromfile(open(p, "rb"), os.path.getsize(p) // 8)
        rep = os.path.join(simlib.VERIF, "replays")
        os.makedirs(rep, exist_ok=True)
        for index in sorted(x - 1 for x in a if x):
            s = self.case_seed(exe, index)
            f = os.path.join(rep, "%s-%s-%d-%d.json" % (self.prop, variant, self.seed, index))
            with open(f, "w") as fh:
                json.dump({"property": self.prop, "variant": variant, "seed": s,
                           "kind": "generated from the seed"}, fh)
            code, out = simlib.run([exe, "replay", f], timeout=90, cpu=20, gb=12)
            if code is None:
                # The clock says so; a stopped or busy machine looks the same.
                code, out = simlib.run([exe, "replay", f], timeout=120, cpu=20, gb=12)
            if code == 0 or code == 2:
                os.remove(f)
                continue
            if code == 1:
                print(out.strip())
            elif code is None or code in (-9, -24):
                print("violation: property=%s class=hang: the run does not end within 20 s of CPU time" % self.prop)
            else:
                print("violation: property=%s class=abort: the process is killed by signal %s: %s"
                      % (self.prop, -code, out.strip()[-300:]))
            self.evidence(1)
            print("VIOLATION property=%s replay=%s" % (self.prop, f))
            sys.stdout.flush()
            sys.exit(1)
        return "the simulator ended with %s and no single case explains it" % code

    def batch(self, variant, start, count, secs, again=True):
        exe = simlib.build(variant)
        args = [exe, "batch", self.prop, variant, str(self.seed), str(start), str(count),
                str(secs), str(self.threads), self.dir]
        code, out = simlib.run(args, timeout=secs + 240, gb=24)
        res = os.path.join(self.dir, "result.%s.json" % variant)
        if code in (0, 1) and os.path.exists(res):
            r = json.load(open(res))
            # Result files of several rounds must not overwrite one another.
            os.rename(res, res + ".%d" % start)
            for n in ("nontrivial", "traces", "states", "schedules"):
                p = os.path.join(self.dir, "%s.%s" % (n, variant))
                os.rename(p, p + ".%d" % start)
            d = os.path.join(self.dir, "digest." + variant)
            if os.path.exists(d):
                self.digests[variant] = array.array("Q")
                self.digests[variant].fromfile(open(d, "rb"), os.path.getsize(d) // 8)
            self.results.append(r)
            if code == 1:
                self.violation(exe, r["found"], variant, r["found_index"])
            return
        if code == 2:
            simlib.die("simulator: " + out.strip()[-2000:])
        why = self.died(exe, variant, code)
        if not again:
            simlib.die(why)
        # No case does it: something outside ended the batch.
        self.batch(variant, start, count, secs, again=False)

    # C27: the same cases in every build.

    def across(self, start, count, secs):
        for v in ACROSS:
            self.batch(v, start, count, secs)
        a = self.digests[ACROSS[0]]
        for v in ACROSS[1:]:
            b = self.digests[v]
            for i in range(count):
                # 0: not run (out of time)
                if a[i] and b[i]:
                    self.compared += 1
                    if a[i] != b[i]:
                        self.differs(start + i, ACROSS[0], v)

    def differs(self, index, va, vb):
        exes = {v: simlib.build(v) for v in (va, vb)}
        f = os.path.join(self.dir, "plan.json")

        def outcome(plan):
            with open(f, "w") as fh:
                json.dump(plan, fh)
            return compare.outcomes(exes, f)

        def differ(plan):
            o = outcome(plan)
            return o[va] != o[vb]

        simlib.run([exes[va], "record", self.prop, va, str(self.seed), str(index), f], timeout=120)
        plan = json.load(open(f))
        if differ(plan):
            plan = compare.shrink(plan, differ, 60)
        else:
            plan = {"property": self.prop, "variant": va, "seed": self.case_seed(exes[va], index),
                    "kind": "generated from the seed"}
            if not differ(plan):
                simlib.die("builds %s and %s differ in case %d, but not when it is replayed" % (va, vb, index))
        plan["builds"] = [va, vb]
        o = outcome(plan)
        plan["violation"] = {"class": "builds-differ", "message": "; ".join("%s: %s" % (v, o[v]) for v in (va, vb))}
        rep = os.path.join(simlib.VERIF, "replays")
        os.makedirs(rep, exist_ok=True)
        final = os.path.join(rep, "%s-%d-%d.json" % (self.prop, self.seed, index))
        with open(final, "w") as fh:
            json.dump(plan, fh, indent=1)
        print("violation: property=%s class=builds-differ: %s" % (self.prop, plan["violation"]["message"]))
        self.evidence(1)
        print("VIOLATION property=%s replay=%s" % (self.prop, final))
        sys.stdout.flush()
        sys.exit(1)

    def evidence(self, violations):
        n = {}
        for r in self.results:
            for k, v in r["counters"].items():
                n[k] = n.get(k, 0) + v
        runs = sum(r["runs"] for r in self.results)
        ms = max(1, sum(r["wall_ms"] for r in self.results))
        faults = {k: v for k, v in n.items()
                  if k.startswith("fault_") or k in ("crash", "crash_lost_writes", "node_lost_at_rest", "partition",
                                                     "message_lost", "message_duplicated", "message_delayed",
                                                     "message_damaged", "message_cut_by_partition",
                                                     "message_to_dead_node", "restart", "context_switches")}
        cov = {
            "evaluations": runs,
            "distinct_nontrivial": union(self.dir, "nontrivial"),
            "rule": RULE,
            "samples": [s for r in self.results for s in r["samples"]][:4],
            "distinct_executions": union(self.dir, "traces"),
            "distinct_states": union(self.dir, "states"),
            "distinct_states_measure": "distinct pairs (root of a tree, number of its leaves) the oracle compared",
            "distinct_thread_schedules": union(self.dir, "schedules"),
            "faults_injected": faults,
            "maxima": {k: max(r.get("maxima", {}).get(k, 0) for r in self.results)
                       for k in {k for r in self.results for k in r.get("maxima", {})}},
            "probes": {k: v for k, v in n.items() if k not in faults},
            "runs_per_hour": int(runs * 3600_000 / ms),
            "seeds_per_hour": int(runs * 3600_000 / ms),
            "simulated_time": {
                "storage_calls": n.get("storage_calls", 0),
                "virtual_ms": n.get("virtual_ms", 0),
                "note": "the library has no clock: its time is counted in storage calls; replicated runs (C19, C20) also have a virtual clock",
            },
            "first_case": 0,
            "base_seed": self.seed,
            "variants": {r["variant"]: {"runs": sum(x["runs"] for x in self.results if x["variant"] == r["variant"]),
                                        "build": simlib.VARIANTS[r["variant"]][2]} for r in self.results},
            "determinism": {"runs_replayed_from_their_record": n.get("replayed_for_determinism", 0),
                            "of_these_different": n.get("replay_differed", 0)},
            "components": STUBS,
        }
        if self.prop == "C27":
            cov["cases_compared_between_builds"] = self.compared
            cov["determinism"] = {"runs_repeated_in_the_same_process": n.get("repeated_alike", 0), "of_these_different": 0}
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": [
                "the storage behaves as one of the modelled durability modes; calls fail cleanly, or after taking effect, or not at all",
                "SHA-256 as computed by the sha2 crate is collision free on everything generated",
                "sampling: a clean batch is evidence, not proof",
            ],
            "wall_s": round(time.time() - self.t0, 2),
            "violations": violations,
        }
        d = os.path.join(simlib.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.json.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(d, self.prop + ".json"))
        self.runs = runs

    def main(self):
        if self.tier == "quick":
            scale = float(os.environ.get("VERIF_SCALE", "1"))
            total = max(200, int(QUICK[self.prop] * scale))
            if self.prop == "C27":
                self.across(0, total, RATE_HINT)
            else:
                a, b = total * 6 // 10, total * 9 // 10
                if self.prop == "C37":
                    b = total  # the test helpers exist with std only
                self.batch("checked", 0, a, RATE_HINT)
                self.batch("release", a, b - a, RATE_HINT)
                if b < total:
                    self.batch("nostd", b, total - b, RATE_HINT)
        else:
            secs = int(os.environ.get("VERIF_SECONDS", THOROUGH_SECS))
            # Rounds, so that the sets of hashes stay of bounded size.
            last = "release" if self.prop == "C37" else "nostd"
            start, order, left = 0, ["checked", "release", "checked", last], secs
            step = max(QUICK[self.prop] * 4, 20_000)
            i = 0
            while left > 0:
                t = time.time()
                if self.prop == "C27":
                    self.across(start, QUICK[self.prop], max(5, int(left / 3)))
                    left -= time.time() - t
                    start += QUICK[self.prop]
                    continue
                self.batch(order[i % 4], start, step, max(5, int(left)))
                left -= time.time() - t
                start += step
                i += 1
        self.evidence(0)
        d = self.results
        print("property=%s held: %d runs, %.0f s" % (self.prop, sum(r["runs"] for r in d), time.time() - self.t0))


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in QUICK:
        simlib.die("usage: check.py PROPERTY")
    c = Check(sys.argv[1])
    try:
        c.main()
    except simlib.BuildError as e:
        simlib.die("the simulator does not build against %s:\n%s" % (simlib.REPO, e))
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


if __name__ == "__main__":
    main()
