#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on /repo's current tree (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE      re-execute a recorded violation

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.  Anything else: the check itself failed.
"""
import collections, glob, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("JASS_SIM_BUILD", os.path.join(HERE, "_build"))
SIM = os.path.join(BUILD, "jass_sim")
sys.path.insert(0, HERE)
from props import PROPS, SHARED_ASSUMPTIONS

T0 = time.time()


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def build():
    r = subprocess.run([sys.executable, os.path.join(HERE, "build.py")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-5000:])
        die("the build failed")


def load(prefix):
    d = {}
    for f in sorted(glob.glob(prefix + ".[0-9]*")):
        with open(f) as h:
            for l in h:
                try:
                    r = json.loads(l)
                except ValueError:
                    die("unreadable result line in " + f)
                d[r["i"]] = r
    return d


def run_batch(prop, seed, tag, count=None, secs=None, workers=8, indices=None, thorough=False, start=0):
    prefix = os.path.join(BUILD, "res", tag)
    os.makedirs(os.path.dirname(prefix), exist_ok=True)
    for f in glob.glob(prefix + ".*"):
        os.unlink(f)
    cmd = [SIM, "run", prop, "--seed", str(seed), "--workers", str(workers), "--out", prefix, "--start", str(start)]
    if thorough:
        cmd.append("--thorough")
    if count:
        cmd += ["--count", str(count)]
    if secs:
        cmd += ["--time", "%.1f" % secs]
    if indices is not None:
        cmd += ["--indices", ",".join(map(str, indices))]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:])
        die("the simulator failed (exit %d)" % r.returncode)
    return load(prefix)


def write_plan(path, prop, rec, thorough, drop=(), sched=None, faults=None, record=False, comment=()):
    with open(path, "w") as f:
        for c in comment:
            f.write("# " + c.replace("\n", " ") + "\n")
        f.write("prop %s\nseed %d\nindex %d\nthorough %d\nrecord %d\n" % (prop, rec["seed"], rec["i"], thorough, record))
        for d in drop:
            f.write("drop %d\n" % d)
        for s in sched or ():
            f.write("sched %d %d %d\n" % tuple(s))
        for s in faults or ():
            f.write("fault %d %d %d %d %d\n" % tuple(s))


def replay(path, timeout=200):
    out = path + ".out"
    try:
        r = subprocess.run([SIM, "replay", path, "--out", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    if r.returncode not in (0, 1):
        return None
    try:
        with open(out) as f:
            res = json.loads(f.readline())
    except (OSError, ValueError):
        return None
    os.unlink(out)
    return res


def symbolise(msg):
    pcs = sorted(set(re.findall(r"0x[0-9a-f]{5,8}\b", msg)))
    if not pcs:
        return msg
    try:
        r = subprocess.run(["addr2line", "-f", "-C", "-i", "-e", SIM] + ["0x%x" % (int(p, 16) - 1) for p in pcs[:40] for _ in (0,)], stdout=subprocess.PIPE, text=True, timeout=60)
        locs = {}
        for p in pcs[:16]:
            q = subprocess.run(["addr2line", "-f", "-C", "-e", SIM, "0x%x" % (int(p, 16) - 1)], stdout=subprocess.PIPE, text=True, timeout=60).stdout.split("\n")
            if len(q) >= 2 and not q[1].startswith("??"):
                locs[p] = "%s (%s)" % (q[0][:80], q[1].split("/repo/")[-1].split("/verif/")[-1])
        return re.sub(r"0x[0-9a-f]{5,8}\b", lambda m: locs.get(m.group(0), m.group(0)), msg)
    except Exception:
        return msg


class Minimiser:
    def __init__(self, prop, rec, thorough, secs):
        self.prop, self.rec, self.thorough = prop, rec, thorough
        self.end = time.time() + secs
        self.path = os.path.join(BUILD, "res", "min.plan")
        self.tries = 0

    def test(self, drop, sched, faults, record=False):
        self.tries += 1
        write_plan(self.path, self.prop, self.rec, self.thorough, drop, sched, faults, record)
        r = replay(self.path)
        if r and not r["ok"] and r["class"] == self.rec["class"]:
            return r
        return None

    def ddmin(self, items, fails):
        """items: list; fails(subset) -> truthy while the failure persists"""
        n = 2
        while len(items) >= 1 and time.time() < self.end:
            size = max(1, len(items) // n)
            reduced = False
            for i in range(0, len(items), size):
                cand = items[:i] + items[i + size:]
                if time.time() > self.end:
                    break
                if fails(cand):
                    items = cand
                    n = max(n - 1, 2)
                    reduced = True
                    break
            if not reduced:
                if size == 1:
                    break
                n = min(n * 2, len(items))
        return items

    def run(self):
        drop, best = [], self.rec
        total = self.rec.get("items", 0)
        if total:
            # dropping workload items moves every later step, so the schedule is re-drawn from the seed while doing so
            state = {"best": best, "drop": []}

            def fails(kept):
                d = sorted(set(range(total)) - set(kept))
                r = self.test(d, None, None, record=True)
                if r:
                    state["best"], state["drop"] = r, d
                return r
            self.ddmin(list(range(total)), fails)
            best, drop = state["best"], state["drop"]
        sched, faults = best["sched"], best["fault_list"]
        if not self.test(drop, sched, faults):
            drop, sched, faults = [], self.rec["sched"], self.rec["fault_list"]
            if not self.test(drop, sched, faults):
                return None
        if self.test(drop, [], faults):
            sched = []
        if self.test(drop, sched, []):
            faults = []
        faults = self.ddmin(faults, lambda c: self.test(drop, sched, c))
        sched = self.ddmin(sched, lambda c: self.test(drop, c, faults))
        return drop, sched, faults


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == prop]


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        build()
        with open(sys.argv[2]) as f:
            text = f.read()
        prop = re.search(r"^prop (\S+)", text, re.M).group(1)
        a, b = replay(sys.argv[2]), replay(sys.argv[2])
        if not a or not b or a["hash"] != b["hash"]:
            die("the replay is not deterministic")
        if a["ok"]:
            print("the recorded violation does not occur on this tree")
            sys.exit(0)
        print("%s: %s" % (a["class"], symbolise(a["msg"])))
        print("VIOLATION property=%s replay=%s" % (prop, sys.argv[2]))
        sys.exit(1)

    prop = sys.argv[1]
    if prop not in PROPS:
        die("no such property: " + prop)
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    thorough = tier == "thorough"
    evidence = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    print("%s: %s tier, VERIF_SEED=%d" % (prop, tier, seed))
    build()
    t_build = time.time() - T0

    secs = cfg["thorough_s"] if thorough else cfg["quick_s"]
    count = cfg.get("thorough_n", 10 ** 8) if thorough else cfg.get("quick_n", 10 ** 7)
    t1 = time.time()
    res = run_batch(prop, seed, prop, count=count, secs=secs, thorough=thorough)
    wall = time.time() - t1
    if not res:
        die("no run completed")
    simerr = [r for r in res.values() if not r["ok"] and r["class"] == "simulator"]

    # determinism: the same seeds again, in other processes, on another number of workers, in another order
    ok = [i for i, r in sorted(res.items()) if r["ok"]]
    k = cfg.get("recheck", 160)
    budget = max(5.0, secs * 0.25)
    pick, tot = [], 0.0
    stride = max(1, len(ok) // k)
    for i in ok[::stride]:
        if tot + res[i]["wall"] > budget * 5 or len(pick) >= k:
            break
        tot += res[i]["wall"]
        pick.append(i)
    pick.reverse()
    again = run_batch(prop, seed, prop + "-again", workers=5, indices=pick, thorough=thorough) if pick else {}
    diverged = [i for i in again if again[i]["hash"] != res[i]["hash"]]

    bad = [r for r in res.values() if not r["ok"] and r["class"] != "simulator"]
    known = known_findings(prop)
    reported, suppressed = [], collections.Counter()
    fresh = []
    for r in bad:
        m = [k for k in known if k["class"] == r["class"] and re.search(k["match"], symbolise(r["msg"]))]
        if m:
            suppressed[m[0]["what"]] += 1
        else:
            fresh.append(r)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    unreproduced = []
    byclass = collections.defaultdict(list)
    for r in fresh:
        byclass[r["class"]].append(r)
    deadline = T0 + (3000 if thorough else 620)
    for cls in sorted(byclass, key=lambda c: -len(byclass[c])):
        if reported and time.time() > deadline - 200:
            break
        cand = sorted(byclass[cls], key=lambda r: (len(r["sched"]) + 20 * len(r["fault_list"]) + 5 * r["items"], r["i"]))
        done = False
        for r in cand[:3]:
            # gate 1: the same seed again gives the same execution
            rerun = run_batch(prop, seed, prop + "-gate", workers=1, indices=[r["i"]], thorough=thorough).get(r["i"])
            if not rerun or rerun["ok"] or rerun["hash"] != r["hash"]:
                unreproduced.append(r)
                continue
            # gate 2: the recorded trace, replayed in fresh processes
            full = os.path.join(HERE, "replays", "%s-%s-full.replay" % (prop, r["hash"]))
            write_plan(full, prop, r, thorough, sched=r["sched"], faults=r["fault_list"])
            a, b = replay(full), replay(full)
            if not a or not b or a["ok"] or b["ok"] or a["class"] != r["class"] or a["hash"] != b["hash"]:
                unreproduced.append(r)
                continue
            path = os.path.join(HERE, "replays", "%s-%s.replay" % (prop, r["hash"]))
            m = Minimiser(prop, r, thorough, min(90.0, max(10.0, deadline - time.time() - 60))).run()
            final = None
            if m:
                drop, sched, faults = m
                write_plan(path, prop, r, thorough, drop, sched, faults)
                x, y = replay(path), replay(path)
                if x and y and not x["ok"] and not y["ok"] and x["class"] == r["class"] and x["hash"] == y["hash"]:
                    final = x
                    write_plan(path, prop, r, thorough, drop, sched, faults, comment=["%s: %s" % (x["class"], symbolise(x["msg"])), "workload: " + x["sample"],
                        "minimised from %d to %d workload items, %d to %d scheduling decisions, %d to %d faults" % (r["items"], r["items"] - len(drop), len(r["sched"]), len(sched), len(r["fault_list"]), len(faults))])
            if final is None:
                path, final = full, a
            else:
                os.unlink(full)
            km = [k for k in known if k["class"] == final["class"] and re.search(k["match"], symbolise(final["msg"]))]
            if km:
                suppressed[km[0]["what"]] += 1
                done = True
                break
            reported.append((path, final, r))
            done = True
            break
        if done and len(reported) >= 3:
            break
    # each reported violation has reproduced twice on its own; anything else wrong with the batch is an error of the check
    if diverged and not reported:
        die("runs %s of seed %d are not deterministic" % (diverged[:5], seed))
    if simerr and not reported:
        die("simulator error: " + simerr[0]["msg"])
    if fresh and not reported and not suppressed:
        die("a violation was seen but did not reproduce: %s" % [(r["i"], r["class"], r["msg"][:200]) for r in unreproduced[:3]])

    # evidence
    faults, probes = collections.Counter(), collections.Counter()
    for r in res.values():
        for a, b in r["faults"].items():
            faults[a] += b
        for a, b in r["probes"].items():
            probes[a] += b
    vals = list(res.values())
    distinct = {(r["sched_hash"], r["hash"]) for r in vals if r["nontrivial"]}
    samples = []
    for r in sorted(vals, key=lambda r: r["i"])[:200]:
        if r["nontrivial"] and len(samples) < 4:
            samples.append({"run": r["i"], "seed": r["seed"], "workload": r["sample"], "steps": r["steps"], "context_switches": r["switches"], "faults": r["faults"], "event_hash": r["hash"]})
    if not samples:
        r = min(vals, key=lambda r: r["i"])
        samples.append({"run": r["i"], "seed": r["seed"], "workload": r["sample"], "event_hash": r["hash"]})
    cov = {
        "evaluations": sum(r["evals"] for r in vals),
        "simulated_runs": len(vals),
        "distinct_nontrivial": len(distinct),
        "rule": cfg["rule"] + " Counted by distinct event-log hash.",
        "samples": samples,
        "runs_per_hour": round(len(vals) / max(wall, 1e-9) * 3600),
        "simulated_seconds": round(sum(r["sim_ns"] for r in vals) / 1e9, 3),
        "process_lifetimes": sum(r["phases"] for r in vals),
        "scheduling_steps": sum(r["steps"] for r in vals),
        "single_thread_steps": sum(r["st_steps"] for r in vals),
        "context_switches": sum(r["switches"] for r in vals),
        "distinct_interleavings_by_switch_trace": len({r["sched_hash"] for r in vals if r["switches"]}),
        "distinct_scenario_signatures": len({r["sig"] for r in vals}),
        "threads_started": sum(r["threads"] for r in vals),
        "allocations": sum(r["allocs"] for r in vals),
        "file_operations": sum(r["disk_ops"] for r in vals),
        "faults_fired": dict(sorted(faults.items())),
        "probes": dict(sorted(probes.items())),
        "determinism_rechecked_runs": len(again),
        "determinism_divergences": len(diverged),
        "real_components": cfg["real"],
        "stubbed_components": cfg.get("stub", "thread scheduler, clock, heap placement, file system and standard input are the simulator's; zlib, libstdc++ and libc string code run uninstrumented"),
        "build_s": round(t_build, 1),
        "known_findings_seen": dict(suppressed),
    }
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
               "assumptions": SHARED_ASSUMPTIONS + cfg.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(reported)},
              open(evidence, "w"), indent=1)
    print("%d simulated runs (%d distinct non-trivial, %d interleavings), %d context switches, %d faults fired, %d re-checked for determinism; build %.0f s, search %.0f s" %
          (len(vals), len(distinct), cov["distinct_interleavings_by_switch_trace"], cov["context_switches"], sum(faults.values()), len(pick), t_build, wall))
    for k in known:
        if suppressed[k["what"]] or k.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for path, x, r in reported:
        print("run %d (seed %d): %s: %s" % (r["i"], r["seed"], x["class"], symbolise(x["msg"])))
        print("workload: " + x["sample"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.exit(1 if reported else 0)


main()
