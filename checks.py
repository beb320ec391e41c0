"""The check of each property."""
import json, os, time

import special
import vlib
from vlib import GB, Job, TARGET, build_all, env, read_json, run_jobs

# (exhaustive level, random cases) for the quick and the thorough tier.
TIERS = {
    "P01": ((5, 200_000), (6, 6_000_000)), "P02": ((5, 200_000), (6, 6_000_000)),
    "P03": ((5, 160_000), (6, 5_000_000)), "P04": ((6, 200_000), (7, 6_000_000)),
    "P05": ((5, 200_000), (6, 6_000_000)), "P06": ((5, 200_000), (6, 5_000_000)),
    "P07": ((5, 160_000), (6, 5_000_000)), "P08": ((5, 160_000), (6, 5_000_000)),
    "P09": ((5, 160_000), (6, 5_000_000)), "P10": ((5, 100_000), (6, 3_000_000)),
    "P11": ((5, 100_000), (6, 3_000_000)), "P12": ((5, 100_000), (6, 3_000_000)),
    "P13": ((5, 80_000), (6, 2_000_000)), "P14": ((6, 160_000), (7, 5_000_000)),
    "P15": ((5, 160_000), (7, 5_000_000)), "P16": ((5, 160_000), (6, 5_000_000)),
    "P17": ((5, 64_000), (6, 2_000_000)), "P19": ((4, 60_000), (5, 2_000_000)),
}

RULE = ("Exhaustive part: every ordered tree shape up to the given number of nodes, built by several different "
        "histories, followed by every operation that is relevant for the property with every choice of nodes, "
        "positions and entry points. Random part: seeded histories of up to some hundred operations (biased to the "
        "operations of the property, with misuse, injected panics, several forests, all ID types, and trees of up to "
        "thousands of nodes), each operation executed on the real library and on a model in lockstep. One evaluation is "
        "one operation executed and judged; it counts as distinct and non-trivial by a hash of the operation, its "
        "entry point, its outcome and the relation and surroundings of the nodes involved (operations that were skipped "
        "because they were not applicable never count).")


def is_crash(j):
    return j.rc is not None and (j.rc < 0 or j.rc in (42, 101, 134, 139))


def monitor(c, prop, bins, level, cases, wall, case_cpu=90):
    """Runs the lockstep monitor in every given build and merges what it observed."""
    jobs, meta = [], {}
    share = max(1, 8 // len(bins))
    for b, (name, path) in enumerate(bins.items()):
        for w in range(share):
            base = os.path.join(c.tmp, f"{name}.{w}")
            seed = c.seed * 16 + b
            args = [path, "run", prop, "--seed", str(seed), "--workers", str(share), "--cases", str(cases // len(bins)),
                    "--level", str(level), "--wall", str(wall), "--case-cpu", str(case_cpu), "--long", "1", "--out", base + ".json"]
            j = Job(args + ["--worker", str(w), "--replay", base + ".replay", "--cur", base + ".cur"],
                    tag=name, wall=wall + 120)
            meta[id(j)] = (base, args, name)
            jobs.append(j)
    run_jobs(jobs)
    for j in jobs:
        base, args, name = meta[id(j)]
        if j.rc == 1 and "VIOLATED" in j.out:
            msg = next(x for x in j.out.splitlines() if x.startswith("VIOLATED"))
            c.violate(f"[{name}] {msg}", src=base + ".replay")
        elif j.timed_out:
            c.inconclusive.append(f"{name} worker exceeded its wall time limit")
        elif is_crash(j):
            crash(c, j, base, args, name)
        elif j.rc != 0:
            c.inconclusive.append(f"{name} worker ended with status {j.rc}: {j.out[-300:]}")
    merge(c, [(meta[id(j)][2], read_json(meta[id(j)][0] + ".json")) for j in jobs], level)


def crash(c, j, base, args, name):
    """A worker died: is it due to the case it was running?"""
    try:
        no = int(open(base + ".cur").read().split()[0])
    except (OSError, ValueError, IndexError):
        c.inconclusive.append(f"{name} worker died with status {j.rc} before its first case: {j.out[-300:]}")
        return
    rep = base + ".only"
    k = Job(args[:args.index("--workers")] + args[args.index("--cases"):] +
            ["--workers", "1", "--worker", "0", "--only", str(no), "--replay", rep], wall=600, tag=name).run()
    what = {42: "does not come to an end", -6: "aborts", -11: "crashes (SIGSEGV)", 134: "aborts"}.get(k.rc, f"ends with status {k.rc}")
    if k.rc == 1 and "VIOLATED" in k.out:
        c.violate(f"[{name}] {k.out.strip()[-500:]}", src=rep)
    elif is_crash(k) and not k.timed_out:
        c.violate(f"[{name}] VIOLATED case {no}: the process {what}: {k.out.strip()[-300:]}", src=rep)
    else:
        c.inconclusive.append(f"{name} worker died with status {j.rc} in case {no}, which did not repeat alone: {j.out[-300:]}")


def merge(c, parts, level):
    cov = c.cov
    sigs, shapes = set(), set()
    cov["builds"] = {}
    for name, d in parts:
        if d is None:
            continue
        for k in ("histories", "ops", "observations", "events", "abandoned", "harness_panics", "exhaustive_cases"):
            cov[k] = cov.get(k, 0) + d[k]
        cov["max_live_nodes"] = max(cov.get("max_live_nodes", 0), d["max_live"])
        cov["builds"][name] = cov["builds"].get(name, 0) + d["histories"]
        for k, v in d["by_kind"].items():
            cov.setdefault("by_operation_and_outcome", {})
            cov["by_operation_and_outcome"][k] = cov["by_operation_and_outcome"].get(k, 0) + v
        sigs.update(d["sigs"])
        shapes.update(d["shapes"])
        for s in d["samples"]:
            if len(cov.setdefault("samples", [])) < 6:
                cov["samples"].append(s)
        for s in d["abandon_samples"]:
            if len(cov.setdefault("abandoned_because", [])) < 3:
                cov["abandoned_because"].append(s)
        if d["timed_out"]:
            cov["stopped_by_time"] = cov.get("stopped_by_time", 0) + 1
    cov["evaluations"] = cov.get("ops", 0) - cov.get("by_operation_and_outcome", {}).get("skipped", 0)
    cov["distinct_nontrivial"] = len(sigs)
    cov["distinct_forest_shapes"] = len(shapes)
    cov["exhaustive_up_to_nodes"] = level
    cov["rule"] = RULE
    if cov.get("harness_panics"):
        c.inconclusive.append(f"{cov['harness_panics']} histories ended by a panic of the monitor itself")


BUILDS = {"release": dict(profile="release"), "checked": dict(profile="checked", args=("--features", "fat")),
          "plain": dict(profile="release", args=("--features", "plain"))}
OTHERS = {"types": dict(profile="checked", binary="treena-types"), "marathon": dict(profile="release", binary="treena-marathon")}
MORE = {"types-release": dict(profile="release", binary="treena-types"),
        "marathon-checked": dict(profile="checked", binary="treena-marathon")}


def lockstep(prop):
    def f(c):
        level, cases = TIERS[prop][0 if c.quick else 1]
        both = build_all({**BUILDS, **OTHERS, **({} if c.quick else MORE)})
        bins = {k: both[k] for k in BUILDS}
        others = lambda kind: [v for k, v in both.items() if k.startswith(kind)]
        c.assumptions = ["The model in base/src/model.rs is the specification.",
                         "The library is observed through its public interface only."]
        if prop in ("P10", "P11", "P13"):
            interleavings(c, prop, bins["checked"])
        if prop != "P06":
            payloads(c, prop, others("types"))
        marathon(c, prop, others("marathon"))
        monitor(c, prop, bins, level, cases, 240 if c.quick else 600)
    return f


def interleavings(c, prop, binary):
    lv, ml = (6, 12) if c.quick or prop == "P11" else (7, 14)
    jobs = []
    for w in range(8):
        base = os.path.join(c.tmp, f"inter.{w}")
        jobs.append(Job([binary, "inter", prop, "--level", str(lv), "--maxlen", str(ml), "--worker", str(w),
                         "--workers", "8", "--out", base + ".json", "--replay", base + ".replay"], tag=base))
    run_jobs(jobs)
    tot = {}
    for j in jobs:
        if j.rc == 1 and "VIOLATED" in j.out:
            c.violate(j.out.strip()[-800:], src=j.tag + ".replay")
        elif j.rc != 0 or j.timed_out:
            c.inconclusive.append(f"interleaving worker ended with status {j.rc}")
        for k, v in (read_json(j.tag + ".json") or {}).items():
            if k != "wall":
                tot[k] = tot.get(k, 0) + v
    tot["rule"] = (f"all interleavings of front and back steps with peeks, of all sequences of at most {ml} items, "
                   f"on all trees of at most {lv} nodes, 3 construction histories each")
    c.cov["exhaustive_interleavings"] = tot


def payloads(c, prop, binaries):
    """All kinds of payloads, with user code that uses other forests."""
    jobs = []
    n = 30_000 if c.quick else 1_200_000
    for w in range(8):
        path = binaries[w % len(binaries)]
        base = os.path.join(c.tmp, f"types.{w}")
        jobs.append(Job([path, prop, str(c.seed), str(n), str(w), "8", base + ".json", base + ".replay"], tag=base, wall=400))
    run_jobs(jobs)
    tot = {}
    for j in jobs:
        if j.rc == 1 and "VIOLATED" in j.out:
            c.violate(next(x for x in j.out.splitlines() if x.startswith("VIOLATED"))[:1600], src=j.tag + ".replay")
        elif is_crash(j) and j.rc != 101 and not j.timed_out:
            c.violate(f"VIOLATED the run with all kinds of payloads ends with status {j.rc}", text=" ".join(j.cmd))
        elif j.rc != 0 or j.timed_out:
            c.inconclusive.append(f"payload worker ended with status {j.rc}: {j.out[-200:]}")
        add(tot, read_json(j.tag + ".json") or {})
    tot["rule"] = ("histories over 15 payload types, judged in lockstep with a model; clones, drops, printing, hooks, mappings "
                   "and builder closures use other forests, which are judged in the same way")
    c.cov["payload_types_and_reentrancy"] = tot


def marathon(c, prop, binaries):
    """Few forests with millions of operations each: wide, deep, many nodes, many operations."""
    jobs = []
    n = 3_000_000 if c.quick else 15_000_000
    for w in range(8):
        path = binaries[w % len(binaries)]
        base = os.path.join(c.tmp, f"marathon.{w}")
        jobs.append(Job([path, prop, str(c.seed), str(n), str(w), "8", base + ".json", base + ".replay"], tag=base, wall=400))
    run_jobs(jobs)
    tot = {}
    for j in jobs:
        if j.rc == 1 and "VIOLATED" in j.out:
            c.violate(next(x for x in j.out.splitlines() if x.startswith("VIOLATED"))[:1600], src=j.tag + ".replay")
        elif is_crash(j) and j.rc != 101 and not j.timed_out:
            c.violate(f"VIOLATED the run with long histories ends with status {j.rc}", text=" ".join(j.cmd))
        elif j.rc != 0 or j.timed_out:
            c.inconclusive.append(f"marathon worker ended with status {j.rc}: {j.out[-200:]}")
        add(tot, read_json(j.tag + ".json") or {})
    tot["rule"] = ("eight forests with a history of millions of operations each (few nodes, hundreds of thousands of nodes, wide, "
                   "deep), every operation compared with the model around the nodes involved, and the whole forest again and again")
    c.cov["long_histories"] = tot


def add(tot, d):
    for k, v in d.items():
        if isinstance(v, dict):
            add(tot.setdefault(k, {}), v)
        elif isinstance(v, int):
            tot[k] = max(tot.get(k, 0), v) if k == "distinct" else tot.get(k, 0) + v


CHECKS = {p: lockstep(p) for p in TIERS}
CHECKS.update(special.CHECKS)
