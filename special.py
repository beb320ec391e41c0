"""Checks that are not of the lockstep kind."""
import os

import vlib
from vlib import GB, Job, build, build_all, env, read_json, run_jobs


def bins(name, profiles=("release", "checked")):
    return build_all({p: dict(profile=p, binary=name) for p in profiles})


def verdict(c, j, what):
    """Common verdict on a worker of a monitor that prints VIOLATED lines."""
    bad = [x for x in j.out.splitlines() if x.startswith("VIOLATED")]
    if j.rc == 1 and bad:
        c.violate(f"[{what}] {bad[0]}", text="command: " + " ".join(map(str, j.cmd)) + "\n" + j.out[-4000:])
        return False
    if j.timed_out:
        c.inconclusive.append(f"{what}: out of time")
        return False
    if j.rc != 0:
        c.inconclusive.append(f"{what}: status {j.rc}: {j.out[-300:]}")
        return False
    for x in j.out.splitlines():
        if x.startswith("ABANDONED"):
            c.inconclusive.append(f"{what}: {x[:300]}")
    return True


def limits(c):
    """P18: IDs up to and beyond the capacity."""
    r8, r16, big, n = (16, 2, 300_000, 4) if c.quick else (400, 24, 6_000_000, 4)
    b = bins("treena-limits")
    jobs = []
    for name, path in b.items():
        for w in range(n):
            out = os.path.join(c.tmp, f"{name}.{w}.json")
            j = Job([path, str(c.seed), str(r8), str(r16), str(big), out, str(w), str(n)], tag=(name, out),
                    wall=300 if c.quick else 800)
            jobs.append(j)
    run_jobs(jobs)
    seen, caps, cov = set(), set(), c.cov
    for j in jobs:
        name, out = j.tag
        if is_crash(j) and not j.timed_out:
            c.violate(f"[{name}] VIOLATED the process ends with status {j.rc} at an ID limit: {j.out[-300:]}")
        else:
            verdict(c, j, name)
        d = read_json(out) or {}
        for k in ("rounds", "created", "refused", "checked", "moves"):
            cov[k] = cov.get(k, 0) + d.get(k, 0)
        seen.update(f"{name}: {s}" for s in d.get("seen", []))
        caps.update(d.get("capacities", []))
    cov["capacities_seen"] = sorted(caps)
    cov["evaluations"] = cov["created"] + cov["refused"] + cov["moves"]
    cov["distinct_nontrivial"] = len(seen)
    cov["samples"] = sorted(seen)[:6]
    cov["rule"] = ("Forests of every ID type with a reachable capacity (u8, u16, wrappers of both kinds) are filled by "
                   "seeded histories; each of the 13 ways of creating a node meets the limit, then every way is tried "
                   "beyond it; then moves, removals and copies run on the full forest. The large types get hundreds of "
                   "thousands of nodes. Distinct: (build, ID type, way that met the limit, way tried beyond it).")
    c.assumptions = ["The capacity is the documented one (maximum of the integer minus one) or one more.",
                     "The capacities of the 32 and 64 bit types cannot be reached in memory."]


def is_crash(j):
    return j.rc is not None and (j.rc < 0 or j.rc in (101, 134, 139))


DEEP_OPS = """build dft dft_back dft_both shallow shallow_back shallow_both shallow_unlimited bft abft ancestors siblings
debug_print debug_print_debug forest_debug node_debug forest_clone clone_local clone_local_map clone_foreign
clone_foreign_map remove remove_half remove_hooked remove_safe detach detach_single detach_single_root move_under
move_out adopt_deep loop_refused create_deep drop chain_builder nest_builder
iter_dft iter_shallow iter_bft iter_abft iter_up iter_lists""".split()


def deep_size(op, q):
    """Nodes of the tree: less where the cost is quadratic in the depth."""
    if op == "iter_bft":
        return 1500 if q else 6000
    if op == "bft":
        return 6000 if q else 25_000
    if op.startswith(("clone", "chain_b")):
        return 8000 if q else 40_000
    if op.startswith("debug_p"):
        return 2500 if q else 8000
    return 100_000 if q else 2_000_000


def deep(c):
    """P22: degenerate trees and a small stack."""
    fams = ["chain", "star", "comb", "combfirst", "spine", "broom"]
    if not c.quick:
        fams += ["twolevel", "recent", "random", "wide"]
    b = bins("treena-deep", ("dev", "release"))
    stacks = {"dev": [128], "release": [128]} if c.quick else {"dev": [128, 1024], "release": [64, 256]}
    jobs = []
    for name, path in b.items():
        for kib in stacks[name]:
            for op in DEEP_OPS:
                for f in fams:
                    n = deep_size(op, c.quick)
                    for ids in ("usize", "u32") if name == "release" else ("usize",):
                        jobs.append(Job([path, op, f, str(n), str(kib), ids], tag=(name, op, f, n, kib, ids), wall=90, mem=3 * GB))
    failed = []
    run_jobs(jobs, stop_on=lambda j: failed.append(j) or len(failed) > 24 if j.rc != 0 or "wrong" in j.out else False)
    done, slow, kinds = set(), 0, {}
    for j in jobs:
        if j.rc is None:
            continue
        name, op, f, n, kib, ids = j.tag
        what = f"[{name}] {op} on a {f} of {n} nodes ({ids} IDs) with a stack of {kib} KiB"
        if j.timed_out:
            slow += 1
        elif is_crash(j):
            at = "in the operation" if "start" in j.out else "when the tree was built" if "built" not in j.out else "before"
            if "done" in j.out:
                at = "when the forest was dropped"
            if j.rc in (-6, -11, 134, 139) and ("overflow" in j.out or j.rc in (-11, 139)):
                c.violate(f"VIOLATED {what}: stack overflow {at}", text=" ".join(j.cmd) + "\n" + j.out)
            else:
                c.inconclusive.append(f"{what}: status {j.rc}: {j.out[-200:]}")
        elif j.rc != 0 or "wrong" in j.out:
            # Does the same happen on a small tree? Then it is another matter.
            k = Job([b[name], op, f, "150", "1024", ids], wall=60).run()
            if k.rc == 0 and "done" in k.out:
                c.violate(f"VIOLATED {what}: {j.out.strip().splitlines()[-1][:300]} (but not on 150 nodes)",
                          text=" ".join(j.cmd) + "\n" + j.out)
            else:
                c.inconclusive.append(f"{what}: also wrong on a small tree")
        else:
            done.add((name, op, f, kib, ids))
            kinds[op] = kinds.get(op, 0) + 1
    if slow:
        c.inconclusive.append(f"{slow} operations ran out of time")
    c.cov.update(evaluations=len([j for j in jobs if j.rc is not None]), distinct_nontrivial=len(done),
                 by_operation=kinds, families=fams, sizes={o: deep_size(o, c.quick) for o in DEEP_OPS}, stacks_KiB=stacks,
                 samples=[" ".join(map(str, j.tag)) for j in jobs[::max(1, len(jobs) // 6)]],
                 rule="One evaluation is one operation, in a process of its own, on a tree of that family and size, on a thread "
                      "with the given stack, in an unoptimised and an optimised build; its result is compared with that of "
                      "a direct computation. Distinct by (build, operation, family, stack, ID type).")
    c.assumptions = ["A bounded stack is taken to be one within 64 to 128 KiB, which is several times what the library uses."]


def alloc(c):
    """P23: counted allocations."""
    b = bins("treena-alloc", ("dev", "release"))
    rounds = {"dev": 500, "release": 6000} if c.quick else {"dev": 12_000, "release": 200_000}
    jobs = []
    for w in range(8):
        for name, path in b.items():
            out = os.path.join(c.tmp, f"{name}.{w}.json")
            jobs.append(Job([path, str(c.seed * 64 + w), str(rounds[name] // 4), out], tag=(name, out), wall=400))
    run_jobs(jobs, stop_on=lambda j: j.rc == 1)
    cov, by = c.cov, {}
    for j in jobs:
        if j.rc is None:
            continue
        verdict(c, j, j.tag[0])
        d = read_json(j.tag[1]) or {}
        for k in ("trees", "steps", "panics", "distinct"):
            cov[k] = cov.get(k, 0) + d.get(k, 0)
        for k, v in d.get("by_op", {}).items():
            by[k] = by.get(k, 0) + v
        cov.setdefault("samples", []).extend(d.get("samples", [])[:1])
    cov["by_operation"] = by
    cov["evaluations"] = sum(by.values())
    cov["distinct_nontrivial"] = cov.pop("distinct", 0)
    cov["samples"] = cov.get("samples", [])[:6]
    cov["rule"] = ("One evaluation is one call, or one full or partial run of an iterator (any mixture of both ends, with "
                   "peeks and clones of the iterator), under a global allocator that counts the calls of this thread, on a "
                   "seeded tree that has been changed by moves and removals. Distinct by tree, node, and pattern of steps.")
    c.assumptions = ["The allocating breadth-first traversal, printing, cloning, creation and removal may allocate.",
                     "A call that panics is not counted."]


# Sizes per group, and (factor per fourfold size, instructions added) per class.
COST_SIZES = {"traversals": ((1000, 4000, 16000), (1000, 4000, 16000, 64000)), "lists": ((1000, 4000, 16000), (1000, 4000, 16000, 64000, 256000)),
              "changes": ((1000, 4000, 16000), (1000, 4000, 16000, 64000, 256000)), "bulk": ((400, 1600, 6400), (400, 1600, 6400, 25600)),
              "batch": ((1000, 4000, 16000), (1000, 4000, 16000, 64000)),
              "bft": ((200, 800), (200, 800, 3200))}
COST_BOUND = {"constant": (1.0, 400), "linear": (5.0, 400), "loglinear": (6.5, 400), "quadratic": (20.0, 1000)}


def callgrind(c, path, group, n, ids):
    out = os.path.join(c.tmp, f"{group}.{n}.{ids}.cg")
    return Job(["valgrind", "-q", "--tool=callgrind", "--toggle-collect=measured_op", "--dump-after=measured_op",
                "--combine-dumps=yes", "--compress-strings=no", f"--callgrind-out-file={out}", path, group, str(n), ids],
               tag=(group, n, out, ids), wall=700, mem=8 * GB)


def costs_of(j):
    """(class, label, unit) -> cost; the middle one where a label is repeated."""
    labels = [x[2:].split(" ", 1) for x in j.out.splitlines() if x.startswith("M ")]
    try:
        with open(j.tag[2]) as f:
            tot = [int(x.split()[1]) for x in f if x.startswith("totals:")]
    except (OSError, ValueError, IndexError):
        return None
    if not labels or len(tot) not in (len(labels), len(labels) + 1):
        return None
    bytes_ = [int(x[2:]) for x in j.out.splitlines() if x.startswith("A ")]
    d = {}
    for (k, l), t, b in zip(labels, tot, bytes_ if len(bytes_) == len(labels) else [0] * len(labels)):
        d.setdefault((k, l, "instructions"), []).append(t)
        d.setdefault((k, l, "bytes allocated"), []).append(b)
    return {k: sorted(v)[len(v) // 2] for k, v in d.items()}


def cost(c):
    """P24: instructions counted at growing sizes."""
    path = build("release", binary="treena-cost")
    jobs = [callgrind(c, path, g, n, "usize") for g, sz in COST_SIZES.items() for n in sz[0 if c.quick else 1]]
    # Once more with narrow IDs, at the smaller sizes.
    jobs += [callgrind(c, path, g, n, "u32") for g, sz in COST_SIZES.items() for n in sz[0 if c.quick else 1][:-1]]
    jobs += [callgrind(c, path, g, COST_SIZES[g][0][-1], "u32") for g in ("bft",) if c.quick]
    run_jobs(sorted(jobs, key=lambda j: -j.tag[1] * (20 if j.tag[0] in ("bulk", "bft") else 1)))
    res = {}
    for j in jobs:
        d = costs_of(j) if j.rc == 0 else None
        if d is None:
            c.inconclusive.append(f"{j.tag[0]} at {j.tag[1]} nodes: status {j.rc}{' (out of time)' if j.timed_out else ''}: {j.out[-200:]}")
            continue
        for k, v in d.items():
            res.setdefault((j.tag[0], *k, j.tag[3]), []).append((j.tag[1], v))
    worst, distinct, n_eval = {}, 0, 0
    for (g, k, label, unit, ids), pts in sorted(res.items()):
        if k == "unjudged":
            continue
        pts.sort()
        factor, add = COST_BOUND[k]
        if unit != "instructions":
            # The sizes of tables are rounded up, by twice at most.
            factor, add = factor * 2, 4096
        n_eval += len(pts)
        distinct += len(pts) > 1
        for (n1, v1), (n2, v2) in zip(pts, pts[1:]):
            assert n2 == 4 * n1
            # Constant costs may vary a little with the position; they are compared with the smallest size.
            base = pts[0][1] * 1.5 if k == "constant" else v1 * factor
            ratio = v2 / max(1, v1)
            if ratio > worst.get(f"{k}, {unit}", (0,))[0] and v1 > 0:
                worst[f"{k}, {unit}"] = (round(ratio, 3), label, n1, v1, n2, v2)
            # Copying is done by few instructions for many bytes at some sizes.
            if v2 > base + add and len(c.violations) < 4 and (k != "linear" or v2 > (40 if unit == "instructions" else 400) * n2):
                c.violate(f"VIOLATED {label} ({k}, {ids} IDs): " + ", ".join(f"{v} {unit} at {n} nodes" for n, v in pts),
                          text=f"cd /verif; valgrind --tool=callgrind --toggle-collect=measured_op {path} {g} {n2} {ids}\n{label}: {pts}")
                break
    c.cov.update(evaluations=n_eval, distinct_nontrivial=distinct, worst_growth_per_fourfold_size=worst, bounds=COST_BOUND,
                 sizes={g: s[0 if c.quick else 1] for g, s in COST_SIZES.items()},
                 samples=[f"{k[2]} ({k[1]}, {k[4]} IDs): {v}" for k, v in list(sorted(res.items()))[::max(1, len(res) // 6)]],
                 rule="One evaluation is the number of instructions (callgrind, optimised build), or of bytes asked of the allocator, of one operation in one tree family at "
                      "one size, and is judged against the next smaller size; distinct by operation, variant and family. Median of "
                      "several where a table may grow.")
    c.assumptions = ["Bounds leave room for constant factors: they tell complexity classes apart, not small slowdowns.",
                     "A violation needs the growth to show at these sizes."]


def traces(c):
    """P25: the same histories in several builds, with several ID types, repeatedly."""
    specs = {"dev": dict(profile="dev"), "release": dict(profile="release"), "checked": dict(profile="checked"),
             "nostd": dict(profile="release", args=("--no-default-features",)),
             "nostd-dev": dict(profile="dev", args=("--no-default-features",))}
    if not c.quick:
        specs["nightly"] = dict(profile="release", toolchain=vlib.NIGHTLY)
    b = build_all({k: dict(v, binary="treena-trace") for k, v in specs.items()})
    cases, parts = (6000, 4) if c.quick else (160_000, 8)
    runs = [(k, 0) for k in b] + [("release", 1)]
    jobs = []
    for name, rep in runs:
        for w in range(parts):
            out = os.path.join(c.tmp, f"{name}.{rep}.{w}")
            j = Job([b[name], "run", str(c.seed), str(cases), str(w), str(parts), out], tag=(name, rep, out),
                    environ=env(LC_ALL="C", RUST_BACKTRACE="1") if rep else None, wall=400 if c.quick else 840)
            jobs.append(j)
    run_jobs(sorted(jobs, key=lambda j: "dev" not in j.tag[0]))

    def show(x, y, case, kx=0, ky=0):
        """The first difference of two traces."""
        px, py = (Job([b[n], "show", str(c.seed), str(case), str(k)], wall=60).run() for n, k in ((x, kx), (y, ky)))
        lx, ly = px.out.splitlines(), py.out.splitlines()
        i = next((i for i, (p, q) in enumerate(zip(lx, ly)) if p != q), min(len(lx), len(ly)))
        head = "\n".join(lx[max(0, i - 3):i])
        d = [l[i][:300] if i < len(l) else f"(ends; status {p.rc})" for l, p in ((lx, px), (ly, py))]
        return f"line {i}: {d[0]!r} and {d[1]!r}", f"seed {c.seed} case {case}\n{head}\n{x} ({kx}): {d[0]}\n{y} ({ky}): {d[1]}\n"

    seen, ref, dist, lines = {}, {}, set(), 0
    for j in jobs:
        name, rep, out = j.tag
        shown = [x.split() for x in j.out.splitlines() if x.startswith("SHOW ")]
        for line, sh in list(zip((x for x in j.out.splitlines() if x.startswith("VIOLATED")), shown))[:1]:
            if len(c.violations) < 3:
                d, text = show(name, name, sh[2], 0, sh[3])
                c.violate(f"[{name}] {line}: {d}", text=text)
        if j.timed_out or j.rc not in (0, 1):
            c.inconclusive.append(f"{name}: status {j.rc}{' (out of time)' if j.timed_out else ''}: {j.out[-200:]}")
        try:
            rows = [x.split() for x in open(out)]
        except OSError:
            continue
        for case, h, size, _, panics in rows:
            lines += 1
            if h not in dist and int(size) > 200:
                dist.add(h)
            key = int(case)
            if key not in ref:
                ref[key] = (h, name)
            elif ref[key][0] != h and len(c.violations) < 3:
                d, text = show(ref[key][1], name, case)
                c.violate(f"VIOLATED case {case}: builds {ref[key][1]} and {name} (repetition {rep}) differ at {d}", text=text)
            seen.setdefault(name, [0, 0, 0])
            seen[name][0] += 1
            seen[name][1] += int(size)
            seen[name][2] += int(panics) > 0
    c.cov.update(evaluations=lines * 4, distinct_nontrivial=len(dist), histories=len(ref),
                 per_build={k: dict(traces=v[0], characters=v[1], with_refused_operations=v[2]) for k, v in seen.items()},
                 samples=[f"treena-trace show {c.seed} {k} 0: trace hash {v[0]}" for k, v in list(ref.items())[:4]],
                 rule="One evaluation is one history in one build with one ID type (of seven, in turn), whose full trace "
                      "(outcomes, structure after each step, a traversal or print) is compared with that of the other builds, of "
                      "other ID types and of a repetition. Distinct by the trace's hash.")
    c.assumptions = ["Panic messages are not compared, only that and when a call panics.",
                     "Behaviour after a panic in the hook of remove_hooked is not specified and not compared."]


def memory(c):
    """P20: Miri, AddressSanitizer, and the allocator's balance."""
    triple = "x86_64-unknown-linux-gnu"
    other = os.path.join(vlib.VERIF, "other")
    b = build_all({
        "asan": dict(profile="checked", binary="treena-hostile", args=("--bin", "treena-types"), toolchain=vlib.NIGHTLY, triple=triple,
                     RUSTFLAGS="-Zsanitizer=address"),
        "release": dict(profile="release", binary="treena-hostile"), "dev": dict(profile="dev", binary="treena-hostile")})
    # Cases per worker, and operations per case.
    miri_cases, asan, plain = (80, 9000, 20_000) if c.quick else (900, 160_000, 400_000)

    vlib.fresh(os.path.join(vlib.TARGET, "miri"))

    def miri_env(flags):
        return env(vlib.NIGHTLY, CARGO_TARGET_DIR=os.path.join(vlib.TARGET, "miri"), MIRIFLAGS="-Zmiri-disable-isolation " + flags)

    def miri(args, flags, tag, binary="treena-hostile"):
        return Job(["cargo", "miri", "run", "-q", "--offline", "--bin", binary, "--", *map(str, args)], tag=tag, cwd=other,
                   environ=miri_env(flags), mem=None, wall=500 if c.quick else 850)

    for j in (miri((c.seed, 0, 0, 1, 1), "", None), miri(("NONE", c.seed, 0, 0, 1, "/dev/null", "/dev/null"), "", None, "treena-types")):
        if j.run().rc != 0:
            raise vlib.Broken("the monitor does not build for Miri: " + j.out[-2000:])
    jobs = []
    for w in range(6):
        out = os.path.join(c.tmp, f"miri.{w}")
        tree = w >= 3
        # Miri may use another schedule and address choice per run; the seed is fixed per worker.
        k = miri((c.seed + 1000, miri_cases * 6, w, 6, 24), f"-Zmiri-seed={c.seed * 8 + w}" + (" -Zmiri-tree-borrows" if tree else ""),
                 ("miri, tree borrows" if tree else "miri, stacked borrows", out))
        k.cmd.append(out)
        jobs.append(k)
    # All kinds of payloads; wrong results are the business of other properties.
    kinds = 15 * (2 if c.quick else 24)
    for w in range(2):
        out = os.path.join(c.tmp, f"miri.kinds.{w}")
        jobs.append(miri(("NONE", c.seed + 2000, kinds, w, 2, out, out + ".replay"), f"-Zmiri-seed={c.seed * 8 + 6 + w}"
                         + (" -Zmiri-tree-borrows" if w else ""), ("miri, kinds of payloads", out), "treena-types"))
        out = os.path.join(c.tmp, f"asan.kinds.{w}")
        jobs.append(Job([os.path.join(os.path.dirname(b["asan"]), "treena-types"), "NONE", str(c.seed + 3000), str(kinds * 200), str(w), "2",
                         out, out + ".replay"], tag=("asan, kinds of payloads", out), mem=None, wall=500 if c.quick else 850,
                        environ=env(ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_stack_use_after_return=1")))
    for name, n, mo in (("asan", asan, 70), ("release", plain, 70), ("dev", plain // 4, 70)):
        for w in range(2):
            out = os.path.join(c.tmp, f"{name}.{w}")
            e = env(ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_stack_use_after_return=1") if name == "asan" else None
            jobs.append(Job([b[name], str(c.seed + w * 7), str(n), "0", "1", str(mo), out], tag=(name, out), environ=e,
                            mem=None if name == "asan" else 4 * GB, wall=500 if c.quick else 850))
    run_jobs(jobs)
    by, per = {}, {}
    for j in jobs:
        name, out = j.tag
        last = [x for x in j.out.splitlines() if x.startswith("case ")][-1:]
        text = "command: " + " ".join(map(str, j.cmd)) + f"\nlast: {last}\n" + j.out[-6000:]
        find = next((x for x in j.out.splitlines() if "Undefined Behavior" in x or "memory leaked" in x or "ERROR: AddressSanitizer" in x
                     or "unsafe precondition" in x), None)
        if find:
            c.violate(f"VIOLATED [{name}] {last[0] if last else ''}: {find.strip()[:300]}", text=text)
        elif j.rc == 1 and "VIOLATED" in j.out:
            verdict(c, j, name)
        elif not j.timed_out and j.rc in (-11, -6, -7, -4, 139, 134) and not name.startswith("miri"):
            c.violate(f"VIOLATED [{name}] {last[0] if last else ''}: the process ends with signal {j.rc}: {j.out[-200:].strip()}", text=text)
        elif j.timed_out or j.rc != 0:
            c.inconclusive.append(f"{name}: status {j.rc}{' (out of time)' if j.timed_out else ''}: {j.out[-300:]}")
        d = read_json(out) or {}
        p = per.setdefault(name, dict(histories=0, operations=0))
        p["histories"] += d.get("histories", 0)
        for k, v in d.get("by_op", {}).items():
            by[k] = by.get(k, 0) + v
            p["operations"] += v
    c.cov.update(evaluations=sum(p["operations"] for p in per.values()), distinct_nontrivial=sum(p["histories"] for p in per.values()),
                 per_checker=per, by_operation_and_outcome=by,
                 samples=[" ".join(map(str, j.cmd[-6:])) + f" under {j.tag[0]}" for j in jobs[::3]],
                 rule="One evaluation is one operation of a seeded hostile history (misuse, IDs of other forests and just beyond the "
                      "end, panics of clone, drop, print and callbacks at any call, several forests, all ID types) watched by "
                      "the checker named. Distinct: histories (their seeds differ). The balance of allocated bytes and blocks "
                      "after the last drop is checked outside Miri, which has a leak check of its own.")
    c.assumptions = ["Miri and AddressSanitizer see errors on executed paths only."]


def threads(c):
    """P21: Send and Sync, races, and what concurrent readers see."""
    triple = "x86_64-unknown-linux-gnu"
    other = os.path.join(vlib.VERIF, "other")
    cov = c.cov
    probe = build("release", binary="treena-probe")
    j = Job([probe]).run()
    for x in [x for x in j.out.splitlines() if x.startswith("VIOLATED")][:3]:
        c.violate(f"{x} ({probe})", text=j.out)
    if j.rc not in (0, 1):
        c.inconclusive.append(f"the probe of Send and Sync ended with status {j.rc}")
    types = int(next((x.split()[1] for x in j.out.splitlines() if x.startswith("TYPES")), 0))
    cov.update(evaluations=types, distinct_nontrivial=types, types_probed=types)
    cov["rule"] = ("Types: each public type with each ID type and data of every combination of Send and Sync, against what must hold. "
                   "Reads: one evaluation is one read operation (of 16 kinds) by one of several threads on one forest, whose result "
                   "is compared with that of a single thread on a forest of its own with the same history; plus forests changed by "
                   "threads in turn. ThreadSanitizer and Miri (with preemption, several seeds) watch for data races.")
    c.assumptions = ["Schedules are those the machine and Miri's seeded scheduler happened to take; the interleavings counted are hashes of the forest and the sampled order in which threads read."]
    rel, text = build("release", binary="treena-threads", ok_fail=True)
    if rel is None:
        if "E0277" in text and "threads safely" in text:
            line = next(x for x in text.splitlines() if "threads safely" in x)
            if not c.violations:
                c.violate(f"VIOLATED a forest cannot be used by threads: {line.strip()}", text=text[-6000:])
            return
        raise vlib.Broken("the thread monitor does not build: " + text[-2000:])
    if c.violations:
        return
    specs = {"tsan": dict(profile="checked", binary="treena-threads", toolchain=vlib.NIGHTLY, triple=triple, args=("-Zbuild-std",),
                          RUSTFLAGS="-Zsanitizer=thread"),
             "dev": dict(profile="dev", binary="treena-threads")}
    b = dict(build_all(specs), release=rel)
    vlib.fresh(os.path.join(vlib.TARGET, "miri"))

    def miri(args, flags, tag):
        return Job(["cargo", "miri", "run", "-q", "--offline", "--bin", "treena-threads", "--", *map(str, args)], tag=tag, cwd=other,
                   environ=env(vlib.NIGHTLY, CARGO_TARGET_DIR=os.path.join(vlib.TARGET, "miri"), MIRIFLAGS="-Zmiri-disable-isolation " + flags),
                   mem=None, wall=400 if c.quick else 800)

    j = miri((c.seed, 0, 1, 1, 1), "", None).run()
    if j.rc != 0:
        raise vlib.Broken("the thread monitor does not build for Miri: " + j.out[-2000:])
    # (rounds, threads, reads of each, nodes)
    q = c.quick
    plan = [("release", (150 if q else 4000, 8, 4000, 60)), ("release", (400 if q else 9000, 4, 3000, 8)),
            ("dev", (30 if q else 600, 8, 2000, 60)), ("tsan", (80 if q else 1500, 8, 800, 60)), ("tsan", (200 if q else 3000, 3, 600, 8))]
    wide, narrow = [], []
    for k, (name, p) in enumerate(plan):
        out = os.path.join(c.tmp, f"{name}.{k}")
        e = env(TSAN_OPTIONS="exitcode=66:halt_on_error=1:history_size=4") if name == "tsan" else None
        wide.append(Job([b[name], str(c.seed + k * 50), *map(str, p), out], tag=(name, out), environ=e, mem=None, wall=300 if q else 800))
    for w in range(6 if q else 48):
        out = os.path.join(c.tmp, f"miri.{w}")
        k = miri((c.seed * 64 + w, 2 if q else 8, 3, 16, 6), f"-Zmiri-seed={c.seed * 64 + w} -Zmiri-preemption-rate={(0.02, 0.1, 0.3)[w % 3]}", ("miri", out))
        k.cmd.append(out)
        narrow.append(k)
    # The multithreaded ones have the machine to themselves, two at a time.
    run_jobs(wide, par=2)
    run_jobs(narrow, par=6)
    per, by = {}, {}
    for j in wide + narrow:
        name, out = j.tag
        find = next((x for x in j.out.splitlines() if "WARNING: ThreadSanitizer" in x or "Undefined Behavior" in x or "Data race" in x), None)
        if find:
            c.violate(f"VIOLATED [{name}] {find.strip()[:300]}", text="command: " + " ".join(map(str, j.cmd)) + "\n" + j.out[-8000:])
        else:
            verdict(c, j, name)
        d = read_json(out) or {}
        p = per.setdefault(name, {})
        for k in ("reads", "moves", "rounds", "overlapping", "orders"):
            p[k] = p.get(k, 0) + d.get(k, 0)
        for k, v in d.get("by_kind", {}).items():
            by[k] = by.get(k, 0) + v
    cov.update(evaluations=types + sum(p["reads"] + p["moves"] for p in per.values()),
               distinct_nontrivial=types + sum(p["orders"] for p in per.values()), per_checker=per, reads_by_kind=by,
               distinct_interleavings=sum(p["orders"] for p in per.values()),
               overlapping_reads=sum(p["overlapping"] for p in per.values()),
               samples=[" ".join(map(str, j.cmd[-7:-1])) for j in wide + narrow[:2]])


BARE_TARGETS = ["thumbv6m-none-eabi", "armebv7r-none-eabihf", "x86_64-unknown-none", "powerpc-unknown-linux-gnu", "s390x-unknown-linux-gnu"]


def bare_result(text):
    """What a run of treena-bare wrote: case number -> what it showed; and whether it came to the end."""
    res, ended = {}, False
    for line in text.splitlines():
        f = line.split()
        if len(f) == 4 and f[0].isdigit() and len(f[1]) == 16:
            res[int(f[0])] = line
        elif line.startswith("PANIC"):
            res["panic"] = line
        elif line == "END":
            ended = True
    return res, ended


def bare(c):
    """P26: the same histories with the standard library, without it, and on targets that have none."""
    crate = "nostd"
    quiet = dict(crate=crate, binary="treena-bare", RUSTFLAGS="-Awarnings")
    host = build_all({"barehost": dict(profile="dev", args=("--features", "host"), **quiet)})["barehost"]
    host_release = build_all({"barehost": dict(profile="release", args=("--features", "host"), **quiet)})["barehost"]
    built = {}
    for profile in ("dev", "release"):
        path, log = build("bare", profile=profile, ok_fail=True, **quiet)
        if path:
            built[profile] = path
        elif "linking with" in log or "could not compile" not in log:
            raise vlib.Broken(f"the program without std does not link: {log[-1500:]}")
        else:
            e = next((x for x in log.splitlines() if x.startswith("error")), "")
            c.violate(f"VIOLATED [{profile}] does not compile with default-features = false for a program without std, and does with std: {e}",
                      text="cd /verif/nostd && cargo build --offline\n" + log[-6000:])
            c.cov.update(evaluations=1, distinct_nontrivial=1)
            return
    # Cases per worker.
    native, miri_cases = (12_000, 30) if c.quick else (150_000, 70)
    targets = BARE_TARGETS[:2] if c.quick else BARE_TARGETS
    cwd = os.path.join(vlib.VERIF, crate)
    td = os.path.join(vlib.TARGET, "miribare")
    vlib.fresh(td)
    e = env(vlib.NIGHTLY, CARGO_TARGET_DIR=td, MIRI_NO_STD="1", RUSTFLAGS="-Awarnings",
            XDG_CACHE_HOME=os.path.join(vlib.TARGET, "miri-sysroots"),
            MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-disable-validation")
    miri = lambda t, first, n, tag: Job(["cargo", "miri", "run", "-q", "--offline", "--target", t, "--", "run", str(c.seed), str(first), str(n)],
                                        cwd=cwd, environ=e, mem=None, wall=600 if c.quick else 840, tag=tag)
    first = run_jobs([miri(t, 0, 0, t) for t in targets], par=4)
    jobs = []
    for j in first:
        if j.rc == 0 and "END" in j.out:
            continue
        if "could not compile `treena`" in j.out:
            x = next((x for x in j.out.splitlines() if x.startswith("error")), "")
            c.violate(f"VIOLATED [{j.tag}] does not compile for a target without std: {x}", text=" ".join(j.cmd) + "\n" + j.out[-6000:])
            targets = [t for t in targets if t != j.tag]
        else:
            raise vlib.Broken(f"no interpreter for {j.tag}: {j.out[-1500:]}")
    # The cases with the standard library are what the others are held against.
    par = 8
    for w in range(par):
        t = targets[w % len(targets)] if targets else None
        if t:
            jobs.append(miri(t, w * miri_cases, miri_cases, (t, w * miri_cases, miri_cases)))
    for w in range(4):
        for name, path in list(built.items()) + [("host, release", host_release)]:
            jobs.append(Job([path, "run", str(c.seed), str(w * native), str(native)], tag=(name, w * native, native), mem=4 * GB, wall=600, keep=GB))
    base = run_jobs([Job([host, "run", str(c.seed), str(w * native), str(native)], tag=w, mem=4 * GB, wall=600, keep=GB) for w in range(4)])
    want = {}
    for j in base:
        r, ended = bare_result(j.out)
        if j.rc != 0 or not ended:
            raise vlib.Broken(f"the histories do not run with std: {j.out[-500:]}")
        want.update(r)
    run_jobs(jobs)
    per, lines = {}, {}
    for j in jobs:
        name, a, n = j.tag
        r, ended = bare_result(j.out)
        p = per.setdefault(name, dict(histories=0))
        p["histories"] += len([k for k in r if k != "panic"])
        cmd = " ".join(map(str, j.cmd))
        bad = next((k for k in r if k != "panic" and r[k] != want.get(k)), None)
        if bad is not None:
            c.violate(f"VIOLATED [{name}] case {bad}: shows {r[bad]!r}, with std {want.get(bad)!r}",
                      text=f"{cmd}\n{host} show {c.seed} {bad}\ncompare the same 'show' of the build named\n")
        elif "panic" in r or (j.rc != 0 and not j.timed_out):
            c.violate(f"VIOLATED [{name}] ends with status {j.rc} after {len(r)} cases: {r.get('panic') or j.out[-200:].strip()}",
                      text=cmd + "\n" + j.out[-6000:])
        elif j.timed_out or not ended:
            c.inconclusive.append(f"{name}: status {j.rc}, {len(r)} of {n} cases")
        for k, x in r.items():
            if k != "panic":
                lines[k] = int(x.split()[3])
    c.cov.update(evaluations=sum(p["histories"] for p in per.values()), distinct_nontrivial=len(set(want.values())),
                 per_configuration=per, lines_of_observation=sum(lines.values()), samples=[want[k] for k in list(want)[:5]],
                 rule="One evaluation is one legal history (its ID type by the number of the case) run in the configuration named, with "
                      "everything it shows (IDs, outcomes, values, neighbours, walks, prints) compared by hash with the same history "
                      "run with the standard library. Distinct: histories that show different things.")
    c.assumptions = ["The targets without std are interpreted by Miri with a sysroot of core and alloc; 16-bit targets do not fit its address space."]


CHECKS = {"P18": limits, "P20": memory, "P21": threads, "P22": deep, "P23": alloc, "P24": cost, "P25": traces, "P26": bare}
