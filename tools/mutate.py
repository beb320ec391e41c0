"""Mechanical mutants of the library against the mixed lockstep monitor (not a check; a search for blind spots).

usage: mutate.py OUT WORKERS [FILE-PART]   Mutants that neither the monitor nor the tests kill are listed in OUT.
"""
import os, re, shutil, subprocess, sys, threading, queue, json

REPO, VERIF = "/repo", "/verif"
SCR = "/tmp/mut"
ENV = {**{k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}, "CARGO_NET_OFFLINE": "true",
       "PATH": "/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin", "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu"}

SWAPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
         (r" && ", " || "), (r" \|\| ", " && "), (r"\+ 1\b", "+ 2"), (r"- 1\b", "- 0"), (r"\+= 1\b", "+= 0"), (r"-= 1\b", "-= 0"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
         (r"\bfirst_child\b", "last_child"), (r"\blast_child\b", "first_child"), (r"\bnext_sibling\b", "prev_sibling"),
         (r"\bprev_sibling\b", "next_sibling"), (r"\bOpen\(", "Close("), (r"\bClose\(", "Open("), (r"= Some\((.*)\);", "= None;"),
         (r"\bif !", "if "), (r"\bif (?!let|!)(.*) \{$", r"if true {"), (r"\bif (?!let|!)(.*) \{$", r"if false {"),
         (r"\bself\.first\b", "self.last"), (r"\bself\.last\b", "self.first"), (r"\.next\(", ".next_back("), (r"\.next_back\(", ".next("),
         (r"\.rev\(\)", ""), (r"\bSome\(([a-z_.]+)\)$", "None"), (r"\bpush_back\b", "push_front"), (r"\bpop_front\b", "pop_back"),
         (r"\bNone\b", "Some(self.first)"), (r"\bFirstChildOf\b", "LastChildOf"), (r"\bLastChildOf\b", "FirstChildOf"),
         (r"\bPreviousSiblingOf\b", "NextSiblingOf"), (r"\bNextSiblingOf\b", "PreviousSiblingOf"), (r"\?;$", ".ok();"),
         (r"saturating_sub\(", "wrapping_add("), (r"\b0\b", "1"), (r"\bmax\(", "min("), (r"\bmin\(", "max("), (r"\.take\(\)", ".clone()"),
         (r"\bReverse\b", "Forward"), (r"\.unwrap_or\((.*?)\)", ".unwrap_or_default()"),
         (r"\bor_else\b", "and_then"), (r"\bchecked_sub\b", "checked_add"), (r"return Some\(.*\);", "return None;"),
         (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"return Err\(.*\);", "return Ok(());"), (r"Err\(.*\)\?;", "();")]


def mutants(part):
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)
            if part and part not in rel:
                continue
            ls = open(p).read().split("\n")
            depth, in_macro_doc = 0, False
            for i, l in enumerate(ls):
                s = l.strip()
                if s.startswith("#[cfg(test)]"):
                    break
                if not s or s.startswith(("//", "#[", "#![", "use ", "pub use", "mod ", "pub mod", "pub struct", "struct", "impl", "debug_assert", "assert")):
                    continue
                if "expect(" in s and s.startswith(".expect"):
                    continue
                seen = set()
                for a, b in SWAPS:
                    for m in re.finditer(a, l):
                        n = l[:m.start()] + m.expand(b) + l[m.end():]
                        if n != l and n not in seen and '"' not in l[:m.start()]:
                            seen.add(n)
                            yield rel, i, n
                if s.endswith(";") and not s.startswith(("let ", "return", "use ", "}", ")", ".", "type ", "const ")) and s.count("(") == s.count(")"):
                    prev = ls[i - 1].strip()
                    if prev.endswith((";", "{", "}")) or prev.startswith("//"):
                        yield rel, i, l[:len(l) - len(l.lstrip())] + ";"
                elif s.endswith("{") and s.startswith(("if ", "while ")) and False:
                    pass
                if s in ("self.current_depth += 1;",):
                    yield rel, i, ""


def run(cmd, cwd, env, t):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def worker(k, q, res, out, lock):
    base = f"{SCR}/{k}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(["git", "clone", "-q", REPO, f"{base}/repo"], check=True)
    shutil.copytree(f"{VERIF}/harness", f"{base}/verif/harness", ignore=shutil.ignore_patterns("target"))
    with open(f"{base}/verif/harness/Cargo.toml", "a") as f:
        f.write('\n[profile.fastmut]\ninherits = "release"\nopt-level = 1\ncodegen-units = 16\ndebug-assertions = true\noverflow-checks = true\nincremental = true\n')
    e = dict(ENV, CARGO_TARGET_DIR=f"{base}/t")
    while True:
        try:
            n, (rel, i, new) = q.get_nowait()
        except queue.Empty:
            return
        path = f"{base}/repo/{rel}"
        src = open(path).read()
        ls = src.split("\n")
        old = ls[i]
        ls[i] = new
        open(path, "w").write("\n".join(ls))
        rc, o = run(["cargo", "build", "--offline", "--profile", "fastmut", "--bin", "treena-monitor"], f"{base}/verif/harness", e, 300)
        if rc != 0:
            st = "nocompile"
        else:
            st = None
            for lv, cases, sd in ((4, 3000, 1),):
                rc, o = run(["prlimit", "--as=3000000000", f"{base}/t/fastmut/treena-monitor", "run", "MIX", "--seed", str(sd), "--workers", "1",
                             "--cases", str(cases), "--level", str(lv), "--case-cpu", "10", "--out", f"{base}/o"], base, e, 200)
                if rc != 0:
                    st = f"killed {rc}"
                    break
            if st is None:
                rc, o = run(["cargo", "test", "--offline", "--lib", "--tests"], f"{base}/repo", dict(ENV, CARGO_TARGET_DIR=f"{base}/tt"), 200)
                st = "SURVIVES" if rc == 0 else "only tests"
        open(path, "w").write(src)
        with lock:
            res[st.split()[0]] = res.get(st.split()[0], 0) + 1
            out.write(json.dumps([st, rel, i + 1, old.strip(), new.strip()]) + "\n")
            out.flush()


def main():
    ms = list(mutants(sys.argv[3] if len(sys.argv) > 3 else ""))[int(sys.argv[4]) if len(sys.argv) > 4 else 0:]
    print(len(ms), "mutants")
    q = queue.Queue()
    for x in enumerate(ms):
        q.put(x)
    res, lock = {}, threading.Lock()
    with open(sys.argv[1], "w") as out:
        ts = [threading.Thread(target=worker, args=(k, q, res, out, lock)) for k in range(int(sys.argv[2]))]
        [t.start() for t in ts]
        [t.join() for t in ts]
    print(res)


if __name__ == "__main__":
    main()
