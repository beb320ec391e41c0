"""Shared parts of the checks: building, running workers, evidence, verdicts."""
import glob, json, os, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
EVID = os.path.join(VERIF, "evidence")
TARGET = os.path.join(VERIF, "target")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
GB = 1 << 30


class Broken(Exception):
    """The check could not give an answer."""


def env(toolchain=STABLE, **kw):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO_", "RUSTFLAGS", "MIRIFLAGS", "RUSTC", "ASAN_", "TSAN_"))}
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    for k, v in kw.items():
        e[k] = v
    return e


def fresh(target_dir):
    """Cargo notices changes by mtime only: forget what it knows of /repo's crate."""
    for d in glob.glob(os.path.join(target_dir, "**", ".fingerprint", "treena-*"), recursive=True):
        shutil.rmtree(d, ignore_errors=True)


def build(name, crate=None, profile="release", args=(), toolchain=STABLE, binary="treena-monitor",
          timeout=600, triple=None, ok_fail=False, **extra_env):
    """Builds a crate of /verif against /repo's working tree; returns the path of the binary."""
    crate = crate or ("harness" if binary == "treena-monitor" else "other")
    td = os.path.join(TARGET, name)
    fresh(td)
    cmd = ["cargo", "build", "--offline", "--profile", profile, "--bin", binary, *args]
    if triple:
        cmd += ["--target", triple]
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=env(toolchain, CARGO_TARGET_DIR=td, **extra_env),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    out = os.path.join(td, *([triple] if triple else []), "debug" if profile == "dev" else profile, binary)
    if r.returncode != 0:
        if ok_fail:
            return None, r.stdout
        errs = r.stdout.find("\nerror")
        sys.stdout.write(r.stdout[max(errs, 0):][:3000] + "\n")
        raise Broken(f"the monitor does not build against /repo ({name})")
    return (out, r.stdout) if ok_fail else out


def build_all(specs):
    """Several builds at a time."""
    res, err = {}, []

    def one(k, kw):
        try:
            res[k] = build(k, **kw)
        except Exception as e:  # noqa: BLE001
            err.append(e)

    ts = [threading.Thread(target=one, args=(k, kw)) for k, kw in specs.items()]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0]
    return res


class Job:
    def __init__(self, cmd, tag="", mem=6 * GB, wall=800, cwd=VERIF, environ=None, stack=None, keep=200_000):
        self.cmd, self.tag, self.mem, self.wall, self.cwd = cmd, tag, mem, wall, cwd
        self.environ, self.stack, self.keep = environ or env(), stack, keep
        self.rc = self.out = None
        self.timed_out = False
        self.secs = 0.0

    def run(self):
        def limits():
            if self.mem:
                resource.setrlimit(resource.RLIMIT_AS, (self.mem, self.mem))
            if self.stack:
                resource.setrlimit(resource.RLIMIT_STACK, (self.stack, self.stack))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        t = time.time()
        with tempfile.TemporaryFile() as f:
            p = subprocess.Popen(self.cmd, cwd=self.cwd, env=self.environ, stdout=f, stderr=subprocess.STDOUT,
                                 preexec_fn=limits, start_new_session=True)
            try:
                p.wait(self.wall)
            except subprocess.TimeoutExpired:
                self.timed_out = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.rc = p.wait()
            n = f.seek(0, 2)
            f.seek(max(0, n - self.keep))
            self.out = f.read().decode("utf-8", "replace")
        self.secs = time.time() - t
        return self


def run_jobs(jobs, par=8, stop_on=None):
    """Runs the jobs, `par` at a time; stops starting new ones after `stop_on(job)`."""
    lock, it, stop = threading.Lock(), iter(jobs), []

    def w():
        while True:
            with lock:
                j = None if stop else next(it, None)
            if j is None:
                return
            j.run()
            if stop_on and stop_on(j):
                stop.append(j)

    ts = [threading.Thread(target=w) for _ in range(par)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return jobs


def read_json(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known(prop):
    """Recorded findings of the property that are not repaired: signature -> text."""
    res = {}
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            if line.startswith("known: "):
                f = line[7:].split(None, 2)
                if f[0] == f"property={prop}" and f[1].startswith("sig="):
                    res[f[1][4:]] = f[2].strip() if len(f) > 2 else ""
    except OSError:
        pass
    return res


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.violations = []  # (message, replay path)
        self.inconclusive = []
        self.cov = {}
        self.assumptions = []
        os.makedirs(EVID, exist_ok=True)
        for f in glob.glob(os.path.join(EVID, f"{prop}*")):
            os.remove(f)
        self.tmp = tempfile.mkdtemp(prefix=f"{prop}.", dir=TARGET if os.path.isdir(TARGET) else EVID)

    def replay_path(self, n=None):
        return os.path.join(EVID, f"{self.prop}.replay{'' if n is None else n}.txt")

    def violate(self, msg, text=None, src=None):
        n = len(self.violations)
        path = self.replay_path(n or None)
        if src and os.path.exists(src):
            shutil.copy(src, path)
        else:
            with open(path, "w") as f:
                f.write(text or msg)
        self.violations.append((msg, path))

    def finish(self):
        """Writes the evidence and ends the process."""
        shutil.rmtree(self.tmp, ignore_errors=True)
        c = dict(self.cov)
        if self.inconclusive:
            c["inconclusive"] = self.inconclusive[:20]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": c, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for m in self.inconclusive:
            print(f"INCONCLUSIVE: {m}")
        for k, t in known(self.prop).items():
            print(f"KNOWN-FINDING: property={self.prop} {t}")
        if self.violations:
            for m, p in self.violations:
                print(m)
                print(f"VIOLATION property={self.prop} replay={p}")
            sys.exit(1)
        if c.get("evaluations", 0) <= 0 or c.get("distinct_nontrivial", 0) <= 0:
            print("INCONCLUSIVE: nothing was observed")
            sys.exit(3)
        print(f"{self.prop}: held on {c['evaluations']} evaluations, {c['distinct_nontrivial']} distinct "
              f"({ev['wall_s']} s)")
        sys.exit(0)
