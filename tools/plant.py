#!/usr/bin/env python3
"""usage: plant.py SEEDS.py [ID...]
Builds /verif/seeded/<id>/ from a table of edits, after confirming in a scratch copy that the edit compiles,
passes the existing tests, and that its demonstration tells the two trees apart.  (Development only.)"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Run with the crate's root as working directory: 0 if the property holds, nonzero if it is broken.
here=$(cd "$(dirname "$0")" && pwd)
crate=$(pwd)
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" && cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
treena = { path = "$crate" }
EOF
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH="/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH"
cd "$d" && cargo build -q @REL@ --offline >"$d/log" 2>&1 || { tail -20 "$d/log"; exit 98; }
timeout 120 "$d/target/@DIR@/demo"
"""
BASE = set()
b = json.load(open('/opt/vp/BASELINE.json'))
def sh(c, cwd, t=600):
    e = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true')
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=e)
def passed(out):
    return set(re.findall(r'^test (.*?) \.\.\. ok$', out, re.M)), set(re.findall(r'^test (.*?) \.\.\. FAILED$', out, re.M))
def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:]
    d = tempfile.mkdtemp(prefix='plant.')
    r = d + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
    base = sh('git log --format=%H --reverse | head -1', r).stdout.strip()
    env_t = 'CARGO_TARGET_DIR=%s/t cargo test --workspace --no-fail-fast --offline 2>&1' % d
    ok0, bad0 = passed(sh(env_t, r).stdout)
    print('baseline', len(ok0), 'ok', len(bad0), 'failed')
    for s in seeds:
        if want and s['id'] not in want: continue
        sh('git checkout -q -- .', r)
        bad = False
        for f, old, new in s['edits']:
            p = f'{r}/{f}'; t = open(p).read()
            n = t.count(old)
            k = 1
            if n != 1:
                print(s['id'], 'EDIT MATCHES', n, f); bad = True; break
            open(p, 'w').write(t.replace(old, new))
        if bad: continue
        t = sh(env_t, r).stdout
        ok, ko = passed(re.sub(r'\(line \d+\)', '', t))
        ok_base = {re.sub(r'\(line \d+\)', '', x) for x in ok0}
        if 'error: could not compile' in t or ko or not ok >= ok_base:
            print(s['id'], 'TESTS:', sorted(ko)[:4], [l for l in t.splitlines() if l.startswith('error')][:4]); continue
        patch = sh('git diff', r).stdout
        out = f"{V}/seeded/{s['id']}"
        tmp = d + '/seed'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + '/patch.diff', 'w').write(patch)
        open(tmp + '/demo.rs', 'w').write(s['demo'])
        rel = s.get('release')
        open(tmp + '/demo.sh', 'w').write((s.get('sh') or DEMO).replace('@REL@', '--release' if rel else '').replace('@DIR@', 'release' if rel else 'debug'))
        for n, x in s.get('files', {}).items(): open(tmp + '/' + n, 'w').write(x)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
        os.chmod(tmp + '/demo.sh', 0o755)
        p = sh(f'bash {tmp}/demo.sh', r)
        sh('git checkout -q -- .', r)
        c = sh(f'bash {tmp}/demo.sh', r)
        good = c.returncode == 0 and p.returncode not in (0, 98, 99)
        print(s['id'], 'clean', c.returncode, 'patched', p.returncode, 'KEPT' if good else 'REJECTED', (p.stdout.strip().splitlines() or [''])[-1][:150] if good else (c.stdout + p.stdout)[-1500:])
        if good:
            shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out)
    shutil.rmtree(d)
main()
