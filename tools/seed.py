#!/usr/bin/env python3
"""Confirm planted bugs and write them to /verif/seeded. Development aid only.

  seed.py FILE.py [ids...]    FILE.py defines BUGS = [dict(id, property, file|edits, demo, needs, breaks, serde=False)]
Each is applied in a scratch copy of /repo, built, tested, and its demonstration run with and without it.
"""
import json, os, shutil, subprocess, sys
W = '/tmp/seed'
REPO = f'{W}/repo'
DEMO = '''#!/bin/bash
# Run with cwd = the repository: exit 0 where the property holds, nonzero where it is broken.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
tree_iterators_rs = { path = "$repo/tree_iterators_rs"%s }
streaming-iterator = { version = "0.1.9", features = ["alloc"] }
%s[workspace]
EOF
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
cd "$tmp" && cargo build -q --offline 2> "$tmp/log" || { tail -20 "$tmp/log"; echo "demo does not build"; exit 2; }
%s
'''
RUN = 'timeout 60 "$tmp/target/debug/demo"'

def sh(c, cwd=REPO, t=600):
    p = subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors='replace')

def stable_ok():
    rc, out = sh('timeout 300 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8')
    base = json.load(open('/opt/vp/BASELINE.json'))
    return rc == 0, out[-1500:]

def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(REPO): subprocess.check_call(['cp', '-a', '/repo', REPO])
    for b in ns['BUGS']:
        if sys.argv[2:] and b['id'] not in sys.argv[2:]: continue
        sh('git checkout -q -- .')
        ok = True
        for f, old, new in b['edits']:
            p = f'{REPO}/tree_iterators_rs/src/{f}'; s = open(p).read(); n = s.count(old)
            if n < 1: print(b['id'], 'NO MATCH', f, old[:60]); ok = False; break
            if n > 1 and not b.get('multi'): print(b['id'], 'MATCHES', n, old[:60]); ok = False; break
            open(p, 'w').write(s.replace(old, new) if b.get('multi') else s.replace(old, new, 1))
        if not ok: continue
        patch = sh('git diff')[1]
        env = 'RUSTUP_TOOLCHAIN=stable CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only '
        rc, out = sh(env + 'cargo build --workspace --offline')
        if rc: print(b['id'], 'NOBUILD', '\n'.join(l for l in out.split('\n') if l.startswith('error'))[:800], out[-1500:]); continue
        t, out = stable_ok()
        if not t: print(b['id'], 'KILLED BY TESTS', [l for l in out.split('\n') if 'FAILED' in l or 'failed' in l][:6]); sh('git checkout -q -- .'); continue
        d = f'/verif/seeded/{b["id"]}'; os.makedirs(d, exist_ok=True)
        sd = b.get('serde')
        open(f'{d}/demo.sh', 'w').write(DEMO % (', features = ["serde"]' if sd else '', 'serde_json = "1"\nserde = { version = "1", features = ["derive"] }\n' if sd else '', b.get('run', RUN)))
        os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/demo.rs', 'w').write(b['demo'].lstrip('\n'))
        open(f'{d}/patch.diff', 'w').write(patch)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        r1, o1 = sh(f'bash {d}/demo.sh')
        sh('git checkout -q -- .')
        r0, o0 = sh(f'bash {d}/demo.sh')
        if r0 == 0 and r1 not in (0, 2): print(b['id'], 'OK', r1, o1.strip().split('\n')[-1][:150] if o1.strip() else '')
        else: print(b['id'], 'BAD DEMO', 'clean', r0, o0[-1500:], 'patched', r1, o1[-800:]); shutil.rmtree(d)
main()
