#!/usr/bin/env python3
"""plant.py new ID PROP FILE  <<< "OLD\n====\nNEW" : make a scratch copy of /repo, apply the edit, save seeded/ID/patch.diff
   plant.py verify ID...     : in a scratch copy: demo passes on the clean tree; patch applies, builds, stable tests pass, demo fails"""
import sys, os, subprocess, json, shutil, tempfile
V = '/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# Builds main.rs, which lies beside this file, against the crates of the repository in the current directory, and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ratel = { path = "$R/ratel" }
ratel-codegen = { path = "$R/ratel-codegen" }
ratel-visitor = { path = "$R/ratel-visitor" }
ratel-transformer = { path = "$R/ratel-transformer" }
toolshed = "*"
serde_json = "*"
[workspace]
[profile.dev]
debug-assertions = false
overflow-checks = true
opt-level = 1
debug = 0
EOF
cd "$T" && CARGO_TARGET_DIR="$T/t" timeout 250 cargo run --offline -q
'''
# ratel-wasm is a cdylib: main.rs takes its source in as `mod wasm;`
WASM = DEMO.replace('cp "$D/main.rs" "$T/src/main.rs"', 'cp "$D/main.rs" "$T/src/main.rs"\ncp "$R/ratel-wasm/src/lib.rs" "$T/src/wasm.rs"').replace('toolshed =', 'wasm-bindgen = "*"\ntoolshed =')
def new(i, prop, edits, main, needs, breaks, demo=DEMO):
    d = f'{V}/{i}'; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='plant')
    sh(f'git -C /repo worktree prune; git clone -q /repo {t}/r')
    for f, o, n in edits:
        p = f'{t}/r/{f}'; s = open(p).read()
        assert s.count(o) == 1, (f, o, s.count(o))
        open(p, 'w').write(s.replace(o, n))
    open(f'{d}/patch.diff', 'w').write(sh(f'git -C {t}/r diff').stdout)
    open(f'{d}/demo.sh', 'w').write(demo); os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/main.rs', 'w').write(main)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
BASE = '247f557'
def ours(i):
    """Do the lines the patch removes (or, where it only adds, the lines around it) belong to the original repository?"""
    import re
    out, f, ln = [], None, 0
    for l in open(f'{V}/{i}/patch.diff'):
        if l.startswith('--- a/'): f = l[6:].strip(); blame = sh(f'git -C /repo blame -s {f}').stdout.split('\n')
        elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1)); prev = ' '
        elif f and l[0] in ' -':
            if l[0] == '-': out.append(blame[ln-1].startswith('^'))
            ln += 1; prev = l[0]
        elif f and l[0] == '+' and not l.startswith('+++'):
            if prev == ' ': out.append(('ins', blame[ln-2].startswith('^'), blame[ln-1].startswith('^')))
            prev = '+'
    return out
def verify(ids):
    t = tempfile.mkdtemp(prefix='plantv')
    sh(f'cp -a /repo {t}/r')
    # build.sh and test.sh name /repo: read them for the stable test list
    for i in ids:
        d = f'{V}/{i}'
        mine = ours(i)
        r = sh(f'git checkout -q -- . ; bash {d}/demo.sh', cwd=f'{t}/r')
        clean = r.returncode
        a = sh(f'git apply {d}/patch.diff', cwd=f'{t}/r')
        b = sh('cargo build --offline -q 2>&1 && cargo test --offline --workspace --no-fail-fast 2>&1 | grep -E "^test result|FAILED|could not compile" ', cwd=f'{t}/r', env={**os.environ, 'CARGO_PROFILE_DEV_DEBUG_ASSERTIONS':'false','CARGO_PROFILE_TEST_DEBUG_ASSERTIONS':'false'})
        x = sh(f'bash {d}/demo.sh', cwd=f'{t}/r')
        ok = clean == 0 and a.returncode == 0 and x.returncode != 0 and 'FAILED' not in b.stdout and 'could not compile' not in b.stdout and 'test result: ok' in b.stdout
        print(i, mine, 'OK' if ok else 'BAD', 'clean', clean, 'apply', a.returncode, 'demo', x.returncode, '' if ok else (r.stdout[-600:] if clean else '') + a.stdout + b.stdout[-600:] + x.stdout[-300:], flush=True)
    shutil.rmtree(t)
if __name__ == '__main__':
    if sys.argv[1] == 'verify': verify(sys.argv[2:] or sorted(os.listdir(V)))
