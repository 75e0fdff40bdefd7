#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from selftest/seeds.py: mkseed.py [id-regex].

Each change is applied to a scratch copy of /repo; it is kept only if it builds, passes the
existing tests, and its demonstration passes without it and fails with it."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'selftest'))
import seeds

DEMO = r'''#!/bin/bash
# Builds demo.rs against the library in the current directory and runs it.
repo="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
pdf-writer = { path = "$repo" }
[workspace]
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo run --offline --quiet
'''
HEAD = '''#![allow(unused)]
use pdf_writer::{types::*, *};
use pdf_writer::writers::*;

fn has(hay: &[u8], needle: &str) -> bool {
    hay.windows(needle.len()).any(|w| w == needle.as_bytes())
}

'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def main():
    rx = re.compile(sys.argv[1] if len(sys.argv) > 1 else '.')
    base = json.load(open('/opt/vp/BASELINE.json'))
    for sid, prop, needs, breaks, edits, demo in seeds.S:
        if not rx.search(sid):
            continue
        d = os.path.join(V, 'seeded', sid)
        t = tempfile.mkdtemp(prefix='seed.')
        r = os.path.join(t, 'repo')
        try:
            sh('cp -a /repo %s' % r, '/')
            sh('git checkout -q -- . && git clean -fdq', r)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            script = DEMO
            if isinstance(demo, tuple):
                # (a program that must be refused, its well-behaved twin)
                open(os.path.join(d, 'demo_ok.rs'), 'w').write(HEAD + demo[1].strip() + '\n')
                demo = demo[0]
                script = open(os.path.join(V, 'selftest', 'reject.sh')).read()
            open(os.path.join(d, 'demo.rs'), 'w').write(HEAD + demo.strip() + '\n')
            open(os.path.join(d, 'demo.sh'), 'w').write(script)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            a = sh('bash %s/demo.sh' % d, r)
            if a.returncode:
                print(sid, 'DEMO FAILS UNCHANGED', a.stderr[-700:])
                continue
            for f, old, new in edits:
                p = os.path.join(r, 'src', f)
                s = open(p).read()
                if s.count(old) < 1:
                    print(sid, 'EDIT DOES NOT APPLY', old[:80])
                    break
                open(p, 'w').write(s.replace(old, new, 1))
            else:
                env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(r, 'target'))
                b = sh('cargo test --workspace --offline 2>&1 | grep -E "^test |warning: unused|error" ', r, env=env)
                bad = [l for l in b.stdout.splitlines() if 'FAILED' in l or l.startswith('error')]
                if bad or b.stdout.count('... ok') < 35:
                    print(sid, 'TESTS FAIL', b.stdout.count('... ok'), bad[:4])
                    continue
                c = sh('bash %s/demo.sh' % d, r)
                if c.returncode == 0:
                    print(sid, 'DEMO PASSES WITH THE CHANGE')
                    continue
                if 'could not compile' in c.stderr:
                    print(sid, 'DEMO DOES NOT COMPILE WITH THE CHANGE', c.stderr[-400:])
                    continue
                open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', r).stdout)
                json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
                print(sid, 'ok;', [l for l in c.stderr.splitlines() if 'panicked' in l or 'left' in l or 'right' in l or 'assert' in l][:3], flush=True)
        finally:
            if not os.path.exists(os.path.join(d, 'meta.json')):
                shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(t, ignore_errors=True)


main()
