#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeding/seeds.py and confirms each planted bug in a scratch copy
of /repo: the patch applies, builds, keeps the stable tests passing, and the demonstration exits 0 without
and non-zero with it.  No check uses this or reads /verif/seeded."""
import json, os, subprocess, sys, tempfile, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from seeds import SEEDS
DEMO = r'''#!/bin/bash
# exit 0: the property holds; non-zero: it does not.  Run with the repository as current directory.
here=$(cd "$(dirname "$0")" && pwd)
exec python3 - "$here/demo.rs" "$PWD" <<'PY'
import os, shutil, subprocess, sys, tempfile
src, repo = sys.argv[1:3]
with tempfile.TemporaryDirectory(prefix="demo-") as d:
    os.mkdir(d + "/src")
    shutil.copy(src, d + "/src/main.rs")
    with open(d + "/Cargo.toml", "w") as f:
        f.write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\ncbored = { path = "%s" }\n[profile.dev]\ndebug = 0\nincremental = false\n' % repo)
    if os.path.exists(repo + "/Cargo.lock"):
        shutil.copy(repo + "/Cargo.lock", d + "/Cargo.lock")
    env = dict(os.environ, CARGO_TARGET_DIR=d + "/target", CARGO_NET_OFFLINE="true")
    b = subprocess.run(["cargo", "build", "-q", "--offline"], cwd=d, env=env)
    if b.returncode: sys.exit(2)
    try: r = subprocess.run([d + "/target/debug/demo"], cwd=d, timeout=60)
    except subprocess.TimeoutExpired: sys.exit(3)
    sys.exit(0 if r.returncode == 0 else 1)
PY
'''
HEAD = """#![allow(unused)]
use cbored::*;
use cbored::state::State;
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn rd(b: &[u8]) -> Reader<'_> { Reader::new(b) }
fn enc<T: Encode + ?Sized>(t: &T) -> Vec<u8> { let mut w = Writer::new(); w.encode(t); w.finalize() }
fn again(b: &[u8]) -> Vec<u8> {
    let mut r = Reader::new(b); let d = r.data().unwrap(); let o = d.owned();
    let mut w = Writer::new(); w.data(&d); let x = w.finalize();
    let mut w = Writer::new(); w.data(&o.borrow()); let y = w.finalize();
    assert_eq!(x, b[..r.consumed_bytes()].to_vec()); assert_eq!(y, x); x
}
"""
def sh(c, cwd=None, env=None, timeout=600):
    r = subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=timeout)
    return r.returncode, r.stdout
def main():
    want = sys.argv[1:]
    base = "/tmp/seedwork"
    if not os.path.isdir(base): shutil.copytree("/repo", base, symlinks=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=base + "/target", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    sh(["git", "fetch", "-q", "/repo", "HEAD"], cwd=base); sh(["git", "checkout", "-q", "-f", "FETCH_HEAD"], cwd=base)
    bad = 0
    ids = [s["id"] for s in SEEDS]; assert len(ids) == len(set(ids)), "duplicate ids"
    for s in SEEDS:
        if want and not any(s["id"].startswith(w) for w in want): continue
        d = os.path.join(VERIF, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        sh(["git", "checkout", "-q", "-f", "."], cwd=base)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(base, f); t = open(p).read()
                k, many = 0, False
                if isinstance(old, tuple): (old, k), many = old, True
                parts = t.split(old)
                assert len(parts) >= k + 2, "%s: text not found in %s: %s" % (s["id"], f, old)
                assert many or len(parts) == 2, "%s: text found %d times in %s: %s" % (s["id"], len(parts) - 1, f, old)
                t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
                open(p, "w").write(t)
            _, diff = sh(["git", "diff"], cwd=base)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
            demo = s["demo"]
            open(d + "/demo.rs", "w").write(HEAD + (demo if "fn main" in demo else "fn main() {\n%s\n}\n" % demo.strip("\n")))
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            rc, o = sh(["cargo", "test", "--offline", "-q"], cwd=base, env=env)
            passed = sum(int(x) for x in re.findall(r"(\d+) passed", o)); ok = rc == 0 and passed == 23
            if ok:
                rc, o2 = sh(["cargo", "build", "--offline", "-q", "--manifest-path", "cbored-examples/Cargo.toml"], cwd=base, env=env); ok = rc == 0; o += o2
            r1, o1 = sh(["bash", d + "/demo.sh"], cwd=base)
            sh(["git", "checkout", "-q", "-f", "."], cwd=base)
            r0, o0 = sh(["bash", d + "/demo.sh"], cwd=base)
            good = ok and r0 == 0 and r1 == 1
            print(s["id"], s["property"], "OK" if good else "BAD", "" if good else "tests %s (%d) demo clean %d patched %d\n%s\n%s" % (ok, passed, r0, r1, o[-1500:] if not ok else "", (o0 if r0 else o1)[-1200:]), flush=True)
            bad += not good
        except AssertionError as e:
            print(s["id"], "BAD", e, flush=True); bad += 1
    sh(["git", "checkout", "-q", "-f", "."], cwd=base)
    sys.exit(bad > 0)
main()
