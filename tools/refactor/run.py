#!/usr/bin/env python3
"""run.py DIR [prefix...]: applies each behaviour-preserving set to DIR/repo (made by alt.sh), runs its tests and the checks it names."""
import os, subprocess, sys, time
d = sys.argv[1]; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); import sets
def sub(text, old, new):
    k = 0
    if isinstance(old, tuple): old, k = old
    p = -1
    for _ in range(k + 1): p = text.index(old, p + 1)
    return text[:p] + new + text[p + len(old):]
env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick", CARGO_NET_OFFLINE="true")
for n, (props, edits) in sets.SETS.items():
    if sys.argv[2:] and not any(n.startswith(a) for a in sys.argv[2:]): continue
    subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
    for f, old, new in edits:
        p = os.path.join(d, "repo", f); t = open(p).read()
        try: t = sub(t, old, new)
        except ValueError: sys.exit("%s: text not found in %s: %r" % (n, f, old))
        open(p, "w").write(t)
    r = subprocess.run("cargo test --offline --workspace 2>&1 | grep -E '^error|test result|panicked' | sort | uniq -c", shell=True, cwd=d + "/repo", env=env, capture_output=True, text=True)
    print("==", n, "tests:", " ".join(r.stdout.split())[:400], flush=True)
    for p in props:
        t = time.time(); r = subprocess.run([sys.executable, d + "/verif/check.py", p, "--tier", "quick", *(["--jobs", os.environ["JOBS"]] if "JOBS" in os.environ else [])], capture_output=True, text=True, env=env)
        print("%-18s %s rc=%d %4.0fs %s" % (n, p, r.returncode, time.time() - t, "" if r.returncode == 0 else (r.stdout + r.stderr)[-1500:]), flush=True)
subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
