#!/usr/bin/env python3
"""Applies each planted bug to /repo, runs its property's quick check, and undoes it."""
import json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); S = os.path.join(VERIF, "seeded")
res = {}
for i in sorted(os.listdir(S)):
    if sys.argv[1:] and not any(i.startswith(a) for a in sys.argv[1:]): continue
    m = json.load(open(os.path.join(S, i, "meta.json")))
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(S, i, "patch.diff")], check=True)
    t = time.time()
    try: r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), m["property"], "--tier", "quick"], cwd=VERIF, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally: subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%-26s %s rc=%d %4.0fs %s" % (i, m["property"], r.returncode, time.time() - t, v[0] if v else (r.stdout + r.stderr)[-300:].replace("\n", " | ")), flush=True)
