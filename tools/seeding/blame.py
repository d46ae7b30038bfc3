#!/usr/bin/env python3
"""Lists planted bugs that change a line which is not the original repository's."""
import os, re, subprocess
S = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "seeded")
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
blame = {}
def lines(f):
    if f not in blame: blame[f] = [l.split()[0].lstrip("^") for l in subprocess.run(["git", "-C", "/repo", "blame", "-l", "--root", f], capture_output=True, text=True).stdout.splitlines()]
    return blame[f]
for i in sorted(os.listdir(S)):
    f, n, bad, orig = None, 0, 0, 0
    for l in open(os.path.join(S, i, "patch.diff")):
        if l.startswith("--- "): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l)[1])
        elif l.startswith("-"):
            if lines(f)[n - 1] in BASE or BASE.startswith(lines(f)[n - 1]): orig += 1
            else: bad += 1
            n += 1
        elif l.startswith(" "): n += 1
    if bad or not orig: print(i, "original lines changed:", orig, "lines of fixes changed:", bad)
