#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property by symbolic execution of /repo's
current code. Exit 0: held on everything explored; 1: VIOLATION (reproduced natively); 2: error."""
import argparse, collections, concurrent.futures as cf, json, os, re, subprocess, sys, tempfile, threading, time, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build, plan

ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--only", help="run only the groups of entries containing this text")
ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--record-covers", action="store_true"); ap.add_argument("-v", action="store_true")
A = ap.parse_args()
PROP, TIER = A.prop, A.tier if A.tier in ("quick", "thorough") else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
V = build.VERIF
T0 = time.time()
BUDGET = float(os.environ.get("VERIF_BUDGET", 660 if TIER == "quick" else 6 * 3600))
EVID = os.path.join(V, "evidence"); os.makedirs(EVID, exist_ok=True)

def fail(msg):
    print("ERROR property=%s %s" % (PROP, msg)); sys.stdout.flush(); sys.exit(2)

STOP, STOPPED = threading.Event(), [0.0]

class Job:
    def __init__(s, g, k): s.g, s.k = g, k
    def label(s): return "%s%s" % (s.g.label(), "" if s.g.shards < 2 else " shard %d/%d" % (s.k, s.g.shards))

def run_engine(j, vse, bc, wd, idx):
    out = os.path.join(wd, "o%d.json" % idx); g = j.g
    left = T0 + BUDGET - time.time()
    if left < 5: return j, None, "no time left"
    cmd = [vse, bc, "--entry", g.entry, "--out", out, "--seed", str(SEED + j.k), "--time", "%d" % min(left, g.time or left), "--solver-timeout", "60000"]
    for p in g.params: cmd += ["--param", str(p)]
    if g.shards > 1: cmd += ["--shard", "%d/%d" % (j.k, g.shards)]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    while True:
        try: log = p.communicate(timeout=3)[0]; break
        except subprocess.TimeoutExpired:
            # a violation is already known: what still runs gets 15 s more
            if STOP.is_set() and time.time() > STOPPED[0] + 15: p.kill(); p.communicate(); return j, None, "stopped"
    try: r = json.load(open(out))
    except Exception as e: return j, None, "executor ended with %d and no result (%s)" % (p.returncode, log[-400:])
    os.remove(out)
    return j, r, None

def native(exe, g, lines):
    """run the real code on these inputs; one result per line (a lost process counts as an abort)"""
    res, todo = [], list(lines)
    while todo:
        p = subprocess.run([exe, g.entry, ",".join(map(str, g.params)) or "-"], input="\n".join(todo) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        got = [json.loads(l) for l in p.stdout.splitlines() if l.endswith("}")]
        res += got; todo = todo[len(got):]
        if todo and len(got) == 0 or p.returncode != 0 and todo:
            res.append({"obs": [], "failed": [], "covers": [], "assumed": False, "panic": "process ended with status %d" % p.returncode, "used": 0}); todo = todo[1:]
    return res

def refused(log, crate):
    """the harness does not build: a violation only if it is the derive macro that turns down one of the
    definitions (all of which it takes on the original tree) while the rest of the harness builds"""
    if crate.startswith("harness_derive") and re.search(r"derive macro `CborRepr`|proc-macro derive panicked", log):
        try: build.harness_ir(); build.replayer()
        except RuntimeError: fail("build: " + log[-3000:])
        rd = os.path.join(EVID, "replay"); os.makedirs(rd, exist_ok=True); rp = os.path.join(rd, PROP + ".json")
        json.dump([{"property": PROP, "what": "a derived type of %s is no longer accepted by the derive macro" % crate, "compiler": log[-8000:]}], open(rp, "w"), indent=1)
        json.dump({"property": PROP, "tier": TIER, "seed": SEED, "level": "model_checking", "wall_s": round(time.time() - T0, 1), "violations": 1, "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": ["the derive macro's output for a definition of %s does not compile" % crate]}}, open(os.path.join(EVID, PROP + ".json"), "w"), indent=1)
        print(log[-1500:]); print("VIOLATION property=%s replay=%s" % (PROP, os.path.relpath(rp, V))); sys.exit(1)
    fail("build: " + log[-3000:])

def main():
    if PROP not in plan.PLAN: fail("no such property")
    groups = [g for g in plan.groups(PROP, TIER) if not A.only or A.only in g.label()]
    if TIER == "thorough": # what the quick tier explores must be explored completely; beyond it, as far as the time goes
        must = {g.label() for g in plan.groups(PROP, "quick")}
        for g in groups: g.floor = g.floor and g.label() in must
    crates = sorted({g.crate for g in groups})
    bcs, reps = {}, {}
    with build.Lock():
        try:
            vse = build.engine()
            for c in crates:
                bcs[c] = build.harness_ir(c); reps[c] = (build.replayer(c), build.replayer(c, release=True))
        except RuntimeError as e: refused(str(e), c)
    tb = time.time() - T0
    wd = tempfile.mkdtemp(prefix="vse-"); results = []
    try:
        jobs = []
        for g in groups: jobs += [Job(g, k) for k in range(max(1, g.shards))]
        # the guaranteed part first, then the most expensive ones
        order = sorted(range(len(jobs)), key=lambda i: (not jobs[i].g.floor, -jobs[i].g.cost))
        known = known_findings()
        def work(i):
            if STOP.is_set(): return jobs[i], None, "stopped"
            r = run_engine(jobs[i], vse, bcs[jobs[i].g.crate], wd, i)
            if r[1] and any(not is_known(known, jobs[i], v) for v in r[1]["violations"]) and not STOP.is_set(): STOPPED[0] = time.time(); STOP.set()
            if A.v: print("  %-60s %s" % (jobs[i].label(), r[2] or "%.1fs states %d %s %s" % (r[1]["stats"]["total_s"], r[1]["stats"]["states"], "" if r[1]["complete"] else "INCOMPLETE " + r[1]["error"], r[1]["violations"][:1] or "")), flush=True)
            return r
        with cf.ThreadPoolExecutor(A.jobs) as ex: results = list(ex.map(work, order))
        judge(results, reps, tb)
    finally: shutil.rmtree(wd, ignore_errors=True)

def known_findings():
    p = os.path.join(V, "known_findings.txt"); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) what=(\S+) input=(\S+) (.*)", l)
            if m: out.append(m.groups())
    return out

def is_known(kf, j, v): return [x for x in kf if x[0] == PROP and x[1] == j.g.entry and x[2] == (v["kind"] + ":" + v["msg"]).replace(" ", "_") and x[3] == v["bytes"]]

def judge(results, reps, tb):
    S = collections.Counter(); funcs = set(); samples = []; errors = []; viols = []; bounds = []; replays = 0; unfinished = []
    cov = collections.defaultdict(set); done = collections.defaultdict(lambda: True); byg = collections.defaultdict(list); checks_at = collections.Counter()
    stopped = False
    for j, r, err in results:
        g = j.g
        if r is None:
            done[g.label()] = False
            if err == "stopped": stopped = True
            elif err == "no time left": unfinished.append((g, j.label() + ": " + err))
            else: errors.append(j.label() + ": " + err)
            continue
        byg[g.label()].append(r)
        for k, v in r["stats"].items(): S[k] += v
        funcs.update(r["functions"]); cov[g.label()] |= set(r["covers"]); 
        for k, v in r["checks_at"].items(): checks_at[g.entry + ":" + k] += v
        if r["stats"]["overlaps"]: errors.append(j.label() + ": explored paths overlap")
        if not r["complete"] and not r["violations"]:
            done[g.label()] = False
            if "time limit" in r["error"] or r["error"] == "": unfinished.append((g, j.label() + ": " + (r["error"] or "stopped")))
            else: errors.append(j.label() + ": " + r["error"])
        for v in r["violations"]:
            out = [native(e, g, [v["bytes"]])[0] for e in reps[g.crate]]
            hit = [(n, o) for n, o in zip(("dev", "release"), out) if o["panic"] or (v["kind"] == "check" and (m := re.search(r"\d+", v["msg"])) and int(m.group()) in o["failed"])]
            if hit: viols.append((j, v, hit))
            else: errors.append("%s: counterexample %s (%s %s) does not reproduce: %s" % (j.label(), v["bytes"], v["kind"], v["msg"], out))
        # the executor against the real code: same inputs, same observations
        ins = [p[0] for p in r["paths"]] + [p[0] for p in r["probes"]]; want = [p[1] for p in r["paths"]] + [p[1] for p in r["probes"]]
        if ins and not r["violations"]:
            for i, w, o in zip(ins, want, native(reps[g.crate][0], g, ins)):
                if w is None:
                    if o["used"] != len(i) // 2: continue
                    if not o["assumed"]: errors.append("%s: input %s lies outside every explored path" % (j.label(), i))
                elif o["panic"] or o["failed"] or o["assumed"] or o["obs"] != w: errors.append("%s: input %s: explored %s, real %s" % (j.label(), i, w, o))
                replays += 1
            if len(samples) < 40: samples += [{"entry": g.entry, "params": g.params, "input": i, "observed": w} for i, w in list(zip(ins, want))[:2]]
    # vacuity: what each entry reached on the unchanged tree must still be reached
    cf_ = os.path.join(V, "lib", "covers.json")
    base = json.load(open(cf_)) if os.path.exists(cf_) else {}
    for l, c in cov.items():
        if not done[l] or any(j.g.label() == l for j, _, _ in viols): continue
        if A.record_covers: base[l] = sorted(c, key=int)
        else:
            if l not in base:
                if TIER == "quick" or not c: errors.append("no recorded reachability for " + l)
            elif set(base[l]) - c: errors.append("%s: no longer reaches %s" % (l, sorted(set(base[l]) - c)))
    if A.record_covers: json.dump(base, open(cf_, "w"), indent=0, sort_keys=True)
    kf = known_findings(); rest = []
    for j, v, hit in viols:
        k = is_known(kf, j, v)
        if k: print("KNOWN-FINDING: property=%s %s" % (PROP, k[0][4]))
        else: rest.append((j, v, hit))
    floor_bad = [m for g, m in unfinished if g.floor]
    errors += floor_bad
    for g in {g.label(): g for j, _, _ in results for g in [j.g]}.values():
        bounds.append({"entry": g.entry, "params": g.params, "what": g.note, "complete": bool(done[g.label()]), "shards": g.shards, "checks": sum(sum(r["checks_at"].values()) for r in byg[g.label()]), "wall_cpu_s": round(sum(r["stats"]["total_s"] for r in byg[g.label()]), 1)})
    ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": "model_checking", "wall_s": round(time.time() - T0, 1), "violations": len(rest),
        "coverage": {"states": S["states"], "transitions": S["instructions"], "traces_validated_against_impl": replays, "samples": samples,
            "what": "states: symbolic states explored (each stands for a set of inputs); transitions: LLVM IR instructions executed symbolically; traces: sampled paths and random probes whose observations were compared with the natively compiled code",
            "exhaustive_within_bounds": not errors and not unfinished and not stopped, "bounds": bounds, "not_completed": [m for _, m in unfinished],
            "functions_encoded": sorted(funcs), "assertions_discharged": S["checks"], "assertions_decided_by_solver": S["checks_solver"], "assertions_folded_to_true_under_the_path": S["checks_constant"],
            "solver_queries": S["queries"], "solver_sat": S["sat"], "solver_unsat": S["unsat"], "query_cache_hits": S["cache_hits"], "decided_by_known_model": S["model_hits"], "decided_by_byte_domain": S["domain_decisions"],
            "solver_s": round(S["solver_s"], 1), "symbolic_execution_cpu_s": round(S["total_s"], 1), "build_s": round(tb, 1), "paths": S["final_states"], "forks": S["forks"], "merges": S["merges"]},
        "assumptions": plan.ASSUMPTIONS + plan.NOTES.get(PROP, []), "errors": errors[:20]}
    if not A.only:
        with open(os.path.join(EVID, PROP + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d jobs, %d states, %d assertions, %d queries, solver %.1fs, cpu %.0fs, replays %d, build %.1fs, wall %.1fs%s" % (PROP, TIER, len(results), S["states"], S["checks"], S["queries"], S["solver_s"], S["total_s"], replays, tb, time.time() - T0, "" if not unfinished else " (%d jobs not completed)" % len(unfinished)))
    for _, m in unfinished[:10]: print("NOT-COMPLETED " + m)
    if rest:
        j, v, hit = rest[0]; rd = os.path.join(EVID, "replay"); os.makedirs(rd, exist_ok=True); rp = os.path.join(rd, PROP + ".json")
        json.dump([{"property": PROP, "entry": j.g.entry, "params": j.g.params, "input": v["bytes"], "kind": v["kind"], "what": v["msg"], "where": v["stack"], "native": [{"profile": n, **o} for n, o in hit],
            "replay_with": "echo %s | %s %s %s" % (v["bytes"], reps[j.g.crate][0], j.g.entry, ",".join(map(str, j.g.params)) or "-")} for j, v, hit in rest], open(rp, "w"), indent=1)
        for j, v, hit in rest[:5]: print("  %s: %s %s on input %s at %s; native: %s" % (j.label(), v["kind"], v["msg"], v["bytes"], v["stack"][-1:] , hit[0][1]))
        print("VIOLATION property=%s replay=%s" % (PROP, os.path.relpath(rp, V)))
        sys.exit(1)
    if errors:
        for e in errors[:8]: print("  " + e[:1500])
        fail("%d errors" % len(errors))
    sys.exit(0)
main()
