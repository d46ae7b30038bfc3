"""Builds everything a check needs from the committed sources and /repo's working tree:
the symbolic executor, the linked LLVM IR of harness + cbored + std, and the native replayers."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
HARNESS = os.path.join(VERIF, "harness")

def log(*a): print(*a, file=sys.stderr, flush=True)

def run(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE); kw.setdefault("stderr", subprocess.PIPE); kw.setdefault("text", True)
    r = subprocess.run(cmd, **kw)
    if r.returncode != 0:
        raise RuntimeError("command failed (%d): %s\n%s\n%s" % (r.returncode, " ".join(map(str, cmd)), (r.stdout or "")[-3000:], (r.stderr or "")[-6000:]))
    return r.stdout

def rust_lib():
    h = os.path.expanduser("~/.rustup/toolchains/%s/lib" % TOOLCHAIN)
    if not os.path.isdir(h):
        h = os.path.join(run(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"]).strip(), "lib")
    return h

def tool(name): return os.path.join(rust_lib(), "rustlib", TRIPLE, "bin", name)

def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def stamp_ok(path, key):
    try: return open(path).read() == key
    except OSError: return False

def put(path, s):
    with open(path + ".tmp", "w") as f: f.write(s)
    os.replace(path + ".tmp", path)

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): self.f.close()

def engine():
    src = glob.glob(os.path.join(VERIF, "engine", "*.cpp")); hdr = glob.glob(os.path.join(VERIF, "engine", "*.h"))
    out = os.path.join(BUILD, "vse"); st = out + ".stamp"
    key = sha(src + hdr)
    if stamp_ok(st, key) and os.path.exists(out): return out
    log("building the symbolic executor"); os.makedirs(BUILD, exist_ok=True)
    L = rust_lib()
    lib = sorted(glob.glob(os.path.join(L, "libLLVM.so.*")))[0]
    od = os.path.join(BUILD, "obj"); os.makedirs(od, exist_ok=True)
    ps, objs = [], []
    for s in src:
        o = os.path.join(od, os.path.basename(s) + ".o"); objs.append(o)
        ps.append((s, subprocess.Popen(["g++", "-std=c++17", "-O2", "-I/usr/lib/llvm-18/include", "-c", s, "-o", o], stderr=subprocess.PIPE, text=True)))
    for s, p in ps:
        _, e = p.communicate()
        if p.returncode: raise RuntimeError("g++ %s: %s" % (s, e[-3000:]))
    run(["g++"] + objs + ["-o", out, lib, "-Wl,-rpath," + L, "-lz3", "-lpthread"])
    put(st, key)
    return out

SKIP = ("panic_abort", "profiler_builtins", "compiler_builtins", "test", "proc_macro", "getopts", "rustc_std_workspace", "sysroot")
def stdlib_bc():
    out = os.path.join(BUILD, "stdall.bc"); st = out + ".stamp"
    d = os.path.join(rust_lib(), "rustlib", TRIPLE, "lib")
    rl = sorted(glob.glob(os.path.join(d, "lib*.rlib")))
    key = hashlib.sha256(("\n".join(rl)).encode()).hexdigest()
    if stamp_ok(st, key) and os.path.exists(out): return out
    log("extracting the standard library's bitcode")
    wd = os.path.join(BUILD, "std"); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    bcs = []
    for r in rl:
        n = re.match(r"lib(.+)-[0-9a-f]+\.rlib$", os.path.basename(r)).group(1)
        if n.startswith(SKIP): continue
        xd = os.path.join(wd, n); os.makedirs(xd)
        run([tool("llvm-ar"), "x", r], cwd=xd)
        for i, o in enumerate(sorted(glob.glob(xd + "/*.o"))):
            bc = "%s/%d.bc" % (xd, i)
            p = subprocess.run([tool("llvm-objcopy"), "--dump-section", ".llvmbc=" + bc, o, "/dev/null"], capture_output=True)
            if os.path.exists(bc) and os.path.getsize(bc): bcs.append(bc)
    run([tool("llvm-link")] + bcs + ["-o", out])
    shutil.rmtree(wd, ignore_errors=True)
    put(st, key)
    return out

def repo_files():
    fs = []
    for base in ("src", "cbored-derive/src"):
        for dp, dn, fn in os.walk(os.path.join(REPO, base)):
            fs += [os.path.join(dp, f) for f in fn]
    for f in ("Cargo.toml", "cbored-derive/Cargo.toml", "build.rs", "cbored-derive/build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p): fs.append(p)
    return fs

DERIVE = ["harness_derive:" + f for f in ("c19", "c20", "c21")]
def spec(crate):
    "a harness crate, or one of its features: directory, name of the build, cargo arguments"
    c, _, f = os.path.basename(crate).partition(":")
    return os.path.join(VERIF, c), c + ("-" + f if f else ""), ["--features", f] if f else []

def harness_files(crate):
    fs = []
    if crate != HARNESS: fs = [os.path.join(HARNESS, "src", f) for f in ("vs.rs", "model.rs", "k.rs", "replay_main.rs")]
    for dp, dn, fn in os.walk(crate):
        if "target" in dn: dn.remove("target")
        fs += [os.path.join(dp, f) for f in fn]
    return fs

def cargo_env(flags):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"): e.pop(k)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", RUSTFLAGS=flags)
    return e

def cargo(crate, tdir, args, flags, key):
    """cargo build whose freshness is decided by content (key), not by time stamps"""
    os.makedirs(tdir, exist_ok=True)
    st = os.path.join(tdir, "content.stamp")
    if not stamp_ok(st, key):
        if os.path.exists(st): os.remove(st)
        for pat in ("cbored-*", "cbored_derive-*", "harness*-*"):
            for p in glob.glob(os.path.join(tdir, "**", ".fingerprint", pat), recursive=True) + glob.glob(os.path.join(tdir, "**", "deps", pat + ".bc"), recursive=True):
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    out = run(["cargo", "build", "--offline", "--message-format=json-render-diagnostics", "--target-dir", tdir, "--target", TRIPLE] + args,
              cwd=crate, env=cargo_env(flags))
    put(st, key)
    return [json.loads(l) for l in out.splitlines() if l.startswith("{")]

def harness_ir(crate=HARNESS):
    """linked, lightly canonicalised LLVM IR of the harness crate, cbored and std; returns path"""
    crate, name, feat = spec(crate)
    key = sha(repo_files() + harness_files(crate), "ir6")
    out = os.path.join(BUILD, name + ".bc"); st = out + ".stamp"
    if stamp_ok(st, key) and os.path.exists(out): return out
    log("compiling %s and /repo to LLVM IR" % name)
    msgs = cargo(crate, os.path.join(BUILD, "t-ir-" + name), ["--lib"] + feat, "--emit=llvm-bc -C no-prepopulate-passes --cfg vse", key)
    bcs, libname = [], None
    for m in msgs:
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("cbored", os.path.basename(crate)):
            rl = [f for f in m["filenames"] if f.endswith((".rlib", ".rmeta"))][0]
            # 'harness' is a lib: deps/libX-HASH.rlib is hard-linked to libX.rlib for the root package
            cands = [rl] + glob.glob(os.path.join(os.path.dirname(rl), "deps", "*.bc"))
            b = os.path.basename(rl)
            mm = re.match(r"lib(.+-[0-9a-f]+)\.(rlib|rmeta)$", b)
            if mm: bcs.append(os.path.join(os.path.dirname(rl), mm.group(1) + ".bc"))
            else:
                d = os.path.join(os.path.dirname(rl), "deps")
                c = sorted(glob.glob(os.path.join(d, m["target"]["name"].replace("-", "_") + "-*.bc")), key=os.path.getmtime)
                bcs.append(c[-1])
    if len(bcs) != 2: raise RuntimeError("unexpected cargo artifacts: %r" % bcs)
    text = "".join(open(f).read() for f in harness_files(crate) if f.endswith(".rs"))
    entries = sorted(set(re.findall(r"pub fn (h_\w+)", text)))
    l = out + ".l"
    run([tool("llvm-link")] + bcs + [stdlib_bc(), "-o", l])
    run([tool("opt"), "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,adce),globaldce",
         "-internalize-public-api-list=" + ",".join(entries), l, "-o", out])
    os.remove(l)
    put(st, key)
    return out

def replayer(crate=HARNESS, release=False):
    crate, name, feat = spec(crate)
    prof = "release" if release else "dev"
    key = sha(repo_files() + harness_files(crate), "rp1" + prof)
    tdir = os.path.join(BUILD, "t-rp-%s-%s" % (name, prof))
    exe = os.path.join(tdir, TRIPLE, "release" if release else "debug", "replay")
    if stamp_ok(os.path.join(tdir, "content.stamp"), key) and os.path.exists(exe): return exe
    log("building the native %s replayer" % prof)
    # debug assertions and overflow checks are on in dev, off in release, as users get them
    cargo(crate, tdir, ["--bin", "replay"] + feat + (["--release"] if release else ["--config", "profile.dev.opt-level=0", "--config", 'profile.dev.panic="unwind"']), "", key)
    return exe

if __name__ == "__main__":
    with Lock():
        t = time.time(); engine(); stdlib_bc(); log("engine+std %.1fs" % (time.time() - t))
        for c in [HARNESS] + DERIVE:
            t = time.time()
            try: harness_ir(c); replayer(c); replayer(c, release=True)
            except RuntimeError as e: log(str(e)[-2000:])  # the check that needs it says so
            log("%s %.1fs" % (c, time.time() - t))
