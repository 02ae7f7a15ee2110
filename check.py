#!/usr/bin/env python3
"""check.py setup | check.py <property>      (VERIF_TIER=quick|thorough, VERIF_SEED=n)

Rebuilds the LLVM IR of /repo's working tree together with the harnesses, lets the engine decide the jobs of the
property (jobs.py) with the SMT solver, replays every counterexample against the real crate and writes
evidence/<property>.json.  Exit 0: held on everything explored.  Exit 1: VIOLATION.  Exit 2: nothing could be decided.
"""
import fcntl, hashlib, json, os, re, resource, shutil, struct, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ENGINE = os.path.join(BUILD, "engine", "release", "engine")
Z3 = os.environ.get("VERIF_Z3", "z3-new")
T0 = time.time()
LIMIT = float(os.environ.get("VERIF_LIMIT", 780 if TIER == "quick" else 5400))
sys.path.insert(0, HERE)
import jobs as JOBS  # noqa: E402

env = dict(os.environ)
env["RUSTUP_TOOLCHAIN"] = "stable"
env["CARGO_NET_OFFLINE"] = "true"
env.setdefault("HOME", "/root")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    env.pop(k, None)


class BuildError(Exception):
    pass


def sh(cmd, cwd, log, timeout=600, extra=None):
    e = dict(env)
    e.update(extra or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if log:
        with open(log, "w") as f:
            f.write(" ".join(cmd) + "\n" + r.stdout)
    return r.returncode, r.stdout


def tree(*roots):
    for root in roots:
        if os.path.isfile(root):
            yield root
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                yield os.path.join(d, f)


def digest(*roots):
    h = hashlib.sha256()
    for p in tree(*roots):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def fresh(name, key, make, products):
    """run make() unless the products were already made from inputs with this digest"""
    stamp = os.path.join(BUILD, name + ".stamp")
    try:
        with open(stamp) as f:
            if f.read() == key and all(os.path.exists(p) for p in products):
                return
    except OSError:
        pass
    for p in [stamp] + products:
        if os.path.exists(p):
            os.unlink(p)
    make()
    put(stamp, key)


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def build_engine():
    def make():
        rc, out = sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "engine")],
                     os.path.join(HERE, "engine"), os.path.join(BUILD, "engine.log"))
        if rc:
            raise BuildError("engine: " + out[-1500:])
    src = os.path.join(HERE, "engine", "src")
    fresh("engine", digest(src, os.path.join(HERE, "engine", "Cargo.toml")), make, [ENGINE])


def repo_digest():
    return digest(os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"))


def copy_crate(dst, name=None, shim=True):
    """the crate of /repo as it is, under another package name if asked for; with `shim` its std is verif_std"""
    if os.path.exists(dst):
        shutil.rmtree(dst)
    os.makedirs(dst)
    for p in tree(os.path.join(REPO, "src")):
        q = os.path.join(dst, os.path.relpath(p, REPO))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(p, "rb") as f, open(q, "wb") as g:
            g.write(f.read())
    with open(os.path.join(REPO, "Cargo.toml")) as f:
        t = f.read()
    t = re.sub(r"(?ms)^\[(dev-dependencies|\[bench|\[test|\[example)[^\n]*\n.*?(?=^\[|\Z)", "", t)
    if name:
        t = re.sub(r'(?m)^name\s*=\s*".*"$', 'name = "%s"' % name, t, count=1)
    if shim:
        t = re.sub(r"(?m)^\[dependencies\]", '[dependencies]\nverif_std = { path = "%s" }' % os.path.join(HERE, "shim"), t, count=1)
        lib = os.path.join(dst, "src", "lib.rs")
        with open(lib) as f:
            s = f.read()
        inject = '#[cfg(feature = "std")]\nextern crate verif_std as std;\n'
        # after the inner attributes and inner docs
        lines, at = s.split("\n"), 0
        for i, l in enumerate(lines):
            x = l.strip()
            if x.startswith("#![") or x.startswith("//!"):
                at = i + 1
                depth = x.count("[") - x.count("]")
                while depth > 0 and at < len(lines):
                    depth += lines[at].count("[") - lines[at].count("]")
                    at += 1
        lines.insert(at, inject)
        put(lib, "\n".join(lines))
    put(os.path.join(dst, "Cargo.toml"), t)


PROFILE = """[workspace]
[profile.release]
opt-level = 1
overflow-checks = true
debug-assertions = false
panic = "abort"
lto = "fat"
codegen-units = 1
debug = false
"""
SERDE = 'serde = { version = "1.0", default-features = false, features = ["std", "derive"] }\n'


def manifest(deps, extra=""):
    return """[package]
name = "harness"
version = "0.1.0"
edition = "2021"
[lib]
path = "%s"
%s
[features]
native = []
variants = []
[dependencies]
%s%s""" % (os.path.join(HERE, "harness", "src", "lib.rs"), extra, SERDE, deps)


def ir_dir(variants):
    return os.path.join(BUILD, "ir_variants" if variants else "ir")


def build_ir(variants=False):
    """-> path of the LLVM IR of /repo's crate and the harnesses"""
    d = ir_dir(variants)
    ll = os.path.join(d, "t", "release", "deps", "harness.ll")

    def make():
        for x in ("crate", "crate_c", "crate_n"):
            if os.path.exists(os.path.join(d, x)):
                shutil.rmtree(os.path.join(d, x))
        fp = os.path.join(d, "t", "release", ".fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith(("hyperloglogplus-", "hll_", "harness-", "verif_std-")):
                    shutil.rmtree(os.path.join(fp, x))
        deps = 'hyperloglogplus = { path = "../crate" }\n'
        copy_crate(os.path.join(d, "crate"))
        if variants:
            copy_crate(os.path.join(d, "crate_c"), "hll_const")
            copy_crate(os.path.join(d, "crate_n"), "hll_nostd", shim=False)
            deps += 'hll_const = { path = "../crate_c", features = ["const-loop"] }\n'
            deps += 'hll_nostd = { path = "../crate_n", default-features = false, features = ["alloc"] }\n'
        put(os.path.join(d, "sym", "Cargo.toml"), manifest(deps, 'crate-type = ["cdylib"]') + PROFILE)
        cmd = ["cargo", "rustc", "--release", "--offline", "--target-dir", os.path.join(d, "t")]
        if variants:
            cmd += ["--features", "variants"]
        rc, out = sh(cmd + ["--", "--emit=llvm-ir"], os.path.join(d, "sym"), os.path.join(BUILD, "ir.log"),
                     extra={"RUSTFLAGS": "-C no-vectorize-loops -C no-vectorize-slp"})
        if rc or not os.path.exists(ll):
            raise BuildError("symbolic build: " + out[-2500:])
    fresh("ir_variants" if variants else "ir", repo_digest() + digest(os.path.join(HERE, "harness"), os.path.join(HERE, "shim")), make, [ll])
    return ll


def build_native(variants=False):
    """the replay programs (dev and release profile) over the real crate of /repo and the real std"""
    d = os.path.join(BUILD, "native_variants" if variants else "native")
    bins = [os.path.join(d, "t", x, "native") for x in ("debug", "release")]

    def make():
        deps = 'hyperloglogplus = { path = "%s" }\n' % REPO
        feats = "native"
        if variants:
            copy_crate(os.path.join(d, "crate_c"), "hll_const", shim=False)
            copy_crate(os.path.join(d, "crate_n"), "hll_nostd", shim=False)
            deps += 'hll_const = { path = "../crate_c", features = ["const-loop"] }\n'
            deps += 'hll_nostd = { path = "../crate_n", default-features = false, features = ["alloc"] }\n'
            feats += ",variants"
        put(os.path.join(d, "n", "Cargo.toml"), manifest(deps) + """[[bin]]
name = "native"
path = "%s"
[workspace]
[profile.dev]
debug = 0
[profile.release]
debug = 0
overflow-checks = false
""" % os.path.join(HERE, "harness", "native_main.rs"))
        for prof in ("debug", "release"):
            fp = os.path.join(d, "t", prof, ".fingerprint")
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x.startswith(("hyperloglogplus-", "hll_", "harness-")):
                        shutil.rmtree(os.path.join(fp, x))
            rc, out = sh(["cargo", "build", "--offline", "--features", feats, "--target-dir", os.path.join(d, "t")]
                         + (["--release"] if prof == "release" else []), os.path.join(d, "n"), os.path.join(BUILD, "native.log"))
            if rc:
                raise BuildError("native build: " + out[-2500:])
    fresh("native_variants" if variants else "native", repo_digest() + digest(os.path.join(HERE, "harness")), make, bins)
    return bins


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def left():
    return LIMIT - (time.time() - T0)


def child():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def run_job(job, ll, outdir, stop):
    tag = job["fn"] + "_" + "_".join(map(str, job["params"]))
    out = os.path.join(outdir, tag + ".json")
    secs = min(job["secs"], left() - 40)
    if secs < 5:
        return {"job": job, "tag": tag, "status": "not-run", "why": "time budget used up"}
    cmd = [ENGINE, ll, "--fn", job["fn"], "--param", ",".join(map(str, job["params"])), "--out", out, "--max-secs", str(int(secs)),
           "--solver", Z3, "--paths", "6", "--timeout-ms", str(job.get("timeout_ms", 60000))] + job.get("opts", [])
    t = time.time()
    errf = open(out + ".err", "w+")
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf, text=True, preexec_fn=child, env=env)
    end = t + secs + 60
    while p.poll() is None:
        if time.time() > end or stop.is_set():
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            why = "stopped after a reproduced violation" if stop.is_set() else "engine did not stop in time"
            return {"job": job, "tag": tag, "status": "timeout", "why": why, "wall": time.time() - t}
        time.sleep(0.05)
    errf.seek(0)
    err = errf.read()
    errf.close()
    try:
        with open(out) as f:
            d = json.load(f)
    except Exception:
        return {"job": job, "tag": tag, "status": "error", "why": (err or "no output")[-400:], "wall": time.time() - t}
    st = "decided"
    why = []
    if d["unsupported"]:
        st = "undecided"
        why += ["not explored to the end: " + "; ".join(map(str, d["unsupported"]))[:300]]
    if d["unresolved"]:
        st = "undecided"
        why += ["solver gave no verdict: " + "; ".join(map(str, d["unresolved"]))[:300]]
    if st == "decided":
        for r_ in job.get("reach", [1]):
            if not d["reach"].get(str(r_)) and not d["violations"]:
                st = "undecided"
                why += ["vacuous: point %d of the harness not reached" % r_]
        if d["asserts"] == 0 and not d["violations"]:
            st = "undecided"
            why += ["vacuous: no assertion met"]
    return {"job": job, "tag": tag, "status": st, "why": "; ".join(why), "wall": time.time() - t, "d": d}


CODES = {42: "assertion", 101: "panic", -6: "abort", 134: "abort", -11: "crash", 139: "crash"}


def native(bin_, fn, params, values, timeout=40):
    args = [bin_, fn, ",".join(map(str, params)) or "-", ",".join(map(str, values)) or "-"]
    try:
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return {"rc": None, "what": "hang", "out": "no end within %d s" % timeout, "args": args}
    out = (r.stdout[-1200:] + r.stderr[-1200:]).strip()
    return {"rc": r.returncode, "what": CODES.get(r.returncode), "out": out, "args": args}


def values_of(v):
    return [int(x[1]) for x in v["values"]]


def reproduce(v, job, bins, tries=30):
    """replay a counterexample with the real crate; std's set has a random iteration order, hence several tries"""
    vals = values_of(v)
    last = None
    for i in range(tries):
        for b in bins:
            r = native(b, job["fn"], job["params"], vals)
            last = r
            if r["what"] and (r["what"] != "hang" or i >= 1):
                return r
            if r["rc"] in (76, 77, 78, 79):
                return r
        if left() < 10:
            break
    return last


def known_findings():
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) fn=(\S+) params=(\S+) what=(\S+) (.*)", l)
                if m:
                    out.append(m.groups())
    except OSError:
        pass
    return out


def what_of(r):
    """identifies a failure: the assertion or the panic's place"""
    if r["what"] == "assertion":
        m = re.search(r"ASSERT (\d+) FAILED", r["out"])
        return "assert%s" % (m.group(1) if m else "?")
    if r["what"] == "panic":
        m = re.search(r"panicked at [^\n]*?([\w.-]+\.rs:\d+)", r["out"])
        return "panic@%s" % (m.group(1) if m else "?")
    return r["what"]


def main():
    if sys.argv[1] == "setup":
        with Lock():
            build_engine()
            build_ir()
            build_native()
            if any(j.get("variants") for js in JOBS.JOBS.values() for j in js):
                build_ir(True)
                build_native(True)
        return 0
    prop = sys.argv[1]
    evid = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evid), exist_ok=True)
    if os.path.exists(evid):
        os.unlink(evid)
    todo = [j for j in JOBS.JOBS[prop] if TIER == "thorough" or j["tier"] == "quick"]
    sel = os.environ.get("VERIF_ONLY")
    if sel:
        todo = [j for j in todo if sel in j["fn"] + "_" + "_".join(map(str, j["params"]))]
    variants = any(j.get("variants") for j in todo)
    viol = []          # (job, violation, replay)
    extra = {}
    with Lock():
        build_engine()
        pre = JOBS.PRE.get(prop)
        if pre == "nostd":
            bad = nostd_build(extra)
            if bad:
                return finish_build_violation(prop, evid, bad)
        ll = build_ir(variants)
        bins = build_native(variants)
        # private copies, so that nobody rebuilds them under our feet
    replay_dir = os.path.join(BUILD, "replay", prop)
    os.makedirs(replay_dir, exist_ok=True)
    outdir = os.path.join(BUILD, "out", prop)
    if os.path.exists(outdir):
        shutil.rmtree(outdir)
    os.makedirs(outdir)
    build_s = time.time() - T0

    todo.sort(key=lambda j: -j.get("cost", 10))
    results = []
    lock = threading.Lock()
    validated, mismatches, unrepro, samples = [0], [], [], []
    seen = set()
    stop = threading.Event()

    def one(job):
        if stop.is_set():
            return {"job": job, "tag": job["fn"], "status": "not-run", "why": "stopped after a reproduced violation"}
        r = run_job(job, ll, outdir, stop)
        d = r.get("d")
        if not d:
            return r
        for v in d["violations"]:
            rep = reproduce(v, job, bins)
            if rep and rep["what"]:
                with lock:
                    viol.append((job, v, rep))
                    if TIER == "quick":
                        stop.set()
            else:
                with lock:
                    unrepro.append({"job": r["tag"], "id": v["id"], "kind": v["kind"], "values": values_of(v), "native": (rep or {}).get("out", "")[-200:]})
                r["status"] = "undecided"
                r["why"] += " counterexample does not reproduce"
        # assertions without a verdict: an input of that very path may still show the violation on the real program
        for v in d.get("candidates", []):
            if left() < 15 or stop.is_set():
                break
            rep = reproduce(v, job, bins, 2)
            if rep and rep["what"]:
                with lock:
                    viol.append((job, v, rep))
                    if TIER == "quick":
                        stop.set()
                break
        # the engine's own account of completed paths, against the real program
        for i, m in enumerate(d.get("path_models", [])):
            if left() < 15:
                break
            b = bins[i % 2]
            rep = native(b, job["fn"], job["params"], values_of(m))
            if rep["what"] == "hang":
                rep = native(b, job["fn"], job["params"], values_of(m), 100)
            if rep["what"] and m["kind"] == "ok":
                with lock:
                    viol.append((job, {"kind": "replayed path", "id": what_of(rep), "where": "", "values": m["values"]}, rep))
                continue
            if rep["rc"] != 0:
                continue
            with lock:
                ok = True
                got = {}
                for n in re.findall(r"NOTE (\d+) (\d+)", rep["out"]):
                    got.setdefault(int(n[0]), []).append(int(n[1]))
                want = {}
                for n in m.get("notes", []):
                    want.setdefault(int(n[0]), []).append(n[1])
                for k, ws in want.items():
                    for a, w in zip(got.get(k, []), ws):
                        try:
                            w = int(w)
                        except (TypeError, ValueError):
                            continue
                        ok &= a == w
                if ok:
                    validated[0] += 1
                else:
                    mismatches.append({"job": r["tag"], "values": values_of(m), "engine": m.get("notes"), "native": rep["out"][:200]})
                if len(samples) < 6 and ok:
                    samples.append({"harness": job["fn"], "params": job["params"], "inputs": [hex(x) for x in values_of(m)][:12], "native": "completed, all assertions hold"})
        return r

    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        results = list(ex.map(one, todo))

    known = known_findings()
    fresh_viol, known_hit = [], []
    for job, v, rep in viol:
        w = what_of(rep)
        k = [x for x in known if x[0] == prop and x[1] == job["fn"] and x[2] == ",".join(map(str, job["params"])) and x[3] == w]
        if k:
            known_hit.append(k[0])
        else:
            fresh_viol.append((job, v, rep))
    for k in sorted(set(known_hit)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[4]))
    ds = [r["d"] for r in results if r.get("d")]
    decided = [r for r in results if r["status"] == "decided"]
    und = [r for r in results if r["status"] != "decided"]
    fns = sorted({f for d in ds for f in d["functions"]})
    own = [f for f in fns if "hyperloglog" in f or "hll_" in f]
    s = lambda k: sum(d[k] for d in ds)
    cov = {
        "states": s("paths") + s("infeasible") + s("panics"),
        "transitions": s("steps"),
        "traces_validated_against_impl": validated[0],
        "samples": samples,
        "jobs_decided": len(decided), "jobs_total": len(results),
        "paths": s("paths"), "assertions_met": s("asserts"), "assertions_discharged": s("discharged"),
        "of_those_by_simplification": s("trivial"), "queries": s("queries"), "sat": s("sat"), "unsat": s("unsat"), "unknown": s("unknown"),
        "solver_s": round(s("solver_s"), 2), "max_query_s": max([d["max_query_s"] for d in ds] or [0]),
        "solver": Z3,
        "functions_encoded": [f[-110:] for f in own][:70], "functions_encoded_total": len(fns),
        "bounds": [{"harness": r["job"]["fn"], "params": r["job"]["params"], "bound": r["job"]["bound"], "status": r["status"],
                    **({"why": r["why"][:200]} if r["why"] else {}),
                    **({"paths": r["d"]["paths"], "discharged": r["d"]["discharged"], "queries": r["d"]["queries"],
                        "solver_s": round(r["d"]["solver_s"], 2), "wall_s": round(r["wall"], 1)} if r.get("d") else {})} for r in results],
        "outside": JOBS.OUTSIDE.get(prop, ""),
        "exhaustive": False,
    }
    if extra:
        cov.update(extra)
    if mismatches:
        cov["engine_mismatches"] = mismatches[:5]
    if unrepro:
        cov["unreproduced"] = unrepro[:5]
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking", "coverage": cov,
          "assumptions": JOBS.ASSUME["*"] + JOBS.ASSUME.get(prop, []), "wall_s": round(time.time() - T0, 1), "violations": len(fresh_viol)}
    text = json.dumps(ev, indent=1)
    if len(text) > 60000:
        cov["functions_encoded"] = cov["functions_encoded"][:20]
        cov["bounds"] = cov["bounds"][:60]
        text = json.dumps(ev)
    with open(evid, "w") as f:
        f.write(text)
    for r in und:
        print("UNDECIDED: %s %s: %s" % (r["job"]["fn"], r["job"]["params"], r["why"][:300]))
    for u in unrepro:
        print("UNREPRODUCED: %s" % json.dumps(u)[:400])
    for u in mismatches[:5]:
        print("ENGINE-MISMATCH: %s" % json.dumps(u)[:400])
    print("%s: %d of %d jobs decided, %d paths, %d assertions discharged, %d queries, solver %.1f s, build %.1f s, wall %.1f s"
          % (prop, len(decided), len(results), s("paths"), s("discharged"), s("queries"), s("solver_s"), build_s, time.time() - T0))
    if fresh_viol:
        shown = set()
        for i, (job, v, rep) in enumerate(fresh_viol):
            key = (job["fn"], what_of(rep))
            if key in shown:
                continue
            shown.add(key)
            path = os.path.join(replay_dir, "%s_%d.txt" % (job["fn"], i))
            put(path, "property %s\nharness %s params %s (%s)\nengine: %s id %s at %s\ninputs (in call order): %s\nreplay: %s\nreal crate: %s %s\n%s\n"
                % (prop, job["fn"], job["params"], job["bound"], v["kind"], v["id"], v.get("where", ""), values_of(v),
                   " ".join(rep["args"]), rep["what"], what_of(rep), rep["out"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if not decided:
        print("nothing was decided")
        return 2
    return 0


PROBE = """#![no_std]
extern crate alloc;
use core::alloc::{GlobalAlloc, Layout};
use core::hash::{BuildHasher, Hasher};
use hll::HyperLogLog;
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, _: Layout) -> *mut u8 { core::ptr::null_mut() }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static G: A = A;
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! { loop {} }
struct H(u64);
impl Hasher for H { fn finish(&self) -> u64 { self.0 } fn write(&mut self, _: &[u8]) { self.0 += 1 } }
struct B;
impl BuildHasher for B { type Hasher = H; fn build_hasher(&self) -> H { H(0) } }
#[no_mangle]
pub extern "C" fn probe() -> f64 {
    let (mut a, mut b) = match (hll::HyperLogLogPF::<str, B>::new(8, B), hll::HyperLogLogPF::<u64, B>::new(8, B)) { (Ok(a), Ok(b)) => (a, b), _ => return 0.0 };
    a.insert("x");
    b.insert_any(&7u8);
    let _ = a.merge(&b);
    a.count()
}
"""


def nostd_build(extra):
    """C19: the crate must build without std, and link into a program that has no std.  Only the compiler can tell; a failure
    here while the default build works is the violation"""
    d = os.path.join(BUILD, "nostd")
    copy_crate(os.path.join(d, "crate"), "hll", shim=False)
    put(os.path.join(d, "probe", "src", "lib.rs"), PROBE)
    put(os.path.join(d, "probe", "Cargo.toml"), """[package]
name = "probe"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["staticlib"]
[dependencies]
hll = { path = "../crate", default-features = false, features = ["alloc"] }
[profile.release]
panic = "abort"
[workspace]
""")
    probe = sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(d, "t")], os.path.join(d, "probe"), None)
    with open(os.path.join(d, "crate", "Cargo.toml"), "a") as f:
        f.write("\n[workspace]\n")
    dflt = sh(["cargo", "check", "--offline", "--target-dir", os.path.join(d, "t")], os.path.join(d, "crate"), None)
    if dflt[0]:
        raise BuildError("default build: " + dflt[1][-1500:])
    extra["no_std_build"] = "builds and links without std" if probe[0] == 0 else "fails"
    return (probe[0], probe[1], ["--no-default-features", "--features", "alloc", "(linked into a program without std)"]) if probe[0] else None


def finish_build_violation(prop, evid, bad):
    path = os.path.join(BUILD, "replay", prop, "no_std_build.txt")
    put(path, "cargo build %s\n%s" % (" ".join(bad[2]), bad[1]))
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [bad[1][-600:]], "no_std_build": "fails"},
          "assumptions": JOBS.ASSUME["*"], "wall_s": round(time.time() - T0, 1), "violations": 1}
    put(evid, json.dumps(ev))
    print(bad[1][-1500:])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("BUILD FAILED: %s" % e)
        sys.exit(2)
