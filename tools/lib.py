"""Common machinery of the checks: building, running TLC, replaying, reporting."""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KZG_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
TLADEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def pick(q, t):
    """quick / thorough value"""
    return t if THOROUGH else q


def cargo_env(extra=None):
    e = dict(os.environ)
    e.update({
        "HOME": "/root", "PATH": "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
        "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true",
        "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "RUSTFLAGS": "--cfg eth_kzg_verif -A warnings",
        "CARGO_INCREMENTAL": "0",
    })
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(extra or {})
    return e


REPO_CRATES = ["rust_eth_kzg", "crate_crypto_kzg_multi_open_fk20", "crate_crypto_internal_eth_kzg_erasure_codes",
               "crate_crypto_internal_eth_kzg_polynomial", "crate_crypto_internal_eth_kzg_bls12_381",
               "crate_crypto_internal_eth_kzg_maybe_rayon"]


def repo_hash(dirs=("eip7594", "cryptography", "maybe_rayon", "bindings", "Cargo.toml")):
    h = hashlib.sha256()
    for d in dirs:
        p = os.path.join(REPO, d)
        if os.path.isfile(p):
            h.update(open(p, "rb").read())
            continue
        for root, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", "build", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".json", ".java", ".go", ".h", ".js")):
                    q = os.path.join(root, f)
                    h.update(q.encode())
                    h.update(open(q, "rb").read())
    return h.hexdigest()


def cargo_build(manifest_dir, target, args=(), crates=(), env=None, profile="--release"):
    """cargo build of a crate in /verif against /repo's working tree. Cargo's freshness test uses
    modification times; a content hash guards against trees whose times went backwards."""
    target = os.path.join(BUILD, target)
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, ".repo_hash")
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    e = cargo_env({"CARGO_TARGET_DIR": target})
    e.update(env or {})
    if old is not None and old != h:
        for c in REPO_CRATES + list(crates):
            subprocess.run(["cargo", "clean", "--offline", "-p", c] + ([profile] if profile else []), cwd=manifest_dir, env=e,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if os.path.exists(stamp):
        os.unlink(stamp)
    t = time.time()
    r = subprocess.run(["cargo", "build", "--offline"] + ([profile] if profile else []) + list(args), cwd=manifest_dir, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("cargo build failed in %s:\n%s" % (manifest_dir, r.stdout[-6000:]))
    open(stamp, "w").write(h)
    log("built", os.path.basename(manifest_dir), " ".join(args), "in %.1fs" % (time.time() - t))
    return os.path.join(target, "release" if profile else "debug")


_hlock = threading.Lock()
_built = {}


def harness(variant="mt"):
    """Path of the conformance binary. variant: mt | none | single (library feature sets)."""
    with _hlock:
        if variant not in _built:
            args = {"mt": [], "none": ["--no-default-features"], "single": ["--no-default-features", "--features", "single"]}[variant]
            d = cargo_build(os.path.join(VERIF, "harness"), "target" if variant == "mt" else "target-" + variant, args, ["kzgconf"])
            _built[variant] = os.path.join(d, "kzgconf")
        return _built[variant]


def workspace():
    """A copy of /repo's sources whose workspace leaves out the nim member (its git dependency cannot be fetched);
    unchanged files keep their modification time, changed ones get a new one."""
    ws = os.path.join(BUILD, "ws")
    os.makedirs(ws, exist_ok=True)
    subprocess.run(["rsync", "-rl", "--checksum", "--delete", "--exclude=/.git", "--exclude=/target", "--exclude=/test_vectors", "--exclude=node_modules",
                    "--exclude=/bindings/*/build", "--exclude=/Cargo.toml", "--exclude=/Cargo.lock", REPO + "/", ws + "/"], check=True)
    toml = "".join(l for l in open(os.path.join(REPO, "Cargo.toml")).read().splitlines(True) if '"bindings/nim/rust_code"' not in l)
    for name, text in (("Cargo.toml", toml), ("Cargo.lock", open(os.path.join(VERIF, "tools", "ws.Cargo.lock")).read())):
        p = os.path.join(ws, name)
        if name == "Cargo.lock" and os.path.exists(p):
            continue
        if not os.path.exists(p) or open(p).read() != text:
            open(p, "w").write(text)
    return ws


def harness_c():
    """Driver of the C interface (and the interface itself) built from /repo's working tree."""
    with _hlock:
        if "c" not in _built:
            workspace()
            d = cargo_build(os.path.join(VERIF, "harness-c"), "target-c", [], ["c_eth_kzg", "kzgc"], env={"RUSTFLAGS": "-A warnings"})
            _built["c"] = os.path.join(d, "kzgc")
        return _built["c"]


def ws_build(pkg, artifacts, name):
    """Build one member of the workspace copy (release, without link-time optimisation) and copy its artifacts."""
    with _hlock:
        if name not in _built:
            ws = workspace()
            d = cargo_build(ws, "target-ws", ["-p", pkg], [], env={"RUSTFLAGS": "-A warnings", "CARGO_PROFILE_RELEASE_LTO": "off"})
            _built[name] = d
        return [os.path.join(_built[name], a) for a in artifacts]


def node_module():
    """The Node.js module: index.js of the repository beside the built addon."""
    so, = ws_build("node-eth-kzg", ["libnode_eth_kzg.so"], "node")
    d = os.path.join(BUILD, "node")
    os.makedirs(d, exist_ok=True)
    shutil.copy(so, os.path.join(d, "node-eth-kzg.linux-x64-gnu.node"))
    shutil.copy(os.path.join(REPO, "bindings/node/index.js"), os.path.join(d, "index.js"))
    return os.path.join(d, "index.js")


def java_driver():
    """Class path and library directory: the Java classes of the repository, the built JNI library and the driver."""
    so, = ws_build("java_eth_kzg", ["libjava_eth_kzg.so"], "java")
    d = os.path.join(BUILD, "java")
    cls = os.path.join(d, "classes")
    shutil.rmtree(cls, ignore_errors=True)
    os.makedirs(cls)
    shutil.copy(so, os.path.join(d, "libjava_eth_kzg.so"))
    src = []
    for root, ds, fs in os.walk(os.path.join(REPO, "bindings/java/java_code/src/main/java")):
        src += [os.path.join(root, f) for f in fs if f.endswith(".java")]
    r = subprocess.run(["javac", "-nowarn", "-encoding", "UTF-8", "-cp", TLADEPS, "-d", cls] + src + [os.path.join(VERIF, "harness-java", "Driver.java")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("javac:\n" + r.stdout[-4000:])
    return cls + ":" + TLADEPS, d


def go_driver():
    """The Go package of the repository (with the built C library where its cgo directives look) and its driver."""
    a, = ws_build("c_eth_kzg", ["libc_eth_kzg.a"], "cstatic")
    d = os.path.join(BUILD, "go")
    lib = os.path.join(d, "build", "x86_64-unknown-linux-gnu")
    for x in (lib, os.path.join(d, "driver")):
        os.makedirs(x, exist_ok=True)
    src = os.path.join(REPO, "bindings/golang")
    for f in os.listdir(d):
        if f.endswith(".go"):
            os.unlink(os.path.join(d, f))
    for f in os.listdir(src):
        if f == "go.mod" or (f.endswith(".go") and not f.endswith("_test.go")):
            shutil.copy(os.path.join(src, f), os.path.join(d, f))
    shutil.copy(os.path.join(BUILD, "ws/bindings/c/build/c_eth_kzg.h"), os.path.join(d, "build", "c_eth_kzg.h"))
    shutil.copy(a, os.path.join(lib, "libc_eth_kzg.a"))
    for f in ("main.go", "shim.c", "shim.h"):
        shutil.copy(os.path.join(VERIF, "harness-go", f), os.path.join(d, "driver", f))
    e = dict(os.environ)
    # the linker's inputs are part of what the go command caches by
    tag = hashlib.sha256(open(a, "rb").read()).hexdigest()[:16]
    e.update({"GOPROXY": "off", "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod", "GOCACHE": os.path.join(BUILD, "gocache"), "CGO_ENABLED": "1", "GONOSUMDB": "*", "GOSUMDB": "off",
              "HOME": "/root", "CGO_CFLAGS": "-O2 -DKZG_LIB_" + tag,
              "CGO_LDFLAGS": " ".join("-Wl,--wrap=eth_kzg_" + f for f in ("das_context_new", "das_context_free", "free_error_message", "blob_to_kzg_commitment")), "CGO_LDFLAGS_ALLOW": ".*"})
    r = subprocess.run(["go", "build", "-o", "drv", "./driver"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("go build failed:\n" + r.stdout[-4000:])
    return os.path.join(d, "drv")


def tlcext():
    src = os.path.join(VERIF, "tlcext", "kzg")
    out = os.path.join(BUILD, "tlcext")
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        h.update(open(os.path.join(src, f), "rb").read())
    st = os.path.join(out, ".hash")
    if os.path.exists(st) and open(st).read() == h.hexdigest():
        return out
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(["javac", "-nowarn", "-cp", TLAJAR, "-d", out] + [os.path.join(src, f) for f in os.listdir(src) if f.endswith(".java")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("javac: " + r.stdout)
    open(st, "w").write(h.hexdigest())
    return out


class Tlc:
    """Result of one TLC run."""

    def __init__(self, name, rc, out, wall):
        out = "\n".join(l[:1000] for l in out.splitlines())      # states in error messages can be megabytes long
        self.name, self.rc, self.out, self.wall = name, rc, out, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.violated = re.findall(r"Invariant (\w+) is violated|property (\w+) (?:is|was) violated", out)
        self.post_false = "POSTCONDITION" in out.upper() and ("is false" in out.lower() or "was violated" in out.lower() or "violated" in out.lower())


def cfg_text(constants=None, spec="Spec", invariants=(), properties=(), constraint=None, post=None, view=None, deadlock=False, extra=""):
    s = "SPECIFICATION %s\n" % spec
    if constants:
        s += "CONSTANTS\n" + "".join("  %s %s %s\n" % (k, "" if str(v).startswith("<-") else "=", v) for k, v in constants.items())
    for i in invariants:
        s += "INVARIANT %s\n" % i
    for p in properties:
        s += "PROPERTY %s\n" % p
    if constraint:
        s += "CONSTRAINT %s\n" % constraint
    if post:
        s += "POSTCONDITION %s\n" % post
    if view:
        s += "VIEW %s\n" % view
    s += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
    return s + extra


def tlc(module, cfg, work, field="small", workers=8, out=None, heap="6g", timeout=800, args=(), name=None, jprops=(), defs=None):
    """Run TLC. Returns Tlc. Raises ToolError on anything but success or a violation."""
    ext = tlcext()
    name = name or module
    md = os.path.join(work, "tlc-" + name)
    shutil.rmtree(md, ignore_errors=True)
    os.makedirs(md, exist_ok=True)
    cf = os.path.join(md, name + ".cfg")
    open(cf, "w").write(cfg)
    path = os.path.join(SPEC, module + ".tla")
    if defs:        # constants a configuration file cannot express
        path = os.path.join(md, name + "W.tla")
        open(path, "w").write("---- MODULE %sW ----\nEXTENDS %s\n%s\n====\n" % (name, module, "\n".join("%s == %s" % d for d in defs.items())))
    lib = SPEC + ":" + os.path.join(SPEC, field) + ":" + work
    cmd = ["timeout", str(timeout), "java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-DTLA-Library=" + lib,
           "-Dkzg.out=" + (out or md), "-Dkzg.work=" + work,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:tlc2.overrides.CommunityModules:kzg.Overrides"] + \
        list(jprops) + ["-cp", ":".join([ext, TLAJAR, TLADEPS]), "tlc2.TLC", "-workers", str(workers),
                        "-metadir", os.path.join(md, "states"), "-noGenerateSpecTE", "-config", cf] + list(args) + [path]
    e = dict(os.environ)
    e["VERIF_SEED"] = str(SEED)
    t = time.time()
    r = subprocess.run(cmd, cwd=md, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    open(os.path.join(md, "log"), "w").write(r.stdout)
    res = Tlc(name, r.returncode, r.stdout, time.time() - t)
    shutil.rmtree(os.path.join(md, "states"), ignore_errors=True)
    if r.returncode not in (0, 10, 11, 12, 13, 14) or (r.returncode == 0 and "Model checking completed. No error" not in res.out):
        raise ToolError("TLC %s failed (rc %d): %s" % (name, r.returncode, "\n".join(
            l[:400] for l in r.stdout.splitlines() if not re.match(r"(Semantic|Linting|Parsing)", l))[-4000:]))
    return res


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.work = os.path.join(VERIF, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.kernel = False
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.violations, self.known = [], []
        self.knownlist = [k for k in load_known() if k.get("property") == pid]

    # ---- model checking of the design ----
    def mc(self, module, cfg, name=None, **kw):
        """A design-level run: a violation here means the specification is wrong, not the code."""
        r = tlc(module, cfg, self.work, name=name, **kw)
        if r.rc != 0:
            raise ToolError("specification %s violates its own properties:\n%s" % (r.name, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault("tlc", []).append({"model": r.name, "states": r.distinct, "generated": r.generated, "depth": r.depth, "wall_s": round(r.wall, 1)})
        log("TLC %s: %d distinct states, depth %d, %.1fs" % (r.name, r.distinct, r.depth, r.wall))
        return r

    def gen(self, module, constants, name=None, out="cases.ndjson", field="bls", invariants=(), view=None, **kw):
        """Let TLC evaluate the specification over the real field and write behaviours."""
        name = name or module
        if field == "bls" and not self.kernel:
            self.kernel = True
            self.mc("KernelCheck", cfg_text({"Rounds": pick(72, 360)}, invariants=["KernelsAgree"]), name="KernelCheck", field="bls", workers=4)
        d = os.path.join(self.work, "out-" + name)
        os.makedirs(d, exist_ok=True)
        r = self.mc(module, cfg_text(constants, invariants=invariants, view=view), name=name, field=field, out=d, **kw)
        p = os.path.join(d, out)
        if not os.path.exists(p):
            raise ToolError("%s wrote no behaviours" % name)
        lines = sorted(open(p).read().splitlines())
        open(p, "w").write("\n".join(lines) + "\n")
        log("%s: %d behaviours, %.1f MB" % (name, len(lines), os.path.getsize(p) / 1e6))
        return p

    # ---- replay ----
    def run_harness(self, family, files, opts=None, variant="mt", timeout=850, env=None, binary=None):
        b = binary or harness(variant)
        cmd = ["timeout", str(timeout), b, family] + ["--%s=%s" % kv for kv in (opts or {}).items()] + list(files)
        e = dict(os.environ)
        e["VERIF_SEED"] = str(SEED)
        e["RUST_BACKTRACE"] = "0"
        e.update(env or {})
        t = time.time()
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd=self.work)
        if r.returncode == 124:
            raise ToolError("harness timed out: %s" % " ".join(cmd))
        if r.returncode < 0 or r.returncode in (134, 139, 135, 136, 132):
            # the code under test brought the process down
            self.violation("%s: process died (status %d) while running %s\n%s" % (family, r.returncode, " ".join(cmd[2:]), r.stderr[-1500:]),
                           {"family": family, "opts": opts or {}, "variant": variant, "files": list(files)})
            return {"runs": 0, "steps": 0, "fails": [], "samples": []}
        if r.returncode != 0:
            raise ToolError("harness failed (rc %d): %s\n%s" % (r.returncode, " ".join(cmd), r.stderr[-3000:]))
        res = json.loads(r.stdout.strip().splitlines()[-1])
        log("harness %s [%s]: %d runs, %d steps, %d failures, %.1fs" % (family, variant, res["runs"], res.get("steps", 0), len(res["fails"]), time.time() - t))
        return res

    def replay(self, family, files, opts=None, variant="mt", **kw):
        res = self.run_harness(family, files, opts, variant, **kw)
        self.traces += res["runs"]
        self.samples += res.get("samples", [])[:2]
        self.notes.setdefault("replays", []).append({"family": family, "library_features": variant, "options": opts or {}, "behaviours": res["runs"], "operations": res.get("steps", 0)})
        for f in res["fails"]:
            self.violation(f["why"], {"family": family, "opts": opts or {}, "variant": variant, "case": f.get("line"), "step": f.get("step"), "cfg": f.get("cfg")}, f)
        return res

    # ---- outcomes ----
    def violation(self, why, rep, fail=None):
        for k in self.knownlist:
            if k.get("status") == "known" and matches_known(k, why, rep, fail):
                if k["id"] not in self.known:
                    self.known.append(k["id"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        n = len(self.violations)
        path = os.path.join(self.work, "replay-%d.json" % n)
        if n < 20:
            json.dump({"property": self.pid, "why": why, "seed": SEED, **rep}, open(path, "w"), indent=1)
        self.violations.append(why)
        if n < 5:
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            print("  " + why[:600].replace("\n", "\n  "), flush=True)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6] or ["none"]}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        clean(self.work, keep=bool(self.violations))
        log("%s: %d violations, %d states, %d behaviours validated against the implementation" % (self.pid, len(self.violations), self.states, self.traces))
        return 1 if self.violations else 0


def clean(work, keep):
    """Drop bulky generated behaviours; replay files carry their own case."""
    for root, ds, fs in os.walk(work):
        for f in fs:
            if f.startswith("replay-"):
                continue
            p = os.path.join(root, f)
            if os.path.getsize(p) > 2_000_000 and not (keep and os.environ.get("KZG_KEEP")):
                os.unlink(p)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def matches_known(k, why, rep, fail):
    m = k.get("match", {})
    c = rep.get("case") or {}
    ok = bool(m)
    if "why_regex" in m:
        ok = ok and re.search(m["why_regex"], why) is not None
    for key, val in m.get("case", {}).items():
        ok = ok and isinstance(c, dict) and c.get(key) == val
    return ok


def parallel(*fs):
    """Run thunks concurrently, propagate the first error, return results."""
    with ThreadPoolExecutor(max_workers=len(fs)) as ex:
        futs = [ex.submit(f) for f in fs]
        return [f.result() for f in futs]


def main_guard(f):
    try:
        sys.exit(f())
    except ToolError as e:
        print("CHECK ERROR: %s" % e, flush=True)
        sys.exit(2)
