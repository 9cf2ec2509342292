"""Writes a planted bug: seed.bug(id, property, [(file, old, new)], main_rs, needs, what). Development aid."""
import json, os, shutil, subprocess, tempfile
ROOT = "/verif/seeded"
CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rust_eth_kzg = { path = "@REPO@/eip7594"%s }
kzg_multi_open = { path = "@REPO@/cryptography/kzg_multi_open", package = "crate_crypto_kzg_multi_open_fk20" }
erasure_codes = { path = "@REPO@/cryptography/erasure_codes", package = "crate_crypto_internal_eth_kzg_erasure_codes" }
polynomial = { path = "@REPO@/cryptography/polynomial", package = "crate_crypto_internal_eth_kzg_polynomial" }
bls12_381 = { path = "@REPO@/cryptography/bls12_381", package = "crate_crypto_internal_eth_kzg_bls12_381" }
%shex = "0.4"
serde_json = "1"
[profile.release]
opt-level = 2
debug = false
'''
SH = '''#!/bin/bash
# Exits 0 if the behaviour described in meta.json is right, non-zero otherwise. Run with cwd at the repository.
D=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$D/main.rs" "$T/src/main.rs" && cp "$D/Cargo.lock.txt" "$T/Cargo.lock" && sed "s#@REPO@#$REPO#" "$D/Cargo.toml.txt" > "$T/Cargo.toml"
cp "$D"/data.* "$T/" 2>/dev/null
cd "$T" && export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS="%s"
cargo build --release --offline > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 3; }
timeout 200 "$T/target/release/demo"
'''
def bug(id, prop, edits, main, needs, what, features=', features = ["multithreaded"]', rustflags="-A warnings", sh=None, files=None, deps=""):
    d = os.path.join(ROOT, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
        for f, old, new in edits:
            p = os.path.join(t, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
    finally:
        shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    if main:
        open(d + "/main.rs", "w").write(main)
        open(d + "/Cargo.toml.txt", "w").write(CARGO % (features, deps))
        if os.path.exists("/verif/tools/seedlib/Cargo.lock.txt"):
            shutil.copy("/verif/tools/seedlib/Cargo.lock.txt", d + "/Cargo.lock.txt")
    for n, c in (files or {}).items():
        open(os.path.join(d, n), "w").write(c)
    open(d + "/demo.sh", "w").write(sh or SH % rustflags)
    os.chmod(d + "/demo.sh", 0o755)
# make the lock file once
if not os.path.exists("/verif/tools/seedlib/Cargo.lock.txt"):
    t = tempfile.mkdtemp()
    os.makedirs(t + "/src"); open(t + "/src/main.rs", "w").write("fn main(){}")
    open(t + "/Cargo.toml", "w").write((CARGO % ("", 'c_eth_kzg = { path = "@REPO@/bindings/c" }\n')).replace("@REPO@", "/repo"))
    if os.path.exists("/verif/harness/Cargo.lock"): shutil.copy("/verif/harness/Cargo.lock", t + "/Cargo.lock")
    subprocess.check_call(["cargo", "generate-lockfile", "--offline"], cwd=t)
    shutil.copy(t + "/Cargo.lock", "/verif/tools/seedlib/Cargo.lock.txt")
    shutil.rmtree(t)
