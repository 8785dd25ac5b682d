#!/usr/bin/env python3
"""Writes the planted bugs of seeds.py to /verif/seeded/<id>/ (patch.diff, demo.sh, the demonstration crate, meta.json)."""
import difflib, json, os, tempfile, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from seeds import SEEDS
DEMO = r'''#!/bin/bash
# Builds the small program beside this file against /repo and runs it: 0 when the property held, 1 when it did not.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.81.0-x86_64-unknown-linux-gnu
export SKIP_WASM_BUILD=1 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0 RUST_LOG=off
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
cp -r "$here/crate" "$d/crate"
[ -f "$here/kit.tgz" ] && tar -xzf "$here/kit.tgz" -C "$d/crate"
cp "$here/crate/Cargo.toml.in" "$d/crate/Cargo.toml"
sed -i "s|@REPO@|$PWD|g" "$d"/crate/Cargo.toml $(ls "$d"/crate/wrap/*/Cargo.toml 2>/dev/null)
cp "$here/crate/lock" "$d/crate/Cargo.lock"
export CARGO_TARGET_DIR=${DEMO_TARGET:-$d/target}
(cd "$d/crate" && cargo build --offline -q >"$d/log" 2>&1) || { tail -20 "$d/log"; exit 3; }
timeout 100 "$CARGO_TARGET_DIR/debug/demo"
rc=$?
[ $rc -eq 0 ] && exit 0
exit 1
'''
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.dev]
debug = 0
debug-assertions = false
overflow-checks = true
[dependencies]
%s
frame-support = "35"
frame-system = "35"
pallet-balances = "36"
pallet-preimage = "35"
pallet-scheduler = "36"
pallet-vesting = "35"
sp-runtime = "38"
sp-io = "37"
sp-staking = "33"
parity-scale-codec = { version = "3.6.12", features = ["derive"] }
scale-info = { version = "2", features = ["derive"] }
'''
DEP = {"democracy": 'pallet-democracy = { path = "@REPO@/pallets/democracy" }',
       "elections": 'pallet-elections-phragmen = { path = "@REPO@/pallets/elections-phragmen" }',
       "vesting": 'on-slash-vesting = { path = "@REPO@/pallets/on-slash-vesting" }',
       "macros": 'macros = { path = "@REPO@/macros" }'}
XDEP = """
parity-scale-codec = { version = "3.6.12", features = ["derive"] }
scale-info = { version = "2.11.3", features = ["derive"] }
serde = { version = "1", features = ["derive"] }
frame-support = "35"
frame-system = "35"
pallet-balances = "36"
sp-io = "37"
sp-runtime = "=38.0.0"
sp-arithmetic = "26"
polimec-common = { path = "wrap/polimec-common" }
pallet-linear-release = { path = "wrap/linear-release" }
"""
XFUND = """pallet-funding = { path = "wrap/funding" }
pallet-proxy-bonding = { path = "wrap/proxy-bonding" }
pallet-assets = { path = "shims/pallet-assets" }
pallet-xcm = { path = "shims/pallet-xcm" }
pallet-timestamp = { path = "shims/pallet-timestamp" }
jwt-compact = { path = "shims/jwt-compact" }
xcm = { package = "staging-xcm", path = "shims/xcm" }
polkadot-parachain-primitives = { path = "shims/parachain-primitives" }
xcm-executor = { package = "staging-xcm-executor", path = "shims/xcm-executor" }
chrono = { version = "0.4", default-features = false }
"""
XSTAK = """pallet-parachain-staking = { path = "wrap/parachain-staking" }
pallet-session = { path = "shims/pallet-session" }
pallet-authorship = { path = "shims/pallet-authorship" }
"""
def kit(dst):
    """the harness's stand-ins for the crates that are not in the cargo cache"""
    t = tempfile.mkdtemp()
    for x in ("shims", "wrap"): shutil.copytree(os.path.join(root, "mcx", x), os.path.join(t, x))
    for w in os.listdir(os.path.join(t, "wrap")):
        f = os.path.join(t, "wrap", w, "Cargo.toml"); c = open(f).read().replace("/repo/", "@REPO@/"); open(f, "w").write(c)
    subprocess.check_call("tar --sort=name --owner=0 --group=0 --mtime=2026-01-01 -cf - shims wrap | gzip -n9 > " + dst, shell=True, cwd=t)
    shutil.rmtree(t)
only = set(sys.argv[1:])
for s in SEEDS:
    d = os.path.join(root, "seeded", s["id"])
    if only and s["id"] not in only: continue
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(os.path.join(d, "crate", "src"))
    patch = ""
    for f, edits in s["edits"].items():
        old = open("/repo/" + f).read(); new = old
        for a, b in edits:
            assert new.count(a) == 1, (s["id"], f, new.count(a), a)
            new = new.replace(a, b)
        patch += "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    k = s["kind"]
    toml = TOML % DEP[k] if k in DEP else TOML.split("%s")[0] + (XDEP if k != "staking" else XDEP.split("polimec-common")[0]) + {"funding": XFUND, "staking": XSTAK}.get(k, "")
    open(os.path.join(d, "crate", "Cargo.toml.in"), "w").write(toml)
    if k not in DEP: kit(os.path.join(d, "kit.tgz"))
    shutil.copy(os.path.join(root, "mc" if k in DEP else "mcx", "Cargo.lock"), os.path.join(d, "crate", "lock"))
    pre = os.path.join(here, "demo", k + "_prelude.rs")
    main = (open(pre).read() if os.path.exists(pre) else "") + s["main"]
    open(os.path.join(d, "crate", "src", "main.rs"), "w").write(main)
    rt = os.path.join(here, "demo", k + "_runtime.rs")
    if os.path.exists(rt): shutil.copy(rt, os.path.join(d, "crate", "src", "runtime.rs"))
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
