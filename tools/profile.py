#!/usr/bin/env python3
"""Rewrites the end of a harness workspace's Cargo.toml: dependencies the exploration spends no time in are compiled unoptimised."""
import sys, re
COLD = """aho-corasick regex regex-automata regex-syntax tracing-subscriber sharded-slab matchers tracing-log chrono backtrace gimli object
addr2line rustc-demangle miniz_oxide toml toml_edit winnow serde futures futures-util futures-executor futures-channel futures-core futures-task futures-io
k256 ecdsa elliptic-curve crypto-bigint sec1 pkcs8 der spki const-oid signature libsecp256k1 libsecp256k1-core libsecp256k1-gen-ecmult libsecp256k1-gen-genmult
secp256k1 secp256k1-sys schnorrkel ed25519-zebra merlin bip39 parity-bip39 substrate-bip39 parity-wasm wasm-instrument wasmi wasmi_core
num-bigint num-rational num-integer num-traits sp-tracing sp-version sp-keystore sp-application-crypto sp-io-unused sp-metadata-ir frame-metadata merkleized-metadata
hmac sha3 pbkdf2 keccak regex-lite ss58-registry bs58 hex w3f-bls ark-ff ark-ec ark-poly ark-serialize ark-std ark-bls12-377 ark-bls12-381 lazy_static
rand rand_chacha rand_core num_cpus thread_local nu-ansi-term docify array-bytes proc-macro2 syn quote tt-call zeroize subtle cc pallet-preimage-unused
nohash-hasher lru secrecy schemars staging-xcm-unused bounded-vec itertools anyhow thiserror""".split()
for toml in sys.argv[1:]:
    lock = open(toml.replace("Cargo.toml", "Cargo.lock")).read()
    s = open(toml).read().split("\n# dependencies the exploration")[0].rstrip() + "\n\n# dependencies the exploration spends no time in (tools/profile.py)\n"
    vs = {}
    for n, v in re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"', lock): vs.setdefault(n, []).append(v)
    for n in sorted(set(COLD)):
        for v in vs.get(n, []): s += '[profile.release.package."%s@%s"]\nopt-level = 0\n' % (n, v)
    open(toml, "w").write(s)
