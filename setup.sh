#!/bin/bash
# Builds all harnesses, each with the command its checks use: cargo selects the dependencies' features by the
# packages it is asked for, and a check reuses only what was built with the same features.
cd "$(dirname "$0")" || exit 3
. ./env.sh
for ws in mc mcx; do
	for manifest in "$ws"/*/Cargo.toml; do
		name=$(sed -n 's/^name = "\(mc-.*\)"$/\1/p' "$manifest" | head -1)
		[ -n "$name" ] || continue
		(cd "$ws" && cargo build --release --offline --locked -p "$name") || exit 3
	done
done
