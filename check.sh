#!/bin/bash
# check.sh <harness> <property>: builds the harness against /repo's working tree and decides the property.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR=$PWD
. ./env.sh
ws=mc
case "$1" in x-*) ws=mcx;; esac
log=$(mktemp)
(
	# one build at a time in a shared target directory is cargo's own business
	cd "$ws" && cargo build --release --offline --locked -q -p "mc-$1" >"$log" 2>&1
)
rc=$?
if [ $rc -ne 0 ]; then
	tail -40 "$log" >&2
	rm -f "$log"
	echo "CHECKER ERROR: the harness does not build" >&2
	exit 3
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/release/mc-$1" "$2"
