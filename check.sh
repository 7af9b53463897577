#!/bin/bash
# check.sh PROPERTY TIER SIM...   (SIM: package under sim/sims; its binary is sim-SIM)
# Rebuilds the simulations from /repo's working tree and runs them for one property.
# check.sh build                  builds everything
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/sim/target"
python3 tools/stamps.py || { echo "stamps failed"; exit 2; }
if [ "${1:-}" = build ]; then
	shift
	cd sim && exec cargo +stable build --offline --quiet $(for b in $(ls sims); do [ -f sims/$b/src/main.rs ] && echo "-p $b"; done)
fi
prop=$1; tier=$2; shift 2
pk=(); for s in "$@"; do pk+=(-p "$s"); done
log=$(mktemp)
if ! (cd sim && cargo +stable build --offline --quiet "${pk[@]}") >"$log" 2>&1; then
	grep -E '^error' -A12 "$log" | head -80
	echo "the simulations do not build from this tree"
	rm -f "$log"
	exit 2
fi
rm -f "$log"
mkdir -p evidence
rc=0; parts=()
for s in "$@"; do
	out=evidence/$prop.json
	if [ $# -gt 1 ]; then out=evidence/$prop.$s.json; parts+=("$out"); fi
	"sim/target/debug/sim-$s" --property "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" --out "$out"
	r=$?
	if [ $r -ne 0 ]; then rc=$r; break; fi
done
if [ ${#parts[@]} -gt 0 ]; then python3 tools/merge.py "evidence/$prop.json" "${parts[@]}" || exit 2; fi
exit $rc
