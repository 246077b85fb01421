#!/bin/bash
# check.sh <property> [replay-file]
# Rebuilds the harness and the command line from /repo's working tree and runs
# the property's workloads under its monitors. Exit 0 held, 1 violation, 2 error.
set -u
ID=${1:?usage: check.sh <property> [replay-file]}
REPLAY=${2:-}
ROOT=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
OUT=$ROOT/.build/$ID
mkdir -p "$OUT" "$ROOT/out" "$ROOT/evidence"
. "$ROOT/tools/build.sh"
die() { echo "check.sh: $*" >&2; exit 2; }

[ -n "$REPLAY" ] || rm -f "$ROOT/evidence/$ID.json" "$ROOT/out/$ID"-*

VARIANTS=$(prop_variants "$ID")
[ -n "$VARIANTS" ] || die "unknown property $ID"
prepare_mods || die "cannot prepare the module copies"

SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/verif.$ID.XXXXXX") || die "no scratch directory"
chmod 755 "$SCRATCH"
trap 'rm -rf "$SCRATCH"' EXIT
export VERIF_SCRATCH=$SCRATCH

# the command line under observation
case $ID in
C09|C10|C11|C12|C13|C14|C16|C17|C18|C19|C20|C21|C22|C27|C28|C29|C30)
	build_cli_fast "$OUT/cli" || die "cannot build the command line"
	export VERIF_CLI=$OUT/cli;;
esac
case $ID in
C16|C17) build_cli_real "$OUT/cli-real" || die "cannot build the command line"
	export VERIF_CLI_REAL=$OUT/cli-real;;
esac
case $ID in
C20) build_cli_race "$OUT/cli-race" || die "cannot build the race-detector command line"
	export VERIF_CLI_RACE=$OUT/cli-race;;
esac

# What the build with the lowered S2K count reports has to happen with the
# unaltered library too: each of its cases is run again there.
s2k_variant() {
	if [ -n "$REPLAY" ]; then
		"$OUT/vrun-fast" -root "$ROOT" -prop "$ID" -variant s2k -replay "$REPLAY" 2>"$OUT/stderr-s2k"
		return
	fi
	"$OUT/vrun-s2k" -root "$ROOT" -prop "$ID" -variant s2k >"$OUT/stdout-s2k" 2>"$OUT/stderr-s2k"
	q=$?
	if [ $q -ne 1 ]; then
		cat "$OUT/stdout-s2k"
		return $q
	fi
	q=0
	for f in $(sed -n 's/^VIOLATION .* replay=//p' "$OUT/stdout-s2k"); do
		if "$OUT/vrun-fast" -root "$ROOT" -prop "$ID" -variant s2k -replay "$f" >"$OUT/confirm" 2>>"$OUT/stderr-s2k"; then
			echo "check.sh: $f does not happen with the full S2K count; not reported" >&2
			rm -f "$f"
		else
			cat "$OUT/confirm"
			q=1
		fi
	done
	grep '^C.*: .* cases' "$OUT/stdout-s2k"
	return $q
}

rc=0
n=0
for v in $VARIANTS; do
	if ! build_vrun "$v" "$OUT/vrun-$v"; then
		[ "$v" = s2k ] || die "cannot build the harness ($v)"
		echo "check.sh: no build with a lowered S2K count; going without" >&2
		continue
	fi
	if [ -n "$REPLAY" ]; then
		grep -q "\"variant\": \"$v\"" "$REPLAY" || continue
	fi
	if [ $n -gt 0 ]; then export VERIF_MERGE=1; fi
	n=$((n+1))
	export VERIF_RACE_LOG=$OUT/race-$v
	rm -f "$OUT"/race-$v.*
	export GORACE="log_path=$OUT/race-$v halt_on_error=0 exitcode=0 history_size=3"
	if [ "$v" = s2k ]; then
		s2k_variant
	else
		"$OUT/vrun-$v" -root "$ROOT" -prop "$ID" -variant "$v" ${REPLAY:+-replay "$REPLAY"} 2>"$OUT/stderr-$v"
	fi
	r=$?
	tail -c 3000 "$OUT/stderr-$v" >&2
	case $r in
	0|1) ;;
	*)
		# a crash the harness could not catch (fatal error: concurrent map
		# access, stack overflow, out of memory) inside the monitored code
		if grep -q '^fatal error: \|^panic: \|^runtime: ' "$OUT/stderr-$v" && grep -q '/repo/' "$OUT/stderr-$v"; then
			cp "$OUT/stderr-$v" "$ROOT/out/$ID-$v-crash.txt"
			echo "  $v: the monitored code crashed the process: $(grep -m1 '^fatal error: \|^panic: \|^runtime: ' "$OUT/stderr-$v")"
			echo "VIOLATION property=$ID replay=$ROOT/out/$ID-$v-crash.txt"
			r=1
		else
			r=2
		fi;;
	esac
	if [ $r -eq 1 ] || { [ $r -eq 2 ] && [ $rc -eq 0 ]; }; then rc=$r; fi
	if [ $rc -eq 1 ] && [ "$VERIF_TIER" = quick ]; then break; fi
done
exit $rc
