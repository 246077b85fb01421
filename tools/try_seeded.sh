#!/bin/bash
# try_seeded.sh [-a] [id...]: apply each planted change to /repo, run its
# property's check (-a: every check) and undo it. Not itself a check.
ROOT=$(cd "$(dirname "$0")/.." && pwd)
all=
[ "${1:-}" = -a ] && { all=1; shift; }
[ $# -gt 0 ] || set -- $(ls "$ROOT/seeded")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id; do
	d=$ROOT/seeded/$id
	prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
	git -C /repo apply "$d/patch.diff" || { echo "$id $prop APPLY-FAILED"; continue; }
	props=$prop
	[ -n "$all" ] && props="$(seq -f C%02g 1 23) C26 C27 C28 C29 C30"
	line=
	for p in $props; do
		s=$(date +%s)
		VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 "$ROOT/check.sh" $p >/tmp/try.$$ 2>&1
		r=$?
		e=$(($(date +%s)-s))
		if [ $r -eq 1 ] && grep -q "^VIOLATION property=$p " /tmp/try.$$; then line="$line $p:caught(${e}s)"
		elif [ $r -eq 0 ]; then [ $p = $prop ] && line="$line $p:MISSED(${e}s)"
		else line="$line $p:rc$r(${e}s)"; cp /tmp/try.$$ /tmp/try.$id.$p; fi
		[ $p = $prop ] && why=$(grep -m1 -v '^VIOLATION\|^KNOWN' /tmp/try.$$ | cut -c1-160)
	done
	git -C /repo checkout -q -- .
	echo "$id $prop ->$line   | $why"
done
rm -f /tmp/try.$$
