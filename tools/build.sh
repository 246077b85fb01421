# Sourced by check.sh and setup.sh: how things are built from /repo.
MODS=$ROOT/.build/mods

prop_variants() {
	case $1 in
	C02|C03) echo fast real;;
	C05|C07) echo fast s2k real;;
	C15) echo race;;
	C08|C09|C1[014]|C26) echo fast s2k;;
	C01|C04|C06|C1[23]|C1[6-9]|C2[0-3789]|C30) echo fast;;
	esac
}

# Scratch copies of two dependencies: x/crypto with the Argon2id stand-in and
# x/term with delay points. /repo and the module cache stay as they are.
prepare_mods() (
	mkdir -p "$MODS" || exit 1
	exec 9>"$MODS/lock"
	flock 9
	cache=$(go env GOMODCACHE) || exit 1
	sum=$(cat "$ROOT"/shadow/*.go "$ROOT"/harness/go.mod "$ROOT"/harness/go.sum "$ROOT/tools/build.sh" | sha256sum)
	[ "$(cat "$MODS/stamp" 2>/dev/null)" = "$sum" ] && exit 0
	rm -rf "$MODS/crypto" "$MODS/term" "$MODS/clock" "$MODS/stamp"
	cp -r "$cache/golang.org/x/crypto@v0.4.0" "$MODS/crypto" || exit 1
	cp -r "$cache/golang.org/x/term@v0.10.0" "$MODS/term" || exit 1
	chmod -R u+w "$MODS/crypto" "$MODS/term"
	(cd "$MODS/crypto/argon2" && rm -f ./*.go ./*.s) || exit 1
	cp "$ROOT/shadow/argon2.go" "$MODS/crypto/argon2/argon2.go" || exit 1
	cp "$ROOT/shadow/term_hook.go" "$MODS/term/verif_hook.go" || exit 1
	for f in MakeRaw GetState Restore ReadPassword; do
		sed -i "s/^func $f(.*{\$/&\n\tverifHook(\"$f\")/" "$MODS/term/term.go" || exit 1
	done
	[ "$(grep -c verifHook "$MODS/term/term.go")" = 4 ] || exit 1
	cp "$ROOT/harness/go.mod" "$MODS/fast.mod" && cp "$ROOT/harness/go.sum" "$MODS/fast.sum" || exit 1
	printf '\nreplace golang.org/x/crypto => %s/crypto\n\nreplace golang.org/x/term => %s/term\n' "$MODS" "$MODS" >>"$MODS/fast.mod"
	cp "$ROOT/harness/go.mod" "$MODS/real.mod" && cp "$ROOT/harness/go.sum" "$MODS/real.sum" || exit 1
	# the standard library's clock, for the command line only; without it the
	# programs under observation just see the real time
	gt=$(go env GOROOT)/src/time
	mkdir "$MODS/clock" && cp "$ROOT/shadow/clock.go" "$MODS/clock/clock.go" &&
	sed '/^func Now() Time {/,/^}/s/runtimeNow()\|\bnow()/verifNow()/' "$gt/time.go" >"$MODS/clock/time.go" &&
	[ "$(grep -c 'verifNow()' "$MODS/clock/time.go")" = 1 ] &&
	printf '{"Replace": {"%s/time.go": "%s/clock/time.go", "%s/zz_verif_clock.go": "%s/clock/clock.go"}}\n' "$gt" "$MODS" "$gt" "$MODS" >"$MODS/clock/overlay.json"
	echo "$sum" >"$MODS/stamp"
)

# name = module file: go may rewrite it, so every build uses its own copy
modfile() {
	cp "$MODS/$1.mod" "$2.mod" && cp "$MODS/$1.sum" "$2.sum" && echo "$2.mod"
}

REPO=$(sed -n 's#^replace github.com/kklash/mnemonikey => ##p' "$ROOT/harness/go.mod")

# An overlay which lowers the S2K iteration count, the cost of every protected
# export, from the maximum. Fails if the tree does not define it as expected:
# the check then goes without this variant.
s2k_overlay() {
	f=$(grep -lE '^[[:space:]]*s2kCountMaximum([[:space:]]+byte)?[[:space:]]*=[[:space:]]*(0x[fF][fF]|255)[[:space:]]*(//.*)?$' "$REPO"/pgp/*.go | grep -v _test.go)
	[ -f "$f" ] || return 1
	sed -E 's/^([[:space:]]*s2kCountMaximum([[:space:]]+byte)?[[:space:]]*=[[:space:]]*)(0x[fF][fF]|255)/\10x60/' "$f" >"$1.go" &&
	printf '{"Replace": {"%s": "%s"}}\n' "$f" "$1.go" >"$1.json"
}

build_vrun() {
	case $1 in
	fast) m=$(modfile fast "$2") && (cd "$ROOT/harness" && go build -modfile="$m" -tags fastkdf -o "$2" ./cmd/vrun);;
	s2k) s2k_overlay "$2-overlay" && m=$(modfile fast "$2") && (cd "$ROOT/harness" && go build -overlay "$2-overlay.json" -modfile="$m" -tags fastkdf,cheaps2k -o "$2" ./cmd/vrun);;
	race) m=$(modfile fast "$2") && (cd "$ROOT/harness" && CGO_ENABLED=1 go build -race -modfile="$m" -tags fastkdf -o "$2" ./cmd/vrun);;
	real) m=$(modfile real "$2") && (cd "$ROOT/harness" && go build -modfile="$m" -o "$2" ./cmd/vrun);;
	esac
}

CLI=github.com/kklash/mnemonikey/cmd/mnemonikey
build_cli_fast() {
	m=$(modfile fast "$1") || return 1
	unset VERIF_CLOCKED
	if [ -f "$MODS/clock/overlay.json" ] && (cd "$ROOT/harness" && go build -overlay "$MODS/clock/overlay.json" -modfile="$m" -o "$1" $CLI) 2>/dev/null; then
		export VERIF_CLOCKED=1
		return 0
	fi
	(cd "$ROOT/harness" && go build -modfile="$m" -o "$1" $CLI)
}
build_cli_race() { m=$(modfile fast "$1") && (cd "$ROOT/harness" && CGO_ENABLED=1 go build -race -modfile="$m" -o "$1" $CLI); }
build_cli_real() { m=$(modfile real "$1") && (cd "$ROOT/harness" && go build -modfile="$m" -o "$1" $CLI); }
