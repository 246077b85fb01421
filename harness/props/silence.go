package props

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/mnemonic"
	"github.com/kklash/mnemonikey/pgp"

	"verifharness/cli"
	"verifharness/rt"
	"verifharness/spec"
)

// C27 judges pairs: two secrets which differ in everything secret and have the
// same defect must be refused in the same words.

func errText(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

// sameWords compares the errors of two calls which both had to be refused.
func sameWords(c *rt.Case, what string, a, b error) {
	if a == nil || b == nil { // whether to refuse is for other properties
		return
	}
	c.Check(a.Error() == b.Error(), "%s: the error tells two secrets apart: %q and %q", what, a, b)
	c.State("error texts", a.Error())
	c.Event("pairs of refusals compared")
}

// phraseOf draws a valid phrase of a version.
func phraseOf(r *rand.Rand, encrypted bool) []string {
	if encrypted {
		return spec.RawEncrypted(genSeed(r), genSalt(r), byte(r.Intn(32)), genOffset(r))
	}
	return spec.EncodePlain(genSeed(r), genOffset(r))
}

var nonWordKinds = []func(r *rand.Rand) string{
	garbageNonWord,
	func(r *rand.Rand) string { return strLen(r, 1+r.Intn(12)) + "q" },
	func(r *rand.Rand) string { return pick(r, spec.Words) + pick(r, affixes) },
	func(r *rand.Rand) string { w := pick(r, spec.Words); return w[:1+r.Intn(len(w))] },
	func(r *rand.Rand) string { return pick(r, spec.Words) + "-" + pick(r, spec.Words) },
}

// nonWords draws two strings of one kind, neither of them in the list.
func nonWords(r *rand.Rand) (a, b string) {
	k := pick(r, nonWordKinds)
	draw := func() string {
		for n := 0; n < 50; n++ {
			w := k(r)
			_, ok := spec.Lookup(w)
			_, folded := spec.Lookup(strings.ToLower(strings.ToUpper(w)))
			if !ok && !folded && strings.TrimSpace(w) != "" {
				return w
			}
		}
		return "xyzzy" + strLen(r, 4)
	}
	return draw(), draw()
}

// spoiledPair draws two phrases with the same defect at the same place.
func spoiledPair(r *rand.Rand) (a, b []string, kind string) {
	enc := r.Intn(2) == 0
	a, b = phraseOf(r, enc), phraseOf(r, enc)
	if r.Intn(4) == 0 { // nearly the same secret
		b = append([]string{}, a...)
		i := 1 + r.Intn(len(b)-1)
		b[i] = pick(r, spec.Words)
	}
	switch k := r.Intn(7); k {
	case 0, 1:
		kind = "unknown word"
		for n := 1 + r.Intn(2); n > 0; n-- {
			i := r.Intn(len(a))
			a[i], b[i] = nonWords(r)
		}
	case 2, 3:
		kind = "checksum"
		for _, w := range [][]string{a, b} {
			i := 1 + r.Intn(len(w)-1)
			w[i] = pick(r, spec.Words)
		}
	case 4:
		kind = "word count"
		n := r.Intn(20)
		for _, w := range []*[]string{&a, &b} {
			for len(*w) < n {
				*w = append(*w, pick(r, spec.Words))
			}
			*w = (*w)[:n]
		}
	case 5:
		kind = "version"
		v := 2 + r.Intn(14)
		a[0], b[0] = spec.Words[v<<8|r.Intn(256)], spec.Words[v<<8|r.Intn(256)]
	case 6:
		kind = "swapped"
		i := 1 + r.Intn(len(a)-2)
		a[i], a[i+1] = a[i+1], a[i]
		b[i], b[i+1] = b[i+1], b[i]
	}
	return a, b, kind
}

// alike says whether two phrases are refused for the same reason, by what may
// be told: the kinds of defect, the places of the unknown words, the version
// and the number of words.
func alike(a, b []string) bool {
	da, fa := spec.Decode(a)
	db, fb := spec.Decode(b)
	if fa != fb || !fa.Any() || len(a) != len(b) || da.Version != db.Version {
		return false
	}
	for i := range a {
		_, oka := spec.Lookup(a[i])
		_, okb := spec.Lookup(b[i])
		if oka != okb {
			return false
		}
	}
	return true
}

// encryptedWord says whether a phrase that starts so is an encrypted one.
func encryptedWord(w string) bool {
	i, _ := spec.Lookup(w)
	return i>>8 == 1
}

func bothFail(c *rt.Case, what string, f func(k int) error) {
	sameWords(c, what, f(0), f(1))
}

func c27phrases(c *rt.Case) {
	a, b, kind := spoiledPair(c.R)
	a, b = mixCase(c.R, a), mixCase(c.R, b)
	if !alike(a, b) {
		return
	}
	c.Input(map[string]any{"kind": kind, "a": a, "b": b})
	w := [2][]string{a, b}
	var pw [2][]byte
	for i := range pw {
		pw[i] = genPassword(c.R)
		if len(pw[i]) == 0 {
			pw[i] = []byte{'x'}
		}
	}
	bothFail(c, kind+": DecodeMnemonic", func(k int) error { _, err := mnemonikey.DecodeMnemonic(w[k]); return err })
	bothFail(c, kind+": RecoverPlaintext", func(k int) error { _, err := mnemonikey.RecoverPlaintext(w[k], nil); return err })
	bothFail(c, kind+": RecoverEncrypted", func(k int) error { _, err := mnemonikey.RecoverEncrypted(w[k], pw[k], nil); return err })
	bothFail(c, kind+": DecodeWords", func(k int) error { _, err := mnemonic.DecodeWords(w[k]); return err })
	if len(a) > 0 {
		bothFail(c, kind+": ParseMnemonicVersion", func(k int) error { _, err := mnemonikey.ParseMnemonicVersion(w[k][0]); return err })
	}
	c.State("defects", kind)
	c.Distinct(a, b)
}

func c27passwords(c *rt.Case) {
	var dm [2]*mnemonikey.DecodedMnemonic
	var w [2][]string
	var pw [2][]byte
	for k := 0; k < 2; k++ {
		right := genPassword(c.R)
		if len(right) == 0 {
			right = []byte("secret")
		}
		w[k] = spec.EncodeEncrypted(genSeed(c.R), genOffset(c.R), right, genSalt(c.R))
		if k == 1 && c.R.Intn(3) == 0 {
			w[k] = w[0]
		}
		dec, _ := spec.Decode(w[k])
		for {
			pw[k] = genPassword(c.R)
			if c.R.Intn(2) == 0 {
				pw[k] = pick(c.R, variants(c.R, right))
			}
			if _, ok := dec.Open(pw[k]); !ok {
				break
			}
		}
		dm[k] = decodeOK(c, w[k])
	}
	if (len(pw[0]) == 0) != (len(pw[1]) == 0) {
		return
	}
	c.Input(map[string]any{"a": w[0], "b": w[1], "password a": fmt.Sprintf("%x", pw[0]), "password b": fmt.Sprintf("%x", pw[1])})
	bothFail(c, "wrong password: DecryptSeed", func(k int) error { _, err := dm[k].DecryptSeed(pw[k]); return err })
	bothFail(c, "wrong password: RecoverEncrypted", func(k int) error { _, err := mnemonikey.RecoverEncrypted(w[k], pw[k], nil); return err })
	bothFail(c, "encrypted phrase: Seed", func(k int) error { _, err := dm[k].Seed(); return err })
	bothFail(c, "encrypted phrase: RecoverPlaintext", func(k int) error { _, err := mnemonikey.RecoverPlaintext(w[k], nil); return err })
	c.Distinct(w, pw)
}

func c27values(c *rt.Case) {
	r := c.R
	wide := func(n int) *big.Int { // exactly n bits
		v := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(n-1)))
		return v.SetBit(v, n-1, 1)
	}
	n := 129 + r.Intn(140)
	big2 := [2]*big.Int{wide(n), wide(n)}
	c.Input(map[string]any{"a": big2[0].String(), "b": big2[1].String(), "bits": n})
	bothFail(c, "seed too wide: NewSeed", func(k int) error { _, err := mnemonikey.NewSeed(mnemonikey.EraLatest, big2[k]); return err })
	neg := 1 + r.Intn(150)
	neg2 := [2]*big.Int{new(big.Int).Neg(wide(neg)), new(big.Int).Neg(wide(neg))}
	bothFail(c, "negative seed: NewSeed", func(k int) error { _, err := mnemonikey.NewSeed(mnemonikey.EraLatest, neg2[k]); return err })
	era := mnemonikey.Era(1 + r.Intn(1000))
	small := 1 + r.Intn(128)
	small2 := [2]*big.Int{wide(small), wide(small)}
	bothFail(c, "unknown era: NewSeed", func(k int) error { _, err := mnemonikey.NewSeed(era, small2[k]); return err })
	bothFail(c, "payload too wide: EncodeToIndices", func(k int) error { _, err := mnemonic.EncodeToIndices(big2[k], uint(n-1-n%3)); return err })
	bothFail(c, "negative payload: EncodeToIndices", func(k int) error { _, err := mnemonic.EncodeToIndices(neg2[k], uint(neg+3)); return err })

	// indices which are out of range at the same places
	idx := [2][]uint16{make([]uint16, 1+r.Intn(20)), nil}
	idx[1] = make([]uint16, len(idx[0]))
	bad := r.Intn(len(idx[0]))
	for k := range idx {
		for i := range idx[k] {
			idx[k][i] = uint16(r.Intn(4096))
		}
		idx[k][bad] = uint16(4096 + r.Intn(65536-4096))
	}
	bothFail(c, "index too large: EncodeToWords", func(k int) error { _, err := mnemonic.EncodeToWords(idx[k]); return err })
	bothFail(c, "index too large: DecodeIndices", func(k int) error { _, err := mnemonic.DecodeIndices(idx[k]); return err })

	// key material of a wrong length
	l := r.Intn(100)
	if l == 32 {
		l = 31
	}
	var raw [2][]byte
	for k := range raw {
		raw[k] = make([]byte, l)
		r.Read(raw[k])
	}
	at := time.Unix(spec.EpochUnix+int64(genOffset(r)), 0)
	bothFail(c, "wrong length: NewED25519MasterKey", func(k int) error { _, err := pgp.NewED25519MasterKey(raw[k], at, time.Time{}); return err })
	bothFail(c, "wrong length: NewED25519Subkey", func(k int) error { _, err := pgp.NewED25519Subkey(raw[k], at, time.Time{}); return err })

	// sources which break at the same place
	mode, fail := r.Intn(3), r.Intn(16)
	stream := func(max int) *source {
		d := make([]byte, 64)
		r.Read(d)
		return &source{data: d, mode: mode, failAt: fail % max, err: errSource, r: rand.New(rand.NewSource(int64(fail))), partial: fail%2 == 0}
	}
	bothFail(c, "broken source: GenerateSeed", func(k int) error { _, err := mnemonikey.GenerateSeed(stream(16)); return err })
	var s [2]*mnemonikey.Seed
	var p [2]Params
	for k := range s {
		p[k] = genParams(r)
		s[k] = newSeed(c, p[k].Seed)
	}
	pw := [2][]byte{[]byte(strLen(r, 1+r.Intn(20))), []byte(strLen(r, 1+r.Intn(20)))}
	bothFail(c, "broken source: EncodeMnemonicEncrypted", func(k int) error {
		_, err := mnemonikey.EncodeMnemonicEncrypted(s[k], p[k].Offset, pw[k], stream(2))
		return err
	})
	bothFail(c, "empty password: EncodeMnemonicEncrypted", func(k int) error {
		_, err := mnemonikey.EncodeMnemonicEncrypted(s[k], p[k].Offset, nil, salted(r))
		return err
	})

	// refused options
	late := time.Unix(spec.EpochUnix+int64(1)<<32+r.Int63n(1<<40), 0)
	early := time.Unix(spec.EpochUnix-1-r.Int63n(1<<30), 0)
	ttl := -time.Duration(1 + r.Int63n(1<<40))
	for i, o := range []struct {
		at  time.Time
		ttl time.Duration
	}{{late, 0}, {early, 0}, {at, ttl}} {
		bothFail(c, []string{"too late: New", "too early: New", "negative TTL: New"}[i], func(k int) error {
			opt := p[k].opts()
			opt.TTL = o.ttl
			_, err := mnemonikey.New(s[k], o.at, opt)
			return err
		})
	}
	c.Distinct(big2[0].String(), raw, p)
}

// sameOutput compares what two failing commands wrote.
func sameOutput(c *rt.Case, what string, a, b cli.Result) {
	if a.Exit == 0 || b.Exit == 0 || a.Timeout || b.Timeout { // for other properties
		return
	}
	c.Check(bytes.Equal(a.Stderr, b.Stderr), "%s: what the command says tells two secrets apart:\n%.900q\n%.900q", what, a.Stderr, b.Stderr)
	c.Check(bytes.Equal(a.Stdout, b.Stdout), "%s: standard output tells two secrets apart:\n%.900q\n%.900q", what, a.Stdout, b.Stdout)
	c.State("messages", cli.Strip(a.Stderr))
	c.Event("pairs of failing commands compared")
}

func c27files(c *rt.Case) {
	r := c.R
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	var a, b []string
	kind := ""
	for {
		a, b, kind = spoiledPair(r)
		ok := len(a) > 0
		for _, w := range append(append([]string{}, a...), b...) {
			f := strings.Fields(w)
			ok = ok && len(f) == 1 && f[0] == w && !strings.Contains(w, "\x00")
		}
		if ok && alike(a, b) {
			break
		}
	}
	cmd := pick(r, []string{"recover", "convert"})
	// A word the prompt refuses is asked for again, so the words which follow
	// a refused first word are first words too.
	_, first := spec.Lookup(a[0])
	pipe := r.Intn(3) == 0 && kind != "version" && first
	if size := map[bool]int{true: 16, false: 14}[encryptedWord(a[0])]; pipe && len(a) > size {
		a, b = a[:size], b[:size] // the rest is not read
		if !alike(a, b) {
			return
		}
	}
	args := []string{cmd, "-in-word-file", filepath.Join(dir, "words")}
	if pipe {
		args = []string{cmd, "-simple"}
	}
	if r.Intn(2) == 0 {
		args = append(args, "-verbose")
	}
	if cmd == "recover" && r.Intn(2) == 0 {
		args = append(args, "-name", "x")
	}
	c.Input(map[string]any{"kind": kind, "a": a, "b": b, "args": args})
	var res [2]cli.Result
	for k, w := range [][]string{a, b} {
		o := cli.Opt{Args: args}
		if pipe {
			o.Stdin = []byte(strings.Join(w, "\n") + "\n")
		} else {
			writeWords(dir, "words", w)
		}
		res[k] = cli.Run(o)
	}
	how := "file"
	if pipe {
		how = "pipe"
	}
	sameOutput(c, fmt.Sprintf("%s by %s: %q", kind, how, args), res[0], res[1])
	c.State("defects", kind+" by "+how)
	c.Distinct(a, b, args)
}

// c27prompts fails at a password prompt: wrong passwords, ones which do not
// match, and then the user gives up.
func c27prompts(c *rt.Case) {
	r := c.R
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	confirm := r.Intn(2) == 0
	tries := 1 + r.Intn(3)
	out := filepath.Join(dir, "out")
	cmd := pick(r, []string{"recover", "convert"})
	args := []string{cmd, "-in-word-file", filepath.Join(dir, "words")}
	if confirm {
		if cmd == "recover" {
			args = append(args, "-encrypt-keys")
		} else {
			args = append(args, "-encrypt-phrase", "-out-word-file", out)
		}
	}
	c.Input(map[string]any{"args": args, "confirm": confirm, "tries": tries})
	var res [2]cli.Result
	for k := range res {
		right := typePassword(r)
		s, o := genSeed(r), genOffset(r)
		words := spec.EncodeEncrypted(s, o, []byte(right), genSalt(r))
		prompt := promptDec
		if confirm {
			words = spec.EncodePlain(s, o)
			prompt = map[string]string{"recover": promptKey, "convert": promptEnc}[cmd]
		}
		dec, _ := spec.Decode(words)
		writeWords(dir, "words", words)
		var steps []step
		for n := 0; n < tries; n++ {
			wrong := typePassword(r)
			if confirm {
				steps = append(steps, step{expect: prompt, pw: true, send: wrong + "\n"},
					step{expect: "Repeat password", pw: true, send: wrong + "x\n"})
				continue
			}
			for {
				if _, ok := dec.Open([]byte(wrong)); !ok {
					break
				}
				wrong = typePassword(r)
			}
			steps = append(steps, step{expect: prompt, pw: true, send: wrong + "\n"})
		}
		steps = append(steps, step{expect: prompt, pw: true, send: "\x03"})
		var sess *cli.Session
		var msg string
		res[k], sess, msg = drive(cli.SessOpt{Opt: cli.Opt{Args: args}}, steps...)
		if sess != nil {
			sess.P.Close()
		}
		if msg != "" {
			return // prompts which do not come are for C20
		}
	}
	sameOutput(c, fmt.Sprintf("%q", args), res[0], res[1])
	c.Distinct(args, res[0].Stderr, c.Index)
}

// c27outputs fails when the results are to be written.
func c27outputs(c *rt.Case) {
	r := c.R
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	cmd := pick(r, []string{"recover", "convert", "generate", "entropy"})
	if cmd == "entropy" { // a source that is too short
		n := r.Intn(16)
		pipe := r.Intn(2) == 0
		args := []string{"generate", "-unsafe-entropy", filepath.Join(dir, "entropy")}
		if pipe {
			args[2] = "-"
		}
		c.Input(map[string]any{"args": args, "bytes": n})
		var res [2]cli.Result
		for k := range res {
			d := make([]byte, n)
			r.Read(d)
			o := cli.Opt{Args: args}
			if pipe {
				o.Stdin = d
			} else {
				os.WriteFile(filepath.Join(dir, "entropy"), d, 0o600)
			}
			res[k] = cli.Run(o)
		}
		sameOutput(c, fmt.Sprintf("%q with %d bytes", args, n), res[0], res[1])
		c.Distinct(args, n, c.Index)
		return
	}
	args := []string{cmd}
	if cmd != "generate" {
		args = append(args, "-in-word-file", filepath.Join(dir, "words"))
	}
	file := cmd == "convert" || cmd == "generate" && r.Intn(2) == 0
	if file {
		args = append(args, "-out-word-file", pick(r, []string{"/dev/full/x", dir, filepath.Join(dir, "words"), filepath.Join(dir, "no", "such")}))
	} else if cmd == "generate" {
		args = append(args, "-out-word-file", filepath.Join(dir, "out"))
	}
	c.Input(map[string]any{"args": args})
	var res [2]cli.Result
	for k := range res {
		os.Remove(filepath.Join(dir, "out"))
		writeWords(dir, "words", spec.EncodePlain(genSeed(r), genOffset(r)))
		o := cli.Opt{Args: args}
		if !file {
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				c.Inconclusive("%v", err)
			}
			defer f.Close()
			o.StdoutF = f
		}
		res[k] = cli.Run(o)
	}
	sameOutput(c, fmt.Sprintf("%q", args), res[0], res[1])
	c.Distinct(args, c.Index)
}

func init() {
	rt.Register(&rt.Property{ID: "C27", Variant: "fast", Elsewhere: true,
		Rule: "case = two secrets (phrases, passwords, seeds, streams) that differ and have the same defect by the independent decoder; distinct by both. The texts of the two refusals are compared.",
		Assume: []string{"whether two phrases have the same defect is judged by the independent decoder; Argon2id replaced by a stand-in PRF"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "phrases", Quick: 60000, Thorough: 2000000, Fn: c27phrases},
				{Name: "passwords", Quick: 4000, Thorough: 100000, Fn: c27passwords},
				{Name: "values", Quick: 6000, Thorough: 200000, Fn: c27values},
				{Name: "cli-phrases", Here: true, Quick: 260, Thorough: 6000, Fn: c27files},
				{Name: "cli-prompts", Here: true, Quick: 60, Thorough: 1200, Fn: c27prompts},
				{Name: "cli-outputs", Here: true, Quick: 80, Thorough: 1500, Fn: c27outputs},
			}
		}})
}
