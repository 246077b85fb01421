package props

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"golang.org/x/sys/unix"

	"github.com/kklash/mnemonikey"

	"verifharness/cli"
	"verifharness/rt"
	"verifharness/spec"
)

// noPhrase checks that a text does not show a phrase: neither two neighbouring
// words next to each other nor a numbered word.
func noPhrase(c *rt.Case, text []byte, words []string, what string) {
	tok := strings.Fields(strings.ToLower(cli.Strip(text)))
	at := map[string][]int{}
	for i, w := range words {
		at[w] = append(at[w], i)
	}
	for i, t := range tok {
		for _, k := range at[t] {
			if k+1 < len(words) && i+1 < len(tok) && tok[i+1] == words[k+1] {
				c.Fail("%s shows the words %q %q of the phrase", what, t, tok[i+1])
			}
			if i > 0 && tok[i-1] == fmt.Sprintf("%d:", k+1) {
				c.Fail("%s shows word %d of the phrase", what, k+1)
			}
		}
	}
	c.Event("texts scanned for phrase words")
}

// noKey checks that a text carries no armored or hex secret.
func noKey(c *rt.Case, text []byte, f cliFlags, what string) {
	if bytes.Contains(text, []byte("BEGIN PGP")) {
		c.Fail("%s contains an armored key", what)
	}
	p := f.effective()
	leaks(c, nil, text, p.root(), p, true)
}

// typed renders a phrase as raw-mode key strokes in one of several ways.
func typed(r *rand.Rand, words []string) string {
	var b strings.Builder
	for _, w := range words {
		switch r.Intn(4) {
		case 0:
			b.WriteString(w + " ")
		case 1: // shortest prefix that completes to the word
			p := w
			for n := 1; n < len(w); n++ {
				if x, ok := spec.Complete(w[:n]); ok && x == w {
					p = w[:n]
					break
				}
			}
			b.WriteString(p + "\r")
		case 2:
			p := w
			for n := 1; n < len(w); n++ {
				if x, ok := spec.Complete(w[:n]); ok && x == w {
					p = w[:n]
					break
				}
			}
			b.WriteString(p + "\t ")
		default:
			b.WriteString(w + "x\x7f\r")
		}
	}
	return b.String()
}

type route int

const (
	viaFile route = iota
	viaPipe
	viaPipeSimple
	viaRaw
	viaSimple
)

var routeNames = []string{"word file", "piped words", "piped words with -simple", "terminal", "terminal with -simple"}

// recoverKey runs recover through a route and returns its standard output.
func recoverKey(c *rt.Case, bin string, dir string, rte route, words []string, phrasePw string, keyPw string, args []string) cli.Result {
	full := []string{"recover"}
	o := cli.Opt{Bin: bin}
	var steps []step
	tty := phrasePw != "" || keyPw != "" || rte == viaRaw || rte == viaSimple
	mixed := mixCase(c.R, words)
	switch rte {
	case viaFile:
		path, arg := place(c.R, dir, &o)
		writeWords("", path, mixed)
		full = append(full, "-in-word-file", arg)
	case viaPipeSimple:
		full = append(full, "-simple")
		fallthrough
	case viaPipe:
		o.Stdin = []byte(strings.Join(mixed, "\n") + "\n")
	case viaRaw:
		steps = append(steps, step{raw: true, send: typed(c.R, words)})
	case viaSimple:
		full = append(full, "-simple")
		for i, w := range mixed {
			steps = append(steps, step{expect: fmt.Sprintf("Word %d >>", i+1), send: w + "\n"})
		}
	}
	if phrasePw != "" {
		steps = append(steps, pwSteps(promptDec, phrasePw, false)...)
	}
	if keyPw != "" {
		full = append(full, "-encrypt-keys")
		steps = append(steps, pwSteps(promptKey, keyPw, true)...)
	}
	if c.R.Intn(2) == 0 {
		home(dir, &o)
	}
	o.Args = append(full, args...)
	o.Timeout = 3 * time.Minute
	if !tty {
		r := cli.Run(o)
		c.Check(r.Exit == 0, "%v by %s: %v", o.Args, routeNames[rte], r)
		return r
	}
	r := mustDrive(c, cli.SessOpt{Opt: o}, steps...)
	c.Check(r.Exit == 0, "%v by %s: %v", o.Args, routeNames[rte], r)
	return r
}

// home gives a command its own home, temporary and working directories.
func home(dir string, o *cli.Opt) {
	for _, d := range []string{"home", "tmp", "cwd"} {
		os.MkdirAll(cli.Path(dir, "user", d), 0o700)
	}
	if o.Dir == "" {
		o.Dir = cli.Path(dir, "user", "cwd")
	}
	o.Env = append(append([]string{}, o.Env...), "HOME="+cli.Path(dir, "user", "home"), "TMPDIR="+cli.Path(dir, "user", "tmp"))
}

// strays looks for secrets in files which nobody asked for.
func strays(c *rt.Case, dir string, f cliFlags, words []string) {
	filepath.Walk(cli.Path(dir, "user"), func(path string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			b, _ := os.ReadFile(path)
			what := "an unrequested file " + strings.TrimPrefix(path, dir)
			noPhrase(c, b, words, what)
			noKey(c, b, f, what)
			p := f.effective()
			leaks(c, b, nil, p.root(), p, true)
		}
		return nil
	})
	c.Event("home, temporary and working directories searched for secrets")
}

// endToEnd generates a key and recovers it.
func endToEnd(c *rt.Case, bin string, encPhrase, encKeys, interactive bool) {
	f := genFlags(c.R, false)
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	args := append([]string{"generate"}, f.args(c.R, false)...)
	o := cli.Opt{Bin: bin, Timeout: 3 * time.Minute}
	outFile := ""
	if c.R.Intn(2) == 0 {
		var arg string
		outFile, arg = place(c.R, dir, &o)
		args = append(args, "-out-word-file", arg)
	}
	verbose := c.R.Intn(3) == 0
	if verbose {
		args = append(args, "-verbose")
	}
	if c.R.Intn(4) == 0 {
		e := make([]byte, 16+c.R.Intn(20))
		c.R.Read(e)
		ef := cli.Path(dir, "entropy")
		os.WriteFile(ef, e, 0o600)
		args = append(args, "-unsafe-entropy="+ef)
	}
	var steps []step
	keyPw, phrasePw := "", ""
	if encKeys {
		keyPw = typePassword(c.R)
		args = append(args, "-encrypt-keys")
		steps = append(steps, pwSteps(promptKey, keyPw, true)...)
	}
	if encPhrase {
		phrasePw = typePassword(c.R)
		args = append(args, "-encrypt-phrase")
		steps = append(steps, pwSteps(promptEnc, phrasePw, true)...)
	}
	d := f.desc()
	d["args"] = fmt.Sprintf("%.300q", args)
	var clock []string
	at := int64(-1)
	if cli.Clocked && bin == "" && c.R.Intn(3) > 0 {
		o := genOffset(c.R)
		ns := genNanos(c.R)
		if o == spec.MaxOffset {
			ns = 0
		}
		at = spec.EpochUnix + int64(o)
		d["clock"] = time.Unix(at, ns).UTC().Format(time.RFC3339Nano)
		clock = append(clock, cli.Clock(time.Unix(at, ns)))
		c.Event("keys generated at a given instant")
	}
	c.Input(d)
	t0 := time.Now().Unix()
	var r cli.Result
	o.Args, o.Env = args, clock
	if c.R.Intn(2) == 0 {
		home(dir, &o)
	}
	if c.R.Intn(3) == 0 { // which it has no reason to read
		o.Stdin = []byte(pick(c.R, []string{"y\n", strings.Repeat("abandon\n", 20), "help\n", "\x03\x04", strings.Repeat("yes\n", 30000)}))
	}
	if len(steps) > 0 {
		r = mustDrive(c, cli.SessOpt{Opt: o}, steps...)
	} else {
		r = cli.Run(o)
	}
	t1 := time.Now().Unix()
	c.Check(r.Exit == 0, "%v: %v", args, r)
	data := armored(c, r.Stdout, "generate")
	words := cli.Phrase(r.Stderr)
	if outFile != "" {
		b, err := os.ReadFile(outFile)
		c.Check(err == nil, "generate wrote no word file: %v", err)
		words = strings.Fields(string(b))
		noPhrase(c, r.Stderr, words, "generate's standard error (with -out-word-file)")
	}
	dec, def := spec.Decode(words)
	c.Check(!def.Any(), "generate's phrase %v is invalid: %+v", words, def)
	f.Offset = dec.Offset
	if at >= 0 {
		t0, t1 = at, at
	}
	c.Check(f.unix() >= t0 && f.unix() <= t1, "generate dated the key %d, run from %d to %d", f.unix(), t0, t1)
	if encPhrase {
		c.Check(dec.Version == 1, "generate -encrypt-phrase made a version %d phrase", dec.Version)
		s, ok := dec.Open([]byte(phrasePw))
		c.Check(ok, "the phrase does not open with its password")
		f.Seed = s
	} else {
		c.Check(dec.Version == 0, "generate made a version %d phrase", dec.Version)
		f.Seed = dec.Entropy
	}
	var kp []byte
	if encKeys {
		kp = []byte(keyPw)
	}
	ct := judgeKey(c, data, f, kp, "generate")
	noKey(c, r.Stderr, f, "generate's standard error")
	if verbose {
		metaShown(c, r.Stderr, ct, f, nil)
	}
	// recover by one or two routes
	routes := []route{viaFile, viaPipe, viaPipeSimple}
	if encPhrase || encKeys {
		routes = []route{viaFile, viaRaw, viaSimple}
	} else if interactive {
		routes = []route{viaRaw, viaSimple}
	}
	for _, i := range c.R.Perm(len(routes))[:1+c.R.Intn(2)] {
		ra := f.args(c.R, false)
		rv := c.R.Intn(3) == 0
		if rv {
			ra = append(ra, "-verbose")
		}
		rr := recoverKey(c, bin, dir, routes[i], words, phrasePw, keyPw, ra)
		back := armored(c, rr.Stdout, "recover")
		if encKeys {
			judgeKey(c, back, f, kp, "recover")
		} else {
			c.Check(bytes.Equal(rr.Stdout, r.Stdout), "recover by %s printed another key than generate %.200q", routeNames[routes[i]], args)
		}
		if routes[i] != viaRaw && routes[i] != viaSimple {
			noPhrase(c, rr.Stderr, words, "recover's standard error")
		}
		noKey(c, rr.Stderr, f, "recover's standard error")
		if rv {
			metaShown(c, rr.Stderr, ct, f, words)
		}
		c.Event("recovered by " + routeNames[routes[i]])
	}
	strays(c, dir, f, words)
	c.State("flag shapes", fmt.Sprint(f.Only, f.TTLText != "", outFile != "", encKeys, encPhrase, verbose))
	c.Distinct(f, args)
}

var stamp = regexp.MustCompile(`\d{4,}-\d\d-\d\dT\d\d:\d\d:\d\d(Z|[+-]\d\d:\d\d)`)

var encLine = regexp.MustCompile(`encrypted:\s+(true|false)`)

var hex40 = regexp.MustCompile(`\b[0-9A-Fa-f]{40}\b`)

// metaShown compares the fingerprints -verbose reports with the export.
func metaShown(c *rt.Case, stderr []byte, ct *spec.Cert, f cliFlags, words []string) {
	want := map[string]bool{strings.ToLower(fmt.Sprintf("%x", ct.Master.Fpr)): true}
	for _, s := range ct.Subs {
		want[strings.ToLower(fmt.Sprintf("%x", s.Key.Fpr))] = true
	}
	text := cli.Strip(stderr)
	got := map[string]bool{}
	for _, h := range hex40.FindAllString(text, -1) {
		got[strings.ToLower(h)] = true
	}
	for w := range want {
		c.Check(got[w], "-verbose does not report fingerprint %s (reports %v)", w, got)
	}
	for g := range got {
		c.Check(want[g], "-verbose reports a fingerprint %s that is not exported (%v)", g, want)
	}
	p := f.effective()
	shown := map[int64]bool{}
	for _, t := range stamp.FindAllString(text, -1) {
		if x, err := time.Parse(time.RFC3339, t); err == nil {
			shown[x.Unix()] = true
		}
	}
	wantT := map[int64]string{p.unix(): "creation time"}
	if ttl := int64(f.ttlSeconds()); ttl > 0 {
		wantT[p.unix()+ttl] = "expiry"
	}
	for t, name := range wantT {
		c.Check(shown[t], "-verbose does not report the %s %s: %.600q", name, time.Unix(t, 0).UTC().Format(time.RFC3339), text)
	}
	if p.Name+p.Email != "" && !stamp.MatchString(p.uid()) {
		for t := range shown {
			c.Check(wantT[t] != "", "-verbose reports the instant %s, which is neither creation nor expiry: %.600q", time.Unix(t, 0).UTC().Format(time.RFC3339), text)
		}
	}
	u := p.uid()
	c.Check(strings.Contains(text, u) || strings.Contains(text, strings.Trim(fmt.Sprintf("%q", u), `"`)), "-verbose does not report the user ID %q: %.600q", u, text)
	// every fingerprint is reported under the name of its key
	for _, l := range strings.Split(text, "\n") {
		h := hex40.FindString(l)
		if h == "" || strings.Contains(u, h) {
			continue
		}
		kind := "master"
		for _, s := range ct.Subs {
			if strings.EqualFold(h, fmt.Sprintf("%x", s.Key.Fpr)) {
				kind = s.Kind
			}
		}
		c.Check(strings.Contains(strings.ToLower(l), kind), "-verbose reports the %s key's fingerprint as %q", kind, l)
	}
	if words != nil {
		want := fmt.Sprint(len(words) == 16)
		if m := encLine.FindStringSubmatch(text); m != nil {
			c.Check(m[1] == want, "-verbose says encrypted: %s of a phrase of %d words", m[1], len(words))
		}
	}
	c.Event("verbose reports compared with the export")
}

func init() {
	rt.Register(&rt.Property{ID: "C16", Variant: "fast",
		Rule:   "case = one generate command with random flags, judged against the oracle, and recovered again through one or two input routes; or one recover of an oracle-made phrase with indices. Standard output, standard error and files are all captured; distinct by flags and key.",
		Assume: []string{"Argon2id replaced by a stand-in except in the real-kdf stream"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "pipes", Quick: 500, Thorough: 15000, Fn: func(c *rt.Case) { endToEnd(c, "", false, false, false) }},
				{Name: "typed", Quick: 60, Thorough: 3000, Fn: func(c *rt.Case) { endToEnd(c, "", false, false, true) }},
				{Name: "passwords", Quick: 48, Thorough: 2000, Limit: 90 * time.Second, Fn: func(c *rt.Case) {
					k := c.Index % 3
					if c.Index >= 24 {
						k = 1
					}
					endToEnd(c, "", k != 0, k != 1, true)
				}},
				{Name: "recover-indices", Quick: 300, Thorough: 10000, Fn: func(c *rt.Case) {
					f := genFlags(c.R, true)
					c.Input(f.desc())
					dir := cli.Scratch()
					defer os.RemoveAll(dir)
					words := spec.EncodePlain(f.Seed, f.Offset)
					pw := ""
					rte := pick(c.R, []route{viaFile, viaPipe, viaPipeSimple})
					if c.Index%6 == 0 {
						pw = typePassword(c.R)
						words = spec.EncodeEncrypted(f.Seed, f.Offset, []byte(pw), genSalt(c.R))
						rte = pick(c.R, []route{viaFile, viaRaw, viaSimple})
					}
					keyPw, args := "", f.args(c.R, true)
					if c.Index%6 == 0 && c.R.Intn(2) == 0 {
						keyPw = typePassword(c.R)
					}
					verbose := c.R.Intn(3) == 0
					if verbose {
						args = append(args, "-verbose")
					}
					r := recoverKey(c, "", dir, rte, words, pw, keyPw, args)
					var kp []byte
					if keyPw != "" {
						kp = []byte(keyPw)
					}
					ct := judgeKey(c, armored(c, r.Stdout, "recover"), f, kp, "recover")
					if verbose {
						metaShown(c, r.Stderr, ct, f, words)
					}
					noKey(c, r.Stderr, f, "recover's standard error")
					c.Event("recovered by " + routeNames[rte])
					c.Distinct(f, rte)
				}},
				{Name: "secret-flow", Quick: 60, Thorough: 1500, Fn: secretFlow},
				{Name: "stdout-on-terminal", Quick: 12, Thorough: 200, Fn: func(c *rt.Case) {
					// the key block is complete also when everything is one terminal
					f := genFlags(c.R, false)
					f.Name, f.NoName = "tty", false
					c.Input(f.desc())
					r := mustDrive(c, cli.SessOpt{Opt: cli.Opt{Args: append([]string{"generate"}, f.args(c.R, false)...)}, StdoutTTY: true})
					c.Check(r.Exit == 0, "generate: %v", r)
					text := strings.ReplaceAll(cli.Strip(r.Stderr), "\r", "")
					i, j := strings.Index(text, "-----BEGIN"), strings.Index(text, "-----END PGP PRIVATE KEY BLOCK-----")
					c.Check(i >= 0 && j > i, "no key block on the terminal: %.300q", text)
					data, err := spec.Dearmor(text[i : j+len("-----END PGP PRIVATE KEY BLOCK-----")])
					c.Check(err == nil, "armor on the terminal: %v", err)
					dec, def := spec.Decode(cli.Phrase(r.Stderr))
					c.Check(!def.Any(), "phrase on the terminal: %+v", def)
					f.Seed, f.Offset = dec.Entropy, dec.Offset
					judgeKey(c, data, f, nil, "generate")
					c.Distinct(f)
				}},
				{Name: "real-kdf", Quick: 2, Thorough: 20, Serial: true, Limit: 60 * time.Second, Fn: func(c *rt.Case) {
					// the shipped binary, with the real Argon2id: generate and recover agree
					dir := cli.Scratch()
					defer os.RemoveAll(dir)
					f := genFlags(c.R, false)
					c.Input(f.desc())
					r := cli.Run(cli.Opt{Bin: cli.RealBin, Args: append([]string{"generate"}, f.args(c.R, false)...), Timeout: 3 * time.Minute})
					c.Check(r.Exit == 0, "generate: %v", r)
					data := armored(c, r.Stdout, "generate")
					words := cli.Phrase(r.Stderr)
					dec, def := spec.Decode(words)
					c.Check(!def.Any(), "phrase: %+v", def)
					ct := cert(c, data)
					f.Seed, f.Offset = dec.Entropy, dec.Offset
					c.Check(int64(ct.Master.Creation) == f.unix() && ct.UID == f.effective().uid(), "creation or user ID wrong")
					rr := recoverKey(c, cli.RealBin, dir, pick(c.R, []route{viaFile, viaPipe}), words, "", "", f.args(c.R, false))
					c.Check(bytes.Equal(rr.Stdout, r.Stdout), "recover printed another key")
					c.Event("real-KDF keys recovered")
					c.Distinct(f)
				}},
			}
		}})

	rt.Register(&rt.Property{ID: "C17", Variant: "fast",
		Rule:   "case = one chain of conversions of one phrase (library or convert command, plaintext and encrypted, by files and by terminal); every phrase of the chain is opened by the oracle with its own password after the whole chain; distinct by chain.",
		Assume: []string{"Argon2id replaced by a stand-in except in the real-kdf stream"},
		Streams: func() []rt.Stream {
			type link struct {
				words []string
				pw    []byte // nil: plaintext
			}
			judge := func(c *rt.Case, ls []link, s [16]byte, o uint32) {
				for i, l := range ls {
					dec, def := spec.Decode(l.words)
					c.Check(!def.Any(), "phrase %d of the chain is invalid: %+v (%v)", i, def, l.words)
					c.Check(dec.Offset == o, "phrase %d of the chain has offset %d, want %d", i, dec.Offset, o)
					c.Check((dec.Version == 1) == (l.pw != nil), "phrase %d of the chain has version %d", i, dec.Version)
					got := dec.Entropy
					if l.pw != nil {
						var ok bool
						got, ok = dec.Open(l.pw)
						c.Check(ok, "phrase %d of the chain does not open with its password", i)
					}
					c.Check(got == s, "phrase %d of the chain holds seed %x, want %x", i, got, s)
					c.Event("chain phrases opened")
				}
			}
			return []rt.Stream{
				{Name: "library-chain", Quick: 4000, Thorough: 150000, Fn: func(c *rt.Case) {
					s, o := genSeed(c.R), genOffset(c.R)
					ls := []link{{spec.EncodePlain(s, o), nil}}
					shape := ""
					for n := 1 + c.R.Intn(7); n > 0; n-- {
						from := ls[c.R.Intn(len(ls))]
						dec, err := mnemonikey.DecodeMnemonic(mixCase(c.R, from.words))
						c.Check(err == nil, "decode: %v", err)
						seed, err := dec.DecryptSeed(from.pw)
						c.Check(err == nil, "open: %v", err)
						if c.R.Intn(3) == 0 {
							w, err := mnemonikey.EncodeMnemonicPlaintext(seed, dec.CreationOffset())
							c.Check(err == nil, "encode: %v", err)
							ls = append(ls, link{w, nil})
							shape += "p"
						} else {
							pw := genPassword(c.R)
							w, err := mnemonikey.EncodeMnemonicEncrypted(seed, dec.CreationOffset(), pw, salted(c.R))
							c.Check(err == nil, "encode: %v", err)
							ls = append(ls, link{w, pw})
							shape += "e"
						}
					}
					c.Input(map[string]any{"seed": fmt.Sprintf("%x", s), "offset": o, "chain": shape})
					judge(c, ls, s, o)
					p := Params{Seed: s, Offset: o, Name: "chain"}
					want := build(c, p)
					for _, l := range ls {
						var m *mnemonikey.Mnemonikey
						var err error
						if l.pw == nil {
							m, err = mnemonikey.RecoverPlaintext(l.words, p.opts())
						} else {
							m, err = mnemonikey.RecoverEncrypted(l.words, l.pw, p.opts())
						}
						c.Check(err == nil, "recover: %v", err)
						sameKey(c, m, want, "a converted phrase recovers another key")
					}
					c.State("chain shapes", shape)
					c.Distinct(s, o, shape)
				}},
				{Name: "command-chain", Quick: 100, Thorough: 4000, Fn: func(c *rt.Case) {
					s, o := genSeed(c.R), genOffset(c.R)
					dir := cli.Scratch()
					defer os.RemoveAll(dir)
					ls := []link{{spec.EncodePlain(s, o), nil}}
					if c.R.Intn(2) == 0 {
						pw := []byte(typePassword(c.R))
						ls = []link{{spec.EncodeEncrypted(s, o, pw, genSalt(c.R)), pw}}
					}
					shape := ""
					for n := 1 + c.R.Intn(4); n > 0; n-- {
						from := ls[c.R.Intn(len(ls))]
						args := []string{"convert"}
						var steps []step
						o := cli.Opt{}
						inFile, outFile := "", ""
						var before os.FileInfo
						var content []byte
						pty := from.pw != nil
						switch c.R.Intn(4) {
						case 0, 1:
							inFile = writeWords(dir, fmt.Sprintf("in%d", len(ls)+100*n), mixCase(c.R, from.words))
							os.Chmod(inFile, os.FileMode(pick(c.R, []uint32{0o600, 0o644, 0o400})))
							before, _ = os.Stat(inFile)
							content, _ = os.ReadFile(inFile)
							args = append(args, "-in-word-file", inFile)
							shape += "f"
						case 2:
							pty = true
							steps = append(steps, step{raw: true, send: typed(c.R, from.words)})
							shape += "r"
						case 3:
							args = append(args, "-simple")
							if pty {
								for i, w := range from.words {
									steps = append(steps, step{expect: fmt.Sprintf("Word %d >>", i+1), send: w + "\n"})
								}
							} else {
								o.Stdin = []byte(strings.Join(from.words, "\n") + "\n")
								args = append([]string{}, args...)
							}
							shape += "s"
						}
						if from.pw != nil {
							steps = append(steps, pwSteps(promptDec, string(from.pw), false)...)
						}
						var pw []byte
						if c.R.Intn(3) > 0 {
							pw = []byte(typePassword(c.R))
							args = append(args, "-encrypt-phrase")
							if !pty && len(steps) == 0 && o.Stdin != nil {
								// words typed on a terminal instead of piped
								o.Stdin = nil
								for i, w := range from.words {
									steps = append(steps, step{expect: fmt.Sprintf("Word %d >>", i+1), send: w + "\n"})
								}
							}
							pty = true
							steps = append(steps, pwSteps(promptEnc, string(pw), true)...)
							shape += "e"
						} else {
							shape += "p"
						}
						if c.R.Intn(2) == 0 {
							var arg string
							outFile, arg = place(c.R, dir, &o)
							args = append(args, "-out-word-file", arg)
							shape += "F"
						}
						if c.R.Intn(3) == 0 {
							args = append(args, "-verbose")
						}
						o.Args = args
						home(dir, &o)
						var r cli.Result
						if pty {
							r = mustDrive(c, cli.SessOpt{Opt: o}, steps...)
						} else {
							r = cli.Run(o)
						}
						c.Check(r.Exit == 0, "%v: %v", args, r)
						c.Check(len(r.Stdout) == 0, "%v printed on standard output: %.200q", args, r.Stdout)
						if inFile != "" {
							after, err := os.Stat(inFile)
							now, _ := os.ReadFile(inFile)
							c.Check(err == nil && os.SameFile(before, after) && after.ModTime().Equal(before.ModTime()) && after.Mode() == before.Mode() && bytes.Equal(now, content),
								"%v changed its input word file", args)
							c.Event("input word files compared")
						}
						var words []string
						if outFile != "" {
							b, err := os.ReadFile(outFile)
							c.Check(err == nil, "%v wrote no output word file: %v (%v)", args, err, r)
							words = strings.Fields(string(b))
							c.Check(string(b) == strings.Join(words, " ")+"\n", "word file content %q", b)
							if inFile != "" {
								noPhrase(c, r.Stderr, words, "convert -out-word-file's standard error")
							}
						} else {
							words = cli.Phrase(r.Stderr)
						}
						ls = append(ls, link{words, pw})
						c.Event("convert commands")
					}
					c.Input(map[string]any{"seed": fmt.Sprintf("%x", s), "offset": o, "chain": shape})
					judge(c, ls, s, o)
					f := cliFlags{SelfCert: true}
					f.Seed, f.Offset, f.Name = s, o, "conv"
					last := ls[len(ls)-1]
					r := recoverKey(c, "", dir, viaFile, last.words, string(last.pw), "", []string{"-name", "conv"})
					judgeKey(c, armored(c, r.Stdout, "recover"), f, nil, "recover after convert")
					for _, l := range ls {
						strays(c, dir, f, l.words)
					}
					c.State("chain shapes", shape)
					c.Distinct(s, o, shape)
				}},
				{Name: "existing-output", Quick: 90, Thorough: 1500, Fn: func(c *rt.Case) {
					s, o := genSeed(c.R), genOffset(c.R)
					dir := cli.Scratch()
					defer os.RemoveAll(dir)
					words, answers := spec.EncodePlain(s, o), map[string]string{}
					if c.R.Intn(2) == 0 {
						answers[promptDec] = typePassword(c.R)
						words = spec.EncodeEncrypted(s, o, []byte(answers[promptDec]), genSalt(c.R))
					}
					in := writeWords(dir, "in", words)
					out := in
					kind := pick(c.R, []string{"same", "other", "link", "hard link", "other spelling"})
					switch kind {
					case "other":
						out = cli.Path(dir, "other")
						os.WriteFile(out, []byte("precious\n"), 0o600)
					case "link":
						out = cli.Path(dir, "link")
						os.Symlink("in", out)
					case "hard link":
						out = cli.Path(dir, "hard")
						os.Link(in, out)
					case "other spelling":
						out = dir + "/./in"
					}
					args := []string{"convert", "-in-word-file", in, "-out-word-file", out}
					if c.R.Intn(2) == 0 {
						answers[promptEnc] = typePassword(c.R)
						args = append(args, "-encrypt-phrase")
					}
					if c.R.Intn(4) == 0 {
						args = append(args, "-verbose")
					}
					c.Input(map[string]any{"output": kind, "args": args, "encrypted input": answers[promptDec] != ""})
					before := snapshot(dir)
					r := runAnswering(c, cli.Opt{Args: args}, answers)
					d := diff(before, snapshot(dir))
					c.Check(d == "", "convert onto an existing file (%s) changed %s", kind, d)
					c.Check(r.Exit > 0 && len(r.Stdout) == 0, "convert onto an existing file (%s): %v", kind, r)
					c.Event("existing outputs kept")
					c.State("existing outputs", fmt.Sprint(kind, len(answers), len(args)))
					c.Distinct(s, o)
				}},
				{Name: "given-up", Quick: 60, Thorough: 1500, Fn: func(c *rt.Case) {
					// a conversion that is given up or killed half-way leaves its
					// input as it was and the phrase still recoverable
					s, o := genSeed(c.R), genOffset(c.R)
					dir := cli.Scratch()
					defer os.RemoveAll(dir)
					words := spec.EncodePlain(s, o)
					var steps []step
					if c.R.Intn(2) == 0 {
						words = spec.EncodeEncrypted(s, o, []byte("old"), genSalt(c.R))
						steps = append(steps, pwSteps(promptDec, "old", false)...)
					}
					in := writeWords(dir, "in", words)
					out := cli.Path(dir, "out")
					steps = append(steps, pwSteps(promptEnc, "new", true)...)
					k := c.R.Intn(len(steps))
					how := pick(c.R, []string{"interrupt key", "SIGKILL", "SIGTERM", "SIGHUP"})
					args := []string{"convert", "-in-word-file", in, "-encrypt-phrase", "-out-word-file", out}
					c.Input(map[string]any{"encrypted input": len(steps) > 2, "given up at prompt": k, "how": how})
					before := snapshot(dir)
					ses, err := cli.Start(cli.SessOpt{Opt: cli.Opt{Args: args}})
					if err != nil {
						c.Inconclusive("%v", err)
					}
					defer ses.P.Close()
					for i, st := range steps[:k+1] {
						if !ses.Expect(st.expect, wait) || !ses.WaitTermios(wait, cli.EchoOff) {
							ses.Kill(unix.SIGKILL)
							c.Fail("%v: no prompt %q", args, st.expect)
						}
						if i < k {
							ses.Send(st.send)
						}
					}
					switch how {
					case "interrupt key":
						ses.Send("\x03")
					case "SIGKILL":
						ses.Kill(unix.SIGKILL)
					case "SIGTERM":
						ses.Kill(unix.SIGTERM)
					case "SIGHUP":
						ses.Kill(unix.SIGHUP)
					}
					r := ses.Finish(wait)
					c.Check(!r.Timeout && r.Exit != 0, "%v given up by %s: %v", args, how, r)
					d := diff(before, snapshot(dir))
					c.Check(d == "", "a conversion given up at prompt %d (%s) changed %s", k, how, d)
					c.Check(len(r.Stdout) == 0 && len(cli.Phrase(r.Stderr)) == 0, "%v given up by %s delivered something: %v", args, how, r)
					c.Event("given-up conversions")
					c.State("given up", fmt.Sprint(len(steps), k, how))
					c.Distinct(s, o)
				}},
				{Name: "real-kdf", Quick: 1, Thorough: 10, Serial: true, Limit: 60 * time.Second, Fn: func(c *rt.Case) {
					s, o := genSeed(c.R), genOffset(c.R)
					dir := cli.Scratch()
					defer os.RemoveAll(dir)
					c.Input(map[string]any{"seed": fmt.Sprintf("%x", s), "offset": o})
					in := writeWords(dir, "in", spec.EncodePlain(s, o))
					mid, end := cli.Path(dir, "mid"), cli.Path(dir, "end")
					r := mustDrive(c, cli.SessOpt{Opt: cli.Opt{Bin: cli.RealBin, Args: []string{"convert", "-in-word-file", in, "-encrypt-phrase", "-out-word-file", mid}}},
						pwSteps(promptEnc, "real password", true)...)
					c.Check(r.Exit == 0, "convert -encrypt-phrase: %v", r)
					r = mustDrive(c, cli.SessOpt{Opt: cli.Opt{Bin: cli.RealBin, Args: []string{"convert", "-in-word-file", mid, "-out-word-file", end}}},
						pwSteps(promptDec, "real password", false)...)
					c.Check(r.Exit == 0, "convert: %v", r)
					a, _ := os.ReadFile(in)
					b, _ := os.ReadFile(end)
					c.Check(bytes.Equal(a, b), "plaintext to encrypted to plaintext gives %q, started from %q", b, a)
					c.Event("real-KDF conversions")
					c.Distinct(s)
				}},
			}
		}})
}
