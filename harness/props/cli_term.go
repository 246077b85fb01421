package props

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	"golang.org/x/sys/unix"

	"verifharness/cli"
	"verifharness/rt"
	"verifharness/spec"
)

// entry models the raw phrase prompt: what a sequence of key strokes means.
type entry struct {
	words   []string
	cur     string
	count   int
	rejects int
	lefts   int
	tabs    int
}

func (e *entry) done() bool { return len(e.words) > 0 && len(e.words) == e.count }

// press applies one key; keys are single characters or "left".
func (e *entry) press(k string) {
	switch {
	case len(k) == 1 && k[0] >= 'a' && k[0] <= 'z':
		e.cur += k
	case k == "\x7f":
		if e.cur != "" {
			e.cur = e.cur[:len(e.cur)-1]
		}
	case k == "\t":
		e.tabs++
		if w, ok := spec.Complete(e.cur); ok {
			e.cur = w
		}
	case k == "\r" || k == " ":
		w, ok := spec.Complete(e.cur)
		if !ok {
			e.rejects++
			return
		}
		if len(e.words) == 0 {
			v := spec.WordIndex[w] >> 8
			if v > 1 {
				e.rejects++
				return
			}
			e.count = 14 + 2*v
		}
		e.words = append(e.words, w)
		e.cur = ""
	case k == "\x1b[D":
		e.lefts++
		if len(e.words) > 0 {
			e.words = e.words[:len(e.words)-1]
			e.cur = ""
		}
	}
}

// typist produces key strokes towards a target phrase, with all the detours a
// user may take, while tracking the model.
type typist struct {
	e    entry
	r    *rand.Rand
	keys []string
}

func (t *typist) key(k string) {
	t.keys = append(t.keys, k)
	t.e.press(k)
}

func (t *typist) text(s string) {
	for i := 0; i < len(s); i++ {
		t.key(s[i : i+1])
	}
}

// clear empties the current input.
func (t *typist) clear() {
	for n := len(t.e.cur) + t.r.Intn(3); n > 0; n-- {
		t.key("\x7f")
	}
}

func (t *typist) submit() { t.key(pick(t.r, []string{"\r", " "})) }

func (t *typist) noise() {
	t.keys = append(t.keys, pick(t.r, []string{"1", "9", "A", "Z", "\x1b[A", "\x1b[B", "\x1b[C", "\x01", "\x00", "-", ".", "~", "é", "\x1b"}))
}

// enter types a word so that it is submitted.
func (t *typist) enter(w string) {
	shortest := w
	for n := 1; n < len(w); n++ {
		if x, ok := spec.Complete(w[:n]); ok && x == w {
			shortest = w[:n]
			break
		}
	}
	switch t.r.Intn(6) {
	case 0, 1:
		t.text(w)
	case 2:
		t.text(shortest)
	case 3:
		t.text(shortest)
		t.key("\t")
		if t.r.Intn(2) == 0 {
			t.key("\t")
		}
	case 4: // a typo corrected
		t.text(w[:1+t.r.Intn(len(w))])
		t.text(pick(t.r, []string{"x", "qq", "zzz"}))
		t.clear()
		t.text(w)
	case 5: // past the shortest prefix
		t.text(w[:len(shortest)+t.r.Intn(len(w)-len(shortest)+1)])
	}
	if t.r.Intn(8) == 0 {
		t.noise()
	}
	t.submit()
}

func nonWord(r *rand.Rand) string {
	for {
		s := pick(r, []string{"zzzz", "qx", "xyz", "aaaa", "zoozoo", "abandonx", "q", "jjj"})
		if _, ok := spec.Complete(s); !ok {
			return s
		}
	}
}

// detour does something a user regrets, leaving the input empty.
func (t *typist) detour(mustEnd bool) {
	switch t.r.Intn(8) {
	case 0: // not a word
		t.text(nonWord(t.r))
		t.submit()
		t.clear()
	case 1: // submitting nothing
		t.submit()
	case 2: // a version the tool does not know
		if len(t.e.words) == 0 {
			t.text(spec.Words[512+t.r.Intn(4096-512)])
			t.submit()
			t.clear()
		}
	case 3, 4: // another word, perhaps by an ambiguous prefix
		if len(t.e.words) == 0 || len(t.e.words)+1 < t.e.count {
			w := pick(t.r, spec.Words)
			if len(t.e.words) == 0 {
				w = spec.Words[t.r.Intn(512)]
			}
			t.text(w[:1+t.r.Intn(len(w))])
			if t.r.Intn(3) == 0 {
				t.key("\t")
			}
			t.submit()
			t.clear()
		}
	case 5: // back
		if len(t.e.words) > 0 {
			for n := 1 + t.r.Intn(4); n > 0 && len(t.e.words) > 0; n-- {
				if t.r.Intn(3) == 0 {
					t.text(pick(t.r, spec.Words)[:2])
				}
				t.key("\x1b[D")
			}
		} else {
			t.key("\x1b[D")
		}
	case 6: // all the way back
		if t.r.Intn(3) == 0 {
			for len(t.e.words) > 0 {
				t.key("\x1b[D")
			}
		}
	case 7:
		t.noise()
	}
	t.clear()
}

// run types until the phrase is complete.
func (t *typist) run(target []string) {
	budget := t.r.Intn(25)
	for !t.e.done() {
		if budget > 0 && t.r.Intn(3) == 0 {
			budget--
			t.detour(true)
			continue
		}
		n := len(t.e.words)
		// a wrong word was left behind: go back to it
		if n > 0 && t.r.Intn(2) == 0 || n > 0 && (n+1 >= t.e.count || budget == 0) {
			bad := -1
			for i, w := range t.e.words {
				if w != target[i] {
					bad = i
					break
				}
			}
			if bad >= 0 {
				for len(t.e.words) > bad {
					t.key("\x1b[D")
				}
				continue
			}
		}
		if n < len(target) {
			t.enter(target[n])
		}
	}
}

func (t *typist) String() string { return fmt.Sprintf("%q", strings.Join(t.keys, "")) }

// send delivers key strokes in random portions.
func sendKeys(r *rand.Rand, s *cli.Session, keys []string) {
	all := strings.Join(keys, "")
	for len(all) > 0 {
		n := len(all)
		if r.Intn(2) == 0 {
			n = 1 + r.Intn(len(all))
		}
		if n > 900 {
			n = 900
		}
		s.Send(all[:n])
		all = all[n:]
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(4)) * time.Millisecond)
		}
	}
}

func restored(c *rt.Case, s *cli.Session, what string) {
	after := s.P.Termios()
	c.Check(after == s.Before, "%s: terminal settings differ after exit: %+v, before %+v", what, after, s.Before)
	c.Event("terminal settings compared after exit")
}

// startOdd starts a session on a terminal whose settings are not the defaults,
// so that "restored" cannot be confused with "reset".
func startOdd(c *rt.Case, o cli.SessOpt) *cli.Session {
	p, err := cli.OpenPTY(uint16(40+c.R.Intn(120)), 40)
	if err != nil {
		c.Inconclusive("no pseudo-terminal: %v", err)
	}
	t := p.Termios()
	for _, x := range []struct {
		f *uint32
		b uint32
	}{{&t.Lflag, unix.ECHOCTL}, {&t.Lflag, unix.ECHOE}, {&t.Lflag, unix.ECHOK}, {&t.Lflag, unix.ECHOKE}, {&t.Iflag, unix.IXON}, {&t.Iflag, unix.IXANY}, {&t.Iflag, unix.IUTF8}, {&t.Oflag, unix.ONLCR}, {&t.Lflag, unix.TOSTOP}, {&t.Iflag, unix.IMAXBEL}} {
		if c.R.Intn(3) == 0 {
			*x.f ^= x.b
		}
	}
	if c.R.Intn(3) == 0 {
		t.Cc[unix.VERASE] = 8
	}
	if c.R.Intn(3) == 0 {
		t.Cc[unix.VMIN] = byte(1 + c.R.Intn(3))
	}
	if err := p.SetTermios(t); err != nil {
		c.Inconclusive("cannot change the terminal: %v", err)
	}
	s, err := cli.StartOn(p, o)
	if err != nil {
		p.Close()
		c.Inconclusive("cannot start: %v", err)
	}
	c.State("terminal settings before", s.Before)
	return s
}

// rawEntry runs one raw-mode session and judges it.
func rawEntry(c *rt.Case, mode int) {
	seed, off := genSeed(c.R), genOffset(c.R)
	pw := ""
	target := spec.EncodePlain(seed, off)
	if c.Index%3 == 2 {
		pw = "pw"
		target = spec.EncodeEncrypted(seed, off, []byte(pw), genSalt(c.R))
	}
	valid := true
	if mode == 1 { // ends in a phrase that is not valid
		target = append([]string{}, target...)
		target[len(target)-1] = spec.Words[spec.WordIndex[target[len(target)-1]]^(1+c.R.Intn(31))]
		_, def := spec.Decode(target)
		valid = !def.Any()
	}
	t := &typist{r: c.R}
	t.run(target)
	if !eqWords(t.e.words, target) {
		c.Inconclusive("harness: the model ended with %v", t.e.words)
	}
	keys := t.keys
	abort := ""
	if mode == 2 {
		keys = append([]string{}, keys[:c.R.Intn(len(keys))]...)
		abort = pick(c.R, []string{"\x03", "\x04"})
		keys = append(keys, abort)
	}
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	out := cli.Path(dir, "out")
	useConvert := c.R.Intn(3) > 0
	args := []string{"convert", "-out-word-file", out}
	f := cliFlags{SelfCert: true}
	f.Seed, f.Offset, f.Name = seed, off, "entry"
	if !useConvert {
		args = []string{"recover", "-name", "entry"}
	}
	c.Input(map[string]any{"keys": fmt.Sprintf("%q", strings.Join(keys, "")), "command": args[0], "target": target, "abort": abort, "valid": valid})
	s := startOdd(c, cli.SessOpt{Opt: cli.Opt{Args: args}})
	defer s.P.Close()
	c.Check(s.WaitTermios(wait, cli.Raw), "%v: the terminal did not enter raw mode: %.300q", args, s.TTY())
	sendKeys(c.R, s, keys)
	if pw != "" && abort == "" && valid {
		ok := s.Expect(promptDec, wait) && s.WaitTermios(wait, cli.EchoOff)
		if !ok {
			s.Kill(unix.SIGKILL)
		}
		c.Check(ok, "%v: no decryption password prompt after the last word of %v: screen %.500q", args, target, tail(cli.Strip(s.TTY()), 500))
		s.Send(pw + "\n")
	}
	r := s.Finish(wait)
	c.Check(!r.Timeout, "%v: did not finish after the last word", args)
	restored(c, s, fmt.Sprint(args))
	c.EventN("key strokes", len(keys))
	b, ferr := os.ReadFile(out)
	switch {
	case abort != "" || !valid:
		c.Check(r.Exit > 0, "%v: %v", args, r)
		c.Check(len(r.Stdout) == 0, "%v printed %d bytes", args, len(r.Stdout))
		c.Check(ferr != nil, "%v wrote a word file: %q", args, b)
		if abort != "" {
			c.Event("aborted entries")
			c.State("abort position", fmt.Sprint(len(keys)-1))
		} else {
			c.Event("entries refused for their checksum")
		}
	case useConvert:
		c.Check(r.Exit == 0, "%v: %v", args, r)
		want := strings.Join(spec.EncodePlain(seed, off), " ") + "\n"
		c.Check(ferr == nil && string(b) == want, "typing %s gave the phrase %q, the user settled on %q (%v)", t, b, want, ferr)
		c.Event("entered phrases compared")
	default:
		c.Check(r.Exit == 0, "%v: %v", args, r)
		judgeKey(c, armored(c, r.Stdout, "recover"), f, nil, "typing "+t.String())
		c.Event("entered phrases compared")
	}
	if mode == 0 {
		c.EventN("left arrows pressed", t.e.lefts)
		c.EventN("rejected submissions", t.e.rejects)
		c.EventN("tab completions", t.e.tabs)
		c.State("lefts x rejects x tabs", fmt.Sprint(t.e.lefts, t.e.rejects, t.e.tabs))
	}
	c.Distinct(keys)
}

// simpleEntry runs the line-wise prompt by pipe or terminal.
func simpleEntry(c *rt.Case) {
	seed, off := genSeed(c.R), genOffset(c.R)
	target := spec.EncodePlain(seed, off)
	tty := c.Index%3 == 0
	enc := tty && c.R.Intn(3) == 0
	if enc {
		target = spec.EncodeEncrypted(seed, off, []byte("pw"), genSalt(c.R))
	}
	lines := []string{}
	junk := 0
	for i, w := range mixCase(c.R, target) {
		for c.R.Intn(4) == 0 {
			junk++
			j := ""
			switch c.R.Intn(7) {
			case 0:
				j = nonWord(c.R)
			case 1: // a prefix that is not itself a word
				for {
					x := pick(c.R, spec.Words)
					j = x[:1+c.R.Intn(len(x))]
					if _, ok := spec.Lookup(j); !ok {
						break
					}
				}
			case 2:
				j = ""
			case 3:
				j = pick(c.R, spec.Words) + " " + pick(c.R, spec.Words)
			case 4:
				j = pick(c.R, []string{"1", "éa", "--", "abandon.", strings.Repeat("a", 200)})
			case 5:
				j = pick(c.R, spec.Words) + "x"
				if _, ok := spec.Lookup(j); ok {
					j = "1"
				}
			case 6:
				j = "zz"
				if i == 0 {
					j = spec.Words[512+c.R.Intn(4096-512)]
				}
			}
			lines = append(lines, j)
		}
		lines = append(lines, w)
	}
	cut := -1
	if c.R.Intn(4) == 0 {
		cut = c.R.Intn(len(lines))
	}
	eol := "\n"
	if !tty && c.R.Intn(6) == 0 {
		eol = "\r\n"
	}
	text := strings.Join(lines, eol) + eol
	if cut >= 0 {
		text = ""
		if cut > 0 {
			text = strings.Join(lines[:cut], eol) + eol
		}
	} else if !tty && c.R.Intn(5) == 0 {
		text = strings.TrimSuffix(text, eol)
	}
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	out := cli.Path(dir, "out")
	args := []string{"convert", "-out-word-file", out}
	if tty || c.R.Intn(2) == 0 {
		args = append(args, "-simple")
	}
	abort := ""
	c.Input(map[string]any{"lines": lines, "cut": cut, "terminal": tty})
	var r cli.Result
	if tty {
		s := startOdd(c, cli.SessOpt{Opt: cli.Opt{Args: args}})
		defer s.P.Close()
		c.Check(s.Expect("Word 1 >>", wait), "%v: no prompt", args)
		ls := strings.SplitAfter(text, "\n")
		for _, l := range ls {
			s.Send(l)
			if c.R.Intn(10) == 0 {
				time.Sleep(2 * time.Millisecond)
			}
		}
		if cut >= 0 {
			abort = pick(c.R, []string{"\x03", "\x04"})
			s.Send(abort)
		} else if enc {
			ok := s.Expect(promptDec, wait) && s.WaitTermios(wait, cli.EchoOff)
			if !ok {
				s.Kill(unix.SIGKILL)
			}
			c.Check(ok, "%v: no decryption password prompt: %.300q", args, tail(cli.Strip(s.TTY()), 300))
			s.Send("pw\n")
		}
		r = s.Finish(wait)
		restored(c, s, fmt.Sprint(args))
	} else {
		r = cli.Run(cli.Opt{Args: args, Stdin: []byte(text)})
	}
	c.Check(!r.Timeout, "%v: did not finish", args)
	c.Check(len(r.Stdout) == 0, "%v printed on standard output: %.100q", args, r.Stdout)
	b, ferr := os.ReadFile(out)
	if cut >= 0 {
		c.Check(r.Exit != 0 && ferr != nil, "%v: input ended after %d of %d lines (%q), yet: %v, file %q", args, cut, len(lines), abort, r, b)
		c.Event("inputs that ended early")
	} else {
		c.Check(r.Exit == 0, "%v on %q: %v", args, text, r)
		want := strings.Join(spec.EncodePlain(seed, off), " ") + "\n"
		c.Check(ferr == nil && string(b) == want, "lines %q gave %q, want %q", lines, b, want)
		c.EventN("junk lines asked again", junk)
		c.Event("entered phrases compared")
	}
	c.Distinct(text, tty, abort)
}

// allWords types every word of the list by its every prefix: raw mode.
func allPrefixes(c *rt.Case) {
	// 12 words per session as the middle of a phrase, submitted by chosen
	// prefixes; the tail is chosen so that the checksum fits.
	type sub struct{ keys, word string }
	var subs []sub
	for i := 0; i < 12; i++ {
		w := spec.Words[(c.Index*12+i)%4096]
		n := 1 + (c.Index*12+i)/4096%len(w)
		if n > len(w) {
			n = len(w)
		}
		x, ok := spec.Complete(w[:n])
		if !ok {
			c.Inconclusive("harness: no completion")
		}
		subs = append(subs, sub{w[:n], x})
	}
	words := []string{spec.Words[c.R.Intn(256)]}
	for _, s := range subs {
		words = append(words, s.word)
	}
	words = spec.FixTail(append(words, pick(c.R, spec.Words)))
	dec, def := spec.Decode(words)
	if def.Any() {
		c.Inconclusive("harness: %v", def)
	}
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	out := cli.Path(dir, "out")
	keys := words[0] + "\r"
	for _, s := range subs {
		keys += s.keys
		if c.R.Intn(2) == 0 {
			keys += "\t"
		}
		keys += pick(c.R, []string{"\r", " "})
	}
	keys += words[13] + "\r"
	c.Input(map[string]any{"keys": fmt.Sprintf("%q", keys), "want": words})
	r := mustDrive(c, cli.SessOpt{Opt: cli.Opt{Args: []string{"convert", "-out-word-file", out}}}, step{raw: true, send: keys})
	c.Check(r.Exit == 0, "typing %q: %v", keys, r)
	b, _ := os.ReadFile(out)
	want := strings.Join(spec.EncodePlain(dec.Entropy, dec.Offset), " ") + "\n"
	c.Check(string(b) == want, "typing %q gave %q, want %q", keys, b, want)
	c.EventN("prefix submissions", len(subs))
	for _, s := range subs {
		c.State("prefixes submitted", s.keys)
	}
	c.Distinct(keys)
}

func init() {
	rt.Register(&rt.Property{ID: "C18", Variant: "fast",
		Rule:   "case = one session of the real binary on a pseudo-terminal (or pipe): a simulated user types, tabs, submits prefixes, is rejected, revises and goes back; the phrase handed on is observed through convert's word file or the recovered key and compared with a model of the key strokes; distinct by key strokes.",
		Assume: []string{"the byte 'D' is only sent as part of the left-arrow sequence", "left arrow at the first position is only sent with empty input"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "raw", Quick: 3000, Thorough: 200000, Limit: 60 * time.Second, Fn: func(c *rt.Case) { rawEntry(c, 0) }},
				{Name: "raw-invalid", Quick: 300, Thorough: 10000, Fn: func(c *rt.Case) { rawEntry(c, 1) }},
				{Name: "raw-abort", Quick: 900, Thorough: 60000, Fn: func(c *rt.Case) { rawEntry(c, 2) }},
				{Name: "prefixes", Quick: 342 * 8, Thorough: 342 * 8, Limit: 60 * time.Second, Fn: allPrefixes},
				{Name: "simple", Quick: 3000, Thorough: 150000, Fn: simpleEntry},
			}
		}})
}
