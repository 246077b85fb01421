package props

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/sys/unix"

	"verifharness/cli"
	"verifharness/rt"
	"verifharness/spec"
)

// dialog is a session at password prompts under observation.
type dialog struct {
	c       *rt.Case
	s       *cli.Session
	what    string
	secrets []string
	abortAt int // prompts until the user gives up (-1 never)
	abort   string
	partial string
	aborted bool
	trace   []string
}

func secret(r *rand.Rand) string {
	const abc = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	b := make([]byte, 12+r.Intn(20))
	for i := range b {
		b[i] = abc[r.Intn(len(abc))]
	}
	switch r.Intn(6) {
	case 0:
		return "\u00fc " + string(b)
	case 1:
		return string(b) + " !"
	case 2:
		if n, ok := dictN(r, 1000); ok && n > 20 && r.Intn(2) == 0 {
			return strLen(r, int(n))
		}
		return string(b) + strings.Repeat("z", r.Intn(200))
	}
	return string(b)
}

// prompt waits for one of the prompts, watches that the terminal stays silent,
// and either answers or aborts. It returns which prompt it was.
func (d *dialog) prompt(names ...string) string {
	i := d.s.ExpectAny(wait, names...)
	if i < 0 {
		d.s.Kill(unix.SIGKILL)
		d.c.Fail("%s: after %v no prompt %q appeared; screen: %.600q", d.what, d.trace, names, tail(cli.Strip(d.s.TTY()), 600))
	}
	name := names[i]
	if !d.s.WaitTermios(wait, cli.EchoOff) {
		d.s.Kill(unix.SIGKILL)
		d.c.Fail("%s: the terminal echoes at the prompt %q (after %v)", d.what, name, d.trace)
	}
	end := time.Now().Add(time.Duration(1+d.c.R.Intn(12)) * time.Millisecond)
	if d.c.R.Intn(6) == 0 {
		end = end.Add(150 * time.Millisecond)
	}
	n := 0
	for time.Now().Before(end) {
		t := d.s.P.Termios()
		if !cli.EchoOff(t) && !d.s.Exited() {
			d.s.Kill(unix.SIGKILL)
			d.c.Fail("%s: the terminal started to echo while the prompt %q was waiting (after %v)", d.what, name, d.trace)
		}
		n++
		time.Sleep(400 * time.Microsecond)
	}
	d.c.EventN("terminal states sampled at waiting prompts", n)
	d.c.Event("prompts observed")
	d.trace = append(d.trace, name)
	if d.abortAt == 0 {
		d.aborted = true
		d.s.Send(d.partial + d.abort)
	}
	d.abortAt--
	return name
}

func (d *dialog) answer(a string) {
	if d.aborted {
		return
	}
	if a != "" {
		d.secrets = append(d.secrets, a)
	}
	d.s.Send(a + "\n")
}

// near gives a password close to, but different from p.
func near(r *rand.Rand, p string) string {
	switch r.Intn(6) {
	case 0:
		return p[:len(p)-1]
	case 1:
		return p + "x"
	case 2:
		return p + " "
	case 3:
		q := strings.ToUpper(p)
		if q != p {
			return q
		}
		return "x" + p
	case 4:
		return " " + p
	}
	return secret(r)
}

// attempts says how often the user fails at a prompt before getting it right,
// and whether always in the same way (-1: no).
func attempts(r *rand.Rand) (n, kind int) {
	if r.Intn(8) == 0 {
		return 4 + r.Intn(10), r.Intn(5) - 1
	}
	return r.Intn(4), -1
}

// fresh goes through the prompts for a new password.
func (d *dialog) fresh(pw string, first bool, prompts ...string) string {
	name := ""
	tries, kind := attempts(d.c.R)
	for ; ; tries-- {
		ps := prompts
		if name != "" {
			ps = []string{name}
		}
		name = d.prompt(ps...)
		if d.aborted {
			return name
		}
		if tries <= 0 {
			d.answer(pw)
			if d.prompt("Repeat password"); !d.aborted {
				d.answer(pw)
			}
			return name
		}
		d.c.Event("refused password attempts")
		k := kind
		if k < 0 {
			k = d.c.R.Intn(4)
		}
		switch k {
		case 0:
			d.answer("")
			continue
		case 1: // first right, repeated differently
			d.answer(pw)
			if d.prompt("Repeat password"); d.aborted {
				return name
			}
			d.answer(near(d.c.R, pw))
		case 2: // repeated as nothing
			d.answer(pw)
			if d.prompt("Repeat password"); d.aborted {
				return name
			}
			d.answer("")
		case 3:
			d.answer(near(d.c.R, pw))
			if d.prompt("Repeat password"); d.aborted {
				return name
			}
			d.answer(pw)
		}
	}
}

// unlock goes through the prompts for an encrypted phrase.
func (d *dialog) unlock(dec spec.Decoded, pw string) {
	tries, kind := attempts(d.c.R)
	for ; ; tries-- {
		d.prompt(promptDec)
		if d.aborted {
			return
		}
		if tries <= 0 {
			d.answer(pw)
			return
		}
		bad := ""
		if kind > 0 || kind < 0 && d.c.R.Intn(4) > 0 {
			for bad = near(d.c.R, pw); ; bad = secret(d.c.R) {
				if _, ok := dec.Open([]byte(bad)); !ok && bad != pw {
					break
				}
			}
		}
		d.c.Event("refused password attempts")
		d.answer(bad)
	}
}

// silent checks that nothing typed at a prompt was shown anywhere.
func (d *dialog) silent(texts ...[]byte) {
	for _, s := range append(d.secrets, d.partial) {
		if len(s) < 8 {
			continue
		}
		for i := 0; i+8 <= len(s) && i < 24; i++ {
			if strings.Trim(s[i:i+8], "z") == "" {
				continue
			}
			for _, t := range texts {
				if bytes.Contains(t, []byte(s[i:i+8])) {
					d.c.Fail("%s: the password %q was shown (%q)", d.what, s, s[i:i+8])
				}
			}
		}
		d.c.Event("typed secrets searched for in all output")
	}
}

var termDelays = []string{"", "", "", "Restore=60", "Restore=120", "ReadPassword=15", "GetState=10", "MakeRaw=10", "Restore=40,ReadPassword=10", "Restore=30,GetState=15,ReadPassword=5", "Restore=5,ReadPassword=25"}

// passwordSession runs one history of prompts; abort says whether the user
// gives up at some prompt.
func passwordSession(c *rt.Case, bin string, abort bool) {
	seed, off := genSeed(c.R), genOffset(c.R)
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	out := cli.Path(dir, "out")
	f := cliFlags{SelfCert: true}
	f.Seed, f.Offset, f.Name = seed, off, "pw"
	cmd := pick(c.R, []string{"generate", "generate", "recover", "convert"})
	encKeys, encPhrase, encIn := false, false, false
	args := []string{cmd}
	var inWords []string
	var steps []step
	oldPw, keyPw, phrasePw := secret(c.R), secret(c.R), secret(c.R)
	rte := viaFile
	if cmd == "generate" {
		k := c.R.Intn(3)
		encKeys, encPhrase = k != 0, k != 1
	} else {
		encIn = c.R.Intn(5) > 0
		if cmd == "recover" {
			encKeys = !encIn || c.R.Intn(2) == 0
		} else {
			encPhrase = !encIn || c.R.Intn(2) == 0
		}
		inWords = spec.EncodePlain(seed, off)
		if encIn {
			inWords = spec.EncodeEncrypted(seed, off, []byte(oldPw), genSalt(c.R))
		}
		rte = pick(c.R, []route{viaFile, viaFile, viaRaw, viaSimple})
		switch rte {
		case viaFile:
			args = append(args, "-in-word-file", writeWords(dir, "in", inWords))
		case viaRaw:
			steps = append(steps, step{raw: true, send: typed(c.R, inWords)})
		case viaSimple:
			args = append(args, "-simple")
			steps = append(steps, step{expect: "Word 1 >>", send: strings.Join(inWords, "\n") + "\n"})
		}
	}
	if cmd != "convert" {
		args = append(args, "-name", "pw")
	}
	if encKeys {
		args = append(args, "-encrypt-keys")
	}
	if encPhrase {
		args = append(args, "-encrypt-phrase")
	}
	toFile := cmd != "recover" && c.R.Intn(2) == 0
	if toFile {
		args = append(args, "-out-word-file", out)
	}
	if c.R.Intn(4) == 0 {
		args = append(args, "-verbose")
	}
	d := &dialog{c: c, abortAt: -1, what: fmt.Sprint(args)}
	if abort {
		d.abortAt = c.R.Intn(5)
		if c.R.Intn(10) == 0 {
			d.abortAt += c.R.Intn(10)
		}
		d.abort = "\x03"
		if c.R.Intn(2) == 0 {
			d.partial = secret(c.R)
		}
	}
	delay := pick(c.R, termDelays)
	env := []string{"VERIF_TERM_DELAY=" + delay}
	raceLog := ""
	if bin != "" {
		raceLog = cli.Path(dir, "race")
		env = append(env, "GORACE=log_path="+raceLog+" exitcode=0")
	}
	ttyOut := !abort && c.R.Intn(6) == 0
	c.Input(map[string]any{"args": args, "delays": delay, "abort at prompt": d.abortAt, "abort": d.abort, "route": routeNames[rte]})
	d.s = startOdd(c, cli.SessOpt{Opt: cli.Opt{Bin: bin, Args: args, Env: env}, StdoutTTY: ttyOut})
	defer d.s.P.Close()
	for _, st := range steps {
		ok := true
		if st.expect != "" {
			ok = d.s.Expect(st.expect, wait)
		}
		if ok && st.raw {
			ok = d.s.WaitTermios(wait, cli.Raw)
		}
		if !ok {
			d.s.Kill(unix.SIGKILL)
			c.Fail("%s: no phrase prompt", d.what)
		}
		d.s.Send(st.send)
	}
	if encIn {
		dec, _ := spec.Decode(inWords)
		d.unlock(dec, oldPw)
	}
	if !d.aborted && encKeys && encPhrase {
		got := d.fresh(keyPw, true, promptKey, promptEnc)
		other := promptEnc
		if got == promptEnc { // either order serves the user
			keyPw, phrasePw = phrasePw, keyPw
			other = promptKey
		}
		if !d.aborted {
			pw := phrasePw
			if got == promptEnc {
				pw = keyPw
			}
			d.fresh(pw, false, other)
		}
	} else if !d.aborted && encKeys {
		d.fresh(keyPw, true, promptKey)
	} else if !d.aborted && encPhrase {
		d.fresh(phrasePw, true, promptEnc)
	}
	r := d.s.Finish(wait)
	c.Check(!r.Timeout, "%s: did not finish after %v; screen %.400q", d.what, d.trace, tail(cli.Strip(r.Stderr), 400))
	c.State("prompt histories", strings.Join(d.trace, ">")+fmt.Sprint(d.aborted, d.abort))
	after := d.s.P.Termios()
	c.Check(after == d.s.Before, "%s: terminal settings differ after exit (prompts %v, aborted %v %q, delays %q): %+v, before %+v", d.what, d.trace, d.aborted, d.abort, delay, after, d.s.Before)
	c.Event("terminal settings compared after exit")
	d.silent(r.Stderr, r.Stdout)
	if bin != "" {
		logs, _ := filepath.Glob(raceLog + ".*")
		for _, l := range logs {
			b, _ := os.ReadFile(l)
			c.Fail("%s: race detector: %.1500s", d.what, b)
		}
		c.Event("sessions under the race detector")
	}
	fb, ferr := os.ReadFile(out)
	if d.aborted {
		c.Check(r.Exit != 0, "%s aborted with %q at %v: exit status 0", d.what, d.abort, d.trace)
		c.Check(len(r.Stdout) == 0 && !bytes.Contains(r.Stderr, []byte("BEGIN PGP")), "%s aborted at %v: printed a key: %v", d.what, d.trace, r)
		c.Check(len(cli.Phrase(r.Stderr)) == 0 && ferr != nil, "%s aborted at %v: delivered a phrase", d.what, d.trace)
		c.Event("aborted prompts")
		c.Distinct(args, d.trace, d.abort, delay, seed)
		return
	}
	c.Check(r.Exit == 0, "%s: %v", d.what, r)
	// the passwords asked for are the ones in force
	var words []string
	if toFile {
		words = strings.Fields(string(fb))
	} else if cmd != "recover" {
		words = cli.Phrase(r.Stderr)
	}
	if cmd != "recover" {
		dec, def := spec.Decode(words)
		c.Check(!def.Any(), "%s: phrase %v: %+v", d.what, words, def)
		got := dec.Entropy
		c.Check((dec.Version == 1) == encPhrase, "%s: phrase version %d", d.what, dec.Version)
		if encPhrase {
			var ok bool
			got, ok = dec.Open([]byte(phrasePw))
			c.Check(ok, "%s: the phrase does not open with the confirmed password %q", d.what, phrasePw)
		}
		if cmd == "convert" {
			c.Check(got == seed && dec.Offset == off, "%s: the converted phrase is of another seed", d.what)
		}
		f.Seed, f.Offset = got, dec.Offset
		c.Event("phrases opened with the confirmed password")
	}
	if cmd != "convert" {
		var kp []byte
		if encKeys {
			kp = []byte(keyPw)
		}
		stdout := r.Stdout
		if ttyOut {
			text := strings.ReplaceAll(cli.Strip(r.Stderr), "\r", "")
			i, j := strings.Index(text, "-----BEGIN"), strings.Index(text, "-----END PGP PRIVATE KEY BLOCK-----")
			c.Check(i >= 0 && j > i, "%s: no key on the terminal", d.what)
			stdout = []byte(text[i:j] + "-----END PGP PRIVATE KEY BLOCK-----\n")
		}
		judgeKey(c, armored(c, stdout, d.what), f, kp, d.what)
		c.Event("keys opened with the confirmed password")
	}
	c.Distinct(args, d.trace, delay, f.Seed)
}

func init() {
	rt.Register(&rt.Property{ID: "C20", Variant: "fast",
		Rule:   "case = one session at the password prompts on a pseudo-terminal with unusual settings: a history of empty, mismatching, wrong and right answers, or an abort at one of the prompts, with injected delays around the terminal calls; echo is sampled while prompts wait, everything displayed or printed is searched for the secrets, the settings are compared after exit and the result is opened with the confirmed passwords; distinct by prompt history and arguments.",
		Assume: []string{"secrets are typed after the prompt has turned echo off; aborts happen while a prompt waits"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "sessions", Quick: 500, Thorough: 20000, Limit: 70 * time.Second, Fn: func(c *rt.Case) { passwordSession(c, "", false) }},
				{Name: "aborts", Quick: 400, Thorough: 12000, Limit: 50 * time.Second, Fn: func(c *rt.Case) { passwordSession(c, "", true) }},
				{Name: "race-detector", Quick: 60, Thorough: 3000, Limit: 60 * time.Second, Fn: func(c *rt.Case) { passwordSession(c, cli.RaceBin, c.Index%4 == 0) }},
				{Name: "no-terminal", Quick: 60, Thorough: 500, Fn: func(c *rt.Case) {
					// without a terminal nothing can be typed in secret: no key
					seed, off := genSeed(c.R), genOffset(c.R)
					dir := cli.Scratch()
					defer os.RemoveAll(dir)
					pw := secret(c.R)
					out := cli.Path(dir, "out")
					in := writeWords(dir, "in", spec.EncodePlain(seed, off))
					enc := writeWords(dir, "enc", spec.EncodeEncrypted(seed, off, []byte(pw), 5))
					args := pick(c.R, [][]string{
						{"generate", "-encrypt-keys"}, {"generate", "-encrypt-phrase"}, {"generate", "-encrypt-keys", "-encrypt-phrase", "-out-word-file", out},
						{"recover", "-in-word-file", in, "-encrypt-keys"}, {"recover", "-in-word-file", enc}, {"convert", "-in-word-file", enc},
						{"convert", "-in-word-file", in, "-encrypt-phrase", "-out-word-file", out},
					})
					c.Input(map[string]any{"args": args})
					o := cli.Opt{Args: args}
					switch c.R.Intn(4) {
					case 0:
						o.NoStdin = true
					case 1:
					case 2: // an empty line
						o.Stdin = []byte("\n\n")
					default:
						o.Stdin = nil
						fl, err := os.Open("/dev/null")
						if err == nil {
							defer fl.Close()
							o.StdinF = fl
						}
					}
					r := cli.Run(o)
					c.Check(r.Exit > 0 && !r.Timeout, "%v without a terminal: %v", args, r)
					c.Check(len(r.Stdout) == 0 && len(cli.Phrase(r.Stderr)) == 0, "%v without a terminal delivered something: %v", args, r)
					_, err := os.Stat(out)
					c.Check(err != nil, "%v without a terminal wrote a word file", args)
					c.Event("prompts without a terminal refused")
					c.Distinct(args, seed)
				}},
			}
		}})
}
