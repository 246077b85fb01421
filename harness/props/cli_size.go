package props

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"verifharness/cli"
	"verifharness/rt"
	"verifharness/spec"
)

// screens are commands whose text does not depend on chance.
var screens = [][]string{
	{"help"}, {}, {"-h"}, {"nosuch"},
	{"generate", "help"}, {"recover", "help"}, {"convert", "help"},
	{"generate", "-h"}, {"recover", "--help"}, {"convert", "-help"},
	{"generate", "-ttl", "bad"}, {"recover", "-only", "bad"}, {"generate", "-nosuch"}, {"convert", "-simple=x"},
}

var helpFlags = map[string][]string{
	"generate": {"name", "email", "ttl", "encrypt-keys", "only", "out-word-file", "encrypt-phrase", "unsafe-entropy", "verbose"},
	"recover":  {"name", "email", "ttl", "encrypt-keys", "only", "simple", "in-word-file", "self-cert", "enc-index", "auth-index", "sig-index", "verbose"},
	"convert":  {"simple", "in-word-file", "out-word-file", "encrypt-phrase", "verbose"},
}

type screenRef struct {
	once   sync.Once
	tokens []string
	exit   int
	err    string
}

var screenRefs = make([]screenRef, len(screens))

// shown runs a command on a terminal of a size.
func shown(args []string, cols, rows uint16) (cli.Result, error) {
	p, err := cli.OpenPTY(cols, rows)
	if err != nil {
		return cli.Result{}, err
	}
	defer p.Close()
	s, err := cli.StartOn(p, cli.SessOpt{Opt: cli.Opt{Args: args, MemKB: 3000000}, StdoutTTY: true})
	if err != nil {
		return cli.Result{}, err
	}
	return s.Finish(25 * time.Second), nil
}

// reference is the text without any terminal, which is the default width.
func reference(i int) *screenRef {
	ref := &screenRefs[i]
	ref.once.Do(func() {
		r := cli.Run(cli.Opt{Args: screens[i], Timeout: 60 * time.Second})
		if r.Timeout || r.Exit < 0 {
			ref.err = r.String()
			return
		}
		ref.exit = r.Exit
		ref.tokens = strings.Fields(cli.Strip(append(r.Stdout, r.Stderr...)))
	})
	return ref
}

func firstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<end>", "<end>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			if i > len(b) {
				i = len(b)
			}
			lo := i - 4
			if lo < 0 {
				lo = 0
			}
			return fmt.Sprintf("after %q: %q instead of %q", b[lo:i], x, y)
		}
	}
	return ""
}

func helpAt(c *rt.Case, i int, cols, rows uint16) {
	args := screens[i]
	c.Input(map[string]any{"args": args, "columns": cols, "rows": rows})
	ref := reference(i)
	c.Check(ref.err == "", "%v without a terminal: %s", args, ref.err)
	r, err := shown(args, cols, rows)
	if err != nil {
		c.Inconclusive("%v", err)
	}
	what := fmt.Sprintf("%v on a terminal of %d columns and %d rows", args, cols, rows)
	c.Check(!r.Timeout, "%s: did not finish", what)
	c.Check(r.Exit == ref.exit && !bytes.Contains(r.Stderr, []byte("goroutine ")), "%s: exit %d, without a terminal %d: %.300q", what, r.Exit, ref.exit, tail(string(r.Stderr), 300))
	got := strings.Fields(cli.Strip(r.Stderr))
	d := firstDiff(got, ref.tokens)
	c.Check(d == "", "%s: the text differs: %s", what, d)
	if len(args) > 0 {
		have := map[string]bool{}
		for _, t := range got {
			have[t] = true
		}
		for _, f := range helpFlags[args[0]] {
			c.Check(have["-"+f], "%s: the help does not list -%s", what, f)
		}
	}
	c.EventN("words compared", len(got))
	c.State("sizes", fmt.Sprint(cols, "x", rows))
	c.State("layouts", string(r.Stderr))
	c.Distinct(args, cols, rows)
}

// phraseAt shows a phrase on a terminal of a size.
func phraseAt(c *rt.Case, cols, rows uint16) {
	seed, off := genSeed(c.R), genOffset(c.R)
	words := spec.EncodePlain(seed, off)
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	in := writeWords(dir, "in", words)
	gen := c.R.Intn(2) == 0
	args := []string{"convert", "-in-word-file", in}
	if gen {
		args = []string{"generate"}
	}
	if c.R.Intn(3) == 0 {
		args = append(args, "-verbose")
	}
	c.Input(map[string]any{"args": args[0], "columns": cols, "rows": rows})
	p, err := cli.OpenPTY(cols, rows)
	if err != nil {
		c.Inconclusive("%v", err)
	}
	defer p.Close()
	s, err := cli.StartOn(p, cli.SessOpt{Opt: cli.Opt{Args: args, MemKB: 3000000}})
	if err != nil {
		c.Inconclusive("%v", err)
	}
	r := s.Finish(25 * time.Second)
	what := fmt.Sprintf("%s on a terminal of %d columns and %d rows", args[0], cols, rows)
	c.Check(!r.Timeout, "%s: did not finish", what)
	c.Check(r.Exit == 0, "%s: %v", what, r)
	got := cli.Phrase(r.Stderr)
	if gen {
		dec, def := spec.Decode(got)
		c.Check(!def.Any(), "%s: shows %v", what, got)
		f := cliFlags{SelfCert: true}
		f.Seed, f.Offset, f.Name = dec.Entropy, dec.Offset, "anonymous"
		judgeKey(c, armored(c, r.Stdout, what), f, nil, what)
	} else {
		c.Check(eqWords(got, words), "%s: shows %v, want %v", what, got, words)
	}
	// the advice after the phrase is complete, too
	text := strings.Join(strings.Fields(cli.Strip(r.Stderr)), " ")
	ref := cli.Run(cli.Opt{Args: []string{"convert", "-in-word-file", in}})
	rt := strings.Join(strings.Fields(cli.Strip(ref.Stderr)), " ")
	last := "14: " + words[13]
	if i := strings.Index(rt, last); i >= 0 {
		c.Check(strings.HasSuffix(text, rt[i+len(last):]), "%s: the text after the phrase is %q, without a terminal %q", what, tail(text, 400), rt[i+len(last):])
	}
	c.Event("phrases displayed")
	c.State("sizes", fmt.Sprint(cols, "x", rows))
	c.Distinct(args[0], cols, rows, seed)
}

// sizeAt enumerates widths 0..400 first, then special ones, then random ones.
func sizeAt(c *rt.Case, i int) (uint16, uint16) {
	special := []uint16{511, 512, 1000, 1023, 1024, 4095, 4096, 8191, 16384, 32767, 32768, 40000, 52428, 52429, 65534, 65535}
	rows := pick(c.R, []uint16{0, 1, 2, 24, 40, 65535})
	switch {
	case i <= 300:
		return uint16(i), rows
	case i-301 < len(special):
		return special[i-301], rows
	}
	return uint16(c.R.Intn(65536)), rows
}

const sizeCount = 301 + 16 + 13

func init() {
	rt.Register(&rt.Property{ID: "C22", Variant: "fast",
		Rule:   "case = one help screen, usage error or phrase display on a pseudo-terminal of one size (every width from 0 to 300, extremes and random ones), under a memory limit and a deadline; the displayed words are compared in order with those shown without a terminal, and with the phrase; distinct by command and size.",
		Assume: []string{"the text shown without a terminal (default width) is the reference for the others"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "help", Quick: sizeCount * len(screens), Thorough: 4 * sizeCount * len(screens), Limit: 80 * time.Second, Hang: 120 * time.Second, Fn: func(c *rt.Case) {
					cols, rows := sizeAt(c, c.Index/len(screens)%sizeCount)
					helpAt(c, c.Index%len(screens), cols, rows)
				}},
				{Name: "phrase", Quick: 2 * sizeCount, Thorough: 20 * sizeCount, Limit: 40 * time.Second, Hang: 120 * time.Second, Fn: func(c *rt.Case) {
					cols, rows := sizeAt(c, c.Index%sizeCount)
					phraseAt(c, cols, rows)
				}},
			}
		}})
}
