package props

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"

	"verifharness/cli"
	"verifharness/rt"
	"verifharness/spec"
)

// traced is what a process wrote where, from a system call trace.
type traced struct {
	to    map[string]*bytes.Buffer // by path of the descriptor
	fd    map[string]string        // path of descriptors 1 and 2
	execs []string
}

var traceLine = regexp.MustCompile(`^(?:\d+ +)?(write|pwrite64|sendto)\((\d+)(?:<((?:[^>\\]|\\.)*)>)?, "((?:[^"\\]|\\.)*)"`)

// readTrace reads the output of strace -y -xx.
func readTrace(path string) (*traced, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	t := &traced{to: map[string]*bytes.Buffer{}, fd: map[string]string{}}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		l := sc.Text()
		m := traceLine.FindStringSubmatch(l)
		if m == nil {
			if strings.Contains(l, "execve(") {
				if s, err := strconv.Unquote(`"` + strings.ReplaceAll(l, `"`, " ") + `"`); err == nil {
					t.execs = append(t.execs, s)
				}
			}
			continue
		}
		data, err := strconv.Unquote(`"` + m[4] + `"`)
		if err != nil {
			return nil, err
		}
		to, err := strconv.Unquote(`"` + m[3] + `"`)
		if err != nil {
			return nil, err
		}
		if m[2] == "1" || m[2] == "2" {
			if t.fd[m[2]] == "" {
				t.fd[m[2]] = to
			}
		}
		if t.to[to] == nil {
			t.to[to] = new(bytes.Buffer)
		}
		t.to[to].WriteString(data)
	}
	return t, sc.Err()
}

// secretFlow runs commands under a system call trace and judges every
// destination they wrote to: phrases may go to standard error or the
// requested word file only, keys to standard output only.
func secretFlow(c *rt.Case) {
	if !cli.Strace() {
		c.Note("system calls cannot be traced here: secret-flow went without")
		return
	}
	f := genFlags(c.R, false)
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	tr := cli.Path(dir, "trace")
	run := func(args []string, steps []step) (cli.Result, *traced) {
		o := cli.Opt{Args: args, Wrap: []string{"/usr/bin/strace", "-f", "-qq", "-y", "-xx", "-s", "1000000", "-o", tr, "-e", "trace=write,pwrite64,sendto,execve"}}
		home(dir, &o)
		var r cli.Result
		if len(steps) > 0 {
			r = mustDrive(c, cli.SessOpt{Opt: o}, steps...)
		} else {
			r = cli.Run(o)
		}
		c.Check(r.Exit == 0, "%v: %v", args, r)
		t, err := readTrace(tr)
		if err != nil {
			c.Inconclusive("trace: %v", err)
		}
		return r, t
	}
	judge := func(t *traced, what string, words []string, shown bool, outFile string, stdout []byte) {
		for to, b := range t.to {
			w := fmt.Sprintf("what %s wrote to %q", what, to)
			if to != t.fd["1"] || len(stdout) == 0 {
				noKey(c, b.Bytes(), f, w)
				p := f.effective()
				leaks(c, b.Bytes(), nil, p.root(), p, true)
			}
			if !(to == t.fd["2"] && shown || outFile != "" && to == outFile) {
				noPhrase(c, b.Bytes(), words, w)
			}
			c.Event("destinations judged")
		}
		for _, e := range t.execs {
			noPhrase(c, []byte(e), words, "a program started by "+what)
			noKey(c, []byte(e), f, "a program started by "+what)
		}
		c.State("numbers of destinations", len(t.to))
	}
	args := append([]string{"generate"}, f.args(c.R, false)...)
	var steps []step
	phrasePw := ""
	if c.R.Intn(3) == 0 {
		phrasePw = typePassword(c.R)
		args = append(args, "-encrypt-phrase")
		steps = pwSteps(promptEnc, phrasePw, true)
	}
	outFile := ""
	if c.R.Intn(2) == 0 {
		outFile = cli.Path(dir, "phrase")
		args = append(args, "-out-word-file", outFile)
	}
	if c.R.Intn(2) == 0 {
		args = append(args, "-verbose")
	}
	d := f.desc()
	d["args"] = fmt.Sprintf("%.300q", args)
	c.Input(d)
	r, t := run(args, steps)
	armored(c, r.Stdout, "generate")
	words := cli.Phrase(r.Stderr)
	if outFile != "" {
		b, _ := os.ReadFile(outFile)
		words = strings.Fields(string(b))
	}
	dec, def := spec.Decode(words)
	c.Check(!def.Any(), "generate's phrase %v is invalid: %+v", words, def)
	f.Offset, f.Seed = dec.Offset, dec.Entropy
	if phrasePw != "" {
		s, ok := dec.Open([]byte(phrasePw))
		c.Check(ok, "the phrase does not open with its password")
		f.Seed = s
	}
	c.Check(t.fd["1"] != "", "the trace shows no write to standard output")
	judge(t, "generate", words, outFile == "", outFile, r.Stdout)

	// recover or convert
	in := writeWords(dir, "in", words)
	steps = nil
	if phrasePw != "" {
		steps = pwSteps(promptDec, phrasePw, false)
	}
	if c.R.Intn(2) == 0 {
		args = append([]string{"recover", "-in-word-file", in}, f.args(c.R, false)...)
		if c.R.Intn(2) == 0 {
			args = append(args, "-verbose")
		}
		r, t = run(args, steps)
		armored(c, r.Stdout, "recover")
		judge(t, "recover", words, false, "", r.Stdout)
	} else {
		out := cli.Path(dir, "out")
		args = []string{"convert", "-in-word-file", in}
		if c.R.Intn(2) == 0 {
			args = append(args, "-out-word-file", out)
		} else {
			out = ""
		}
		r, t = run(args, steps)
		judge(t, "convert", words, out == "", out, nil)
		nw := spec.EncodePlain(f.Seed, f.Offset)
		judge(t, "convert", nw, out == "", out, nil)
	}
	c.Event("commands traced")
	c.Distinct(f, args)
}
