package props

import (
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/sys/unix"

	"verifharness/cli"
	"verifharness/rt"
	"verifharness/spec"
)

// C28 looks at the screen a terminal would show: an emulator fed with
// everything the program and the terminal's own echo display.

// watched is a session with its screen.
type watched struct {
	c    *rt.Case
	s    *cli.Session
	v    *cli.Screen
	seen int
}

// startWatched starts a session on a terminal on which something was shown
// before: the cursor may stand anywhere, as a rule at the bottom.
func startWatched(c *rt.Case, r *rand.Rand, args []string) (*watched, error) {
	cols, rows := 80+r.Intn(80), 24+r.Intn(40)
	s, err := cli.Start(cli.SessOpt{Opt: cli.Opt{Args: args}, Cols: uint16(cols), Rows: uint16(rows)})
	if err != nil {
		return nil, err
	}
	w := &watched{c: c, s: s, v: cli.NewScreen(cols, rows)}
	if r.Intn(3) > 0 {
		w.v.Y = pick(r, []int{rows - 1, rows - 1, rows - 2, r.Intn(rows)})
	}
	return w, nil
}

func (w *watched) update() {
	b := w.s.TTYFrom(w.seen)
	w.seen += len(b)
	w.v.Write(b)
}

// await waits until the screen is as it has to become.
func (w *watched) await(ok func() bool) bool {
	for end := time.Now().Add(15 * time.Second); ; {
		w.update()
		if ok() {
			return true
		}
		if w.s.Exited() || time.Now().After(end) {
			time.Sleep(20 * time.Millisecond)
			w.update()
			return ok()
		}
		time.Sleep(200 * time.Microsecond)
	}
}

var digits = regexp.MustCompile(`[0-9]+`)

func letter(b byte) bool { return b|32 >= 'a' && b|32 <= 'z' }

// shows says whether the cursor's line asks for that word and shows what was
// entered of it so far, with nothing but a right suggestion behind it.
func (w *watched) shows(pos int, cur string) bool {
	before := w.v.Before()
	if !strings.HasSuffix(before, cur) {
		return false
	}
	before = strings.TrimSuffix(before, cur)
	if n := len(before); n == 0 || letter(before[n-1]) {
		return false
	}
	found := false
	for _, d := range digits.FindAllString(before, -1) {
		found = found || d == strconv.Itoa(pos)
	}
	if !found {
		return false
	}
	after := w.v.After()
	if after == "" {
		return true
	}
	full, ok := spec.Complete(cur)
	return ok && after == full[len(cur):]
}

var alpha = regexp.MustCompile(`[A-Za-z]+`)

// tokens are the words on the screen, except the one the cursor is at unless
// all is asked for.
func (w *watched) tokens(all bool) map[string]bool {
	t := map[string]bool{}
	for y := range w.v.Grid {
		line := w.v.Line(y)
		if y == w.v.Y && !all {
			// without what is being entered there
			line = w.v.Before()
			for len(line) > 0 && letter(line[len(line)-1]) {
				line = line[:len(line)-1]
			}
		}
		for _, x := range alpha.FindAllString(line, -1) {
			t[strings.ToLower(x)] = true
		}
	}
	return t
}

// The words of the program's own texts, from sessions with other phrases.
var (
	ownOnce   sync.Once
	ownTokens map[string]bool
)

func programTokens() map[string]bool {
	ownOnce.Do(func() {
		own := map[string]bool{}
		r := rand.New(rand.NewSource(99))
		for k := 0; k < 8; k++ {
			w, err := startWatched(nil, r, append([]string{"convert"}, [][]string{{}, {"-simple"}}[k%2]...))
			if err != nil {
				continue
			}
			note := func() {
				w.await(func() bool { return w.seen > 0 })
				time.Sleep(30 * time.Millisecond)
				w.update()
				for t := range w.tokens(true) {
					own[t] = true
				}
			}
			if k%2 == 0 {
				w.s.WaitTermios(wait, cli.Raw)
			} else {
				w.s.Expect("1", wait)
			}
			note()
			for _, in := range []string{"zzzz", spec.Words[4095], "1"} {
				w.s.Send(in + map[int]string{0: "\r", 1: "\n"}[k%2])
				note()
				if k%2 == 0 {
					w.s.Send(strings.Repeat("\x7f", 12))
					note()
				}
			}
			delete(own, spec.Words[4095])
			w.s.Send("\x03")
			w.s.Finish(wait)
			note()
			w.s.P.Close()
		}
		ownTokens = own
	})
	return ownTokens
}

// leftover gives a word of the user's input that is still on the screen.
func (w *watched) leftover(words []string, all bool) string {
	t := w.tokens(all)
	for _, x := range words {
		if len(x) >= 3 && t[x] && !programTokens()[x] {
			return x
		}
	}
	return ""
}

// without drops from the list what is being entered now.
func without(words []string, cur string) []string {
	var out []string
	full, _ := spec.Complete(cur)
	for _, x := range words {
		if x != cur && x != full {
			out = append(out, x)
		}
	}
	return out
}

func (w *watched) picture() string {
	l := w.v.Lines()
	if len(l) > 14 {
		l = l[len(l)-14:]
	}
	return fmt.Sprintf("%q, cursor behind %q", l, w.v.Before())
}

func c28target(c *rt.Case) (target []string, pw string) {
	seed, off := genSeed(c.R), genOffset(c.R)
	if c.R.Intn(3) == 0 {
		pw = "pw"
		return spec.EncodeEncrypted(seed, off, []byte(pw), genSalt(c.R)), pw
	}
	return spec.EncodePlain(seed, off), ""
}

func c28args(c *rt.Case, dir string) []string {
	args := []string{"convert", "-out-word-file", cli.Path(dir, "out")}
	if c.R.Intn(3) == 0 {
		args = []string{"recover", "-name", "x"}
	}
	return args
}

// end answers the password prompt of an encrypted phrase, waits for the end
// and looks at what is left on the screen.
func (w *watched) end(c *rt.Case, pw string, words []string, what string) {
	if pw != "" {
		if !(w.s.Expect(promptDec, wait) && w.s.WaitTermios(wait, cli.EchoOff)) {
			w.s.Kill(unix.SIGKILL)
		}
		w.s.Send(pw + "\n")
	}
	r := w.s.Finish(wait)
	b := r.Stderr
	if w.seen <= len(b) {
		w.v.Write(b[w.seen:])
	}
	left := w.leftover(words, true)
	c.Check(left == "", "%s: the word %q is still on the screen after the end: %s", what, left, w.picture())
	c.Event("final screens searched for words")
}

func c28raw(c *rt.Case, abort bool) {
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	target, pw := c28target(c)
	t := &typist{r: c.R}
	t.run(target)
	keys := t.keys
	if abort {
		keys = keys[:c.R.Intn(len(keys))]
		pw = ""
	}
	args := c28args(c, dir)
	c.Input(map[string]any{"keys": fmt.Sprintf("%q", strings.Join(keys, "")), "target": target, "args": args, "abort": abort})
	w, err := startWatched(c, c.R, args)
	if err != nil {
		c.Inconclusive("%v", err)
	}
	defer w.s.P.Close()
	c.Check(w.s.WaitTermios(wait, cli.Raw), "%v: the terminal did not enter raw mode", args)
	m := &typist{r: c.R}
	typed := map[string]bool{}
	for i := 0; i < len(keys); {
		n := 1
		if c.R.Intn(3) == 0 {
			n += c.R.Intn(6)
		}
		portion := ""
		for ; n > 0 && i < len(keys); n-- {
			portion += keys[i]
			m.e.press(keys[i])
			for _, x := range m.e.words {
				typed[x] = true
			}
			i++
		}
		w.s.Send(portion)
		if m.e.done() {
			break
		}
		pos, cur := len(m.e.words)+1, m.e.cur
		ok := w.await(func() bool { return w.shows(pos, cur) && w.leftover(without(m.e.words, cur), false) == "" })
		if !ok {
			w.s.Kill(unix.SIGKILL)
		}
		c.Check(ok, "after typing %q the terminal does not show word %d with %q (or still shows an earlier one of %v): %s", strings.Join(keys[:i], ""), pos, cur, m.e.words, w.picture())
		c.Event("screens compared with the model")
		c.State("screens (position, letters, below)", fmt.Sprint(pos, len(cur), w.v.Y+1 < w.v.Rows && w.v.Line(w.v.Y+1) != ""))
	}
	words := []string{}
	for x := range typed {
		words = append(words, x)
	}
	if abort {
		w.s.Send(pick(c.R, []string{"\x03", "\x04"}))
		if full, ok := spec.Complete(m.e.cur); ok && m.e.cur != "" {
			words = append(words, full)
		}
		words = append(words, m.e.cur)
	}
	w.end(c, pw, words, fmt.Sprintf("%v", args))
	c.Distinct(keys)
}

func c28simple(c *rt.Case) {
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	target, pw := c28target(c)
	args := append(c28args(c, dir), "-simple")
	c.Input(map[string]any{"target": target, "args": args})
	w, err := startWatched(c, c.R, args)
	if err != nil {
		c.Inconclusive("%v", err)
	}
	defer w.s.P.Close()
	var words []string
	log := []string{}
	for i := 0; i < len(target); {
		ok := w.await(func() bool { return w.shows(i+1, "") && w.v.After() == "" && w.leftover(words, false) == "" })
		if !ok {
			w.s.Kill(unix.SIGKILL)
		}
		c.Check(ok, "after the lines %q the terminal does not ask for word %d on an empty line (or still shows one of %v): %s", log, i+1, words, w.picture())
		c.Event("screens compared with the model")
		line := pick(c.R, []string{target[i], strings.ToUpper(target[i])})
		accepted := true
		if c.R.Intn(4) == 0 {
			line, accepted = nonWord(c.R)+"zq", false
			if i == 0 && c.R.Intn(2) == 0 {
				line = spec.Words[512+c.R.Intn(4096-512)]
			}
		}
		for _, ch := range line { // as it is typed
			w.s.Send(string(ch))
		}
		ok = w.await(func() bool { return w.shows(i+1, line) })
		if !ok {
			w.s.Kill(unix.SIGKILL)
		}
		c.Check(ok, "while %q is typed the terminal does not show it as word %d: %s", line, i+1, w.picture())
		w.s.Send("\n")
		log = append(log, line)
		words = append(words, strings.ToLower(line))
		if accepted {
			i++
		}
	}
	w.end(c, pw, words, fmt.Sprintf("%v", args))
	c.Distinct(log)
}

func init() {
	rt.Register(&rt.Property{ID: "C28", Variant: "fast",
		Rule:   "case = one session of the real binary on a pseudo-terminal whose screen is emulated; after every (portion of) key strokes the screen is compared with a model of the entry; distinct by key strokes.",
		Assume: []string{"terminals of at least 80 x 24 characters that follow the ANSI sequences", "the byte 'D' is only sent as part of the left-arrow sequence", "Ctrl-C in simple mode ends the process by signal; its screen is not judged"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "raw", Quick: 400, Thorough: 20000, Fn: func(c *rt.Case) { c28raw(c, false) }},
				{Name: "raw-abort", Quick: 200, Thorough: 8000, Fn: func(c *rt.Case) { c28raw(c, true) }},
				{Name: "simple", Quick: 200, Thorough: 8000, Fn: c28simple},
			}
		}})
}
