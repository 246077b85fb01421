package props

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/cli"
	"verifharness/rt"
	"verifharness/spec"
)

// snapshot records everything observable under a directory.
func snapshot(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil || fi == nil {
			out[rel] = fmt.Sprint("error ", err)
			return nil
		}
		st := fi.Sys().(*syscall.Stat_t)
		s := fmt.Sprintf("%v ino=%d nlink=%d", fi.Mode(), st.Ino, st.Nlink)
		switch {
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" mtime=%d content=%q", fi.ModTime().UnixNano(), b)
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			s += " -> " + t
		}
		out[rel] = s
		return nil
	})
	return out
}

func diff(a, b map[string]string) string {
	var d []string
	for k, v := range a {
		if b[k] != v {
			d = append(d, fmt.Sprintf("%s: %.200s became %.200s", k, v, b[k]))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			d = append(d, fmt.Sprintf("%s appeared: %.200s", k, v))
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

// writerCmd draws a command that writes a word file.
func writerCmd(c *rt.Case, dir, out string) (args []string, want string) {
	if c.R.Intn(2) == 0 {
		args = []string{"generate"}
		if c.R.Intn(3) == 0 {
			args = append(args, "-verbose")
		}
	} else {
		seed, off := genSeed(c.R), genOffset(c.R)
		w := spec.EncodePlain(seed, off)
		in := filepath.Join(dir, fmt.Sprintf("in-%d", c.R.Int63()))
		os.WriteFile(in, []byte(strings.Join(w, "\n")), 0o600)
		args = []string{"convert", "-in-word-file", in}
		want = strings.Join(w, " ") + "\n"
	}
	return append(args, "-out-word-file", out), want
}

// wroteOK judges a successful writer.
func wroteOK(c *rt.Case, r cli.Result, path, want, what string) {
	fi, err := os.Lstat(path)
	c.Check(err == nil && fi.Mode().IsRegular(), "%s: no regular file at the requested path (%v)", what, err)
	c.Check(fi.Mode().Perm()&^0o600 == 0, "%s: the word file has mode %v", what, fi.Mode())
	b, err := os.ReadFile(path)
	if err != nil { // the umask took the owner's right away
		os.Chmod(path, 0o600)
		b, _ = os.ReadFile(path)
	}
	words := strings.Fields(string(b))
	dec, def := spec.Decode(words)
	c.Check(!def.Any(), "%s: the word file holds %q: %+v", what, b, def)
	c.Check(string(b) == strings.Join(words, " ")+"\n", "%s: the word file is not single spaces and a newline: %q", what, b)
	if want != "" {
		c.Check(string(b) == want, "%s: the word file holds %q, want %q", what, b, want)
		c.Check(len(r.Stdout) == 0, "%s printed on standard output", what)
	} else {
		f := cliFlags{SelfCert: true}
		f.Seed, f.Offset, f.Name = dec.Entropy, dec.Offset, "anonymous"
		judgeKey(c, armored(c, r.Stdout, what), f, nil, what)
	}
	noPhrase(c, r.Stderr, words, what+": standard error")
	c.Event("word files judged")
}

// refused judges a writer that must not have written.
func refused(c *rt.Case, r cli.Result, what string) {
	c.Check(!r.Timeout, "%s: did not finish", what)
	c.Check(r.Exit > 0, "%s: %v", what, r)
	c.Check(len(r.Stdout) == 0 && !bytes.Contains(r.Stderr, []byte("BEGIN PGP")), "%s: printed a key: %v", what, r)
	c.Check(len(cli.Phrase(r.Stderr)) == 0, "%s: showed a phrase", what)
	c.Event("refused writes")
}

var targets = []string{"regular", "empty", "read-only", "directory", "symlink to file", "symlink to empty file", "symlink to directory", "dangling symlink", "dangling symlink elsewhere", "symlink loop", "fifo", "socket", "hard link", "no parent", "parent is a file", "long name", "unreadable", "phrase file", "trailing slash", "same phrase", "directory with slash", "directory with dot", "symlink to directory with slash", "the directory itself", "the parent directory"}

// makeTarget puts something at the output path.
func makeTarget(r *rand.Rand, kind, dir string) string {
	p := filepath.Join(dir, "target")
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	switch kind {
	case "regular":
		must(os.WriteFile(p, []byte("precious data\n"), 0o644))
	case "phrase file":
		must(os.WriteFile(p, []byte(strings.Join(spec.EncodePlain(genSeed(r), genOffset(r)), " ")+"\n"), 0o600))
	case "same phrase":
		must(os.WriteFile(p, bytes.Repeat([]byte("x"), r.Intn(200)), 0o600))
	case "empty":
		must(os.WriteFile(p, nil, 0o600))
	case "read-only":
		must(os.WriteFile(p, []byte("ro"), 0o400))
	case "unreadable":
		must(os.WriteFile(p, []byte("none"), 0))
	case "directory with slash":
		must(os.Mkdir(p, 0o755))
		return p + pick(r, []string{"/", "//"})
	case "directory with dot":
		must(os.Mkdir(p, 0o755))
		return p + pick(r, []string{"/.", "/./"})
	case "the directory itself":
		return dir + pick(r, []string{"", "/", "/."})
	case "the parent directory":
		must(os.Mkdir(p, 0o755))
		return p + pick(r, []string{"/..", "/../"})
	case "symlink to directory with slash":
		must(os.Mkdir(filepath.Join(dir, "d"), 0o755))
		must(os.Symlink("d", p))
		return p + "/"
	case "directory":
		must(os.Mkdir(p, 0o755))
	case "symlink to file", "symlink to empty file":
		body := "linked"
		if strings.Contains(kind, "empty") {
			body = ""
		}
		must(os.WriteFile(filepath.Join(dir, "real"), []byte(body), 0o600))
		must(os.Symlink(pick(r, []string{"real", filepath.Join(dir, "real")}), p))
	case "symlink to directory":
		must(os.Mkdir(filepath.Join(dir, "d"), 0o755))
		must(os.Symlink("d", p))
	case "dangling symlink":
		must(os.Symlink("nowhere", p))
	case "dangling symlink elsewhere":
		must(os.Mkdir(filepath.Join(dir, "other"), 0o755))
		must(os.Symlink(filepath.Join(dir, "other", "planted"), p))
	case "symlink loop":
		must(os.Symlink("target", p))
	case "fifo":
		must(syscall.Mkfifo(p, 0o600))
	case "socket":
		l, err := net.Listen("unix", p)
		must(err)
		l.(*net.UnixListener).SetUnlinkOnClose(false)
		l.Close()
	case "hard link":
		must(os.WriteFile(filepath.Join(dir, "a"), []byte("shared"), 0o600))
		must(os.Link(filepath.Join(dir, "a"), p))
	case "no parent":
		return filepath.Join(dir, "missing", "target")
	case "parent is a file":
		must(os.WriteFile(p, []byte("file"), 0o600))
		return filepath.Join(p, "below")
	case "long name":
		return filepath.Join(dir, strings.Repeat("n", 300))
	case "trailing slash":
		return p + "/"
	}
	return p
}

// raceDir runs a contest for one path.
func contest(c *rt.Case, n int, wrap []string, rival bool) {
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	work := filepath.Join(dir, "w")
	os.Mkdir(work, 0o755)
	ins := filepath.Join(dir, "i")
	os.Mkdir(ins, 0o755)
	path := filepath.Join(work, "contested")
	type player struct {
		args []string
		want string
		r    cli.Result
	}
	ps := make([]player, n)
	for i := range ps {
		ps[i].args, ps[i].want = writerCmd(c, ins, path)
	}
	c.Input(map[string]any{"processes": n, "strace": wrap, "rival creates the file": rival})
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range ps {
		wg.Add(1)
		d := time.Duration(c.R.Intn(2000)) * time.Microsecond
		go func(i int) {
			defer wg.Done()
			<-start
			time.Sleep(d)
			ps[i].r = cli.Run(cli.Opt{Args: ps[i].args, Wrap: wrap})
		}(i)
	}
	rivalWon := false
	const precious = "created by somebody else meanwhile\n"
	if rival {
		wg.Add(1)
		d := time.Duration(c.R.Intn(8000)) * time.Microsecond
		if len(wrap) > 0 {
			d = time.Duration(c.R.Intn(120000)) * time.Microsecond
		}
		go func() {
			defer wg.Done()
			<-start
			time.Sleep(d)
			if f, err := os.OpenFile(path, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o600); err == nil {
				f.WriteString(precious)
				f.Close()
				rivalWon = true
			}
		}()
	}
	close(start)
	wg.Wait()
	wins := 0
	for _, p := range ps {
		if p.r.Exit == 0 {
			wins++
		}
	}
	names, _ := filepath.Glob(filepath.Join(work, "*"))
	b, _ := os.ReadFile(path)
	if rivalWon {
		c.Check(string(b) == precious, "a file created meanwhile was overwritten: it now holds %q", b)
		c.Check(wins == 0, "%d processes claim to have written a file that somebody else created", wins)
		c.Event("contests won by another program")
	} else {
		c.Check(wins <= 1, "%d of %d processes report success for one word file", wins, n)
		c.Event("contests won by a process")
	}
	c.Check(len(names) <= 1, "leftovers beside the word file: %v", names)
	c.State("contest outcomes", fmt.Sprint(n, wins, rivalWon))
	for i, p := range ps {
		what := fmt.Sprintf("process %d of %d racing for a word file", i, n)
		if p.r.Exit == 0 {
			wroteOK(c, p.r, path, p.want, what)
		} else {
			refused(c, p.r, what)
		}
	}
	c.EventN("racing processes", n)
	c.Distinct(ps[0].args, n, c.Index)
}

var fileNames = []string{"words", "with space", "ünï", "-dash", "a.txt", ".hidden", "~", "$HOME", "new\nline", "*", strings.Repeat("n", 255), "words.tmp", "%s", "-", "--", "stdout", "words.gz", "a=b", "\\", "words ", " words", "words.", "CON", "a,b", "x:y", "file:words", "words~"}

// fileName gives names which mean nothing special to a program that just
// creates the file.
func fileName(r *rand.Rand) string {
	if s, ok := dictStr(r); ok && r.Intn(4) == 0 && len(s) < 200 && !strings.ContainsAny(s, "/\x00") && strings.Trim(s, ".") != "" {
		return s
	}
	return pick(r, fileNames)
}

// place gives a path in a directory of its own and how to name it on the
// command line, which may be relative to the working directory.
func place(r *rand.Rand, dir string, o *cli.Opt) (path, arg string) {
	d := filepath.Join(dir, fmt.Sprintf("d%d", r.Int63()))
	if err := os.Mkdir(d, 0o700); err != nil {
		panic(err)
	}
	name := fileName(r)
	path = filepath.Join(d, name)
	if r.Intn(3) > 0 || o.Dir != "" {
		return path, path
	}
	o.Dir = d
	return path, pick(r, []string{name, name, "./" + name})
}

var spaces = []string{" ", "  ", "\t", "\n", "\r\n", "\n\n", "\v", "\f", " \t ", "\r"}

func init() {
	rt.Register(&rt.Property{ID: "C19", Variant: "fast",
		Rule:   "case = one writing command against a path state (fresh, every kind of existing thing, size-limited), one contest of several processes and another program for a path, or one reading command on a file's content; the directory is snapshotted before and after (type, mode, inode, link count, content, modification time); distinct by content and path state.",
		Assume: []string{"strace widens the windows between system calls when it is available (noted otherwise)"},
		Streams: func() []rt.Stream {
			ss := []rt.Stream{
				{Name: "create", Quick: 1500, Thorough: 20000, Fn: func(c *rt.Case) {
					dir := cli.Scratch()
					defer os.RemoveAll(dir)
					work, ins := filepath.Join(dir, "w"), filepath.Join(dir, "i")
					os.Mkdir(work, 0o777)
					os.Mkdir(ins, 0o755)
					name := fileName(c.R)
					path := filepath.Join(work, name)
					o := cli.Opt{Umask: pick(c.R, []string{"000", "022", "027", "077", "002", "007", "177", "277", "377", "477", "577", "677", "777", "400", "200", "600", "111"})}
					arg := path
					if c.R.Intn(3) == 0 {
						o.Dir = work
						arg = pick(c.R, []string{name, "./" + name, "../w/" + name})
					}
					args, want := writerCmd(c, ins, arg)
					o.Args = args
					c.Input(map[string]any{"args": args, "umask": o.Umask})
					r := cli.Run(o)
					c.Check(r.Exit == 0, "%q with umask %s: %v", args, o.Umask, r)
					wroteOK(c, r, path, want, fmt.Sprintf("%q with umask %s", args, o.Umask))
					names, _ := os.ReadDir(work)
					c.Check(len(names) == 1, "%q left %d files", args, len(names))
					// what was written is what is read
					rr := cli.Run(cli.Opt{Args: []string{"recover", "-in-word-file", path}})
					c.Check(rr.Exit == 0, "recover from the written file: %v", rr)
					if want == "" {
						c.Check(bytes.Equal(rr.Stdout, r.Stdout), "the written file recovers another key")
					}
					// and never written again
					before := snapshot(work)
					args2, _ := writerCmd(c, ins, path)
					r2 := cli.Run(cli.Opt{Args: args2})
					refused(c, r2, fmt.Sprintf("%q onto the file just written", args2))
					d := diff(before, snapshot(work))
					c.Check(d == "", "writing again changed something: %s", d)
					c.State("umask x name x command", fmt.Sprint(o.Umask, name, args[0]))
					c.Distinct(args, o.Umask)
				}},
				{Name: "existing", Quick: 1200, Thorough: 8000, Fn: func(c *rt.Case) {
					dir := cli.Scratch()
					defer os.RemoveAll(dir)
					work, ins := filepath.Join(dir, "w"), filepath.Join(dir, "i")
					os.Mkdir(work, 0o755)
					os.Mkdir(ins, 0o755)
					kind := targets[c.Index%len(targets)]
					path := makeTarget(c.R, kind, work)
					args, want := writerCmd(c, ins, path)
					if kind == "same phrase" && want != "" {
						os.WriteFile(path, []byte(want), 0o600)
					}
					c.Input(map[string]any{"target": kind, "command": args[0]})
					before := snapshot(work)
					r := cli.Run(cli.Opt{Args: args, Timeout: 20 * time.Second})
					d := diff(before, snapshot(work))
					what := fmt.Sprintf("%s -out-word-file onto: %s", args[0], kind)
					c.Check(d == "", "%s: changed %s", what, d)
					refused(c, r, what)
					c.State("target x command", fmt.Sprint(kind, args[0]))
					c.Distinct(kind, args)
				}},
				{Name: "contest", Quick: 800, Thorough: 4000, Workers: 2, Limit: 40 * time.Second, Fn: func(c *rt.Case) {
					contest(c, 2+c.R.Intn(7), nil, c.R.Intn(3) == 0)
				}},
			}
			if cli.Strace() {
				ss = append(ss, rt.Stream{Name: "contest-delayed", Quick: 400, Thorough: 1500, Workers: 3, Limit: 50 * time.Second, Fn: func(c *rt.Case) {
					us := pick(c.R, []int{5000, 15000, 30000})
					calls := pick(c.R, []string{"newfstatat,faccessat,faccessat2,statx,access", "newfstatat,faccessat,faccessat2,statx,access,unlinkat,renameat,renameat2", "openat", "write"})
					contest(c, 2+c.R.Intn(3), []string{"/usr/bin/strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + calls, "-e", fmt.Sprintf("inject=%s:delay_exit=%d", calls, us)}, c.R.Intn(2) == 0)
				}}, rt.Stream{Name: "creation-mode", Quick: 200, Thorough: 1000, Limit: 30 * time.Second, Fn: func(c *rt.Case) {
					// nobody can read the file at any moment of its creation:
					// its mode is sampled while every call is slowed down
					dir := cli.Scratch()
					defer os.RemoveAll(dir)
					work, ins := filepath.Join(dir, "w"), filepath.Join(dir, "i")
					os.Mkdir(work, 0o755)
					os.Mkdir(ins, 0o755)
					path := filepath.Join(work, "words")
					args, want := writerCmd(c, ins, path)
					c.Input(map[string]any{"args": args})
					stop := make(chan struct{})
					bad := make(chan string, 1)
					n := 0
					go func() {
						defer close(bad)
						for {
							es, _ := os.ReadDir(work)
							for _, e := range es {
								fi, err := os.Lstat(filepath.Join(work, e.Name()))
								if err == nil {
									n++
									if fi.Mode().Perm()&0o077 != 0 {
										bad <- fmt.Sprintf("%s had mode %v", e.Name(), fi.Mode())
										return
									}
								}
							}
							select {
							case <-stop:
								return
							case <-time.After(200 * time.Microsecond):
							}
						}
					}()
					r := cli.Run(cli.Opt{Args: args, Umask: pick(c.R, []string{"000", "000", "022", "277", "777", "200"}), Wrap: []string{"/usr/bin/strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=write,openat,fchmod,fchmodat,chmod,renameat,close", "-e", "inject=write,fchmod,fchmodat,chmod,renameat,close:delay_enter=3000"}})
					close(stop)
					msg := <-bad
					c.Check(msg == "", "%v: while being created, %s", args, msg)
					c.Check(r.Exit == 0, "%v: %v", args, r)
					wroteOK(c, r, path, want, fmt.Sprint(args))
					c.EventN("modes sampled during creation", n)
					c.Distinct(args)
				}})
			}
			ss = append(ss,
				rt.Stream{Name: "size-limit", Quick: 250, Thorough: 4000, Fn: func(c *rt.Case) {
					// the word file cannot grow beyond a limit
					dir := cli.Scratch()
					defer os.RemoveAll(dir)
					work, ins := filepath.Join(dir, "w"), filepath.Join(dir, "i")
					os.Mkdir(work, 0o755)
					os.Mkdir(ins, 0o755)
					path := filepath.Join(work, "words")
					args, want := writerCmd(c, ins, path)
					lim := c.Index % 125
					c.Input(map[string]any{"args": args, "limit": lim})
					r := cli.Run(cli.Opt{Args: args, Wrap: []string{"/usr/bin/prlimit", fmt.Sprintf("--fsize=%d", lim), "--core=0"}})
					what := fmt.Sprintf("%s with a file size limit of %d", args[0], lim)
					if r.Exit == 0 {
						wroteOK(c, r, path, want, what)
						c.Event("writes that fit the limit")
					} else {
						c.Check(len(r.Stdout) == 0, "%s: failed but printed a key", what)
						c.Check(want == "" || len(want) > lim, "%s: failed although the phrase has %d bytes: %v", what, len(want), r)
						c.Event("writes beyond the limit")
					}
					c.State("limits", lim)
					c.Distinct(args, lim)
				}},
				rt.Stream{Name: "read-valid", Quick: 2000, Thorough: 30000, Fn: func(c *rt.Case) {
					dir := cli.Scratch()
					defer os.RemoveAll(dir)
					f := cliFlags{SelfCert: true}
					f.Seed, f.Offset, f.Name = genSeed(c.R), genOffset(c.R), "anonymous"
					words := mixCase(c.R, spec.EncodePlain(f.Seed, f.Offset))
					encrypted := c.R.Intn(16) == 0
					if encrypted {
						words = mixCase(c.R, spec.EncodeEncrypted(f.Seed, f.Offset, []byte("pw"), uint32(c.R.Intn(1<<19))))
					}
					text := ""
					if c.R.Intn(2) == 0 {
						text = pick(c.R, spaces)
					}
					big := c.R.Intn(12) == 0
					for i, w := range words {
						sep := ""
						for n := 1 + c.R.Intn(2); n > 0; n-- {
							sep += pick(c.R, spaces)
						}
						if big && c.R.Intn(4) == 0 {
							sep += strings.Repeat(pick(c.R, []string{" ", "\n"}), 1000+c.R.Intn(90000))
						}
						if i == len(words)-1 && c.R.Intn(3) == 0 {
							sep = ""
						}
						text += w + sep
					}
					p := filepath.Join(dir, "w")
					c.Input(map[string]any{"file": fmt.Sprintf("%.600q", text)})
					fifo := c.R.Intn(5) == 0
					if fifo {
						syscall.Mkfifo(p, 0o600)
						go func() {
							fd, err := os.OpenFile(p, os.O_WRONLY, 0)
							if err != nil {
								return
							}
							for len(text) > 0 {
								n := 1 + rand.Intn(len(text))
								if _, err := fd.WriteString(text[:n]); err != nil {
									break
								}
								text = text[n:]
								time.Sleep(300 * time.Microsecond)
							}
							fd.Close()
						}()
					} else {
						os.WriteFile(p, []byte(text), pick(c.R, []os.FileMode{0o600, 0o400, 0o644}))
					}
					before := ""
					if !fifo {
						before = fmt.Sprint(snapshot(dir))
					}
					var r cli.Result
					if encrypted {
						r, _, _ = drive(cli.SessOpt{Opt: cli.Opt{Args: []string{"recover", "-in-word-file", p}}, Cols: 80, Rows: 24}, pwSteps(promptDec, "pw", false)...)
						c.Event("files with encrypted phrases read at a terminal")
					} else {
						r = cli.Run(cli.Opt{Args: []string{"recover", "-in-word-file", p}})
					}
					if fifo { // release a writer nobody listened to
						if fd, err := os.OpenFile(p, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
							fd.Close()
						}
					}
					c.Check(r.Exit == 0, "recover from a file with one valid phrase: %v", r)
					judgeKey(c, armored(c, r.Stdout, "recover"), f, nil, "recover from a word file")
					if !fifo {
						c.Check(fmt.Sprint(snapshot(dir)) == before, "reading changed the file")
					}
					c.Event("valid word files read")
					c.Distinct(f.Seed, f.Offset, c.Index)
				}},
				rt.Stream{Name: "read-invalid", Quick: 4000, Thorough: 40000, Fn: readInvalid})
			return ss
		},
		Finish: func(r *rt.Run) {
			if !cli.Strace() {
				r.Note("strace cannot tamper with system calls here: delayed contests and creation modes were not observed")
			}
		}})
}

func readInvalid(c *rt.Case) {
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	seed, off := genSeed(c.R), genOffset(c.R)
	words := spec.EncodePlain(seed, off)
	// Encrypted phrases are judged at a terminal, where the password is typed
	// if somebody asks for it.
	encrypted := c.R.Intn(6) == 0
	if encrypted {
		words = spec.EncodeEncrypted(seed, off, []byte("pw"), uint32(c.R.Intn(1<<19)))
	}
	n := len(words)
	good := strings.Join(words, " ")
	p := filepath.Join(dir, "w")
	text, kind := "", ""
	edit := func(f func(w []string) []string) string {
		return strings.Join(f(append([]string{}, words...)), " ") + "\n"
	}
	kinds := []string{"empty", "blank", "short", "long", "two phrases", "phrase twice", "replaced", "swapped", "checksum", "non-word", "prefix", "bom", "nul", "commas", "numbered", "version", "huge token", "huge token after", "binary", "many words", "directory", "missing", "quoted", "comment", "encrypted size", "plain size", "unicode digit", "trailing dot", "cut", "one word"}
	kind = kinds[c.Index%len(kinds)]
	switch kind {
	case "empty":
	case "blank":
		text = strings.Repeat(pick(c.R, spaces), 1+c.R.Intn(50))
	case "short":
		text = edit(func(w []string) []string { k := c.R.Intn(len(w)); return append(w[:k], w[k+1:]...) })
	case "long":
		text = edit(func(w []string) []string { return append(w, pick(c.R, spec.Words)) })
	case "two phrases":
		text = good + "\n" + strings.Join(spec.EncodePlain(genSeed(c.R), genOffset(c.R)), " ") + "\n"
	case "phrase twice":
		text = good + pick(c.R, spaces) + good
	case "replaced":
		text = edit(func(w []string) []string { w[c.R.Intn(len(w))] = pick(c.R, spec.Words); return w })
	case "swapped":
		text = edit(func(w []string) []string { a, b := c.R.Intn(n), c.R.Intn(n); w[a], w[b] = w[b], w[a]; return w })
	case "checksum":
		text = edit(func(w []string) []string { w[n-1] = spec.Words[spec.WordIndex[w[n-1]]^(1+c.R.Intn(31))]; return w })
	case "non-word":
		text = edit(func(w []string) []string {
			k := c.R.Intn(n)
			w[k] = pick(c.R, []string{"zzzz", "1", "x", w[k] + "s"})
			return w
		})
	case "prefix":
		text = edit(func(w []string) []string { k := c.R.Intn(n); w[k] = w[k][:len(w[k])-1]; return w })
	case "bom":
		text = "\ufeff" + good + "\n"
	case "nul":
		k := c.R.Intn(len(good) + 1)
		text = good[:k] + "\x00" + good[k:]
	case "commas":
		text = strings.Join(words, pick(c.R, []string{",", ", ", ";", "-", "_", "/"}))
	case "numbered":
		for i, w := range words {
			text += fmt.Sprintf("%d: %s\n", i+1, w)
		}
	case "version":
		text = edit(func(w []string) []string { w[0] = spec.Words[512+c.R.Intn(4096-512)]; return spec.FixTail(w) })
	case "huge token":
		text = strings.Repeat("a", 70000+c.R.Intn(100000)) + " " + good
	case "huge token after":
		text = good + pick(c.R, spaces) + strings.Repeat(pick(c.R, []string{"a", "\x00", "zoo"}), 70000)
	case "binary":
		b := make([]byte, c.R.Intn(5000))
		c.R.Read(b)
		text = string(b)
	case "many words":
		for i := 0; i < 15+c.R.Intn(400); i++ {
			text += pick(c.R, spec.Words) + " "
		}
	case "quoted":
		text = `"` + good + `"`
	case "comment":
		text = pick(c.R, []string{"# my phrase\n" + good, good + "\n# end", good + " ;"})
	case "encrypted size": // 16 words, version 0
		text = strings.Join(spec.FixTail(append(append([]string{}, words[:14]...), pick(c.R, spec.Words), pick(c.R, spec.Words))), " ")
	case "plain size": // 14 words of an encrypted phrase
		e := spec.EncodeEncrypted(seed, off, []byte("x"), 7)
		text = strings.Join(spec.FixTail(e[:14]), " ")
	case "unicode digit":
		text = strings.Replace(good, "a", pick(c.R, []string{"а", "á", "ａ"}), 1)
	case "trailing dot":
		text = good + "."
	case "cut":
		text = good[:c.R.Intn(len(good)-1)]
	case "one word":
		text = words[0]
	}
	if c.R.Intn(4) == 0 {
		text = strings.ToUpper(text)
	}
	c.Input(map[string]any{"kind": kind, "file": fmt.Sprintf("%.400q", text)})
	switch kind {
	case "directory":
		os.Mkdir(p, 0o755)
		decoys(c.R, p, good)
	case "missing":
		decoys(c.R, p, good)
	default:
		os.WriteFile(p, []byte(text), 0o600)
	}
	dec, def := spec.Decode(strings.Fields(strings.ToLower(text)))
	cmd := []string{"recover", "-in-word-file", p}
	out := filepath.Join(dir, "out")
	if c.R.Intn(2) == 0 {
		cmd = []string{"convert", "-in-word-file", p}
		if c.R.Intn(2) == 0 {
			cmd = append(cmd, "-out-word-file", out)
		}
	}
	var r cli.Result
	if encrypted && !def.Any() && strings.ToLower(strings.TrimSpace(text)) != good {
		return // a valid phrase, with another password
	}
	if encrypted {
		r, _, _ = drive(cli.SessOpt{Opt: cli.Opt{Args: cmd}, Cols: 80, Rows: 24}, pwSteps(promptDec, "pw", false)...)
		c.Event("files with encrypted phrases read at a terminal")
	} else {
		r = cli.Run(cli.Opt{Args: cmd, Timeout: 30 * time.Second})
	}
	c.State("kinds", kind)
	if !def.Any() && kind != "directory" && kind != "missing" {
		// the edit happened to give a valid phrase
		if dec.Version == 0 || encrypted && strings.ToLower(strings.TrimSpace(text)) == good {
			c.Check(r.Exit == 0, "%v on the valid file %.300q: %v", cmd, text, r)
			c.Event("accidentally valid files accepted")
		}
		return
	}
	refused(c, r, fmt.Sprintf("%s from a file (%s) holding %.300q", cmd[0], kind, text))
	_, err := os.Stat(out)
	c.Check(err != nil, "%v: wrote a phrase from an invalid file", cmd)
	c.Event("invalid word files refused")
	c.Distinct(kind, text, cmd[0])
}

// decoys puts a valid phrase into files whose names are similar to that of the
// file the command is told to read, and inside of it if it is a directory.
func decoys(r *rand.Rand, p, phrase string) {
	put := func(name string) {
		if _, err := os.Lstat(name); err != nil && !strings.ContainsRune(name, 0) {
			os.WriteFile(name, []byte(phrase+"\n"), 0o600)
		}
	}
	base := filepath.Base(p)
	tails := []string{".txt", ".words", ".phrase", ".mnemonic", ".asc", ".bak", "~", ".old", ".tmp", ".new", "1", ".1", " ", "s"}
	if s, ok := dictStr(r); ok && !strings.Contains(s, "/") {
		tails = append(tails, s)
	}
	for _, t := range tails {
		put(p + t)
	}
	put(filepath.Join(filepath.Dir(p), "."+base))
	if u := strings.ToUpper(base); u != base {
		put(filepath.Join(filepath.Dir(p), u))
	}
	if st, err := os.Stat(p); err == nil && st.IsDir() {
		for _, n := range append(tails, "words", "words.txt", "word-file", "phrase", "phrase.txt", "mnemonic", "mnemonic.txt", "mnemonikey", "in", base) {
			put(filepath.Join(p, n))
		}
	}
}
