package props

import (
	"bufio"
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/mnemonic"
	"github.com/kklash/mnemonikey/pgp"

	"verifharness/cli"
	"verifharness/rt"
	"verifharness/spec"
)

// C30 watches what is touched and what is left behind: system calls of the
// commands and of a process that uses the library, and goroutines, descriptors
// and live memory of a process that goes on using it.

// act is one system call which touches something outside of the process.
type act struct {
	call, path, line string
	writes           bool
}

var (
	actLine  = regexp.MustCompile(`^(?:\d+ +)?([a-z0-9_]+)\(`)
	actPaths = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)
)

// acts reads a trace of strace -xx -e trace=%file,%network,...
func acts(path string) (out []act, err error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		m := actLine.FindStringSubmatch(sc.Text())
		if m == nil {
			continue
		}
		a := act{call: m[1], line: sc.Text()}
		paths := actPaths.FindAllStringSubmatch(a.line, -1)
		if len(paths) > 0 {
			a.path, _ = strconv.Unquote(`"` + paths[0][1] + `"`)
		}
		switch a.call {
		case "open", "openat", "openat2":
			a.writes = strings.Contains(a.line, "O_WRONLY") || strings.Contains(a.line, "O_RDWR") || strings.Contains(a.line, "O_CREAT") || strings.Contains(a.line, "O_TRUNC")
		case "stat", "lstat", "newfstatat", "statx", "access", "faccessat", "faccessat2", "readlink", "readlinkat", "getcwd", "statfs", "fstatfs", "chdir", "execve", "execveat":
		default:
			a.writes = true
		}
		out = append(out, a)
	}
	return out, sc.Err()
}

// systemPath says whether reading there is the business of the runtime.
func systemPath(p string) bool {
	for _, d := range []string{"/proc", "/sys", "/etc", "/usr", "/lib", "/lib64", "/dev", "/run", "/var"} {
		if p == d || strings.HasPrefix(p, d+"/") {
			return true
		}
	}
	return strings.Contains(p, "zoneinfo") // wherever time zones are kept
}

var networkCalls = map[string]bool{"socket": true, "socketpair": true, "connect": true, "bind": true, "listen": true, "accept": true, "accept4": true,
	"sendto": true, "sendmsg": true, "sendmmsg": true, "recvfrom": true, "recvmsg": true, "recvmmsg": true, "getsockopt": true, "setsockopt": true,
	"getsockname": true, "getpeername": true, "shutdown": true}

// judgeActs compares a trace with what the process was told to touch.
func judgeActs(c *rt.Case, as []act, what, cwd string, reads, writes []string) {
	same := func(p string, l []string) bool {
		if !filepath.IsAbs(p) {
			p = filepath.Join(cwd, p)
		}
		p = filepath.Clean(p)
		for _, x := range l {
			if filepath.Clean(x) == p {
				return true
			}
		}
		return false
	}
	execs := 0
	for _, a := range as {
		if networkCalls[a.call] {
			c.Fail("%s uses the network: %.300s", what, a.line)
		}
		switch a.call {
		case "execve", "execveat":
			if execs++; execs > 1 {
				c.Fail("%s starts another program: %.300s", what, a.line)
			}
			continue
		case "getcwd":
			continue
		}
		if a.path == "" {
			continue
		}
		if a.writes {
			ok := same(a.path, writes) || a.path == "/dev/null" || a.path == "/dev/tty" || strings.HasPrefix(a.path, "/dev/pts/")
			c.Check(ok, "%s touches %q, which nobody named: %.300s", what, a.path, a.line)
			c.Event("writing file operations judged")
			continue
		}
		ok := systemPath(a.path) || same(a.path, reads) || same(a.path, writes)
		for _, l := range [][]string{reads, writes} { // directories on the way
			for _, x := range l {
				p := a.path
				if !filepath.IsAbs(p) {
					p = filepath.Join(cwd, p)
				}
				ok = ok || strings.HasPrefix(filepath.Clean(x)+"/", filepath.Clean(p)+"/")
			}
		}
		c.Check(ok, "%s looks into %q, which nobody named: %.300s", what, a.path, a.line)
		c.Event("reading file operations judged")
	}
	c.Check(execs == 1, "%s: the trace shows %d programs instead of one", what, execs)
}

const actTrace = "trace=%file,%network,fchmod,fchown,ftruncate,mount,umount2"

func stracing(tr string) []string {
	return []string{"/usr/bin/strace", "-f", "-qq", "-xx", "-s", "4096", "-o", tr, "-e", actTrace}
}

func c30commands(c *rt.Case) {
	if !cli.Strace() {
		c.Note("system calls cannot be traced here: commands went without")
		return
	}
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	tr := cli.Path(dir, "trace")
	r := c.R
	cmd := pick(r, []string{"generate", "recover", "recover", "convert"})
	f := genFlags(r, cmd == "recover")
	words := spec.EncodePlain(f.Seed, f.Offset)
	var reads, writes, args []string
	var steps []step
	o := cli.Opt{}
	args = []string{cmd}
	if cmd != "convert" {
		args = append(args, f.args(r, cmd == "recover")...)
	}
	end := "ends"
	if cmd == "generate" {
		if r.Intn(3) == 0 {
			e := cli.Path(dir, "entropy")
			os.WriteFile(e, f.Seed[:], 0o600)
			args, reads = append(args, "-unsafe-entropy", e), append(reads, e)
		}
	} else {
		pw := ""
		if r.Intn(3) == 0 {
			pw = "pw"
			words = spec.EncodeEncrypted(f.Seed, f.Offset, []byte(pw), genSalt(r))
		}
		if r.Intn(6) == 0 { // a phrase that is refused
			words[r.Intn(len(words))] = pick(r, []string{"zzzz", spec.Words[r.Intn(4096)]})
			end = "may fail"
		}
		switch r.Intn(4) {
		case 0: // typed
			if pw == "" {
				pw = " "
			}
			steps = append(steps, step{raw: true, send: strings.Join(words, "\r") + "\r"})
		case 1:
			o.Stdin = []byte(strings.Join(words, "\n") + "\n")
		default:
			in := writeWords(dir, "in", words)
			args, reads = append(args, "-in-word-file", in), append(reads, in)
			if r.Intn(8) == 0 {
				os.Remove(in)
				decoys(r, in, strings.Join(words, " "))
				end = "may fail"
			}
		}
		if pw != "" && pw != " " && o.Stdin == nil {
			steps = append(steps, pwSteps(promptDec, pw, false)...)
		}
	}
	if cmd != "recover" {
		if r.Intn(3) == 0 && o.Stdin == nil {
			args = append(args, "-encrypt-phrase")
			steps = append(steps, pwSteps(promptEnc, "other", true)...)
		}
		if r.Intn(2) == 0 {
			w := cli.Path(dir, "user", "cwd", "w")
			if r.Intn(6) == 0 { // it cannot be written
				os.MkdirAll(w, 0o700)
				end = "may fail"
			}
			writes = append(writes, w)
			args = append(args, "-out-word-file", pick(r, []string{w, "w", "./w"}))
		}
	}
	if cmd != "convert" && r.Intn(6) == 0 && o.Stdin == nil {
		args = append(args, "-encrypt-keys")
		steps = append(steps, pwSteps(promptKey, "key", true)...)
	}
	if r.Intn(3) == 0 {
		args = append(args, "-verbose")
	}
	switch r.Intn(12) {
	case 0:
		args = append(args, pick(r, []string{"-nosuch", "-ttl=zz", "-only=foo", "-h"}))
		end = "may fail"
	case 1:
		args = pick(r, [][]string{{}, {"help"}, {"-h"}, {"version"}, {"-version"}, {"--version"}, {"nosuch"}, {"generate", "-h"}})
		end, steps = "may fail", nil
	}
	o.Args, o.Wrap = args, stracing(tr)
	home(dir, &o)
	c.Input(map[string]any{"args": fmt.Sprintf("%.400q", args), "terminal": len(steps) > 0, "end": end})
	var res cli.Result
	if len(steps) > 0 {
		// Prompts are answered as they come; what happens is judged by others.
		s, err := cli.Start(cli.SessOpt{Opt: o})
		if err != nil {
			c.Inconclusive("%v", err)
		}
		defer s.P.Close()
		go func() {
			for n := 0; n < 400 && !s.Exited(); n++ {
				time.Sleep(50 * time.Millisecond)
			}
			s.Kill(9)
		}()
		names := []string{}
		answer := map[string]string{}
		for _, st := range steps {
			if st.raw {
				s.WaitTermios(5*time.Second, cli.Raw)
				s.Send(st.send)
			} else if answer[st.expect] == "" {
				names = append(names, st.expect)
				answer[st.expect] = st.send
			}
		}
		last := ""
		for n := 0; n < 8 && len(names) > 0; n++ {
			k := s.ExpectAny(3*time.Second, names...)
			if k < 0 {
				break
			}
			if a := answer[names[k]]; names[k] != "Repeat password" {
				last = a
			}
			s.WaitTermios(3*time.Second, cli.EchoOff)
			s.Send(last)
		}
		if !s.Exited() {
			for k := 0; k < 20 && !s.Exited(); k++ {
				time.Sleep(20 * time.Millisecond)
			}
			s.Send("\x03")
		}
		res = s.Finish(30 * time.Second)
		c.Event("terminal sessions")
	} else {
		res = cli.Run(o)
	}
	as, err := acts(tr)
	if err != nil {
		c.Inconclusive("trace: %v", err)
	}
	judgeActs(c, as, fmt.Sprintf("%.300q", args), o.Dir, reads, writes)
	// and what is there afterwards
	filepath.Walk(cli.Path(dir, "user"), func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			named := false
			for _, w := range writes {
				named = named || w == p
			}
			c.Check(named, "%.300q leaves the file %s behind", args, strings.TrimPrefix(p, dir))
		}
		return nil
	})
	c.Event("commands traced")
	c.State("endings", fmt.Sprint(cmd, res.Exit, len(steps) > 0))
	c.Distinct(args, f.Seed)
}

// libOps uses the whole library once: things that work and things that do not.
func libOps(r *rand.Rand, protect bool) {
	p := genParams(r)
	n := new(big.Int).SetBytes(p.Seed[:])
	seed, err := mnemonikey.NewSeed(0, n)
	if err != nil {
		panic(err)
	}
	m, err := mnemonikey.New(seed, p.creation(), p.opts())
	if err != nil {
		panic(err)
	}
	m.CreatedAt()
	m.Expiry()
	m.UserID()
	m.Fingerprint()
	for _, t := range m.SubkeyTypes() {
		m.SubkeyFingerprint(t)
	}
	m.SubkeyFingerprint("other")
	m.EncodePGP(nil)
	m.EncodeSubkeysPGP(nil, r.Intn(2) == 0)
	m.EncodePGPArmor(nil)
	m.EncodeSubkeysPGPArmor(nil, r.Intn(2) == 0)
	if protect {
		m.EncodeSubkeysPGP([]byte("pw"), true)
		m.EncodePGPArmor([]byte("pw"))
	}
	words, _ := m.EncodeMnemonicPlaintext()
	enc, _ := m.EncodeMnemonicEncrypted([]byte("pw"), r)
	m.EncodeMnemonicEncrypted([]byte("pw"), bytes.NewReader(nil))
	m.EncodeMnemonicEncrypted(nil, r)
	for _, w := range [][]string{words, enc, {}, words[1:], append([]string{"zebra"}, words[1:]...), append(append([]string{}, words[:13]...), "nosuchword")} {
		if d, err := mnemonikey.DecodeMnemonic(w); err == nil {
			d.Seed()
			d.Creation()
			d.DecryptSeed([]byte("pw"))
			d.DecryptSeed([]byte("wrong"))
		}
		if len(w) > 0 {
			mnemonikey.ParseMnemonicVersion(w[0])
		}
		mnemonikey.RecoverPlaintext(w, p.opts())
		mnemonikey.RecoverEncrypted(w, []byte("pw"), p.opts())
	}
	mnemonikey.GenerateSeed(r)
	mnemonikey.GenerateSeed(bytes.NewReader(make([]byte, 3)))
	mnemonikey.NewSeed(0, new(big.Int).Lsh(big.NewInt(1), 128))
	mnemonikey.NewSeed(0, big.NewInt(-1))
	mnemonikey.New(seed, time.Unix(0, 0), nil)
	mnemonikey.New(seed, p.creation(), &mnemonikey.KeyOptions{TTL: -1})
	ind, _ := mnemonic.EncodeToIndices(n, 132)
	mnemonic.EncodeToWords(ind)
	mnemonic.EncodeToWords([]uint16{5000})
	mnemonic.DecodeIndices([]uint16{5000})
	pgp.NewED25519MasterKey([]byte{1}, p.creation(), time.Time{})
	pgp.EncodePacket(pgp.PacketTagUserID, p.Seed[:])
}

// ChildOps uses the library and nothing else.
func ChildOps(seed int64) {
	r := rand.New(rand.NewSource(seed))
	for k := 0; k < 40; k++ {
		libOps(r, k%20 == 0)
	}
}

func c30library(c *rt.Case) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	tr := cli.Path(dir, "trace")
	seed := c.R.Int63()
	args := []string{self, "-child-ops", fmt.Sprint(seed)}
	traced := cli.Strace()
	if traced {
		args = append(stracing(tr), args...)
	} else {
		c.Note("system calls cannot be traced here: library went without")
	}
	o := cli.Opt{}
	home(dir, &o)
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Env = append([]string{"PATH=/usr/bin:/bin"}, o.Env...)
	cmd.Dir = o.Dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	c.Input(map[string]any{"seed": seed})
	err = cmd.Run()
	c.Check(err == nil, "a program that uses the library ends with %v: %.600s", err, errb.Bytes())
	c.Check(out.Len() == 0 && errb.Len() == 0, "the library writes to standard output or error: %.300q %.300q", out.Bytes(), errb.Bytes())
	if traced {
		as, err := acts(tr)
		if err != nil {
			c.Inconclusive("trace: %v", err)
		}
		judgeActs(c, as, "a program that uses the library", o.Dir, nil, nil)
	}
	c.Event("library programs traced")
	c.Distinct(seed)
}

// c30repeat goes on using the library: in none of several equal periods may
// all of goroutines, descriptors or live objects keep growing with the calls.
func c30repeat(c *rt.Case) {
	const calls, periods = 250, 6
	r := rand.New(rand.NewSource(c.R.Int63()))
	count := func() [3]int {
		var m runtime.MemStats
		for k := 0; k < 3; k++ {
			runtime.GC()
			time.Sleep(3 * time.Millisecond)
		}
		runtime.ReadMemStats(&m)
		fds, _ := os.ReadDir("/proc/self/fd")
		return [3]int{runtime.NumGoroutine(), len(fds), int(m.HeapObjects)}
	}
	for k := 0; k < calls; k++ {
		libOps(r, k%125 == 0)
	}
	last := count()
	var grown [3]int
	var log [][3]int
	for p := 0; p < periods; p++ {
		for k := 0; k < calls; k++ {
			libOps(r, k%125 == 0)
		}
		now := count()
		for i, limit := range [3]int{2, 2, calls / 10} {
			if now[i]-last[i] >= limit {
				grown[i]++
			}
		}
		last = now
		log = append(log, now)
		c.Event("periods of calls compared")
	}
	for i, what := range []string{"goroutines", "open descriptors", "live objects"} {
		c.Check(grown[i] < periods, "the library's %s grow with every %d calls: %v (goroutines, descriptors, objects)", what, calls, log)
	}
	c.Distinct(fmt.Sprint(log), r.Int63())
}

func init() {
	rt.Register(&rt.Property{ID: "C30", Variant: "fast",
		Rule:   "case = one command (or a program of 40 rounds through the whole library) under a system call trace in which every file, network and program operation is judged; or seven periods of 250 rounds through the library with goroutines, descriptors and live objects counted between them; distinct by arguments and seed.",
		Assume: []string{"reading below /proc, /sys, /etc, /usr, /lib, /dev, /run and /var is the business of the runtime and the C library", "strace can trace own children; otherwise the traced part says that it went without", "Argon2id replaced by a stand-in PRF of all its parameters"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "repeat", Quick: 2, Thorough: 20, Serial: true, Hang: 300 * time.Second, Fn: c30repeat},
				{Name: "library", Quick: 8, Thorough: 200, Limit: 20 * time.Second, Hang: 300 * time.Second, Fn: c30library},
				{Name: "commands", Quick: 300, Thorough: 12000, Limit: 45 * time.Second, Fn: c30commands},
			}
		}})
}
