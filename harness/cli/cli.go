// Package cli drives the real command-line binary as a user would: with
// pipes, files and pseudo-terminals, sampling what the process does.
package cli

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/sys/unix"
)

// Bin is the binary under observation.
var Bin = os.Getenv("VERIF_CLI")

// RaceBin is its race-detector build.
var RaceBin = os.Getenv("VERIF_CLI_RACE")

// Clocked says that Bin takes its clock from the environment.
var Clocked = os.Getenv("VERIF_CLOCKED") == "1"

// Clock is the environment in which Bin believes it is that instant.
func Clock(t time.Time) string { return fmt.Sprintf("VERIF_CLOCK=%d", t.UnixNano()) }

// RealBin is the build with the real Argon2id.
var RealBin = os.Getenv("VERIF_CLI_REAL")

// Opt says how to run it.
type Opt struct {
	Bin     string
	Args    []string
	Stdin   []byte
	NoStdin bool     // close stdin
	StdinF  *os.File // takes precedence
	StdoutF *os.File
	StderrF *os.File
	// NoStdout/NoStderr close the descriptor.
	NoStdout, NoStderr bool
	Env                []string
	Dir                string
	Timeout            time.Duration
	MemKB              int // ulimit -v
	Umask              string
	Wrap               []string // run through this command
}

// Result is what was observed.
type Result struct {
	Exit           int // -1: killed by a signal or timed out
	Signal         string
	Timeout        bool
	Stdout, Stderr []byte
	Wall           time.Duration
}

func (r Result) String() string {
	return fmt.Sprintf("exit %d%s timeout=%v stdout=%d bytes stderr=%.500q", r.Exit, r.Signal, r.Timeout, len(r.Stdout), r.Stderr)
}

var scratchName = regexp.MustCompile(`\S*/vs[0-9]+`)

// baseEnv gives a user's environment; which one depends on the arguments only,
// so that a replay has the same.
func baseEnv(args, extra []string) []string {
	h := fnv.New32a()
	h.Write([]byte(scratchName.ReplaceAllString(strings.Join(args, " "), "")))
	n := h.Sum32()
	env := []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent"}
	for _, vs := range [][]string{
		{"", "GOMAXPROCS=1", "", "GOMAXPROCS=3"},
		{"TERM=xterm", "TERM=xterm-256color", "TERM=dumb", "TERM=linux", ""},
		{"", "TZ=Asia/Kathmandu", "TZ=America/New_York", "TZ=Pacific/Kiritimati", "TZ=Etc/GMT+12", "TZ=Europe/London", "TZ=UTC"},
		{"", "LANG=C", "LANG=tr_TR.UTF-8", "LANG=de_DE.ISO-8859-1"},
		{"", "", "COLUMNS=20", "NO_COLOR=1"},
		clocks(args),
		settings(),
	} {
		if v := vs[n%uint32(len(vs))]; v != "" {
			env = append(env, v)
		}
		n /= uint32(len(vs))
	}
	return append(env, extra...)
}

// EnvSettings gives settings worth trying with this program.
var EnvSettings func() []string

func settings() []string {
	l := []string{""}
	if EnvSettings != nil {
		for _, s := range EnvSettings() {
			l = append(l, s)
			if len(l)%2 == 0 {
				l = append(l, "")
			}
		}
	}
	return l
}

// clocks gives instants for the commands whose result has nothing to do with
// the present time.
func clocks(args []string) []string {
	if !Clocked || len(args) == 0 || (args[0] != "recover" && args[0] != "convert") {
		return []string{""}
	}
	l := []string{"", ""}
	for _, t := range []int64{0, 1, 1640995200, 1672531199, 1672531200, 1700000000, 2147483647, 2147483648, 3820014847, 3820014848, 4294967296, 7000000000} {
		l = append(l, Clock(time.Unix(t, 999999999)))
	}
	return l
}

func command(o Opt) *exec.Cmd {
	bin := o.Bin
	if bin == "" {
		bin = Bin
	}
	if len(o.Wrap) > 0 {
		o.Args = append(append(append([]string{}, o.Wrap[1:]...), bin), o.Args...)
		bin = o.Wrap[0]
	}
	var pre []string
	if o.MemKB > 0 {
		pre = append(pre, fmt.Sprintf("ulimit -v %d", o.MemKB))
	}
	if o.Umask != "" {
		pre = append(pre, "umask "+o.Umask)
	}
	run := `exec "$0" "$@"`
	if o.NoStdout {
		run += " >&-"
	}
	if o.NoStderr {
		run += " 2>&-"
	}
	if o.NoStdin {
		run += " <&-"
	}
	var cmd *exec.Cmd
	if len(pre) > 0 || o.NoStdout || o.NoStderr || o.NoStdin {
		script := strings.Join(append(pre, run), "; ")
		cmd = exec.Command("/bin/sh", append([]string{"-c", script, bin}, o.Args...)...)
	} else {
		cmd = exec.Command(bin, o.Args...)
	}
	cmd.Env = baseEnv(o.Args, o.Env)
	cmd.Dir = o.Dir
	return cmd
}

// Run runs the binary with pipes or files.
func Run(o Opt) Result {
	if o.Timeout == 0 {
		o.Timeout = 90 * time.Second
	}
	cmd := command(o)
	var out, errb bytes.Buffer
	switch {
	case o.StdinF != nil:
		cmd.Stdin = o.StdinF
	default:
		cmd.Stdin = bytes.NewReader(o.Stdin)
	}
	if o.StdoutF != nil {
		cmd.Stdout = o.StdoutF
	} else {
		cmd.Stdout = &out
	}
	if o.StderrF != nil {
		cmd.Stderr = o.StderrF
	} else {
		cmd.Stderr = &errb
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.WaitDelay = 5 * time.Second
	t0 := time.Now()
	if err := cmd.Start(); err != nil {
		return Result{Exit: -2, Signal: err.Error()}
	}
	var timedOut bool
	timer := time.AfterFunc(o.Timeout, func() {
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	err := cmd.Wait()
	timer.Stop()
	r := Result{Stdout: out.Bytes(), Stderr: errb.Bytes(), Timeout: timedOut, Wall: time.Since(t0)}
	fill(&r, cmd, err)
	return r
}

func fill(r *Result, cmd *exec.Cmd, err error) {
	if cmd.ProcessState == nil {
		r.Exit = -1
		r.Signal = fmt.Sprint(err)
		return
	}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		r.Exit = -1
		r.Signal = " signal " + ws.Signal().String()
		return
	}
	r.Exit = ws.ExitStatus()
}

// PTY is a pseudo-terminal pair.
type PTY struct {
	Master, Slave *os.File
	Name          string
}

// OpenPTY makes a pair with a window size.
func OpenPTY(cols, rows uint16) (*PTY, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, err
	}
	fd := int(m.Fd())
	if err := unix.IoctlSetPointerInt(fd, unix.TIOCSPTLCK, 0); err != nil {
		return nil, err
	}
	n, err := unix.IoctlGetInt(fd, unix.TIOCGPTN)
	if err != nil {
		return nil, err
	}
	name := fmt.Sprintf("/dev/pts/%d", n)
	s, err := os.OpenFile(name, os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, err
	}
	unix.IoctlSetWinsize(fd, unix.TIOCSWINSZ, &unix.Winsize{Col: cols, Row: rows})
	return &PTY{m, s, name}, nil
}

// Close closes both ends.
func (p *PTY) Close() { p.Slave.Close(); p.Master.Close() }

// Termios reads the current settings.
func (p *PTY) Termios() unix.Termios {
	t, err := unix.IoctlGetTermios(int(p.Slave.Fd()), unix.TCGETS)
	if err != nil {
		return unix.Termios{}
	}
	return *t
}

// Session is a run on a pseudo-terminal: stdin and stderr are the terminal,
// stdout is a pipe unless StdoutTTY.
type Session struct {
	P      *PTY
	cmd    *exec.Cmd
	mu     sync.Mutex
	tty    bytes.Buffer
	out    bytes.Buffer
	cursor int
	done   chan struct{}
	outEnd chan struct{}
	err    error
	Before unix.Termios
	t0     time.Time
}

// SessOpt configures a session.
type SessOpt struct {
	Opt
	Cols, Rows uint16
	StdoutTTY  bool
}

// Start starts a session.
func Start(o SessOpt) (*Session, error) {
	if o.Cols == 0 {
		o.Cols, o.Rows = 100, 40
	}
	p, err := OpenPTY(o.Cols, o.Rows)
	if err != nil {
		return nil, err
	}
	return StartOn(p, o)
}

// StartOn starts a session on an existing pair.
func StartOn(p *PTY, o SessOpt) (*Session, error) {
	s := &Session{P: p, done: make(chan struct{}), outEnd: make(chan struct{}), Before: p.Termios(), t0: time.Now()}
	s.cmd = command(o.Opt)
	s.cmd.Stdin = p.Slave
	s.cmd.Stderr = p.Slave
	if o.StderrF != nil {
		s.cmd.Stderr = o.StderrF
	}
	var pr, pw *os.File
	var err error
	switch {
	case o.StdoutTTY:
		s.cmd.Stdout = p.Slave
		close(s.outEnd)
	case o.StdoutF != nil:
		s.cmd.Stdout = o.StdoutF
		close(s.outEnd)
	default:
		if pr, pw, err = os.Pipe(); err != nil {
			return nil, err
		}
		s.cmd.Stdout = pw
	}
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0, Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	if pw != nil {
		pw.Close()
		go func() {
			buf := make([]byte, 4096)
			for {
				n, err := pr.Read(buf)
				s.mu.Lock()
				s.out.Write(buf[:n])
				s.mu.Unlock()
				if err != nil {
					break
				}
			}
			pr.Close()
			close(s.outEnd)
		}()
	}
	go func() {
		buf := make([]byte, 4096)
		for {
			n, err := p.Master.Read(buf)
			s.mu.Lock()
			s.tty.Write(buf[:n])
			s.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	go func() {
		s.err = s.cmd.Wait()
		close(s.done)
	}()
	return s, nil
}

// TTY returns everything the terminal displayed so far.
func (s *Session) TTY() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]byte{}, s.tty.Bytes()...)
}

// Out returns standard output so far.
func (s *Session) Out() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]byte{}, s.out.Bytes()...)
}

// Expect waits for text to appear after the previous Expect's match.
func (s *Session) Expect(text string, timeout time.Duration) bool {
	deadline := time.Now().Add(timeout)
	for {
		s.mu.Lock()
		i := bytes.Index(s.tty.Bytes()[s.cursor:], []byte(text))
		if i >= 0 {
			s.cursor += i + len(text)
			s.mu.Unlock()
			return true
		}
		s.mu.Unlock()
		if s.Exited() {
			time.Sleep(500 * time.Millisecond)
			s.mu.Lock()
			i := bytes.Index(s.tty.Bytes()[s.cursor:], []byte(text))
			if i >= 0 {
				s.cursor += i + len(text)
			}
			s.mu.Unlock()
			return i >= 0
		}
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
}

// ExpectAny waits for the earliest of several texts after the previous match
// and returns its index, or -1.
func (s *Session) ExpectAny(timeout time.Duration, texts ...string) int {
	deadline := time.Now().Add(timeout)
	last := false
	for {
		s.mu.Lock()
		best, at := -1, 0
		for k, t := range texts {
			if i := bytes.Index(s.tty.Bytes()[s.cursor:], []byte(t)); i >= 0 && (best < 0 || i < at) {
				best, at = k, i
			}
		}
		if best >= 0 {
			s.cursor += at + len(texts[best])
		}
		s.mu.Unlock()
		if best >= 0 || last {
			return best
		}
		if s.Exited() {
			time.Sleep(500 * time.Millisecond)
			last = true
			continue
		}
		if time.Now().After(deadline) {
			return -1
		}
		time.Sleep(time.Millisecond)
	}
}

// SetTermios changes the settings before a session.
func (p *PTY) SetTermios(t unix.Termios) error {
	return unix.IoctlSetTermios(int(p.Slave.Fd()), unix.TCSETS, &t)
}

// Exited tells whether the process has ended.
func (s *Session) Exited() bool {
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}

// Send types bytes.
func (s *Session) Send(b string) { s.P.Master.Write([]byte(b)) }

// WaitTermios polls until pred holds for the terminal settings.
func (s *Session) WaitTermios(timeout time.Duration, pred func(t unix.Termios) bool) bool {
	deadline := time.Now().Add(timeout)
	for {
		if pred(s.P.Termios()) {
			return true
		}
		if s.Exited() || time.Now().After(deadline) {
			return pred(s.P.Termios())
		}
		time.Sleep(500 * time.Microsecond)
	}
}

// EchoOff says that typed characters are not echoed.
func EchoOff(t unix.Termios) bool { return t.Lflag&unix.ECHO == 0 }

// Raw says that the terminal is in raw mode.
func Raw(t unix.Termios) bool { return t.Lflag&(unix.ECHO|unix.ICANON) == 0 }

// Finish waits for the end of the process and its output.
func (s *Session) Finish(timeout time.Duration) Result {
	var r Result
	select {
	case <-s.done:
	case <-time.After(timeout):
		r.Timeout = true
		syscall.Kill(s.cmd.Process.Pid, syscall.SIGKILL)
		<-s.done
	}
	select {
	case <-s.outEnd:
	case <-time.After(5 * time.Second):
	}
	// everything the process displayed precedes a mark written now
	const mark = "<<end of session>>"
	s.P.Slave.Write([]byte(mark))
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end) && !bytes.HasSuffix(s.TTY(), []byte(mark)); {
		time.Sleep(time.Millisecond)
	}
	fill(&r, s.cmd, s.err)
	r.Stdout, r.Stderr, r.Wall = s.Out(), bytes.TrimSuffix(s.TTY(), []byte(mark)), time.Since(s.t0)
	return r
}

// Kill ends the process.
func (s *Session) Kill(sig syscall.Signal) { syscall.Kill(s.cmd.Process.Pid, sig) }

// Pid is the process.
func (s *Session) Pid() int { return s.cmd.Process.Pid }

var straceOnce sync.Once
var straceOK bool

// Strace tells whether system calls can be traced and tampered with here.
func Strace() bool {
	straceOnce.Do(func() {
		out, err := exec.Command("/usr/bin/strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=write", "-e", "inject=write:error=ENOSPC:when=1", "/bin/echo", "x").CombinedOutput()
		straceOK = err != nil && bytes.Contains(out, []byte("echo"))
	})
	return straceOK
}

// Scratch makes a scratch directory.
func Scratch() string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "vs")
	if err != nil {
		panic(err)
	}
	return d
}

// Path joins.
func Path(parts ...string) string { return filepath.Join(parts...) }

// Strip removes ANSI escape sequences (CSI and two-character ones).
func Strip(b []byte) string {
	var out []byte
	for i := 0; i < len(b); i++ {
		if b[i] != 0x1b {
			out = append(out, b[i])
			continue
		}
		if i+1 < len(b) && b[i+1] == '[' {
			i += 2
			for i < len(b) && (b[i] < 0x40 || b[i] > 0x7e) {
				i++
			}
			continue
		}
		i++
	}
	return string(out)
}

// Phrase reads the numbered phrase out of terminal or stderr text.
func Phrase(text []byte) []string {
	var words []string
	for _, l := range strings.Split(strings.ReplaceAll(Strip(text), "\r", ""), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == fmt.Sprintf("%d:", len(words)+1) {
			words = append(words, f[1])
		}
	}
	return words
}
