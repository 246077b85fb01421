package rt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// Environment is a way to run a process.
type Environment struct {
	Name string   `json:"name"`
	Wrap []string `json:"wrap,omitempty"`
	Env  []string `json:"env,omitempty"`
}

// MoreEnvironments adds settings which concern the program under test.
var MoreEnvironments func() []string

func environments() []Environment {
	l := []Environment{
		{Name: "one processor", Wrap: []string{"/usr/bin/taskset", "-c", "0"}},
		{Name: "one at a time", Env: []string{"GOMAXPROCS=1"}},
		{Name: "three processors, busy collector", Wrap: []string{"/usr/bin/taskset", "-c", "1-3"}, Env: []string{"GOGC=1"}},
		{Name: "many threads, no collector", Env: []string{"GOMAXPROCS=61", "GOGC=off", "GOMEMLIMIT=2GiB"}},
		{Name: "little memory, plain processor", Env: []string{"GOMEMLIMIT=16MiB", "GODEBUG=cpu.all=off"}},
		{Name: "Turkish, New York", Env: []string{"TZ=America/New_York", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "HOME=/nonexistent"}},
		{Name: "few descriptors", Wrap: []string{"/usr/bin/prlimit", "--nofile=10", "--fsize=0", "--core=0"}, Env: []string{"TZ=Asia/Kathmandu", "USER=", "HOME=", "GODEBUG=randautoseed=0"}},
		{Name: "another user", Wrap: []string{"/usr/bin/setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", "--no-new-privs"}, Env: []string{"HOME=/nonexistent", "TMPDIR=/nonexistent"}},
	}
	if MoreEnvironments != nil {
		for i, s := range MoreEnvironments() {
			if i < 16 {
				l = append(l, Environment{Name: s, Env: []string{s}})
			}
		}
	}
	return l
}

func (e *Environment) command(args ...string) (*exec.Cmd, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	av := append(append(append([]string{}, e.Wrap...), self), args...)
	cmd := exec.Command(av[0], av[1:]...)
	cmd.Dir = "/"
	cmd.Env = append([]string{"PATH=/usr/bin:/bin"}, e.Env...)
	for _, k := range []string{"GORACE", "VERIF_TIER", "VERIF_SEED", "VERIF_SCRATCH"} {
		if v, ok := os.LookupEnv(k); ok {
			cmd.Env = append(cmd.Env, k+"="+v)
		}
	}
	return cmd, nil
}

// Replay runs a replay in the environment of its violation.
func (e *Environment) Replay(args ...string) int {
	cmd, err := e.command(args...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	if err := cmd.Run(); err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			return x.ExitCode()
		}
		return 2
	}
	return 0
}

// Part is what the process elsewhere answers.
type Part struct {
	Cases      int64            `json:"cases"`
	Distinct   int              `json:"distinct"`
	Events     map[string]int64 `json:"events"`
	Violations []Violation      `json:"violations"`
}

// elsewhere runs a few cases of every stream in other environments.
func (r *Run) elsewhere() {
	var wg sync.WaitGroup
	slots := make(chan bool, 6)
	for i, e := range environments() {
		i, e := i, e
		wg.Add(1)
		slots <- true
		go func() {
			defer wg.Done()
			defer func() { <-slots }()
			cmd, err := e.command("-prop", r.P.ID, "-variant", r.P.Variant, "-elsewhere", fmt.Sprint(r.Seed*1000+int64(i)))
			if err != nil {
				r.Note("%s: %v", e.Name, err)
				return
			}
			var out, errb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &errb
			time.AfterFunc(3*time.Minute, func() {
				if cmd.Process != nil {
					cmd.Process.Kill()
				}
			})
			err = cmd.Run()
			var part Part
			if json.Unmarshal(out.Bytes(), &part) != nil {
				b := errb.String()
				if (strings.Contains(b, "fatal error: ") || strings.Contains(b, "panic: ")) && strings.Contains(b, "/repo/") {
					r.mu.Lock()
					r.viol = append(r.viol, Violation{r.P.ID, "elsewhere", i, r.Seed, r.Tier, r.P.Variant, "", fmt.Sprintf("in another environment (%s) the monitored code crashed: %.1000s", e.Name, b), nil, Dict, &e})
					r.mu.Unlock()
					return
				}
				r.Note("no answer from another environment (%s): %v %.200s", e.Name, err, b)
				return
			}
			r.mu.Lock()
			defer r.mu.Unlock()
			r.events["cases in other environments"] += part.Cases
			st := r.sets["other environments"]
			if st == nil {
				st = map[uint64]struct{}{}
				r.sets["other environments"] = st
			}
			st[uint64(i)] = struct{}{}
			for _, v := range part.Violations {
				v.Elsewhere = &e
				v.Message = "in another environment (" + e.Name + "): " + v.Message
				v.Dict = Dict
				r.viol = append(r.viol, v)
			}
		}()
	}
	wg.Wait()
}

// ExecuteElsewhere is the other process.
func ExecuteElsewhere(p *Property, seed int64) int {
	r := &Run{P: p, Tier: "quick", Seed: seed,
		hits: map[string]int{}, distinct: map[[16]byte]struct{}{}, events: map[string]int64{},
		sets: map[string]map[uint64]struct{}{}, perStr: map[string]map[string]any{}, active: map[*Case]time.Time{}}
	if p.Setup != nil {
		if err := p.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			return 2
		}
	}
	var streams []Stream
	for _, s := range p.Streams() {
		if !s.Serial && !s.Here && s.Quick > 0 {
			streams = append(streams, s)
		}
	}
	for i := range streams {
		s := &streams[i]
		if s.Hang == 0 {
			s.Hang = 240 * time.Second
		}
		r.perStr[s.Name] = map[string]any{"cases": 0, "sampled": 2}
		n := s.Quick
		if n > 400 {
			n = 400
		}
		t0 := time.Now()
		r.pass(s, 0, n, 2, func(i int) bool { return i < 4 || time.Since(t0) < 2500*time.Millisecond/time.Duration(len(streams)) })
	}
	part := Part{Cases: r.evals, Distinct: len(r.distinct), Events: r.events, Violations: r.viol}
	for i := range part.Violations {
		part.Violations[i].Dict = nil
		part.Violations[i].Detail = fmt.Sprintf("%+v", part.Violations[i].Detail)
	}
	b, err := json.Marshal(part)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.Stdout.Write(b)
	return 0
}
