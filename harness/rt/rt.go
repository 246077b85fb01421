// Package rt runs a property's workload streams under its monitors: it hands
// every case its own deterministic randomness, collects what the monitors
// observed, turns failures and panics into replayable violations, and writes
// the evidence file.
package rt

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Stream is a family of cases. Case i of a stream depends only on the seed,
// the property, the stream's name and i.
type Stream struct {
	Name     string
	Quick    int // number of cases
	Thorough int
	// Serial streams run one case at a time.
	Serial bool
	// Workers limits parallelism (0: number of CPUs).
	Workers int
	// Limit is a wall-clock share; no new case starts after it.
	Limit time.Duration
	// Min is how many cases must run however long they take.
	Min int
	// Hang is how long one case may take before it counts as hung.
	Hang time.Duration
	// Here says that the stream makes sense in the main process only.
	Here bool
	Fn   func(c *Case)
}

// Property is a registered check.
type Property struct {
	ID      string
	Level   string
	Rule    string
	Assume  []string
	Variant string // "fast", "real", "race": which build of the harness runs it
	Setup   func() error
	Streams func() []Stream
	Finish  func(r *Run)
	// Elsewhere runs a part of every stream in processes with other
	// environments too.
	Elsewhere bool
	// Budget replaces the time the quick tier fills.
	Budget time.Duration
}

// Registry holds all properties by ID (several variants allowed).
var Registry []*Property

// Register adds a property.
func Register(p *Property) { Registry = append(Registry, p) }

// Violation is one recorded failure.
type Violation struct {
	Property string `json:"property"`
	Stream   string `json:"stream"`
	Index    int    `json:"index"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Variant  string `json:"variant"`
	Key      string `json:"key,omitempty"`
	Message  string `json:"message"`
	Detail   any    `json:"detail,omitempty"`

	Dict *Dictionary `json:"dictionary,omitempty"`

	// Elsewhere names the environment of the process it happened in.
	Elsewhere *Environment `json:"elsewhere,omitempty"`
}

// Dictionary holds constants of the program under test.
type Dictionary struct {
	Ints    []int64  `json:"ints"`
	Strings []string `json:"strings"`

	NewInts    []int64  `json:"new_ints,omitempty"`
	NewStrings []string `json:"new_strings,omitempty"`
}

// Dict steers the generators; nil if there is none.
var Dict *Dictionary

// Budget is the wall-clock time the quick tier fills with further cases.
var Budget = 45 * time.Second

// FailFast ends the run at the first violation (development only).
var FailFast = os.Getenv("VERIF_FAILFAST") == "1"

// Extra adds harness-wide observations to the evidence.
var Extra func() map[string]any

// Run is the state of one check run.
type Run struct {
	P    *Property
	Tier string
	Seed int64

	Root string // /verif
	mu   sync.Mutex
	viol []Violation
	hits map[string]int // stream -> violations

	evals    int64
	distinct map[[16]byte]struct{}
	events   map[string]int64
	sets     map[string]map[uint64]struct{}
	samples  []any
	perStr   map[string]map[string]any
	notes    []string
	incon    []string
	active   map[*Case]time.Time
}

// Case is one execution.
type Case struct {
	R      *rand.Rand
	Index  int
	Tier   string
	Worn   bool // keys are used a lot before they are judged
	run    *Run
	stream *Stream
	failed bool
	input  any
	fp     []byte
}

type abort struct{}

// Fail records a violation and ends the case.
func (c *Case) Fail(format string, args ...any) {
	c.FailKey("", format, args...)
}

// FailKey is Fail with an identity a known-findings entry can name.
func (c *Case) FailKey(key, format string, args ...any) {
	c.record(key, fmt.Sprintf(format, args...))
	panic(abort{})
}

// Report records a violation without ending the case.
func (c *Case) Report(format string, args ...any) { c.record("", fmt.Sprintf(format, args...)) }

func (c *Case) record(key, msg string) {
	c.failed = true
	if FailFast {
		defer func() { os.Exit(c.run.conclude(time.Now(), false)) }()
	}
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	c.run.mu.Lock()
	defer c.run.mu.Unlock()
	c.run.hits[c.stream.Name]++
	if c.run.hits[c.stream.Name] <= 3 {
		c.run.viol = append(c.run.viol, Violation{
			c.run.P.ID, c.stream.Name, c.Index, c.run.Seed, c.run.Tier, c.run.P.Variant, key, msg, c.input, Dict, nil,
		})
	}
}

// Input describes the case for replays and samples.
func (c *Case) Input(v any) { c.input = v }

// Distinct marks the case as non-trivial with an identity.
func (c *Case) Distinct(parts ...any) {
	h := sha256.Sum256([]byte(c.stream.Name + "\x00" + fmt.Sprint(parts...)))
	var k [16]byte
	copy(k[:], h[:])
	c.run.mu.Lock()
	c.run.distinct[k] = struct{}{}
	c.run.mu.Unlock()
}

// Event counts a monitor observation.
func (c *Case) Event(name string) { c.run.Event(name, 1) }

// EventN counts n observations.
func (c *Case) EventN(name string, n int) { c.run.Event(name, int64(n)) }

// Event counts observations of the monitors.
func (r *Run) Event(name string, n int64) {
	r.mu.Lock()
	r.events[name] += n
	r.mu.Unlock()
}

// State adds to a set of distinct observed states.
func (c *Case) State(set string, v any) {
	h := fnv.New64a()
	fmt.Fprint(h, v)
	c.run.mu.Lock()
	m := c.run.sets[set]
	if m == nil {
		m = map[uint64]struct{}{}
		c.run.sets[set] = m
	}
	m[h.Sum64()] = struct{}{}
	c.run.mu.Unlock()
}

// StateCount returns how many distinct states of a set were observed.
func (r *Run) StateCount(set string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.sets[set])
}

// EventCount returns how often an event was observed.
func (r *Run) EventCount(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.events[name]
}

// Note adds a remark to the evidence.
func (r *Run) Note(format string, args ...any) {
	r.mu.Lock()
	r.notes = append(r.notes, fmt.Sprintf(format, args...))
	r.mu.Unlock()
}

// Note adds a remark to the evidence.
func (c *Case) Note(format string, args ...any) { c.run.Note(format, args...) }

// Inconclusive says the environment did not allow the observation.
func (c *Case) Inconclusive(format string, args ...any) {
	c.run.mu.Lock()
	c.run.incon = append(c.run.incon, fmt.Sprintf("%s/%d: ", c.stream.Name, c.Index)+fmt.Sprintf(format, args...))
	c.run.mu.Unlock()
	panic(abort{})
}

// Check panics out of the case with a violation unless ok.
func (c *Case) Check(ok bool, format string, args ...any) {
	if !ok {
		c.Fail(format, args...)
	}
}

func (r *Run) caseRNG(stream string, i int) *rand.Rand {
	var b [16]byte
	binary.BigEndian.PutUint64(b[:8], uint64(r.Seed))
	binary.BigEndian.PutUint64(b[8:], uint64(i))
	h := sha256.Sum256([]byte(string(b[:]) + r.P.ID + "\x00" + stream))
	return rand.New(rand.NewSource(int64(binary.BigEndian.Uint64(h[:8]))))
}

func (r *Run) one(s *Stream, i int) {
	c := &Case{R: r.caseRNG(s.Name, i), Index: i, run: r, stream: s, Tier: r.Tier}
	r.mu.Lock()
	r.active[c] = time.Now()
	r.mu.Unlock()
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(abort); !ok {
				c.record("", fmt.Sprintf("panic: %v\n%s", p, debug.Stack()))
			}
		}
		r.mu.Lock()
		delete(r.active, c)
		st := r.perStr[s.Name]
		st["cases"] = st["cases"].(int) + 1
		if c.input != nil && !c.failed {
			n := st["sampled"].(int)
			if n < 2 {
				st["sampled"] = n + 1
				r.samples = append(r.samples, map[string]any{"stream": s.Name, "index": i, "case": c.input})
			}
		}
		r.mu.Unlock()
		atomic.AddInt64(&r.evals, 1)
	}()
	s.Fn(c)
}

// Execute runs all streams of a property.
func Execute(p *Property, tier string, seed int64, root string, only *Violation) int {
	start := time.Now()
	r := &Run{P: p, Tier: tier, Seed: seed, Root: root,
		hits: map[string]int{}, distinct: map[[16]byte]struct{}{}, events: map[string]int64{},
		sets: map[string]map[uint64]struct{}{}, perStr: map[string]map[string]any{}, active: map[*Case]time.Time{}}
	if p.Setup != nil {
		if err := p.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			return 2
		}
	}
	streams := p.Streams()
	type more struct {
		s       *Stream
		from    int
		workers int
	}
	var spare []more
	go r.watchdog()
	for i := range streams {
		s := &streams[i]
		if s.Hang == 0 {
			s.Hang = 240 * time.Second
		}
		r.perStr[s.Name] = map[string]any{"cases": 0, "sampled": 0}
		if only != nil {
			if s.Name == only.Stream {
				r.one(s, only.Index)
			}
			continue
		}
		n := s.Quick
		if d, err := strconv.Atoi(os.Getenv("VERIF_DIVIDE")); err == nil && n > 8*d && s.Min == 0 {
			n /= d // development only
		}
		limit := s.Limit
		if limit == 0 {
			limit = 60 * time.Second
		}
		if tier == "thorough" {
			n = s.Thorough
			if n == 0 {
				n = s.Quick
			}
			limit *= 20
		}
		workers := s.Workers
		if workers == 0 {
			workers = runtime.NumCPU()
		}
		if s.Serial {
			workers = 1
		}
		t0 := time.Now()
		done := r.pass(s, 0, n, workers, func(i int) bool { return i < s.Min || time.Since(t0) <= limit })
		r.perStr[s.Name]["planned"] = n
		r.perStr[s.Name]["wall_s"] = round(time.Since(t0).Seconds())
		if tier == "quick" && p.Variant != "real" && !s.Serial && done >= n && s.Thorough > n {
			spare = append(spare, more{s, n, workers})
		}
	}
	if only == nil && p.Elsewhere && len(r.viol) == 0 && os.Getenv("VERIF_BUDGET") != "0" {
		r.elsewhere()
	}
	// what is left of the quick budget goes to further cases of every stream
	for k, m := range spare {
		if len(r.viol) > 0 || os.Getenv("VERIF_BUDGET") == "0" {
			break
		}
		budget := Budget
		if r.P.Budget > 0 {
			budget = r.P.Budget
		}
		left := budget - time.Since(start)
		if left <= 0 {
			break
		}
		t0, share := time.Now(), left/time.Duration(len(spare)-k)
		done := r.pass(m.s, m.from, m.s.Thorough, m.workers, func(int) bool { return time.Since(t0) <= share })
		st := r.perStr[m.s.Name]
		st["further_cases"] = done - m.from
		st["wall_s"] = round(st["wall_s"].(float64) + time.Since(t0).Seconds())
	}
	if p.Finish != nil && only == nil {
		p.Finish(r)
	}
	return r.conclude(start, only != nil)
}

// pass runs the cases from..to-1 of a stream while goOn says so and returns
// the index after the last one started.
func (r *Run) pass(s *Stream, from, to, workers int, goOn func(i int) bool) int {
	next := int64(from) - 1
	var last int64 = int64(from)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= to || !goOn(i) || r.tooMany(s.Name) {
					return
				}
				for {
					l := atomic.LoadInt64(&last)
					if l > int64(i) || atomic.CompareAndSwapInt64(&last, l, int64(i)+1) {
						break
					}
				}
				r.one(s, i)
			}
		}()
	}
	wg.Wait()
	return int(last)
}

func (r *Run) tooMany(stream string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.hits[stream] >= 3
}

// FailRun records a violation found over the whole run.
func (r *Run) FailRun(stream, format string, args ...any) {
	r.mu.Lock()
	r.hits[stream]++
	r.viol = append(r.viol, Violation{r.P.ID, stream, -1, r.Seed, r.Tier, r.P.Variant, "", fmt.Sprintf(format, args...), nil, Dict, nil})
	r.mu.Unlock()
}

// watchdog turns a hung case into a violation.
func (r *Run) watchdog() {
	for {
		time.Sleep(time.Second)
		r.mu.Lock()
		for c, t := range r.active {
			if time.Since(t) > c.stream.Hang {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				r.viol = append(r.viol, Violation{r.P.ID, c.stream.Name, c.Index, r.Seed, r.Tier, r.P.Variant, "",
					fmt.Sprintf("case did not finish within %s", c.stream.Hang), map[string]any{"input": c.input, "stacks": string(buf)}, Dict, nil})
				r.mu.Unlock()
				os.Exit(r.conclude(t, false))
			}
		}
		r.mu.Unlock()
	}
}

func round(f float64) float64 { return float64(int64(f*100)) / 100 }

// known returns the committed findings of a property: key -> text.
func known(root, id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		// known: property=<id> key=<key> <what fails>
		fs := strings.SplitN(sc.Text(), " ", 4)
		if len(fs) == 4 && fs[0] == "known:" && fs[1] == "property="+id && strings.HasPrefix(fs[2], "key=") {
			out[strings.TrimPrefix(fs[2], "key=")] = fs[3]
		}
	}
	return out
}

func (r *Run) conclude(start time.Time, replay bool) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	kf := known(r.Root, r.P.ID)
	var fresh []Violation
	seen := map[string]bool{}
	for _, v := range r.viol {
		if txt, ok := kf[v.Key]; ok && v.Key != "" {
			if !seen[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.P.ID, txt)
				seen[v.Key] = true
			}
			continue
		}
		fresh = append(fresh, v)
	}
	rc := 0
	dir := filepath.Join(r.Root, "out")
	os.MkdirAll(dir, 0o755)
	for i, v := range fresh {
		if i >= 6 {
			break
		}
		rc = 1
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%s-%d-%d.json", v.Property, v.Variant, v.Stream, v.Index, i))
		b, err := json.MarshalIndent(v, "", " ")
		if err != nil {
			v.Detail = fmt.Sprintf("%+v", v.Detail)
			b, _ = json.MarshalIndent(v, "", " ")
		}
		os.WriteFile(path, b, 0o644)
		first := strings.SplitN(v.Message, "\n", 2)[0]
		if len(first) > 400 {
			first = first[:400]
		}
		fmt.Printf("  %s/%d: %s\n", v.Stream, v.Index, first)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
	}
	if len(r.incon) > 0 {
		for i, s := range r.incon {
			if i < 5 {
				fmt.Fprintln(os.Stderr, "inconclusive:", s)
			}
		}
		if rc == 0 && r.evals == int64(len(r.incon)) {
			rc = 2
		}
	}
	if replay {
		if rc == 0 {
			fmt.Println("replay: no violation")
		}
		return rc
	}
	sets := map[string]int{}
	for k, v := range r.sets {
		sets[k] = len(v)
	}
	for _, m := range r.perStr {
		delete(m, "sampled")
	}
	level := r.P.Level
	if level == "" {
		level = "exploration"
	}
	part := map[string]any{
		"evaluations":              r.evals,
		"distinct_nontrivial":      len(r.distinct),
		"rule":                     r.P.Rule,
		"samples":                  r.samples,
		"monitor_events":           r.events,
		"distinct_observed_states": sets,
		"streams":                  r.perStr,
		"notes":                    dedupe(r.notes),
		"inconclusive_cases":       len(r.incon),
	}
	if Extra != nil {
		for k, v := range Extra() {
			part[k] = v
		}
	}
	evp := filepath.Join(r.Root, "evidence", r.P.ID+".json")
	os.MkdirAll(filepath.Dir(evp), 0o755)
	ev := map[string]any{
		"property": r.P.ID, "tier": r.Tier, "seed": r.Seed, "level": level,
		"coverage": part, "assumptions": r.P.Assume,
		"wall_s": round(time.Since(start).Seconds()), "violations": len(fresh),
	}
	// later variants of the same check merge into the first one's file
	if os.Getenv("VERIF_MERGE") == "1" {
		if old, err := os.ReadFile(evp); err == nil {
			var o map[string]any
			if json.Unmarshal(old, &o) == nil && o["property"] == r.P.ID {
				oc, _ := o["coverage"].(map[string]any)
				if oc != nil {
					oc["evaluations"] = num(oc["evaluations"]) + float64(r.evals)
					oc["distinct_nontrivial"] = num(oc["distinct_nontrivial"]) + float64(len(r.distinct))
					oc["part_"+r.P.Variant] = part
					o["wall_s"] = round(num(o["wall_s"]) + time.Since(start).Seconds())
					o["violations"] = num(o["violations"]) + float64(len(fresh))
					ev = o
				}
			}
		}
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetIndent("", " ")
	if err := enc.Encode(ev); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	if err := os.WriteFile(evp, buf.Bytes(), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	keys := make([]string, 0, len(r.events))
	for k := range r.events {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s[%s/%s]: %d cases, %d distinct, %d monitor event kinds, %d violations, %.1fs\n",
		r.P.ID, r.Tier, r.P.Variant, r.evals, len(r.distinct), len(keys), len(fresh), time.Since(start).Seconds())
	return rc
}

func num(v any) float64 { f, _ := v.(float64); return f }

func dedupe(in []string) []string {
	seen := map[string]bool{}
	out := []string{}
	for _, s := range in {
		if !seen[s] && len(out) < 20 {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}
