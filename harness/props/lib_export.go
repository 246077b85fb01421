package props

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/kklash/mnemonikey"

	"verifharness/cli"
	"verifharness/rt"
	"verifharness/spec"
)

//go:embed golden.json
var goldenJSON []byte

// GoldenEntry is one recorded key of this release.
type GoldenEntry struct {
	P       Params
	Digests [6]string
}

// Golden is the recorded set: made with the stand-in and the real KDF.
type Golden struct{ Fast, Real []GoldenEntry }

// sixExports gives every unencrypted export of a key.
func sixExports(m *mnemonikey.Mnemonikey) (out [6][]byte, err error) {
	if out[0], err = m.EncodePGP(nil); err != nil {
		return
	}
	if out[1], err = m.EncodeSubkeysPGP(nil, true); err != nil {
		return
	}
	if out[2], err = m.EncodeSubkeysPGP(nil, false); err != nil {
		return
	}
	var s string
	if s, err = m.EncodePGPArmor(nil); err != nil {
		return
	}
	out[3] = []byte(s)
	if s, err = m.EncodeSubkeysPGPArmor(nil, true); err != nil {
		return
	}
	out[4] = []byte(s)
	if s, err = m.EncodeSubkeysPGPArmor(nil, false); err != nil {
		return
	}
	out[5] = []byte(s)
	return
}

var exportNames = [6]string{"full", "subkeys", "subkeys without self-certification", "armored full", "armored subkeys", "armored subkeys without self-certification"}

func digests(c *rt.Case, m *mnemonikey.Mnemonikey) (d [6]string) {
	e, err := sixExports(m)
	c.Check(err == nil, "export: %v", err)
	for i := range e {
		d[i] = digest(e[i])
	}
	c.EventN("exports digested", 6)
	return
}

func sameDigests(c *rt.Case, a, b [6]string, what string) {
	for i := range a {
		c.Check(a[i] == b[i], "%s export: %s", exportNames[i], what)
	}
}

// MakeGolden records the current tree's exports.
func MakeGolden(n int) []GoldenEntry {
	r := rand.New(rand.NewSource(20230101))
	var out []GoldenEntry
	for i := 0; i < n; i++ {
		p := genParams(r)
		if len(p.Name)+len(p.Email) > 300 && i%10 != 0 {
			p.Name, p.Email = "golden", "g@example.com"
		}
		p.Name = strings.ToValidUTF8(p.Name, "?")
		seed, err := mnemonikey.NewSeed(0, bigOf(p.Seed))
		if err != nil {
			panic(err)
		}
		m, err := mnemonikey.New(seed, p.creation(), p.opts())
		if err != nil {
			panic(err)
		}
		e, err := sixExports(m)
		if err != nil {
			panic(err)
		}
		g := GoldenEntry{P: p}
		for k := range e {
			g.Digests[k] = digest(e[k])
		}
		out = append(out, g)
	}
	return out
}

// wire is a parameter line for another process; names need not be UTF-8, so
// they travel as bytes.
type wireParams struct {
	P           Params
	Name, Email []byte
}

func (p Params) wire() []byte {
	b, err := json.Marshal(wireParams{p, []byte(p.Name), []byte(p.Email)})
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}

func fromWire(b []byte) Params {
	var w wireParams
	if err := json.Unmarshal(b, &w); err != nil {
		panic(err)
	}
	w.P.Name, w.P.Email = string(w.Name), string(w.Email)
	return w.P
}

// ChildProtected answers each parameter line with a password-protected export in hex.
func ChildProtected() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		p := fromWire(sc.Bytes())
		seed, err := mnemonikey.NewSeed(0, bigOf(p.Seed))
		if err != nil {
			panic(err)
		}
		m, err := mnemonikey.New(seed, p.creation(), p.opts())
		if err != nil {
			panic(err)
		}
		b, err := m.EncodePGP([]byte("same password"))
		if err != nil {
			panic(err)
		}
		fmt.Printf("%x\n", b)
	}
}

// ChildExport is the other process of C07: it answers parameter lines with
// export digests.
func ChildExport() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for sc.Scan() {
		p := fromWire(sc.Bytes())
		seed, err := mnemonikey.NewSeed(0, bigOf(p.Seed))
		if err != nil {
			panic(err)
		}
		m, err := mnemonikey.New(seed, p.creation(), p.opts())
		if err != nil {
			panic(err)
		}
		e, err := sixExports(m)
		if err != nil {
			panic(err)
		}
		var d [6]string
		for i := range e {
			d[i] = digest(e[i])
		}
		fmt.Fprintln(w, strings.Join(d[:], " "))
	}
}

var subsets = func() (out [][]string) {
	for m := 0; m < 8; m++ {
		s := []string{}
		for k := 0; k < 3; k++ {
			if m>>k&1 == 1 {
				s = append(s, spec.Subkeys[k])
			}
		}
		out = append(out, s)
	}
	return
}()

func golden(list func(Golden) []GoldenEntry) func(c *rt.Case) {
	var g Golden
	if err := json.Unmarshal(goldenJSON, &g); err != nil {
		panic(err)
	}
	l := list(g)
	return func(c *rt.Case) {
		if c.Index >= len(l) {
			return
		}
		e := l[c.Index]
		c.Input(e.P.desc())
		sameDigests(c, e.Digests, digests(c, build(c, e.P)), "differs from the one recorded from this release")
		c.Event("exports compared with the recorded release")
		c.Distinct(e.P)
	}
}

func goldenLen(list func(Golden) []GoldenEntry) int {
	var g Golden
	json.Unmarshal(goldenJSON, &g)
	return len(list(g))
}

func init() {
	fast := func(g Golden) []GoldenEntry { return g.Fast }
	real := func(g Golden) []GoldenEntry { return g.Real }
	rt.Register(&rt.Property{ID: "C07", Variant: "fast", Elsewhere: true,
		Rule:   "case = one key exported repeatedly, from fresh and recovered objects, in child processes with other environments, in all eight subkey selections, and compared with digests recorded from this release; distinct by inputs.",
		Assume: []string{"Argon2id replaced by a stand-in, except in the real-kdf stream"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "recorded-release", Quick: goldenLen(fast), Thorough: goldenLen(fast), Fn: golden(fast)},
				{Name: "repeat", Quick: 3000, Thorough: 100000, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					c.Input(p.desc())
					m := build(c, p)
					d := digests(c, m)
					for k := 0; k < 2; k++ {
						// interleave other calls, then compare
						switch c.R.Intn(5) {
						case 0:
							m.EncodeMnemonicPlaintext()
						case 1:
							m.EncodeMnemonicEncrypted([]byte("x"), &detReader{r: c.R})
						case 2:
							m.SubkeyTypes()
							m.Fingerprint()
						case 3:
							build(c, genParams(c.R)).EncodePGP(nil)
						case 4:
							rand.Int63() // perturb the global source
						}
						sameDigests(c, d, digests(c, m), "differs when repeated")
					}
					sameDigests(c, d, digests(c, build(c, p)), "differs for a freshly built key")
					rec, err := mnemonikey.RecoverPlaintext(spec.EncodePlain(p.Seed, p.Offset), p.opts())
					c.Check(err == nil, "recover: %v", err)
					sameDigests(c, d, digests(c, rec), "differs for a recovered key")
					pw := genPassword(c.R)
					rec, err = mnemonikey.RecoverEncrypted(spec.EncodeEncrypted(p.Seed, p.Offset, pw, genSalt(c.R)), pw, p.opts())
					c.Check(err == nil, "recover: %v", err)
					sameDigests(c, d, digests(c, rec), "differs for a key recovered from an encrypted phrase")
					c.Distinct(p)
				}},
				{Name: "long-lived", Quick: 16, Thorough: 400, Fn: func(c *rt.Case) {
					// one key object used very often, its seed and options
					// long forgotten
					p := genParams(c.R)
					if len(p.Name)+len(p.Email) > 300 {
						p.Name, p.Email = "long lived", ""
					}
					c.Input(p.desc())
					want := digests(c, build(c, p))
					m := build(c, p)
					runtime.GC()
					runtime.GC()
					words, err := m.EncodeMnemonicPlaintext()
					c.Check(err == nil, "phrase: %v", err)
					for k := 0; k < 300; k++ {
						if c.R.Intn(8) == 0 {
							m.UserID()
							m.Fingerprint()
							m.SubkeyTypes()
							m.Expiry()
						}
						if k%100 == 50 {
							runtime.GC()
						}
						sameDigests(c, want, digests(c, m), fmt.Sprintf("differs after %d exports of the same key", k))
					}
					again, err := m.EncodeMnemonicPlaintext()
					c.Check(err == nil && eqWords(words, again), "the phrase changed after many exports: %v", err)
					c.Distinct(p)
				}},
				{Name: "time-zones", Quick: 1500, Thorough: 30000, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					if p.Offset == spec.MaxOffset {
						p.Offset--
					}
					c.Input(p.desc())
					d := digests(c, build(c, p))
					m, err := mnemonikey.New(newSeed(c, p.Seed), time.Unix(p.unix(), genNanos(c.R)).In(genZone(c.R)), p.opts())
					c.Check(err == nil, "New: %v", err)
					sameDigests(c, d, digests(c, m), "depends on the zone or sub-second part of the creation time")
					c.Distinct(p)
				}},
				{Name: "selections", Quick: 1500, Thorough: 50000, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					p.Sel = nil
					c.Input(p.desc())
					full := cert(c, export(c, build(c, p)))
					for _, s := range subsets {
						q := p
						q.Sel = append([]string{}, s...)
						c.R.Shuffle(len(q.Sel), func(i, j int) { q.Sel[i], q.Sel[j] = q.Sel[j], q.Sel[i] })
						sub := cert(c, export(c, build(c, q)))
						c.Check(bytes.Equal(sub.MasterRaw, full.MasterRaw) && bytes.Equal(sub.UIDRaw, full.UIDRaw) && bytes.Equal(sub.SelfRaw, full.SelfRaw), "selection %v changes the master key packets", q.Sel)
						want := []string{}
						for _, f := range full.Subs {
							for _, k := range s {
								if f.Kind == k {
									want = append(want, k)
								}
							}
						}
						got := []string{}
						for _, x := range sub.Subs {
							got = append(got, x.Kind)
							f := full.Sub(x.Kind)
							c.Check(f != nil && bytes.Equal(f.Packet.Raw, x.Packet.Raw) && bytes.Equal(f.SigRaw, x.SigRaw), "selection %v changes the %s subkey's packets", q.Sel, x.Kind)
						}
						c.Check(eqWords(want, got), "selection %v gives the order %v, the full export %v", q.Sel, got, want)
						c.Event("selections compared with the full export")
						data, err := build(c, q).EncodeSubkeysPGP(nil, true)
						c.Check(err == nil, "EncodeSubkeysPGP: %v", err)
						stub := cert(c, data)
						c.Check(len(stub.Subs) == len(sub.Subs), "subkeys-only export has %d subkeys, full one %d", len(stub.Subs), len(sub.Subs))
						for i := range stub.Subs {
							c.Check(bytes.Equal(stub.Subs[i].Packet.Raw, sub.Subs[i].Packet.Raw) && bytes.Equal(stub.Subs[i].SigRaw, sub.Subs[i].SigRaw), "subkeys-only export differs in subkey %d", i)
						}
					}
					c.State("subkey orders", fmt.Sprint(full.Subs[0].Kind, full.Subs[1].Kind))
					c.Distinct(p)
				}},
				{Name: "processes", Quick: 6, Thorough: 60, Serial: true, Fn: func(c *rt.Case) {
					env := [][]string{
						{"TZ=America/New_York"}, {"TZ=Asia/Kathmandu", "LANG=tr_TR.UTF-8", "LC_ALL=C"},
						{"GOMAXPROCS=1", "GOGC=1"}, {"GODEBUG=randautoseed=0", "HOME=/nonexistent"},
						{"GODEBUG=randseednop=0", "TZ=UTC"}, {"USER=other", "SOURCE_DATE_EPOCH=1", "GODEBUG=cpu.all=off"},
					}[c.Index%6]
					c.Input(map[string]any{"env": env, "keys": 150})
					var in bytes.Buffer
					var want [][6]string
					for k := 0; k < 150; k++ {
						p := genParams(c.R)
						in.Write(p.wire())
						want = append(want, digests(c, build(c, p)))
						c.Distinct(p)
					}
					self, err := os.Executable()
					if err != nil {
						panic(err)
					}
					cmd := exec.Command(self, "-child-export")
					cmd.Env = append([]string{"PATH=/usr/bin:/bin"}, env...)
					cmd.Dir = "/"
					cmd.Stdin = &in
					var errb bytes.Buffer
					cmd.Stderr = &errb
					out, err := cmd.Output()
					c.Check(err == nil, "export process failed: %v: %.500s", err, errb.String())
					lines := strings.Split(strings.TrimSpace(string(out)), "\n")
					c.Check(len(lines) == len(want), "export process gave %d answers", len(lines))
					for i, l := range lines {
						var d [6]string
						copy(d[:], strings.Fields(l))
						sameDigests(c, want[i], d, fmt.Sprintf("differs in another process (%v)", env))
					}
					c.EventN("exports compared across processes", 6*len(want))
				}},
			}
		}})
	rt.Register(&rt.Property{ID: "C07", Variant: "real", Rule: "recorded release with the real Argon2id",
		Streams: func() []rt.Stream {
			return []rt.Stream{{Name: "recorded-release-real", Quick: 4, Thorough: goldenLen(real), Workers: 4, Limit: 120 * time.Second, Fn: golden(real)}}
		}})

	for _, v := range []string{"fast", "s2k"} {
		v := v
		k, huge, instants := 1, 2, 2
		assume := []string{"Argon2id replaced by a stand-in", "a window of 12 secret bytes occurring by chance in an export is impossible in practice"}
		if v == "s2k" {
			k, huge, instants = 14, 0, 0
			assume = append(assume, cheapS2K)
		}
		rt.Register(&rt.Property{ID: "C10", Variant: v, Elsewhere: true,
			Rule:   "case = one key exported with one password; every secret part is opened by an independent S2K/CFB implementation with the right and with wrong passwords, the output is scanned for secret bytes, and no 8 bytes of any salt or IV of the whole run (several processes included) may repeat, nor may any of their bits be constant; distinct by inputs.",
			Assume: assume,
			Streams: func() []rt.Stream {
				l := c10streams(k, huge, instants)
				if v == "s2k" {
					l = append(l, rt.Stream{Name: "count-boundary", Quick: 60, Thorough: 600, Fn: func(c *rt.Case) {
						pw := make([]byte, 65536-8-20+c.Index%60)
						if c.Index >= 60 {
							pw = make([]byte, 30000+c.R.Intn(60000))
						}
						c.R.Read(pw)
						c10run(c, Params{Seed: genSeed(c.R), Offset: genOffset(c.R), Sel: []string{pick(c.R, spec.Subkeys)}, Name: "b"}, pw, func(*rt.Case, *spec.S2K) {})
					}})
				}
				return l
			}})
	}

	rt.Register(&rt.Property{ID: "C11", Variant: "fast", Elsewhere: true,
		Rule:   "case = one key with one subkey selection in all export modes (library), or one recover command with -only/-self-cert; the output is parsed and scanned for secret bytes; distinct by inputs.",
		Assume: []string{"Argon2id replaced by a stand-in", "a window of 12 secret bytes occurring by chance in an export is impossible in practice"},
		Streams: func() []rt.Stream {
			run := func(c *rt.Case, p Params) {
				c.Input(p.desc())
				m := build(c, p)
				root := p.root()
				e, err := sixExports(m)
				c.Check(err == nil, "export: %v", err)
				for i := 0; i < 6; i++ {
					data := e[i]
					if i >= 3 {
						data, err = spec.Dearmor(string(e[i]))
						c.Check(err == nil, "armor: %v", err)
					}
					c11judge(c, data, p, root, i%3 == 0, i%3 != 2, exportNames[i])
				}
				c.Distinct(p)
			}
			return []rt.Stream{
				{Name: "all-selections", Quick: 8 * 120, Thorough: 8 * 4000, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					p.Sel = append([]string{}, subsets[c.Index%8]...)
					run(c, p)
				}},
				{Name: "random", Quick: 1500, Thorough: 60000, Fn: func(c *rt.Case) { run(c, genParams(c.R)) }},
				{Name: "zero-bytes", Quick: 24, Thorough: 200, Fn: func(c *rt.Case) {
					if p, ok := steered(c); ok {
						run(c, p)
					}
				}},
				{Name: "protected", Quick: 48, Thorough: 1500, Limit: 60 * time.Second, Fn: c11protected},
				{Name: "cli", Here: true, Quick: 400, Thorough: 8000, Fn: c11cli},
				{Name: "cli-passwords", Here: true, Quick: 60, Thorough: 3000, Fn: c11passwords},
			}
		}})

	rt.Register(&rt.Property{ID: "C11", Variant: "s2k", Rule: "as above, with passwords", Assume: []string{cheapS2K},
		Streams: func() []rt.Stream {
			return []rt.Stream{{Name: "protected", Quick: 2000, Thorough: 60000, Fn: c11protected}}
		}})

	rt.Register(&rt.Property{ID: "C12", Variant: "fast", Elsewhere: true,
		Rule:    "case = one random source behaviour (content, chunking, failure point) given to GenerateSeed or phrase encryption, or one generate command; distinct by source content and behaviour.",
		Assume:  []string{"Argon2id replaced by a stand-in", "the operating system's random source is trusted"},
		Streams: c12streams})
}

// leaks scans an output for secret bytes. all: also the subkey secrets.
func leaks(c *rt.Case, data, text []byte, root []byte, p Params, all bool) {
	var secrets [][]byte
	add := func(name string, idx uint16) {
		s := spec.Derive(root, name, idx).Secret
		rev := make([]byte, len(s))
		for i := range s {
			rev[len(s)-1-i] = s[i]
		}
		secrets = append(secrets, s, rev)
		if name == "encryption" {
			secrets = append(secrets, spec.SubkeySeed(root, name, idx))
		}
	}
	add("master", 0)
	secrets = append(secrets, root, p.Seed[:])
	if all {
		for _, k := range spec.Subkeys {
			add(k, p.index(k))
		}
	}
	uid := []byte(p.uid())
	for _, s := range secrets {
		for i := 0; i+12 <= len(s); i++ {
			w := s[i : i+12]
			if low(w) { // structured test seeds
				continue
			}
			if bytes.Contains(data, w) && !bytes.Contains(uid, w) {
				c.Fail("secret bytes %x occur in the output at offset %d", w, bytes.Index(data, w))
			}
			h := []byte(hex.EncodeToString(w))
			if bytes.Contains(text, h) || bytes.Contains(text, bytes.ToUpper(h)) || bytes.Contains(data, h) {
				c.Fail("secret bytes %x occur in the output in hex", w)
			}
			b := []byte(base64.StdEncoding.EncodeToString(w))
			if len(text) > 0 && bytes.Contains(bytes.ReplaceAll(text, []byte("\n"), nil), b) {
				c.Fail("secret bytes %x occur in the output in base64", w)
			}
		}
	}
	c.Event("outputs scanned for secret bytes")
}

// low tells windows with little variety, which structured seeds have.
func low(w []byte) bool {
	m := map[byte]bool{}
	for _, b := range w {
		m[b] = true
	}
	return len(m) < 7
}

func c11judge(c *rt.Case, data []byte, p Params, root []byte, full, selfCert bool, what string) {
	ct := cert(c, data)
	checkSelection(c, ct, p)
	form, sec, _, err := ct.Master.SecretPart()
	c.Check(err == nil, "%s: master: %v", what, err)
	want := spec.Derive(root, "master", 0)
	c.Check(bytes.Equal(ct.Master.Point, want.Public), "%s: wrong master public key", what)
	if full {
		c.Check(form == spec.Plain && bytes.Equal(sec, want.Secret), "%s: master secret missing or wrong (%v)", what, form)
	} else {
		c.Check(form == spec.Stub, "%s: master secret is %s, want a stub", what, form)
		leaks(c, data, nil, root, p, false)
		c.Event("stub exports scanned for the master secret")
	}
	for _, s := range ct.Subs {
		w := spec.Derive(root, s.Kind, p.index(s.Kind))
		sec := plainSecret(c, s.Key, s.Kind)
		c.Check(bytes.Equal(sec, w.Secret) && bytes.Equal(s.Key.Point, w.Public), "%s: %s subkey is not the selected one", what, s.Kind)
	}
	c.Check((ct.SelfCert != nil) == selfCert, "%s: self-certification present %v, want %v", what, ct.SelfCert != nil, selfCert)
	c.Event("exports judged against the selection")
}

var _ io.Reader

// cheapS2K is what the s2k variant assumes.
const cheapS2K = "the S2K iteration count of the library is lowered from the maximum for throughput (the fast variant keeps it)"

// s2kCount is the iteration count octet of the library under test.
var s2kCount byte = 0xFF

// SetS2KCount tells which iteration count octet the library was built with.
func SetS2KCount(b byte) { s2kCount = b }

func c10streams(k, huge, instants int) []rt.Stream {
	var mu sync.Mutex
	// every 8-byte window of every salt and IV of the run, and which
	// of their bits were seen set and clear
	windows := map[string]string{}
	var ones, zeros [24]byte
	keys := 0
	fresh := func(c *rt.Case, s2k *spec.S2K) {
		mu.Lock()
		defer mu.Unlock()
		all := append(append([]byte{}, s2k.Salt...), s2k.IV...)
		for i, b := range all {
			ones[i] |= b
			zeros[i] |= ^b
		}
		keys++
		for _, part := range []struct {
			name string
			b    []byte
		}{{"salt", s2k.Salt}, {"IV", s2k.IV}} {
			for i := 0; i+8 <= len(part.b); i++ {
				w := string(part.b[i : i+8])
				prev := windows[w]
				windows[w] = part.name
				c.Check(prev == "", "%s %x is not fresh: %x was part of the %s of this or another key", part.name, part.b, w, prev)
			}
		}
		c.Event("salts and IVs in the freshness set")
	}
	run := func(c *rt.Case, p Params, pw []byte) { c10run(c, p, pw, fresh) }
	return []rt.Stream{
		{Name: "random", Quick: 260 * k, Thorough: 30000 * k, Limit: 100 * time.Second, Min: 40, Fn: func(c *rt.Case) {
			p := genParams(c.R)
			if c.Index%4 != 0 && len(p.selected()) == 0 {
				p.Sel = nil
			}
			if len(p.Name)+len(p.Email) > 3000 {
				p.Name = "x"
			}
			if len(p.selected()) == 0 && c.Index%2 == 1 {
				p.Sel = nil
			}
			run(c, p, genPassword(c.R))
		}},
		{Name: "password-lengths", Quick: 72 * k, Thorough: 1000 * k, Limit: 60 * time.Second, Fn: func(c *rt.Case) {
			pw := make([]byte, 1+c.Index%4096)
			c.R.Read(pw)
			run(c, Params{Seed: genSeed(c.R), Offset: genOffset(c.R), Sel: []string{pick(c.R, spec.Subkeys)}, Name: "l"}, pw)
		}},
		{Name: "zero-bytes", Quick: 24 * k, Thorough: 300 * k, Limit: 60 * time.Second, Fn: func(c *rt.Case) {
			if p, ok := steered(c); ok {
				run(c, p, genPassword(c.R))
			}
		}},
		{Name: "spare-capacity", Quick: 16 * k, Thorough: 200 * k, Limit: 60 * time.Second, Fn: func(c *rt.Case) {
			// a password slice with bytes behind its end
			pw := genPassword(c.R)
			buf := append(append(make([]byte, 0, len(pw)+64), pw...), bytes.Repeat([]byte{0xA5}, 64)...)
			keep := append([]byte{}, buf...)
			run(c, Params{Seed: genSeed(c.R), Offset: genOffset(c.R), Sel: []string{"signing"}}, buf[:len(pw)])
			c.Check(bytes.Equal(buf, keep), "the password buffer was modified")
		}},
		{Name: "other-processes", Quick: 2, Thorough: 20, Serial: true, Fn: func(c *rt.Case) {
			// the same key and password at the same moment in several processes
			p := Params{Seed: genSeed(c.R), Offset: genOffset(c.R), Sel: []string{"signing"}}
			c.Input(p.desc())
			line := p.wire()
			self, err := os.Executable()
			if err != nil {
				panic(err)
			}
			const n = 4
			outs, errs := make([][]byte, n), make([]error, n)
			var wg sync.WaitGroup
			for k := 0; k < n; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					cmd := exec.Command(self, "-child-protected")
					cmd.Env = append(os.Environ(), "GODEBUG=randautoseed=0")
					cmd.Stdin = bytes.NewReader(line)
					outs[k], errs[k] = cmd.Output()
				}(k)
			}
			wg.Wait()
			for k := range outs {
				c.Check(errs[k] == nil, "export process failed: %v", errs[k])
				data, err := hex.DecodeString(strings.TrimSpace(string(outs[k])))
				c.Check(err == nil, "export process: %v", err)
				ct := cert(c, data)
				for _, key := range []*spec.Key{ct.Master, ct.Subs[0].Key} {
					form, _, s2k, err := key.SecretPart()
					c.Check(err == nil && form == spec.Encrypted, "protected export in another process: %v %v", form, err)
					fresh(c, s2k)
				}
			}
			c.Distinct(p)
		}},
		{Name: "same-instant", Quick: instants, Thorough: 4 * instants, Hang: 6 * time.Minute, Serial: true, Fn: func(c *rt.Case) {
			// the command, the same key and password, and the same time of day
			p := Params{Seed: genSeed(c.R), Offset: genOffset(c.R), Sel: []string{"signing"}}
			c.Input(p.desc())
			dir := cli.Scratch()
			defer os.RemoveAll(dir)
			in := writeWords(dir, "in", spec.EncodePlain(p.Seed, p.Offset))
			o := cli.SessOpt{Opt: cli.Opt{Args: []string{"recover", "-in-word-file", in, "-encrypt-keys", "-only", "master,signing"}, Env: []string{"GODEBUG=randautoseed=0"}}, Cols: 80, Rows: 24}
			if cli.Clocked {
				o.Env = append(o.Env, cli.Clock(time.Unix(1700000000, int64(c.R.Intn(1000000000)))))
			}
			const n = 3
			var res [n]cli.Result
			var msgs [n]string
			var wg sync.WaitGroup
			for k := 0; k < n; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					res[k], _, msgs[k] = drive(o, pwSteps(promptKey, "same password", true)...)
				}(k)
			}
			wg.Wait()
			for k := range res {
				c.Check(msgs[k] == "" && res[k].Exit == 0, "%q: %s %v", o.Args, msgs[k], res[k])
				data, err := spec.Dearmor(strings.TrimSuffix(string(res[k].Stdout), "\n"))
				c.Check(err == nil, "%q: output is not armor: %v", o.Args, err)
				ct := cert(c, data)
				c.Check(len(ct.Subs) == 1, "%q: %d subkeys", o.Args, len(ct.Subs))
				for _, key := range []*spec.Key{ct.Master, ct.Subs[0].Key} {
					form, _, s2k, err := key.SecretPart()
					c.Check(err == nil && form == spec.Encrypted, "protected export by the command: %v %v", form, err)
					fresh(c, s2k)
				}
			}
			c.Event("exports at the same instant")
			c.Distinct(p)
		}},
		{Name: "bit-coverage", Quick: 1, Thorough: 1, Serial: true, Fn: func(c *rt.Case) {
			c.Input("all salts and IVs of the run")
			for keys < 100 { // when replayed alone
				p := Params{Seed: genSeed(c.R), Offset: genOffset(c.R)}
				run(c, p, genPassword(c.R))
			}
			for i := range ones {
				c.Check(ones[i] == 0xFF && zeros[i] == 0xFF, "in %d salts and IVs, some bits of byte %d (salt 0-7, IV 8-23) never change: set in %08b, clear in %08b", keys, i, ones[i], zeros[i])
			}
			c.Event("salt and IV bit coverage judged")
		}},
		{Name: "huge-password", Quick: huge, Thorough: 4 * huge, Serial: true, Fn: func(c *rt.Case) {
			pw := make([]byte, []int{70 << 20, 65011712 - 8}[c.Index%2])
			c.R.Read(pw)
			run(c, Params{Seed: genSeed(c.R), Offset: genOffset(c.R), Sel: []string{"signing"}}, pw)
		}},
	}
}

// c10run judges one password-protected export, sometimes followed by others
// of the same key: with the same and with other passwords, in the same and in
// other forms.
func c10run(c *rt.Case, p Params, pw []byte, fresh func(*rt.Case, *spec.S2K)) {
	in := p.desc()
	in["password"] = hex.EncodeToString(pw)
	if len(pw) > 100 {
		in["password"] = fmt.Sprintf("%d bytes", len(pw))
	}
	mode := c.Index % 4
	modes, pws := []int{mode}, [][]byte{pw}
	if len(pw) < 10000 && (s2kCount != 0xFF || c.R.Intn(8) == 0) {
		for k := c.R.Intn(4); k > 0; k-- {
			mo, w := modes[c.R.Intn(len(modes))], pws[c.R.Intn(len(pws))]
			switch c.R.Intn(4) {
			case 0:
				mo = c.R.Intn(4)
			case 1:
				w = genPassword(c.R)
			case 2:
				mo ^= 2
			}
			modes, pws = append(modes, mo), append(pws, w)
		}
	}
	in["modes"] = modes // 0 full, 1 subkeys, 2 armored full, 3 armored subkeys
	if len(pws) > 1 {
		in["passwords"] = fmt.Sprintf("%x", pws)
	}
	c.Input(in)
	m := build(c, p)
	for i := range modes {
		c10export(c, m, p, modes[i], pws[i], fresh)
	}
	c.Distinct(p, pw)
	c.State("export histories", fmt.Sprint(modes))
}

func c10export(c *rt.Case, m *mnemonikey.Mnemonikey, p Params, mode int, pw []byte, fresh func(*rt.Case, *spec.S2K)) {
	given := pw
	pw = append([]byte{}, pw...)
	var data, plain []byte
	var text string
	var err error
	switch mode {
	case 0:
		data, err = m.EncodePGP(given)
	case 1:
		data, err = m.EncodeSubkeysPGP(given, c.R.Intn(2) == 0)
	case 2:
		text, err = m.EncodePGPArmor(given)
	case 3:
		text, err = m.EncodeSubkeysPGPArmor(given, c.R.Intn(2) == 0)
	}
	c.Check(err == nil, "protected export: %v", err)
	if text != "" {
		data, err = spec.Dearmor(text)
		c.Check(err == nil, "armor: %v", err)
	}
	ct := cert(c, data)
	checkSelection(c, ct, p)
	root := p.root()
	full := mode%2 == 0
	plainKey := m // its own plain export, or that of an equal key
	if c.R.Intn(2) == 0 {
		plainKey = build(c, p)
	}
	if full {
		plain, err = plainKey.EncodePGP(nil)
	} else {
		plain, err = plainKey.EncodeSubkeysPGP(nil, ct.SelfCert != nil)
	}
	c.Check(err == nil, "plain export: %v", err)
	pc := cert(c, plain)
	// public parts and signatures unchanged
	c.Check(bytes.Equal(pc.SelfRaw, ct.SelfRaw) && pc.UID == ct.UID && bytes.Equal(pc.Master.PublicBody, ct.Master.PublicBody), "protection changed the master's public part")
	c.Check(len(pc.Subs) == len(ct.Subs), "protection changed the number of subkeys")
	for i := range pc.Subs {
		c.Check(pc.Subs[i].Kind == ct.Subs[i].Kind && bytes.Equal(pc.Subs[i].Key.PublicBody, ct.Subs[i].Key.PublicBody) && bytes.Equal(pc.Subs[i].SigRaw, ct.Subs[i].SigRaw), "protection changed subkey %d", i)
	}
	type kk struct {
		name string
		k    *spec.Key
	}
	var ks []kk
	if full {
		ks = append(ks, kk{"master", ct.Master})
	} else {
		form, _, _, err := ct.Master.SecretPart()
		c.Check(err == nil && form == spec.Stub, "master of a subkeys-only export is %v (%v)", form, err)
	}
	for _, s := range ct.Subs {
		ks = append(ks, kk{s.Kind, s.Key})
	}
	for i, x := range ks {
		form, _, s2k, err := x.k.SecretPart()
		c.Check(err == nil, "%s: %v", x.name, err)
		c.Check(form == spec.Encrypted, "%s secret is %s in a password-protected export", x.name, form)
		c.Check(s2k.Count == s2kCount, "%s: S2K count octet %#x, published is the maximum", x.name, s2k.Count)
		fresh(c, s2k)
		sec, ok, err := s2k.Open(pw)
		c.Check(err == nil, "%s: decrypted content: %v", x.name, err)
		c.Check(ok, "%s: the password does not decrypt the secret", x.name)
		want := spec.Derive(root, x.name, p.index(x.name))
		c.Check(bytes.Equal(sec, want.Secret), "%s decrypts to %x, want %x", x.name, sec, want.Secret)
		c.Event("secrets decrypted and compared")
		if i == c.Index/4%len(ks) { // one wrong password per case
			w := variants(c.R, pw)[c.R.Intn(8)]
			if c.R.Intn(6) == 0 {
				w = []byte{}
			}
			_, ok, _ := s2k.Open(w)
			c.Check(!ok || s2k.Same(w, pw), "%s: wrong password %x passes the integrity check (right: %x)", x.name, w, pw)
			c.Event("wrong passwords refused")
		}
	}
	leaks(c, data, []byte(text), root, p, true)
	c.Check(bytes.Equal(pw, given), "the export changed the caller's password")
}

func c11protected(c *rt.Case) {
	p := genParams(c.R)
	p.Sel = append([]string{}, subsets[c.Index%8]...)
	c.Input(p.desc())
	pw := genPassword(c.R)
	m := build(c, p)
	full := c.Index/8%2 == 0
	sc := full || c.R.Intn(2) == 0
	var data []byte
	var err error
	if full {
		data, err = m.EncodePGP(pw)
	} else {
		data, err = m.EncodeSubkeysPGP(pw, sc)
	}
	c.Check(err == nil, "export: %v", err)
	ct := cert(c, data)
	checkSelection(c, ct, p)
	form, _, _, err := ct.Master.SecretPart()
	want := spec.Stub
	if full {
		want = spec.Encrypted
	}
	c.Check(err == nil && form == want, "master secret form %v (%v), want %v", form, err, want)
	c.Check((ct.SelfCert != nil) == sc, "self-certification present %v, want %v", ct.SelfCert != nil, sc)
	leaks(c, data, nil, p.root(), p, true)
	c.Distinct(p, pw)
}
