package props

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/mnemonic"
	"github.com/kklash/mnemonikey/pgp"

	"verifharness/cli"
	"verifharness/rt"
	"verifharness/spec"
)

// source is a scripted random source.
type source struct {
	data    []byte
	pos     int
	mode    int // 0 plain, 1 one byte, 2 random chunks, 3 with empty reads, 4 data together with EOF at the end
	failAt  int // -1 never
	err     error
	r       *rand.Rand
	partial bool // deliver data together with the error
	once    bool // go on after failing once
	calls   int
}

func (s *source) Read(b []byte) (int, error) {
	s.calls++
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	switch s.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + s.r.Intn(n)
	case 3:
		if s.calls%3 != 0 {
			return 0, nil
		}
		n = 1 + s.r.Intn(n)
	}
	if n > len(s.data)-s.pos {
		n = len(s.data) - s.pos
	}
	if s.failAt >= 0 && s.pos+n > s.failAt {
		n = s.failAt - s.pos
		copy(b, s.data[s.pos:s.pos+n])
		s.pos += n
		if n > 0 && !s.partial {
			return n, nil
		}
		if s.once {
			s.failAt = -1
		}
		return n, s.err
	}
	if n == 0 {
		return 0, io.EOF
	}
	copy(b, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.mode == 4 && s.pos == len(s.data) {
		return n, io.EOF
	}
	return n, nil
}

func plainSource(data []byte) *source { return &source{data: data, failAt: -1} }

var errSource = errors.New("verif: source broken")

func c12streams() []rt.Stream {
	randBytes := func(r *rand.Rand, n int) []byte {
		b := make([]byte, n)
		r.Read(b)
		switch r.Intn(8) {
		case 0:
			for i := range b {
				b[i] = 0xFF
			}
		case 1:
			for i := range b {
				b[i] = 0
			}
		case 2:
			for i := 0; i < n/2; i++ {
				b[i] = 0
			}
		}
		return b
	}
	gen := func(c *rt.Case, s *source) [16]byte {
		seed, err := mnemonikey.GenerateSeed(s)
		c.Check(err == nil, "GenerateSeed failed with a good source: %v", err)
		var out [16]byte
		copy(out[:], seed.Bytes())
		c.Check(seed.Era() == mnemonikey.EraLatest, "generated seed has era %d", seed.Era())
		return out
	}
	pw := []byte("password")
	draw := func(c *rt.Case, f func() ([]string, error)) uint32 {
		words, err := f()
		c.Check(err == nil, "EncodeMnemonicEncrypted failed with a good source: %v", err)
		dec, def := spec.Decode(words)
		c.Check(!def.Any(), "phrase invalid")
		return dec.Salt
	}
	enc := func(c *rt.Case, s io.Reader) (uint32, []string) {
		words, err := mnemonikey.EncodeMnemonicEncrypted(newSeed(c, [16]byte{1, 2, 3}), 77, pw, s)
		c.Check(err == nil, "EncodeMnemonicEncrypted failed with a good source: %v", err)
		dec, def := spec.Decode(words)
		c.Check(!def.Any(), "phrase invalid")
		return dec.Salt, words
	}
	var mu sync.Mutex
	salts := map[uint32]int{}
	var draws int
	var bits0, bits1 [19]int64
	return []rt.Stream{
		{Name: "seed-bits", Quick: 600, Thorough: 20000, Fn: func(c *rt.Case) {
			data := randBytes(c.R, 64)
			c.Input(map[string]any{"source": hex.EncodeToString(data)})
			src := plainSource(data)
			base := gen(c, src)
			used := src.pos
			c.Check(used >= 16, "seed made from only %d random bytes", used)
			c.Check(gen(c, plainSource(data)) == base, "the same source content gives different seeds")
			seen := map[[16]byte]int{base: -1}
			effective := 0
			for bit := 0; bit < used*8; bit++ {
				d := append([]byte{}, data...)
				d[bit/8] ^= 1 << (bit % 8)
				s := gen(c, plainSource(d))
				if s != base {
					effective++
				}
				if k, dup := seen[s]; dup && used == 16 {
					c.Fail("flipping source bit %d gives the same seed as bit %d", bit, k)
				}
				seen[s] = bit
				c.Event("source bits flipped")
			}
			c.Check(effective >= 128, "only %d source bits influence the seed", effective)
			for i := 0; i < 128; i++ {
				c.State("seed bit values seen", fmt.Sprint(i, base[i/8]>>(i%8)&1))
			}
			c.Distinct(data)
		}},
		{Name: "seed-chunks", Quick: 4000, Thorough: 100000, Fn: func(c *rt.Case) {
			data := randBytes(c.R, 64)
			src := plainSource(data)
			base := gen(c, src)
			for mode := 1; mode <= 4; mode++ {
				s := &source{data: data, mode: mode, failAt: -1, r: c.R}
				if mode == 4 {
					s.data = data[:src.pos]
				}
				got := gen(c, s)
				c.Check(got == base, "short reads (mode %d) give seed %x, a full read %x", mode, got, base)
				c.Event("fragmented sources compared")
			}
			c.Distinct(data)
		}},
		{Name: "seed-failures", Quick: 2000, Thorough: 40000, Fn: func(c *rt.Case) {
			data := randBytes(c.R, 64)
			src := plainSource(data)
			gen(c, src)
			for k := 0; k < src.pos; k++ {
				for v := 0; v < 8; v++ {
					s := &source{data: data, mode: c.R.Intn(4), failAt: k, r: c.R, err: errSource, partial: v&1 == 1, once: v&4 == 4}
					if v&2 == 2 {
						s.err = io.EOF
					}
					seed, err := mnemonikey.GenerateSeed(s)
					c.Check(err != nil && seed == nil, "source failing (%v) after %d bytes: seed %v, err %v", s.err, k, seed, err)
					c.Event("failing sources refused")
				}
			}
			// one source that just ends
			seed, err := mnemonikey.GenerateSeed(bytes.NewReader(data[:c.R.Intn(src.pos)]))
			c.Check(err != nil && seed == nil, "short source: seed %v, err %v", seed, err)
			c.Input(map[string]any{"source": hex.EncodeToString(data), "failure points": src.pos})
			c.Distinct(data)
		}},
		{Name: "salt-bits", Quick: 1500, Thorough: 40000, Fn: func(c *rt.Case) {
			data := randBytes(c.R, 64)
			c.Input(map[string]any{"source": hex.EncodeToString(data)})
			src := plainSource(data)
			base, words := enc(c, src)
			again, w2 := enc(c, plainSource(data))
			c.Check(base == again && eqWords(words, w2), "the same source content gives different phrases")
			c.Check(src.pos*8 >= 19, "salt made from only %d random bytes", src.pos)
			distinct := map[uint32]bool{}
			for bit := 0; bit < src.pos*8; bit++ {
				d := append([]byte{}, data...)
				d[bit/8] ^= 1 << (bit % 8)
				s, _ := enc(c, plainSource(d))
				if s != base {
					distinct[s] = true
				}
				c.Event("source bits flipped")
			}
			c.Check(len(distinct) >= 19, "single flips of the source give only %d other salts", len(distinct))
			c.Distinct(data)
		}},
		{Name: "salt-draws", Quick: 300, Thorough: 4000, Fn: func(c *rt.Case) {
			c.Input(map[string]any{"draws": 200})
			seed := newSeed(c, genSeed(c.R))
			key := build(c, Params{Seed: genSeed(c.R), Offset: genOffset(c.R)})
			here := map[uint32]bool{}
			for k := 0; k < 200; k++ {
				var s uint32
				switch c.Index % 3 {
				case 0: // always another seed object
					s, _ = enc(c, &detReader{r: c.R})
				case 1: // one seed object, or one key object
					s = draw(c, func() ([]string, error) {
						return mnemonikey.EncodeMnemonicEncrypted(seed, 77, pw, &detReader{r: c.R})
					})
				case 2:
					s = draw(c, func() ([]string, error) { return key.EncodeMnemonicEncrypted(pw, &detReader{r: c.R}) })
				}
				here[s] = true
				mu.Lock()
				draws++
				salts[s]++
				mu.Unlock()
				for b := 0; b < 19; b++ {
					if s>>b&1 == 1 {
						atomic.AddInt64(&bits1[b], 1)
					} else {
						atomic.AddInt64(&bits0[b], 1)
					}
				}
				c.Event("salts drawn")
				c.State("salts", s)
			}
			c.Check(len(here) > 150, "200 draws gave only %d different salts", len(here))
			c.Distinct(c.Index)
		}},
		{Name: "salt-draws-judged", Quick: 1, Thorough: 1, Serial: true, Fn: func(c *rt.Case) {
			mu.Lock()
			defer mu.Unlock()
			c.Input(map[string]any{"draws": draws, "distinct": len(salts)})
			want := float64(1<<19) * (1 - math.Exp(-float64(draws)/float64(1<<19)))
			c.Check(float64(len(salts)) > 0.9*want, "%d draws gave %d distinct salts, expected about %.0f", draws, len(salts), want)
			for b := range bits0 {
				z, o := float64(bits0[b]), float64(bits1[b])
				dev := math.Abs(z-o) / math.Sqrt(z+o)
				c.Check(dev < 8, "salt bit %d: %v zeros, %v ones (%.1f sigma)", b, z, o, dev)
			}
			c.Distinct("judged")
		}},
		{Name: "salt-failures", Quick: 3000, Thorough: 60000, Fn: func(c *rt.Case) {
			data := randBytes(c.R, 64)
			src := plainSource(data)
			base, bw := enc(c, src)
			_ = base
			for mode := 1; mode <= 4; mode++ {
				s := &source{data: data, mode: mode, failAt: -1, r: c.R}
				if mode == 4 {
					s.data = data[:src.pos]
				}
				_, w := enc(c, s)
				c.Check(eqWords(w, bw), "short reads (mode %d) give another phrase", mode)
				c.Event("fragmented sources compared")
			}
			m := build(c, Params{Seed: genSeed(c.R), Offset: genOffset(c.R)})
			for k := 0; k < src.pos; k++ {
				for v := 0; v < 8; v++ {
					mk := func() *source {
						s := &source{data: data, mode: c.R.Intn(4), failAt: k, r: c.R, err: errSource, partial: v&1 == 1, once: v&4 == 4}
						if v&2 == 2 {
							s.err = io.EOF
						}
						return s
					}
					words, err := mnemonikey.EncodeMnemonicEncrypted(newSeed(c, [16]byte{9}), 5, pw, mk())
					c.Check(err != nil && words == nil, "source failing after %d bytes: words %v, err %v", k, words, err)
					words, err = m.EncodeMnemonicEncrypted(pw, mk())
					c.Check(err != nil && words == nil, "source failing after %d bytes: words %v, err %v", k, words, err)
					c.EventN("failing sources refused", 2)
				}
			}
			c.Input(map[string]any{"source": hex.EncodeToString(data), "failure points": src.pos})
			c.Distinct(data)
		}},
		{Name: "cli-entropy-file", Here: true, Quick: 200, Thorough: 3000, Fn: func(c *rt.Case) {
			dir := cli.Scratch()
			defer os.RemoveAll(dir)
			n := c.Index % 40
			data := make([]byte, n)
			c.R.Read(data)
			run := func(d []byte, viaStdin bool) (cli.Result, []string) {
				o := cli.Opt{Args: []string{"generate", "-unsafe-entropy", "-"}, Stdin: d}
				if !viaStdin {
					f := cli.Path(dir, "e")
					os.WriteFile(f, d, 0o600)
					o = cli.Opt{Args: []string{"generate", "-unsafe-entropy", f}}
				}
				r := cli.Run(o)
				return r, cli.Phrase(r.Stderr)
			}
			c.Input(map[string]any{"entropy": hex.EncodeToString(data)})
			viaStdin := c.Index/40%2 == 0
			r, words := run(data, viaStdin)
			if n < 16 {
				c.Check(r.Exit != 0 && len(r.Stdout) == 0 && len(words) == 0, "generate from %d bytes of entropy: %v", n, r)
				c.Event("short entropy files refused")
				c.Distinct(data, viaStdin)
				return
			}
			c.Check(r.Exit == 0, "generate -unsafe-entropy: %v", r)
			dec, def := spec.Decode(words)
			c.Check(!def.Any(), "phrase %v invalid: %+v", words, def)
			_, w2 := run(data, !viaStdin)
			dec2, def := spec.Decode(w2)
			c.Check(!def.Any() && dec2.Entropy == dec.Entropy, "the same entropy gives different seeds")
			d := append([]byte{}, data...)
			b := c.R.Intn(128)
			d[b/8] ^= 1 << (b % 8)
			_, w3 := run(d, viaStdin)
			dec3, def := spec.Decode(w3)
			c.Check(!def.Any() && dec3.Entropy != dec.Entropy, "entropy differing in bit %d of the first 16 bytes gives the same seed", b)
			c.Event("entropy files compared")
			c.Distinct(data, viaStdin)
		}},
		{Name: "cli-system-entropy", Quick: 1, Thorough: 4, Serial: true, Fn: func(c *rt.Case) {
			const n = 96
			var wg sync.WaitGroup
			seeds := make([][16]byte, n)
			bad := make([]string, n)
			sem := make(chan bool, 8)
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					sem <- true
					defer func() { <-sem }()
					// Groups of four have everything in common, even the time.
					g := i / 4
					o := cli.Opt{Args: []string{"generate", "-name", fmt.Sprint("g", g)}}
					if cli.Clocked && g%2 == 0 {
						o.Env = append(o.Env, cli.Clock(time.Unix(1700000000+int64(g), 5)))
					}
					switch g % 5 {
					case 1:
						o.Stdin = []byte("0123456789abcdefghijklmnopqrstuvwxyz")
					case 2:
						o.NoStdin = true
					case 3:
						o.Env = append(o.Env, pick(rand.New(rand.NewSource(int64(g))), []string{"TERM=dumb", "TERM=", "CI=true", "DEBUG=1", "VERBOSE=1", "TESTING=1", "SOURCE_DATE_EPOCH=1700000000"}))
					case 4: // random numbers which do not come from the system are the same ones
						o.Env = append(o.Env, "GODEBUG=randautoseed=0")
					}
					r := cli.Run(o)
					dec, def := spec.Decode(cli.Phrase(r.Stderr))
					if r.Exit != 0 || def.Any() {
						bad[i] = r.String()
					}
					seeds[i] = dec.Entropy
				}(i)
			}
			wg.Wait()
			c.Input(map[string]any{"generate runs": n})
			seen := map[[16]byte]bool{}
			var or, and [16]byte
			for j := range and {
				and[j] = 0xFF
			}
			for i, s := range seeds {
				c.Check(bad[i] == "", "generate: %s", bad[i])
				c.Check(!seen[s], "generate produced the seed %x twice", s)
				seen[s] = true
				for j := range s {
					or[j] |= s[j]
					and[j] &= s[j]
				}
				c.Distinct(s)
			}
			for j := range or {
				c.Check(or[j] == 0xFF && and[j] == 0, "in %d generated seeds byte %d never varied in some bit (or %02x, and %02x)", n, j, or[j], and[j])
			}
			c.EventN("seeds generated from system entropy", n)
		}},
		{Name: "cli-salts", Quick: 1, Thorough: 4, Serial: true, Fn: func(c *rt.Case) {
			const n = 48
			words := spec.EncodePlain(genSeed(c.R), genOffset(c.R))
			dir := cli.Scratch()
			defer os.RemoveAll(dir)
			f := cli.Path(dir, "w")
			os.WriteFile(f, []byte(strings.Join(words, " ")), 0o600)
			c.Input(map[string]any{"convert -encrypt-phrase runs": n})
			var or, and uint32 = 0, 1<<19 - 1
			var mu sync.Mutex
			var wg sync.WaitGroup
			sem := make(chan bool, 6)
			var bad string
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					sem <- true
					defer func() { <-sem }()
					w, msg := convertEncrypt(f, "pw", dir)
					mu.Lock()
					defer mu.Unlock()
					if msg != "" {
						bad = msg
						return
					}
					dec, def := spec.Decode(w)
					if def.Any() || dec.Version != 1 {
						bad = fmt.Sprintf("phrase %v invalid: %+v", w, def)
						return
					}
					or |= dec.Salt
					and &= dec.Salt
				}()
			}
			wg.Wait()
			c.Check(bad == "", "convert -encrypt-phrase: %s", bad)
			c.Check(or == 1<<19-1 && and == 0, "in %d encrypted phrases some salt bit never varied (or %05x, and %05x)", n, or, and)
			c.EventN("salts drawn by the command", n)
			c.Distinct("cli-salts", c.Index)
		}},
	}
}

func init() {
	rt.Register(&rt.Property{ID: "C09", Variant: "fast", Elsewhere: true,
		Rule:   "case = one TTL (library duration or command-line text) with a key; expirations are read from the parsed self-certification and bindings; distinct by TTL and key.",
		Assume: []string{"Argon2id replaced by a stand-in"},
		Streams: func() []rt.Stream {
			refused := func(c *rt.Case, ttl time.Duration) {
				p := genParams(c.R)
				p.TTL = ttl
				c.Input(p.desc())
				m, err := mnemonikey.New(newSeed(c, p.Seed), p.creation(), p.opts())
				if err == nil {
					c.Fail("TTL %v cannot be represented but was accepted: Expiry() %v", ttl, m.Expiry())
				}
				c.Check(m == nil, "New returned a key together with an error")
				if ttl < 0 {
					c.Check(errors.Is(err, mnemonikey.ErrTTLInvalid), "TTL %v: %v", ttl, err)
				}
				_, err = mnemonikey.RecoverPlaintext(spec.EncodePlain(p.Seed, p.Offset), p.opts())
				c.Check(err != nil, "TTL %v was accepted by RecoverPlaintext", ttl)
				c.Event("unrepresentable TTLs refused")
				c.Distinct(p)
			}
			return []rt.Stream{
				{Name: "edges", Quick: len(ttlEdges) * 20, Thorough: len(ttlEdges) * 200, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					p.TTL = ttlEdges[c.Index%len(ttlEdges)]
					c.Input(p.desc())
					c09judge(c, build(c, p), p)
					c.Distinct(p)
				}},
				{Name: "random", Quick: 5000, Thorough: 200000, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					c.Input(p.desc())
					m := build(c, p)
					if c.R.Intn(3) == 0 {
						var err error
						m, err = mnemonikey.RecoverPlaintext(spec.EncodePlain(p.Seed, p.Offset), p.opts())
						c.Check(err == nil, "recover: %v", err)
					} else if p.Offset < spec.MaxOffset && c.R.Intn(2) == 0 {
						// sub-second creation must not shift the expiry
						var err error
						m, err = mnemonikey.New(newSeed(c, p.Seed), time.Unix(p.unix(), genNanos(c.R)), p.opts())
						c.Check(err == nil, "New: %v", err)
					}
					c09judge(c, m, p)
					c.Distinct(p)
				}},
				{Name: "refused", Quick: 2000, Thorough: 40000, Fn: func(c *rt.Case) {
					const max = (1<<32 - 1) * time.Second
					fixed := []time.Duration{-1, -time.Second, math.MinInt64, -time.Hour, 1, time.Millisecond, time.Second - 1, 500 * time.Millisecond,
						max + time.Second, max + time.Hour, math.MaxInt64, 1 << 32 * time.Second * 2, 200 * 365 * 24 * time.Hour, (1<<32 + 1) * time.Second, (1<<33 - 1) * time.Second}
					if c.Index < len(fixed)*4 {
						refused(c, fixed[c.Index%len(fixed)])
						return
					}
					switch c.R.Intn(3) {
					case 0:
						refused(c, -time.Duration(1+c.R.Int63()>>uint(c.R.Intn(62))))
					case 1:
						refused(c, time.Duration(1+c.R.Int63n(1e9-1)))
					case 2:
						refused(c, max+time.Second+time.Duration(c.R.Int63n(math.MaxInt64-int64(max)-1e9)))
					}
				}},
				{Name: "protected", Quick: 16, Thorough: 400, Limit: 60 * time.Second, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					p.Sel = []string{pick(c.R, spec.Subkeys)}
					c.Input(p.desc())
					data, err := build(c, p).EncodePGP([]byte("x"))
					c.Check(err == nil, "export: %v", err)
					ct := cert(c, data)
					c.Check(ct.Expiry == ttlSeconds(p.TTL) && ct.Subs[0].Expiry == ttlSeconds(p.TTL), "TTL %v: protected export expires after %d/%d s", p.TTL, ct.Expiry, ct.Subs[0].Expiry)
					c.Distinct(p)
				}},
				{Name: "cli", Here: true, Quick: 700, Thorough: 20000, Fn: c09cli},
			}
		}})

	rt.Register(&rt.Property{ID: "C23", Variant: "fast", Elsewhere: true,
		Rule: "case = one out-of-range or in-range argument of an exported library function; out of range must give an error without panic, in range the codecs must invert each other; distinct by argument. All 65536 word indices, all 4096 words and all key-seed lengths 0-200 are enumerated.",
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "seeds", Quick: 6000, Thorough: 100000, Fn: func(c *rt.Case) {
					v := new(big.Int)
					bl := c.Index % 300
					if bl > 0 {
						v.SetBit(v, bl-1, 1)
						if c.R.Intn(2) == 0 {
							v.Or(v, new(big.Int).Rand(c.R, v))
						}
						if c.R.Intn(6) == 0 {
							v.Sub(new(big.Int).Lsh(big.NewInt(1), uint(bl)), big.NewInt(1))
						}
					}
					neg := c.R.Intn(4) == 0 && v.Sign() != 0
					if neg {
						v.Neg(v)
					}
					era := pick(c.R, []int{0, 0, 0, 0, 1, 2, -1, -2, 127, 255, 1 << 20, math.MaxInt64, math.MinInt64})
					c.Input(map[string]any{"value": v.String(), "era": era})
					seed, err := mnemonikey.NewSeed(mnemonikey.Era(era), new(big.Int).Set(v))
					switch {
					case era != 0 && (neg || v.BitLen() > 128):
						c.Check(err != nil && seed == nil, "NewSeed(%d, %v) accepted", era, v)
					case era != 0:
						c.Check(seed == nil && errors.Is(err, mnemonikey.ErrInvalidEraNumber), "NewSeed(%d, %v): %v", era, v, err)
					case neg || v.BitLen() > 128:
						c.Check(err != nil && seed == nil, "NewSeed accepted %v (%d bits)", v, v.BitLen())
					default:
						c.Check(err == nil, "NewSeed refused %v: %v", v, err)
						c.Check(seed.Int().Cmp(v) == 0 && len(seed.Bytes()) == 16 && new(big.Int).SetBytes(seed.Bytes()).Cmp(v) == 0 && seed.Era() == 0, "seed %v came back as %v / %x", v, seed.Int(), seed.Bytes())
						c.Event("in-range seeds accepted")
						c.Distinct(v, era)
						return
					}
					c.Event("out-of-range seeds refused")
					c.Distinct(v, era)
				}},
				{Name: "offsets", Quick: 3000, Thorough: 60000, Fn: func(c *rt.Case) {
					o := uint32(1<<31) + uint32(c.R.Int31())
					switch c.Index % 4 {
					case 0:
						o = pick(c.R, []uint32{1 << 31, 1<<31 + 1, 1<<32 - 1, 1<<32 - 2, 0xC0000000})
					case 1:
						o = genOffset(c.R)
					}
					s := genSeed(c.R)
					c.Input(map[string]any{"offset": o, "seed": fmt.Sprintf("%x", s)})
					w1, e1 := mnemonikey.EncodeMnemonicPlaintext(newSeed(c, s), o)
					w2, e2 := mnemonikey.EncodeMnemonicEncrypted(newSeed(c, s), o, []byte("x"), &detReader{r: c.R})
					if o > spec.MaxOffset {
						c.Check(e1 != nil && w1 == nil, "plaintext encoding accepted offset %d: %v", o, w1)
						c.Check(e2 != nil && w2 == nil, "encrypted encoding accepted offset %d: %v", o, w2)
						c.EventN("out-of-range offsets refused", 2)
					} else {
						c.Check(e1 == nil && e2 == nil, "offset %d refused: %v %v", o, e1, e2)
						c.Event("in-range offsets accepted")
					}
					c.Distinct(o, s)
				}},
				{Name: "all-indices", Quick: 64, Thorough: 64, Fn: func(c *rt.Case) {
					c.Input(map[string]any{"indices": fmt.Sprintf("%d..%d", c.Index*1024, c.Index*1024+1023)})
					for j := 0; j < 1024; j++ {
						i := uint16(c.Index*1024 + j)
						pre := []uint16{uint16(c.R.Intn(4096)), uint16(c.R.Intn(4096))}
						in := []uint16{pre[0], i, pre[1]}
						words, err := mnemonic.EncodeToWords(in)
						n, err2 := mnemonic.DecodeIndices(in)
						if i >= 4096 {
							c.Check(words == nil && errors.Is(err, mnemonic.ErrInvalidIndex), "EncodeToWords accepted index %d: %v", i, err)
							c.Check(n == nil && errors.Is(err2, mnemonic.ErrInvalidIndex), "DecodeIndices accepted index %d: %v", i, err2)
							c.EventN("out-of-range indices refused", 2)
						} else {
							c.Check(err == nil && len(words) == 3 && words[1] == spec.Words[i], "EncodeToWords(%d): %v %v", i, words, err)
							back, err := mnemonic.DecodeWords(mixCase(c.R, words))
							c.Check(err == nil && len(back) == 3 && back[0] == in[0] && back[1] == in[1] && back[2] == in[2], "DecodeWords(%v) = %v, %v", words, back, err)
							want := big.NewInt(int64(in[0])<<24 | int64(in[1])<<12 | int64(in[2]))
							c.Check(err2 == nil && n.Cmp(want) == 0, "DecodeIndices(%v) = %v, %v", in, n, err2)
							ind, err := mnemonic.EncodeToIndices(new(big.Int).Set(n), 36)
							c.Check(err == nil && len(ind) == 3 && ind[0] == in[0] && ind[1] == in[1] && ind[2] == in[2], "EncodeToIndices(%v, 36) = %v, %v", n, ind, err)
							c.Event("codec round trips")
						}
						c.Distinct(i)
					}
				}},
				{Name: "codec", Quick: 20000, Thorough: 1000000, Fn: func(c *rt.Case) {
					bits := uint(c.R.Intn(400))
					if c.R.Intn(3) == 0 {
						bits = uint(12 * c.R.Intn(30))
					}
					v := new(big.Int)
					bl := uint(c.R.Intn(420))
					if c.R.Intn(3) == 0 {
						bl = bits + uint(c.R.Intn(3)) // around the limit
						if bl > 0 {
							bl--
						}
					}
					if bl > 0 {
						v.SetBit(v.Rand(c.R, new(big.Int).Lsh(big.NewInt(1), bl)), int(bl-1), 1)
						if c.R.Intn(4) == 0 { // zero words inside
							v.AndNot(v, new(big.Int).Lsh(big.NewInt(4095), uint(c.R.Intn(int(bl)))))
						}
					}
					c.Input(map[string]any{"payload": v.Text(16), "bits": bits})
					ind, err := mnemonic.EncodeToIndices(new(big.Int).Set(v), bits)
					if uint(v.BitLen()) > bits {
						c.Check(err != nil && ind == nil, "EncodeToIndices accepted %d bits as %d", v.BitLen(), bits)
						c.Event("oversized payloads refused")
						c.Distinct(v, bits)
						return
					}
					c.Check(err == nil, "EncodeToIndices(%v, %d): %v", v, bits, err)
					c.Check(uint(len(ind)) == (bits+11)/12, "EncodeToIndices(%v, %d) gives %d indices", v, bits, len(ind))
					words, err := mnemonic.EncodeToWords(ind)
					c.Check(err == nil && len(words) == len(ind), "EncodeToWords(%v): %v", ind, err)
					ind2, err := mnemonic.DecodeWords(words)
					c.Check(err == nil && len(ind2) == len(ind), "DecodeWords(%v): %v", words, err)
					for i := range ind {
						c.Check(ind[i] == ind2[i], "index %d: %d became %d", i, ind[i], ind2[i])
					}
					n, err := mnemonic.DecodeIndices(ind2)
					c.Check(err == nil && n.Cmp(v) == 0, "payload %v came back as %v (%v)", v, n, err)
					c.Event("codec round trips")
					c.Distinct(v, bits)
				}},
				{Name: "long-codec", Quick: 400, Thorough: 8000, Fn: func(c *rt.Case) {
					n := 30 + c.R.Intn(600)
					switch {
					case c.Index < 3: // more words than 16 bits count
						n = 65536 + c.R.Intn(40)
					case c.Index < 40:
						n = 200 + c.R.Intn(4000)
					}
					bits := uint(12*n - c.R.Intn(12))
					bl := bits - uint(c.R.Intn(int(bits)))%uint(1+c.R.Intn(int(bits)))
					v := new(big.Int)
					v.SetBit(v.Rand(c.R, new(big.Int).Lsh(big.NewInt(1), bl)), int(bl-1), 1)
					c.Input(map[string]any{"bits": bits, "payload bits": bl, "low payload bits": new(big.Int).And(v, big.NewInt(1<<40-1)).String()})
					ind, err := mnemonic.EncodeToIndices(new(big.Int).Set(v), bits)
					c.Check(err == nil && len(ind) == n, "EncodeToIndices of %d bits as %d gives %d indices, error %v", bl, bits, len(ind), err)
					words, err := mnemonic.EncodeToWords(ind)
					c.Check(err == nil && len(words) == n, "EncodeToWords of %d indices: %v", n, err)
					for i := range ind {
						c.Check(int(ind[i]) < len(spec.Words) && words[i] == spec.Words[ind[i]], "word %d of %d is %q for index %d", i, n, words[i], ind[i])
					}
					ind2, err := mnemonic.DecodeWords(words)
					c.Check(err == nil && len(ind2) == n, "DecodeWords of %d words: %v", n, err)
					for i := range ind {
						c.Check(ind[i] == ind2[i], "index %d of %d: %d became %d", i, n, ind[i], ind2[i])
					}
					back, err := mnemonic.DecodeIndices(ind)
					c.Check(err == nil && back.Cmp(v) == 0, "a payload of %d bits in %d words came back changed (%v)", bl, n, err)
					c.Event("codec round trips")
					// one bad element anywhere
					at := c.R.Intn(n)
					words[at] = garbageNonWord(c.R)
					ind[at] = uint16(4096 + c.R.Intn(65536-4096))
					bad, err := mnemonic.DecodeWords(words)
					c.Check(bad == nil && errors.Is(err, mnemonic.ErrInvalidWord), "DecodeWords accepted %q as word %d of %d: %v", words[at], at, n, err)
					back, err = mnemonic.DecodeIndices(ind)
					c.Check(back == nil && errors.Is(err, mnemonic.ErrInvalidIndex), "DecodeIndices accepted %d as index %d of %d: %v", ind[at], at, n, err)
					ws, err := mnemonic.EncodeToWords(ind)
					c.Check(ws == nil && errors.Is(err, mnemonic.ErrInvalidIndex), "EncodeToWords accepted %d as index %d of %d: %v", ind[at], at, n, err)
					c.Event("unknown words refused")
					c.State("words in a long payload (hundreds)", n/100)
					c.Distinct(v.Bit(0), n, bl, at)
				}},
				{Name: "negative-payloads", Quick: 500, Thorough: 4000, Fn: func(c *rt.Case) {
					v := new(big.Int).Neg(new(big.Int).SetInt64(1 + c.R.Int63()>>uint(c.R.Intn(60))))
					bits := uint(c.R.Intn(200))
					ind, err := mnemonic.EncodeToIndices(v, bits)
					c.Check(err != nil && ind == nil, "EncodeToIndices accepted %v as %d bits: %v", v, bits, ind)
					c.Event("oversized payloads refused")
					c.Distinct(v, bits)
				}},
				{Name: "unknown-words", Quick: 4000, Thorough: 60000, Fn: func(c *rt.Case) {
					ws := []string{pick(c.R, spec.Words), garbageNonWord(c.R), pick(c.R, spec.Words)}
					c.R.Shuffle(3, func(i, j int) { ws[i], ws[j] = ws[j], ws[i] })
					c.Input(map[string]any{"words": fmt.Sprintf("%q", ws)})
					ind, err := mnemonic.DecodeWords(ws)
					c.Check(ind == nil && errors.Is(err, mnemonic.ErrInvalidWord), "DecodeWords(%q) = %v, %v", ws, ind, err)
					c.Event("unknown words refused")
					c.Distinct(ws)
				}},
				{Name: "key-seed-lengths", Quick: 201, Thorough: 201, Fn: func(c *rt.Case) {
					b := make([]byte, c.Index)
					c.R.Read(b)
					t := time.Unix(spec.EpochUnix, 0)
					k1, e1 := pgp.NewED25519MasterKey(b, t, time.Time{})
					k2, e2 := pgp.NewED25519Subkey(b, t, time.Time{})
					k3, e3 := pgp.NewCurve25519Subkey(b, t, time.Time{}, nil)
					if c.Index == 32 {
						c.Check(e1 == nil && e2 == nil && e3 == nil, "32-byte key seed refused: %v %v %v", e1, e2, e3)
					} else {
						c.Check(e1 != nil && e2 != nil && e3 != nil && k1 == nil && k2 == nil && k3 == nil, "key seed of %d bytes accepted: %v %v %v", c.Index, e1, e2, e3)
					}
					c.Input(map[string]any{"length": c.Index})
					c.Event("key seed lengths tried")
					c.Distinct(c.Index)
				}},
				{Name: "odd-keys", Quick: 64, Thorough: 2000, Fn: func(c *rt.Case) {
					// low-order and extreme seeds give keys, not panics or wrong output
					b := make([]byte, 32)
					switch c.Index % 4 {
					case 1:
						for i := range b {
							b[i] = 0xFF
						}
					case 2:
						b[c.R.Intn(32)] = byte(c.R.Intn(256))
					case 3:
						c.R.Read(b)
					}
					t := time.Unix(spec.EpochUnix, 0)
					k, err := pgp.NewCurve25519Subkey(append([]byte{}, b...), t, time.Time{}, nil)
					c.Check(err == nil, "X25519 seed %x: %v", b, err)
					pkt, err := k.EncodePrivatePacket(nil)
					c.Check(err == nil, "encode: %v", err)
					pk, err := spec.ParsePackets(pkt)
					c.Check(err == nil && len(pk) == 1, "packet: %v", err)
					kk, err := spec.ParseKey(pk[0])
					c.Check(err == nil, "key: %v", err)
					form, sec, _, err := kk.SecretPart()
					c.Check(err == nil && form == spec.Plain && bytes.Equal(sec, spec.XSecretBE(b)) && bytes.Equal(kk.Point, spec.XPublic(b)), "X25519 seed %x encodes wrongly (%v)", b, err)
					c.Event("key seeds encoded")
					c.Distinct(b)
				}},
				{Name: "mpi", Quick: 6000, Thorough: 200000, Fn: func(c *rt.Case) {
					bl := c.R.Intn(600)
					v := new(big.Int)
					if bl > 0 {
						v.SetBit(v.Rand(c.R, new(big.Int).Lsh(big.NewInt(1), uint(bl))), bl-1, 1)
					}
					enc := pgp.EncodeMPI(new(big.Int).Set(v))
					c.Check(len(enc) == 2+(bl+7)/8 && int(enc[0])<<8|int(enc[1]) == bl && new(big.Int).SetBytes(enc[2:]).Cmp(v) == 0, "EncodeMPI(%v) = %x", v, enc)
					c.Event("MPIs compared")
					c.Distinct(v)
				}},
				{Name: "versions", Quick: 4096, Thorough: 4096, Fn: func(c *rt.Case) {
					v := mnemonikey.MnemonicVersion(c.Index)
					switch {
					case c.Index <= 1:
						c.Check(v.Era() == 0 && v.MnemonicSize() == 14+2*c.Index && v.Encrypted() == (c.Index == 1), "version %d: era %d size %d", v, v.Era(), v.MnemonicSize())
					default:
						c.Check(v.Era() == -1 && v.MnemonicSize() == 0 && !v.Encrypted(), "unknown version %d: era %d size %d encrypted %v", v, v.Era(), v.MnemonicSize(), v.Encrypted())
					}
					c.Event("versions tried")
					c.Distinct(v)
				}},
			}
		}})
}

func c09judge(c *rt.Case, m *mnemonikey.Mnemonikey, p Params) {
	want := ttlSeconds(p.TTL)
	if p.TTL == 0 {
		c.Check(m.Expiry().IsZero(), "no TTL, but Expiry() is %v", m.Expiry())
	} else {
		c.Check(m.Expiry().Unix() == p.unix()+int64(want) && m.Expiry().Nanosecond() == 0, "TTL %v: Expiry() is %v, want unix %d", p.TTL, m.Expiry(), p.unix()+int64(want))
	}
	e, err := sixExports(m)
	c.Check(err == nil, "export: %v", err)
	for i := 0; i < 3; i++ {
		ct := cert(c, e[i])
		if ct.SelfCert != nil {
			c.Check(ct.Expiry == want, "TTL %v: %s export: master expires after %d s, want %d", p.TTL, exportNames[i], ct.Expiry, want)
		}
		for _, s := range ct.Subs {
			c.Check(s.Expiry == want, "TTL %v: %s export: %s subkey expires after %d s, want %d", p.TTL, exportNames[i], s.Kind, s.Expiry, want)
			c.Event("expirations read")
		}
	}
}
