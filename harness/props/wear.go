package props

import (
	"io"
	"testing/iotest"
	"time"

	"github.com/kklash/mnemonikey"

	"verifharness/rt"
	"verifharness/spec"
)

// wear uses a key in ways that must not matter to anything that follows, so
// that what is judged afterwards is judged on a key with a history. Results
// are ignored here (other streams judge them) and sometimes overwritten.
// protect: protected exports may be among the uses.
func wear(c *rt.Case, m *mnemonikey.Mnemonikey, n int, protect bool) {
	r := c.R
	scribble := r.Intn(2) == 0
	own := func(b []byte, _ error) {
		if scribble {
			r.Read(b)
		}
	}
	words := func(w []string, _ error) {
		for i := range w {
			if scribble {
				w[i] = "worn"
			}
		}
	}
	var pw []byte
	for ; n > 0; n-- {
		c.Event("uses of a key before it is judged")
		if protect && r.Intn(2) == 0 {
			pw = genPassword(r)
			if len(pw) > 2000 {
				pw = pw[:2000]
			}
			switch r.Intn(4) {
			case 0:
				own(m.EncodePGP(pw))
			case 1:
				own(m.EncodeSubkeysPGP(pw, r.Intn(2) == 0))
			case 2:
				m.EncodePGPArmor(pw)
			case 3:
				m.EncodeSubkeysPGPArmor(pw, r.Intn(2) == 0)
			}
			c.Event("protected exports of a key before it is judged")
			continue
		}
		switch r.Intn(9) {
		case 0:
			words(m.EncodeMnemonicPlaintext())
		case 1:
			words(m.EncodeMnemonicEncrypted(genPassword(r), salted(r)))
		case 2:
			words(m.EncodeMnemonicEncrypted(nil, salted(r)))
		case 3:
			words(m.EncodeMnemonicEncrypted([]byte("x"), iotest.ErrReader(io.ErrUnexpectedEOF)))
		case 4:
			own(m.EncodePGP(nil))
		case 5:
			own(m.EncodeSubkeysPGP(nil, r.Intn(2) == 0))
		case 6:
			if r.Intn(2) == 0 {
				m.EncodePGPArmor(nil)
			} else {
				m.EncodeSubkeysPGPArmor(nil, r.Intn(2) == 0)
			}
		case 7:
			own(m.Fingerprint(), nil)
			for _, k := range append([]string{"none"}, spec.Subkeys...) {
				own(m.SubkeyFingerprint(mnemonikey.SubkeyType(k)), nil)
			}
			m.UserID()
		case 8:
			for i, ts := 0, m.SubkeyTypes(); i < len(ts); i++ {
				if scribble {
					ts[i] = "worn"
				}
			}
			m.CreatedAt()
			m.Expiry()
		}
	}
}

// wearSeed does the same with a seed.
func wearSeed(c *rt.Case, s *mnemonikey.Seed) {
	r := c.R
	for n := 1 + r.Intn(3); n > 0; n-- {
		c.Event("uses of a seed before it is judged")
		switch r.Intn(5) {
		case 0:
			s.Era()
			s.Int().SetInt64(r.Int63())
		case 1:
			r.Read(s.Bytes())
		case 2:
			mnemonikey.EncodeMnemonicPlaintext(s, genOffset(r))
		case 3:
			mnemonikey.EncodeMnemonicEncrypted(s, genOffset(r), genPassword(r), salted(r))
		case 4:
			mnemonikey.New(s, time.Unix(spec.EpochUnix+int64(genOffset(r)), 0), nil)
		}
	}
}

func init() {
	// keys that were exported with passwords and used otherwise before
	for id, fn := range map[string]func(c *rt.Case){
		"C05": func(c *rt.Case) {
			p := genParams(c.R)
			c.Input(p.desc())
			lightCompare(c, export(c, build(c, p)), p, p.root())
			c.Distinct(p)
		},
		"C07": func(c *rt.Case) {
			p := genParams(c.R)
			c.Input(p.desc())
			m, err := mnemonikey.New(newSeed(c, p.Seed), p.creation(), p.opts())
			c.Check(err == nil, "New: %v", err)
			d := digests(c, m)
			if c.R.Intn(2) == 0 {
				m = build(c, p)
			} else {
				wear(c, m, 1+c.R.Intn(4), true)
			}
			sameDigests(c, d, digests(c, m), "differs after other uses of the key, protected exports among them")
			c.Distinct(p)
		},
		"C08": func(c *rt.Case) { c08(c, genParams(c.R)) },
		"C09": func(c *rt.Case) {
			p := genParams(c.R)
			c.Input(p.desc())
			c09judge(c, build(c, p), p)
			c.Distinct(p)
		},
		"C14": func(c *rt.Case) { c14(c, genParams(c.R), c.Index%4 == 0) },
	} {
		fn := fn
		worn := func(quick, thorough int) rt.Stream {
			return rt.Stream{Name: "worn", Quick: quick, Thorough: thorough, Limit: 60 * time.Second, Fn: func(c *rt.Case) {
				c.Worn = true
				fn(c)
			}}
		}
		for _, p := range rt.Registry {
			if p.ID == id && p.Variant == "fast" { // the full S2K count takes time
				list := p.Streams
				p.Streams = func() []rt.Stream { return append(list(), worn(12, 600)) }
			}
		}
		rt.Register(&rt.Property{ID: id, Variant: "s2k", Rule: "as above, after protected exports and other uses of the same key", Assume: []string{cheapS2K}, Budget: 12 * time.Second,
			Streams: func() []rt.Stream { return []rt.Stream{worn(3000, 100000)} }})
	}
}
