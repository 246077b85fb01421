package props

import (
	"bytes"
	"crypto/aes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"strings"
	"time"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/mnemonic"

	"verifharness/rt"
	"verifharness/spec"
)

// edgeSeed enumerates structured seeds: index 0..129 single bits, zero, ones.
func edgeSeed(i int) (s [16]byte) {
	switch {
	case i < 128:
		s[i/8] = 0x80 >> (i % 8)
	case i == 128:
	default:
		for j := range s {
			s[j] = 0xFF
		}
		if i > 129 {
			s[(i-130)%128/8] &^= 0x80 >> ((i - 130) % 8)
		}
	}
	return
}

const nEdgeSeeds = 130 + 128

func sameKey(c *rt.Case, a, b *mnemonikey.Mnemonikey, what string) {
	c.Check(bytes.Equal(a.Fingerprint(), b.Fingerprint()), "%s: master fingerprint %x became %x", what, a.Fingerprint(), b.Fingerprint())
	for _, k := range spec.Subkeys {
		t := mnemonikey.SubkeyType(k)
		c.Check(bytes.Equal(a.SubkeyFingerprint(t), b.SubkeyFingerprint(t)), "%s: %s subkey fingerprint differs", what, k)
	}
	c.Check(a.CreatedAt().Equal(b.CreatedAt()), "%s: creation %v became %v", what, a.CreatedAt(), b.CreatedAt())
	c.Check(bytes.Equal(export(c, a), export(c, b)), "%s: exported packets differ", what)
	c.Event("recovered keys compared with the original")
}

func wordsOK(c *rt.Case, words []string, n int) {
	c.Check(len(words) == n, "phrase has %d words, want %d", len(words), n)
	for _, w := range words {
		i, ok := spec.WordIndex[w]
		c.Check(ok && spec.Words[i] == w, "phrase word %q is not a lower-case wordlist word", w)
	}
}

func decodeOK(c *rt.Case, words []string) *mnemonikey.DecodedMnemonic {
	dm, err := mnemonikey.DecodeMnemonic(words)
	c.Check(err == nil, "valid phrase %q refused: %v", strings.Join(words, " "), err)
	return dm
}

func c01(c *rt.Case, p Params) {
	c.Input(p.desc())
	m := build(c, p)
	words, err := m.EncodeMnemonicPlaintext()
	c.Check(err == nil, "EncodeMnemonicPlaintext failed: %v", err)
	wordsOK(c, words, 14)
	direct, err := mnemonikey.EncodeMnemonicPlaintext(newSeed(c, p.Seed), p.Offset)
	c.Check(err == nil && eqWords(direct, words), "package-level phrase %v (err %v) differs from the key's phrase %v", direct, err, words)
	typed := mixCase(c.R, words)
	dm := decodeOK(c, typed)
	c.Check(!dm.Encrypted(), "plaintext phrase reported as encrypted")
	seed, err := dm.Seed()
	c.Check(err == nil, "Seed of a plaintext phrase failed: %v", err)
	c.Check(bytes.Equal(seed.Bytes(), p.Seed[:]), "recovered seed %x, want %x", seed.Bytes(), p.Seed)
	c.Check(seed.Int().Cmp(bigOf(p.Seed)) == 0, "recovered seed integer differs")
	seed2, err := dm.DecryptSeed([]byte("ignored"))
	c.Check(err == nil && bytes.Equal(seed2.Bytes(), p.Seed[:]), "DecryptSeed of a plaintext phrase gave another seed (err %v)", err)
	c.Check(dm.CreationOffset() == p.Offset, "recovered offset %d, want %d", dm.CreationOffset(), p.Offset)
	c.Check(dm.Creation().Unix() == p.unix() && dm.Creation().Nanosecond() == 0, "recovered creation %v, want unix %d", dm.Creation(), p.unix())
	rec, err := mnemonikey.RecoverPlaintext(typed, p.opts())
	c.Check(err == nil, "RecoverPlaintext failed: %v", err)
	sameKey(c, m, rec, "RecoverPlaintext")
	again, err := rec.EncodeMnemonicPlaintext()
	c.Check(err == nil && eqWords(again, words), "phrase of the recovered key differs")
	c.Event("plaintext round trips")
	c.Distinct(p)
}

func init() {
	rt.Register(&rt.Property{ID: "C01", Variant: "fast", Elsewhere: true,
		Rule:   "case = (seed, creation offset, options, letter case); non-trivial and distinct by all of the inputs. Every case builds the key, encodes, re-types in random case, decodes and recovers.",
		Assume: []string{"Argon2id replaced by a stand-in PRF of all its parameters (root keys are opaque to this property)"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "edge-seeds", Quick: nEdgeSeeds * 4, Thorough: nEdgeSeeds * 40, Fn: func(c *rt.Case) {
					c01(c, Params{Seed: edgeSeed(c.Index % nEdgeSeeds), Offset: genOffset(c.R), Name: "x"})
				}},
				{Name: "edge-offsets", Quick: len(offsetEdges) * 8, Thorough: len(offsetEdges) * 100, Fn: func(c *rt.Case) {
					p := Params{Seed: genSeed(c.R), Offset: offsetEdges[c.Index%len(offsetEdges)], Email: "a@b"}
					c01(c, p)
				}},
				{Name: "random", Quick: 12000, Thorough: 400000, Fn: func(c *rt.Case) { c01(c, genParams(c.R)) }},
				{Name: "phrase-only", Quick: 60000, Thorough: 4000000, Fn: func(c *rt.Case) {
					s, o := genSeed(c.R), genOffset(c.R)
					words, err := mnemonikey.EncodeMnemonicPlaintext(newSeed(c, s), o)
					c.Check(err == nil, "encode %x/%d: %v", s, o, err)
					wordsOK(c, words, 14)
					dm := decodeOK(c, mixCase(c.R, words))
					seed, err := dm.Seed()
					c.Check(err == nil && bytes.Equal(seed.Bytes(), s[:]) && dm.CreationOffset() == o && dm.Creation().Unix() == spec.EpochUnix+int64(o),
						"seed %x offset %d came back as %v offset %d (err %v)", s, o, seed, dm.CreationOffset(), err)
					c.Event("phrase round trips")
					c.Distinct(s, o)
				}},
			}
		}})

	rt.Register(&rt.Property{ID: "C02", Variant: "fast", Elsewhere: true,
		Rule:   "case = (seed, creation offset, password, salt source, wrong passwords); non-trivial and distinct by seed, offset and password. Wrong passwords are near misses (case, white space, truncation, one bit) and random ones.",
		Assume: []string{"Argon2id replaced by a stand-in PRF of all its parameters, of which the oracle has its own copy"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "edge-seeds", Quick: nEdgeSeeds * 4, Thorough: nEdgeSeeds * 40, Fn: func(c *rt.Case) {
					c02(c, Params{Seed: edgeSeed(c.Index % nEdgeSeeds), Offset: genOffset(c.R), Name: "x"}, genPassword(c.R))
				}},
				{Name: "random", Quick: 8000, Thorough: 300000, Fn: func(c *rt.Case) { c02(c, genParams(c.R), genPassword(c.R)) }},
				{Name: "empty-password", Quick: 400, Thorough: 4000, Fn: func(c *rt.Case) {
					s, o := genSeed(c.R), genOffset(c.R)
					pw := [][]byte{nil, {}, make([]byte, 0, 8)}[c.Index%3]
					w, err := mnemonikey.EncodeMnemonicEncrypted(newSeed(c, s), o, pw, salted(c.R))
					c.Check(err != nil && w == nil, "empty password accepted for encryption: %v", w)
					m := build(c, Params{Seed: s, Offset: o})
					w, err = m.EncodeMnemonicEncrypted(pw, salted(c.R))
					c.Check(err != nil && w == nil, "empty password accepted for encryption by the key: %v", w)
					c.Event("empty passwords refused")
					c.Distinct(s, o, len(pw))
				}},
				{Name: "edge-ciphertexts", Quick: nEdgeSeeds * 4, Thorough: nEdgeSeeds * 40, Fn: func(c *rt.Case) {
					// seeds whose encryption is an edge value, not the seed
					s, o, pw, salt := edgeCipher(c)
					c02with(c, Params{Seed: s, Offset: o}, pw, saltReader(c.R, salt))
				}},
				{Name: "all-single-byte-passwords", Quick: 256, Thorough: 256, Fn: func(c *rt.Case) {
					c02(c, Params{Seed: genSeed(c.R), Offset: genOffset(c.R)}, []byte{byte(c.Index)})
				}},
				{Name: "many-attempts", Quick: 60, Thorough: 1000, Fn: func(c *rt.Case) {
					// the right password still works after hundreds of wrong ones
					s, o, pw := genSeed(c.R), genOffset(c.R), genPassword(c.R)
					n := 1 + c.R.Intn(400)
					c.Input(map[string]any{"seed": fmt.Sprintf("%x", s), "offset": o, "password": hex.EncodeToString(pw), "wrong": n})
					words, err := mnemonikey.EncodeMnemonicEncrypted(newSeed(c, s), o, pw, salted(c.R))
					c.Check(err == nil, "encrypt: %v", err)
					dm := decodeOK(c, words)
					dec, _ := spec.Decode(words)
					for k := 0; k < n; k++ {
						w := []byte(fmt.Sprintf("wrong %d", k))
						got, err := dm.DecryptSeed(w)
						if want, ok := dec.Open(w); ok {
							c.Check(err == nil && bytes.Equal(got.Bytes(), want[:]), "attempt %d: %v, %v", k, got, err)
						} else {
							c.Check(got == nil && errors.Is(err, mnemonikey.ErrMnemonicDecryption), "attempt %d: a wrong password gave %v, %v", k, got, err)
						}
					}
					got, err := dm.DecryptSeed(pw)
					c.Check(err == nil && bytes.Equal(got.Bytes(), s[:]), "right password after %d wrong ones: %v, %v", n, got, err)
					c.EventN("wrong passwords before the right one", n)
					c.Distinct(s, o, pw, n)
				}},
				{Name: "long-passwords", Quick: 300, Thorough: 3000, Fn: func(c *rt.Case) {
					b := make([]byte, 50+c.R.Intn(3000))
					c.R.Read(b)
					c02(c, Params{Seed: genSeed(c.R), Offset: genOffset(c.R)}, b)
				}},
			}
		}})
	rt.Register(&rt.Property{ID: "C02", Variant: "real", Rule: "as the fast part, with the real Argon2id",
		Streams: func() []rt.Stream {
			return []rt.Stream{{Name: "real-kdf", Quick: 6, Thorough: 60, Workers: 4, Limit: 120 * time.Second, Fn: func(c *rt.Case) {
				s, o, pw := genSeed(c.R), genOffset(c.R), genPassword(c.R)
				c.Input(map[string]any{"seed": fmt.Sprintf("%x", s), "offset": o, "password": hex.EncodeToString(pw)})
				words, err := mnemonikey.EncodeMnemonicEncrypted(newSeed(c, s), o, pw, salted(c.R))
				c.Check(err == nil, "encrypt: %v", err)
				dm := decodeOK(c, words)
				seed, err := dm.DecryptSeed(pw)
				c.Check(err == nil && bytes.Equal(seed.Bytes(), s[:]), "right password: seed %v err %v", seed, err)
				bad := append(append([]byte{}, pw...), 'x')
				seed, err = dm.DecryptSeed(bad)
				c.Check((err != nil && errors.Is(err, mnemonikey.ErrMnemonicDecryption)) || (err == nil && !bytes.Equal(seed.Bytes(), s[:])), "wrong password: seed %v err %v", seed, err)
				c.Event("real Argon2id phrase round trips")
				c.Distinct(s, o)
			}}}
		}})

	rt.Register(&rt.Property{ID: "C03", Variant: "fast", Elsewhere: true,
		Rule:   "case = (seed, offset[, password, random bytes]); the produced words are compared with an independent encoder of the README layout; distinct by inputs.",
		Assume: []string{"Argon2id replaced by a stand-in PRF of variant, password, salt, time, memory, threads and length; a few cases with the real one"},
		Streams: func() []rt.Stream {
			plain := func(c *rt.Case, s [16]byte, o uint32) {
				c.Input(map[string]any{"seed": fmt.Sprintf("%x", s), "offset": o})
				words, err := mnemonikey.EncodeMnemonicPlaintext(newSeed(c, s), o)
				c.Check(err == nil, "encode: %v", err)
				want := spec.EncodePlain(s, o)
				c.Check(eqWords(words, want), "plaintext phrase %q, specification gives %q", words, want)
				c.Event("plaintext phrases compared with the layout")
				for _, w := range words {
					c.State("wordlist words produced", w)
				}
				c.Distinct(s, o)
			}
			return []rt.Stream{
				{Name: "plain-edges", Quick: nEdgeSeeds * 8, Thorough: nEdgeSeeds * 80, Fn: func(c *rt.Case) { plain(c, edgeSeed(c.Index%nEdgeSeeds), genOffset(c.R)) }},
				{Name: "plain-offset-edges", Quick: len(offsetEdges) * 10, Thorough: len(offsetEdges) * 200, Fn: func(c *rt.Case) { plain(c, genSeed(c.R), offsetEdges[c.Index%len(offsetEdges)]) }},
				{Name: "plain-random", Quick: 40000, Thorough: 3000000, Fn: func(c *rt.Case) { plain(c, genSeed(c.R), genOffset(c.R)) }},
				{Name: "encrypted", Quick: 20000, Thorough: 1000000, Fn: func(c *rt.Case) { c03enc(c, genSeed(c.R), genOffset(c.R), genPassword(c.R), nil) }},
				{Name: "encrypted-cipher-edges", Quick: nEdgeSeeds * 4, Thorough: nEdgeSeeds * 40, Fn: func(c *rt.Case) {
					s, o, pw, salt := edgeCipher(c)
					c03enc(c, s, o, pw, []byte{byte(salt >> 16), byte(salt >> 8), byte(salt)})
				}},
				{Name: "encrypted-salt-edges", Quick: 2000, Thorough: 40000, Fn: func(c *rt.Case) {
					b := make([]byte, 64)
					c.R.Read(b)
					switch c.Index % 6 {
					case 0:
						b = make([]byte, 64)
					case 1:
						for i := range b {
							b[i] = 0xFF
						}
					case 2:
						b[0] = 0
					case 3:
						b[0], b[1] = 0, 0
					case 4:
						b[1], b[2] = 0, 0
					case 5:
						bit := c.R.Intn(24)
						b = make([]byte, 64)
						b[bit/8] = 1 << (bit % 8)
					}
					c03enc(c, genSeed(c.R), genOffset(c.R), genPassword(c.R), b)
				}},
				{Name: "key-methods", Quick: 1500, Thorough: 40000, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					c.Input(p.desc())
					m := build(c, p)
					words, err := m.EncodeMnemonicPlaintext()
					c.Check(err == nil && eqWords(words, spec.EncodePlain(p.Seed, p.Offset)), "key's plaintext phrase %q (err %v), specification gives %q", words, err, spec.EncodePlain(p.Seed, p.Offset))
					pw := genPassword(c.R)
					words, err = m.EncodeMnemonicEncrypted(pw, salted(c.R))
					c.Check(err == nil, "encrypt: %v", err)
					conforms(c, words, p.Seed, p.Offset, pw)
					c.Distinct(p, pw)
				}},
				{Name: "published-vectors", Quick: 1, Thorough: 1, Fn: func(c *rt.Case) {
					if !spec.SelfTest() {
						panic("oracle self-test failed")
					}
					c.Event("oracle self-tests")
				}},
			}
		}})
	rt.Register(&rt.Property{ID: "C03", Variant: "real", Rule: "as the fast part, with the real Argon2id",
		Streams: func() []rt.Stream {
			return []rt.Stream{{Name: "real-kdf", Quick: 5, Thorough: 60, Workers: 4, Limit: 120 * time.Second, Fn: func(c *rt.Case) {
				c03enc(c, genSeed(c.R), genOffset(c.R), genPassword(c.R), nil)
			}}}
		}})

	rt.Register(&rt.Property{ID: "C04", Variant: "fast", Elsewhere: true,
		Rule: "case = one word sequence (or one block of an exhaustive enumeration) given to DecodeMnemonic and judged by the independent decoder; distinct by the word sequence. Enumerations: all 4096 first words, all single-word substitutions of sampled phrases, all word counts 0-64.",
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "first-words", Quick: 4096, Thorough: 4096, Fn: func(c *rt.Case) {
					w := mixCase(c.R, []string{spec.Words[c.Index]})[0]
					c.Input(map[string]any{"word": w})
					v, err := mnemonikey.ParseMnemonicVersion(w)
					want := c.Index >> 8
					if want <= 1 {
						c.Check(err == nil && int(v) == want, "ParseMnemonicVersion(%q) = %d, %v; want %d", w, v, err, want)
						c.Check(v.Encrypted() == (want == 1) && v.MnemonicSize() == 14+2*want, "version %d: encrypted %v, size %d", v, v.Encrypted(), v.MnemonicSize())
						c.Check(v.Era() == 0, "version %d: era %d", v, v.Era())
					} else {
						c.Check(errors.Is(err, mnemonikey.ErrInvalidVersionNumber), "ParseMnemonicVersion(%q) (version %d) gave %v", w, want, err)
					}
					// phrases starting with it, in both lengths
					for _, n := range []int{14, 16} {
						ws := []string{w}
						for len(ws) < n {
							ws = append(ws, pick(c.R, spec.Words))
						}
						c04(c, ws)
						c04(c, spec.FixChecksum(ws))
					}
				}},
				{Name: "valid", Quick: 100000, Thorough: 1500000, Fn: func(c *rt.Case) {
					c04(c, mixCase(c.R, genPhrase(c.R)))
				}},
				{Name: "substitutions", Quick: 240, Thorough: 3000, Fn: func(c *rt.Case) {
					// one word position, all 4096 replacements
					ws := genPhrase(c.R)
					pos := c.Index / 2 % 16
					if c.Index%2 == 0 {
						ws = spec.EncodePlain(genSeed(c.R), genOffset(c.R))
						pos = c.Index / 2 % 14
					}
					c.Input(map[string]any{"phrase": strings.Join(ws, " "), "position": pos % len(ws)})
					pos %= len(ws)
					mut := append([]string{}, ws...)
					for _, w := range spec.Words {
						mut[pos] = w
						c04q(c, mut)
					}
				}},
				{Name: "edits", Quick: 200000, Thorough: 3000000, Fn: func(c *rt.Case) { c04(c, editPhrase(c.R, genPhrase(c.R))) }},
				{Name: "word-counts", Quick: 130 * 8, Thorough: 130 * 100, Fn: func(c *rt.Case) {
					n := c.Index / 2 % 65
					base := genPhrase(c.R)
					ws := []string{}
					for len(ws) < n {
						ws = append(ws, base...)
					}
					ws = ws[:n]
					if c.Index%2 == 1 && n > 0 {
						ws = spec.FixTail(ws)
					}
					c04(c, ws)
				}},
				{Name: "random-words", Quick: 100000, Thorough: 1000000, Fn: func(c *rt.Case) {
					n := pick(c.R, []int{14, 16, 14, 16, 1, 13, 15, 17, 12, 24})
					ws := make([]string, n)
					for i := range ws {
						ws[i] = pick(c.R, spec.Words)
					}
					if c.R.Intn(2) == 0 { // supported version, so the checksum decides
						ws[0] = spec.Words[c.R.Intn(512)]
					}
					c04(c, ws)
				}},
				{Name: "affixes", Quick: 4096, Thorough: 4096 * 8, Fn: func(c *rt.Case) {
					// every word of the list with everything around it: never a word
					w := spec.Words[c.Index%4096]
					c.Input(map[string]any{"word": w})
					for _, a := range affixes {
						for _, x := range []string{w + a, a + w, a + w + a, strings.ToUpper(w) + a} {
							if _, ok := spec.Lookup(x); ok {
								continue
							}
							i, err := mnemonic.DecodeWords([]string{x})
							c.Check(errors.Is(err, mnemonic.ErrInvalidWord), "the word %q was read as %v (error %v)", x, i, err)
							_, err = mnemonikey.ParseMnemonicVersion(x)
							c.Check(errors.Is(err, mnemonic.ErrInvalidWord), "ParseMnemonicVersion(%q) gave %v", x, err)
							c.Event("words with something attached refused")
						}
					}
					ws := genPhrase(c.R)
					i := c.R.Intn(len(ws))
					ws[i] += pick(c.R, affixes)
					if _, ok := spec.Lookup(ws[i]); !ok {
						c04(c, ws)
					}
				}},
				{Name: "garbage", Quick: 40000, Thorough: 600000, Fn: func(c *rt.Case) {
					ws := genPhrase(c.R)
					for k := 1 + c.R.Intn(2); k > 0; k-- {
						ws[c.R.Intn(len(ws))] = garbageWord(c.R)
					}
					c04(c, ws)
					v, err := mnemonikey.ParseMnemonicVersion(garbageNonWord(c.R))
					c.Check(errors.Is(err, mnemonic.ErrInvalidWord), "ParseMnemonicVersion of a non-word gave %v, %v", v, err)
				}},
			}
		}})
}

func genPhrase(r *rand.Rand) []string {
	if r.Intn(2) == 0 {
		return spec.EncodePlain(genSeed(r), genOffset(r))
	}
	return spec.RawEncrypted(genSeed(r), genSalt(r), byte(r.Intn(32)), genOffset(r))
}

func garbageNonWord(r *rand.Rand) string {
	for {
		w := garbageWord(r)
		if _, ok := spec.Lookup(w); !ok {
			return w
		}
	}
}

// affixes people, spreadsheets and text files put around words.
var affixes = []string{" ", "  ", "\t", "\n", "\r", "\r\n", "\x00", "\v", "\f", "\u0085", "\u00a0", "\u2028", "\u3000", "\u200b", "\ufeff", "\u00ad", "\u0301",
	".", ",", ";", ":", "!", "?", "-", "_", "'", "\"", "`", "*", "#", "/", "\\", "|", "(", ")", "[", "]", "<", ">", "=", "+", "~", "$", "%", "&", "@", "^",
	"1.", "1)", "01:", "1 ", "0", "7", "s", "es", "ed", "a", "\xff", "\xc3", "é", "\x1b[0m", "\x7f", "\b"}

func garbageWord(r *rand.Rand) string {
	w := pick(r, spec.Words)
	k := r.Intn(len(w))
	switch r.Intn(16) {
	case 0:
		return pick(r, []string{"", " ", "\n", "\t", "\x00", "-", "0", "1", "4095", "4096", "-1"})
	case 1, 2, 3:
		return w + pick(r, affixes)
	case 4, 5:
		return pick(r, affixes) + w
	case 6:
		a := pick(r, affixes)
		return a + w + a
	case 7:
		return w[:len(w)-1]
	case 8:
		return strLen(r, 1+r.Intn(12))
	case 9: // abbreviated
		return w[:1+k]
	case 10: // one letter mistyped
		return w[:k] + string(rune('a'+r.Intn(26))) + w[k+1:]
	case 11: // one letter left out
		return w[:k] + w[k+1:]
	case 12: // one letter doubled
		return w[:k] + w[k:k+1] + w[k:]
	case 13: // two letters swapped
		if k > 0 {
			return w[:k-1] + w[k:k+1] + w[k-1:k] + w[k+1:]
		}
		return w[1:] + w[:1]
	case 14:
		return w + pick(r, []string{"", " ", "-"}) + pick(r, spec.Words)
	}
	// another alphabet's letter, written like this one or not
	return w[:k] + pick(r, []string{"\u0430", "\u0435", "\u043e", "\uff41", "\u0131", "\u00df", "\u1d00", "-", " ", "\x00", "."}) + w[k+1:]
}

// editPhrase makes the transcription errors people make.
func editPhrase(r *rand.Rand, ws []string) []string {
	ws = append([]string{}, ws...)
	for k := 1 + r.Intn(2); k > 0; k-- {
		i := r.Intn(len(ws))
		j := r.Intn(len(ws))
		switch r.Intn(8) {
		case 0:
			ws[i], ws[j] = ws[j], ws[i]
		case 1:
			ws = append(ws[:i], ws[i+1:]...)
			if len(ws) == 0 {
				return ws
			}
		case 2:
			ws = append(ws[:i], append([]string{pick(r, spec.Words)}, ws[i:]...)...)
		case 3:
			ws[i] = ws[j]
		case 4: // neighbour in the list
			n, _ := spec.Lookup(ws[i])
			ws[i] = spec.Words[(n+1)%4096]
		case 5: // one bit
			n, _ := spec.Lookup(ws[i])
			ws[i] = spec.Words[n^1<<uint(r.Intn(12))]
		case 6: // version bits
			n, _ := spec.Lookup(ws[0])
			ws[0] = spec.Words[n^1<<uint(8+r.Intn(4))]
		case 7: // other version's first word
			n, _ := spec.Lookup(ws[0])
			ws[0] = spec.Words[n^256]
			if r.Intn(2) == 0 {
				ws = append(ws, pick(r, spec.Words), pick(r, spec.Words))
			} else if len(ws) > 2 {
				ws = ws[:len(ws)-2]
			}
		}
		if r.Intn(3) == 0 && len(ws) > 0 {
			ws = spec.FixTail(ws)
		}
	}
	return ws
}

// c04 judges one decode, recording the case.
func c04(c *rt.Case, ws []string) {
	c.Input(map[string]any{"words": fmt.Sprintf("%.400q", ws)})
	c04q(c, ws)
	c.Distinct(ws)
}

func c04q(c *rt.Case, ws []string) {
	in := append([]string{}, ws...)
	dm, err := mnemonikey.DecodeMnemonic(in)
	dec, def := spec.Decode(ws)
	if def.Any() {
		c.Check(err != nil, "invalid phrase accepted: %q (defects %+v)", ws, def)
		c.Check(dm == nil, "refused phrase still returned a value: %q", ws)
		ok := def.Word && errors.Is(err, mnemonic.ErrInvalidWord) ||
			def.Version && errors.Is(err, mnemonikey.ErrInvalidVersionNumber) ||
			def.Count && errors.Is(err, mnemonikey.ErrInvalidWordCount) ||
			def.Checksum && errors.Is(err, mnemonikey.ErrInvalidChecksum)
		c.Check(ok, "phrase %q has defects %+v but was refused with %q", ws, def, err)
		switch {
		case def.Word:
			c.Event("phrases refused: unknown word")
		case def.Version:
			c.Event("phrases refused: version")
		case def.Count:
			c.Event("phrases refused: word count")
		default:
			c.Event("phrases refused: checksum")
		}
		return
	}
	c.Check(err == nil, "valid phrase refused: %q: %v", ws, err)
	c.Check(int(dm.Version) == dec.Version && dm.Encrypted() == (dec.Version == 1), "version %d/encrypted %v, want %d", dm.Version, dm.Encrypted(), dec.Version)
	c.Check(dm.CreationOffset() == dec.Offset && dm.Creation().Unix() == spec.EpochUnix+int64(dec.Offset), "offset %d creation %v, want %d", dm.CreationOffset(), dm.Creation(), dec.Offset)
	seed, err := dm.Seed()
	if dec.Version == 0 {
		c.Check(err == nil && bytes.Equal(seed.Bytes(), dec.Entropy[:]), "seed %v (err %v), want %x", seed, err, dec.Entropy)
	} else {
		c.Check(errors.Is(err, mnemonikey.ErrMnemonicDecryption) && seed == nil, "encrypted phrase handed out seed %v, err %v", seed, err)
		pw := []byte("pw")
		want, ok := dec.Open(pw)
		seed, err = dm.DecryptSeed(pw)
		if ok {
			c.Check(err == nil && bytes.Equal(seed.Bytes(), want[:]), "decryption gave %v, %v; want %x", seed, err, want)
		} else {
			c.Check(errors.Is(err, mnemonikey.ErrMnemonicDecryption), "decryption with mismatching verification bits gave %v, %v", seed, err)
		}
	}
	c.Event("phrases accepted")
}

func c02(c *rt.Case, p Params, pw []byte) { c02with(c, p, pw, salted(c.R)) }

func c02with(c *rt.Case, p Params, pw []byte, random io.Reader) {
	in := p.desc()
	in["password"] = hex.EncodeToString(pw)
	c.Input(in)
	m := build(c, p)
	var words []string
	var err error
	if c.Index%2 == 0 {
		words, err = m.EncodeMnemonicEncrypted(pw, random)
	} else {
		words, err = mnemonikey.EncodeMnemonicEncrypted(newSeed(c, p.Seed), p.Offset, pw, random)
	}
	c.Check(err == nil, "EncodeMnemonicEncrypted failed: %v", err)
	wordsOK(c, words, 16)
	typed := mixCase(c.R, words)
	dm := decodeOK(c, typed)
	c.Check(dm.Encrypted(), "encrypted phrase not reported as encrypted")
	c.Check(dm.CreationOffset() == p.Offset && dm.Creation().Unix() == p.unix(), "creation %v, want unix %d", dm.Creation(), p.unix())
	seed, err := dm.Seed()
	c.Check(seed == nil && errors.Is(err, mnemonikey.ErrMnemonicDecryption), "encrypted phrase handed out a seed without decryption: %v, %v", seed, err)
	mm, err := mnemonikey.RecoverPlaintext(typed, p.opts())
	c.Check(mm == nil && errors.Is(err, mnemonikey.ErrMnemonicDecryption), "RecoverPlaintext of an encrypted phrase: %v", err)
	// decrypting repeatedly, wrong passwords in between
	for k := 0; k < 2; k++ {
		seed, err = dm.DecryptSeed(append([]byte{}, pw...))
		c.Check(err == nil, "right password refused (attempt %d): %v", k, err)
		c.Check(bytes.Equal(seed.Bytes(), p.Seed[:]), "right password gave seed %x, want %x", seed.Bytes(), p.Seed)
		if k == 0 {
			dec, def := spec.Decode(words)
			c.Check(!def.Any(), "phrase invalid for the independent decoder")
			wrong := variants(c.R, pw)
			for j := 0; j < 4; j++ {
				wrong = append(wrong, genPassword(c.R))
			}
			for _, w := range wrong {
				if bytes.Equal(w, pw) {
					continue
				}
				got, err := dm.DecryptSeed(w)
				if err != nil && c.R.Intn(3) == 0 {
					fresh, err := mnemonikey.DecodeMnemonic(typed)
					c.Check(err == nil, "decode: %v", err)
					fresh.DecryptSeed(w)
					s, err := fresh.Seed()
					c.Check(s == nil && errors.Is(err, mnemonikey.ErrMnemonicDecryption), "after a refused password the phrase hands out seed %v, %v", s, err)
				}
				if _, ok := dec.Open(w); ok {
					c.Event("wrong passwords with colliding verification bits")
					c.Check(err == nil || errors.Is(err, mnemonikey.ErrMnemonicDecryption), "wrong password: %v", err)
					if err == nil {
						c.Check(!bytes.Equal(got.Bytes(), p.Seed[:]), "wrong password %x yields the true seed", w)
					}
				} else {
					c.Event("wrong passwords refused")
					c.Check(got == nil && errors.Is(err, mnemonikey.ErrMnemonicDecryption), "wrong password %x (right %x) gave %v, %v", w, pw, got, err)
				}
			}
			if w := wrong[0]; true {
				if _, ok := dec.Open(w); !ok {
					mm, err := mnemonikey.RecoverEncrypted(typed, w, p.opts())
					c.Check(mm == nil && errors.Is(err, mnemonikey.ErrMnemonicDecryption), "RecoverEncrypted with a wrong password: %v", err)
				}
			}
		}
	}
	rec, err := mnemonikey.RecoverEncrypted(typed, pw, p.opts())
	c.Check(err == nil, "RecoverEncrypted failed: %v", err)
	sameKey(c, m, rec, "RecoverEncrypted")
	c.Event("encrypted round trips")
	c.Distinct(p, pw)
}

// edgeCipher finds a seed whose encrypted form, under the salt it returns, is
// an edge value.
func edgeCipher(c *rt.Case) (seed [16]byte, offset uint32, pw []byte, salt uint32) {
	offset, pw, salt = genOffset(c.R), genPassword(c.R), genSalt(c.R)
	k := spec.PhraseKey(pw, salt, offset)
	b, err := aes.NewCipher(k[:16])
	if err != nil {
		panic(err)
	}
	enc := edgeSeed(c.Index % nEdgeSeeds)
	b.Decrypt(seed[:], enc[:])
	return
}

func conforms(c *rt.Case, words []string, s [16]byte, o uint32, pw []byte) {
	dec, def := spec.Decode(words)
	c.Check(!def.Any() && dec.Version == 1, "encrypted phrase %q is not valid by the specification: %+v", words, def)
	want := spec.EncodeEncrypted(s, o, pw, dec.Salt)
	c.Check(eqWords(words, want), "encrypted phrase %q, specification gives %q (salt %d)", words, want, dec.Salt)
	c.Event("encrypted phrases compared with the layout")
	c.State("salts", dec.Salt)
}

func c03enc(c *rt.Case, s [16]byte, o uint32, pw []byte, random []byte) {
	c.Input(map[string]any{"seed": fmt.Sprintf("%x", s), "offset": o, "password": hex.EncodeToString(pw)})
	var rd interface{ Read([]byte) (int, error) } = salted(c.R)
	if random != nil {
		rd = bytes.NewReader(bytes.Repeat(random, 4))
	}
	words, err := mnemonikey.EncodeMnemonicEncrypted(newSeed(c, s), o, pw, rd)
	c.Check(err == nil, "encrypt: %v", err)
	conforms(c, words, s, o, pw)
	c.Distinct(s, o, pw, random)
}

var _ = big.NewInt
