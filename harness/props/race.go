package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/mnemonic"
	"github.com/kklash/mnemonikey/pgp"

	"math/rand"

	"verifharness/rt"
	"verifharness/spec"
)

// op is one library call on shared objects, rendered as a comparable text.
type op struct {
	name string
	fn   func() string
}

func hx(b []byte, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return digest(b)
}

func tx(s string, err error) string { return hx([]byte(s), err) }
func ws(w []string, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return strings.Join(w, " ")
}

// keyOps are the calls on a key. Encrypted phrases use a private
// deterministic random source, so that their result is a function too.
func keyOps(m *mnemonikey.Mnemonikey, saltSeed int64) []op {
	return []op{
		{"CreatedAt", func() string { return m.CreatedAt().String() }},
		{"Expiry", func() string { return m.Expiry().String() }},
		{"UserID", func() string { return m.UserID() }},
		{"Fingerprint", func() string { return hex.EncodeToString(m.Fingerprint()) }},
		{"SubkeyTypes", func() string { return fmt.Sprint(m.SubkeyTypes()) }},
		{"SubkeyFingerprint", func() string {
			s := ""
			for _, k := range spec.Subkeys {
				s += hex.EncodeToString(m.SubkeyFingerprint(mnemonikey.SubkeyType(k))) + " "
			}
			return s
		}},
		{"EncodePGP", func() string { return hx(m.EncodePGP(nil)) }},
		{"EncodeSubkeysPGP+cert", func() string { return hx(m.EncodeSubkeysPGP(nil, true)) }},
		{"EncodeSubkeysPGP", func() string { return hx(m.EncodeSubkeysPGP(nil, false)) }},
		{"EncodePGPArmor", func() string { return tx(m.EncodePGPArmor(nil)) }},
		{"EncodeSubkeysPGPArmor", func() string { return tx(m.EncodeSubkeysPGPArmor([]byte{}, c15true)) }},
		{"EncodeMnemonicPlaintext", func() string { return ws(m.EncodeMnemonicPlaintext()) }},
		{"EncodeMnemonicEncrypted", func() string {
			return ws(m.EncodeMnemonicEncrypted([]byte("pw"), &detReader{r: rand.New(rand.NewSource(saltSeed))}))
		}},
	}
}

const c15true = true

// together runs every op several times in parallel goroutines, each in its
// own order, and compares each answer with the answer got alone.
func together(c *rt.Case, shared []op, alone []string, goroutines, rounds int) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	type bad struct{ name, got, want string }
	bads := make(chan bad, 64)
	seeds := make([]int64, goroutines)
	for i := range seeds {
		seeds[i] = c.R.Int63()
	}
	var mu sync.Mutex
	order := []byte{}
	for g := 0; g < goroutines; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seeds[g]))
			local := []byte{}
			<-start
			for k := 0; k < rounds; k++ {
				for _, i := range r.Perm(len(shared)) {
					if r.Intn(4) == 0 {
						runtime.Gosched()
					}
					got := shared[i].fn()
					if got != alone[i] {
						select {
						case bads <- bad{shared[i].name, got, alone[i]}:
						default:
						}
					}
					local = append(local, byte(g), byte(i))
				}
			}
			mu.Lock()
			order = append(order, local...)
			mu.Unlock()
		}(g)
	}
	close(start)
	wg.Wait()
	c.EventN("concurrent calls compared", goroutines*rounds*len(shared))
	c.State("goroutine schedules", digest(order))
	select {
	case b := <-bads:
		c.Fail("%s called concurrently returned %.200q, alone it returns %.200q", b.name, b.got, b.want)
	default:
	}
}

func answers(ops []op) []string {
	out := make([]string, len(ops))
	for i := range ops {
		out[i] = ops[i].fn()
	}
	return out
}

// frozen remembers a slice including its spare capacity.
type frozen struct {
	name string
	live func() string
	was  string
}

func freezeBytes(name string, b []byte) frozen {
	f := func() string { return fmt.Sprintf("%d %x", len(b), b[:cap(b)]) }
	return frozen{name, f, f()}
}
func freezeWords(name string, w []string) frozen {
	f := func() string { return fmt.Sprintf("%d %q", len(w), w[:cap(w)]) }
	return frozen{name, f, f()}
}
func freezeIdx(name string, w []uint16) frozen {
	f := func() string { return fmt.Sprintf("%d %v", len(w), w[:cap(w)]) }
	return frozen{name, f, f()}
}
func freezeBig(name string, n *big.Int) frozen {
	f := func() string { b := n.Bits(); return fmt.Sprintf("%d %d %v", n.Sign(), len(b), b[:cap(b)]) }
	return frozen{name, f, f()}
}
func freezeOpts(name string, o *mnemonikey.KeyOptions) frozen {
	f := func() string {
		s := o.Subkeys
		return fmt.Sprintf("%q %q %v %d %d %d %v %d %q", o.Name, o.Email, o.TTL, o.EncryptionSubkeyIndex, o.AuthenticationSubkeyIndex, o.SigningSubkeyIndex, s == nil, len(s), s[:cap(s)])
	}
	return frozen{name, f, f()}
}

func thawed(c *rt.Case, call string, fs ...frozen) {
	for _, f := range fs {
		if now := f.live(); now != f.was {
			c.Fail("%s modified the caller's %s: %.300s became %.300s", call, f.name, f.was, now)
		}
		c.Event("arguments compared after the call")
	}
}

func spareBytes(r *rand.Rand, b []byte) []byte {
	x := make([]byte, len(b), len(b)+40)
	copy(x, b)
	y := x[:cap(x)]
	for i := len(b); i < len(y); i++ {
		y[i] = byte(r.Intn(256))
	}
	return x
}

func spareWords(b []string) []string {
	x := append(make([]string, 0, len(b)+5), b...)
	y := x[:cap(x)]
	for i := len(b); i < len(y); i++ {
		y[i] = "SPARE"
	}
	return x
}

func spareIdx(b []uint16) []uint16 {
	x := append(make([]uint16, 0, len(b)+5), b...)
	y := x[:cap(x)]
	for i := len(b); i < len(y); i++ {
		y[i] = 777
	}
	return x
}

func init() {
	rt.Register(&rt.Property{ID: "C15", Variant: "race", Elsewhere: true,
		Rule:   "case = one set of shared objects used by several goroutines at once under the race detector, every answer compared with the answer the same call gives alone; or one call whose arguments (including spare slice capacity) are compared before and after; or one object compared with a pristine twin after everything passed in and handed out was overwritten. Distinct by inputs.",
		Assume: []string{"Argon2id replaced by a stand-in (no scheduling points inside it)", "the race detector reports races on the accesses that executed"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "shared-key", Quick: 260, Thorough: 8000, Workers: 3, Limit: 50 * time.Second, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					c.Input(p.desc())
					ss := c.R.Int63()
					alone := answers(keyOps(build(c, p), ss))
					together(c, keyOps(build(c, p), ss), alone, 2+c.R.Intn(7), 1+c.R.Intn(2))
					c.Distinct(p)
				}},
				{Name: "shared-key-protected", Quick: 2, Thorough: 60, Workers: 1, Limit: 60 * time.Second, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					p.Sel = []string{pick(c.R, spec.Subkeys)}
					c.Input(p.desc())
					m := build(c, p)
					pw := []byte("shared password")
					fz := freezeBytes("password", pw)
					var wg sync.WaitGroup
					outs := make([][]byte, 4)
					errs := make([]error, 4)
					for g := range outs {
						wg.Add(1)
						go func(g int) {
							defer wg.Done()
							if g%2 == 0 {
								outs[g], errs[g] = m.EncodePGP(pw)
							} else {
								outs[g], errs[g] = m.EncodeSubkeysPGP(pw, true)
							}
						}(g)
					}
					wg.Wait()
					thawed(c, "EncodePGP", fz)
					for g := range outs {
						c.Check(errs[g] == nil, "export: %v", errs[g])
						ct := cert(c, outs[g])
						s := ct.Sub(p.Sel[0])
						c.Check(s != nil, "subkey missing")
						_, _, s2k, err := s.Key.SecretPart()
						c.Check(err == nil && s2k != nil, "secret part: %v", err)
						if g == 0 {
							sec, ok, err := s2k.Open(pw)
							want := spec.Derive(p.root(), p.Sel[0], p.index(p.Sel[0]))
							c.Check(ok && err == nil && bytes.Equal(sec, want.Secret), "concurrent protected export does not decrypt")
						}
					}
					c.EventN("concurrent calls compared", 4)
					c.Distinct(p)
				}},
				{Name: "shared-seed", Quick: 200, Thorough: 6000, Workers: 3, Limit: 40 * time.Second, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					c.Input(p.desc())
					ss := c.R.Int63()
					mk := func(seed *mnemonikey.Seed, o *mnemonikey.KeyOptions) []op {
						pw := []byte("pass")
						t := p.creation()
						return []op{
							{"Era", func() string { return fmt.Sprint(seed.Era()) }},
							{"Int", func() string { return seed.Int().String() }},
							{"Bytes", func() string { return hex.EncodeToString(seed.Bytes()) }},
							{"EncodeMnemonicPlaintext", func() string { return ws(mnemonikey.EncodeMnemonicPlaintext(seed, p.Offset)) }},
							{"EncodeMnemonicEncrypted", func() string {
								return ws(mnemonikey.EncodeMnemonicEncrypted(seed, p.Offset, pw, &detReader{r: rand.New(rand.NewSource(ss))}))
							}},
							{"New", func() string {
								m, err := mnemonikey.New(seed, t, o)
								if err != nil {
									return "error " + err.Error()
								}
								return hx(m.EncodePGP(nil))
							}},
							{"New+phrase", func() string {
								m, err := mnemonikey.New(seed, t, nil)
								if err != nil {
									return "error " + err.Error()
								}
								return ws(m.EncodeMnemonicPlaintext())
							}},
						}
					}
					alone := answers(mk(newSeed(c, p.Seed), p.opts()))
					together(c, mk(newSeed(c, p.Seed), p.opts()), alone, 2+c.R.Intn(5), 2)
					c.Distinct(p)
				}},
				{Name: "shared-phrase", Quick: 200, Thorough: 6000, Workers: 3, Limit: 40 * time.Second, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					c.Input(p.desc())
					pw := genPassword(c.R)
					plain := spareWords(mixCase(c.R, spec.EncodePlain(p.Seed, p.Offset)))
					enc := spareWords(mixCase(c.R, spec.EncodeEncrypted(p.Seed, p.Offset, pw, genSalt(c.R))))
					sd := func(s *mnemonikey.Seed, err error) string {
						if err != nil {
							return "error " + err.Error()
						}
						return hex.EncodeToString(s.Bytes())
					}
					key := func(m *mnemonikey.Mnemonikey, err error) string {
						if err != nil {
							return "error " + err.Error()
						}
						return hx(m.EncodePGP(nil))
					}
					mk := func(o *mnemonikey.KeyOptions) []op {
						d0, err := mnemonikey.DecodeMnemonic(plain)
						c.Check(err == nil, "decode: %v", err)
						d1, err := mnemonikey.DecodeMnemonic(enc)
						c.Check(err == nil, "decode: %v", err)
						return []op{
							{"Seed", func() string { return sd(d0.Seed()) }},
							{"DecryptSeed plain", func() string { return sd(d0.DecryptSeed(pw)) }},
							{"Seed encrypted", func() string { return sd(d1.Seed()) }},
							{"DecryptSeed", func() string { return sd(d1.DecryptSeed(pw)) }},
							{"DecryptSeed wrong", func() string { return sd(d1.DecryptSeed([]byte("wrong"))) }},
							{"Creation", func() string { return fmt.Sprint(d1.Creation(), d1.CreationOffset(), d0.Encrypted(), d1.Encrypted()) }},
							{"RecoverPlaintext", func() string { return key(mnemonikey.RecoverPlaintext(plain, o)) }},
							{"RecoverEncrypted", func() string { return key(mnemonikey.RecoverEncrypted(enc, pw, o)) }},
							{"DecodeMnemonic", func() string {
								d, err := mnemonikey.DecodeMnemonic(enc)
								if err != nil {
									return "error " + err.Error()
								}
								return fmt.Sprint(d.CreationOffset())
							}},
							{"ParseMnemonicVersion", func() string {
								v, err := mnemonikey.ParseMnemonicVersion(enc[0])
								return fmt.Sprint(v, err)
							}},
							{"DecodeWords", func() string { i, err := mnemonic.DecodeWords(plain); return fmt.Sprint(i, err) }},
						}
					}
					alone := answers(mk(p.opts()))
					together(c, mk(p.opts()), alone, 2+c.R.Intn(5), 2)
					c.Distinct(p, pw)
				}},
				{Name: "shared-codec", Quick: 150, Thorough: 6000, Workers: 3, Limit: 30 * time.Second, Fn: func(c *rt.Case) {
					n := new(big.Int).Rand(c.R, new(big.Int).Lsh(big.NewInt(1), 200))
					idx := make([]uint16, 14)
					for i := range idx {
						idx[i] = uint16(c.R.Intn(4096))
					}
					seedBytes := make([]byte, 32)
					c.R.Read(seedBytes)
					msg := make([]byte, 32)
					c.R.Read(msg)
					t := time.Unix(spec.EpochUnix+int64(c.R.Int31()), 0)
					c.Input(map[string]any{"n": n.Text(16)})
					mk := func() []op {
						mk1, _ := pgp.NewED25519MasterKey(seedBytes, t, time.Time{})
						sk, _ := pgp.NewED25519Subkey(seedBytes, t, t.Add(time.Hour))
						ek, _ := pgp.NewCurve25519Subkey(seedBytes, t, time.Time{}, nil)
						uid := &pgp.UserID{Name: "n", Email: "e"}
						ks := &pgp.KeySet{UserID: uid, MasterKey: mk1, EncryptionSubkey: ek, AuthenticationSubkey: sk, SigningSubkey: sk}
						return []op{
							{"EncodeToIndices", func() string { i, err := mnemonic.EncodeToIndices(n, 204); return fmt.Sprint(i, err) }},
							{"EncodeToWords", func() string { i, err := mnemonic.EncodeToWords(idx); return fmt.Sprint(i, err) }},
							{"DecodeIndices", func() string { i, err := mnemonic.DecodeIndices(idx); return fmt.Sprint(i, err) }},
							{"EncodeMPI", func() string { return digest(pgp.EncodeMPI(n)) }},
							{"EncodePacket", func() string { return digest(pgp.EncodePacket(pgp.PacketTagUserID, msg)) }},
							{"master packet", func() string { return hx(mk1.EncodePrivatePacket(nil)) }},
							{"master stub", func() string { return digest(mk1.EncodePrivateDummyPacket()) }},
							{"master public", func() string { return digest(mk1.EncodePublicPacket()) }},
							{"SelfCertify", func() string { return digest(mk1.SelfCertify(uid).EncodePacket()) }},
							{"UserID", func() string { return digest(uid.EncodePacket()) }},
							{"sub packet", func() string { return hx(sk.EncodePrivatePacket(nil)) }},
							{"enc packet", func() string { return hx(ek.EncodePrivatePacket(nil)) }},
							{"enc public", func() string { return digest(ek.EncodePublicSubkeyPacket()) }},
							{"KeySet", func() string { return hx(ks.EncodePackets(nil)) }},
							{"KeySet subkeys", func() string { return hx(ks.EncodeSubkeyPackets(nil, true)) }},
							{"NewCurve25519Subkey", func() string {
								k, err := pgp.NewCurve25519Subkey(seedBytes, t, time.Time{}, nil)
								if err != nil {
									return err.Error()
								}
								return hex.EncodeToString(k.FingerprintV4())
							}},
						}
					}
					alone := answers(mk())
					together(c, mk(), alone, 2+c.R.Intn(5), 2)
					c.Distinct(n)
				}},
				{Name: "independent", Quick: 60, Thorough: 2000, Workers: 1, Limit: 40 * time.Second, Fn: func(c *rt.Case) {
					// unrelated keys made at the same time do not influence each other
					const n = 8
					ps := make([]Params, n)
					want := make([]string, n)
					for i := range ps {
						ps[i] = genParams(c.R)
						want[i] = hx(build(c, ps[i]).EncodePGP(nil))
					}
					c.Input(ps[0].desc())
					got := make([]string, n)
					var wg sync.WaitGroup
					for i := range ps {
						wg.Add(1)
						go func(i int) {
							defer wg.Done()
							m, err := mnemonikey.RecoverPlaintext(spec.EncodePlain(ps[i].Seed, ps[i].Offset), ps[i].opts())
							if err != nil {
								got[i] = err.Error()
								return
							}
							got[i] = hx(m.EncodePGP(nil))
						}(i)
					}
					wg.Wait()
					for i := range ps {
						c.Check(got[i] == want[i], "key %d made next to others exports %s, alone %s", i, got[i], want[i])
					}
					c.EventN("concurrent calls compared", n)
					c.Distinct(ps)
				}},
				{Name: "arguments", Quick: 1500, Thorough: 50000, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					c.Input(p.desc())
					pw := spareBytes(c.R, genPassword(c.R))
					n := bigOf(p.Seed)
					o := p.opts()
					if o.Subkeys != nil {
						s := make([]mnemonikey.SubkeyType, len(o.Subkeys), len(o.Subkeys)+4)
						copy(s, o.Subkeys)
						for i := len(s); i < cap(s); i++ {
							s[:cap(s)][i] = "spare"
						}
						o.Subkeys = s
					}
					fn, fo, fp := freezeBig("integer", n), freezeOpts("options", o), freezeBytes("password", pw)
					seed, err := mnemonikey.NewSeed(0, n)
					c.Check(err == nil, "NewSeed: %v", err)
					thawed(c, "NewSeed", fn)
					m, err := mnemonikey.New(seed, p.creation(), o)
					c.Check(err == nil, "New: %v", err)
					thawed(c, "New", fn, fo)
					sixExports(m)
					thawed(c, "the exports", fn, fo)
					words, err := m.EncodeMnemonicEncrypted(pw, &detReader{r: c.R})
					c.Check(err == nil, "EncodeMnemonicEncrypted: %v", err)
					thawed(c, "EncodeMnemonicEncrypted", fn, fo, fp)
					words = spareWords(mixCase(c.R, words))
					fw := freezeWords("words", words)
					_, err = mnemonikey.RecoverEncrypted(words, pw, o)
					c.Check(err == nil, "RecoverEncrypted: %v", err)
					thawed(c, "RecoverEncrypted", fn, fo, fp, fw)
					mnemonikey.RecoverEncrypted(words, []byte("nope"), o)
					d, _ := mnemonikey.DecodeMnemonic(words)
					d.DecryptSeed(pw)
					thawed(c, "DecryptSeed", fp, fw)
					words[c.R.Intn(len(words))] = "NotAWord"
					fw = freezeWords("words", words)
					mnemonikey.DecodeMnemonic(words)
					mnemonic.DecodeWords(words)
					thawed(c, "DecodeMnemonic", fw)
					pl := spareWords(mixCase(c.R, spec.EncodePlain(p.Seed, p.Offset)))
					fl := freezeWords("words", pl)
					_, err = mnemonikey.RecoverPlaintext(pl, o)
					c.Check(err == nil, "RecoverPlaintext: %v", err)
					mnemonikey.ParseMnemonicVersion(pl[0])
					ind, err := mnemonic.DecodeWords(pl)
					c.Check(err == nil, "DecodeWords: %v", err)
					thawed(c, "RecoverPlaintext", fl, fo)
					ind = spareIdx(ind)
					fi := freezeIdx("indices", ind)
					big1, err := mnemonic.DecodeIndices(ind)
					c.Check(err == nil, "DecodeIndices: %v", err)
					mnemonic.EncodeToWords(ind)
					thawed(c, "DecodeIndices", fi)
					fb := freezeBig("integer", big1)
					mnemonic.EncodeToIndices(big1, uint(len(ind))*12)
					mnemonic.EncodeToIndices(big1, 7)
					pgp.EncodeMPI(big1)
					thawed(c, "EncodeToIndices", fb)
					kseed := make([]byte, 32)
					c.R.Read(kseed)
					kseed = spareBytes(c.R, kseed)
					fk := freezeBytes("key seed", kseed)
					pgp.NewED25519MasterKey(kseed, p.creation(), time.Time{})
					pgp.NewED25519Subkey(kseed, p.creation(), time.Time{})
					pgp.NewCurve25519Subkey(kseed, p.creation(), time.Time{}, nil)
					pgp.EncodePacket(pgp.PacketTagUserID, kseed)
					thawed(c, "the key constructors", fk)
					c.Distinct(p, pw)
				}},
				{Name: "protected-arguments", Quick: 6, Thorough: 200, Limit: 60 * time.Second, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					p.Sel = []string{pick(c.R, spec.Subkeys)}
					c.Input(p.desc())
					pw := spareBytes(c.R, genPassword(c.R))
					fp := freezeBytes("password", pw)
					m := build(c, p)
					before := digests(c, m)
					_, err := m.EncodeSubkeysPGP(pw, true)
					c.Check(err == nil, "export: %v", err)
					pt := spareBytes(c.R, pw)
					ft := freezeBytes("plaintext", pt)
					pgp.EncryptS2K(pgp.HashFuncSHA256, pt, pw)
					thawed(c, "the protected export", fp, ft)
					sameDigests(c, before, digests(c, m), "changed by a protected export in between")
					c.Distinct(p, pw)
				}},
				{Name: "ownership", Quick: 1500, Thorough: 50000, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					c.Input(p.desc())
					ss := c.R.Int63()
					want := answers(keyOps(build(c, p), ss))
					n := bigOf(p.Seed)
					o := p.opts()
					seed, err := mnemonikey.NewSeed(0, n)
					c.Check(err == nil, "NewSeed: %v", err)
					m, err := mnemonikey.New(seed, p.creation(), o)
					c.Check(err == nil, "New: %v", err)
					// overwrite everything that was passed in
					scramble := func(x *big.Int) {
						b := x.Bits()
						for i := range b[:cap(b)] {
							b[:cap(b)][i] ^= 0x5A5A5A5A
						}
						x.SetInt64(c.R.Int63())
					}
					scramble(n)
					o.Name, o.Email, o.TTL = "changed", "changed", 99*time.Hour
					o.EncryptionSubkeyIndex ^= 1
					o.AuthenticationSubkeyIndex ^= 1
					o.SigningSubkeyIndex ^= 1
					for i := range o.Subkeys {
						o.Subkeys[i] = "changed"
					}
					o.Subkeys = nil
					// overwrite everything that is handed out
					wipe := func(b []byte) {
						for i := range b[:cap(b)] {
							b[:cap(b)][i] ^= 0xFF
						}
					}
					scramble(seed.Int())
					wipe(seed.Bytes())
					wipe(m.Fingerprint())
					for _, k := range spec.Subkeys {
						wipe(m.SubkeyFingerprint(mnemonikey.SubkeyType(k)))
					}
					ts := m.SubkeyTypes()
					for i := range ts[:cap(ts)] {
						ts[:cap(ts)][i] = "changed"
					}
					e, err := sixExports(m)
					c.Check(err == nil, "export: %v", err)
					for i := range e {
						wipe(e[i])
					}
					w, err := m.EncodeMnemonicPlaintext()
					c.Check(err == nil, "phrase: %v", err)
					for i := range w {
						w[i] = "changed"
					}
					got := answers(keyOps(m, ss))
					for i := range got {
						c.Check(got[i] == want[i], "%s changed after the caller overwrote inputs and results: %.200q, want %.200q", keyOps(m, ss)[i].name, got[i], want[i])
						c.Event("answers compared after overwriting")
					}
					// decoded phrases
					pw := append([]byte{}, genPassword(c.R)...)
					enc := spec.EncodeEncrypted(p.Seed, p.Offset, pw, genSalt(c.R))
					pl := spec.EncodePlain(p.Seed, p.Offset)
					d1, err := mnemonikey.DecodeMnemonic(enc)
					c.Check(err == nil, "decode: %v", err)
					d0, err := mnemonikey.DecodeMnemonic(pl)
					c.Check(err == nil, "decode: %v", err)
					for i := range enc {
						enc[i] = "changed"
					}
					for i := range pl {
						pl[i] = "changed"
					}
					for k := 0; k < 2; k++ {
						s1, err := d1.DecryptSeed(pw)
						c.Check(err == nil && bytes.Equal(s1.Bytes(), p.Seed[:]), "decoded phrase gives another seed (%v)", err)
						s0, err := d0.Seed()
						c.Check(err == nil && bytes.Equal(s0.Bytes(), p.Seed[:]), "decoded phrase gives another seed (%v)", err)
						scramble(s1.Int())
						scramble(s0.Int())
						wipe(s0.Bytes())
						wipe(s1.Bytes())
						c.Check(d1.CreationOffset() == p.Offset && d0.CreationOffset() == p.Offset, "creation offset changed")
						c.Event("answers compared after overwriting")
					}
					c.Distinct(p)
				}},
				{Name: "ownership-pgp", Quick: 800, Thorough: 20000, Fn: func(c *rt.Case) {
					s := make([]byte, 32)
					c.R.Read(s)
					t := time.Unix(spec.EpochUnix+int64(c.R.Int31()), 0)
					c.Input(map[string]any{"seed": hex.EncodeToString(s)})
					mk := func(s []byte) []op {
						a, e1 := pgp.NewED25519MasterKey(s, t, time.Time{})
						b, e2 := pgp.NewED25519Subkey(s, t, time.Time{})
						k, e3 := pgp.NewCurve25519Subkey(s, t, time.Time{}, nil)
						c.Check(e1 == nil && e2 == nil && e3 == nil, "key: %v %v %v", e1, e2, e3)
						return []op{
							{"master", func() string { return hx(a.EncodePrivatePacket(nil)) + hex.EncodeToString(a.FingerprintV4()) }},
							{"subkey", func() string { return hx(b.EncodePrivatePacket(nil)) + hex.EncodeToString(b.FingerprintV4()) }},
							{"encryption subkey", func() string { return hx(k.EncodePrivatePacket(nil)) + hex.EncodeToString(k.FingerprintV4()) }},
							{"self-certification", func() string { return digest(a.SelfCertify(&pgp.UserID{Name: "x"}).EncodePacket()) }},
						}
					}
					want := answers(mk(append([]byte{}, s...)))
					live := append([]byte{}, s...)
					ops := mk(live)
					for i := range live {
						live[i] ^= 0xA5
					}
					got := answers(ops)
					for i := range got {
						c.Check(got[i] == want[i], "pgp %s changed when the caller overwrote the seed it was made from", ops[i].name)
						c.Event("answers compared after overwriting")
					}
					c.Distinct(s)
				}},
			}
		},
		Finish: func(r *rt.Run) {
			files, _ := filepath.Glob(os.Getenv("VERIF_RACE_LOG") + ".*")
			reports, own := 0, 0
			for _, f := range files {
				b, err := os.ReadFile(f)
				if err != nil {
					continue
				}
				for _, rep := range strings.Split(string(b), "==================") {
					if !strings.Contains(rep, "DATA RACE") {
						continue
					}
					if strings.Contains(rep, "/repo/") {
						reports++
						if reports <= 3 {
							r.FailRun("race-detector", "data race in the library:\n%s", rep)
						}
					} else {
						own++
					}
				}
			}
			r.Event("race reports", int64(reports))
			if own > 0 {
				r.Note("%d race reports without a frame of the library were set aside", own)
			}
		}})
}
