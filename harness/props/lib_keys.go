package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/kklash/mnemonikey"

	"verifharness/cli"
	"verifharness/rt"
	"verifharness/spec"
)

// lightKeys reads the plain key packets of an export without verifying
// signatures: kind -> key, and the raw packets in order.
func lightKeys(c *rt.Case, data []byte) (map[string]*spec.Key, []spec.Packet) {
	pk, err := spec.ParsePackets(data)
	c.Check(err == nil, "export does not parse: %v", err)
	out := map[string]*spec.Key{}
	for i, p := range pk {
		switch p.Tag {
		case 5, 7:
			k, err := spec.ParseKey(p)
			c.Check(err == nil, "key packet: %v", err)
			if p.Tag == 5 {
				out["master"] = k
				continue
			}
			c.Check(i+1 < len(pk) && pk[i+1].Tag == 2, "subkey without binding")
			s, err := spec.ParseSig(pk[i+1].Body)
			c.Check(err == nil, "binding: %v", err)
			fl, _ := s.One(27)
			c.Check(len(fl) == 1, "binding without key flags")
			switch fl[0] {
			case 0x0C:
				out["encryption"] = k
			case 0x20:
				out["authentication"] = k
			case 0x02:
				out["signing"] = k
			}
		}
	}
	return out, pk
}

func lightCompare(c *rt.Case, data []byte, p Params, root []byte) {
	keys, _ := lightKeys(c, data)
	sel := p.selected()
	c.Check(len(keys) == 1+len(sel), "export has %d keys, want %d", len(keys), 1+len(sel))
	for name, k := range keys {
		want := spec.Derive(root, name, p.index(name))
		sec := plainSecret(c, k, name)
		c.Check(bytes.Equal(sec, want.Secret), "%s secret (index %d) is %x, published derivation gives %x", name, p.index(name), sec, want.Secret)
		c.Check(bytes.Equal(k.Point, want.Public), "%s public key is wrong", name)
		c.Event("secret keys compared with the derivation")
	}
}

// steer looks for parameters whose derived material satisfies pred.
func steer(r *rand.Rand, tries int, pred func(p Params, root []byte) bool) (Params, bool) {
	p := Params{Offset: genOffset(r), Enc: genIndex(r), Auth: genIndex(r), Sig: genIndex(r), Name: "steered"}
	r.Read(p.Seed[:])
	for i := 0; i < tries; i++ {
		p.Seed[0], p.Seed[1], p.Seed[2] = byte(i), byte(i>>8), byte(i>>16)
		if pred(p, p.root()) {
			return p, true
		}
	}
	return p, false
}

var steerKinds = []string{"master", "authentication", "signing", "encryption"}

// steered finds keys whose secret starts (or ends) with zero bytes.
func steered(c *rt.Case) (Params, bool) {
	kind := steerKinds[c.Index%4]
	return steer(c.R, 400000, func(p Params, root []byte) bool {
		var s []byte
		if kind == "master" {
			s = spec.MasterSeed(root)
		} else {
			s = spec.SubkeySeed(root, kind, p.index(kind))
		}
		switch c.Index / 4 % 3 {
		case 0:
			return s[0] == 0 && s[1] == 0
		case 1:
			return s[0] == 0 && s[1] < 0x10
		}
		return s[31] == 0 && s[30] == 0
	})
}

func init() {
	rt.Register(&rt.Property{ID: "C05", Variant: "fast", Elsewhere: true,
		Rule:   "case = (seed, creation instant and zone, options incl. indices, earlier calls); every secret key exported is compared with an independent derivation; distinct by inputs. All 65536 indices of all three subkey types are enumerated; keys whose secret has leading or trailing zero bytes are searched for.",
		Assume: []string{"Argon2id replaced by a stand-in PRF of variant and all parameters in the large streams; the real one in the real-kdf stream"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "all-indices", Quick: 512, Thorough: 512 * 8, Limit: 90 * time.Second, Min: 512, Fn: func(c *rt.Case) {
					var p Params
					rr := rand.New(rand.NewSource(int64(c.Index / 512)))
					p.Seed, p.Offset = genSeed(rr), genOffset(rr)
					root := p.root()
					c.Input(map[string]any{"seed": fmt.Sprintf("%x", p.Seed), "offset": p.Offset, "indices": fmt.Sprintf("%d..%d", c.Index%512*128, c.Index%512*128+127)})
					for j := 0; j < 128; j++ {
						i := c.Index%512*128 + j
						p.Enc, p.Auth, p.Sig = uint16(i), uint16(i*40503+1), uint16(65535-i)
						lightCompare(c, export(c, build(c, p)), p, root)
						c.Distinct(p)
					}
				}},
				{Name: "edge-seeds", Quick: nEdgeSeeds * 2, Thorough: nEdgeSeeds * 20, Fn: func(c *rt.Case) {
					p := Params{Seed: edgeSeed(c.Index % nEdgeSeeds), Offset: genOffset(c.R), Enc: genIndex(c.R), Auth: genIndex(c.R), Sig: genIndex(c.R)}
					c.Input(p.desc())
					lightCompare(c, export(c, build(c, p)), p, p.root())
					c.Distinct(p)
				}},
				{Name: "edge-offsets", Quick: len(offsetEdges) * 2, Thorough: len(offsetEdges) * 30, Fn: func(c *rt.Case) {
					p := Params{Seed: genSeed(c.R), Offset: offsetEdges[c.Index%len(offsetEdges)]}
					c.Input(p.desc())
					lightCompare(c, export(c, build(c, p)), p, p.root())
					c.Distinct(p)
				}},
				{Name: "random", Quick: 8000, Thorough: 400000, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					c.Input(p.desc())
					lightCompare(c, export(c, build(c, p)), p, p.root())
					c.Distinct(p)
				}},
				{Name: "zero-bytes", Quick: 48, Thorough: 600, Fn: func(c *rt.Case) {
					p, ok := steered(c)
					if !ok {
						return
					}
					c.Input(p.desc())
					c.Event("keys with zero edge bytes found")
					lightCompare(c, export(c, build(c, p)), p, p.root())
					c.Distinct(p)
				}},
				{Name: "non-interference", Quick: 3000, Thorough: 80000, Fn: func(c *rt.Case) {
					// same seed and second, everything else varied, in sequence
					p := genParams(c.R)
					c.Input(p.desc())
					root := p.root()
					for k := 0; k < 3; k++ {
						q := genParams(c.R)
						q.Seed, q.Offset = p.Seed, p.Offset
						loc := genZone(c.R)
						at := time.Unix(p.unix(), 0).In(loc)
						if p.Offset < spec.MaxOffset {
							at = time.Unix(p.unix(), genNanos(c.R)).In(loc)
						}
						m, err := mnemonikey.New(newSeed(c, q.Seed), at, q.opts())
						c.Check(err == nil, "New: %v", err)
						if c.R.Intn(2) == 0 { // earlier calls on the object
							m.EncodeMnemonicPlaintext()
							m.EncodeMnemonicEncrypted([]byte("x"), salted(c.R))
							m.EncodeSubkeysPGP(nil, c.R.Intn(2) == 0)
							m.Fingerprint()
						}
						lightCompare(c, export(c, m), q, root)
					}
					c.Distinct(p)
				}},
				{Name: "other-exports", Quick: 1500, Thorough: 40000, Fn: func(c *rt.Case) {
					// subkeys-only exports and recovered keys carry the same secrets
					p := genParams(c.R)
					c.Input(p.desc())
					root := p.root()
					m := build(c, p)
					data, err := m.EncodeSubkeysPGP(nil, c.R.Intn(2) == 0)
					c.Check(err == nil, "EncodeSubkeysPGP: %v", err)
					keys, _ := lightKeys(c, data)
					for name, k := range keys {
						want := spec.Derive(root, name, p.index(name))
						c.Check(bytes.Equal(k.Point, want.Public), "%s public key is wrong", name)
						if name != "master" {
							c.Check(bytes.Equal(plainSecret(c, k, name), want.Secret), "%s secret key is wrong in the subkeys-only export", name)
						}
						c.Event("secret keys compared with the derivation")
					}
					pw := genPassword(c.R)
					words := spec.EncodeEncrypted(p.Seed, p.Offset, pw, genSalt(c.R))
					rec, err := mnemonikey.RecoverEncrypted(words, pw, p.opts())
					c.Check(err == nil, "RecoverEncrypted: %v", err)
					lightCompare(c, export(c, rec), p, root)
					rec, err = mnemonikey.RecoverPlaintext(spec.EncodePlain(p.Seed, p.Offset), p.opts())
					c.Check(err == nil, "RecoverPlaintext: %v", err)
					lightCompare(c, export(c, rec), p, root)
					c.Distinct(p)
				}},
			}
		}})
	rt.Register(&rt.Property{ID: "C05", Variant: "real", Rule: "as the fast part, with the real Argon2id",
		Streams: func() []rt.Stream {
			return []rt.Stream{{Name: "real-kdf", Quick: 6, Thorough: 80, Workers: 4, Limit: 120 * time.Second, Fn: func(c *rt.Case) {
				p := genParams(c.R)
				c.Input(p.desc())
				lightCompare(c, export(c, build(c, p)), p, p.root())
				c.Event("keys derived with the real Argon2id")
				c.Distinct(p)
			}}}
		}})

	rt.Register(&rt.Property{ID: "C06", Variant: "fast", Elsewhere: true,
		Rule:   "case = a block of 128 indices of the enumeration of all 3 x 65536 (type, index) pairs of one seed (all public keys collected and compared), or a pair of keys differing in one index; distinct by inputs.",
		Assume: []string{"Argon2id replaced by a stand-in (the root key is opaque here)"},
		Streams: func() []rt.Stream {
			type slot struct {
				set, kind string
				idx       uint16
			}
			var mu sync.Mutex
			seen := map[string]slot{}
			note := func(c *rt.Case, set, kind string, idx uint16, k *spec.Key) {
				mu.Lock()
				id := set + string(k.Point)
				old, dup := seen[id]
				seen[id] = slot{set, kind, idx}
				mu.Unlock()
				if dup && !(old.kind == kind && (old.idx == idx || kind == "master")) {
					c.Fail("%s subkey %d has the same key as %s %d", kind, idx, old.kind, old.idx)
				}
				c.Event("public keys in the distinctness set")
			}
			// diff compares exports of p and q, which differ only in the index of kind.
			diff := func(c *rt.Case, p, q Params, kind string) {
				da, db := export(c, build(c, p)), export(c, build(c, q))
				a, b := cert(c, da), cert(c, db)
				c.Check(bytes.Equal(a.MasterRaw, b.MasterRaw), "changing the %s index changed the master key packet", kind)
				c.Check(bytes.Equal(a.UIDRaw, b.UIDRaw) && bytes.Equal(a.SelfRaw, b.SelfRaw), "changing the %s index changed the self-certification", kind)
				c.Check(len(a.Subs) == len(b.Subs), "changing the %s index changed the number of subkeys", kind)
				for i := range a.Subs {
					c.Check(a.Subs[i].Kind == b.Subs[i].Kind, "changing the %s index changed the subkey order", kind)
					same := bytes.Equal(a.Subs[i].Packet.Raw, b.Subs[i].Packet.Raw) && bytes.Equal(a.Subs[i].SigRaw, b.Subs[i].SigRaw)
					if a.Subs[i].Kind == kind {
						c.Check(!bytes.Equal(a.Subs[i].Key.Point, b.Subs[i].Key.Point), "%s subkeys %d and %d are the same key", kind, p.index(kind), q.index(kind))
					} else {
						c.Check(same, "changing the %s index changed the %s subkey", kind, a.Subs[i].Kind)
					}
				}
				c.Event("index changes compared")
			}
			setIdx := func(p *Params, kind string, i uint16) {
				switch kind {
				case "encryption":
					p.Enc = i
				case "authentication":
					p.Auth = i
				case "signing":
					p.Sig = i
				}
			}
			return []rt.Stream{
				{Name: "all-indices", Quick: 512, Thorough: 512 * 4, Limit: 90 * time.Second, Min: 512, Fn: func(c *rt.Case) {
					rr := rand.New(rand.NewSource(int64(c.Index/512) + 77))
					var p Params
					p.Seed, p.Offset = genSeed(rr), genOffset(rr)
					set := fmt.Sprint(c.Index / 512)
					c.Input(map[string]any{"seed": fmt.Sprintf("%x", p.Seed), "offset": p.Offset, "indices": fmt.Sprintf("%d..%d", c.Index%512*128, c.Index%512*128+127)})
					for j := 0; j < 128; j++ {
						i := uint16(c.Index%512*128 + j)
						p.Enc, p.Auth, p.Sig = i, i, i
						keys, _ := lightKeys(c, export(c, build(c, p)))
						c.Check(len(keys) == 4, "export has %d keys", len(keys))
						for name, k := range keys {
							note(c, set, name, i, k)
						}
						c.Distinct(p)
					}
				}},
				{Name: "one-index-changed", Quick: 4000, Thorough: 150000, Fn: func(c *rt.Case) {
					p := genParams(c.R)
					q := p
					sel := []string{}
					for _, k := range spec.Subkeys {
						if p.selected()[k] {
							sel = append(sel, k)
						}
					}
					if len(sel) == 0 {
						p.Sel, q.Sel = nil, nil
						sel = spec.Subkeys
					}
					kind := pick(c.R, sel)
					for q.index(kind) == p.index(kind) {
						setIdx(&q, kind, uint16(c.R.Intn(65536)))
					}
					if c.R.Intn(2) == 0 { // neighbouring, or differing in one bit
						setIdx(&q, kind, p.index(kind)^1<<uint(c.R.Intn(16)))
					}
					c.Input(map[string]any{"key": p.desc(), "kind": kind, "other index": q.index(kind)})
					diff(c, p, q, kind)
					c.Distinct(p, q)
				}},
				{Name: "bit-flips", Quick: 48 * 8, Thorough: 48 * 100, Fn: func(c *rt.Case) {
					kind := spec.Subkeys[c.Index%3]
					bit := c.Index / 3 % 16
					p := Params{Seed: genSeed(c.R), Offset: genOffset(c.R), Enc: genIndex(c.R), Auth: genIndex(c.R), Sig: genIndex(c.R)}
					q := p
					setIdx(&q, kind, p.index(kind)^1<<uint(bit))
					c.Input(map[string]any{"key": p.desc(), "kind": kind, "bit": bit})
					diff(c, p, q, kind)
					c.Distinct(p, q)
				}},
				{Name: "unselected-index", Quick: 1500, Thorough: 30000, Fn: func(c *rt.Case) {
					// the index of a subkey that is not exported has no effect at all
					p := genParams(c.R)
					kind := pick(c.R, spec.Subkeys)
					p.Sel = []string{}
					for _, k := range spec.Subkeys {
						if k != kind && c.R.Intn(2) == 0 {
							p.Sel = append(p.Sel, k)
						}
					}
					q := p
					setIdx(&q, kind, p.index(kind)+1+uint16(c.R.Intn(65535)))
					c.Check(bytes.Equal(export(c, build(c, p)), export(c, build(c, q))), "index of the unselected %s subkey changes the export", kind)
					c.Event("index changes compared")
					c.Distinct(p, q)
				}},
				{Name: "cross-seed", Quick: 2000, Thorough: 60000, Fn: func(c *rt.Case) {
					// same indices, seed or creation changed: everything changes
					p := genParams(c.R)
					p.Sel = nil
					q := p
					if c.R.Intn(2) == 0 {
						q.Offset = (p.Offset + 1 + uint32(c.R.Intn(100))) & spec.MaxOffset
					} else {
						b := c.R.Intn(128)
						q.Seed[b/8] ^= 1 << (b % 8)
					}
					ka, _ := lightKeys(c, export(c, build(c, p)))
					kb, _ := lightKeys(c, export(c, build(c, q)))
					pts := map[string]string{}
					for s, ks := range map[string]map[string]*spec.Key{"first": ka, "second": kb} {
						for n, k := range ks {
							if o, dup := pts[string(k.Point)]; dup {
								c.Fail("%s %s equals %s", s, n, o)
							}
							pts[string(k.Point)] = s + " " + n
						}
					}
					c.Distinct(p, q)
				}},
			}
		}})

	rt.Register(&rt.Property{ID: "C08", Variant: "fast", Elsewhere: true,
		Rule:   "case = one key (seed, creation, user ID, TTL, selection, indices) and its exports, parsed by an independent OpenPGP implementation which verifies every signature; distinct by inputs. User ID lengths cover every packet length encoding boundary; gpg cases import into a scratch keyring and use the keys.",
		Assume: []string{"Argon2id replaced by a stand-in", "SHA-1/SHA-256, Ed25519 verification and X25519 of the Go standard library"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "random", Quick: 6000, Thorough: 300000, Fn: func(c *rt.Case) { c08(c, genParams(c.R)) }},
				{Name: "uid-lengths", Quick: 2000, Thorough: 70000, Fn: func(c *rt.Case) {
					p := Params{Seed: genSeed(c.R), Offset: genOffset(c.R), TTL: genTTL(c.R)}
					n := c.Index
					if n >= 600 {
						n = pick(c.R, uidEdges) + c.R.Intn(5) - 2
						if c.R.Intn(4) == 0 {
							n = c.R.Intn(140000)
						}
						if n < 0 {
							n = 0
						}
					}
					switch {
					case n >= 6 && c.R.Intn(3) == 0:
						e := 1 + c.R.Intn(n-4)
						p.Name, p.Email = strLen(c.R, n-3-e), strLen(c.R, e)
					case c.R.Intn(2) == 0:
						p.Email = strLen(c.R, n)
					default:
						p.Name = strLen(c.R, n)
					}
					c08(c, p)
				}},
				{Name: "huge-uid", Quick: 3, Thorough: 12, Serial: true, Fn: func(c *rt.Case) {
					c08(c, Params{Seed: genSeed(c.R), Offset: genOffset(c.R), Name: strLen(c.R, []int{1 << 20, 1<<24 + 3, 5 << 20}[c.Index%3])})
				}},
				{Name: "zero-bytes", Quick: 48, Thorough: 600, Fn: func(c *rt.Case) {
					if p, ok := steered(c); ok {
						c.Event("keys with zero edge bytes found")
						c08(c, p)
					}
				}},
				{Name: "short-signature-values", Quick: 6000, Thorough: 300000, Fn: func(c *rt.Case) {
					p := Params{Seed: genSeed(c.R), Offset: genOffset(c.R), Name: strLen(c.R, 1+c.R.Intn(30)), TTL: genTTL(c.R)}
					c08(c, p)
				}},
				{Name: "gpg", Here: true, Quick: 10, Thorough: 150, Workers: 4, Limit: 150 * time.Second, Fn: gpgCase},
			}
		}})

	rt.Register(&rt.Property{ID: "C13", Variant: "fast", Elsewhere: true,
		Rule:   "case = one creation instant (second, nanosecond, zone) given to New; the second is read back from the key object, the phrase, every key packet and every signature; out-of-window instants must give the documented error; distinct by instant and zone.",
		Assume: []string{"Argon2id replaced by a stand-in"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "in-window", Quick: 8000, Thorough: 300000, Fn: func(c *rt.Case) { c13(c, genOffset(c.R), genNanos(c.R)) }},
				{Name: "edges", Quick: len(offsetEdges) * 12, Thorough: len(offsetEdges) * 100, Fn: func(c *rt.Case) {
					ns := []int64{0, 1, 499999999, 500000000, 500000001, 999999999}[c.Index/len(offsetEdges)%6]
					c13(c, offsetEdges[c.Index%len(offsetEdges)], ns)
				}},
				{Name: "out-of-window", Quick: 4000, Thorough: 60000, Fn: func(c *rt.Case) {
					var at time.Time
					early := c.R.Intn(2) == 0
					start := time.Unix(spec.EpochUnix, 0)
					end := time.Unix(spec.EpochUnix+spec.MaxOffset, 0)
					if early {
						at = []time.Time{start.Add(-1), start.Add(-time.Second), start.Add(-time.Millisecond), time.Unix(0, 0), {}, time.Unix(-1, 0),
							time.Unix(spec.EpochUnix-1-c.R.Int63n(spec.EpochUnix), genNanos(c.R)), time.Unix(-(1 << 40), 0), time.Date(-5000, 1, 1, 0, 0, 0, 0, time.UTC),
							time.Unix(-c.R.Int63n(1<<36), 0), time.Unix(spec.EpochUnix-(1<<32), 0), time.Unix(spec.EpochUnix-(1<<31), 0)}[c.Index%12]
					} else {
						at = []time.Time{end.Add(time.Second), end.Add(time.Second + 1), end.Add(time.Hour), time.Unix(1<<32, 0), time.Unix(1<<32-1, 0).Add(time.Duration(0)),
							time.Unix(spec.EpochUnix+1<<31+c.R.Int63n(1<<31), genNanos(c.R)), time.Unix(1<<40, 0), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC),
							time.Unix(spec.EpochUnix+1<<32, 0), time.Unix(spec.EpochUnix+1<<32+c.R.Int63n(1<<31), 0), time.Unix(1<<33, 0), time.Date(2400, 1, 1, 0, 0, 0, 0, time.UTC)}[c.Index%12]
					}
					at = at.In(genZone(c.R))
					c.Input(map[string]any{"instant": at.Format(time.RFC3339Nano)})
					p := genParams(c.R)
					m, err := mnemonikey.New(newSeed(c, p.Seed), at, p.opts())
					want, name := mnemonikey.ErrCreationTooEarly, "too-early"
					if !early {
						want, name = mnemonikey.ErrCreationTooLate, "too-late"
					}
					c.Check(m == nil && err != nil && errors.Is(err, want), "creation %v: got %v, want the %s error", at, err, name)
					c.Event("out-of-window instants refused")
					c.Distinct(at.UnixNano(), at.Unix())
				}},
				{Name: "command-line", Here: true, Quick: 500, Thorough: 10000, Fn: c13cli},
				{Name: "phrases", Quick: 4000, Thorough: 200000, Fn: func(c *rt.Case) {
					// the same second through a phrase
					o := genOffset(c.R)
					p := genParams(c.R)
					p.Offset = o
					c.Input(p.desc())
					var m *mnemonikey.Mnemonikey
					var err error
					pw := genPassword(c.R)
					if c.R.Intn(2) == 0 {
						m, err = mnemonikey.RecoverPlaintext(spec.EncodePlain(p.Seed, o), p.opts())
					} else {
						m, err = mnemonikey.RecoverEncrypted(spec.EncodeEncrypted(p.Seed, o, pw, genSalt(c.R)), pw, p.opts())
					}
					c.Check(err == nil, "recover: %v", err)
					timesAgree(c, m, o)
					c.Distinct(p)
				}},
			}
		}})

	rt.Register(&rt.Property{ID: "C14", Variant: "fast", Elsewhere: true,
		Rule:   "case = one key and all its exports; armor is decoded by an independent decoder with its own CRC-24, metadata is compared with the parsed packets; distinct by inputs.",
		Assume: []string{"Argon2id replaced by a stand-in"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "random", Quick: 6000, Thorough: 250000, Fn: func(c *rt.Case) { c14(c, genParams(c.R), false) }},
				{Name: "uid-lengths", Quick: 1200, Thorough: 20000, Fn: func(c *rt.Case) {
					// consecutive lengths exercise every base64 padding and line length
					p := Params{Seed: genSeed(c.R), Offset: genOffset(c.R), Name: strLen(c.R, c.Index%400), Sel: genSel(c.R)}
					c14(c, p, false)
				}},
				{Name: "protected", Quick: 24, Thorough: 1000, Limit: 60 * time.Second, Fn: func(c *rt.Case) { c14(c, genParams(c.R), true) }},
				{Name: "cli-verbose", Here: true, Quick: 300, Thorough: 8000, Fn: func(c *rt.Case) {
					f := genFlags(c.R, true)
					c.Input(f.desc())
					dir := cli.Scratch()
					defer os.RemoveAll(dir)
					words := spec.EncodePlain(f.Seed, f.Offset)
					args := append([]string{"recover", "-verbose", "-in-word-file", writeWords(dir, "w", words)}, f.args(c.R, true)...)
					r := cli.Run(cli.Opt{Args: args})
					c.Check(r.Exit == 0, "%v: %v", args, r)
					ct := judgeKey(c, armored(c, r.Stdout, "recover"), f, nil, "recover")
					metaShown(c, r.Stderr, ct, f, words)
					c.Distinct(f)
				}},
			}
		}})
}

var zones = []*time.Location{time.UTC, time.FixedZone("a", 14*3600), time.FixedZone("b", -12*3600), time.FixedZone("c", 5*3600+1800), time.FixedZone("d", -1), time.FixedZone("e", 1), time.FixedZone("f", 23*3600+59*60+59), time.Local}

func genZone(r *rand.Rand) *time.Location {
	if r.Intn(3) == 0 {
		return time.FixedZone("z", r.Intn(48*3600)-24*3600)
	}
	return pick(r, append(zones[:len(zones):len(zones)], time.Local))
}

// timesAgree reads the creation second everywhere it can be observed.
func timesAgree(c *rt.Case, m *mnemonikey.Mnemonikey, o uint32) {
	want := spec.EpochUnix + int64(o)
	c.Check(m.CreatedAt().Unix() == want && m.CreatedAt().Nanosecond() == 0, "CreatedAt %v, want unix %d", m.CreatedAt(), want)
	words, err := m.EncodeMnemonicPlaintext()
	c.Check(err == nil, "phrase: %v", err)
	dec, def := spec.Decode(words)
	c.Check(!def.Any() && dec.Offset == o, "plaintext phrase carries offset %d, want %d (%+v)", dec.Offset, o, def)
	words, err = m.EncodeMnemonicEncrypted([]byte("pw"), salted(c.R))
	c.Check(err == nil, "encrypted phrase: %v", err)
	dec, def = spec.Decode(words)
	c.Check(!def.Any() && dec.Offset == o, "encrypted phrase carries offset %d, want %d (%+v)", dec.Offset, o, def)
	pk, err := spec.ParsePackets(export(c, m))
	c.Check(err == nil, "packets: %v", err)
	sigTime := func(s *spec.Sig, what string) {
		b, n := s.One(2)
		c.Check(n == 1 && len(b) == 4, "%s without creation time", what)
		t := int64(b[0])<<24 | int64(b[1])<<16 | int64(b[2])<<8 | int64(b[3])
		c.Check(t == want, "%s made at %d, want %d", what, t, want)
		c.Event("timestamps read")
	}
	for _, p := range pk {
		switch p.Tag {
		case 5, 7:
			k, err := spec.ParseKey(p)
			c.Check(err == nil, "key: %v", err)
			c.Check(int64(k.Creation) == want, "key packet created %d, want %d", k.Creation, want)
			c.Event("timestamps read")
		case 2:
			s, err := spec.ParseSig(p.Body)
			c.Check(err == nil, "signature: %v", err)
			sigTime(s, fmt.Sprintf("signature type %#x", s.Type))
			for _, u := range append(append([]spec.Sub{}, s.Unhashed...), s.Hashed...) {
				if u.Type == 32 {
					e, err := spec.ParseSig(u.Body)
					c.Check(err == nil, "embedded: %v", err)
					sigTime(e, "cross-certification")
				}
			}
		}
	}
}

func c13(c *rt.Case, o uint32, ns int64) {
	if o == spec.MaxOffset {
		ns = 0 // the sub-second part of the very last second is not promised
	}
	at := time.Unix(spec.EpochUnix+int64(o), ns).In(genZone(c.R))
	c.Input(map[string]any{"instant": at.Format(time.RFC3339Nano), "offset": o})
	p := genParams(c.R)
	m, err := mnemonikey.New(newSeed(c, p.Seed), at, p.opts())
	c.Check(err == nil, "creation %v refused: %v", at, err)
	timesAgree(c, m, o)
	// and it is the key of that second
	c.Check(bytes.Equal(lightFpr(c, m), masterFpr(p, o)), "master fingerprint does not belong to second %d", o)
	c.Distinct(o, ns, at.Location().String())
}

func lightFpr(c *rt.Case, m *mnemonikey.Mnemonikey) []byte { return m.Fingerprint() }

func masterFpr(p Params, o uint32) []byte {
	p.Offset = o
	pub := spec.Derive(p.root(), "master", 0).Public
	return spec.Fingerprint(pub, uint32(p.unix()))
}

func c08(c *rt.Case, p Params) {
	c.Input(p.desc())
	m := build(c, p)
	for _, kind := range []string{"full", "subkeys", "subkeys-nocert"} {
		var data []byte
		var err error
		switch kind {
		case "full":
			data, err = m.EncodePGP(nil)
		case "subkeys":
			data, err = m.EncodeSubkeysPGP(nil, true)
		default:
			data, err = m.EncodeSubkeysPGP(nil, false)
		}
		c.Check(err == nil, "%s export: %v", kind, err)
		ct := cert(c, data)
		c.Check(ct.UID == p.uid(), "%s export: user ID %.80q, want %.80q", kind, ct.UID, p.uid())
		c.Check(int64(ct.Master.Creation) == p.unix(), "%s export: master key created %d, want %d", kind, ct.Master.Creation, p.unix())
		c.Check((ct.SelfCert != nil) == (kind != "subkeys-nocert"), "%s export: self-certification present: %v", kind, ct.SelfCert != nil)
		if kind == "full" {
			form, sec, _, err := ct.Master.SecretPart()
			c.Check(err == nil && form == spec.Plain, "master secret: %v %v", form, err)
			c.Check(bytes.Equal(ct.Master.PublicOf(sec), ct.Master.Point), "master secret does not match its public key")
		}
		for _, s := range ct.Subs {
			form, sec, _, err := s.Key.SecretPart()
			c.Check(err == nil && form == spec.Plain, "%s secret: %v %v", s.Kind, form, err)
			c.Check(bytes.Equal(s.Key.PublicOf(sec), s.Key.Point), "%s secret does not match its public key", s.Kind)
			c.Event("secret/public pairs checked")
			if s.Key.Algo == 18 {
				c.Check(sec[31]&7 == 0 && sec[0]&0xC0 == 0x40, "encryption secret is not clamped")
			}
			for _, v := range [][]byte{s.Binding.RS[:32], s.Binding.RS[32:]} {
				if v[0] == 0 {
					c.Event("signature values with a leading zero byte")
				}
			}
		}
		c.EventN("signatures verified", len(ct.Subs)+1)
		if kind == "full" {
			checkSelection(c, ct, p)
		}
	}
	c.State("user ID lengths", len(p.uid()))
	c.Distinct(p)
}

func c14(c *rt.Case, p Params, protect bool) {
	c.Input(p.desc())
	m := build(c, p)
	var pw []byte
	if protect {
		pw = genPassword(c.R)
	}
	bin := func(full, sc bool) []byte {
		var d []byte
		var err error
		if full {
			d, err = m.EncodePGP(pw)
		} else {
			d, err = m.EncodeSubkeysPGP(pw, sc)
		}
		c.Check(err == nil, "binary export: %v", err)
		return d
	}
	arm := func(full, sc bool) []byte {
		var s string
		var err error
		if full {
			s, err = m.EncodePGPArmor(pw)
		} else {
			s, err = m.EncodeSubkeysPGPArmor(pw, sc)
		}
		c.Check(err == nil, "armored export: %v", err)
		d, err := spec.Dearmor(s)
		c.Check(err == nil, "armor: %v", err)
		c.Event("armor blocks decoded")
		return d
	}
	type mode struct{ full, sc bool }
	modes := []mode{{true, true}, {false, true}, {false, false}}
	if protect {
		modes = modes[c.Index%3 : c.Index%3+1]
	}
	for _, md := range modes {
		a, b := arm(md.full, md.sc), bin(md.full, md.sc)
		if !protect {
			c.Check(bytes.Equal(a, b), "armored export (full=%v) decodes to other bytes than the binary export", md.full)
		} else { // fresh salts: compare everything but the secret parts
			x, y := cert(c, a), cert(c, b)
			c.Check(x.Master.Fpr == y.Master.Fpr && len(x.Subs) == len(y.Subs) && bytes.Equal(x.SelfRaw, y.SelfRaw) && x.UID == y.UID, "protected armored and binary exports differ")
			for i := range x.Subs {
				c.Check(x.Subs[i].Key.Fpr == y.Subs[i].Key.Fpr && bytes.Equal(x.Subs[i].SigRaw, y.Subs[i].SigRaw), "protected armored and binary exports differ in a subkey")
				f1, _, _, e1 := x.Subs[i].Key.SecretPart()
				f2, _, _, e2 := y.Subs[i].Key.SecretPart()
				c.Check(f1 == f2 && e1 == nil && e2 == nil, "protected armored and binary exports protect differently")
			}
			f1, _, _, e1 := x.Master.SecretPart()
			f2, _, _, e2 := y.Master.SecretPart()
			c.Check(f1 == f2 && e1 == nil && e2 == nil, "protected armored and binary exports protect the master differently")
		}
		ct := cert(c, b)
		c.Check(bytes.Equal(m.Fingerprint(), ct.Master.Fpr[:]), "Fingerprint %x, exported key %x", m.Fingerprint(), ct.Master.Fpr)
		c.Check(m.UserID() == ct.UID, "UserID %.60q, exported %.60q", m.UserID(), ct.UID)
		c.Check(m.CreatedAt().Unix() == int64(ct.Master.Creation), "CreatedAt %v, exported %d", m.CreatedAt(), ct.Master.Creation)
		exp := int64(0)
		if !m.Expiry().IsZero() {
			exp = m.Expiry().Unix() - int64(ct.Master.Creation)
		}
		if ct.SelfCert != nil {
			c.Check(exp == int64(ct.Expiry), "Expiry() is %d s after creation, exported %d", exp, ct.Expiry)
		}
		types := map[string]int{}
		for _, t := range m.SubkeyTypes() {
			types[string(t)]++
		}
		for _, k := range spec.Subkeys {
			s := ct.Sub(k)
			f := m.SubkeyFingerprint(mnemonikey.SubkeyType(k))
			if s == nil {
				c.Check(len(f) == 0 && types[k] == 0, "%s subkey is not exported, but has fingerprint %x / is listed %d times", k, f, types[k])
				continue
			}
			c.Check(bytes.Equal(f, s.Key.Fpr[:]), "%s fingerprint %x, exported %x", k, f, s.Key.Fpr)
			c.Check(types[k] == 1, "%s subkey listed %d times", k, types[k])
			c.Check(exp == int64(s.Expiry), "%s expires %d s after creation, Expiry() says %d", k, s.Expiry, exp)
			c.Event("fingerprints compared")
		}
		c.Check(len(m.SubkeyTypes()) == len(ct.Subs), "SubkeyTypes %v, exported %d subkeys", m.SubkeyTypes(), len(ct.Subs))
		c.Check(m.SubkeyFingerprint("no-such-type") == nil, "unknown subkey type has a fingerprint")
	}
	c.Distinct(p)
}

func digest(b []byte) string { h := sha256.Sum256(b); return hex.EncodeToString(h[:]) }

// c13cli generates a key at an instant, in and outside the window.
func c13cli(c *rt.Case) {
	o := int64(genOffset(c.R))
	ns := genNanos(c.R)
	switch c.R.Intn(5) {
	case 0:
		o = pick(c.R, []int64{-1, -2, -86400, -spec.EpochUnix, -spec.EpochUnix + 1, -1 - c.R.Int63n(spec.EpochUnix), spec.MaxOffset + 1, spec.MaxOffset + 2, spec.MaxOffset + 86400, 1 << 32, 1<<32 - 1, 1<<32 - spec.EpochUnix, 1<<32 - spec.EpochUnix - 1, spec.MaxOffset + 1 + c.R.Int63n(1<<32)})
	}
	if o == spec.MaxOffset {
		ns = 0
	}
	at := time.Unix(spec.EpochUnix+o, ns)
	f := genFlags(c.R, false)
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	file := cli.Path(dir, "phrase")
	args := append(append([]string{"generate", "-out-word-file", file}, f.args(c.R, false)...), "-verbose")
	var env []string
	if cli.Clocked {
		env = append(env, cli.Clock(at))
	}
	if c.R.Intn(2) == 0 {
		env = append(env, "TZ="+pick(c.R, []string{"Asia/Kathmandu", "America/St_Johns", "Pacific/Kiritimati", "Etc/GMT+12", "UTC", "Europe/London"}))
	}
	d := f.desc()
	d["clock"], d["env"] = at.UTC().Format(time.RFC3339Nano), env
	c.Input(d)
	t0 := time.Now().Unix()
	r := cli.Run(cli.Opt{Args: args, Env: env})
	t1 := time.Now().Unix()
	if cli.Clocked {
		t0, t1 = at.Unix(), at.Unix()
		if o < 0 || o > spec.MaxOffset {
			refused(c, r, fmt.Sprintf("generate when it is %v", at.UTC()))
			_, err := os.Lstat(file)
			c.Check(err != nil, "generate when it is %v left a word file", at.UTC())
			c.Event("commands refused outside the window")
			c.Distinct(at.UnixNano(), o)
			return
		}
	}
	c.Check(r.Exit == 0, "generate when it is %v: %v", at.UTC(), r)
	b, _ := os.ReadFile(file)
	dec, def := spec.Decode(strings.Fields(string(b)))
	c.Check(!def.Any(), "phrase %q: %+v", b, def)
	f.Seed, f.Offset = dec.Entropy, dec.Offset
	c.Check(f.unix() >= t0 && f.unix() <= t1, "the phrase says the key was created at %d, but it was made between %d and %d", f.unix(), t0, t1)
	ct := judgeKey(c, armored(c, r.Stdout, "generate"), f, nil, "generate")
	metaShown(c, r.Stderr, ct, f, nil)
	c.Event("commands at a given instant")
	c.Distinct(f, at.UnixNano())
}
