package props

import (
	"bytes"
	"crypto/aes"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"errors"
	"fmt"
	"hash"
	"math/big"
	"math/rand"
	"time"

	"github.com/kklash/mnemonikey/pgp"

	"verifharness/rt"
	"verifharness/spec"
)

// lengthEdges are where OpenPGP length encodings change.
var lengthEdges = []int{0, 1, 190, 191, 192, 193, 254, 255, 256, 447, 448, 8382, 8383, 8384, 8385, 16319, 16320, 65534, 65535, 65536, 1<<20 + 1}

func genLength(r *rand.Rand, max int) int {
	n := 0
	switch r.Intn(4) {
	case 3:
		if v, ok := dictN(r, int64(max)); ok {
			return int(v)
		}
		fallthrough
	case 0:
		n = pick(r, lengthEdges) + r.Intn(3) - 1
	case 1:
		n = r.Intn(300)
	default:
		n = r.Intn(20000)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = r.Intn(max + 1)
	}
	return n
}

func genBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(8) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xFF
		}
	default:
		r.Read(b)
		if n > 0 && r.Intn(4) == 0 {
			b[0] = 0
		}
	}
	return b
}

// genInstant gives a second OpenPGP can represent, in some zone.
func genInstant(r *rand.Rand) time.Time {
	var u int64
	switch r.Intn(5) {
	case 0:
		u = []int64{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, spec.EpochUnix}[r.Intn(6)]
	default:
		u = r.Int63n(1 << 32)
	}
	t := time.Unix(u, 0).UTC()
	if r.Intn(2) == 0 {
		t = t.In(time.FixedZone("x", r.Intn(86400)-43200))
	}
	return t
}

// genExpiry gives an expiry (or none) a whole number of seconds later.
func genExpiry(r *rand.Rand, creation time.Time) (time.Time, uint32) {
	if r.Intn(3) == 0 {
		return time.Time{}, 0
	}
	n := uint32(1 + r.Int63n(1<<32-1))
	if r.Intn(4) == 0 {
		n = pick(r, []uint32{1, 2, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1})
	}
	e := time.Unix(creation.Unix()+int64(n), 0)
	if r.Intn(2) == 0 {
		e = e.UTC()
	}
	return e, n
}

func c26packet(c *rt.Case, tag byte, body []byte) {
	c.Input(map[string]any{"tag": tag, "length": len(body)})
	in := append([]byte{}, body...)
	enc := pgp.EncodePacket(pgp.PacketTag(tag), in)
	c.Check(bytes.Equal(in, body), "EncodePacket changed its argument")
	pk, err := spec.ParsePackets(enc)
	c.Check(err == nil && len(pk) == 1, "packet of tag %d with %d bytes does not parse as one packet: %v", tag, len(body), err)
	c.Check(pk[0].Tag == int(tag) && bytes.Equal(pk[0].Body, body), "packet of tag %d with %d bytes reads as tag %d with %d bytes", tag, len(body), pk[0].Tag, len(pk[0].Body))
	c.Event("packets read back")
}

func c26sub(c *rt.Case, typ byte, body []byte) {
	c.Input(map[string]any{"type": typ, "length": len(body)})
	in := append([]byte{}, body...)
	enc := (&pgp.Subpacket{Type: pgp.SubpacketType(typ), Body: in}).Encode()
	c.Check(bytes.Equal(in, body), "Subpacket.Encode changed its body")
	subs, err := spec.Subpackets(enc)
	c.Check(err == nil && len(subs) == 1, "subpacket of type %d with %d bytes does not parse as one: %v", typ, len(body), err)
	c.Check(subs[0].Type == typ&0x7F && subs[0].Critical == (typ&0x80 != 0) && bytes.Equal(subs[0].Body, body), "subpacket of type %d with %d bytes reads as type %d with %d bytes", typ, len(body), subs[0].Type, len(subs[0].Body))
	c.Event("subpackets read back")
}

func genSubs(r *rand.Rand, room int) (subs []*pgp.Subpacket) {
	for n := r.Intn(6); n > 0; n-- {
		max := room - 6
		if max < 0 {
			break
		}
		if max > 9000 && r.Intn(8) > 0 {
			max = 9000
		}
		b := genBytes(r, genLength(r, max))
		if len(b)+6 > room {
			break
		}
		room -= len(b) + 6
		subs = append(subs, &pgp.Subpacket{Type: pgp.SubpacketType(r.Intn(256)), Body: b})
	}
	return
}

func sameSubs(got []spec.Sub, want []*pgp.Subpacket) bool {
	if len(got) != len(want) {
		return false
	}
	for i, g := range got {
		t := byte(want[i].Type)
		if g.Type != t&0x7F || g.Critical != (t&0x80 != 0) || !bytes.Equal(g.Body, want[i].Body) {
			return false
		}
	}
	return true
}

func describeSubs(subs []*pgp.Subpacket) string {
	s := ""
	for _, x := range subs {
		s += fmt.Sprintf("%d:%d ", x.Type, len(x.Body))
	}
	return s
}

func c26sign(c *rt.Case) {
	r := c.R
	key := ed25519.NewKeyFromSeed(genBytes(r, 32))
	fpr := genBytes(r, 20)
	req := &pgp.SignatureRequest{
		SigningKeyFingerprint: fpr,
		HashFunction:          pick(r, []pgp.HashFuncID{pgp.HashFuncSHA256, pgp.HashFuncSHA384, pgp.HashFuncSHA512}),
		Data:                  genBytes(r, genLength(r, 70000)),
		Type:                  pgp.SignatureType(r.Intn(256)),
		HashedSubpackets:      genSubs(r, 65535-40),
		UnhashedSubpackets:    genSubs(r, 65535-20),
		Time:                  genInstant(r),
	}
	ref := map[pgp.HashFuncID]func() hash.Hash{8: sha256.New, 9: sha512.New384, 10: sha512.New}[req.HashFunction]()
	hf := req.HashFunction.New()
	hf.Write(req.Data)
	ref.Write(req.Data)
	c.Check(bytes.Equal(hf.Sum(nil), ref.Sum(nil)), "hash function %d hashes as %x, want %x", req.HashFunction, hf.Sum(nil), ref.Sum(nil))
	if r.Intn(2) == 0 { // spare room behind the caller's slices
		req.SigningKeyFingerprint = append(make([]byte, 0, 64), fpr...)
		req.Data = append(make([]byte, 0, len(req.Data)+64), req.Data...)
	}
	c.Input(map[string]any{"hash": req.HashFunction, "type": req.Type, "data": len(req.Data), "hashed": describeSubs(req.HashedSubpackets), "unhashed": describeSubs(req.UnhashedSubpackets), "time": req.Time.String(), "fingerprint": hex.EncodeToString(fpr)})
	image := func() string {
		s := fmt.Sprintf("%x %x %d %d %v", req.SigningKeyFingerprint, req.Data, req.Type, req.HashFunction, req.Time)
		for _, x := range append(append([]*pgp.Subpacket{}, req.HashedSubpackets...), req.UnhashedSubpackets...) {
			s += fmt.Sprintf(" %d:%x", x.Type, x.Body)
		}
		return s
	}
	before := image()
	sig := pgp.Sign(key, req)
	enc := sig.Encode()
	c.Check(image() == before, "Sign changed the request")
	pk, err := spec.ParsePackets(sig.EncodePacket())
	c.Check(err == nil && len(pk) == 1 && pk[0].Tag == 2 && bytes.Equal(pk[0].Body, enc), "the signature packet is not one packet of tag 2 holding the signature: %v", err)
	s, err := spec.ParseSig(enc)
	c.Check(err == nil, "the signature does not parse: %v", err)
	c.Check(s.Type == byte(req.Type) && s.Hash == byte(req.HashFunction), "signature type %d hash %d, want %d and %d", s.Type, s.Hash, req.Type, req.HashFunction)
	c.Check(s.Verify(&spec.Key{Algo: 22, Point: key.Public().(ed25519.PublicKey)}, req.Data) == nil, "the signature does not verify: %v", s.Verify(&spec.Key{Algo: 22, Point: key.Public().(ed25519.PublicKey)}, req.Data))
	// the area it signs starts with issuer and time and ends with the request's
	h, u := s.Hashed, s.Unhashed
	nh, nu := len(h)-len(req.HashedSubpackets), len(u)-len(req.UnhashedSubpackets)
	c.Check(nh >= 0 && sameSubs(h[nh:], req.HashedSubpackets), "the signed subpackets are not the requested ones")
	c.Check(nu >= 0 && sameSubs(u[nu:], req.UnhashedSubpackets), "the unsigned subpackets are not the requested ones")
	own := spec.Sig{Hashed: h[:nh]}
	b, n := own.One(33)
	c.Check(n == 1 && bytes.Equal(b, append([]byte{4}, fpr...)), "issuer fingerprint subpacket %x (%d of them)", b, n)
	b, n = own.One(2)
	c.Check(n == 1 && len(b) == 4 && int64(b[0])<<24|int64(b[1])<<16|int64(b[2])<<8|int64(b[3]) == req.Time.Unix(), "signature time %x (%d of them), want %d", b, n, req.Time.Unix())
	own = spec.Sig{Hashed: append(append([]spec.Sub{}, h[:nh]...), u[:nu]...)}
	b, n = own.One(16)
	c.Check(n == 1 && bytes.Equal(b, fpr[12:]), "issuer key ID subpacket %x (%d of them)", b, n)
	c.Check(nh+nu == 3, "%d subpackets nobody asked for", nh+nu-3)
	again := pgp.Sign(key, req)
	c.Check(bytes.Equal(again.Encode(), enc), "signing the same request again gives another signature")
	if s.RS[0] == 0 || s.RS[32] == 0 {
		c.Event("signature values with leading zero bytes")
	}
	c.Event("signatures verified")
	c.State("hash functions", s.Hash)
	c.Distinct(before)
}

// handKey is a key set assembled from the building blocks.
type handKey struct {
	set       *pgp.KeySet
	seeds     map[string][]byte
	times     map[string]time.Time
	expiries  map[string]uint32
	kdf       []byte
	uid       string
	uidObject *pgp.UserID
}

func genHandKey(c *rt.Case) *handKey {
	r := c.R
	k := &handKey{set: &pgp.KeySet{}, seeds: map[string][]byte{}, times: map[string]time.Time{}, expiries: map[string]uint32{}, kdf: []byte{3, 1, 8, 7}}
	p := genParams(r)
	k.uid = spec.UID(p.Name, p.Email)
	k.uidObject = &pgp.UserID{Name: p.Name, Email: p.Email}
	k.set.UserID = k.uidObject
	one := func(kind string) ([]byte, time.Time, time.Time) {
		s, t := genBytes(r, 32), genInstant(r)
		e, n := genExpiry(r, t)
		k.seeds[kind], k.times[kind], k.expiries[kind] = s, t, n
		return append([]byte{}, s...), t, e
	}
	var err error
	s, t, e := one("master")
	k.set.MasterKey, err = pgp.NewED25519MasterKey(s, t, e)
	c.Check(err == nil, "master key: %v", err)
	if r.Intn(4) > 0 {
		var kdf *pgp.KeyDerivationParameters
		if r.Intn(2) == 0 {
			kdf = &pgp.KeyDerivationParameters{HashFunction: pgp.HashFuncID(r.Intn(256)), CipherAlgorithm: pgp.CipherAlgoID(r.Intn(256))}
			k.kdf = []byte{3, 1, byte(kdf.HashFunction), byte(kdf.CipherAlgorithm)}
			c.Check(bytes.Equal(kdf.Encode(), k.kdf), "KDF parameters %x, want %x", kdf.Encode(), k.kdf)
		}
		s, t, e := one("encryption")
		k.set.EncryptionSubkey, err = pgp.NewCurve25519Subkey(s, t, e, kdf)
		c.Check(err == nil, "encryption subkey: %v", err)
	}
	if r.Intn(4) > 0 {
		s, t, e := one("authentication")
		k.set.AuthenticationSubkey, err = pgp.NewED25519Subkey(s, t, e)
		c.Check(err == nil, "authentication subkey: %v", err)
	}
	if r.Intn(4) > 0 {
		s, t, e := one("signing")
		k.set.SigningSubkey, err = pgp.NewED25519Subkey(s, t, e)
		c.Check(err == nil, "signing subkey: %v", err)
	}
	in := map[string]any{"uid": fmt.Sprintf("%.80q", k.uid), "kdf": k.kdf}
	for kind := range k.seeds {
		in[kind] = fmt.Sprintf("%x %d +%d", k.seeds[kind], k.times[kind].Unix(), k.expiries[kind])
	}
	c.Input(in)
	return k
}

func (k *handKey) secret(kind string) []byte {
	if kind == "encryption" {
		return spec.XSecretBE(k.seeds[kind])
	}
	return k.seeds[kind]
}

func (k *handKey) public(kind string) []byte {
	if kind == "encryption" {
		return spec.XPublic(k.seeds[kind])
	}
	return spec.EdPublic(k.seeds[kind])
}

// judge compares an export of the key set with its parts.
func (k *handKey) judge(c *rt.Case, data []byte, full, cert bool, pw []byte) {
	ct, err := spec.ParseKeySet(data, k.kdf)
	c.Check(err == nil, "the key set does not parse: %v", err)
	c.Check(ct.UID == k.uid, "user ID %.80q, want %.80q", ct.UID, k.uid)
	c.Check((ct.SelfCert != nil) == cert, "self-certification present %v, want %v", ct.SelfCert != nil, cert)
	if cert {
		c.Check(ct.Expiry == k.expiries["master"], "master expiry %d, want %d", ct.Expiry, k.expiries["master"])
	}
	c.Check(len(ct.Subs) == len(k.seeds)-1, "%d subkeys, want %d", len(ct.Subs), len(k.seeds)-1)
	check := func(kind string, key *spec.Key, stub bool) {
		c.Check(bytes.Equal(key.Point, k.public(kind)), "%s public key %x, want %x", kind, key.Point, k.public(kind))
		c.Check(int64(key.Creation) == k.times[kind].Unix(), "%s creation %d, want %d", kind, key.Creation, k.times[kind].Unix())
		form, sec, s2k, err := key.SecretPart()
		c.Check(err == nil, "%s: %v", kind, err)
		switch {
		case stub:
			c.Check(form == spec.Stub, "%s is %v, want a stub", kind, form)
			return
		case pw == nil:
			c.Check(form == spec.Plain, "%s is %v, want plain", kind, form)
		default:
			c.Check(form == spec.Encrypted, "%s is %v, want encrypted", kind, form)
			var ok bool
			sec, ok, err = s2k.Open(pw)
			c.Check(ok && err == nil, "%s does not open with its password: %v", kind, err)
		}
		c.Check(bytes.Equal(sec, k.secret(kind)), "%s secret %x, want %x", kind, sec, k.secret(kind))
		c.Event("keys of key sets compared")
	}
	check("master", ct.Master, !full)
	for _, s := range ct.Subs {
		c.Check(k.seeds[s.Kind] != nil, "%s subkey nobody put in", s.Kind)
		check(s.Kind, s.Key, false)
		c.Check(s.Expiry == k.expiries[s.Kind], "%s expiry %d, want %d", s.Kind, s.Expiry, k.expiries[s.Kind])
	}
}

func c26set(c *rt.Case, pw []byte) {
	k := genHandKey(c)
	k.blocks(c)
	full, err := k.set.EncodePackets(pw)
	c.Check(err == nil, "EncodePackets: %v", err)
	k.judge(c, full, true, true, pw)
	cert := c.R.Intn(2) == 0
	sub, err := k.set.EncodeSubkeyPackets(pw, cert)
	c.Check(err == nil, "EncodeSubkeyPackets: %v", err)
	k.judge(c, sub, false, cert, pw)
	if pw == nil {
		again, err := k.set.EncodePackets([]byte{})
		c.Check(err == nil && bytes.Equal(again, full), "an empty password is not treated as none")
	}
	c.Event("key sets judged")
	c.Distinct(k.seeds, k.uid, k.times)
}

// blocks checks the parts of the set on their own.
func (k *handKey) blocks(c *rt.Case) {
	pub := func(kind string, raw []byte, tag int, fpr []byte, priv []byte, err error) *spec.Key {
		pk, perr := spec.ParsePackets(raw)
		c.Check(perr == nil && len(pk) == 1 && pk[0].Tag == tag, "%s public packet: %v", kind, perr)
		key, perr := spec.ParseKeyKDF(pk[0], k.kdf)
		c.Check(perr == nil, "%s public packet: %v", kind, perr)
		c.Check(bytes.Equal(key.Point, k.public(kind)) && int64(key.Creation) == k.times[kind].Unix(), "%s public packet has key %x of %d", kind, key.Point, key.Creation)
		c.Check(bytes.Equal(fpr, key.Fpr[:]), "%s FingerprintV4 %x, its public packet has %x", kind, fpr, key.Fpr)
		c.Check(err == nil, "%s secret packet: %v", kind, err)
		pk, perr = spec.ParsePackets(priv)
		want := 7
		if tag == 6 {
			want = 5
		}
		c.Check(perr == nil && len(pk) == 1 && pk[0].Tag == want, "%s secret packet: %v", kind, perr)
		c.Check(bytes.HasPrefix(pk[0].Body, key.PublicBody), "%s secret packet holds another public key", kind)
		c.Event("public packets compared")
		return key
	}
	m := k.set.MasterKey
	priv, err := m.EncodePrivatePacket(nil)
	mk := pub("master", m.EncodePublicPacket(), 6, m.FingerprintV4(), priv, err)
	c.Check(bytes.Equal(m.Public, k.public("master")) && bytes.Equal(m.Private.Seed(), k.seeds["master"]) && m.Creation.Equal(k.times["master"]), "the master key's fields differ from what it was made from")
	pk, err := spec.ParsePackets(m.EncodePrivateDummyPacket())
	c.Check(err == nil && len(pk) == 1 && pk[0].Tag == 5, "stub packet: %v", err)
	dk, err := spec.ParseKey(pk[0])
	c.Check(err == nil && bytes.Equal(dk.PublicBody, mk.PublicBody), "stub packet: %v", err)
	form, _, _, err := dk.SecretPart()
	c.Check(err == nil && form == spec.Stub && !bytes.Contains(pk[0].Raw, k.seeds["master"][8:]), "stub packet holds more than a stub: %v %v", form, err)
	if s := k.set.EncryptionSubkey; s != nil {
		priv, err := s.EncodePrivatePacket(nil)
		pub("encryption", s.EncodePublicSubkeyPacket(), 14, s.FingerprintV4(), priv, err)
		c.Check(bytes.Equal(s.Public, k.public("encryption")), "the encryption subkey's public field is wrong")
	}
	for kind, s := range map[string]*pgp.ED25519Subkey{"authentication": k.set.AuthenticationSubkey, "signing": k.set.SigningSubkey} {
		if s == nil {
			continue
		}
		priv, err := s.EncodePrivatePacket(nil)
		pub(kind, s.EncodePublicSubkeyPacket(), 14, s.FingerprintV4(), priv, err)
		c.Check(bytes.Equal(s.Public, k.public(kind)) && bytes.Equal(s.Private.Seed(), k.seeds[kind]), "the %s subkey's fields are wrong", kind)
	}
	uid := k.uidObject
	c.Check(string(uid.Encode()) == k.uid, "user ID %.80q, want %.80q", uid.Encode(), k.uid)
	pk, err = spec.ParsePackets(uid.EncodePacket())
	c.Check(err == nil && len(pk) == 1 && pk[0].Tag == 13 && string(pk[0].Body) == k.uid, "user ID packet: %v", err)
	// public key material with the self-certification is a publishable key
	sig, err := spec.ParseSig(m.SelfCertify(uid).Encode())
	c.Check(err == nil, "self-certification: %v", err)
	n := len(k.uid)
	msg := []byte{0x99, byte(len(mk.PublicBody) >> 8), byte(len(mk.PublicBody))}
	msg = append(append(msg, mk.PublicBody...), 0xB4, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	c.Check(sig.Verify(mk, append(msg, k.uid...)) == nil, "SelfCertify does not verify under the public packet")
}

func c26s2k(c *rt.Case) {
	r := c.R
	plain := genBytes(r, pick(r, []int{0, 1, 2, 14, 15, 16, 17, 31, 32, 33, 57, 64, 100, 1000, 8191}))
	if n, ok := dictN(r, 8191); ok && r.Intn(5) == 0 {
		plain = genBytes(r, int(n))
	}
	pw := genPassword(r)
	if len(pw) == 0 {
		pw = []byte{}
	}
	c.Input(map[string]any{"plaintext": fmt.Sprintf("%.200x", plain), "length": len(plain), "password": hex.EncodeToString(pw)})
	for _, h := range []pgp.HashFuncID{pgp.HashFuncSHA384, pgp.HashFuncSHA512} {
		if c.Index%16 != 0 {
			break
		}
		out, err := pgp.EncryptS2K(h, plain, pw)
		var ks aes.KeySizeError
		c.Check(out == nil && errors.As(err, &ks), "hash function %d, which cannot key AES, gave %d bytes and %v", h, len(out), err)
		c.Event("unusable hash functions refused")
	}
	in, pwIn := append(make([]byte, 0, len(plain)+64), plain...), append(make([]byte, 0, len(pw)+64), pw...)
	out, err := pgp.EncryptS2K(pgp.HashFuncSHA256, in, pwIn)
	c.Check(err == nil, "EncryptS2K: %v", err)
	c.Check(bytes.Equal(in, plain) && bytes.Equal(pwIn, pw), "EncryptS2K changed its arguments")
	c.Check(len(out) > 29 && bytes.Equal(out[:4], []byte{254, 9, 3, 8}) && out[12] == s2kCount, "EncryptS2K header %x", out[:13])
	s := &spec.S2K{Salt: out[4:12], Count: out[12], IV: out[13:29], Cipher: out[29:]}
	val, ok, err := s.OpenMPI(pw)
	c.Check(ok && err == nil, "the password does not decrypt: %v", err)
	c.Check(new(big.Int).SetBytes(val).Cmp(new(big.Int).SetBytes(plain)) == 0, "decrypts to %x, want %x", val, plain)
	c.State("salts", s.Salt)
	c.State("initialisation vectors", s.IV)
	c.Event("S2K encryptions opened")
	c.Distinct(plain, pw)
}

func init() {
	rt.Register(&rt.Property{ID: "C26", Variant: "fast", Elsewhere: true,
		Rule:   "case = one use of the exported pgp package outside mnemonikey's own exports: a packet, subpacket or integer of some length, a signature request, a key set assembled by hand with seeds, creation times, expiries and KDF parameters of its own, or an S2K encryption; read back and verified by the independent OpenPGP implementation; distinct by inputs.",
		Assume: []string{"times are whole seconds OpenPGP can represent, subpacket areas fit their 16-bit length, integers are non-negative and below 2^65535, hash functions are SHA-256, SHA-384 or SHA-512"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "packets", Quick: 9000, Thorough: 70000, Fn: func(c *rt.Case) {
					c26packet(c, byte(c.R.Intn(64)), genBytes(c.R, c.Index))
					c.Distinct(c.Index)
				}},
				{Name: "packet-edges", Quick: 600, Thorough: 20000, Fn: func(c *rt.Case) {
					n := genLength(c.R, 2<<20)
					t := byte(c.R.Intn(64))
					c26packet(c, t, genBytes(c.R, n))
					c.Distinct(t, n)
				}},
				{Name: "huge-packets", Quick: 2, Thorough: 6, Serial: true, Fn: func(c *rt.Case) {
					n := []int{1<<24 - 1, 1 << 24, 1<<24 + 70000, 1 << 25, 1<<26 + 3, 1 << 27}[c.Index]
					c26packet(c, 13, make([]byte, n))
					c.Distinct(n)
				}},
				{Name: "subpackets", Quick: 17000, Thorough: 70000, Fn: func(c *rt.Case) {
					c26sub(c, byte(c.R.Intn(256)), genBytes(c.R, c.Index))
					c.Distinct(c.Index)
				}},
				{Name: "integers", Quick: 6000, Thorough: 70000, Fn: func(c *rt.Case) {
					bl := c.Index
					if c.Index > 3000 {
						bl = c.R.Intn(65536)
						if c.R.Intn(3) == 0 {
							bl = 65535 - c.R.Intn(40)
						}
					}
					if bl > 65535 {
						bl = 65535
					}
					v := new(big.Int)
					if bl > 0 {
						if c.R.Intn(4) > 0 {
							v.Rand(c.R, new(big.Int).Lsh(big.NewInt(1), uint(bl)))
						}
						v.SetBit(v, bl-1, 1)
					}
					c.Input(map[string]any{"bits": bl})
					want := append([]byte{byte(bl >> 8), byte(bl)}, v.Bytes()...)
					in := new(big.Int).Set(v)
					c.Check(bytes.Equal(pgp.EncodeMPI(in), want), "EncodeMPI of a %d-bit integer is wrong", bl)
					c.Check(in.Cmp(v) == 0, "EncodeMPI changed its argument")
					c.Event("integers compared")
					c.Distinct(bl, want[:min2(len(want), 40)])
				}},
				{Name: "signatures", Quick: 6000, Thorough: 300000, Fn: c26sign},
				{Name: "key-sets", Quick: 3000, Thorough: 200000, Fn: func(c *rt.Case) { c26set(c, nil) }},
				{Name: "protected-key-sets", Quick: 16, Thorough: 600, Limit: 60 * time.Second, Fn: c26protected},
				{Name: "s2k", Quick: 120, Thorough: 4000, Limit: 60 * time.Second, Fn: c26s2k},
			}
		},
		Finish: c26finish})
	rt.Register(&rt.Property{ID: "C26", Variant: "s2k", Rule: "as above, with passwords", Assume: []string{cheapS2K},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "protected-key-sets", Quick: 1500, Thorough: 60000, Fn: c26protected},
				{Name: "s2k", Quick: 6000, Thorough: 200000, Fn: c26s2k},
			}
		},
		Finish: c26finish})
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func c26finish(r *rt.Run) {
	n := r.EventCount("S2K encryptions opened")
	if a, b := r.StateCount("salts"), r.StateCount("initialisation vectors"); int64(a) != n || int64(b) != n {
		r.FailRun("s2k", "%d encryptions used only %d salts and %d initialisation vectors", n, a, b)
	}
}

func c26protected(c *rt.Case) {
	pw := genPassword(c.R)
	if len(pw) == 0 {
		pw = []byte("x")
	}
	c26set(c, pw)
}
