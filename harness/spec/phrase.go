// Package spec is the oracle: an independent implementation of the Mnemonikey
// specification (README.md), written without sharing code or structure with
// the implementation under observation.
package spec

import (
	"crypto/aes"
	_ "embed"
	"strings"
)

//go:embed wordlist4096.txt
var wordlistText string

// Words is the published word list; WordIndex its inverse.
var (
	Words     []string
	WordIndex = map[string]int{}
)

func init() {
	Words = strings.Fields(wordlistText)
	if len(Words) != 4096 {
		panic("oracle word list damaged")
	}
	for i, w := range Words {
		WordIndex[w] = i
	}
}

const (
	// EpochUnix is the Mnemonikey epoch in unix time.
	EpochUnix = 1672531200
	// MaxOffset is the largest creation offset.
	MaxOffset = 1<<31 - 1
)

// crc32IEEE is a plain bitwise CRC-32 (reflected IEEE polynomial).
func crc32IEEE(data []byte) uint32 {
	crc := ^uint32(0)
	for _, b := range data {
		crc ^= uint32(b)
		for k := 0; k < 8; k++ {
			if crc&1 == 1 {
				crc = crc>>1 ^ 0xEDB88320
			} else {
				crc >>= 1
			}
		}
	}
	return ^crc
}

// bits is a big-endian bit string.
type bits []byte

func (b bits) num(v uint64, n int) bits {
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(v>>uint(i))&1)
	}
	return b
}

func (b bits) raw(data []byte) bits {
	for _, x := range data {
		b = b.num(uint64(x), 8)
	}
	return b
}

func (b bits) toNum() uint64 {
	var v uint64
	for _, x := range b {
		v = v<<1 | uint64(x)
	}
	return v
}

// packed right-aligns the bit string in bytes (zero bits lead).
func (b bits) packed() []byte {
	n := (len(b) + 7) / 8
	padded := append(make(bits, n*8-len(b)), b...)
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(padded[i*8 : i*8+8].toNum())
	}
	return out
}

func (b bits) words() []string {
	out := []string{}
	for i := 0; i < len(b); i += 12 {
		out = append(out, Words[b[i:i+12].toNum()])
	}
	return out
}

func finish(b bits) []string {
	b = b.num(uint64(crc32IEEE(b.packed())&31), 5)
	if len(b)%12 != 0 {
		panic("oracle: bit count")
	}
	return b.words()
}

// EncodePlain gives the plaintext phrase.
func EncodePlain(seed [16]byte, offset uint32) []string {
	return finish(bits{}.num(0, 4).raw(seed[:]).num(uint64(offset), 31))
}

// PhraseKey is the 17-byte Argon2id output for an encrypted phrase.
func PhraseKey(password []byte, salt, offset uint32) []byte {
	return Argon2id(password, bits{}.num(uint64(salt), 19).num(uint64(offset), 31).packed(), 4, 0x80000, 2, 17)
}

// EncodeEncrypted gives the encrypted phrase for a given salt.
func EncodeEncrypted(seed [16]byte, offset uint32, password []byte, salt uint32) []string {
	k := PhraseKey(password, salt, offset)
	c, err := aes.NewCipher(k[:16])
	if err != nil {
		panic(err)
	}
	var enc [16]byte
	c.Encrypt(enc[:], seed[:])
	return RawEncrypted(enc, salt, k[16]&31, offset)
}

// RawEncrypted packs the fields of an encrypted phrase.
func RawEncrypted(enc [16]byte, salt uint32, verify byte, offset uint32) []string {
	return finish(bits{}.num(1, 4).raw(enc[:]).num(uint64(salt), 19).num(uint64(verify), 5).num(uint64(offset), 31))
}

// Decoded holds the fields of a phrase.
type Decoded struct {
	Version int
	Entropy [16]byte
	Salt    uint32
	Verify  byte
	Offset  uint32
}

// Defects is the set of reasons to refuse a phrase.
type Defects struct{ Word, Version, Count, Checksum bool }

// Any reports whether there is a reason at all.
func (d Defects) Any() bool { return d.Word || d.Version || d.Count || d.Checksum }

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// Lookup finds a word, ASCII case-insensitively.
func Lookup(word string) (int, bool) {
	i, ok := WordIndex[asciiLower(word)]
	return i, ok
}

// Decode decodes a phrase, or says everything that is wrong with it.
func Decode(words []string) (dec Decoded, def Defects) {
	if len(words) == 0 {
		def.Count = true
		return
	}
	var b bits
	for _, w := range words {
		i, ok := Lookup(w)
		if !ok {
			def.Word = true
			i = 0
		}
		b = b.num(uint64(i), 12)
	}
	if len(words) != 14 && len(words) != 16 {
		def.Count = true
	}
	if _, ok := Lookup(words[0]); !ok {
		return
	}
	dec.Version = int(b[:4].toNum())
	if dec.Version > 1 {
		def.Version = true
		return
	}
	if (dec.Version == 0 && len(words) != 14) || (dec.Version == 1 && len(words) != 16) {
		def.Count = true
	}
	if def.Any() {
		return
	}
	body, sum := b[:len(b)-5], b[len(b)-5:]
	if uint64(crc32IEEE(body.packed())&31) != sum.toNum() {
		def.Checksum = true
		return
	}
	copy(dec.Entropy[:], body[4:132].packed())
	rest := body[132:]
	if dec.Version == 1 {
		dec.Salt = uint32(rest[:19].toNum())
		dec.Verify = byte(rest[19:24].toNum())
		rest = rest[24:]
	}
	dec.Offset = uint32(rest.toNum())
	return
}

// Open decrypts the seed of an encrypted phrase; ok tells whether the
// verification bits match.
func (dec Decoded) Open(password []byte) (seed [16]byte, ok bool) {
	if dec.Version == 0 {
		return dec.Entropy, true
	}
	k := PhraseKey(password, dec.Salt, dec.Offset)
	if k[16]&31 != dec.Verify {
		return seed, false
	}
	c, err := aes.NewCipher(k[:16])
	if err != nil {
		panic(err)
	}
	c.Decrypt(seed[:], dec.Entropy[:])
	return seed, true
}

// FixChecksum recomputes the 5 checksum bits of a 14- or 16-word phrase of
// wordlist words, keeping everything else.
func FixChecksum(words []string) []string {
	var b bits
	for _, w := range words {
		i, _ := Lookup(w)
		b = b.num(uint64(i), 12)
	}
	return finish(b[: len(b)-5 : len(b)-5])
}

// Complete returns the alphabetically first list word with that prefix.
func Complete(prefix string) (string, bool) {
	if prefix == "" {
		return "", false
	}
	for _, w := range Words {
		if strings.HasPrefix(w, prefix) {
			return w, true
		}
	}
	return "", false
}

// FixTail recomputes the last five bits as the checksum of everything before,
// for any number of words.
func FixTail(words []string) []string {
	var b bits
	for _, w := range words {
		i, _ := Lookup(w)
		b = b.num(uint64(i), 12)
	}
	return finish(b[: len(b)-5 : len(b)-5])
}

// SelfTest checks the oracle against constants that do not come from the
// implementation under observation.
func SelfTest() bool {
	// CRC-32 check value, and the layout on a hand-computed phrase: seed and
	// offset zero give 163 zero bits, whose CRC-32 (21 zero bytes) is 0x... & 31.
	if crc32IEEE([]byte("123456789")) != 0xCBF43926 {
		return false
	}
	w := EncodePlain([16]byte{}, 0)
	if len(w) != 14 || w[0] != Words[0] || w[12] != Words[0] {
		return false
	}
	d, def := Decode(w)
	return !def.Any() && d.Offset == 0
}
