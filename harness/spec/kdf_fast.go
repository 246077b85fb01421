//go:build fastkdf

package spec

import (
	"crypto/hmac"
	"crypto/sha256"
)

// FastKDF says that the Argon2id stand-in is in use.
const FastKDF = true

func be32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// Argon2id is the oracle's own copy of the stand-in's function.
func Argon2id(password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	var tail []byte
	tail = append(tail, be32(uint32(len(password)))...)
	tail = append(tail, password...)
	tail = append(tail, be32(uint32(len(salt)))...)
	tail = append(tail, salt...)
	for _, v := range []uint32{time, memory, uint32(threads), keyLen} {
		tail = append(tail, be32(v)...)
	}
	var out []byte
	for i := uint32(0); len(out) < int(keyLen); i++ {
		m := hmac.New(sha256.New, []byte("verif stand-in argon2id"))
		m.Write(be32(i))
		m.Write(tail)
		out = append(out, m.Sum(nil)...)
	}
	return out[:keyLen]
}
