// Package argon2 - verification stand-in for golang.org/x/crypto/argon2.
//
// Records every call and returns a cheap pseudo-random function of ALL the
// parameters, so that a caller passing any wrong input or cost parameter gets
// a different key, at a millionth of the cost. The oracle (verifharness/spec)
// has its own implementation of the same function.
package argon2

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"sync"
)

const Version = 0x13

// VerifCall is one distinct cost-parameter tuple seen.
type VerifCall struct {
	Variant      string
	Time, Memory uint32
	Threads      uint8
	KeyLen       uint32
	SaltLen      int
}

var (
	verifMu    sync.Mutex
	verifCalls = map[VerifCall]int{}
)

// VerifStats returns how often each cost-parameter tuple was used.
func VerifStats() map[VerifCall]int {
	verifMu.Lock()
	defer verifMu.Unlock()
	out := map[VerifCall]int{}
	for k, v := range verifCalls {
		out[k] = v
	}
	return out
}

func standIn(variant string, password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	if time < 1 {
		panic("argon2: number of rounds too small")
	}
	if threads < 1 {
		panic("argon2: parallelism degree too low")
	}
	verifMu.Lock()
	verifCalls[VerifCall{variant, time, memory, threads, keyLen, len(salt)}]++
	verifMu.Unlock()

	var out []byte
	for block := uint32(0); uint32(len(out)) < keyLen; block++ {
		h := hmac.New(sha256.New, []byte("verif stand-in "+variant))
		put := func(v uint32) {
			var b [4]byte
			binary.BigEndian.PutUint32(b[:], v)
			h.Write(b[:])
		}
		put(block)
		put(uint32(len(password)))
		h.Write(password)
		put(uint32(len(salt)))
		h.Write(salt)
		put(time)
		put(memory)
		put(uint32(threads))
		put(keyLen)
		out = h.Sum(out)
	}
	return out[:keyLen:keyLen]
}

// IDKey stands in for Argon2id.
func IDKey(password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	return standIn("argon2id", password, salt, time, memory, threads, keyLen)
}

// Key stands in for Argon2i.
func Key(password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	return standIn("argon2i", password, salt, time, memory, threads, keyLen)
}
