//go:build !fastkdf

package spec

import "golang.org/x/crypto/argon2"

// FastKDF says that the Argon2id stand-in is in use.
const FastKDF = false

// Argon2id is the real function (trusted base).
func Argon2id(password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	return argon2.IDKey(password, salt, time, memory, threads, keyLen)
}
