package spec

import (
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"

	"crypto/ecdh"
)

// RootKey is step 3 of the published derivation.
func RootKey(seed [16]byte, creationUnix int64) []byte {
	c := uint32(creationUnix)
	return Argon2id(seed[:], []byte{byte(c >> 24), byte(c >> 16), byte(c >> 8), byte(c)}, 4, 0x80000, 2, 32)
}

// expand32 is HKDF-Expand (RFC 5869) with SHA-256 for 32 bytes of output,
// that is T(1) = HMAC(PRK, info || 0x01).
func expand32(root []byte, info string) []byte {
	m := hmac.New(sha256.New, root)
	m.Write([]byte(info))
	m.Write([]byte{1})
	return m.Sum(nil)
}

// MasterSeed is the Ed25519 seed of the master key.
func MasterSeed(root []byte) []byte { return expand32(root, "mnemonikey master key") }

// SubkeySeed is the 32-byte seed of a subkey.
func SubkeySeed(root []byte, kind string, index uint16) []byte {
	return expand32(root, "mnemonikey "+kind+" subkey"+string([]byte{byte(index >> 8), byte(index)}))
}

// EdPublic gives the public key of an Ed25519 seed.
func EdPublic(seed []byte) []byte {
	return ed25519.NewKeyFromSeed(seed).Public().(ed25519.PublicKey)
}

// XPublic gives the X25519 public key of a little-endian secret.
func XPublic(secret []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(secret)
	if err != nil {
		panic(err)
	}
	return k.PublicKey().Bytes()
}

// XSecretBE gives the clamped X25519 secret as the big-endian integer bytes
// OpenPGP stores.
func XSecretBE(seed []byte) []byte {
	out := make([]byte, 32)
	for i, b := range seed {
		switch i {
		case 0:
			b &= 0xF8
		case 31:
			b = b&0x7F | 0x40
		}
		out[31-i] = b
	}
	return out
}

// KeyMaterial is one expected key: public point and secret integer (32 bytes
// each, as OpenPGP orders them).
type KeyMaterial struct {
	Kind           string
	Public, Secret []byte
}

// Derive gives the expected key material of a key type ("master",
// "encryption", "authentication", "signing").
func Derive(root []byte, kind string, index uint16) KeyMaterial {
	switch kind {
	case "master":
		s := MasterSeed(root)
		return KeyMaterial{kind, EdPublic(s), s}
	case "encryption":
		s := SubkeySeed(root, kind, index)
		return KeyMaterial{kind, XPublic(s), XSecretBE(s)}
	}
	s := SubkeySeed(root, kind, index)
	return KeyMaterial{kind, EdPublic(s), s}
}

// Subkeys lists the subkey types.
var Subkeys = []string{"encryption", "authentication", "signing"}

// UID is the documented user ID construction.
func UID(name, email string) string {
	switch {
	case name != "" && email != "":
		return name + " <" + email + ">"
	case name != "":
		return name
	}
	return email
}
