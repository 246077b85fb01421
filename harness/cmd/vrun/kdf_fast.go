//go:build fastkdf

package main

import (
	"fmt"

	"golang.org/x/crypto/argon2"
)

// kdfStats reports the cost parameters the monitored code asked the KDF for.
func kdfStats() map[string]any {
	out := map[string]any{}
	for k, v := range argon2.VerifStats() {
		out[fmt.Sprintf("%s time=%d memoryKiB=%d threads=%d keyLen=%d saltLen=%d", k.Variant, k.Time, k.Memory, k.Threads, k.KeyLen, k.SaltLen)] = v
	}
	return map[string]any{"kdf_calls_of_the_monitored_library": out}
}
