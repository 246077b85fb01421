package term

import (
	"os"
	"strconv"
	"strings"
	"time"
)

// Verification shim, copied into a scratch copy of golang.org/x/term only:
// sleeps at the entry of the terminal calls named in VERIF_TERM_DELAY
// ("Restore=120,ReadPassword=20", milliseconds), so that a terminal setting
// applied in the wrong order, or by a goroutine nobody waits for, shows.
func verifHook(name string) {
	for _, kv := range strings.Split(os.Getenv("VERIF_TERM_DELAY"), ",") {
		if k, v, ok := strings.Cut(kv, "="); ok && k == name {
			if ms, err := strconv.Atoi(v); err == nil {
				time.Sleep(time.Duration(ms) * time.Millisecond)
			}
		}
	}
}
