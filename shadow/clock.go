package time

import "syscall"

// verifNow is the clock of the observed program: the real one, or the one the
// monitor sets (nanoseconds since 1970 in VERIF_CLOCK).
func verifNow() (sec int64, nsec int32, mono int64) {
	sec, nsec, mono = runtimeNow()
	v, ok := syscall.Getenv("VERIF_CLOCK")
	if !ok || v == "" {
		return
	}
	neg := v[0] == '-'
	if neg {
		v = v[1:]
	}
	var n int64
	for i := 0; i < len(v) && '0' <= v[i] && v[i] <= '9'; i++ {
		n = n*10 + int64(v[i]-'0')
	}
	if neg {
		n = -n
	}
	sec = n / 1e9
	n %= 1e9
	if n < 0 {
		n += 1e9
		sec--
	}
	return sec, int32(n), mono
}
