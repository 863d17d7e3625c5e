//go:build perturb

package harness

import (
	"math/rand/v2"
	"syscall"

	"github.com/teonet-go/tru"
)

// some of the places (others each time) hold goroutines up for long, the rest
// for a short while
func init() {
	linger = func(seed int64) {
		if seed < 0 {
			tru.VerifLinger.Store(nil)
			return
		}
		f := func(site int) {
			h := (uint64(seed)*31 + uint64(site) + 1) * 0x9E3779B97F4A7C15 >> 33
			d := rand.Int64N(50_000)
			n := uint32(4)
			if h%10 == 0 {
				d, n = rand.Int64N(1_500_000), 2
			}
			if rand.Uint32N(n) == 0 {
				ts := syscall.NsecToTimespec(1000 + d)
				syscall.Nanosleep(&ts, nil)
			}
		}
		tru.VerifLinger.Store(&f)
	}
}
