// Package vsched explores schedules: inside a testing/synctest bubble, where
// time is virtual, every scheduling point sleeps for a random virtual moment,
// so that goroutines are interleaved at statement granularity.
package vsched

import (
	"math/rand"
	"sync"
	"sync/atomic"
	"time"
)

var (
	on  atomic.Bool
	mu  sync.Mutex
	rnd *rand.Rand
	den int
	max int64
)

// Start makes one in den scheduling points sleep for up to max nanoseconds of
// virtual time.
func Start(seed int64, d int, m int64) {
	mu.Lock()
	rnd, den, max = rand.New(rand.NewSource(seed)), d, m
	mu.Unlock()
	on.Store(true)
}

func Stop() { on.Store(false) }

// Y is a scheduling point.
func Y() {
	if !on.Load() {
		return
	}
	mu.Lock()
	d := int64(0)
	if rnd.Intn(den) == 0 {
		d = 1 + rnd.Int63n(max)
	}
	mu.Unlock()
	if d > 0 {
		time.Sleep(time.Duration(d))
	}
}
