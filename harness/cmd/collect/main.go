// Driver for C30: session collections over virtual time.
package main

import (
	"errors"
	"io"
	"log"
	"runtime"
	"time"

	"github.com/wujiu2020/strip/sessions"

	"verif/bub"
	"verif/h"
)

type prov struct {
	sessions.SessionProvider
	n, still int
	fail     bool
	last     time.Time
	main     bool
}

func (p *prov) Config() *sessions.Config {
	return &sessions.Config{SecretKey: "s", SessionExpire: 60}
}

func (p *prov) GC() error {
	p.n++
	if p.still++; !p.last.Equal(time.Now()) {
		p.last, p.still = time.Now(), 0
	}
	if p.still > 100 && !p.main {
		p.n = -1000000000 // collecting without a pause
		runtime.Goexit()
	}
	if p.fail {
		return errors.New("back end down")
	}
	return nil
}

var intervals = []int{-1, -1, 0, 1, 30, 59, 60, 61, 90, 600, 3599, 3600, 3601, 7200, 86400}

func main() {
	log.SetOutput(io.Discard)
	h.Main(h.Area{
		N: func(c *h.Ctx) int { return c.Pick(300, 6000) },
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			r := t.R
			t.Src = "random"
			bub.Run(func() {
				p := &prov{}
				m := sessions.NewSessionManager(p)
				gc := func(k int) {
					p.main = true
					if k < 0 {
						m.GC()
					} else {
						m.GC(time.Duration(k) * time.Second)
					}
					p.main = false
					t.Ev("gc", h.M{"every": k}, h.M{"n": p.n})
				}
				k := intervals[i%len(intervals)]
				gc(k)
				for n := 0; n < 3+r.Intn(8) && p.n >= 0; n++ {
					if r.Intn(12) == 0 {
						gc(intervals[r.Intn(len(intervals))])
						continue
					}
					p.fail = r.Intn(3) == 0
					s := []int{1, 59, 60, 61, 120, 3540, 3599, 3600, 7201, 20000}[r.Intn(10)]
					bub.Settle(time.Duration(s) * time.Second)
					t.Ev("adv", h.M{"s": s}, h.M{"n": p.n})
				}
			})
		},
	})
}
