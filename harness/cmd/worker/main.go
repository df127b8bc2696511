// Driver for C14 and C15: concurrent users of a worker pool under explored
// schedules, in virtual time.
package main

import (
	"encoding/json"
	"errors"
	"math/rand"
	"sync"
	"time"

	"github.com/wujiu2020/strip/utils"

	"verif/bub"
	"verif/h"
	"verif/vsched"
)

const reps = 4 // timings of each program of the specification

const slot = 10 * time.Millisecond

// op is one call of an actor, made at a time slot.
type op struct {
	At   int    `json:"at"`   // slots after the actor's previous call
	Op   string `json:"op"`   // sub, wait, close
	Dur  int    `json:"dur"`  // slots the task runs
	Err  bool   `json:"err"`  // it returns an error
	Body string `json:"body"` // "", "sub" (submits a task), "close"
	Void bool   `json:"void"` // a func()
}

type scen struct {
	N     int      `json:"n"`
	Ops   []string `json:"ops"` // a program of the specification
	Progs [][]op   `json:"-"`
	Sched int64    `json:"-"`
}

type taskErr struct{ i int }

func (taskErr) Error() string { return "task failed" }

func main() {
	h.Main(h.Area{
		N: func(c *h.Ctx) int { return reps*len(c.Scen) + c.Pick(1200, 12000) },
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			var s scen
			if i < reps*len(c.Scen) {
				if err := json.Unmarshal(c.Scen[i/reps], &s); err != nil {
					panic(err)
				}
				at := 0
				for _, x := range s.Ops {
					at += t.R.Intn(3) / 2
					o := op{At: at, Op: x}
					if x == "ok" || x == "err" {
						o.Op, o.Err, o.Dur = "sub", x == "err", t.R.Intn(3)
					}
					s.Progs = append(s.Progs, []op{o})
				}
				t.Src = "spec"
			} else {
				s = random(t.R)
				if t.R.Intn(25) == 0 {
					s = wide(t.R)
				}
				t.Src = "random"
			}
			if t.R.Intn(4) != 0 {
				s.Sched = t.R.Int63()
			}
			run(s, t)
		},
		Timeout: 30 * time.Second,
	})
}

func random(r *rand.Rand) scen {
	s := scen{N: 1 + r.Intn(3)}
	nest := s.N - 1 // fewer tasks submit tasks than there are slots
	perr := h.Pick(r, 0, 0, 4, 8)
	actors := 1 + r.Intn(3)
	tasks := 0
	for a := 0; a < actors; a++ {
		var p []op
		for k, n := 0, 1+r.Intn(4); k < n; k++ {
			o := op{At: r.Intn(3)}
			switch x := r.Intn(10); {
			case x < 6 && tasks < 7:
				tasks++
				o.Op, o.Dur = "sub", r.Intn(4)
				o.Err = r.Intn(10) < perr
				o.Void = !o.Err && r.Intn(3) == 0
				if r.Intn(4) == 0 && nest > 0 && tasks < 7 {
					nest--
					tasks++
					o.Body = "sub"
				} else if r.Intn(12) == 0 {
					o.Body = "close"
				}
			case x < 9:
				o.Op = "wait"
			case r.Intn(2) == 0:
				o.Op = "close"
			default:
				o.Op = "wait"
			}
			p = append(p, o)
		}
		s.Progs = append(s.Progs, p)
	}
	return s
}

// wide fills a large pool beyond its size
func wide(r *rand.Rand) scen {
	s := scen{N: 4 + r.Intn(21)}
	actors := 1 + r.Intn(2)
	left := s.N + 1 + r.Intn(4)
	fails := r.Intn(3) == 0
	for a := 0; a < actors; a++ {
		n := left / (actors - a)
		left -= n
		var p []op
		for ; n > 0; n-- {
			o := op{Op: "sub", Dur: 2 + r.Intn(2), Void: r.Intn(3) == 0}
			if fails && r.Intn(s.N) == 0 {
				o.Err, o.Void = true, false
			}
			p = append(p, o)
		}
		if r.Intn(2) == 0 {
			p = append(p, op{Op: "wait"})
		}
		s.Progs = append(s.Progs, p)
	}
	return s
}

func run(s scen, t *h.Trace) {
	t.Cfg = h.M{"n": s.N}
	bub.Run(func() {
		if s.Sched != 0 {
			vsched.Start(s.Sched, 1+int(s.Sched%3), 1500)
			defer vsched.Stop()
		}
		w := utils.NewWorker(s.N)
		var mu sync.Mutex
		ids, pending, news := 0, 0, 0
		ev := func(op string, in, obs h.M, dp int) {
			mu.Lock()
			t.Ev(op, in, obs)
			pending += dp
			news++
			mu.Unlock()
		}
		id := func() int {
			mu.Lock()
			defer mu.Unlock()
			ids++
			return ids
		}
		var submit func(o op)
		doClose := func() {
			i := id()
			ev("close", h.M{"i": i}, nil, 1)
			w.Close()
			ev("closeret", h.M{"i": i}, nil, -1)
		}
		submit = func(o op) {
			i := id()
			task := func() error {
				ev("start", h.M{"i": i}, nil, 1)
				time.Sleep(time.Duration(o.Dur) * slot)
				switch o.Body {
				case "sub":
					submit(op{Op: "sub", Dur: o.Dur / 2})
				case "close":
					doClose()
				}
				ev("end", h.M{"i": i, "err": o.Err}, nil, -1)
				if o.Err {
					return taskErr{i}
				}
				return nil
			}
			ev("sub", h.M{"i": i}, nil, 1)
			if o.Void {
				w.RunTask(func() { task() })
			} else {
				w.RunTask(task)
			}
			ev("subret", h.M{"i": i}, nil, -1)
		}
		wait := func() {
			i := id()
			ev("wait", h.M{"i": i}, nil, 1)
			var err error
			msg := h.Catch(func() { err = w.Wait() })
			n := 0
			var te taskErr
			if errors.As(err, &te) {
				n = te.i
			} else if err != nil {
				n = -1
			}
			ev("waitret", h.M{"i": i}, h.M{"err": n, "panic": msg != ""}, -1)
		}
		do := func(o op) {
			switch o.Op {
			case "sub":
				submit(o)
			case "wait":
				wait()
			case "close":
				doClose()
			}
		}
		left := len(s.Progs)
		for _, p := range s.Progs {
			go func() {
				for _, o := range p {
					time.Sleep(time.Duration(o.At) * slot)
					do(o)
				}
				mu.Lock()
				left--
				mu.Unlock()
			}()
		}
		phase := 0
		bub.Settle(slot / 2)
		for still := 0; ; {
			mu.Lock()
			n, l, changed := pending, left, news > 0
			if changed && n > 0 {
				t.Ev("quiet", nil, nil)
			}
			news = 0
			mu.Unlock()
			if l == 0 && n == 0 {
				if phase == 1 {
					ev("finished", nil, nil, 0)
					return
				}
				phase, still = 1, 0
				mu.Lock()
				left = 1
				mu.Unlock()
				go func() {
					wait()
					submit(op{Dur: 1})
					wait()
					doClose()
					submit(op{Dur: 1})
					wait()
					mu.Lock()
					left = 0
					mu.Unlock()
				}()
			}
			if changed {
				still = 0
			} else if still++; still > 40 {
				ev("stuck", nil, nil, 0)
				return
			}
			bub.Settle(slot)
		}
	})
}
