// Driver for C35: handlers of the application and of a route look at, replace,
// bound and cancel the context of their request.
package main

import (
	gocontext "context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils"

	"verif/h"
)

type key string

type thing struct{ n int }

type step struct {
	Op, K   string
	V, C, P int
}

var base = time.Now().Add(100 * time.Hour).Truncate(time.Second)

type world struct {
	t     *h.Trace
	r     *rand.Rand
	nodes int
	stops map[int]func()
	live  []int
	next  int
	ran   []string
}

type handler struct {
	w   *world
	id  string
	c   int // the chain it belongs to
	ctx strip.Context
	req *http.Request
}

func (x *handler) ev(op string, k string, v, c int) {
	x.w.t.Ev(op, h.M{"h": x.id, "k": k, "v": v, "c": c}, nil)
}

// node adds a context as the specification counts them.
func (w *world) node(stop func()) {
	w.nodes++
	if stop != nil {
		w.stops[w.nodes] = stop
		w.live = append(w.live, w.nodes)
	}
}

func (x *handler) chain(c int) strip.Context {
	if c == x.c {
		return x.ctx
	}
	var app strip.Context
	if err := utils.CtxFindValue(x.req.Context(), &app); err != nil {
		panic(err)
	}
	return app
}

func (x *handler) do(s step) {
	w := x.w
	switch s.Op {
	case "set":
		c := x.chain(s.C)
		c.ReplaceContext(gocontext.WithValue(c.GetContext(), key(s.K), s.V))
		w.node(nil)
	case "reset":
		x.ctx.ReplaceContext(x.req.Context())
	case "empty":
		x.ctx.ReplaceContext(gocontext.Background())
	case "bound":
		var c gocontext.Context
		var stop func()
		if s.V == 0 {
			c, stop = gocontext.WithCancel(x.ctx.GetContext())
		} else {
			c, stop = gocontext.WithDeadline(x.ctx.GetContext(), base.Add(time.Duration(s.V)*time.Hour))
		}
		x.ctx.ReplaceContext(c)
		w.node(stop)
	case "cancel":
		w.stops[s.V]()
	case "other":
		x.ctx.Provide(x.req.WithContext(gocontext.WithValue(x.req.Context(), key(s.K), s.V)))
		w.node(nil)
	case "provide":
		x.ctx.Provide(&thing{s.V})
	}
	x.ev(s.Op, s.K, s.V, s.C)
}

func view(c gocontext.Context) h.M {
	vals := []int{}
	for _, k := range []string{"a", "b"} {
		v, _ := c.Value(key(k)).(int)
		vals = append(vals, v)
	}
	o := h.M{"vals": vals, "over": false, "dl": 0, "app": false, "inj": 0}
	closed := false
	select {
	case <-c.Done():
		closed = true
	default:
	}
	switch err := c.Err(); {
	case err == nil && !closed:
	case err == gocontext.Canceled && closed:
		o["over"] = true
	default:
		o["err"] = fmt.Sprint(err, closed)
	}
	if d, ok := c.Deadline(); ok {
		o["dl"] = int(d.Sub(base) / time.Hour)
	}
	var app strip.Context
	if utils.CtxFindValue(c, &app) == nil {
		o["app"] = true
		var th *thing
		if app.Find(&th) == nil && th != nil {
			o["inj"] = th.n
		}
	}
	return o
}

func (x *handler) look() {
	var c gocontext.Context = x.ctx
	if x.w.r.Intn(2) == 0 {
		c = x.ctx.GetContext()
	}
	x.w.t.Ev("look", h.M{"h": x.id, "c": x.c}, h.M{"ctx": view(c), "req": view(x.req.Context())})
}

func (w *world) random(x *handler) step {
	w.next++
	k := h.Pick(w.r, "a", "b")
	switch w.r.Intn(12) {
	case 0, 1, 2:
		c := x.c
		if c == 2 && w.r.Intn(3) == 0 {
			c = 1
		}
		return step{Op: "set", K: k, V: w.next, C: c}
	case 3:
		return step{Op: "reset", C: x.c}
	case 4:
		if w.r.Intn(2) == 0 {
			return step{Op: "empty", C: x.c}
		}
	case 5, 6:
		return step{Op: "bound", V: w.r.Intn(4), C: x.c}
	case 7, 8:
		if len(w.live) > 0 {
			return step{Op: "cancel", V: w.live[w.r.Intn(len(w.live))], C: x.c}
		}
	case 9:
		return step{Op: "other", K: k, V: w.next, C: x.c}
	case 10:
		return step{Op: "provide", V: w.next, C: x.c}
	}
	return step{Op: "set", K: k, V: w.next, C: x.c}
}

// script tells what a handler does before and after it yields (when it does).
type script struct {
	before, after []step
	n, m          int // so many random steps instead
	yields        bool
}

func (w *world) handle(id string, c int, s script) interface{} {
	return func(ctx strip.Context, req *http.Request) {
		x := &handler{w: w, id: id, c: c, ctx: ctx, req: req}
		w.ran = append(w.ran, id)
		w.t.Ev("enter", h.M{"h": id}, nil)
		x.look()
		part := func(steps []step, n int) {
			for _, st := range steps {
				x.do(st)
				x.look()
			}
			for ; n > 0; n-- {
				x.do(w.random(x))
				if w.r.Intn(2) == 0 {
					x.look()
				}
			}
			x.look()
		}
		part(s.before, s.n)
		if s.yields {
			ctx.Next()
			part(s.after, s.m)
		}
	}
}

func (w *world) serve(sp *strip.Strip, path string, ids []string) {
	w.nodes, w.stops, w.live, w.ran = 4, map[int]func(){}, []int{1}, []string{}
	in, cancel := gocontext.WithCancel(gocontext.Background())
	w.stops[1] = cancel
	w.t.Ev("request", nil, nil)
	rec := httptest.NewRecorder()
	req := httptest.NewRequest("GET", path, nil).WithContext(in)
	sp.ServeHTTP(rec, req)
	for _, stop := range w.stops {
		stop()
	}
	w.t.Ev("end", h.M{"ids": ids}, h.M{"ran": w.ran})
}

func main() {
	h.Main(h.Area{
		N: func(c *h.Ctx) int { return len(c.Scen) + c.Pick(1200, 20000) },
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			r := t.R
			w := &world{t: t, r: r}
			sp := strip.New()
			if i < len(c.Scen) {
				t.Src = "spec"
				var steps []step
				if err := json.Unmarshal(c.Scen[i], &steps); err != nil {
					panic(err)
				}
				var parts [4][]step
				for _, s := range steps {
					parts[s.P] = append(parts[s.P], s)
				}
				sp.Filter(w.handle("f", 1, script{before: parts[1], after: parts[3], yields: true}))
				act := w.handle("act", 2, script{before: parts[2]})
				if r.Intn(4) == 0 {
					sp.NotFound(act)
				} else {
					sp.Routers(strip.Router("/x", strip.Get(act)))
				}
				w.serve(sp, "/x", []string{"f", "act"})
				return
			}
			t.Src = "random"
			some := func() script {
				return script{n: r.Intn(4), m: r.Intn(4), yields: r.Intn(2) == 0}
			}
			ids := []string{}
			for n := r.Intn(3); n > 0; n-- {
				sp.Filter(w.handle(fmt.Sprint("f", n), 1, some()))
				ids = append(ids, fmt.Sprint("f", n))
			}
			var hs []interface{}
			for n := r.Intn(3); n > 0; n-- {
				hs = append(hs, w.handle(fmt.Sprint("g", n), 2, some()))
				ids = append(ids, fmt.Sprint("g", n))
			}
			sp.Routers(strip.Router("/x", strip.Filter(hs...), strip.Get(w.handle("act", 2, script{n: r.Intn(4)}))))
			sp.NotFound(append(hs, w.handle("none", 2, script{n: r.Intn(4)}))...)
			for n := 1 + r.Intn(2); n > 0; n-- {
				if r.Intn(3) > 0 {
					w.serve(sp, "/x", append(ids[:len(ids):len(ids)], "act"))
				} else {
					w.serve(sp, "/y", append(ids[:len(ids):len(ids)], "none"))
				}
			}
		},
	})
}
