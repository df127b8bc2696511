// Driver for C29: typed values in trees of contexts.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strings"

	"github.com/wujiu2020/strip/utils"

	"verif/cmd/ctxval/other"
	"verif/h"
)

// kind stores and finds numbers as values of one type.
type kind struct {
	name string
	// with returns the pointer stored as well, find the one found
	with func(ctx context.Context, n int, double bool, name []string) (context.Context, interface{})
	find func(ctx context.Context, double, must bool, name []string) (bool, int, interface{})
}

func mk[T any](to func(int) T, from func(T) int) kind {
	look := func(ctx context.Context, target interface{}, must bool, name []string) (found bool) {
		if must {
			msg := h.Catch(func() { utils.MustCtxFindValue(ctx, target, name...) })
			if msg != "" && msg != utils.CtxValueNotFound.Error() {
				panic(msg)
			}
			return msg == ""
		}
		err := utils.CtxFindValue(ctx, target, name...)
		if err != nil && err != utils.CtxValueNotFound {
			panic(err)
		}
		return err == nil
	}
	return kind{
		name: fmt.Sprintf("%T", *new(T)),
		with: func(ctx context.Context, n int, double bool, name []string) (context.Context, interface{}) {
			if n < 0 && double {
				var p *T
				return utils.CtxWithValue(ctx, &p, name...), nil
			}
			if n < 0 {
				return utils.CtxWithValue(ctx, (*T)(nil), name...), nil
			}
			v := to(n)
			if double {
				p := &v
				return utils.CtxWithValue(ctx, &p, name...), p
			}
			return utils.CtxWithValue(ctx, &v, name...), &v
		},
		find: func(ctx context.Context, double, must bool, name []string) (bool, int, interface{}) {
			v := to(-1)
			if double {
				p := &v
				ok := look(ctx, &p, must, name)
				if p == nil {
					return ok, -1, nil
				}
				return ok, from(*p), p
			}
			ok := look(ctx, &v, must, name)
			return ok, from(v), nil
		},
	}
}

type (
	Named    struct{ V int }
	Same     struct{ V int }
	Num      int
	Str      string
	List     []int
	Map      map[string]int
	Fn       func() int
	Chan     chan int
	Array    [1]int
	G[T any] struct {
		V int
		_ T
	}
	Iface  interface{ Value() int }
	Iface2 interface{ Value() int }
	named  struct{ V int }
)

func (n Num) Value() int { return int(n) }

type num struct{ n int }

func (n *num) Error() string              { return fmt.Sprint(n.n) }
func (n *num) Read(p []byte) (int, error) { return 0, io.EOF }
func (n *num) Close() error               { return nil }

func localA() kind {
	type local struct{ V int }
	return mk(func(n int) local { return local{n} }, func(v local) int { return v.V })
}

func localB() kind {
	type local struct{ V int }
	return mk(func(n int) local { return local{n} }, func(v local) int { return v.V })
}

func localC() kind {
	type local struct{ V, W int }
	return mk(func(n int) local { return local{n, 1} }, func(v local) int { return v.V })
}

func localNum() kind {
	type Num int
	return mk(func(n int) Num { return Num(n) }, func(v Num) int { return int(v) })
}

func ch(n int) chan int { c := make(chan int, 1); c <- n; return c }
func get(c chan int) int {
	select {
	case n := <-c:
		c <- n
		return n
	default:
		return -4
	}
}

var kinds = []kind{
	mk(func(n int) Named { return Named{n} }, func(v Named) int { return v.V }),
	mk(func(n int) Same { return Same{n} }, func(v Same) int { return v.V }),
	mk(func(n int) named { return named{n} }, func(v named) int { return v.V }),
	mk(func(n int) other.Named { return other.Named{V: n} }, func(v other.Named) int { return v.V }),
	mk(func(n int) other.Num { return other.Num(n) }, func(v other.Num) int { return int(v) }),
	mk(func(n int) Num { return Num(n) }, func(v Num) int { return int(v) }),
	mk(func(n int) Str { return Str(fmt.Sprint(n)) }, func(v Str) (n int) { fmt.Sscan(string(v), &n); return }),
	mk(func(n int) List { return List{n} }, func(v List) int { return v[0] }),
	mk(func(n int) Map { return Map{"v": n} }, func(v Map) int { return v["v"] }),
	mk(func(n int) Fn { return func() int { return n } }, func(v Fn) int { return v() }),
	mk(func(n int) Chan { return ch(n) }, func(v Chan) int { return get(v) }),
	mk(func(n int) Array { return Array{n} }, func(v Array) int { return v[0] }),
	mk(func(n int) G[int] { return G[int]{V: n} }, func(v G[int]) int { return v.V }),
	mk(func(n int) G[string] { return G[string]{V: n} }, func(v G[string]) int { return v.V }),
	mk(func(n int) G[Named] { return G[Named]{V: n} }, func(v G[Named]) int { return v.V }),
	mk(func(n int) G[other.Named] { return G[other.Named]{V: n} }, func(v G[other.Named]) int { return v.V }),
	mk(func(n int) Iface { return Num(n) }, func(v Iface) int { return v.Value() }),
	mk(func(n int) Iface2 { return Num(n) }, func(v Iface2) int { return v.Value() }),
	mk(func(n int) error { return &num{n} }, func(v error) int { return v.(*num).n }),
	mk(func(n int) interface{} { return n }, func(v interface{}) int { return v.(int) }),
	mk(func(n int) interface{ Error() string } { return &num{n} }, func(v interface{ Error() string }) int { return v.(*num).n }),
	mk(func(n int) io.Reader { return &num{n} }, func(v io.Reader) int { return v.(*num).n }),
	mk(func(n int) io.Closer { return &num{n} }, func(v io.Closer) int { return v.(*num).n }),
	mk(func(n int) []int { return []int{n} }, func(v []int) int { return v[0] }),
	mk(func(n int) []string { return []string{fmt.Sprint(n)} }, func(v []string) (n int) { fmt.Sscan(v[0], &n); return }),
	mk(func(n int) []interface{} { return []interface{}{n} }, func(v []interface{}) int { return v[0].(int) }),
	mk(func(n int) map[string]int { return map[string]int{"v": n} }, func(v map[string]int) int { return v["v"] }),
	mk(func(n int) map[string]interface{} { return map[string]interface{}{"v": n} }, func(v map[string]interface{}) int { return v["v"].(int) }),
	mk(func(n int) func() int { return func() int { return n } }, func(v func() int) int { return v() }),
	mk(func(n int) func(int) int { return func(int) int { return n } }, func(v func(int) int) int { return v(0) }),
	mk(func(n int) chan int { return ch(n) }, func(v chan int) int { return get(v) }),
	mk(func(n int) [1]int { return [1]int{n} }, func(v [1]int) int { return v[0] }),
	mk(func(n int) [2]int { return [2]int{n} }, func(v [2]int) int { return v[0] }),
	mk(func(n int) struct{ V int } { return struct{ V int }{n} }, func(v struct{ V int }) int { return v.V }),
	mk(func(n int) struct{ W int } { return struct{ W int }{n} }, func(v struct{ W int }) int { return v.W }),
	mk(func(n int) http.Cookie { return http.Cookie{MaxAge: n} }, func(v http.Cookie) int { return v.MaxAge }),
	localA(), localB(), localC(), localNum(),
}

var names = []string{"", "a", "b", ":", "a:", ":a", "A", "Named", "é", "a b"}

func extra(r *rand.Rand, n string) []string {
	switch {
	case n == "" && r.Intn(2) == 0:
		return nil
	case r.Intn(5) == 0:
		return []string{n, "ignored"}
	}
	return []string{n}
}

type run struct {
	t   *h.Trace
	r   *rand.Rand
	cs  []context.Context
	ps  map[int]interface{} // the pointers stored, by value
	ts  []int               // concrete type of each abstract one
	nms []string
}

func (x *run) with(c, t int, n string) {
	v := len(x.cs) + 1
	if x.r.Intn(12) == 0 {
		v = -1 // a nil pointer
	}
	x.t.Ev("with", h.M{"c": c, "t": t, "n": n, "v": v}, nil)
	ctx, p := kinds[x.ts[t-1]].with(x.cs[c-1], v, x.r.Intn(2) == 0, extra(x.r, n))
	x.cs = append(x.cs, ctx)
	x.ps[v] = p
}

func (x *run) derive(c int) {
	ctx := x.cs[c-1]
	switch x.r.Intn(4) {
	case 0:
		var cancel func()
		ctx, cancel = context.WithCancel(ctx)
		defer cancel()
	case 1:
		ctx = context.WithValue(ctx, "verif/cmd/ctxval:Named:", &Named{77})
	case 2:
		type key string
		ctx = context.WithValue(ctx, key("verif/cmd/ctxval:Named:"), &Named{78})
	default:
		ctx = context.WithoutCancel(ctx)
	}
	x.cs = append(x.cs, ctx)
	x.t.Ev("derive", h.M{"c": c}, nil)
}

// find looks everything up everywhere, or at random.
func (x *run) find(all bool) {
	fs, got := h.L{}, h.L{}
	look := func(c, t int, n string) {
		ok, v, same := false, -2, true
		var p interface{}
		if msg := h.Catch(func() { ok, v, p = kinds[x.ts[t-1]].find(x.cs[c-1], x.r.Intn(2) == 0, x.r.Intn(3) == 0, extra(x.r, n)) }); msg != "" {
			v = -3
		}
		if ok && v > 0 && p != nil {
			same = p == x.ps[v]
		}
		fs = append(fs, h.M{"c": c, "t": t, "n": n})
		got = append(got, h.M{"found": ok, "v": v, "same": same})
	}
	if all {
		for c := range x.cs {
			for t := range x.ts {
				for _, n := range x.nms {
					look(c+1, t+1, n)
				}
			}
		}
	} else {
		for i := 0; i < 6; i++ {
			look(1+x.r.Intn(len(x.cs)), 1+x.r.Intn(len(x.ts)), x.nms[x.r.Intn(len(x.nms))])
		}
	}
	x.t.Ev("find", h.M{"fs": fs}, h.M{"got": got})
}

func main() {
	h.Main(h.Area{
		N: func(c *h.Ctx) int { return len(c.Scen) + c.Pick(1500, 30000) },
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			r := t.R
			x := &run{t: t, r: r, cs: []context.Context{context.Background()}, ps: map[int]interface{}{}}
			// every pair of types comes up, in either role
			n := len(kinds)
			k := i % (n * (n - 1))
			a, b := k/(n-1), k%(n-1)
			if b >= a {
				b++
			}
			x.ts = []int{a, b}
			if i < len(c.Scen) {
				t.Src = "spec"
				var steps []struct {
					C, T int
					N    string
				}
				if err := json.Unmarshal(c.Scen[i], &steps); err != nil {
					panic(err)
				}
				x.nms = []string{"", "a"}
				for _, s := range steps {
					if s.T == 0 {
						x.derive(s.C)
					} else {
						x.with(s.C, s.T, s.N)
					}
				}
				x.find(true)
			} else {
				t.Src = "random"
				for m := r.Intn(3); m > 0; m-- {
					if c := r.Intn(n); c != a && c != b && (len(x.ts) < 3 || x.ts[2] != c) {
						x.ts = append(x.ts, c)
					}
				}
				for _, m := range r.Perm(len(names))[:1+r.Intn(3)] {
					x.nms = append(x.nms, names[m])
				}
				for m := 3 + r.Intn(8); m > 0; m-- {
					// mostly the newest context
					c := len(x.cs)
					if r.Intn(3) == 0 {
						c = 1 + r.Intn(c)
					}
					switch r.Intn(5) {
					case 0:
						x.derive(c)
					case 1:
						x.find(false)
					default:
						x.with(c, 1+r.Intn(len(x.ts)), x.nms[r.Intn(len(x.nms))])
					}
				}
				x.find(len(x.cs)*len(x.ts)*len(x.nms) < 80)
			}
			var used []string
			for _, k := range x.ts {
				used = append(used, kinds[k].name)
			}
			t.Cfg = h.M{"types": strings.Join(used, ", ")}
		},
	})
}
