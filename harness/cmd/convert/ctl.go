package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strings"

	"github.com/wujiu2020/strip"

	"verif/h"
)

type dep struct{ Id string }

// rec receives what the action of the current request saw
type rec struct {
	args []reflect.Value
	b    *Base
	n    int
}

var cur *rec

// Base is the state every controller has
type Base struct {
	Str   string
	Num   int
	Keep  *dep
	Arr   [2]int
	Dep   *dep `inject`
	Named *dep `inject:"named"`
	hide  string
}

// seen records what an action finds, then spoils its controller
func (b *Base) seen(args ...interface{}) {
	cur.n++
	snap := *b
	cur.b = &snap
	for _, a := range args {
		cur.args = append(cur.args, reflect.ValueOf(a))
	}
	b.Str, b.Num, b.Keep, b.Arr[0], b.hide = "spoiled", -1, &dep{"spoiled"}, -1, "spoiled"
	b.Dep, b.Named = &dep{"spoiled"}, nil
}

type A0 struct{ Base }
type A1[A any] struct{ Base }
type A2[A, B any] struct {
	X int
	Base
}
type A3[A, B, C any] struct {
	Base
	Y string
}

func (c *A0) Get()                            { c.seen() }
func (c *A1[A]) Get(a A)                      { c.seen(a) }
func (c *A2[A, B]) Get(a A, b B)              { c.seen(a, b) }
func (c *A3[A, B, C]) Get(x A, y B, z C)      { c.seen(x, y, z) }
func (c A0) Plain()                           {}
func (c *A1[A]) Other(a A)                    { c.seen(a) }
func (c *A2[A, B]) Odd(b B, a A)              {}
func (c *A2[A, B]) Other(a A, b B) (int, int) { c.seen(a, b); return 1, 2 }

func ctls(b Base) []interface{} {
	return []interface{}{
		&A0{b}, A0{b},
		&A1[bool]{b}, &A1[int]{b}, &A1[int8]{b}, &A1[int16]{b}, &A1[int32]{b}, &A1[int64]{b},
		&A1[uint]{b}, &A1[uint8]{b}, &A1[uint16]{b}, &A1[uint32]{b}, &A1[uint64]{b},
		&A1[float32]{b}, &A1[float64]{b}, &A1[string]{b}, A1[nInt8]{b}, A1[nStr]{b}, &A1[nUint16]{b}, &A1[nBool]{b},
		&A2[int, string]{1, b}, &A2[string, uint8]{1, b}, A2[float64, bool]{1, b}, &A2[int64, int64]{1, b}, &A2[nInt, nF32]{1, b},
		&A2[[]string, int]{1, b}, &A2[[]byte, uint]{1, b},
		&A3[int, string, bool]{b, "y"}, A3[uint64, int8, float32]{b, "y"}, &A3[string, string, string]{b, "y"},
		&A3[int16, nStr, uint32]{b, "y"},
	}
}

func kindOf(ty reflect.Type) string {
	if ty.Kind() == reflect.Slice {
		if ty.Elem().Kind() == reflect.Uint8 {
			return "bytes"
		}
		return "strs"
	}
	return ty.Kind().String()
}

func runCtl(c *h.Ctx, t *h.Trace, ts []string) {
	r := t.R
	proto := Base{Str: h.Pick(r, "", "proto"), Num: r.Intn(3), Keep: &dep{"keep"}, Arr: [2]int{r.Intn(3), 5}}
	if r.Intn(4) == 0 {
		proto.Dep, proto.Named = &dep{"protodep"}, &dep{"protodep"}
	}
	if r.Intn(4) == 0 {
		proto.Keep = nil
	}
	nilProto := r.Intn(5) == 0 // a nil pointer stands for the zero controller
	if nilProto {
		proto = Base{}
	}
	keep := func(b *Base) string {
		if b.Keep == nil {
			return "nil"
		}
		return b.Keep.Id
	}
	t.Cfg = h.M{"proto": h.M{"str": proto.Str, "num": proto.Num, "keep": keep(&proto), "arr": proto.Arr[0]}}
	all := ctls(proto)
	for i := range all {
		if v := reflect.ValueOf(all[i]); nilProto {
			all[i] = reflect.Zero(v.Type()).Interface()
		}
	}
	type rt struct {
		path  string // with one %s per parameter
		n     int
		kinds []string
		meth  string
	}
	var routes []rt
	var handlers []strip.Handler
	add := func(k int, ctl interface{}) {
		// the parameters of the path
		n := r.Intn(5)
		if ts != nil {
			n = 1
		}
		pat, fmtp := fmt.Sprintf("/r%d", k), fmt.Sprintf("/r%d", k)
		for j := 0; j < n; j++ {
			if r.Intn(4) == 0 {
				pat += "/lit"
				fmtp += "/lit"
			}
			pat += fmt.Sprintf("/:%s%d", h.Pick(r, "p", "z", "a"), j)
			fmtp += "/%s"
		}
		ty := reflect.TypeOf(ctl)
		if ty.Kind() != reflect.Ptr {
			ty = reflect.PtrTo(ty)
		}
		name := "Get"
		m, _ := ty.MethodByName("Get")
		var kinds []string
		for j := 1; j < m.Type.NumIn(); j++ {
			kinds = append(kinds, kindOf(m.Type.In(j)))
		}
		if kinds == nil {
			kinds = []string{}
		}
		var in strip.Handler
		_, other := ty.MethodByName("Other")
		switch x := r.Intn(5); {
		case x == 0 && other:
			in = strip.Get(ctl).Action("Other")
		case x == 1:
			in = strip.All(ctl)
			if _, odd := ty.MethodByName("Odd"); odd && r.Intn(2) == 0 { // for other methods
				in = strip.All(ctl).Action("Odd")
			}
		default:
			in = strip.Get(ctl)
		}
		handlers = append(handlers, strip.Router(pat, in))
		routes = append(routes, rt{fmtp, n, kinds, name})
	}
	if ts != nil {
		for k, ctl := range all {
			if strings.HasPrefix(strings.TrimPrefix(strings.TrimPrefix(reflect.TypeOf(ctl).String(), "*"), "main."), "A1") {
				add(k, ctl)
			}
		}
	} else {
		for k := 0; k < 4; k++ {
			add(k, all[r.Intn(len(all))])
		}
		// the same prototype under two routes
		same := all[r.Intn(len(all))]
		add(4, same)
		add(5, same)
	}
	sp := strip.New()
	sp.SetLogger(strip.NewLogger(discard{}))
	sp.Filter(func(ctx strip.Context, req *http.Request) {
		ctx.ProvideAs(&dep{"n" + req.Header.Get("X-Id")}, nil, "named")
	})
	sp.Provide(func(req *http.Request) *dep { return &dep{req.Header.Get("X-Id")} })
	sp.Routers(handlers...)
	n := 0
	serve := func(x rt, ps []string) {
		n++
		id := fmt.Sprintf("q%d", n)
		args := make([]interface{}, len(ps))
		for i := range ps {
			args[i] = ps[i]
		}
		req := httptest.NewRequest("GET", "/", nil)
		req.URL = &url.URL{Path: fmt.Sprintf(x.path, args...)}
		req.Header.Set("X-Id", id)
		cur = &rec{}
		msg := h.Catch(func() { sp.ServeHTTP(httptest.NewRecorder(), req) })
		if msg == "" && cur.n != 1 {
			msg = fmt.Sprintf("action ran %d times", cur.n)
		}
		obs := h.M{"panic": msg, "args": h.L{"r", h.L{}}, "str": "", "num": 0, "keep": "", "dep": "", "named": "", "arr": 0}
		if cur.b != nil {
			var as h.L = h.L{}
			for _, a := range cur.args {
				as = append(as, render(a))
			}
			did := func(d *dep) string {
				if d == nil {
					return "nil"
				}
				return d.Id
			}
			if cur.b.hide != "" {
				obs["panic"] = "unexported field leaked"
			}
			obs["args"] = h.L{"r", as}
			obs["str"], obs["num"], obs["keep"], obs["arr"] = cur.b.Str, cur.b.Num, keep(cur.b), cur.b.Arr[0]
			obs["dep"], obs["named"] = did(cur.b.Dep), did(cur.b.Named)
		}
		t.Ev("call", h.M{"kinds": x.kinds, "params": texts(ps), "id": id}, obs)
	}
	if ts != nil {
		for _, s := range ts {
			if !segment(s) {
				continue
			}
			for _, x := range routes {
				if floatSafe(s, x.kinds[0]) {
					serve(x, []string{s})
				}
			}
		}
		return
	}
	for i := 0; i < 10; i++ {
		x := routes[r.Intn(len(routes))]
		if i > 6 {
			x = routes[4+i%2]
		}
		ps := []string{}
		for j := 0; j < x.n; j++ {
			k := "string"
			if j < len(x.kinds) {
				k = x.kinds[j]
			}
			s := safeText(r, k)
			for !segment(s) {
				s = safeText(r, k)
			}
			ps = append(ps, s)
		}
		serve(x, ps)
	}
}

// can the text be a segment of a path as it is
func segment(s string) bool {
	return s != "" && s != "." && s != ".." && strings.TrimSpace(s) == s && !strings.Contains(s, "/")
}
