// Driver for C13: requests served alone, then together under explored
// schedules by one application.
package main

import (
	"bytes"
	stdgzip "compress/gzip"
	gocontext "context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/gzip"
	"github.com/wujiu2020/strip/params"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils"

	"verif/bub"
	"verif/h"
	"verif/vsched"
)

type (
	Val struct{ S string }
	Fn  struct{ S string }
	AV  struct{ S string }
	key struct{}
)

// op is one operation of a handler's script
type op struct {
	Op string
	V  interface{}
}

// request is one request of a scenario; scripts by handler:
// 0 outer filter, 1 outer filter after it yielded, 2 route filter, 3 action
type request struct {
	Tok, Kind, P string
	Num          int
	Gz           bool
	Scripts      [4][]op
	Yield        bool
}

type options struct {
	rec, gz, reqlog, params bool
}

type runner struct {
	opt   options
	reqs  []*request
	t     *h.Trace
	mu    sync.Mutex
	byGid map[string]int
	ctl   *Ctl
	slow  bool
}

func gid() string {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)])
	return strings.Fields(s)[1]
}

func (x *runner) me() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.byGid[gid()]
}

func (x *runner) ev(o string, r int, lvl string, v interface{}, obs h.M) {
	if v == nil {
		v = ""
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	x.t.Ev(o, h.M{"r": r + 1, "lvl": lvl, "v": v}, obs)
}

var cur *runner

// Ctl is a controller
type Ctl struct {
	Count int
	Val   *Val                `inject`
	Fn    *Fn                 `inject`
	Req   *http.Request       `inject`
	Ctx   strip.Context       `inject`
	Info  *strip.RouteInfo    `inject`
	RW    http.ResponseWriter `inject`
	note  string
}

func (c *Ctl) Show(p string, n int) (string, int) {
	x := cur
	r := x.me()
	x.ev("ctl", r, "i", nil, h.M{"count": c.Count, "val": c.Val.S, "fn": c.Fn.S, "tok": c.Req.Header.Get("X-Tok") + c.note,
		"p": p, "num": n})
	c.Count = 100 + r
	c.note = "used"
	c.Val = &Val{"mine"}
	return x.action(r, c.Ctx, c.RW, c.Req)
}

func (x *runner) script(r, k int, lvl string, ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	for _, o := range x.reqs[r].Scripts[k] {
		switch o.Op {
		case "nap":
			time.Sleep(time.Duration(o.V.(int)) * time.Microsecond)
		case "ctx":
			ctx.ReplaceContext(gocontext.WithValue(ctx.GetContext(), key{}, o.V))
			x.ev("ctx", r, lvl, o.V, nil)
		case "val":
			ctx.Provide(&Val{o.V.(string)})
			x.ev("val", r, lvl, o.V, nil)
		case "hdr":
			rw.Header().Set("X-S", o.V.(string))
			x.ev("hdr", r, lvl, o.V, nil)
		case "status":
			rw.WriteHeader(o.V.(int))
			x.ev("status", r, lvl, o.V, nil)
		case "write":
			// recorded first, sending takes effect at the client only
			x.ev("write", r, lvl, o.V, nil)
			rw.Write([]byte(o.V.(string)))
		case "panic":
			x.ev("panic", r, lvl, nil, nil)
			panic("scripted " + x.reqs[r].Tok)
		case "fn":
			var f *Fn
			s := ""
			if err := ctx.Find(&f, ""); err != nil {
				s = err.Error()
			} else {
				s = f.S
			}
			x.ev("fn", r, lvl, nil, h.M{"fn": s})
		case "see":
			x.see(r, lvl, ctx, rw)
		}
	}
}

func (x *runner) see(r int, lvl string, ctx strip.Context, rw http.ResponseWriter) {
	obs := h.M{"id": "", "q": "", "info": "", "gtok": ""}
	f := func(req *http.Request, v *Val, a *AV, w http.ResponseWriter) {
		obs["tok"] = req.Header.Get("X-Tok")
		obs["val"], obs["app"] = v.S, a.S
		obs["st"] = w.(strip.ResponseWriter).Status()
		obs["hdr"] = w.Header().Get("X-S")
		var gc strip.Context
		if err := utils.CtxFindValue(req.Context(), &gc); err == nil {
			var q *http.Request
			if err := gc.Find(&q, ""); err == nil {
				obs["gtok"] = q.Header.Get("X-Tok")
			}
		}
	}
	if _, err := ctx.Invoke(f); err != nil {
		obs["err"] = err.Error()
	}
	s, _ := ctx.Value(key{}).(string)
	obs["ctx"] = s
	var p *params.Params
	if err := ctx.Find(&p, ""); err == nil {
		obs["q"] = p.Query.Get("q")
	}
	if x.opt.reqlog {
		var l strip.ReqLogger
		if err := ctx.Find(&l, ""); err == nil {
			obs["id"] = l.ReqId()
		}
	}
	if lvl == "i" {
		var info *strip.RouteInfo
		if err := ctx.Find(&info, ""); err == nil {
			obs["info"] = strings.Join(info.Keys, ",") + "=" + info.Get("p") + "," + info.Get("n")
		} else {
			obs["info"] = "none"
		}
	}
	x.ev("see", r, lvl, nil, obs)
}

func (x *runner) action(r int, ctx strip.Context, rw http.ResponseWriter, req *http.Request) (string, int) {
	x.script(r, 3, "i", ctx, rw, req)
	// results
	s, code := "", 0
	for _, o := range x.reqs[r].Scripts[3] {
		switch o.Op {
		case "ret":
			s = o.V.(string)
			x.ev("ret", r, "i", s, nil)
		case "code":
			code = o.V.(int)
			x.ev("code", r, "i", code, nil)
		}
	}
	if code == 0 {
		code = 200
	}
	return s, code
}

func (x *runner) app() *strip.Strip {
	sp := strip.New()
	sp.SetLogger(strip.NewLogger(log.New(io.Discard, "", 0)))
	sp.Config.RunMode = "prod"
	x.ctl = &Ctl{Count: 7}
	sp.Provide(&Val{"app"}, &AV{"app"}, func(req *http.Request, v *Val) *Fn {
		return &Fn{req.Header.Get("X-Tok") + ":" + v.S}
	}, params.ParamsParser())
	if x.opt.rec {
		sp.Filter(strip.RecoveryFilter())
	}
	if x.opt.gz {
		sp.Filter(gzip.All())
	}
	if x.opt.reqlog {
		sp.Filter(reqlogger.ReqLoggerFilter(log.New(io.Discard, "", 0)))
	}
	sp.Filter(strip.GenericOutFilter())
	sp.Filter(func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
		r := x.me()
		x.script(r, 0, "o", ctx, rw, req)
		if x.reqs[r].Yield {
			ctx.Next()
			x.script(r, 1, "o", ctx, rw, req)
		}
	})
	inner := func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
		x.script(x.me(), 2, "i", ctx, rw, req)
	}
	act := func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) (string, int) {
		return x.action(x.me(), ctx, rw, req)
	}
	sp.Routers(
		strip.Router("/f/:p/:n", strip.Filter(inner), strip.Get(act)),
		strip.Router("/c/:p/:n", strip.Filter(inner), strip.Get(x.ctl).Action("Show")),
		strip.Router("/g", strip.Filter(inner), strip.Router("/:p/:n", strip.Get(act)), strip.Router("/c/:p/:n", strip.Get(x.ctl).Action("Show"))),
	)
	return sp
}

var piece = regexp.MustCompile(`<[^<>]*>`)

func (x *runner) serve(sp *strip.Strip, r int) {
	x.mu.Lock()
	x.byGid[gid()] = r
	x.mu.Unlock()
	q := x.reqs[r]
	path := map[string]string{"f": "/f/", "c": "/c/", "g": "/g/", "gc": "/g/c/"}[q.Kind]
	req := httptest.NewRequest("GET", fmt.Sprintf("%s%s/%d?q=q%s", path, q.P, q.Num, q.Tok), nil)
	req.Header.Set("X-Tok", q.Tok)
	req.Header.Set("X-Reqid", "reqid-"+q.Tok+"-00000")
	if q.Gz {
		req.Header.Set("Accept-Encoding", "gzip")
	}
	rec := httptest.NewRecorder()
	msg := h.Catch(func() { sp.ServeHTTP(rec, req) })
	body, head := rec.Body.Bytes(), rec.Result().Header
	if head.Get("Content-Encoding") == "gzip" && len(body) > 0 {
		if zr, err := stdgzip.NewReader(bytes.NewReader(body)); err == nil {
			body, err = io.ReadAll(zr)
			if err != nil {
				body = append(body, "<broken>"...)
			}
		}
	}
	parts := []string{}
	for _, p := range piece.FindAllString(string(body), -1) {
		parts = append(parts, p)
	}
	if len(parts) == 0 && len(body) > 0 {
		parts = append(parts, string(body))
	}
	obs := h.M{"status": rec.Code, "hs": head.Get("X-S"), "by": head.Get("X-Powered-By"), "id": "", "body": parts}
	if x.opt.reqlog {
		obs["id"] = head.Get("X-Reqid")
	}
	if msg != "" {
		obs["body"] = []string{"panic " + msg}
	}
	x.ev("resp", r, "o", nil, obs)
}

type scen struct {
	Progs [2][]string `json:"progs"`
}

func main() {
	h.Main(h.Area{
		N: func(c *h.Ctx) int { return len(c.Scen) + c.Pick(700, 12000) },
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			x := &runner{t: t, byGid: map[string]int{}}
			r := t.R
			x.opt = options{rec: true, gz: r.Intn(3) == 0, reqlog: r.Intn(2) == 0}
			conns := [][]int{}
			if i < len(c.Scen) {
				t.Src = "spec"
				var s scen
				if err := json.Unmarshal(c.Scen[i], &s); err != nil {
					panic(err)
				}
				for k := range s.Progs {
					conns = append(conns, []int{len(x.reqs)})
					q := x.newReq(r)
					at := 0
					for j, o := range s.Progs[k] {
						at += r.Intn(4 - at)
						if at == 1 {
							q.Yield = true
						}
						if at != 3 && o == "write" {
							at = 3
						}
						q.Scripts[at] = append(q.Scripts[at], x.mk(r, q, o, at, j))
						if r.Intn(2) == 0 {
							q.Scripts[at] = append(q.Scripts[at], op{"nap", r.Intn(100)})
						}
					}
				}
			} else {
				t.Src = "random"
				for k, n := 0, 2+r.Intn(2); k < n; k++ {
					conn := []int{}
					for j, m := 0, 1+r.Intn(2); j < m; j++ {
						conn = append(conn, len(x.reqs))
						q := x.newReq(r)
						q.Yield = r.Intn(2) == 0
						num := 0
						for at := 0; at < 4; at++ {
							for z, zn := 0, r.Intn(4); z < zn; z++ {
								o := h.Pick(r, "see", "see", "fn", "nap", "ctx", "val", "hdr", "write", "ret", "code", "status", "panic")
								switch {
								case at != 3 && (o == "write" || o == "ret" || o == "code"),
									at == 1 && o == "status",
									(o == "panic" || o == "status") && r.Intn(3) != 0:
									o = "see"
								}
								num++
								q.Scripts[at] = append(q.Scripts[at], x.mk(r, q, o, at, num))
							}
						}
					}
					conns = append(conns, conn)
				}
			}
			x.run(conns, r)
		},
		Timeout: 30 * time.Second,
	})
}

func (x *runner) newReq(r *rand.Rand) *request {
	k := len(x.reqs)
	q := &request{Tok: fmt.Sprintf("r%d", k+1), Kind: h.Pick(r, "f", "c", "g", "gc"), P: fmt.Sprintf("p%d", k+1), Num: 10 + k, Gz: r.Intn(2) == 0}
	if r.Intn(4) == 0 {
		q.P = "same"
	}
	x.reqs = append(x.reqs, q)
	return q
}

func (x *runner) mk(r *rand.Rand, q *request, o string, at, num int) op {
	id := fmt.Sprintf("%s.%d.%d", q.Tok, at, num)
	switch o {
	case "nap":
		return op{o, r.Intn(200)}
	case "ctx", "val", "hdr":
		return op{o, id}
	case "write", "ret":
		return op{o, "<" + id + ">"}
	case "status":
		return op{o, h.Pick(r, 201, 403, 418)}
	case "code":
		return op{o, h.Pick(r, 202, 404)}
	}
	return op{o, nil}
}

func (x *runner) run(conns [][]int, r *rand.Rand) {
	cur = x
	t := x.t
	reqs := []h.M{}
	for _, q := range x.reqs {
		m := h.M{"tok": q.Tok, "q": "q" + q.Tok, "rid": "", "p": q.P, "num": q.Num, "info": fmt.Sprintf("p,n=%s,%d", q.P, q.Num)}
		if x.opt.reqlog {
			m["rid"] = "reqid-" + q.Tok + "-00000"
		}
		reqs = append(reqs, m)
	}
	t.Cfg = h.M{"reqs": reqs}
	for k := range x.reqs {
		x.serve(x.app(), k)
	}
	t.Ev("together", nil, nil)
	seed, den := r.Int63(), 1+r.Intn(3)
	bub.Run(func() {
		sp := x.app()
		vsched.Start(seed, den, 300)
		defer vsched.Stop()
		left := len(conns)
		for _, conn := range conns {
			go func() {
				for _, k := range conn {
					x.serve(sp, k)
				}
				x.mu.Lock()
				left--
				x.mu.Unlock()
			}()
		}
		for n := 0; ; n++ {
			bub.Settle(time.Millisecond)
			x.mu.Lock()
			l := left
			x.mu.Unlock()
			if l == 0 {
				break
			}
			if n > 2000 {
				t.Ev("stuck", nil, nil)
				return
			}
		}
		vsched.Stop()
		t.Ev("end", nil, nil)
		var v *Val
		sp.Injector().Find(&v, "")
		s := ""
		if v != nil {
			s = v.S
		}
		t.Ev("app", nil, h.M{"count": x.ctl.Count, "val": s, "mode": string(sp.Config.RunMode)})
	})
}
