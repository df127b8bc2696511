// Driver for C33: applications put together by the classic helpers. What the
// process writes to its standard error during a request is its records.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"log"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"regexp"
	"strings"
	"syscall"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils/helpers"

	"verif/cmd/classic/src/site"
	"verif/h"
)

type hand struct {
	K   string `json:"k"`
	N   int    `json:"n"`
	Sev int    `json:"sev"`
	Via string `json:"via"`
	Two bool   `json:"two"`
}

type opts struct {
	Own   bool `json:"own"`
	Color bool `json:"color"`
	Line  bool `json:"line"`
	Short bool `json:"short"`
	Flat  bool `json:"flat"`
	Stack int  `json:"stack"`
}

type scen struct {
	Mode  string `json:"mode"`
	Glob  bool   `json:"glob"`
	Opt   opts   `json:"opt"`
	Hook  []hand `json:"hook"`
	Later []hand `json:"later"`
	Act   hand   `json:"act"`
}

type runner struct {
	scen
	r     *rand.Rand
	sp    *strip.Strip
	marks []string
}

var host, _ = os.Hostname()

func body(n int) string { return fmt.Sprintf("body%d", n) }
func boom(n int) string { return fmt.Sprintf("boom%d", n) }

// errors to the file instead of the standard error
var file = func() *os.File {
	f, err := os.CreateTemp("", "classic")
	if err != nil {
		panic(err)
	}
	name := f.Name()
	f.Close()
	if f, err = os.OpenFile(name, os.O_RDWR|os.O_APPEND, 0); err != nil {
		panic(err)
	}
	os.Remove(name)
	return f
}()

func capture(f func()) string {
	if err := file.Truncate(0); err != nil {
		panic(err)
	}
	was, err := syscall.Dup(2)
	if err != nil {
		panic(err)
	}
	syscall.Dup3(int(file.Fd()), 2, 0)
	defer syscall.Close(was)
	func() {
		defer syscall.Dup3(was, 2, 0)
		f()
	}()
	st, _ := file.Stat()
	b := make([]byte, st.Size())
	file.ReadAt(b, 0)
	return string(b)
}

var (
	date   = regexp.MustCompile(`(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d\.\d{6} `)
	colors = regexp.MustCompile("\x1b\\[[0-9;]*m")
	record = regexp.MustCompile(`(?s)^\[([A-Z]+)\](?:\[([^\]"]*)\])?(\["[^"]*:\d+"\])? (.*)$`)
	beg    = regexp.MustCompile(`^\[REQ_BEG\] \S+ \S+ \S+$`)
	end    = regexp.MustCompile(`^\[REQ_END\] (\d+) \d+\.\d\d\dk \S+ms$`)
	boomed = regexp.MustCompile(`^PANIC: "(.*)"$`)
	page   = regexp.MustCompile(`(?s)^<html>.*<h1>PANIC: (.*?)</h1>.*</html>$`)
)

func records(s, rid string) h.L {
	out := h.L{}
	at := date.FindAllStringIndex(s, -1)
	if len(at) == 0 && s != "" || len(at) > 0 && at[0][0] != 0 {
		out = append(out, h.M{"kind": "undated", "msg": s})
	}
	for i, a := range at {
		e := len(s)
		if i+1 < len(at) {
			e = at[i+1][0]
		}
		x := strings.TrimRight(s[a[1]:e], "\n")
		plain := colors.ReplaceAllString(x, "")
		o := h.M{"lvl": "", "id": "", "color": plain != x, "kind": "msg", "msg": plain, "status": 0, "loc": "none",
			"traced": strings.Contains(x, "cmd/classic/main.go:"), "many": strings.Contains(x, "\n")}
		out = append(out, o)
		m := record.FindStringSubmatch(plain)
		if m == nil {
			continue
		}
		o["lvl"], o["id"] = m[1], m[2]
		if m[2] == rid && rid != "" {
			o["id"] = "RQ"
		} else if m[2] == host {
			o["id"] = "host"
		}
		msg := m[4]
		for _, nl := range []string{"\n", `\n`} {
			if i := strings.Index(msg, nl); i >= 0 {
				msg = msg[:i]
			}
		}
		if strings.HasPrefix(msg, "PANIC: ") && strings.Contains(msg, "missing") {
			msg = `PANIC: "gap"` // comes from no handler
			o["traced"] = strings.Contains(m[4], ".go:")
		}
		if p := boomed.FindStringSubmatch(msg); p != nil {
			o["kind"], msg = "panic", p[1]
		} else if beg.MatchString(msg) {
			o["kind"], msg = "beg", ""
		} else if p := end.FindStringSubmatch(msg); p != nil {
			n := 0
			fmt.Sscan(p[1], &n)
			o["kind"], o["status"], msg = "end", n, ""
		}
		o["msg"] = msg
		switch l := m[3]; {
		case l == "":
		case o["kind"] == "panic":
			o["loc"] = "some"
		case strings.HasPrefix(l, `["site/site.go:`):
			o["loc"] = "short"
		case strings.HasPrefix(l, `["/`) && strings.Contains(l, "/src/site/site.go:"):
			o["loc"] = "full"
		default:
			o["loc"] = l
		}
	}
	return out
}

// do plays a handler; it tells whether it is to run the rest itself.
func (x *runner) do(a hand, ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	switch a.K {
	case "log":
		var l strip.Logger
		switch a.Via {
		case "Logger":
			ctx.Find(&l, "")
		case "ReqLogger":
			var rl strip.ReqLogger
			ctx.Find(&rl, "")
			l = rl
		default:
			var c context.Context = ctx
			if x.r.Intn(2) == 0 {
				c = req.Context()
			}
			if x.r.Intn(3) == 0 { // one derived from it, perhaps over already
				d, end := context.WithCancel(c)
				c = d
				if x.r.Intn(2) == 0 {
					end()
				} else {
					defer end()
				}
			}
			l = helpers.GetLogger(c)
		}
		msg := fmt.Sprintf("m%d", a.N)
		if a.Two {
			msg += "\nand more"
		}
		site.Log(l, a.Sev, msg)
	case "with":
		own := strip.NewReqLogger(log.New(os.Stderr, "", log.LstdFlags|log.Lmicroseconds), "own")
		own.SetLineInfo(true)
		own.SetShortLine(true)
		req = req.WithContext(helpers.WithLogger(req.Context(), own))
		ctx.Provide(req)
		ctx.ReplaceContext(req.Context())
	case "mark":
		x.marks = append(x.marks, fmt.Sprintf("i%d", a.N))
		ctx.Next()
		x.marks = append(x.marks, fmt.Sprintf("o%d", a.N))
	case "late":
		x.marks = append(x.marks, fmt.Sprintf("i%d", a.N))
		ctx.Next()
		panic(boom(a.N))
	case "resp":
		rw.Write([]byte(body(a.N)))
	case "status":
		rw.WriteHeader(403)
	case "half":
		rw.Write([]byte(body(a.N)))
		panic(boom(a.N))
	case "panic":
		panic(boom(a.N))
	}
}

func (x *runner) filter(a hand) interface{} {
	if a.K == "gap" {
		return func(_ strip.Context, m missing) { x.marks = append(x.marks, "ran without what it needs") }
	}
	return func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) { x.do(a, ctx, rw, req) }
}

type missing interface{ Missing() }

func (x *runner) app() {
	x.sp = strip.New()
	x.sp.Config.RunMode = strip.Mode(x.Mode)
	helpers.X.SetFlatLine(true)
	helpers.X.SetColorMode(false)
	helpers.X.SetShortLine(true)
	if x.Glob {
		helpers.UseGlobalLogger(x.sp)
	}
	var os []interface{}
	fs := x.Hook
	for n := x.r.Intn(6); n >= 0; n-- {
		part := fs
		if n > 0 {
			part = fs[:x.r.Intn(len(fs)+1)]
		}
		fs = fs[len(part):]
		os = append(os, helpers.HookFunc(func(sp *strip.Strip, f helpers.HookFlag) {
			if f == helpers.HookFlagBeforeAll {
				for _, a := range part {
					sp.Filter(x.filter(a))
				}
			}
		}))
		if len(x.Hook) == 0 && x.r.Intn(2) == 0 {
			os = nil
		}
	}
	if o := x.Opt; o.Own {
		l := reqlogger.LoggerOption{ColorMode: o.Color, LineInfo: o.Line, ShortLine: o.Short, FlatLine: o.Flat, LogStackLevel: strip.Level(o.Stack)}
		i := x.r.Intn(len(os) + 1)
		os = append(os[:i:i], append([]interface{}{l}, os[i:]...)...)
	}
	helpers.LoadClassicFilters(x.sp, os...)
	helpers.LoadClassicProviders(x.sp)
	for _, a := range x.Later {
		x.sp.Filter(x.filter(a))
	}
	act := func(req *http.Request) (a hand) {
		json.Unmarshal([]byte(req.Header.Get("X-Act")), &a)
		return
	}
	x.sp.Routers(
		strip.Router("/plain/text", strip.Get(func(req *http.Request) string { return body(act(req).N) })),
		strip.Router("/plain/pair", strip.Get(func(req *http.Request) (string, int) { return body(act(req).N), 201 })),
		strip.Router("/plain/code", strip.Get(func() int { return 418 })),
		strip.Router("/param/text", strip.Get(func(p *params.Params) (s string) { p.Bind(&s, "q"); return })),
		strip.Router("/param/pair", strip.Get(func(p *params.Params) (s string, n int) { p.Bind(&s, "q"); p.Bind(&n, "s"); return })),
		strip.Router("/gap", strip.Get(func(m missing) string { return "ran without what it needs" })),
		strip.Router("/do", strip.Get(func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
			x.do(act(req), ctx, rw, req)
		})),
	)
}

func (x *runner) ask(t *h.Trace, a hand, cid string) {
	path := "/do"
	switch a.K {
	case "text", "pair":
		path = h.Pick(x.r, "/plain/", "/param/") + a.K + "?s=201&q=" + body(a.N)
	case "code":
		path = "/plain/code"
	case "gap":
		path = "/gap"
	case "missing":
		path = "/missing"
	}
	req := httptest.NewRequest("GET", "http://example.com"+path, nil)
	js, _ := json.Marshal(a)
	req.Header.Set("X-Act", string(js))
	if cid != "" {
		req.Header.Set("X-Reqid", cid)
	}
	rec := httptest.NewRecorder()
	x.marks = []string{}
	esc := ""
	text := capture(func() { esc = h.Catch(func() { x.sp.ServeHTTP(rec, req) }) })
	hd := rec.Result().Header
	rid := strings.Join(hd["X-Reqid"], ",")
	b := rec.Body.String()
	if m := page.FindStringSubmatch(b); m != nil {
		b = "PANIC " + m[1]
		if strings.Contains(b, "missing") {
			b = "PANIC gap"
		}
	}
	t.Ev("req", h.M{"act": a, "cid": cid, "cidn": len(cid)}, h.M{"recs": records(text, rid), "marks": x.marks, "status": rec.Code,
		"body": b, "rid": rid, "timed": len(hd["X-Response-Time"]) == 1, "escaped": esc})
}

func (x *runner) cid() string {
	n := h.Pick(x.r, 0, 0, 9, 10, 16, 20, 32, 33)
	s := ""
	for len(s) < n {
		s += string(rune('a' + x.r.Intn(26)))
	}
	return s
}

func (x *runner) hand(k string, n int) hand {
	a := hand{K: k, N: n, Sev: h.Pick(x.r, 3, 4, 5, 7, 8), Via: h.Pick(x.r, "Logger", "ReqLogger", "ctx"), Two: x.r.Intn(4) == 0}
	return a
}

func main() {
	h.Main(h.Area{
		N: func(c *h.Ctx) int { return len(c.Scen) + c.Pick(800, 30000) },
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			r := t.R
			x := &runner{r: r}
			var acts []hand
			if i < len(c.Scen) {
				t.Src = "spec"
				if err := json.Unmarshal(c.Scen[i], &x.scen); err != nil {
					panic(err)
				}
				acts = []hand{x.Act, x.Act}
			} else {
				t.Src = "random"
				x.Mode, x.Glob = h.Pick(r, "dev", "test", "prod"), r.Intn(2) == 0
				if r.Intn(2) == 0 {
					b := func() bool { return r.Intn(2) == 0 }
					x.Opt = opts{true, b(), b(), b(), b(), h.Pick(r, 0, 3, 4, 7)}
				}
				fs := func(n0 int, kinds ...string) (l []hand) {
					for j, n := 0, r.Intn(4); j < n; j++ {
						a := x.hand(h.Pick(r, kinds...), n0+j)
						if n0 < 10 && a.Via == "ReqLogger" && !x.Glob { // there is none yet
							a.Via = "Logger"
						}
						l = append(l, a)
					}
					return
				}
				x.Hook = fs(1, "pass", "mark", "log", "log", "with", "mark", "late", h.Pick(r, "pass", "resp", "status", "panic", "half", "gap"))
				x.Later = fs(11, "pass", "mark", "log", "log", "with", "mark", "late", h.Pick(r, "pass", "resp", "status", "panic", "half", "gap"))
				for j, n := 0, 1+r.Intn(4); j < n; j++ {
					acts = append(acts, x.hand(h.Pick(r, "text", "pair", "code", "none", "log", "panic", "half", "missing", "resp", "status", "gap"), 21+j))
				}
			}
			if x.Hook == nil {
				x.Hook = []hand{}
			}
			if x.Later == nil {
				x.Later = []hand{}
			}
			t.Cfg = h.M{"mode": x.Mode, "glob": x.Glob, "opt": x.Opt, "hook": x.Hook, "later": x.Later}
			x.app()
			for _, a := range acts {
				x.ask(t, a, x.cid())
			}
		},
	})
}
