// Driver for C26: concurrent requests through the request-log filter under
// explored schedules.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/wujiu2020/strip"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils"

	"verif/bub"
	"verif/h"
	"verif/vsched"
)

type op struct {
	Op  string
	N   int
	S   string
	Via string
}

type request struct {
	Tok, Cid string
	M, Q     string
	Real     string   // the address a proxy gives
	Fwd      []string // the hosts a message came through
	Peer     string
	In       [2][]op // the handler's script, a later filter's script before it
}

type runner struct {
	t                         *h.Trace
	reqs                      []*request
	idf, begf, endf, rec      string
	pre, color, line, flat, z bool
	mu                        sync.Mutex
	byGid                     map[string]int
	since                     int64
}

func gid() string {
	var b [64]byte
	return strings.Fields(string(b[:runtime.Stack(b[:], false)]))[1]
}

func (x *runner) me() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.byGid[gid()]
}

func (x *runner) ev(o string, r int, in, obs h.M) {
	if in == nil {
		in = h.M{}
	}
	in["r"] = r + 1
	x.mu.Lock()
	defer x.mu.Unlock()
	x.t.Ev(o, in, obs)
}

var (
	colors = regexp.MustCompile("\x1b\\[[0-9;]*m")
	record = regexp.MustCompile(`(?s)^\[([A-Z]+)\]\[([^\]]*)\](\[P-[^\]]*\])?(\["[^"]*:\d+"\])? (.*)$`)
	begRe  = regexp.MustCompile(`^\[REQ_BEG\] (\S+ \S+) (\S*)( \+tag)?$`)
	endRe  = regexp.MustCompile(`^\[REQ_END\] (\d+) (\d+)\.(\d\d\d)k (\S+)( \+tag)?$`)
)

// Print receives the records
func (x *runner) Print(v ...interface{}) {
	s := colors.ReplaceAllString(fmt.Sprint(v...), "")
	o := h.M{"id": "", "lvl": "", "prefix": "", "kind": "msg", "msg": s, "what": "", "addr": "", "tag": false, "status": 0, "mkb": 0}
	if m := record.FindStringSubmatch(s); m != nil {
		o["lvl"], o["id"], o["prefix"] = m[1], m[2], m[3]
		msg := strings.TrimSuffix(m[5], "\n")
		for _, nl := range []string{"\n", `\n`} { // a stack may follow
			if i := strings.Index(msg, nl); i >= 0 {
				msg = msg[:i]
			}
		}
		if b := begRe.FindStringSubmatch(msg); b != nil {
			o["kind"], o["what"], o["addr"], o["tag"] = "beg", b[1], strings.Trim(b[2], "[]"), b[3] != ""
			msg = ""
		} else if b := endRe.FindStringSubmatch(msg); b != nil {
			st, _ := strconv.Atoi(b[1])
			k1, _ := strconv.Atoi(b[2])
			k2, _ := strconv.Atoi(b[3])
			o["kind"], o["status"], o["mkb"], o["tag"] = "end", st, k1*1000+k2, b[5] != ""
			msg = ""
		} else if strings.HasPrefix(msg, "PANIC: ") {
			msg = "PANIC"
		}
		o["msg"] = msg
	}
	x.ev("rec", x.me(), nil, o)
}

func idOf(l strip.Logger) string {
	if r, ok := l.(strip.ReqLogger); ok {
		return r.ReqId()
	}
	return "not a request logger"
}

func (x *runner) script(r int, ops []op, ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	for _, o := range ops {
		var inj strip.Logger
		ctx.Find(&inj, "")
		var rl strip.ReqLogger
		ctx.Find(&rl, "")
		var cx, cx2 strip.Logger
		utils.CtxFindValue(req.Context(), &cx)
		utils.CtxFindValue(ctx, &cx2)
		switch o.Op {
		case "nap":
			time.Sleep(time.Duration(o.N) * time.Microsecond)
		case "see":
			a, b := idOf(inj), idOf(cx)
			if rl == nil || rl.ReqId() != a {
				a = "injected loggers differ"
			}
			if idOf(cx2) != b {
				b = "context loggers differ"
			}
			rq := req.Header.Get("X-Reqid")
			if n := len(req.Header["X-Reqid"]); n != 1 {
				rq = fmt.Sprint(n, " ids in the request")
			}
			_, at := reqlogger.DecodeReqId(rq)
			x.ev("see", r, nil, h.M{"rq": rq, "lg": a, "cx": b, "dated": at >= x.since && at <= time.Now().UnixNano()})
		case "log":
			l := map[string]strip.Logger{"inj": inj, "cx": cx, "cx2": cx2, "rl": rl}[o.Via]
			lvl := []string{"INFO", "WARN", "DEBUG", "ERROR"}[o.N]
			x.ev("log", r, h.M{"lvl": lvl, "msg": o.S}, nil)
			switch lvl {
			case "INFO":
				l.Info(o.S)
			case "WARN":
				l.Warnf("%s", o.S)
			case "DEBUG":
				l.Debug(o.S)
			case "ERROR":
				l.Errorf("%s\n", o.S)
			}
		case "tamper":
			switch o.N {
			case 0:
				rw.Header().Set("X-Reqid", "tampered-"+o.S)
			case 1:
				rw.Header().Del("X-Reqid")
			case 2:
				rw.Header().Add("X-Reqid", "added-"+o.S)
			case 3:
				for k := range rw.Header() {
					delete(rw.Header(), k)
				}
			case 4:
				rw.Header()["X-Reqid"] = []string{"a-" + o.S, "b-" + o.S}
			}
		case "write":
			x.ev("write", r, h.M{"n": o.N}, nil)
			rw.Write([]byte(strings.Repeat("x", o.N)))
		case "flush":
			x.ev("write", r, h.M{"n": 0}, nil)
			rw.(http.Flusher).Flush()
		case "status":
			x.ev("status", r, h.M{"n": o.N}, nil)
			rw.WriteHeader(o.N)
		case "panic":
			x.ev("panic", r, nil, nil)
			panic("scripted")
		}
	}
}

func (x *runner) app() *strip.Strip {
	sp := strip.New()
	sp.SetLogger(strip.NewLogger(log.New(io.Discard, "", 0)))
	sp.Config.RunMode = "prod"
	opt := reqlogger.LoggerOption{ColorMode: x.color, LineInfo: x.line, FlatLine: x.flat}
	if x.z {
		opt.LogStackLevel = strip.LevelError
	}
	switch x.idf {
	case "sfx":
		opt.ReqidFilter = func(_ strip.Context, _ http.ResponseWriter, _ *http.Request, s string) string { return s + "-z" }
	case "fix":
		opt.ReqidFilter = func(_ strip.Context, _ http.ResponseWriter, _ *http.Request, s string) string { return "fixed-id" }
	}
	if x.pre {
		opt.PrefixFilter = func(_ strip.Context, _ http.ResponseWriter, req *http.Request, _ string) string {
			return "[P-" + req.Header.Get("X-Tok") + "]"
		}
	}
	cf := func(k string) reqlogger.LoggerContentFilter {
		switch k {
		case "tag":
			return func(_ strip.Context, _ http.ResponseWriter, _ *http.Request, s string) string { return s + " +tag" }
		case "drop":
			return func(_ strip.Context, _ http.ResponseWriter, _ *http.Request, s string) string { return "" }
		}
		return nil
	}
	opt.ReqBegFilter, opt.ReqEndFilter = cf(x.begf), cf(x.endf)
	if x.rec == "out" {
		sp.Filter(strip.RecoveryFilter())
	}
	sp.Filter(reqlogger.ReqLoggerFilter(x, opt))
	if x.rec == "in" {
		sp.Filter(strip.RecoveryFilter())
	}
	sp.Filter(func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
		r := x.me()
		x.script(r, x.reqs[r].In[0], ctx, rw, req)
	})
	sp.Routers(strip.Router("/x/:p", strip.All(func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
		r := x.me()
		x.script(r, x.reqs[r].In[1], ctx, rw, req)
	})))
	return sp
}

func (x *runner) serve(sp *strip.Strip, r int) {
	x.mu.Lock()
	x.byGid[gid()] = r
	x.mu.Unlock()
	q := x.reqs[r]
	req := httptest.NewRequest(q.M, "http://example.com/x/"+q.Tok+q.Q, nil)
	req.Header.Set("X-Tok", q.Tok)
	if q.Real != "" {
		req.Header.Set("X-Real-Ip", q.Real)
	}
	if len(q.Fwd) > 0 {
		var fs []string
		n := len(q.Tok) + len(q.Cid)
		for i, f := range q.Fwd { // with and without ports
			switch v6 := strings.Contains(f, ":"); {
			case (i+n)%3 == 0 && f != "":
				f = net.JoinHostPort(f, "4711")
			case v6 && (i+n)%2 == 1:
				f = "[" + f + "]"
			}
			fs = append(fs, f)
		}
		req.Header.Set("X-Forwarded-For", strings.Join(fs, []string{", ", ",", " , "}[n%3]))
	}
	req.RemoteAddr = net.JoinHostPort(q.Peer, "1234")
	if q.Cid != "" {
		req.Header.Set("X-Reqid", q.Cid)
	}
	rec := httptest.NewRecorder()
	msg := h.Catch(func() { sp.ServeHTTP(rec, req) })
	ids := []string{}
	ids = append(ids, rec.Result().Header["X-Reqid"]...)
	x.ev("resp", r, nil, h.M{"ids": ids, "status": rec.Code, "escaped": msg != ""})
}

type scen struct {
	Rec   string      `json:"rec"`
	Progs [2][]string `json:"progs"`
}

const alphabet = "abcdefghijklmnopqrstuvwxyz0123456789-_.=+/ABC"

func (x *runner) newReq(r *rand.Rand) *request {
	q := &request{Tok: fmt.Sprintf("r%d", len(x.reqs)+1), M: h.Pick(r, "GET", "GET", "POST", "HEAD", "DELETE"),
		Q:    h.Pick(r, "", "", "?a=1&b=%2Fd%41", "?", "?%s%d=%25", "?x=[y]"),
		Peer: h.Pick(r, "192.0.2.1", "10.0.0.7", "2001:db8::7")}
	hosts := []string{"198.51.100.9", "2001:db8::9", "fe80::1", "10.1.1.1"}
	switch r.Intn(6) {
	case 0:
		q.Real = hosts[r.Intn(len(hosts))]
	case 1, 2:
		for i := 1 + r.Intn(3); i > 0; i-- {
			q.Fwd = append(q.Fwd, hosts[r.Intn(len(hosts))])
		}
		if r.Intn(4) == 0 {
			q.Real = hosts[r.Intn(len(hosts))]
		}
	case 3:
		if r.Intn(2) == 0 {
			q.Fwd = []string{""}
		}
	}
	switch r.Intn(4) {
	case 0: // none
	case 1:
		q.Cid = "good-id-of-" + q.Tok
	default:
		n := h.Pick(r, 1, 5, 9, 10, 11, 20, 31, 32, 33, 40, r.Intn(36))
		for len(q.Cid) < n {
			q.Cid += string(alphabet[r.Intn(len(alphabet))])
		}
		if n > 4 && r.Intn(5) == 0 { // length is counted in bytes
			q.Cid = "é" + q.Cid[2:]
		}
	}
	x.reqs = append(x.reqs, q)
	return q
}

func mk(r *rand.Rand, o string, k int) op {
	p := op{Op: o, S: fmt.Sprintf("m%d", k)}
	switch o {
	case "nap":
		p.N = r.Intn(100)
	case "log":
		p.N, p.Via = r.Intn(4), h.Pick(r, "inj", "cx", "cx2", "rl")
	case "tamper":
		p.N = r.Intn(5)
	case "write":
		p.N = h.Pick(r, 0, 1, 12, 512, 1000, 1024, 1500, 3333)
	case "status":
		p.N = h.Pick(r, 200, 201, 403, 404, 500)
	}
	return p
}

func main() {
	h.Main(h.Area{
		N: func(c *h.Ctx) int { return len(c.Scen) + c.Pick(800, 15000) },
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			r := t.R
			x := &runner{t: t, byGid: map[string]int{}, color: r.Intn(3) == 0, line: r.Intn(3) == 0, flat: r.Intn(2) == 0, z: r.Intn(4) == 0}
			x.rec = h.Pick(r, "out", "in", "")
			if i < len(c.Scen) {
				t.Src = "spec"
				var s scen
				if err := json.Unmarshal(c.Scen[i], &s); err != nil {
					panic(err)
				}
				x.rec = s.Rec
				for k := range s.Progs {
					q := x.newReq(r)
					for j, o := range s.Progs[k] {
						q.In[1] = append(q.In[1], mk(r, o, j))
					}
				}
			} else {
				t.Src = "random"
				x.idf, x.pre = h.Pick(r, "", "", "sfx", "fix"), r.Intn(2) == 0
				x.begf, x.endf = h.Pick(r, "", "", "tag", "drop"), h.Pick(r, "", "", "tag", "drop")
				for k, n := 0, 1+r.Intn(3); k < n; k++ {
					q := x.newReq(r)
					for at := 0; at < 2; at++ {
						for j, m := 0, r.Intn(5); j < m; j++ {
							o := h.Pick(r, "see", "log", "tamper", "write", "flush", "status", "panic", "nap")
							if at == 0 && o != "see" && o != "log" && o != "tamper" && o != "nap" {
								o = "see"
							}
							q.In[at] = append(q.In[at], mk(r, o, at*10+j))
						}
					}
					// statuses without a body
					writes := false
					for _, o := range q.In[1] {
						writes = writes || o.Op == "write"
					}
					for j := range q.In[1] {
						if o := &q.In[1][j]; o.Op == "status" && !writes && r.Intn(3) == 0 {
							o.N = h.Pick(r, 204, 304)
						}
					}
				}
			}
			x.run(r)
		},
		Timeout: 30 * time.Second,
	})
}

func (x *runner) run(r *rand.Rand) {
	t := x.t
	reqs := []h.M{}
	for _, q := range x.reqs {
		reqs = append(reqs, h.M{"tok": q.Tok, "cid": q.Cid, "cidn": len(q.Cid), "what": q.M + " example.comhttp://example.com/x/" + q.Tok + q.Q,
			"real": q.Real, "fwd": append([]string{}, q.Fwd...), "peer": q.Peer})
	}
	t.Cfg = h.M{"reqs": reqs, "o": h.M{"idf": x.idf, "pre": x.pre, "begf": x.begf, "endf": x.endf, "rec": x.rec}}
	seed, den := r.Int63(), 1+r.Intn(3)
	bub.Run(func() {
		sp := x.app()
		x.since = time.Now().UnixNano()
		if r.Intn(8) == 0 {
			// several at the same instant
			news, n := map[string]bool{}, 1+r.Intn(700)
			for i := 0; i < n; i++ {
				news[reqlogger.NewReqId()] = true
			}
			t.Ev("new", h.M{"n": n}, h.M{"distinct": len(news)})
		}
		vsched.Start(seed, den, 300)
		defer vsched.Stop()
		left := len(x.reqs)
		for k := range x.reqs {
			go func() {
				x.serve(sp, k)
				x.mu.Lock()
				left--
				x.mu.Unlock()
			}()
		}
		for n := 0; ; n++ {
			bub.Settle(time.Millisecond)
			x.mu.Lock()
			l := left
			x.mu.Unlock()
			if l == 0 {
				return
			}
			if n > 2000 {
				t.Ev("stuck", nil, nil)
				return
			}
		}
	})
}
