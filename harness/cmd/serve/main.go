// Driver for C34: real applications run on loopback addresses.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"

	"verif/h"
)

type printer struct {
	mu   sync.Mutex
	recs []string
}

func (p *printer) Print(v ...interface{}) {
	p.mu.Lock()
	p.recs = append(p.recs, fmt.Sprint(v...))
	p.mu.Unlock()
}

func (p *printer) take() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	r := p.recs
	p.recs = nil
	return r
}

type app struct {
	sp         *strip.Strip
	out        *printer
	addr, port string
	mode       string
	ret        chan error
}

type reply struct {
	whole bool
}

type request struct {
	entered chan bool
	release chan bool
	done    chan reply
}

type runner struct {
	t     *h.Trace
	ports map[string]string
	apps  []*app
	mu    sync.Mutex
	reqs  []*request
	shut  []chan error
}

type settings struct{ any, addr, port, mode string }

func (s settings) m() h.M {
	return h.M{"any": s.any != "", "addr": s.addr, "port": s.port, "mode": s.mode}
}

// free finds ports which clients are not given and nobody uses
var next = 20000 + os.Getpid()*37%9000

// patience is what anything is waited for, in vain only where a trace is
// rejected: one such wait is enough
var lost int

func patience() time.Duration {
	if lost > 2 {
		return 500 * time.Millisecond
	}
	return 20 * time.Second
}

func unused(p string) bool {
	ls, err := net.Listen("tcp", ":"+p)
	if err == nil {
		ls.Close()
	}
	return err == nil
}

func free() string {
	for {
		next++
		if next > 31000 {
			next = 20000
		}
		p := fmt.Sprint(next)
		if unused(p) {
			return p
		}
	}
}

func (x *runner) app(own, imp, env settings) {
	for k, v := range map[string]string{"HTTP_ADDR": env.addr, "HTTP_PORT": env.port, "RUN_MODE": env.mode} {
		os.Unsetenv(k)
		if v != "" {
			os.Setenv(k, v)
			defer os.Unsetenv(k)
		}
	}
	a := &app{sp: strip.New(), out: &printer{}}
	for _, k := range []string{"HTTP_ADDR", "HTTP_PORT", "RUN_MODE"} {
		os.Unsetenv(k)
	}
	log := strip.NewLogger(a.out)
	log.SetColorMode(true)
	a.sp.SetLogger(log)
	if imp != (settings{}) {
		ini := ""
		for _, kv := range [][2]string{{"http_addr", imp.addr}, {"http_port", imp.port}, {"run_mode", imp.mode}} {
			if kv[1] != "" {
				ini += kv[0] + " = " + kv[1] + "\n"
			}
		}
		c, err := config.LoadIniFromReader(strings.NewReader(ini))
		if err != nil {
			panic(err)
		}
		a.sp.ImportConfig(c)
	}
	if own.addr != "" {
		a.sp.Config.HttpAddr = own.addr
	}
	if own.any != "" {
		a.sp.Config.HttpAddr = ""
	}
	if own.port != "" {
		a.sp.Config.HttpPort = own.port
	}
	if own.mode != "" {
		a.sp.Config.RunMode = strip.Mode(own.mode)
	}
	pick := func(s ...string) string {
		for _, v := range s {
			if v != "" {
				return v
			}
		}
		return ""
	}
	// where the harness expects it, only to find it
	a.addr = pick(own.addr, imp.addr, env.addr, "127.0.0.1")
	if own.any != "" {
		a.addr = ""
	}
	a.port, a.mode = pick(own.port, imp.port, env.port, "3000"), pick(own.mode, imp.mode, env.mode, "prod")
	x.apps = append(x.apps, a)
	n := len(x.apps)
	a.sp.Filter(strip.GenericOutFilter())
	who := fmt.Sprint("app ", n)
	if x.t.R.Intn(3) == 0 {
		// the server has a handler of its own before the application
		inner := a.sp.Server.Handler
		a.sp.Server.Handler = http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
			if req.URL.Path == "/who" {
				req.URL.Path = "/really"
			}
			inner.ServeHTTP(rw, req)
		})
		who = "past the server's handler"
	}
	a.sp.Routers(
		strip.Router("/who", strip.Get(func() string { return who })),
		strip.Router("/really", strip.Get(func() string { return fmt.Sprint("app ", n) })),
		strip.Router("/wait", strip.Get(func(rw http.ResponseWriter, req *http.Request) {
			var r int
			fmt.Sscan(req.URL.Query().Get("r"), &r)
			x.mu.Lock()
			q := x.reqs[r-1]
			x.mu.Unlock()
			rw.Write([]byte("begun "))
			rw.(http.Flusher).Flush()
			close(q.entered)
			<-q.release
			rw.Write([]byte("ended"))
		})),
	)
	x.t.Ev("app", h.M{"own": own.m(), "imp": imp.m(), "env": env.m()}, nil)
}

// move changes the settings of an application which does not run
func (x *runner) move(i int, addr, port string) {
	a := x.apps[i-1]
	a.addr, a.port = addr, port
	a.sp.Config.HttpAddr, a.sp.Config.HttpPort = addr, port
	x.t.Ev("move", h.M{"a": i, "addr": addr, "port": port}, nil)
}

func fetch(url string) (int, string, error) {
	tr := &http.Transport{DisableKeepAlives: true, Proxy: nil}
	defer tr.CloseIdleConnections()
	c := &http.Client{Transport: tr, Timeout: 30 * time.Second}
	rsp, err := c.Get(url)
	if err != nil {
		return 0, "", err
	}
	defer rsp.Body.Close()
	b, err := io.ReadAll(rsp.Body)
	return rsp.StatusCode, string(b), err
}

// who answers at an address: 0 when nobody listens, -1 when it is a stranger
func (x *runner) who(addr, port string) int {
	if addr == "" {
		addr = "127.0.0.1"
	}
	c, err := net.DialTimeout("tcp", addr+":"+port, 5*time.Second)
	if err != nil {
		return 0
	}
	c.Close()
	code, body, err := fetch("http://" + addr + ":" + port + "/who")
	n := 0
	if _, er := fmt.Sscanf(body, "app %d", &n); err != nil || er != nil || code != 200 {
		return -1
	}
	return n
}

func kind(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, http.ErrServerClosed):
		return "closed"
	case errors.Is(err, syscall.EADDRINUSE):
		return "busy"
	}
	return "bad"
}

func (x *runner) recs(a *app, err error) h.L {
	out := h.L{}
	for _, s := range a.out.take() {
		sev := "other"
		for _, v := range []string{"info", "emergency"} {
			if strings.Contains(s, "["+strings.ToUpper(v)+"]") {
				sev = v
			}
		}
		out = append(out, h.M{
			"sev":   sev,
			"at":    strings.Contains(s, a.addr+":"+a.port),
			"mode":  strings.Contains(s, a.mode),
			"plain": !strings.Contains(s, "\x1b"),
			"err":   err != nil && strings.Contains(s, err.Error()),
		})
	}
	return out
}

func (x *runner) run(i int) {
	a := x.apps[i-1]
	ret := make(chan error, 1)
	a.out.take()
	go func() {
		err := errors.New("panic")
		defer func() {
			recover()
			ret <- err
		}()
		err = a.sp.Run()
	}()
	for deadline := time.Now().Add(patience()); ; time.Sleep(time.Millisecond) {
		select {
		case err := <-ret:
			x.t.Ev("run", h.M{"a": i}, h.M{"ret": kind(err), "recs": x.recs(a, err)})
			return
		default:
		}
		if x.who(a.addr, a.port) == i {
			a.ret = ret
			x.t.Ev("run", h.M{"a": i}, h.M{"ret": "", "recs": x.recs(a, nil)})
			return
		}
		if time.Now().After(deadline) {
			x.t.Ev("run", h.M{"a": i}, h.M{"ret": "not found", "recs": h.L{}})
			a.ret = ret
			return
		}
	}
}

func (x *runner) get(addr, port string) {
	x.t.Ev("get", h.M{"addr": addr, "port": port}, h.M{"by": x.who(addr, port)})
}

func (x *runner) begin(i int) {
	a := x.apps[i-1]
	if a.ret == nil {
		return
	}
	q := &request{make(chan bool), make(chan bool), make(chan reply, 1)}
	x.mu.Lock()
	x.reqs = append(x.reqs, q)
	r := len(x.reqs)
	x.mu.Unlock()
	addr := a.addr
	if addr == "" {
		addr = "127.0.0.1"
	}
	go func() {
		code, body, err := fetch(fmt.Sprintf("http://%s:%s/wait?r=%d", addr, a.port, r))
		q.done <- reply{err == nil && code == 200 && body == "begun ended"}
	}()
	in := false
	select {
	case <-q.entered:
		in = true
	case <-q.done:
	case <-time.After(patience()):
	}
	x.t.Ev("begin", h.M{"a": i, "r": r}, h.M{"entered": in})
}

func (x *runner) finish(r int) {
	if r > len(x.reqs) {
		return
	}
	q := x.reqs[r-1]
	close(q.release)
	whole := false
	select {
	case rp := <-q.done:
		whole = rp.whole
	case <-time.After(patience()):
	}
	x.t.Ev("finish", h.M{"r": r}, h.M{"whole": whole})
}

func (x *runner) stop(op string, i int) {
	a := x.apps[i-1]
	done := make(chan error, 1)
	x.shut = append(x.shut, done)
	a.out.take()
	if op == "close" {
		done <- a.sp.Server.Close()
	} else {
		// it lasts as long as the requests in progress do
		go func() { done <- a.sp.Server.Shutdown(context.Background()) }()
		if a.ret == nil {
			select {
			case err := <-done:
				done <- err
			case <-time.After(300 * time.Millisecond):
			}
		}
	}
	ret, recs := "none", h.L{}
	if a.ret != nil {
		select {
		case err := <-a.ret:
			ret, recs = kind(err), x.recs(a, err)
		case <-time.After(patience()):
			ret = "never"
		}
		a.ret = nil
	}
	x.t.Ev(op, h.M{"a": i}, h.M{"ret": ret, "recs": recs})
}

// bad tells whether going on makes no sense: the trace is rejected already
func (x *runner) lost() bool {
	n := len(x.t.Evs)
	if n == 0 {
		return false
	}
	o := x.t.Evs[n-1]["obs"].(h.M)
	gone := o["ret"] == "not found" || o["ret"] == "never" || o["entered"] == false
	if gone {
		lost++
	}
	return gone
}

func (x *runner) all() {
	for _, a := range []string{"127.0.0.1", "127.0.0.2"} {
		for _, p := range []string{"p", "q"} {
			x.get(a, x.ports[p])
		}
	}
}

func (x *runner) end() {
	for i, a := range x.apps {
		if a.ret != nil {
			x.stop([]string{"shutdown", "close"}[x.t.R.Intn(2)], i+1)
		}
	}
	for r, q := range x.reqs {
		select {
		case <-q.release:
		default:
			x.finish(r + 1)
		}
	}
	for _, d := range x.shut {
		select {
		case <-d:
		case <-time.After(patience()):
		}
	}
}

func main() {
	h.Main(h.Area{
		N: func(c *h.Ctx) int { return len(c.Scen) + c.Pick(150, 2500) },
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			x := &runner{t: t, ports: map[string]string{"p": free(), "q": free()}}
			defer x.end()
			r := t.R
			if i < len(c.Scen) {
				t.Src = "spec"
				var steps []struct {
					Op, Addr, Port string
					I              int
				}
				if err := json.Unmarshal(c.Scen[i], &steps); err != nil {
					panic(err)
				}
				for n, s := range steps {
					switch s.Op {
					case "app":
						own := settings{addr: s.Addr, port: x.ports[s.Port]}
						if s.Addr == "" {
							own.any = "y"
						}
						x.app(own, settings{}, settings{})
					case "move":
						x.move(s.I, s.Addr, x.ports[s.Port])
					case "run":
						x.run(s.I)
					case "begin":
						x.begin(s.I)
					case "finish":
						x.finish(s.I)
					default:
						x.stop(s.Op, s.I)
					}
					if x.lost() {
						return
					}
					if n == len(steps)-1 || s.Op != "app" && r.Intn(4) == 0 {
						x.all()
					}
				}
				return
			}
			t.Src = "random"
			open := map[int]bool{}
			for n := 6 + r.Intn(10); n > 0 && !x.lost(); n-- {
				k := len(x.apps)
				if k > 0 {
					k = 1 + r.Intn(k)
				}
				switch o := r.Intn(10); {
				case k == 0 || o == 0 && len(x.apps) < 4:
					var s [3]settings
					def := r.Intn(5) == 0 && unused("3000")
					if !def {
						s[r.Intn(3)].port = x.ports[h.Pick(r, "p", "p", "q")]
					}
					for j := range s {
						if r.Intn(3) == 0 {
							s[j].addr = h.Pick(r, "127.0.0.1", "127.0.0.2")
						}
						if r.Intn(3) == 0 && !def {
							s[j].port = x.ports[h.Pick(r, "p", "q")]
						}
						if r.Intn(12) == 0 {
							s[j].port = h.Pick(r, "99999", "x")
						}
						if r.Intn(3) == 0 {
							s[j].mode = h.Pick(r, "dev", "test", "prod", "stage")
						}
					}
					if r.Intn(10) == 0 {
						s[0].any, s[0].addr = "y", ""
					}
					x.app(s[0], s[1], s[2])
					if r.Intn(2) == 0 {
						x.run(len(x.apps))
					}
				case o < 4:
					if x.apps[k-1].ret == nil {
						if r.Intn(3) == 0 {
							x.move(k, h.Pick(r, "127.0.0.1", "127.0.0.2", ""), x.ports[h.Pick(r, "p", "q")])
						}
						x.run(k)
					}
				case o < 6:
					if x.apps[k-1].ret != nil {
						x.begin(k)
						open[len(x.reqs)] = true
					}
				case o < 7:
					if len(open) > 0 {
						q := 1
						for !open[q] {
							q++
						}
						delete(open, q)
						x.finish(q)
					}
				case o < 8:
					x.stop(h.Pick(r, "shutdown", "shutdown", "close"), k)
				default:
					x.all()
				}
			}
			if !x.lost() {
				x.all()
			}
		},
	})
}
