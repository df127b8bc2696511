// Driver for C05, C07, C08, C09 and C25: serves scripted requests on the real
// application and records every handler entry, yield, resumption, return,
// panic and response operation, every before-write hook, and what the client
// received.
package main

import (
	"bufio"
	"bytes"
	stdgzip "compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/gzip"
	"github.com/wujiu2020/strip/inject"

	"verif/h"
)

// ------------------------------------------------------------ client side

// spy is the connection side: it behaves like net/http's response writer.
type spy struct {
	hdr    http.Header
	heads  int
	status int
	sent   http.Header
	body   bytes.Buffer
	gone   int  // bytes that have left for the client
	room   int  // bytes the connection still takes
	taken  bool // a handler has taken the connection over
}

func (s *spy) Header() http.Header { return s.hdr }
func (s *spy) WriteHeader(c int) {
	if s.taken { // the connection is somebody else's
		s.heads++
		return
	}
	if s.heads > 0 {
		return
	}
	s.heads++
	s.status = c
	s.sent = s.hdr.Clone()
}
func (s *spy) Write(b []byte) (int, error) {
	if s.taken {
		return 0, http.ErrHijacked
	}
	s.WriteHeader(200)
	if len(b) > s.room { // the client is gone
		n, _ := s.body.Write(b[:s.room])
		s.room = 0
		return n, io.ErrShortWrite
	}
	s.room -= len(b)
	return s.body.Write(b)
}
func (s *spy) Flush() {
	if !s.taken {
		s.WriteHeader(200)
		s.gone = s.body.Len()
	}
}

// a connection that can be taken over
type wire struct{ *spy }

func (s wire) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	s.taken = true
	a, b := net.Pipe()
	b.Close()
	return a, bufio.NewReadWriter(bufio.NewReader(a), bufio.NewWriter(a)), nil
}

// got is what the client can read of what has left for it so far
func (s *spy) got() []string {
	b := s.body.Bytes()[:s.gone]
	if s.sent.Get("Content-Encoding") == "gzip" && len(b) > 0 {
		zr, err := stdgzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return []string{"?" + err.Error()}
		}
		b, _ = io.ReadAll(zr)
	}
	return tokens(b, false, s.room == 0)
}

// some pieces look like a picture
const png = "\x89PNG\r\n\x1a\n"

// chunk is a self-describing piece of body of exactly n bytes (n >= 12)
func chunk(id string, n int) []byte {
	var b bytes.Buffer
	if strings.HasSuffix(id, "p") && n >= 24 {
		b.WriteString(png)
	}
	fmt.Fprintf(&b, "[%s:%d:", id, n)
	for i := 0; b.Len() < n-1; i++ {
		b.WriteByte("abcdefghijklmnopqrstuvwxyz0123456789"[(i*7+i/36+len(id)*3)%36])
	}
	b.WriteByte(']')
	return b.Bytes()
}

func tok(id string, n int) string { return fmt.Sprintf("%s:%d", id, n) }

// tokens takes a body apart again
func tokens(b []byte, html, cut bool) []string {
	out := []string{}
	if html && len(b) > 0 {
		return []string{"HTML"}
	}
	for len(b) > 0 {
		if bytes.HasPrefix(b, []byte("404 Not Found")) {
			out = append(out, "404")
			b = b[13:]
			continue
		}
		if cut && bytes.HasPrefix([]byte("404 Not Found"), b) {
			return append(out, fmt.Sprint("~", len(b)))
		}
		t := bytes.TrimPrefix(b, []byte(png))
		p := bytes.SplitN(t, []byte(":"), 3)
		if cut && len(p) < 3 && (bytes.HasPrefix([]byte(png), b) || t[0] == '[') {
			return append(out, fmt.Sprint("~", len(b)))
		}
		if len(p) < 3 || t[0] != '[' {
			return append(out, "?bad")
		}
		n, err := strconv.Atoi(string(p[1]))
		id := string(p[0][1:])
		if cut && err == nil && n > len(b) && n < 1<<20 && bytes.HasPrefix(chunk(id, n), b) {
			return append(out, fmt.Sprint("~", len(b)))
		}
		if err != nil || n > len(b) || n < 12 || !bytes.Equal(b[:n], chunk(id, n)) {
			return append(out, "?bad")
		}
		out = append(out, tok(id, n))
		b = b[n:]
	}
	return out
}

// ------------------------------------------------------------ application

type op struct {
	k    string // next next2 status write wifnot sifnot flush hdr cl before panic
	s    int
	n    int
	a, v string
	pv   int
}

type val struct {
	K    string `json:"k"`
	S    int    `json:"s"`
	Toks []h.M  `json:"toks"`
	Id   string `json:"id"`
	Pan  bool   `json:"pan"`
	v    reflect.Value
}

type request struct {
	scripts map[string][]op
	vals    []val
	closed  []string
	n       int
}

type world struct {
	t    *h.Trace
	sp   *strip.Strip
	log  *countLog
	cur  *request
	spy  *spy
	app  []string // element names, without the router
	rt   map[string][]string
	acts map[string]*action
	nf   []string
	dev  bool
	rec  bool // a recovery filter is around everything
	nr   int
}

type action struct {
	id   string
	outs []reflect.Type
	kind []string
}

type countLog struct {
	strip.LoggerAdv
	n int
}

var panicText string // the entry of a panic tells what it was

func (c *countLog) add(f string, v []interface{}) {
	text := fmt.Sprint(v...)
	if f != "" {
		text = fmt.Sprintf(f, v...)
	}
	if strings.Contains(text, panicText) {
		c.n++
	}
}

func (c *countLog) Error(v ...interface{})                { c.add("", v) }
func (c *countLog) Errorf(f string, v ...interface{})     { c.add(f, v) }
func (c *countLog) Critical(v ...interface{})             { c.add("", v) }
func (c *countLog) Criticalf(f string, v ...interface{})  { c.add(f, v) }
func (c *countLog) Alert(v ...interface{})                { c.add("", v) }
func (c *countLog) Alertf(f string, v ...interface{})     { c.add(f, v) }
func (c *countLog) Emergency(v ...interface{})            { c.add("", v) }
func (c *countLog) Emergencyf(f string, v ...interface{}) { c.add(f, v) }

type provided struct{ x int }
type custom struct{ A, B string }

func boom(i int) {
	panicText = [...]string{"boom <b>", "boom error", "", "", "", "42", "", "", "all 100% of %d %s"}[i%9]
	switch i % 9 {
	case 8:
		panic("all 100% of %d %s")
	case 0:
		panic("boom <b>")
	case 1:
		panic(errors.New("boom error"))
	case 2:
		var p *custom
		_ = p.A
	case 3:
		panic(custom{"x", "y"})
	case 4:
		panic(nil)
	case 5:
		panic(42)
	case 6:
		panic(http.ErrAbortHandler)
	case 7:
		var m map[string]int
		m["x"] = 1
	}
}

func hdrName(k string) string {
	if k == "ct" {
		return "Content-Type"
	}
	return "X-" + strings.ToUpper(k)
}

func (w *world) view(ctx strip.Context, rw http.ResponseWriter) h.M {
	r := rw.(strip.ResponseWriter)
	return h.M{"st": r.Status(), "wr": ctx.Written(), "sz": r.Size()}
}

// run one scripted handler
func (w *world) handle(id string, ctx strip.Context, rw http.ResponseWriter, finish func()) {
	t := w.t
	t.Ev("enter", h.M{"id": id}, nil)
	for i, o := range w.cur.scripts[id] {
		switch o.k {
		case "next", "next2":
			if o.k == "next2" && ctx.Written() {
				continue
			}
			t.Ev("yield", h.M{"id": id}, nil)
			ctx.Next()
			t.Ev("resume", h.M{"id": id}, w.view(ctx, rw))
		case "status", "sifnot":
			if o.k == "sifnot" && ctx.Written() {
				continue
			}
			rw.WriteHeader(o.s)
			t.Ev("status", h.M{"id": id, "s": o.s}, w.view(ctx, rw))
		case "write", "wifnot":
			if o.k == "wifnot" && ctx.Written() {
				continue
			}
			if o.n == 0 {
				rw.Write([]byte{})
				t.Ev("write", h.M{"id": id, "tok": "", "n": 0}, w.view(ctx, rw))
				continue
			}
			cid := fmt.Sprintf("%s%d%s", id, i, o.v)
			rw.Write(chunk(cid, o.n))
			t.Ev("write", h.M{"id": id, "tok": tok(cid, o.n), "n": o.n}, w.view(ctx, rw))
		case "flush":
			rw.(http.Flusher).Flush()
			v := w.view(ctx, rw)
			v["got"] = w.spy.got()
			t.Ev("flush", h.M{"id": id}, v)
		case "hijack":
			conn, _, err := rw.(http.Hijacker).Hijack()
			if err == nil {
				conn.Close()
			}
			v := w.view(ctx, rw)
			v["got"] = err == nil
			t.Ev("hijack", h.M{"id": id}, v)
		case "hdr":
			rw.Header().Set(hdrName(o.a), o.v)
			t.Ev("hdr", h.M{"id": id, "k": o.a, "v": o.v}, w.view(ctx, rw))
		case "cl":
			rw.Header().Set("Content-Length", o.v)
			t.Ev("hdr", h.M{"id": id, "k": "", "v": ""}, w.view(ctx, rw))
		case "before":
			w.cur.n++
			hk, o := w.cur.n, o
			rw.(strip.ResponseWriter).Before(func(r strip.ResponseWriter) {
				t.Ev("hook", h.M{"hook": hk}, nil)
				if o.a != "" {
					r.Header().Set(hdrName(o.a), o.v)
				}
				if o.s != 0 {
					r.WriteHeader(o.s)
				}
			})
			t.Ev("before", h.M{"id": id, "hook": hk, "k": o.a, "v": o.v, "s": o.s}, w.view(ctx, rw))
		case "panic":
			t.Ev("panic", h.M{"id": id}, nil)
			boom(o.pv)
		}
	}
	finish()
}

func (w *world) filter(id string) interface{} {
	done := func() { w.t.Ev("exit", h.M{"id": id, "act": false, "vals": h.L{}}, nil) }
	switch {
	case id == "rec":
		return strip.RecoveryFilter()
	case id == "gz":
		return gzip.All()
	case id == "out":
		return strip.GenericOutFilter()
	case strings.HasPrefix(id, "p"):
		return w.form(func(ctx strip.Context, rw http.ResponseWriter, p *provided) { w.handle(id, ctx, rw, done) })
	}
	return w.form(func(ctx strip.Context, rw http.ResponseWriter) { w.handle(id, ctx, rw, done) })
}

// form gives a filter in one of the forms filters may have.
func (w *world) form(f interface{}) interface{} {
	switch w.t.R.Intn(8) {
	case 0: // made for every request
		return strip.FilterFunc(func() inject.Provider { return f })
	case 1:
		return func() inject.Provider { return f }
	case 2: // with the names of what it depends on
		return inject.Provide{inject.Dep{}, f}
	case 3:
		return func() inject.Provider { return inject.Provide{inject.Dep{0: ""}, f} }
	}
	return f
}

var (
	ctxT = reflect.TypeOf((*strip.Context)(nil)).Elem()
	rwT  = reflect.TypeOf((*http.ResponseWriter)(nil)).Elem()
)

func (w *world) action(a *action) interface{} {
	ft := reflect.FuncOf([]reflect.Type{ctxT, rwT}, a.outs, false)
	return reflect.MakeFunc(ft, func(in []reflect.Value) []reflect.Value {
		ctx := in[0].Interface().(strip.Context)
		rw := in[1].Interface().(http.ResponseWriter)
		w.handle(a.id, ctx, rw, func() {
			vs := h.L{}
			for _, v := range w.cur.vals {
				vs = append(vs, h.M{"k": v.K, "s": v.S, "toks": v.Toks, "id": v.Id, "pan": v.Pan})
			}
			w.t.Ev("exit", h.M{"id": a.id, "act": true, "vals": vs}, nil)
		})
		var out []reflect.Value
		for i, v := range w.cur.vals {
			rv := reflect.New(a.outs[i]).Elem()
			if v.v.IsValid() {
				rv.Set(v.v)
			}
			out = append(out, rv)
		}
		return out
	}).Interface()
}

func (w *world) provider() interface{} {
	return func() *provided {
		id := w.cur.scripts["provider"][0].a
		w.t.Ev("prov", h.M{"id": id}, nil)
		boom(w.cur.scripts["provider"][0].pv)
		return nil
	}
}

func (w *world) init(app []string, rt map[string][]string, acts map[string]*action, nf []string, dev bool) *world {
	w.app, w.rt, w.acts, w.nf, w.dev = app, rt, acts, nf, dev
	w.sp = strip.New()
	w.log = &countLog{LoggerAdv: strip.NewLogger(log.New(io.Discard, "", 0))}
	w.sp.SetLogger(w.log)
	if !dev {
		w.sp.Config.RunMode = strip.Mode("prod")
	} else {
		w.sp.Config.RunMode = strip.Mode("dev")
	}
	w.sp.Provide(w.provider())
	var fs []interface{}
	for _, id := range app {
		fs = append(fs, w.filter(id))
	}
	w.sp.Filter(fs...)
	for name, ids := range rt {
		var rfs []interface{}
		for _, id := range ids {
			rfs = append(rfs, w.filter(id))
		}
		w.sp.Routers(strip.Router(name, strip.Filter(rfs...), strip.Get(w.action(acts[name]))))
	}
	if nf != nil {
		var nfs []interface{}
		for _, id := range nf {
			nfs = append(nfs, w.filter(id))
		}
		if len(nf) > 1 { // the last declaration counts
			w.sp.NotFound(w.filter(nf[0]))
		}
		w.sp.NotFound(nfs...)
	}
	return w
}

func elem(id string) h.M {
	switch id {
	case "rec", "gz", "out", "nf":
		return h.M{"k": id, "id": id, "prov": false}
	}
	return h.M{"k": "h", "id": id, "prov": strings.HasPrefix(id, "p")}
}

func elems(ids []string) h.L {
	l := h.L{}
	for _, id := range ids {
		l = append(l, elem(id))
	}
	return l
}

var accepts = []string{"gzip", "gzip, deflate, br", "deflate, gzip;q=1.0, *;q=0.5", "br;q=1, gzip"}
var refuses = []string{"", "deflate", "br, deflate", "identity", "*"}

func (w *world) serve(path string, acc string, r *request) {
	w.nr++
	w.cur = r
	accept := strings.Contains(acc, "gzip")
	rt := append([]string{}, w.rt[path]...)
	if a := w.acts[path]; a != nil {
		rt = append(rt, a.id)
	} else if w.nf != nil {
		rt = append(rt, w.nf...)
	} else {
		rt = append(rt, "nf")
	}
	app := append(elems(w.app), h.M{"k": "route", "id": "", "prov": false})
	if r.scripts == nil {
		r.scripts = map[string][]op{}
	}
	for _, id := range append(append([]string{}, w.app...), rt...) { // the handler whose provider panics
		if strings.HasPrefix(id, "p") {
			r.scripts["provider"] = []op{{a: id, pv: w.nr}}
			break
		}
	}
	method, room := "GET", 1<<30
	if w.t.R.Intn(8) == 0 {
		method = "HEAD"
	}
	cut := w.t.Src == "random" && !w.dev && w.t.R.Intn(6) == 0
	for _, e := range append(append([]string{}, w.app...), rt...) {
		cut = cut && e != "gz"
	}
	for _, v := range r.vals {
		cut = cut && !v.Pan
	}
	if cut {
		room = w.t.R.Intn(h.Pick(w.t.R, 1, 20, 200, 30000))
	}
	wired := w.t.R.Intn(2) == 0 || w.t.Src == "tlc"
	w.t.Ev("req", h.M{"wired": wired, "app": app, "rt": elems(rt), "acc": accept, "dev": w.dev, "path": path, "room": room, "head": method == "HEAD"}, nil)
	s := &spy{hdr: http.Header{}, room: room}
	varies := w.t.R.Intn(3) == 0 // with something else besides
	if varies {
		s.hdr.Set("Vary", "Origin")
	}
	w.spy = s
	req := &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}, Host: "x"}
	if acc != "" {
		req.Header.Set("Accept-Encoding", acc)
	}
	w.log.n, panicText = 0, ""
	var rw http.ResponseWriter = s
	if wired {
		rw = wire{s}
	}
	msg := h.Catch(func() { w.sp.ServeHTTP(rw, req) })
	o := h.M{"status": s.status, "heads": s.heads, "panic": msg, "errs": w.log.n, "closed": r.closed}
	if o["closed"] == nil || r.closed == nil {
		o["closed"] = []string{}
	}
	if s.sent == nil {
		s.sent = http.Header{}
	}
	ce := s.sent.Get("Content-Encoding")
	raw := s.body.Bytes()
	body, valid := raw, true
	if ce == "gzip" {
		zr, err := stdgzip.NewReader(bytes.NewReader(raw))
		if err == nil {
			body, err = io.ReadAll(zr)
		}
		valid = err == nil
	}
	cl := s.sent.Get("Content-Length")
	o["a"], o["b"] = s.sent.Get("X-A"), s.sent.Get("X-B")
	o["ce"], o["valid"] = ce, valid
	vary := strings.ToLower(strings.Join(s.sent.Values("Vary"), ","))
	o["vary"] = strings.Contains(vary, "accept-encoding") && (!varies || strings.Contains(vary, "origin"))
	o["clok"] = cl == "" || cl == strconv.Itoa(len(raw))
	html := strings.HasPrefix(s.sent.Get("Content-Type"), "text/html") && bytes.Contains(body, []byte("<html>"))
	o["html"] = html
	o["ct"], o["sniff"] = s.sent.Get("Content-Type"), "text/plain; charset=utf-8"
	if bytes.HasPrefix(body, []byte(png)) {
		o["sniff"] = "image/png"
	}
	o["toks"] = tokens(body, html, s.room == 0)
	closers := []string{}
	for _, v := range r.vals {
		if v.K == "closer" {
			closers = append(closers, v.Id)
		}
	}
	w.t.Ev("end", h.M{"closers": closers}, o)
}

// ------------------------------------------------------------ return values

type rdr struct{ io.Reader }
type rdc struct {
	io.Reader
	w  *world
	id string
}

func (r *rdc) Close() error { r.w.cur.closed = append(r.w.cur.closed, r.id); return nil }

// slow yields one chunk per Read
type slow struct {
	parts [][]byte
	end   int // 0: ends; 1: fails; 2+: panics
}

func (s *slow) Read(b []byte) (int, error) {
	if len(s.parts) == 0 {
		if s.end > 1 {
			boom(s.end)
		}
		if s.end == 1 {
			return 0, errors.New("the source is broken")
		}
		return 0, io.EOF
	}
	n := copy(b, s.parts[0])
	s.parts[0] = s.parts[0][n:]
	if len(s.parts[0]) == 0 {
		s.parts = s.parts[1:]
	}
	return n, nil
}

type resP struct {
	s     int
	parts [][]byte
	end   int
}

func (r *resP) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	resV(*r).Write(ctx, rw, req)
}

type resV struct {
	s     int
	parts [][]byte
	end   int
}

func (r resV) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	if ctx == nil || req == nil {
		return
	}
	if r.s != 0 {
		rw.WriteHeader(r.s)
	}
	for _, p := range r.parts {
		rw.Write(p)
	}
	if r.end > 1 {
		boom(r.end)
	}
}

type named struct{ X int }

var errT = reflect.TypeOf((*error)(nil)).Elem()
var statuses = []int{200, 201, 202, 400, 403, 404, 409, 418, 500, 503}

// value and declared type for one returned value
func (w *world) value(kind string, n int) (reflect.Type, func() val) {
	r := w.t.R
	id := fmt.Sprintf("o%d", n)
	pieces := func(k int) (ts []h.M, ps [][]byte) {
		ts = []h.M{}
		for i := 0; i < k; i++ {
			sz := 12 + r.Intn(60)
			if r.Intn(6) == 0 {
				sz = 5000 + r.Intn(40000)
			}
			if r.Intn(40) == 0 {
				sz = 60000 + r.Intn(300000)
			}
			c := fmt.Sprintf("%sx%d", id, i)
			ts = append(ts, h.M{"t": tok(c, sz), "n": sz})
			ps = append(ps, chunk(c, sz))
		}
		return
	}
	// how producing the body ends
	end := func() int {
		switch {
		case r.Intn(4) > 0:
			return 0
		case w.rec:
			return 1 + r.Intn(9)
		}
		return r.Intn(2)
	}
	join := func(ps [][]byte) []byte { return bytes.Join(ps, nil) }
	mk := func(v val, x interface{}) val {
		v.v = reflect.ValueOf(x)
		v.Id = id
		if v.Toks == nil {
			v.Toks = []h.M{}
		}
		return v
	}
	switch kind {
	case "int":
		return reflect.TypeOf(0), func() val { s := statuses[r.Intn(len(statuses))]; return mk(val{K: "int", S: s}, s) }
	case "text":
		typ := reflect.TypeOf("")
		if r.Intn(4) == 0 {
			typ = reflect.TypeOf((*interface{})(nil)).Elem()
		}
		return typ, func() val { ts, ps := pieces(r.Intn(2)); return mk(val{K: "text", Toks: ts}, string(join(ps))) }
	case "bytes":
		return reflect.TypeOf([]byte{}), func() val {
			ts, ps := pieces(r.Intn(2))
			return mk(val{K: "bytes", Toks: ts}, append([]byte{}, join(ps)...))
		}
	case "reader":
		conc := r.Intn(2) == 0
		typ := reflect.TypeOf((*io.Reader)(nil)).Elem()
		if conc {
			typ = reflect.TypeOf(&rdr{})
		}
		return typ, func() val {
			ts, ps := pieces(r.Intn(4))
			e := end()
			return mk(val{K: "reader", Toks: ts, Pan: e > 1}, &rdr{&slow{ps, e}})
		}
	case "closer":
		typ := reflect.TypeOf((*io.ReadCloser)(nil)).Elem()
		if r.Intn(2) == 0 {
			typ = reflect.TypeOf((*io.Reader)(nil)).Elem()
		}
		return typ, func() val {
			ts, ps := pieces(r.Intn(4))
			e := end()
			return mk(val{K: "closer", Toks: ts, Pan: e > 1}, &rdc{&slow{ps, e}, w, id})
		}
	case "handler":
		typ := reflect.TypeOf((*http.Handler)(nil)).Elem()
		if r.Intn(2) == 0 {
			typ = reflect.TypeOf(http.HandlerFunc(nil))
		}
		return typ, func() val {
			ts, ps := pieces(r.Intn(3))
			s := h.Pick(r, 0, 201, 404)
			e := end()
			return mk(val{K: "handler", S: s, Toks: ts, Pan: e > 1}, http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) { resV{s, ps, e}.Write(w.any(), rw, req) }))
		}
	case "result":
		c := r.Intn(3)
		typ := []reflect.Type{reflect.TypeOf((*strip.ActionResult)(nil)).Elem(), reflect.TypeOf(&resP{}), reflect.TypeOf(resV{})}[c]
		return typ, func() val {
			ts, ps := pieces(r.Intn(3))
			s := h.Pick(r, 0, 201, 404)
			e := end()
			if c == 2 {
				return mk(val{K: "result", S: s, Toks: ts, Pan: e > 1}, resV{s, ps, e})
			}
			return mk(val{K: "result", S: s, Toks: ts, Pan: e > 1}, &resP{s, ps, e})
		}
	case "nil":
		typ := h.Pick(r, reflect.TypeOf((*io.Reader)(nil)).Elem(), reflect.TypeOf(&resP{}), reflect.TypeOf([]byte{}),
			errT, reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(http.HandlerFunc(nil)), reflect.TypeOf((*strip.ActionResult)(nil)).Elem(),
			reflect.TypeOf(map[string]int{}), reflect.TypeOf(make(chan int)))
		return typ, func() val { return val{K: "nil", Id: id, Toks: []h.M{}} }
	}
	x := h.Pick[interface{}](r, named{3}, int64(404), 1.5, true, map[string]int{"a": 1}, &named{4}, [2]byte{1, 2}, uint(7), []string{"q"})
	return reflect.TypeOf(x), func() val { return mk(val{K: "other"}, x) }
}

// any returns a non-nil context for self-writing results
func (w *world) any() strip.Context { return anyCtx{} }

type anyCtx struct{ strip.Context }

// ------------------------------------------------------------ generators

func (w *world) ops(prop, id string, outer bool) (os []op) {
	r := w.t.R
	isAct := strings.HasPrefix(id, "act")
	size := func() int {
		switch r.Intn(12) {
		case 0:
			return 0
		case 1:
			return 20000 + r.Intn(60000)
		case 2:
			return 400 + r.Intn(3000)
		}
		return 12 + r.Intn(40)
	}
	hdr := func() op {
		o := op{k: "hdr", a: h.Pick(r, "a", "b"), v: fmt.Sprint("v", r.Intn(1000))}
		if r.Intn(6) == 0 || prop == "C25" && r.Intn(2) == 0 {
			o.a, o.v = "ct", h.Pick(r, "application/json", "text/csv", "image/gif", "application/x-tar")
		}
		return o
	}
	bef := func() op {
		o := op{k: "before", a: h.Pick(r, "", "a", "b"), v: fmt.Sprint("h", r.Intn(1000))}
		if r.Intn(3) == 0 {
			o.s = statuses[r.Intn(len(statuses))]
		}
		return o
	}
	some := func(max int, wr bool) {
		for n := r.Intn(max + 1); n > 0; n-- {
			x := r.Intn(16)
			switch {
			case x < 3:
				os = append(os, op{k: "status", s: statuses[r.Intn(len(statuses))]})
			case x < 6 && wr:
				os = append(os, op{k: "write", n: size(), v: h.Pick(r, "", "p")})
			case x < 7 && wr:
				os = append(os, op{k: "flush"})
			case x < 9:
				os = append(os, bef())
			case x < 11:
				os = append(os, hdr())
			case x < 12 && prop == "C25" && wr:
				os = append(os, op{k: "cl", v: fmt.Sprint(r.Intn(200))})
			case x < 12:
				os = append(os, op{k: "wifnot", n: size()})
			}
		}
	}
	if isAct {
		switch prop {
		case "C08":
			some(9, true)
			if r.Intn(5) == 0 {
				for i := range os {
					if os[i].k == "flush" {
						os[i].k = "write"
					}
				}
				i := r.Intn(len(os) + 1)
				os = append(append(append([]op{}, os[:i]...), op{k: "hijack"}), os[i:]...)
			}
		case "C07":
			if r.Intn(4) == 0 {
				some(2, true)
			} else if r.Intn(2) == 0 {
				os = append(os, hdr(), bef())
			}
		default:
			some(4, true)
		}
		return
	}
	wr := true
	switch prop {
	case "C08":
		if r.Intn(3) == 0 {
			some(2, wr)
		} else {
			os = append(os, bef(), hdr())
		}
	case "C07":
		if r.Intn(6) == 0 {
			some(2, wr)
		}
	default:
		if r.Intn(3) == 0 {
			some(2, wr)
		}
	}
	if r.Intn(3) != 0 {
		os = append(os, op{k: "next"})
		if r.Intn(5) == 0 {
			os = append(os, op{k: "next2"})
		}
		if outer {
			switch r.Intn(5) {
			case 0:
				os = append(os, op{k: "wifnot", n: size()})
			case 1:
				os = append(os, op{k: "sifnot", s: 418}, op{k: "flush"})
			case 2:
				os = append(os, hdr(), bef())
			}
		} else if r.Intn(2) == 0 {
			some(3, true)
		}
		if r.Intn(8) == 0 {
			os = append(os, op{k: "next2"})
		}
	}
	return
}

func (w *world) withPanic(os []op) []op {
	i := w.t.R.Intn(len(os) + 1)
	return append(append(append([]op{}, os[:i]...), op{k: "panic", pv: w.t.R.Intn(9)}), os[i:]...)
}

func names(prefix string, n int) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("%s%d", prefix, i+1))
	}
	return
}

func insert(xs []string, at int, x string) []string {
	return append(append(append([]string{}, xs[:at]...), x), xs[at:]...)
}

func random(c *h.Ctx, t *h.Trace) {
	r := t.R
	app := names("f", r.Intn(4))
	if c.Prop == "C08" {
		app = names("f", r.Intn(3))
	}
	switch c.Prop {
	case "C07":
		app = insert(app, r.Intn(len(app)+1), "out")
		if r.Intn(3) == 0 {
			app = insert(app, 0, "rec")
		}
	case "C25":
		app = insert(app, r.Intn(len(app)+1), "gz")
		if r.Intn(3) == 0 {
			app = insert(app, r.Intn(len(app)+1), "out")
		}
		if r.Intn(2) == 0 {
			app = insert(app, 0, "rec")
		}
	case "C09":
		if r.Intn(4) == 0 {
			app = insert(app, r.Intn(len(app)+1), "out")
		}
		app = insert(app, 0, "rec")
	}
	dev := r.Intn(2) == 0
	hasRec := len(app) > 0 && app[0] == "rec"
	w := &world{t: t, rec: hasRec}
	rt := map[string][]string{}
	acts := map[string]*action{}
	mkvals := map[string][]func() val{}
	for i := 0; i < 2; i++ {
		name := fmt.Sprintf("/r%d", i)
		ids := names(fmt.Sprintf("g%d", i), r.Intn(3))
		if c.Prop == "C07" && i == 1 && r.Intn(3) == 0 { // the output filter on one route only
			keep := r.Intn(3) == 0 // or on the application as well
			for k, x := range app {
				if x == "out" && !keep {
					app = append(append([]string{}, app[:k]...), app[k+1:]...)
					break
				}
			}
			ids = insert(ids, r.Intn(len(ids)+1), "out")
		}
		if hasRec && i == 1 && r.Intn(3) == 0 {
			ids = insert(ids, r.Intn(len(ids)+1), "p1")
		}
		if c.Prop == "C25" && r.Intn(4) == 0 { // compression asked for again on the route
			ids = insert(ids, r.Intn(len(ids)+1), "gz")
		}
		rt[name] = ids
		a := &action{id: fmt.Sprintf("act%d", i)}
		if c.Prop == "C07" || (c.Prop == "C25" || c.Prop == "C09") && r.Intn(2) == 0 {
			kinds := h.Pick(r, []string{}, []string{"int"}, []string{"B"}, []string{"B", "int"}, []string{"B", "int"}, []string{"other", "B", "int"}, []string{"other", "B"})
			for k, kind := range kinds {
				if kind == "B" {
					kind = h.Pick(r, "text", "bytes", "reader", "closer", "handler", "result", "nil", "other")
				}
				typ, f := w.value(kind, k)
				a.outs = append(a.outs, typ)
				a.kind = append(a.kind, kind)
				mkvals[name] = append(mkvals[name], f)
			}
		}
		acts[name] = a
	}
	var nf []string
	if r.Intn(2) == 0 {
		nf = names("n", r.Intn(3))
		if nf == nil {
			nf = []string{}
		}
	}
	w.init(app, rt, acts, nf, dev)
	for n := 1 + r.Intn(c.Pick(3, 6)); n > 0; n-- {
		path := h.Pick(r, "/r0", "/r0", "/r1", "/r1", "/none")
		q := &request{scripts: map[string][]op{}}
		for _, f := range mkvals[path] {
			v := f()
			if c.Prop == "C07" && v.K == "int" && r.Intn(6) == 0 {
				v.S = h.Pick(r, 204, 304)
				v.v = reflect.ValueOf(v.S)
			}
			q.vals = append(q.vals, v)
		}
		ids := append(append(append([]string{}, app...), rt[path]...), nf...)
		outer := false
		for _, id := range append(append([]string{}, app...), rt[path]...) {
			outer = outer || id == "gz"
		}
		for _, id := range ids {
			if id == "gz" {
				outer = false
			}
			q.scripts[id] = w.ops(c.Prop, id, outer)
		}
		if a := acts[path]; a != nil {
			q.scripts[a.id] = w.ops(c.Prop, a.id, false)
			ids = append(ids, a.id)
		}
		if hasRec && (c.Prop == "C09" && r.Intn(3) != 0 || r.Intn(3) == 0) {
			for k := 1 + r.Intn(2); k > 0; k-- {
				id := ids[r.Intn(len(ids))]
				q.scripts[id] = w.withPanic(q.scripts[id])
			}
		}
		acc := h.Pick(r, refuses...)
		if c.Prop == "C25" && r.Intn(3) != 0 {
			acc = h.Pick(r, accepts...)
		}
		w.serve(path, acc, q)
	}
}

// scenario generated by TLC: a chain shape and what each handler does
func scen(raw json.RawMessage, t *h.Trace) {
	var s struct {
		Shape string     `json:"shape"`
		Dev   bool       `json:"dev"`
		Did   [][]string `json:"did"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		panic(err)
	}
	t.Src = "tlc"
	var app, g []string
	path := "/r0"
	switch s.Shape {
	case "plain":
		app, g = []string{"f1", "f2"}, []string{"g1"}
	case "short":
		app = []string{"f1"}
	case "rec":
		app, g = []string{"rec", "f1"}, []string{"g1"}
	case "recs":
		app = []string{"rec", "f1"}
	case "out":
		app = []string{"f1", "out"}
	case "nf":
		app, path = []string{"f1", "f2"}, "/none"
	case "rgo":
		app = []string{"rec", "f1", "gz", "f2"}
	}
	w := (&world{t: t}).init(app, map[string][]string{"/r0": g}, map[string]*action{"/r0": {id: "act"}}, nil, s.Dev)
	q := &request{scripts: map[string][]op{}}
	for i, d := range s.Did {
		o := op{k: d[1], n: 12 + i, s: 201 + i, a: "a", v: fmt.Sprint("v", i), pv: i}
		switch d[1] {
		case "yield":
			o.k = "next"
		case "before":
			o.a, o.s = "b", 0
			if i == 2 {
				o.s = 299
			}
		case "write":
			// outside the compression filter, after it: only if nothing was written
			if s.Shape == "rgo" && d[0] == "f1" && len(q.scripts["f1"]) > 0 && q.scripts["f1"][0].k == "next" {
				o.k = "wifnot"
			}
		}
		if o.k == "next" {
			for _, p := range q.scripts[d[0]] {
				if p.k == "next" {
					o.k = "next2"
				}
			}
		}
		q.scripts[d[0]] = append(q.scripts[d[0]], o)
	}
	w.serve(path, "gzip", q)
}

func main() {
	h.Main(h.Area{
		N: func(c *h.Ctx) int {
			n := map[string][2]int{"C05": {900, 20000}, "C07": {900, 20000}, "C08": {900, 20000}, "C09": {800, 15000}, "C25": {900, 15000}}[c.Prop]
			return len(c.Scen) + c.Pick(n[0], n[1])
		},
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			if i < len(c.Scen) {
				scen(c.Scen[i], t)
				return
			}
			t.Src = "random"
			random(c, t)
		},
	})
}
