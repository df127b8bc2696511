package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/textproto"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/params"

	"verif/h"
)

type pair [2]string

func randName(t *h.Trace) string {
	return h.Pick(t.R, "a", "b", "c", "a[]", "a[0]", "user.Name", "id", "name", "x y", "é", "A")
}

func randVal(t *h.Trace) string {
	return h.Pick(t.R, "", "1", "v", "v w", "a&b=c", "100%", "+", "é世", "long "+strings.Repeat("z", 40), "x", "y\"q", "line\nbreak", "1", "2", ";semi")
}

func randPairs(t *h.Trace, max int) []pair {
	ps := []pair{}
	for i := t.R.Intn(max + 1); i > 0; i-- {
		ps = append(ps, pair{randName(t), randVal(t)})
	}
	return ps
}

func encode(t *h.Trace, ps []pair) string {
	var b strings.Builder
	for i, p := range ps {
		if i > 0 {
			b.WriteByte('&')
		}
		b.WriteString(url.QueryEscape(p[0]))
		if p[1] != "" || t.R.Intn(2) == 0 {
			b.WriteByte('=')
		}
		b.WriteString(url.QueryEscape(p[1]))
	}
	return b.String()
}

func view(v url.Values) h.L {
	out := h.L{}
	ks := []string{}
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, h.L{k, append([]string{}, v[k]...)})
	}
	return out
}

type gotParams struct {
	obs h.M
	n   int
}

type discard struct{}

func (discard) Print(...interface{}) {}

// how long files may take to go away
var patience = 5 * time.Second

func runReq(c *h.Ctx, t *h.Trace) {
	r := t.R
	tmp, err := os.MkdirTemp("", "verif-req")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	old := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", tmp) // files too large for the memory go there
	defer os.Setenv("TMPDIR", old)
	sp := strip.New()
	lg := strip.NewLogger(discard{})
	sp.SetLogger(lg)
	sp.Provide(params.ParamsParser())
	sp.ImportConfig(mustIni("max_memory = " + h.Pick(r, "1", "16", "100000")))
	var got *gotParams
	early := r.Intn(2) == 0
	handler := func(p *params.Params) {
		o := h.M{"values": view(p.Values), "query": view(p.Query), "route": view(p.Route.Values), "form": view(p.Form), "panic": ""}
		fl := h.L{}
		ks := []string{}
		for k := range p.Files {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fs := h.L{}
			for _, f := range p.Files[k] {
				data := ""
				fd, err := f.Open()
				if err != nil {
					data = "open: " + errText(err)
				} else {
					b, err := io.ReadAll(fd)
					fd.Close()
					data = digest(b)
					if err != nil {
						data = "read: " + errText(err)
					}
				}
				fs = append(fs, h.L{f.Filename, data})
			}
			fl = append(fl, h.L{k, fs})
		}
		o["files"] = fl
		got.obs = o
		got.n++
	}
	var fl []strip.Handler
	if early { // a filter that parses first: the parsed view is shared
		fl = append(fl, strip.Filter(func(p *params.Params) {}))
	}
	with := func(hs ...strip.Handler) []strip.Handler { return append(hs, fl...) }
	sp.Routers(
		strip.Router("/r", with(strip.Any(handler))...),
		strip.Router("/r/:id", with(strip.Any(handler))...),
		strip.Router("/r/:id/:a", with(strip.Any(handler))...),
		strip.Router("/w/:b/*:rest", with(strip.Any(handler))...),
		strip.Router("/v/:a/:b/x/:id/:g/:h", with(strip.Any(handler))...),
	)
	srv := r.Intn(4) == 0
	var ts *httptest.Server
	if srv {
		ts = httptest.NewServer(sp)
		defer ts.Close()
	}
	for q := 1 + r.Intn(4); q > 0; q-- {
		got = &gotParams{}
		seg := func() string { return h.Pick(r, "1", "x", "é", "a b", "q=1", "%41") }
		var path string
		route := []pair{}
		switch r.Intn(5) {
		case 4:
			vs := []string{seg(), seg(), seg(), seg(), seg()}
			path = "/v/" + vs[0] + "/" + vs[1] + "/x/" + strings.Join(vs[2:], "/")
			for i, n := range []string{":a", ":b", ":id", ":g", ":h"} {
				route = append(route, pair{n, vs[i]})
			}
		case 0:
			path = "/r"
		case 1:
			a := seg()
			path, route = "/r/"+a, []pair{{":id", a}}
		case 2:
			a, b := seg(), seg()
			path, route = "/r/"+a+"/"+b, []pair{{":id", a}, {":a", b}}
		default:
			a, b, d := seg(), seg(), seg()
			path, route = "/w/"+a+"/"+b+"/"+d, []pair{{":b", a}, {"*:rest", b + "/" + d}}
		}
		for i := range route {
			route[i][0] = strings.TrimLeft(route[i][0], "*:")
		}
		query := randPairs(t, 4)
		body := []pair{}
		type file struct{ K, Name, Data string }
		files := []h.M{}
		var rd io.Reader = http.NoBody
		ct := ""
		method := h.Pick(r, "GET", "POST", "PUT", "PATCH", "POST")
		switch x := r.Intn(5); {
		case x <= 1 && method != "GET":
			body = randPairs(t, 4)
			ct = h.Pick(r, "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "Application/X-WWW-Form-Urlencoded")
			rd = strings.NewReader(encode(t, body))
		case x <= 3 && method != "GET":
			var buf bytes.Buffer
			mw := multipart.NewWriter(&buf)
			for _, p := range randPairs(t, 3) {
				body = append(body, p)
			}
			for i := r.Intn(3); i > 0; i-- {
				k := h.Pick(r, "up", "up2", "a")
				name := h.Pick(r, "f.txt", "é.bin", "g")
				data := []byte(strings.Repeat("d", r.Intn(3)) + fmt.Sprint(r.Int63()))
				for len(data) < h.Pick(r, 1, 50, 5000) {
					data = append(data, byte(r.Intn(256)))
				}
				hd := textproto.MIMEHeader{}
				hd.Set("Content-Disposition", fmt.Sprintf(`form-data; name="%s"; filename="%s"`, k, name))
				pw, _ := mw.CreatePart(hd)
				pw.Write(data)
				files = append(files, h.M{"k": k, "name": name, "data": digest(data)})
			}
			for _, p := range body {
				w, _ := mw.CreateFormField(p[0])
				w.Write([]byte(p[1]))
			}
			mw.Close()
			ct = mw.FormDataContentType()
			rd = &buf
		case x == 4 && method != "GET":
			ct = h.Pick(r, "application/json", "text/plain", "")
			rd = strings.NewReader(`{"a":1}`)
		}
		u := &url.URL{Scheme: "http", Host: "t", Path: path, RawQuery: encode(t, query)}
		if r.Intn(30) == 0 {
			u.RawQuery += "&"
		}
		var msg string
		if srv {
			u2 := *u
			su, _ := url.Parse(ts.URL)
			u2.Host = su.Host
			req, err := http.NewRequest(method, u2.String(), rd)
			if err != nil {
				panic(err)
			}
			if ct != "" {
				req.Header.Set("Content-Type", ct)
			}
			cl := &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
			res, err := cl.Do(req)
			if err != nil {
				msg = "request failed"
			} else {
				res.Body.Close()
			}
		} else {
			req := httptest.NewRequest(method, "http://t/", rd)
			req.URL = u
			req.Header.Del("Content-Type")
			if ct != "" {
				req.Header.Set("Content-Type", ct)
			}
			ctx, cancel := context.WithCancel(req.Context())
			req = req.WithContext(ctx)
			msg = h.Catch(func() { sp.ServeHTTP(httptest.NewRecorder(), req) })
			cancel()
		}
		if msg == "" && got.n != 1 {
			msg = fmt.Sprintf("handler ran %d times", got.n)
		}
		if got.obs == nil {
			e := h.L{}
			got.obs = h.M{"values": e, "query": e, "route": e, "form": e, "files": e}
		}
		got.obs["panic"] = msg
		left := 0
		for end := time.Now().Add(patience); ; time.Sleep(time.Millisecond) {
			fs, _ := os.ReadDir(tmp)
			if left = len(fs); left == 0 || time.Now().After(end) {
				break
			}
		}
		got.obs["left"] = left
		if left > 0 {
			patience = 100 * time.Millisecond
			for _, f := range listed(tmp) {
				os.Remove(f)
			}
		}
		t.Ev("preq", h.M{"query": query, "route": route, "body": body, "files": files}, got.obs)
	}
}

func listed(dir string) (out []string) {
	fs, _ := os.ReadDir(dir)
	for _, f := range fs {
		out = append(out, filepath.Join(dir, f.Name()))
	}
	return
}

func mustIni(s string) config.Configer {
	c, err := config.LoadIniFromReader(strings.NewReader(s))
	if err != nil {
		panic(err)
	}
	return c
}

func errText(err error) string {
	s := err.Error()
	if i := strings.LastIndex(s, ": "); i >= 0 {
		s = s[i+2:]
	}
	return s
}

func digest(b []byte) string {
	if len(b) <= 40 {
		return fmt.Sprintf("%x", b)
	}
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return fmt.Sprintf("%d:%x", len(b), h)
}
