// Driver for C24: requests to static filters over scratch directories.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	static "github.com/wujiu2020/strip/static-serve"

	"verif/h"
)

type tree struct {
	dir   string            // the directory served
	files map[string]string // clean path -> name of its content
	dirs  []string
	empty bool // has files without content: no parts of them
}

var contents = map[string]string{} // name -> content
var bySize = map[int]string{}      // every content has a size of its own
var trees []*tree                  // made at the start
var base string                    // holds everything
var names = []string{"a", "b", "f.txt", "index.html", "x.css", "sp ace", "d%41", "q?x", "Ünï", "a+b", "..a", "a..", "dot.", ".hid", "c:d", "\\w", "evil.com"}

func put(p, name string) {
	n := 20 + len(bySize) // also of those emptied since
	c := name + ":"
	for len(c) < n {
		c += strconv.FormatInt(int64(len(c)*7919+n*104729), 36)
	}
	contents[name] = c[:n]
	bySize[n] = name
	check(os.MkdirAll(filepath.Dir(p), 0o755))
	check(os.WriteFile(p, []byte(c[:n]), 0o644))
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

func (t *tree) add(p string) {
	name := "c" + strconv.Itoa(len(bySize))
	put(filepath.Join(t.dir, filepath.FromSlash(p)), name)
	t.files[p] = name
	for d := path.Dir(p); ; d = path.Dir(d) {
		t.mkdir(d)
		if d == "/" {
			break
		}
	}
}

func (t *tree) mkdir(d string) {
	for _, x := range t.dirs {
		if x == d {
			return
		}
	}
	check(os.MkdirAll(filepath.Join(t.dir, filepath.FromSlash(d)), 0o755))
	t.dirs = append(t.dirs, d)
}

func (t *tree) has(p string) bool {
	if _, ok := t.files[p]; ok {
		return true
	}
	for _, x := range t.dirs {
		if x == p {
			return true
		}
	}
	return false
}

func build(r *rand.Rand) {
	var err error
	base, err = os.MkdirTemp("", "static")
	check(err)
	base, err = filepath.EvalSymlinks(base)
	check(err)
	put(filepath.Join(base, "secret.txt"), "secret1")
	put(filepath.Join(base, "www2", "secret.txt"), "secret2")
	put(filepath.Join(base, "www-x"), "secret3")
	// the tree of the specification
	t := &tree{dir: filepath.Join(base, "www"), files: map[string]string{}}
	for _, p := range []string{"/f.txt", "/a/f.txt", "/a/index.html", "/www/f.txt"} {
		t.add(p)
	}
	trees = append(trees, t)
	for k := 0; k < 6; k++ {
		t := &tree{dir: filepath.Join(base, "t"+strconv.Itoa(k), "root"), files: map[string]string{}}
		put(filepath.Join(base, "t"+strconv.Itoa(k), "a"), "secret-a"+strconv.Itoa(k))
		t.mkdir("/")
		for n := 0; n < 12; n++ {
			p := ""
			for d := 0; d < 1+r.Intn(3); d++ {
				p += "/" + names[r.Intn(len(names))]
			}
			if t.has(p) || under(t, p) {
				continue
			}
			if r.Intn(4) == 0 {
				if path.Base(p) == "index.html" { // never a directory
					continue
				}
				t.mkdir(p)
				for d := path.Dir(p); ; d = path.Dir(d) {
					t.mkdir(d)
					if d == "/" {
						break
					}
				}
			} else {
				t.add(p)
			}
		}
		if k == 3 || k == 4 {
			t.empty = true
			for _, p := range []string{"/b/index.html", "/void", "/index.html"} {
				if t.files[path.Dir(p)] == "" && !under(t, p) && !t.has(p) {
					t.add(p)
					delete(contents, t.files[p])
					check(os.WriteFile(filepath.Join(t.dir, filepath.FromSlash(p)), nil, 0o644))
					t.files[p] = "empty"
				}
			}
			contents["empty"] = ""
		}
		trees = append(trees, t)
	}
	check(os.Chdir(base))
}

// a file on the way, or a directory called index.html
func under(t *tree, p string) bool {
	if strings.Contains(p+"/", "/index.html/") && path.Base(p) != "index.html" {
		return true
	}
	for d := path.Dir(p); d != "/"; d = path.Dir(d) {
		if _, ok := t.files[d]; ok || path.Base(d) == "index.html" {
			return true
		}
	}
	return false
}

func opened() int {
	n := 0
	fs, err := os.ReadDir("/proc/self/fd")
	check(err)
	for _, f := range fs {
		if to, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(to, base) {
			n++
		}
	}
	return n
}

type app struct {
	sp   *strip.Strip
	next int
}

func newApp(t *tree, prefix string, opt static.StaticOption, opts bool, dir string) *app {
	a := &app{sp: strip.New()}
	a.sp.SetLogger(strip.NewLogger(log.New(io.Discard, "", 0)))
	if opts {
		a.sp.Filter(static.ServeFilter(prefix, dir, opt))
	} else {
		a.sp.Filter(static.ServeFilter(prefix, dir))
	}
	a.sp.Filter(func(rw http.ResponseWriter) {
		a.next++
		rw.Header().Set("X-Next", "1")
		rw.WriteHeader(299)
		io.WriteString(rw, "next")
	})
	return a
}

// hooked runs f once the response begins.
type hooked struct {
	http.ResponseWriter
	f func()
}

func (w *hooked) once() {
	if f := w.f; f != nil {
		w.f = nil
		f()
	}
}
func (w *hooked) WriteHeader(c int)           { w.once(); w.ResponseWriter.WriteHeader(c) }
func (w *hooked) Write(b []byte) (int, error) { w.once(); return w.ResponseWriter.Write(b) }

type runner struct {
	t    *h.Trace
	r    *rand.Rand
	tree *tree
	apps []*app
	busy int
}

// serve sends one request; within runs while it is being answered
func (x *runner) serve(c int, method, target, part string, within func()) {
	req, err := http.ReadRequest(bufio.NewReader(strings.NewReader(method + " " + target + " HTTP/1.1\r\nHost: here.example\r\n\r\n")))
	if err != nil || req.URL.Path == "" || req.URL.Host != "" {
		return
	}
	if part != "" {
		req.Header.Set("Range", "bytes="+part)
	}
	in := h.M{"c": c + 1, "method": method, "path": split(req.URL.Path), "query": req.URL.RawQuery, "part": part}
	a := x.apps[c]
	before := a.next
	rec := httptest.NewRecorder()
	open := opened()
	x.busy++
	inner := 0
	w := &hooked{ResponseWriter: rec}
	if within != nil {
		w.f = func() { b := a.next; within(); inner += a.next - b }
	}
	if msg := h.Catch(func() { a.sp.ServeHTTP(w, req) }); msg != "" {
		x.t.Ev("panic", in, h.M{"what": msg})
		x.busy--
		return
	}
	x.busy--
	res := rec.Result()
	body, _ := io.ReadAll(res.Body)
	obs := h.M{"r": fmt.Sprintf("status %d", res.StatusCode), "c": "", "open": 0, "next": a.next - before - inner, "host": false, "query": "", "to": h.L{}, "part": ""}
	if x.busy == 0 {
		if n := opened() - open; n > 0 {
			obs["open"] = n
		}
	}
	switch {
	case res.StatusCode == 299 && string(body) == "next":
		obs["r"] = "pass"
	case res.StatusCode == 404:
		obs["r"] = "404"
	case res.StatusCode/100 == 3:
		loc, err := url.Parse(res.Header.Get("Location"))
		if err != nil || res.Header.Get("Location") == "" {
			break
		}
		u := &url.URL{Scheme: "http", Host: "here.example", Path: req.URL.Path, RawPath: req.URL.RawPath, RawQuery: req.URL.RawQuery}
		to := u.ResolveReference(loc)
		obs["r"], obs["host"], obs["query"], obs["to"] = "redirect", to.Host == "here.example" && to.Scheme == "http", to.RawQuery, split(to.Path)
	case res.StatusCode == 200 || res.StatusCode == 206:
		obs["c"] = "unknown content"
		if res.StatusCode == 206 {
			obs["part"] = part
		}
		obs["r"] = "content"
		for n, full := range contents {
			want := full
			if res.StatusCode == 206 {
				var from, to int
				fmt.Sscanf(part, "%d-%d", &from, &to)
				if to >= len(full) {
					continue
				}
				want = full[from : to+1]
				if res.Header.Get("Content-Range") != fmt.Sprintf("bytes %s/%d", part, len(full)) {
					continue
				}
			}
			if method == "HEAD" {
				if len(body) == 0 && res.Header.Get("Content-Length") == strconv.Itoa(len(want)) && (res.StatusCode == 200 || true) {
					obs["c"] = n
				}
			} else if string(body) == want && res.Header.Get("Content-Length") == strconv.Itoa(len(want)) {
				obs["c"] = n
			}
		}
	}
	x.t.Ev("serve", in, obs)
}

func split(s string) h.L {
	l := h.L{}
	for _, p := range strings.Split(s, "/") {
		l = append(l, p)
	}
	return l
}

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

func (x *runner) add(prefix string, opt static.StaticOption, opts bool) {
	dir := x.tree.dir
	switch x.r.Intn(4) {
	case 0:
		dir += "/"
	case 1:
		if rel, err := filepath.Rel(base, dir); err == nil {
			dir = rel
		}
	case 2:
		dir = filepath.Dir(dir) + "/./x/../" + filepath.Base(dir)
	}
	skip := h.L{}
	for _, s := range opt.SkipPrefix {
		skip = append(skip, s)
	}
	fs := x.t.Cfg["filters"].(h.L)
	x.t.Cfg["filters"] = append(fs, h.M{"prefix": split(prefix), "any": opt.AnyMethod, "try": split(opt.TryFilesThen), "skip": skip})
	x.apps = append(x.apps, newApp(x.tree, prefix, opt, opts, dir))
}

func (x *runner) target() string {
	r := x.r
	p := ""
	switch r.Intn(8) {
	case 0, 1, 2, 3, 4: // near something that is there
		var ps []string
		for f := range x.tree.files {
			ps = append(ps, f)
		}
		ps = append(ps, x.tree.dirs...)
		sortStrings(ps)
		p = ps[r.Intn(len(ps))]
	default:
		for n := 0; n < 1+r.Intn(4); n++ {
			p += "/" + pick(r, append([]string{"", ".", "..", "secret.txt", "www2", "root", "skip"}, names...)...)
		}
	}
	switch r.Intn(8) {
	case 0:
		p += "/"
	case 1:
		p = pick(r, "/", "/.", "/a/..", "/nothing/..", "/..") + p
	case 2:
		p += pick(r, "/.", "/..", "//", "/./", "/../", "x", "/index.html", "\x00", "/x")
	case 3:
		p = strings.Replace(p, "/", pick(r, "//", "/./", "/zz/../"), 1)
	case 4:
		p = "//evil.com/.." + p
	}
	if n := len(x.apps); n > 0 && r.Intn(2) == 0 {
		f := x.t.Cfg["filters"].(h.L)[r.Intn(n)].(h.M)
		pre := ""
		for _, s := range f["prefix"].(h.L) {
			if s != "" {
				pre += "/" + s.(string)
			}
		}
		if n := strings.ToUpper(pre); n != pre && r.Intn(10) == 0 {
			pre = n
		}
		p = pre + p
	}
	if p == "" {
		p = "/"
	}
	return x.encode(p)
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func (x *runner) encode(p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		c := p[i]
		if c == '/' && (i == 0 || x.r.Intn(20) > 0) {
			b.WriteByte(c)
		} else if c <= ' ' || c >= 127 || strings.IndexByte("%?#\\\"<>", c) >= 0 || x.r.Intn(12) == 0 {
			fmt.Fprintf(&b, "%%%02X", c)
		} else {
			b.WriteByte(c)
		}
	}
	if x.r.Intn(5) == 0 {
		b.WriteString(pick(x.r, "?", "?a=1", "?x=/../..&y=%2f", "?//evil.com"))
	}
	return b.String()
}

func (x *runner) method() string {
	return pick(x.r, "GET", "GET", "GET", "GET", "HEAD", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "get")
}

func (x *runner) one(depth int) {
	c := x.r.Intn(len(x.apps))
	m := x.method()
	part := ""
	if m == "GET" && !x.tree.empty && x.r.Intn(6) == 0 {
		part = pick(x.r, "0-5", "3-12")
	}
	var within func()
	if depth < 2 && x.r.Intn(5) == 0 {
		within = func() { x.one(depth + 1) }
	}
	x.serve(c, m, x.target(), part, within)
}

func main() {
	h.Main(h.Area{
		N: func(c *h.Ctx) int {
			build(rand.New(rand.NewSource(c.Seed)))
			return len(c.Scen) + c.Pick(900, 20000)
		},
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			x := &runner{t: t, r: t.R}
			t.Cfg = h.M{"filters": h.L{}}
			if i < len(c.Scen) {
				t.Src = "tlc"
				x.tree = trees[0]
				x.cfgTree()
				for _, p := range []string{"", "a", "/www/"} {
					x.add(p, static.StaticOption{}, false)
					x.add(p, static.StaticOption{TryFilesThen: "f.txt", SkipPrefix: []string{"/a"}}, true)
				}
				x.add("", static.StaticOption{AnyMethod: true, TryFilesThen: "../secret.txt"}, true)
				var segs []string
				check(json.Unmarshal(c.Scen[i], &segs))
				for k := range x.apps {
					x.serve(k, pick(t.R, "GET", "GET", "HEAD", "POST"), x.encode(strings.Join(segs, "/")), "", nil)
				}
				return
			}
			t.Src = "random"
			x.tree = trees[t.R.Intn(len(trees))]
			x.cfgTree()
			for n := 0; n < 1+t.R.Intn(2); n++ {
				opt := static.StaticOption{AnyMethod: t.R.Intn(3) == 0}
				switch t.R.Intn(3) {
				case 0:
					var fs []string
					for f := range x.tree.files {
						fs = append(fs, f)
					}
					sortStrings(fs)
					opt.TryFilesThen = fs[t.R.Intn(len(fs))]
					if t.R.Intn(2) == 0 {
						opt.TryFilesThen = opt.TryFilesThen[1:]
					}
				case 1:
					opt.TryFilesThen = pick(t.R, "missing", "../secret.txt", "")
				}
				for k := 0; k < t.R.Intn(3); k++ {
					opt.SkipPrefix = append(opt.SkipPrefix, pick(t.R, "/skip", "/a", "/f", "/b/", "//", "/.", "x"))
				}
				x.add(pick(t.R, "", "", "/", "p", "/p", "/p/", "p/q", "a", "//p", "p//", "/p/q///", "Ünï"), opt, t.R.Intn(5) > 0 || n > 0 || opt.AnyMethod || opt.TryFilesThen != "" || len(opt.SkipPrefix) > 0)
			}
			for n := 0; n < 4+t.R.Intn(12); n++ {
				x.one(0)
			}
		},
	})
	os.RemoveAll(base)
}

func (x *runner) cfgTree() {
	fs := h.M{"_": ""}
	for p, n := range x.tree.files {
		fs[p] = n
	}
	ds := h.L{}
	for _, d := range x.tree.dirs {
		ds = append(ds, d)
	}
	x.t.Cfg["files"], x.t.Cfg["dirs"] = fs, ds
}
