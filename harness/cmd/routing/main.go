// Driver for C01-C04: registers generated route trees and serves generated
// requests on the real application, recording what was registered, what was
// asked and what ran.
package main

import (
	"encoding/json"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/inject"

	"verif/h"
)

type Meth struct {
	M       string   `json:"m"`
	Act     string   `json:"act"`
	Ctl     bool     `json:"ctl"`
	Meths   []string `json:"meths"`
	Custom  string   `json:"custom"`
	Filters []string `json:"filters"`
	Exempts []string `json:"exempts"`
	kind    int
}

type Node struct {
	Path    string   `json:"path"`
	Parts   []string `json:"parts"`
	Filters []string `json:"filters"`
	Exempts []string `json:"exempts"`
	Methods []Meth   `json:"methods"`
	Subs    []*Node  `json:"subs"`
}

func newNode(p string) *Node {
	return &Node{Path: p, Parts: strings.Split(strings.TrimSpace(p), "/"), Filters: []string{}, Exempts: []string{}, Methods: []Meth{}, Subs: []*Node{}}
}

func fn(m, act string) Meth {
	return Meth{M: m, Act: act, Meths: []string{}, Filters: []string{}, Exempts: []string{}}
}

type obsKey struct{}

// the observation of the request being served (requests are sequential here)
type seen struct {
	act, meth, path string
	params          [][]string
	log             []string
	n               int
}

var cur *seen

func ran(act, meth string, info *strip.RouteInfo) {
	cur.n++
	cur.act, cur.meth = act, meth
	if info == nil {
		return
	}
	cur.path = info.Path
	for _, k := range info.Keys {
		cur.params = append(cur.params, []string{k, info.Values.Get(k)})
	}
	for k, v := range info.Values {
		if len(v) != 1 {
			cur.params = append(cur.params, append([]string{"*multi*" + k}, v...))
		}
		has := false
		for _, kk := range info.Keys {
			has = has || kk == k
		}
		if !has {
			cur.params = append(cur.params, []string{"*extra*" + k, v[0]})
		}
	}
}

// Controllers of several shapes.  Act tells declarations apart.
type Base struct {
	Act  string
	Rw   http.ResponseWriter `inject`
	Info *strip.RouteInfo    `inject`
}

func (b *Base) hit(m string) {
	ran(b.Act, m, b.Info)
	b.Rw.WriteHeader(200)
}

type C0 struct{ Base }

func (c *C0) Get() { c.hit("Get") }

type C1 struct{ Base }

func (c *C1) Get()    { c.hit("Get") }
func (c *C1) Post()   { c.hit("Post") }
func (c *C1) Delete() { c.hit("Delete") }
func (c *C1) Show()   { c.hit("Show") }

type C2 struct{ Base }

func (c *C2) Head() { c.hit("Head") }
func (c *C2) Get()  { c.hit("Get") }
func (c *C2) All()  { c.hit("All") }
func (c *C2) Show() { c.hit("Show") }

type C3 struct{ Base }

func (c *C3) Any()                 { c.hit("Any") }
func (c *C3) Put(a string)         { c.hit("Put") }
func (c *C3) Show(a string, b int) { c.hit("Show") }

type C4 struct{ Base }

func (c *C4) All(a string, b string) { c.hit("All") }
func (c *C4) Get(a string)           { c.hit("Get") }
func (c *C4) Post()                  { c.hit("Post") }
func (c *C4) Any()                   { c.hit("Any") }

type C5 struct{ Base } // value receivers

func (c C5) Get()     { c.hit("Get") }
func (c C5) Patch()   { c.hit("Patch") }
func (c C5) Options() { c.hit("Options") }
func (c C5) Trace()   { c.hit("Trace") }
func (c C5) Connect() { c.hit("Connect") }

var shapes = []struct {
	meths []string
	mk    func(act string) interface{}
}{
	{[]string{"Get"}, func(a string) interface{} { return &C0{Base{Act: a}} }},
	{[]string{"Get", "Post", "Delete", "Show"}, func(a string) interface{} { return &C1{Base{Act: a}} }},
	{[]string{"Head", "Get", "All", "Show"}, func(a string) interface{} { return &C2{Base{Act: a}} }},
	{[]string{"Any", "Put", "Show"}, func(a string) interface{} { return C3{Base{Act: a}} }},
	{[]string{"All", "Get", "Post", "Any"}, func(a string) interface{} { return &C4{Base{Act: a}} }},
	{[]string{"Get", "Patch", "Options", "Trace", "Connect"}, func(a string) interface{} { return C5{Base{Act: a}} }},
}

var notHandlers = []interface{}{7, "Get", []string{"Get"}, map[string]int{"Get": 1}, true, new(int), make(chan int), 'x'}

var declare = map[string]func(strip.Handler) strip.MethodHandler{
	"GET": strip.Get, "POST": strip.Post, "PUT": strip.Put, "HEAD": strip.Head, "DELETE": strip.Delete,
	"OPTIONS": strip.Options, "PATCH": strip.Patch, "TRACE": strip.Trace, "CONNECT": strip.Connect,
	"*": strip.All, "**": strip.Any,
}

type world struct {
	sp        *strip.Strip
	filters   map[string]interface{}
	decoys    bool
	subsFirst bool
}

func (w *world) filter(id string) interface{} {
	if f, ok := w.filters[id]; ok {
		return f
	}
	var f interface{}
	if strings.HasSuffix(id, "p") { // with an injected argument
		f = func(rw http.ResponseWriter) { cur.log = append(cur.log, id) }
	} else {
		f = func() { cur.log = append(cur.log, id) }
	}
	switch len(w.filters) % 5 {
	case 1, 3: // made for every request
		plain := f
		mk := func() inject.Provider {
			n := 0
			return func(ctx strip.Context) {
				if n++; n > 1 {
					cur.log = append(cur.log, "used")
				}
				if _, err := ctx.Invoke(plain); err != nil {
					panic(err)
				}
			}
		}
		if f = mk; len(w.filters)%5 == 3 {
			f = strip.FilterFunc(mk)
		}
	}
	w.filters[id] = f
	return f
}

func (w *world) fs(ids []string) (r []interface{}) {
	for _, id := range ids {
		r = append(r, w.filter(id))
	}
	return
}

func (w *world) handlers(n *Node, split bool) (hs []strip.Handler) {
	if len(w.filters)%3 == 2 { // a name changes nothing
		hs = append(hs, strip.Name("name"))
	}
	if split { // several Filter declarations instead of one
		for _, f := range n.Filters {
			hs = append(hs, strip.Filter(w.filter(f)))
		}
	} else if len(n.Filters) > 0 {
		hs = append(hs, strip.Filter(w.fs(n.Filters)...))
	}
	if split {
		for _, f := range n.Exempts {
			hs = append(hs, strip.Exempt(w.filter(f)))
		}
	} else if len(n.Exempts) > 0 {
		hs = append(hs, strip.Exempt(w.fs(n.Exempts)...))
	}
	for _, m := range n.Methods {
		m := m
		var mh strip.MethodHandler
		if m.kind < 0 { // not a handler at all
			mh = declare[m.M](notHandlers[-1-m.kind])
		} else if m.Ctl {
			mh = declare[m.M](shapes[m.kind].mk(m.Act))
		} else {
			mh = declare[m.M](func(rw http.ResponseWriter, info *strip.RouteInfo) {
				ran(m.Act, "", info)
				rw.WriteHeader(200)
			})
		}
		decoy := func(from strip.MethodHandler) { // another one derived from the same
			if m.kind >= 0 && w.decoys {
				from.Filter(w.filter("f9"))
				from.Exempt(w.filter("f1"))
			}
		}
		if m.Custom != "" {
			decoy(mh)
			mh = mh.Action(m.Custom)
		}
		if len(m.Filters) > 0 {
			was := mh
			if split {
				for _, f := range m.Filters {
					mh = mh.Filter(w.filter(f))
				}
			} else {
				mh = mh.Filter(w.fs(m.Filters)...)
			}
			decoy(was)
		}
		if len(m.Exempts) > 0 {
			was := mh
			if split {
				for _, f := range m.Exempts {
					mh = mh.Exempt(w.filter(f))
				}
			} else {
				mh = mh.Exempt(w.fs(m.Exempts)...)
			}
			decoy(was)
		}
		hs = append(hs, mh)
	}
	for _, s := range n.Subs {
		hs = append(hs, strip.Router(s.Path, w.handlers(s, split)...))
	}
	if w.subsFirst { // the order of the kinds of declarations is of no account
		k := len(hs) - len(n.Subs)
		hs = append(append([]strip.Handler{}, hs[k:]...), hs[:k]...)
	}
	return
}

func (w *world) reg(t *h.Trace, n *Node) bool {
	w.decoys = t.R.Intn(3) == 0
	w.subsFirst = t.R.Intn(3) == 0
	msg := h.Catch(func() { w.sp.Routers(w.handlers(n, t.R.Intn(2) == 0)...) })
	b, _ := json.Marshal(n)
	var raw map[string]interface{}
	json.Unmarshal(b, &raw)
	t.Ev("reg", h.M{"tree": raw}, h.M{"panic": msg != ""})
	return msg == ""
}

func (w *world) req(t *h.Trace, path, method string) {
	cur = &seen{params: [][]string{}, log: []string{}}
	rec := httptest.NewRecorder()
	req := &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}, Host: "x"}
	msg := h.Catch(func() { w.sp.ServeHTTP(rec, req) })
	found := cur.n == 1 && rec.Code == 200
	if cur.n == 0 && rec.Code != 404 || cur.n > 1 || cur.n == 1 && rec.Code != 200 {
		msg += "!status or run count"
	}
	t.Ev("req", h.M{"path": path, "parts": strings.Split(strings.TrimSpace(path), "/"), "method": method},
		h.M{"found": found, "act": cur.act, "meth": cur.meth, "path": cur.path,
			"params": cur.params, "log": cur.log, "panic": msg})
}

func newWorld() *world {
	w := &world{sp: strip.New(), filters: map[string]interface{}{}}
	w.sp.SetLogger(strip.NewLogger(log.New(io.Discard, "", 0)))
	return w
}

// ------------------------------------------------------------ generators

type gen struct {
	*h.Trace
	seg   []string // literal alphabet
	verbs []string
	n     int
}

func (g *gen) id() string { g.n++; return "a" + string(rune('0'+g.n/10)) + string(rune('0'+g.n%10)) }

func (g *gen) lit() string { return g.seg[g.R.Intn(len(g.seg))] }

// pattern: random legal-looking segments; names by depth so that conflicts are rare
func (g *gen) pattern(max int, conflict bool) []string {
	n := 1 + g.R.Intn(max)
	if g.R.Intn(40) == 0 {
		n = 5 + g.R.Intn(6)
	}
	var p []string
	for i := 0; i < n; i++ {
		name := "p" + string(rune('0'+i))
		if conflict && g.R.Intn(6) == 0 {
			// names are texts: neither case nor a common prefix makes two of them one
			name = h.Pick(g.R, "q"+name[1:], "q"+name[1:], "P"+name[1:], name+"x", name[:1])
		}
		switch x := g.R.Intn(10); {
		case x < 5:
			l := g.lit()
			if g.R.Intn(12) == 0 {
				l = strings.ToUpper(l)
			}
			p = append(p, l)
		case x < 7:
			p = append(p, ":"+name)
		case x < 8:
			p = append(p, ":"+name+h.Pick(g.R, g.verbs...))
		case x < 9 && (i == n-1 || conflict && g.R.Intn(4) == 0):
			w := "w"
			if conflict && g.R.Intn(4) == 0 {
				w = h.Pick(g.R, "v", "v", "W", "ww")
			}
			p = append(p, "*:"+w)
		default:
			p = append(p, g.lit())
		}
	}
	return p
}

// noisy textual form of segments
func (g *gen) noisy(segs []string, lead bool) string {
	var b strings.Builder
	if g.R.Intn(8) == 0 {
		b.WriteString(h.Pick(g.R, " ", "\t", "  "))
	}
	if lead || g.R.Intn(2) == 0 {
		b.WriteString("/")
	}
	for i, s := range segs {
		switch g.R.Intn(14) {
		case 0:
			b.WriteString("/")
		case 1:
			b.WriteString("./")
		case 2:
			b.WriteString("zz/../")
		}
		if i > 0 && b.Len() > 0 && !strings.HasSuffix(b.String(), "/") {
			b.WriteString("/")
		}
		b.WriteString(s)
		if i < len(segs)-1 {
			b.WriteString("/")
		}
	}
	switch g.R.Intn(18) {
	case 0, 1, 2:
		b.WriteString("/")
	case 3:
		b.WriteString("/.")
	case 4:
		b.WriteString("/zz/..")
	}
	if g.R.Intn(10) == 0 {
		b.WriteString(h.Pick(g.R, " ", "\n"))
	}
	return b.String()
}

// a request related to the registered patterns
func (g *gen) reqSegs(pats [][]string) []string {
	var segs []string
	val := func() string {
		return h.Pick(g.R, "u1", "x.y", "a b", "%41", "q-1", "é", g.lit(), ":p0", "*", strings.Repeat("z", 70), g.lit()+g.verbs[0])
	}
	if len(pats) > 0 && g.R.Intn(8) != 0 {
		p := pats[g.R.Intn(len(pats))]
		for _, s := range p {
			switch {
			case strings.HasPrefix(s, "*:"):
				k := g.R.Intn(3)
				if g.R.Intn(12) == 0 {
					k = 3 + g.R.Intn(20)
				}
				for ; k >= 0; k-- {
					segs = append(segs, val())
				}
			case strings.HasPrefix(s, ":"):
				verb := ""
				if i := strings.Index(s[1:], ":"); i >= 0 {
					verb = s[1+i:]
				}
				v := val()
				if verb != "" && g.R.Intn(8) == 0 {
					v = ""
				}
				segs = append(segs, v+verb)
			default:
				segs = append(segs, s)
			}
		}
		if len(segs) > 0 { // mutate
			switch g.R.Intn(6) {
			case 0:
				segs[g.R.Intn(len(segs))] = val()
			case 1:
				segs = segs[:len(segs)-1]
			case 2:
				segs = append(segs, val())
			case 3:
				segs[g.R.Intn(len(segs))] = g.lit()
			case 4: // another case is another text
				if i := g.R.Intn(len(segs)); g.R.Intn(3) == 0 {
					segs[i] = strings.ToUpper(segs[i])
				}
			}
		}
		return segs
	}
	for k := g.R.Intn(5); k > 0; k-- {
		segs = append(segs, val())
	}
	return segs
}

// insert a pattern into a registration tree, grouping common prefixes at random
func (g *gen) tree(pats [][]string, m func() []Meth) *Node {
	root := newNode("")
	for _, p := range pats {
		at := root
		rest := p
		for len(rest) > 0 {
			var next *Node
			if g.R.Intn(2) == 0 {
				for _, s := range at.Subs {
					ss := segsOf(s.Path)
					if len(ss) <= len(rest) && strings.Join(ss, "/") == strings.Join(rest[:len(ss)], "/") {
						next = s
						rest = rest[len(ss):]
						break
					}
				}
			}
			if next == nil {
				k := len(rest)
				if g.R.Intn(3) == 0 {
					k = 1 + g.R.Intn(len(rest))
				}
				next = newNode(g.noisy(rest[:k], false))
				at.Subs = append(at.Subs, next)
				rest = rest[k:]
			}
			at = next
		}
		at.Methods = append(at.Methods, m()...)
	}
	return root
}

func segsOf(p string) []string {
	var out []string
	for _, s := range strings.Split(strings.TrimSpace(p), "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return out
}

func allPats(n *Node, at []string, out *[][]string) {
	for _, s := range n.Subs {
		p := append(append([]string{}, at...), segsOf(s.Path)...)
		*out = append(*out, p)
		allPats(s, p, out)
	}
}

func c01(c *h.Ctx, i int, t *h.Trace) {
	g := &gen{Trace: t, seg: h.Pick(t.R, []string{"a", "b"}, []string{"a", "b", "c"}, []string{"user", "settings", "v1", "x", "a:b"}),
		verbs: h.Pick(t.R, []string{":do"}, []string{":do", ":undo2"}, []string{":do", ":do:it"}, []string{":go:now"})}
	w := newWorld()
	var pats [][]string
	calls := 1 + t.R.Intn(3)
	for k := 0; k < calls; k++ {
		var ps [][]string
		for n := 1 + t.R.Intn(4); n > 0; n-- {
			ps = append(ps, g.pattern(4, c.Prop == "C02"))
		}
		if c.Prop == "C02" && len(pats) > 0 && t.R.Intn(2) == 0 { // declare a known pattern again
			ps = append(ps, pats[t.R.Intn(len(pats))])
		}
		root := g.tree(ps, func() []Meth {
			ms := []Meth{fn("GET", g.id())}
			if c.Prop == "C02" {
				ms = []Meth{fn(h.Pick(t.R, "GET", "POST", "*", "PUT", "**"), g.id())}
			}
			return ms
		})
		if t.R.Intn(4) == 0 {
			root.Methods = append(root.Methods, fn("GET", g.id()))
		}
		if c.Prop == "C02" && t.R.Intn(25) == 0 {
			root.Subs = append(root.Subs, newNode(h.Pick(t.R, "", "/", " ", " / ")))
		}
		if !w.reg(t, root) {
			return
		}
		allPats(root, nil, &pats)
		if k == calls-1 || t.R.Intn(2) == 0 {
			for n := c.Pick(8, 16); n > 0; n-- {
				m := "GET"
				if c.Prop == "C02" {
					m = h.Pick(t.R, "GET", "POST", "PUT", "HEAD", "DELETE")
				}
				w.req(t, g.noisy(g.reqSegs(pats), t.R.Intn(12) != 0), m)
			}
		}
	}
}

// scenario generated by TLC: a sequence of patterns; every small request
func scen(c *h.Ctx, raw json.RawMessage, t *h.Trace) {
	var s struct {
		Routes [][]string `json:"routes"`
		Reqs   [][]string `json:"reqs"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		panic(err)
	}
	t.Src = "tlc"
	w := newWorld()
	for i, p := range s.Routes {
		for j := range p { // parameters of one pattern have distinct names
			p[j] = strings.Replace(p[j], ":x", ":x"+string(rune('0'+j)), 1)
		}
		root := newNode("")
		n := newNode("/" + strings.Join(p, "/"))
		n.Methods = []Meth{fn("GET", "a"+string(rune('a'+i)))}
		root.Subs = []*Node{n}
		if !w.reg(t, root) {
			return
		}
	}
	for _, r := range s.Reqs {
		w.req(t, "/"+strings.Join(r, "/"), "GET")
	}
}

func (g *gen) meth(filters []string) Meth {
	m := fn(h.Pick(g.R, "GET", "GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "*", "*", "**"), g.id())
	if g.R.Intn(2) == 0 {
		g.ctl(&m)
	}
	return m
}

// ctl makes the handler a controller, legally declared
func (g *gen) ctl(m *Meth) {
	m.Ctl = true
	m.kind = g.R.Intn(len(shapes))
	m.Meths = shapes[m.kind].meths
	if g.R.Intn(3) == 0 {
		m.Custom = m.Meths[g.R.Intn(len(m.Meths))]
	}
	// only legal declarations
	need := map[string]string{"**": "Any", "*": ""}[m.M]
	if m.M != "*" && m.M != "**" {
		need = m.M[:1] + strings.ToLower(m.M[1:])
	}
	if m.Custom == "" && need != "" {
		ok := false
		for _, x := range m.Meths {
			ok = ok || x == need
		}
		if !ok {
			m.Custom = m.Meths[g.R.Intn(len(m.Meths))]
		}
	}
}

var titles = map[string]string{"GET": "Get", "POST": "Post", "PUT": "Put", "HEAD": "Head", "DELETE": "Delete", "OPTIONS": "Options",
	"PATCH": "Patch", "TRACE": "Trace", "CONNECT": "Connect", "**": "Any"}

// a declaration of an action its handler does not have
func (g *gen) lack() Meth {
	m := fn(h.Pick(g.R, "GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "*"), g.id())
	switch g.R.Intn(5) {
	case 0: // a function has no actions
		m.Custom = h.Pick(g.R, "Get", "Show", "All", "Any", "x")
	case 1:
		m.Ctl = true
		m.kind = -1 - g.R.Intn(len(notHandlers))
		m.Custom = "Show"
	default:
		m.Ctl = true
		m.kind = g.R.Intn(len(shapes))
		m.Meths = shapes[m.kind].meths
		has := func(a string) bool {
			for _, x := range m.Meths {
				if x == a {
					return true
				}
			}
			return false
		}
		if t := titles[m.M]; t == "" || has(t) || g.R.Intn(2) == 0 {
			for m.Custom = m.Meths[0]; has(m.Custom); {
				m.Custom = h.Pick(g.R, "Get", "Post", "Put", "Show", "All", "Any", "List", "get", "show", "hit", "Act", "Rw", "GET", "Base")
			}
		}
	}
	return m
}

func c03(c *h.Ctx, i int, t *h.Trace) {
	g := &gen{Trace: t, seg: []string{"a", "b"}, verbs: []string{":do"}}
	w := newWorld()
	pats := [][]string{{"a"}, {"b", ":p1"}, {}}
	for k := 1 + t.R.Intn(3); k > 0; k-- {
		root := newNode("")
		for _, p := range pats {
			at := root
			if len(p) > 0 {
				if t.R.Intn(3) == 0 {
					continue
				}
				at = newNode("/" + strings.Join(p, "/"))
				root.Subs = append(root.Subs, at)
			}
			for n := t.R.Intn(5); n > 0; n-- {
				at.Methods = append(at.Methods, g.meth(nil))
			}
			if t.R.Intn(14) == 0 {
				at.Methods = append(at.Methods, g.lack())
			}
			if t.R.Intn(20) == 0 && len(at.Methods) == 0 { // a catch-all of a controller without Any
				m := fn("**", g.id())
				m.Ctl, m.kind, m.Meths = true, 1, shapes[1].meths
				at.Methods = append(at.Methods, m)
			}
		}
		if !w.reg(t, root) {
			return
		}
		for _, p := range []string{"/a", "/b/7", "/"} {
			for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "SHOW", "ALL", "ANY", "XYZ"} {
				if t.R.Intn(2) == 0 {
					continue
				}
				switch t.R.Intn(4) {
				case 0:
					m = strings.ToLower(m)
				case 1:
					m = m[:1] + strings.ToLower(m[1:])
				}
				w.req(t, p, m)
			}
		}
	}
}

func c04(c *h.Ctx, i int, t *h.Trace) {
	g := &gen{Trace: t, seg: []string{"a", "b", "c"}, verbs: []string{":do"}}
	w := newWorld()
	pool := []string{"f1", "f2", "f3", "f4p", "f5", "f6p", "f7", "f8"}[:3+t.R.Intn(6)]
	pick := func(max int) []string {
		out := []string{}
		for n := t.R.Intn(max + 1); n > 0; n-- {
			out = append(out, pool[t.R.Intn(len(pool))])
		}
		return out
	}
	if t.R.Intn(2) == 0 {
		ids := pick(3)
		if t.R.Intn(4) == 0 { // another application's, which goes on by itself
			other := strip.New()
			other.Filter(w.fs(ids)...)
			w.sp.Filter(w.fs(pick(2))...)
			strip.ReplaceFilters(w.sp, other)
			later := pick(3)
			w.sp.Filter(w.fs(later)...)
			other.Filter(w.filter("f9"))
			ids = append(ids, later...)
		} else {
			w.sp.Filter(w.fs(ids)...)
		}
		t.Ev("filter", h.M{"ids": ids}, nil)
	}
	var build func(depth int, path string) *Node
	build = func(depth int, path string) *Node {
		n := newNode(path)
		n.Filters = pick(4)
		n.Exempts = pick(2)
		if t.R.Intn(2) == 0 {
			n.Exempts = []string{}
		}
		ms := []string{"GET", "POST", "PUT", "DELETE", "*", "**"}
		t.R.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		for _, m := range ms[:t.R.Intn(4)] {
			d := fn(m, g.id())
			if t.R.Intn(3) == 0 {
				g.ctl(&d)
			}
			d.Filters = pick(3)
			if t.R.Intn(2) == 0 {
				d.Exempts = pick(2)
			}
			n.Methods = append(n.Methods, d)
		}
		if depth > 0 {
			segs := []string{"a", "b", ":p" + string(rune('0'+depth)), "c/d"}
			for _, s := range segs[:t.R.Intn(len(segs)+1)] {
				n.Subs = append(n.Subs, build(depth-1, s))
			}
		}
		return n
	}
	for k := 1 + t.R.Intn(2); k > 0; k-- {
		root := build(2+t.R.Intn(2), "")
		if !w.reg(t, root) {
			return
		}
		if t.R.Intn(3) == 0 {
			ids := pick(2)
			w.sp.Filter(w.fs(ids)...)
			t.Ev("filter", h.M{"ids": ids}, nil)
		}
		var pats [][]string
		pats = append(pats, []string{})
		allPats(root, nil, &pats)
		if len(pats) > 24 {
			t.R.Shuffle(len(pats), func(i, j int) { pats[i], pats[j] = pats[j], pats[i] })
			pats = pats[:24]
		}
		for _, p := range pats {
			segs := make([]string, len(p))
			for i, s := range p {
				segs[i] = s
				if s[0] == ':' {
					segs[i] = "zz"
				}
			}
			for _, m := range []string{"GET", "POST", "PUT"}[:1+t.R.Intn(3)] {
				w.req(t, "/"+strings.Join(segs, "/"), m)
			}
		}
	}
}

func main() {
	h.Main(h.Area{
		N: func(c *h.Ctx) int {
			n := map[string][2]int{"C01": {900, 12000}, "C02": {900, 12000}, "C03": {500, 8000}, "C04": {400, 6000}}[c.Prop]
			return len(c.Scen) + c.Pick(n[0], n[1])
		},
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			if i < len(c.Scen) {
				scen(c, c.Scen[i], t)
				return
			}
			t.Src = "random"
			switch c.Prop {
			case "C01", "C02":
				c01(c, i, t)
			case "C03":
				c03(c, i, t)
			case "C04":
				c04(c, i, t)
			}
		},
	})
}
