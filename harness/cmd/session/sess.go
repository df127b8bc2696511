package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/globalsign/mgo/bson"
	"github.com/wujiu2020/strip/sessions"

	"verif/backs"
	"verif/h"
	"verif/vtime"
)

func show(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint(x)
	case int, int8, int16, int32, int64, uint8, uint16, uint32:
		return fmt.Sprintf("i:%d", x)
	case float32, float64:
		return fmt.Sprintf("f:%v", x)
	case string:
		return "s:" + strconv.QuoteToASCII(x)
	case []byte:
		return fmt.Sprintf("b:%x", x)
	case time.Time:
		return "t:" + strconv.FormatInt(x.UnixNano()/1e6, 10)
	case map[string]interface{}:
		return showMap(x)
	case bson.M:
		return showMap(x)
	case []interface{}:
		s := make([]string, len(x))
		for i := range x {
			s[i] = show(x[i])
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return fmt.Sprintf("?%T", v)
}

func showMap(m map[string]interface{}) string {
	var s []string
	for k, v := range m {
		s = append(s, strconv.QuoteToASCII(k)+"="+show(v))
	}
	sort.Strings(s)
	return "{" + strings.Join(s, " ") + "}"
}

func vals(m map[string]interface{}) h.M {
	r := h.M{"_": ""}
	for k, v := range m {
		r["k:"+k] = show(v)
	}
	return r
}

// attributes of a cookie that matter
func attrs(c *http.Cookie, secrets bool) string {
	if c.MaxAge < 0 {
		return fmt.Sprintf("deleted %s path=%s domain=%s", c.Name, c.Path, c.Domain)
	}
	return fmt.Sprintf("%s path=%s domain=%s http=%v secure=%v age=%d", c.Name, c.Path, c.Domain, c.HttpOnly, c.Secure, c.MaxAge)
}

type srunner struct {
	t       *h.Trace
	r       *rand.Rand
	b       *backs.Back
	mgr     *sessions.SessionManager
	foreign *sessions.SessionManager // other key, other store entry names
	prov    sessions.SessionProvider
	cfg     *sessions.CookieConfig
	exp     int
	base    time.Time
	now     int
	dls     []int
	tokens  map[string]string // cookie value -> token
	issued  []string          // values given out
	jars    map[string]string // client -> value
	who     []string          // client of each request
	reqs    []*http.Request
	objs    map[int]sessions.SessionStore
	nh      int
}

func (x *srunner) token(v string) string {
	u, err := url.QueryUnescape(v)
	if err != nil {
		u = "unescapable " + v
	}
	if x.tokens[u] == "" {
		x.tokens[u] = "v" + strconv.Itoa(len(x.tokens)+1)
	}
	return x.tokens[u]
}

func (x *srunner) ev(op string, in, obs h.M) {
	d := h.M{"r": 0, "h": 0, "fault": "", "s": 0, "k": "", "v": "", "ck": h.L{}, "vals": h.M{"_": ""}, "given": false}
	for k, v := range in {
		d[k] = v
	}
	x.t.Ev(op, d, obs)
}

func (x *srunner) clear(at int) bool {
	for _, d := range x.dls {
		if at > d-2 && at < d+2 {
			return false
		}
	}
	return true
}

func (x *srunner) adv(s int) {
	if !x.clear(x.now+s) || x.now+s > 1<<29 {
		return
	}
	x.now += s
	vtime.Advance(time.Duration(s) * time.Second)
	x.ev("adv", h.M{"s": s}, nil)
}

func (x *srunner) deadline() { x.dls = append(x.dls, x.now+x.exp) }

// request begins a request of a client with these cookies of the session name
func (x *srunner) request(who string, cookies ...string) int {
	r := httptest.NewRequest("GET", "/", nil)
	var hdr []string
	for i, c := range cookies {
		if i > 0 || x.r.Intn(4) == 0 {
			hdr = append(hdr, "other=1")
		}
		hdr = append(hdr, x.cfg.CookieName+"="+c)
	}
	if x.r.Intn(6) == 0 { // another cookie, whatever its name resembles
		hdr = append(hdr, pick(x.r, strings.ToLower(x.cfg.CookieName), x.cfg.CookieName+"2", "X"+x.cfg.CookieName)+"="+pick(x.r, "", "x", "00112233445566778899aabbccddeeff"))
	}
	if x.r.Intn(3) == 0 { // a browser with many cookies
		for n := 1 + x.r.Intn(7); n > 0; n-- {
			hdr = append(hdr, fmt.Sprintf("c%d=%d", n, n))
		}
	}
	if len(hdr) > 0 {
		r.Header.Set("Cookie", strings.Join(hdr, "; "))
	}
	// what the server will find
	var toks h.L = h.L{}
	for _, c := range r.Cookies() {
		if c.Name == x.cfg.CookieName {
			toks = append(toks, x.token(c.Value))
		}
	}
	x.reqs = append(x.reqs, r)
	x.who = append(x.who, who)
	x.ev("req", h.M{"r": len(x.reqs), "ck": toks}, nil)
	return len(x.reqs)
}

func (x *srunner) cookies(r int, w *httptest.ResponseRecorder) h.L {
	set := h.L{}
	for _, c := range w.Result().Cookies() {
		a := attrs(c, true)
		t := ""
		if c.MaxAge < 0 {
			delete(x.jars, x.who[r-1])
		} else {
			x.jars[x.who[r-1]] = c.Value
			x.issued = append(x.issued, c.Value)
			t = x.token(c.Value)
		}
		set = append(set, h.M{"at": a, "t": t})
	}
	return set
}

func (x *srunner) seconds(t time.Time) int {
	d := t.Sub(x.base)
	if t.IsZero() || d%time.Second != 0 {
		return -1
	}
	return int(d / time.Second)
}

// start, regen, mdestroy
func (x *srunner) manage(op string, r int, params map[string]interface{}, given bool, nf int, fault string) {
	w := httptest.NewRecorder()
	in := h.M{"r": r}
	if op != "mdestroy" {
		x.nh++
		in["h"] = x.nh
		x.deadline()
	}
	if given {
		in["given"], in["vals"] = true, vals(params)
	}
	x.b.Arm(nf, fault)
	var s sessions.SessionStore
	var at time.Time
	var err error
	msg := h.Catch(func() {
		switch op {
		case "start":
			s, at, err = x.mgr.Start(x.cfg, w, x.reqs[r-1])
		case "regen":
			if given {
				s, at, err = x.mgr.Regenerate(x.cfg, w, x.reqs[r-1], params)
			} else {
				s, at, err = x.mgr.Regenerate(x.cfg, w, x.reqs[r-1])
			}
		case "mdestroy":
			err = x.mgr.Destroy(x.cfg, w, x.reqs[r-1])
		}
	})
	in["fault"] = x.b.Happened(fault)
	if msg != "" {
		x.ev("panic", in, h.M{"in": op, "what": msg})
		return
	}
	obs := h.M{"err": err != nil, "set": x.cookies(r, w)}
	if op != "mdestroy" {
		obs["sid"], obs["vals"], obs["at"] = "", h.M{"_": ""}, 0
		if err == nil {
			x.objs[x.nh] = s
			obs["sid"], obs["vals"], obs["at"] = s.Sid(), vals(s.Values()), x.seconds(at)
		}
	}
	x.ev(op, in, obs)
}

// calls on a session object
func (x *srunner) object(op string, i int, k string, v interface{}, nf int, fault string) {
	s := x.objs[i]
	if s == nil {
		return
	}
	in := h.M{"h": i, "k": "k:" + k, "v": show(v)}
	obs := h.M{"_": 0}
	x.b.Arm(nf, fault)
	msg := h.Catch(func() {
		switch op {
		case "set":
			s.Set(k, v)
		case "del":
			s.Delete(k)
		case "clean":
			s.Clean()
		case "get":
			obs = h.M{"has": s.Has(k), "v": show(s.Get(k).Value()), "sid": s.Sid()}
		case "vals":
			m := s.Values()
			obs = h.M{"vals": vals(m)}
			m["intruder"] = 1 // the caller's copy
			for k := range m {
				m[k] = "spoilt"
			}
		case "flush":
			x.deadline()
			obs = h.M{"err": s.Flush() != nil}
		case "touch":
			x.deadline()
			obs = h.M{"err": s.Touch() != nil}
		case "destroy":
			obs = h.M{"err": s.Destroy() != nil}
		}
	})
	in["fault"] = x.b.Happened(fault)
	if msg != "" {
		x.ev("panic", in, h.M{"in": op, "what": msg})
		return
	}
	x.ev(op, in, obs)
}

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

var sessKeys = []string{"uid", "a.b", "$set", "", "ключ", "UID", "_id"}

func anyVal(r *rand.Rand, deep bool) interface{} {
	switch r.Intn(10) {
	case 0:
		return r.Intn(100000)
	case 1:
		return -7
	case 2:
		return int64(1) << 40
	case 3:
		return r.Intn(2) == 0
	case 4:
		return 1.5
	case 5:
		if deep {
			return map[string]interface{}{"x": anyVal(r, false), "y": anyVal(r, false)}
		}
	case 6:
		if deep {
			return []interface{}{anyVal(r, false), "e"}
		}
	case 7:
		return []byte{0, 1, 255}
	case 8:
		return nil
	}
	return pick(r, "", "text", "日本", "a,b|c", strings.Repeat("long", 500))
}

// a cookie value an attacker or a stale client might send
func (x *srunner) odd() string {
	var v string
	if len(x.issued) > 0 {
		v = x.issued[x.r.Intn(len(x.issued))]
	}
	switch x.r.Intn(9) {
	case 0:
		return ""
	case 1:
		return "garbage"
	case 2:
		return "%zz"
	case 3: // another server's cookie
		w := httptest.NewRecorder()
		if _, _, err := x.foreign.Start(x.cfg, w, httptest.NewRequest("GET", "/", nil)); err == nil {
			if cs := w.Result().Cookies(); len(cs) > 0 {
				return cs[len(cs)-1].Value
			}
		}
	case 4, 5:
		return mutate(x.r, v)
	case 6:
		return url.QueryEscape(v)
	case 7:
		if len(v) > 4 {
			return v[:len(v)-4]
		}
	}
	return v
}

func (x *srunner) fault() (int, string) {
	if x.r.Intn(7) > 0 {
		return 0, ""
	}
	return []int{0, 0, 0, 1, 2, 3}[x.r.Intn(6)], pick(x.r, x.b.FaultKinds()...)
}

func (x *srunner) random(steps int) {
	r := x.r
	clients := []string{"A", "B"}
	for i := 0; i < steps; i++ {
		c := r.Intn(100)
		if len(x.reqs) == 0 {
			c = 0
		} else if len(x.objs) == 0 && c >= 40 {
			c = 20
		}
		req := len(x.reqs)
		if req > 1 && r.Intn(4) == 0 {
			req = 1 + r.Intn(req)
		}
		obj := x.nh
		if obj > 1 && r.Intn(3) == 0 {
			obj = 1 + r.Intn(obj)
		}
		if len(x.objs) > 0 && r.Intn(25) == 0 {
			x.failure(req, obj)
			continue
		}
		switch {
		case c < 18:
			who := clients[r.Intn(2)]
			var cs []string
			if v := x.jars[who]; v != "" && r.Intn(8) > 0 {
				cs = []string{v}
			}
			if r.Intn(4) == 0 {
				if r.Intn(2) == 0 {
					cs = append(cs, x.odd())
				} else {
					cs = append([]string{x.odd()}, cs...)
				}
			}
			x.request(who, cs...)
			if r.Intn(6) > 0 {
				x.manage("start", len(x.reqs), nil, false, 0, "")
			}
		case c < 26:
			n, f := x.fault()
			x.manage("start", req, nil, false, n, f)
		case c < 35:
			var m map[string]interface{}
			given := r.Intn(3) == 0
			if given && r.Intn(3) > 0 {
				m = map[string]interface{}{"from": anyVal(r, true)}
			}
			n, f := x.fault()
			if r.Intn(2) == 0 {
				n, f = r.Intn(4), pick(r, x.b.FaultKinds()...)
			}
			x.manage("regen", req, m, given, n, f)
		case c < 39:
			n, f := x.fault()
			x.manage("mdestroy", req, nil, false, n, f)
		case c < 54:
			if x.r.Intn(3) == 0 {
				x.alike(obj)
				continue
			}
			x.object("set", obj, sessKeys[r.Intn(len(sessKeys))], anyVal(r, true), 0, "")
		case c < 55:
			n, f := x.fault()
			x.b.Arm(n, f)
			var err error
			msg := h.Catch(func() { err = x.prov.GC() })
			x.ev("gc", h.M{"fault": x.b.Happened(f)}, h.M{"err": err != nil || msg != "", "stale": x.b.Stale()})
		case c < 60:
			x.object("get", obj, sessKeys[r.Intn(len(sessKeys))], nil, 0, "")
		case c < 61: // one without a back end
			x.nh++
			vs := map[string]interface{}{"from": anyVal(r, true), "uid": anyVal(r, true)}
			if r.Intn(2) == 0 {
				vs = nil
			}
			sid := "D" + strconv.Itoa(x.nh)
			x.ev("dummy", h.M{"h": x.nh, "k": sid, "vals": vals(vs)}, nil)
			x.objs[x.nh] = sessions.NewDummySessionStore(sid, vs)
			for _, op := range []string{"vals", "set", "vals", "get", "vals"}[r.Intn(3):] {
				x.object(op, x.nh, "uid", anyVal(r, true), 0, "")
			}
		case c < 64:
			x.object("vals", obj, "", nil, 0, "")
		case c < 68:
			x.object("del", obj, sessKeys[r.Intn(len(sessKeys))], nil, 0, "")
		case c < 70:
			x.object("clean", obj, "", nil, 0, "")
		case c < 84:
			n, f := x.fault()
			x.object("flush", obj, "", nil, n, f)
			if f != "" && r.Intn(3) > 0 { // once more
				x.object("flush", obj, "", nil, 0, "")
			}
		case c < 88:
			n, f := x.fault()
			x.object("touch", obj, "", nil, n, f)
		case c < 91:
			n, f := x.fault()
			x.object("destroy", obj, "", nil, n, f)
		default:
			s := []int{1, 5, x.exp / 2, x.exp + 3}[r.Intn(4)]
			if len(x.dls) > 0 && r.Intn(2) == 0 {
				s = x.dls[r.Intn(len(x.dls))] - x.now + []int{-2, 2}[r.Intn(2)]
			}
			if s > 0 {
				x.adv(s)
			}
		}
		if n := len(x.t.Evs); n > 0 && x.t.Evs[n-1]["op"] == "panic" {
			return
		}
	}
}

// alike saves a value, replaces it by one that prints the same, and saves again
func (x *srunner) alike(obj int) {
	k := sessKeys[x.r.Intn(len(sessKeys))]
	vs := [][]interface{}{{7, "7"}, {true, "true"}, {1.0, 1}, {"nil", nil}, {"<nil>", nil}, {"", nil}, {[]byte("[1]"), []interface{}{1}},
		{[]interface{}{"a b"}, []interface{}{"a", "b"}}, {0, false}, {"text", "Text"}}[x.r.Intn(10)]
	if x.r.Intn(2) == 0 {
		vs[0], vs[1] = vs[1], vs[0]
	}
	for _, v := range vs {
		x.object("set", obj, k, v, 0, "")
		x.object("flush", obj, "", nil, 0, "")
	}
	x.object("get", obj, k, nil, 0, "")
}

// a call that fails, once more, and what a later request finds
func (x *srunner) failure(req, obj int) {
	r := x.r
	x.object("set", obj, sessKeys[r.Intn(len(sessKeys))], anyVal(r, true), 0, "")
	f := pick(r, x.b.FaultKinds()...)
	before := x.jars[x.who[req-1]]
	switch r.Intn(5) {
	case 4: // of an empty one, without a failure
		x.object("flush", obj, "", nil, 0, "")
		x.object("clean", obj, "", nil, 0, "")
		x.object("flush", obj, "", nil, 0, "")
		x.manage("regen", req, nil, false, 0, "")
	case 0:
		x.object("flush", obj, "", nil, 0, f)
		x.object("flush", obj, "", nil, 0, "")
	case 1:
		x.object("flush", obj, "", nil, 0, "")
		x.object(pick(r, "touch", "destroy"), obj, "", nil, 0, f)
	case 2:
		x.object("flush", obj, "", nil, 0, "")
		x.manage("regen", req, nil, false, r.Intn(4), f)
	case 3:
		x.object("flush", obj, "", nil, 0, "")
		x.manage("regen", req, nil, false, r.Intn(4), f)
		x.manage("regen", req, nil, false, 0, "")
	}
	if v := x.jars[x.who[req-1]]; v != "" {
		x.manage("start", x.request(x.who[req-1], v), nil, false, 0, "")
	}
	if before != "" {
		x.manage("start", x.request(x.who[req-1], before), nil, false, 0, "")
	}
}

func newManager(w *backs.World, b *backs.Back, c sessions.Config, prefix string) (*sessions.SessionManager, sessions.SessionProvider) {
	var p sessions.SessionProvider
	var err error
	switch b.Kind {
	case "mc":
		p, err = sessions.NewMcProvider(sessions.McConfig{Config: c, KeyPrefix: prefix, Client: w.Mc})
	case "redis":
		p, err = sessions.NewRedisProvider(sessions.RedisConfig{Config: c, KeyPrefix: prefix, Client: w.Rd})
	default:
		p, err = sessions.NewMgoProvider(sessions.MgoConfig{Config: c, AutoExpire: b.Kind == "mongo-ttl", Connect: b.Connect})
	}
	if err != nil {
		panic(err)
	}
	return sessions.NewSessionManager(p), p
}

// a step of a behaviour generated from the specification
type step struct {
	op, client, fault string
}

func (x *srunner) replay(steps [][]string) {
	cur := map[string]int{}
	obj := map[string]int{}
	for i, s := range steps {
		op, who, fault := s[0], s[1], s[2]
		if fault == "before" {
			fault = pick(x.r, "error", "error", x.b.FaultKinds()[3%len(x.b.FaultKinds())])
			if fault == "late" {
				fault = "error"
			}
		}
		switch op {
		case "req":
			var cs []string
			if x.jars[who] != "" {
				cs = []string{x.jars[who]}
			}
			cur[who] = x.request(who, cs...)
		case "start", "regen", "mdestroy":
			if cur[who] == 0 {
				cur[who] = x.request(who)
			}
			nf := 0
			if op == "regen" {
				nf = x.r.Intn(4)
			}
			x.manage(op, cur[who], nil, false, nf, fault)
			if op != "mdestroy" && x.objs[x.nh] != nil {
				obj[who] = x.nh
			}
		case "adv":
			x.adv(map[string]int{"short": x.exp/2 + 1, "long": x.exp + 5}[who])
		case "set":
			x.object("set", obj[who], "k", "w"+strconv.Itoa(i), 0, "")
		default:
			x.object(op, obj[who], "k", nil, 0, fault)
		}
	}
	for _, who := range []string{"A", "B"} { // what everyone finds at the end
		var cs []string
		if x.jars[who] != "" {
			cs = []string{x.jars[who]}
		}
		x.manage("start", x.request(who, cs...), nil, false, 0, "")
	}
}

func sessionScenario(c *h.Ctx, i int, t *h.Trace, w *backs.World) {
	r := t.R
	kind := backs.Kinds[r.Intn(4)]
	if i < 3*len(c.Scen) {
		kind = backs.Kinds[i%3]
	}
	b := w.Use(kind)
	x := &srunner{t: t, r: r, b: b, tokens: map[string]string{}, jars: map[string]string{}, objs: map[int]sessions.SessionStore{}, base: vtime.Now()}
	defer func() { x.ev("rest", nil, h.M{"held": b.Held()}) }()
	x.exp = []int{10, 60, 3600, 86400 * 31}[r.Intn(4)]
	secret := pick(r, "secret", "k", "another long secret key with spaces")
	x.cfg = &sessions.CookieConfig{CookieName: pick(r, "SID", "DOMAIN_SESSION"), CookieSecure: r.Intn(2) == 0, CookieDomain: pick(r, "", "example.com"),
		CookieExpire: []int{-1, 0, 3600}[r.Intn(3)], CookieRememberName: "RM"}
	age := x.cfg.CookieExpire
	if age < 0 {
		age = 0
	}
	t.Cfg = h.M{"exp": x.exp, "back": kind, "ck": h.M{
		"new": fmt.Sprintf("%s path=/ domain=%s http=true secure=%v age=%d", x.cfg.CookieName, x.cfg.CookieDomain, x.cfg.CookieSecure, age),
		"del": fmt.Sprintf("deleted %s path=/ domain=%s", x.cfg.CookieName, x.cfg.CookieDomain)}}
	x.mgr, x.prov = newManager(w, b, sessions.Config{SecretKey: secret, SessionExpire: x.exp}, pick(r, "", "s:"))
	x.foreign, _ = newManager(w, b, sessions.Config{SecretKey: secret + "!", SessionExpire: x.exp}, "other:")
	if i < 3*len(c.Scen) {
		t.Src = "tlc"
		var steps [][]string
		if err := json.Unmarshal(c.Scen[i/3], &steps); err != nil {
			panic(err)
		}
		x.replay(steps)
		return
	}
	t.Src = "random"
	x.random(10 + r.Intn(30))
}
