package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strconv"
	"time"

	"github.com/wujiu2020/strip/sessions"

	"verif/h"
	"verif/vtime"
)

type rrunner struct {
	t      *h.Trace
	r      *rand.Rand
	tokens map[string]string
	raw    []string // cookie values written, "" when refused
	who    [][2]string
	hash   []string // their hashes, "" until read
	other  []string // session cookies
	mgrs   []*sessions.SessionManager
	cfg    *sessions.CookieConfig
	now    int
	dls    []int
}

func (x *rrunner) name(v string) string {
	if v == "" {
		return ""
	}
	if x.tokens[v] == "" {
		x.tokens[v] = "v" + strconv.Itoa(len(x.tokens)+1)
	}
	return x.tokens[v]
}

func (x *rrunner) write(m int, psk, salt string) {
	w := httptest.NewRecorder()
	ok := x.mgrs[m].WriteRemember(x.cfg, w, psk, salt)
	obs := h.M{"ok": ok, "v": "", "at": ""}
	v := ""
	for _, c := range w.Result().Cookies() {
		v = c.Value
		obs["v"], obs["at"] = x.name(v), attrs(c, true)
	}
	x.raw, x.hash, x.who = append(x.raw, v), append(x.hash, ""), append(x.who, [2]string{psk, salt})
	x.dls = append(x.dls, x.now+x.cfg.RememberExpire)
	x.t.Ev("write", h.M{"m": m, "psk": psk, "salt": salt}, obs)
}

func (x *rrunner) has(m int, n int, cookies ...string) {
	r := httptest.NewRequest("GET", "/", nil)
	for i, c := range cookies {
		if i > 0 {
			r.Header.Add("Cookie", "o=1")
		}
		r.Header.Add("Cookie", x.cfg.CookieRememberName+"="+c)
	}
	if x.r.Intn(4) == 0 { // another cookie, whatever its name resembles
		r.Header.Add("Cookie", pick(x.r, "Remember", "rm", "remember2", "RM_")+"="+pick(x.r, "", "x", "x|y"))
	}
	seen := ""
	for _, c := range r.Cookies() {
		if c.Name == x.cfg.CookieRememberName {
			seen = c.Value
		}
	}
	in := h.M{"m": m, "v": x.name(seen)}
	var psk, hash string
	var ok bool
	if msg := h.Catch(func() { psk, hash, ok = x.mgrs[m].HasRemember(x.cfg, r) }); msg != "" {
		x.t.Ev("panic", in, h.M{"what": msg})
		return
	}
	obs := h.M{"ok": ok, "psk": "", "hash": ""}
	if ok {
		obs["psk"], obs["hash"] = psk, x.name(hash)
		if n >= 0 {
			x.hash[n] = hash
		}
	}
	x.t.Ev("has", in, obs)
}

func (x *rrunner) valid(m int, psk, salt, hash string) {
	in := h.M{"m": m, "psk": psk, "salt": salt, "hash": x.name(hash)}
	var ok bool
	if msg := h.Catch(func() { ok = x.mgrs[m].ValidRemember(x.cfg, psk, salt, hash) }); msg != "" {
		x.t.Ev("panic", in, h.M{"what": msg})
		return
	}
	x.t.Ev("valid", in, h.M{"ok": ok})
}

func (x *rrunner) session(m int) {
	w := httptest.NewRecorder()
	r := httptest.NewRequest("GET", "/", nil)
	x.mgrs[m].Start(x.cfg, w, r)
	for _, c := range w.Result().Cookies() {
		x.other = append(x.other, c.Value)
	}
}

func (x *rrunner) adv(s int) {
	for _, d := range x.dls {
		if x.now+s > d-2 && x.now+s < d+2 {
			return
		}
	}
	x.now += s
	vtime.Advance(time.Duration(s) * time.Second)
	x.t.Ev("adv", h.M{"s": s}, nil)
}

func remember(c *h.Ctx, i int, t *h.Trace) {
	vtime.Reset()
	r := t.R
	x := &rrunner{t: t, r: r, tokens: map[string]string{}}
	x.cfg = &sessions.CookieConfig{CookieName: "S", CookieRememberName: pick(r, "RM", "remember"), CookieSecure: r.Intn(2) == 0,
		CookieDomain: "example.com", CookieExpire: -1, RememberExpire: []int{60, 10, 86400 * 30}[r.Intn(3)]}
	sess := []int{60, 86400 * 300}[r.Intn(2)]
	for _, k := range []string{"one key", "another key"} {
		x.mgrs = append(x.mgrs, sessions.NewSessionManager(&prov{sessions.Config{SecretKey: k, SessionExpire: sess}}))
	}
	t.Cfg = h.M{"exp": x.cfg.RememberExpire,
		"at": fmt.Sprintf("%s path=/ http=true secure=%v age=%d", x.cfg.CookieRememberName, x.cfg.CookieSecure, x.cfg.RememberExpire)}
	t.Cfg["at"] = attrs(&http.Cookie{Name: x.cfg.CookieRememberName, Path: "/", HttpOnly: true, Secure: x.cfg.CookieSecure, MaxAge: x.cfg.RememberExpire}, true)
	if i < len(c.Scen) {
		t.Src = "tlc"
		var steps [][]interface{}
		if err := json.Unmarshal(c.Scen[i], &steps); err != nil {
			panic(err)
		}
		n := func(v interface{}) int { return int(v.(float64)) }
		user := func(v interface{}) string { return []string{"", "ann", "bob"}[n(v)] }
		salt := func(v interface{}) string { return []string{"", "s1", "s2"}[n(v)] }
		for _, s := range steps {
			switch s[0].(string) {
			case "write":
				x.write(0, user(s[1]), salt(s[2]))
			case "has":
				x.has(0, n(s[3])-1, x.raw[n(s[3])-1])
			case "valid":
				k := n(s[3]) - 1
				if x.hash[k] == "" {
					x.has(0, k, x.raw[k])
				}
				x.valid(0, user(s[1]), salt(s[2]), x.hash[k])
			case "adv":
				x.adv(x.cfg.RememberExpire/2 + 2)
			case "long":
				x.adv(x.cfg.RememberExpire + 5)
			}
		}
		return
	}
	t.Src = "random"
	users := []string{"ann", "Ann", "ann ", "bob", "a", "ann|x", "an", "", "日本", "a b+c%41", "1", "ann,1"}
	salts := []string{"s1", "S1", "s1 ", "s2", "", "s", "s1s", "соль"}
	for n := 0; n < 5+r.Intn(20); n++ {
		m := r.Intn(4) / 3
		switch k := r.Intn(100); {
		case k < 18 || len(x.raw) == 0:
			x.write(m, users[r.Intn(len(users))], salts[r.Intn(len(salts))])
			if last := len(x.raw) - 1; x.raw[last] != "" && r.Intn(4) > 0 {
				x.has(m, last, x.raw[last])
			}
		case k < 35:
			j := r.Intn(len(x.raw))
			cs := []string{x.raw[j]}
			if r.Intn(4) == 0 {
				cs = append([]string{mutate(r, x.raw[r.Intn(len(x.raw))])}, cs...)
			}
			x.has(m, j, cs...)
		case k < 45:
			x.has(m, -1, mutate(r, x.raw[r.Intn(len(x.raw))]))
		case k < 55:
			x.session(m)
			if len(x.other) > 0 {
				x.has(m, -1, x.other[r.Intn(len(x.other))])
			}
		case k < 58:
			x.has(m, -1)
		case k < 62: // the hash as the cookie, the cookie as the hash
			j := r.Intn(len(x.raw))
			if x.hash[j] != "" {
				x.has(m, -1, x.hash[j])
				x.valid(m, x.who[j][0], x.who[j][1], x.raw[j])
			}
		case k < 78:
			j := r.Intn(len(x.raw))
			x.valid(m, x.who[j][0], x.who[j][1], x.hash[j])
		case k < 88:
			j := r.Intn(len(x.raw))
			x.valid(m, users[r.Intn(len(users))], x.who[r.Intn(len(x.who))][1], x.hash[j])
			x.valid(m, x.who[j][0], salts[r.Intn(len(salts))], x.hash[j])
			if r.Intn(2) == 0 { // no salt is no salt: nothing signed with the server's key alone will do
				u := users[r.Intn(len(users))]
				if v, ok := sessions.EncodeSecureValue(u, []string{"one key", "another key"}[m], vtime.Now()); ok {
					x.valid(m, u, "", v)
				}
			}
		case k < 93:
			j := r.Intn(len(x.raw))
			x.valid(m, x.who[j][0], x.who[j][1], mutate(r, x.hash[j]))
		case k < 95:
			w := httptest.NewRecorder()
			x.mgrs[m].DestroyRemember(x.cfg, w)
			gone := 0
			for _, c := range w.Result().Cookies() {
				if c.Name == x.cfg.CookieRememberName && c.MaxAge < 0 && c.Path == "/" {
					gone++
				}
			}
			t.Ev("forget", nil, h.M{"gone": gone})
		default:
			x.adv([]int{1, 5, x.cfg.RememberExpire / 2, x.cfg.RememberExpire - 2, x.cfg.RememberExpire + 2}[r.Intn(5)])
		}
	}
}
