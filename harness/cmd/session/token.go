package main

import (
	"crypto/hmac"
	"crypto/sha1"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/wujiu2020/strip/sessions"

	"verif/h"
)

// parts of a signed value: escaped text, time, hash
func open(v string) []string {
	b, err := base64.URLEncoding.DecodeString(v)
	if err != nil {
		return nil
	}
	p := strings.SplitN(string(b), ",", 3)
	if len(p) != 3 {
		return nil
	}
	return p
}

func seal(p ...string) string {
	return base64.URLEncoding.EncodeToString([]byte(strings.Join(p, ",")))
}

// mutate alters a value; it may come out unchanged.
func mutate(r *rand.Rand, v string) string {
	if v == "" {
		return "x"
	}
	b := []byte(v)
	p := open(v)
	if p == nil || r.Intn(3) == 0 { // as bytes
		i := r.Intn(len(b))
		switch r.Intn(9) {
		case 0:
			b[i] ^= byte(1 << uint(r.Intn(7)))
		case 1:
			return v[:i]
		case 2:
			return v[i:]
		case 3:
			return v + string(b[i])
		case 4:
			return strings.TrimRight(v, "=")
		case 5:
			return v[:i] + "\n" + v[i:]
		case 6: // unused bits of the last character
			k := strings.TrimRight(v, "=")
			const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
			if n := len(k); n > 0 && n < len(v) {
				j := strings.IndexByte(abc, k[n-1])
				if j >= 0 {
					return k[:n-1] + string(abc[j^1]) + v[n:]
				}
			}
		case 7:
			return v + "===="
		case 8:
			return strings.Map(func(c rune) rune {
				switch c {
				case '-':
					return '+'
				case '_':
					return '/'
				}
				return c
			}, v)
		}
		return string(b)
	}
	q := []string{p[0], p[1], p[2]}
	switch r.Intn(16) {
	case 0:
		if len(p[1]) > 1 {
			q[0], q[1] = p[0]+p[1][:1], p[1][1:]
		}
	case 1:
		if n := len(p[0]); n > 1 {
			q[0], q[1] = p[0][:n-1], p[0][n-1:]+p[1]
		}
	case 2:
		if n := len(p[0]); n > 0 {
			i := r.Intn(n)
			if c := p[0][i]; c != '%' && (i < 1 || p[0][i-1] != '%') && (i < 2 || p[0][i-2] != '%') && c != '+' {
				q[0] = p[0][:i] + fmt.Sprintf("%%%02X", c) + p[0][i+1:]
			}
		}
	case 3:
		q[0] = strings.Replace(p[0], "+", "%20", -1)
	case 4:
		q[0] = strings.ToLower(p[0])
	case 5:
		q[1] = "+" + p[1]
	case 6:
		q[1] = "0" + p[1]
	case 7:
		q[2] = strings.ToUpper(p[2])
	case 8:
		i := r.Intn(3)
		q[i] = pick(r, " ", "\t", "\n") + q[i]
	case 9:
		i := r.Intn(3)
		q[i] += pick(r, " ", "\r", "\u00a0")
	case 10:
		q[2] += pick(r, "0", ",", ",x")
	case 11:
		q[r.Intn(3)] = ""
	case 12:
		n, _ := strconv.ParseInt(p[1], 10, 64)
		q[1] = strconv.FormatInt(n+[]int64{1, -1, 1e9, 1e15}[r.Intn(4)], 10)
	case 13:
		q[0], q[1] = "x"+p[0], p[1]
	case 14:
		q[1] = p[1] + "9"
	case 15:
		if n := len(p[2]); n > 1 {
			q[2] = p[2][:n-1]
		}
	}
	return seal(q...)
}

type prov struct{ cfg sessions.Config }

func (p *prov) Create(sid string, params ...map[string]interface{}) (sessions.SessionStore, error) {
	return sessions.NewDummySessionStore(sid, nil), nil
}
func (p *prov) Read(sid string) (sessions.SessionStore, error) {
	return nil, sessions.ErrNotFoundSession
}
func (p *prov) Regenerate(old, sid string) (sessions.SessionStore, error) {
	return nil, sessions.ErrNotFoundSession
}
func (p *prov) Destroy(sid string) error { return nil }
func (p *prov) GC() error                { return nil }
func (p *prov) Config() *sessions.Config { c := p.cfg; return &c }

type tok struct {
	t      *h.Trace
	tokens map[string]string
	values []string
}

func (x *tok) name(v string) string {
	if x.tokens[v] == "" {
		x.tokens[v] = "v" + strconv.Itoa(len(x.tokens)+1)
	}
	return x.tokens[v]
}

func (x *tok) enc(key, text string, at int64) string {
	v, ok := sessions.EncodeSecureValue(text, key, time.Unix(0, at))
	obs := h.M{"ok": ok, "v": "", "raw": ""}
	if ok {
		x.values = append(x.values, v)
		obs["v"], obs["raw"] = x.name(v), strconv.QuoteToASCII(sessions.GetRawFromSecureValue(v))
	}
	x.t.Ev("enc", h.M{"key": key, "text": strconv.QuoteToASCII(text), "at": strconv.FormatInt(at, 10)}, obs)
	return v
}

func (x *tok) dec(key, v string) {
	in := h.M{"key": key, "v": x.name(v), "raw": strconv.QuoteToASCII(v)}
	var text string
	var at time.Time
	var ok bool
	if msg := h.Catch(func() { text, at, ok = sessions.DecodeSecureValue(v, key) }); msg != "" {
		x.t.Ev("panic", in, h.M{"what": msg})
		return
	}
	obs := h.M{"ok": ok, "text": "", "at": ""}
	if ok {
		obs["text"], obs["at"] = strconv.QuoteToASCII(text), strconv.FormatInt(at.UnixNano(), 10)
	}
	x.t.Ev("dec", in, obs)
}

func anyText(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return "A" + strconv.Itoa(r.Intn(100000))
	case 2:
		return sessions.CreateSid()
	case 3:
		return pick(r, "a,b", "a|b", ",", " ", " a ", "a b", "%41", "a+b", "1", "12", "é", "日本語", "\x00", "\xff\xfe", "a\nb", "=", "&x=1", "~.-_")
	case 4:
		if r.Intn(10) == 0 {
			return strings.Repeat(pick(r, "xyz", "9", "é,"), 1500+r.Intn(3000))
		}
		return strings.Repeat(pick(r, "x", "9", "é,"), 1+r.Intn(200))
	}
	b := make([]byte, 1+r.Intn(8))
	for i := range b {
		b[i] = "abAB019 ,|%+"[r.Intn(12)]
	}
	return string(b)
}

func anyTime(r *rand.Rand) int64 {
	switch r.Intn(5) {
	case 0:
		return []int64{1, 9, 10, 123, 1e9, 1e18, 1<<63 - 1, 1 << 62}[r.Intn(8)]
	case 1:
		return 1 + r.Int63n(1<<63-2)
	}
	return 1.7e18 + r.Int63n(1e17)
}

var long = strings.Repeat("a key longer than a block ", 4)
var keys = []string{"", "k", "key", "Key", "key ", "a longer key, with more text in it", "ключ", long + "1", long + "2"}

// what someone who knows the algorithm but no key could make
func forged(r *rand.Rand, key, text string, at int64) string {
	ts := strconv.FormatInt(at, 10)
	esc := url.QueryEscape(text)
	t := text
	if r.Intn(3) == 0 {
		t = esc
	}
	m := hmac.New(sha1.New, []byte(key))
	m.Write([]byte(t + pick(r, "", ",", ",", "|", "\n", "\x00") + ts))
	return seal(esc, ts, hex.EncodeToString(m.Sum(nil)))
}

func signed(c *h.Ctx, i int, t *h.Trace) {
	r := t.R
	x := &tok{t: t, tokens: map[string]string{}}
	t.Src = "random"
	if i < 40 { // recombinations of two values, completely
		t.Src = "recombine"
		x.recombine(i)
		return
	}
	for n := 0; n < 4+r.Intn(16); n++ {
		key := keys[r.Intn(len(keys))]
		switch k := r.Intn(20); {
		case k < 5 || len(x.values) == 0:
			x.enc(key, anyText(r), anyTime(r))
		case k < 8:
			for _, key := range keys {
				x.dec(key, x.values[r.Intn(len(x.values))])
			}
		case k < 9:
			text := anyText(r)
			if text == "" {
				text = "u"
			}
			x.dec("", forged(r, "", text, anyTime(r)))
			x.dec(key, forged(r, key+"x", text, anyTime(r)))
		case k < 10:
			// the same secret as text
			m := x.values[r.Intn(len(x.values))]
			x.dec(m, m)
			x.dec(key, pick(r, "", "garbage", "====", ",,", seal("", "", ""), seal("a", "1", ""), seal("a", "1")))
		case k < 11 && len(x.values) > 1:
			a, b := open(x.values[r.Intn(len(x.values))]), open(x.values[r.Intn(len(x.values))])
			if a != nil && b != nil {
				for _, key := range keys[1:] {
					x.dec(key, seal(a[0], b[1], b[2]))
					x.dec(key, seal(a[0], a[1], b[2]))
				}
			}
		case k < 12:
			key := pick(r, "", "s")
			msg := h.Catch(func() { sessions.NewSessionManager(&prov{sessions.Config{SecretKey: key, SessionExpire: 60}}) })
			t.Ev("mgr", h.M{"key": key}, h.M{"refused": msg != ""})
		default:
			v := mutate(r, x.values[r.Intn(len(x.values))])
			if r.Intn(4) == 0 {
				v = mutate(r, v)
			}
			for _, key := range keys {
				x.dec(key, v)
			}
		}
	}
}

// every recombination of two issued values, with the boundary between text
// and time moved by up to two characters
func (x *tok) recombine(i int) {
	texts := [][2]string{{"A1", "A12"}, {"AB", "AB"}, {"7", "77"}, {"u,1", "u"}, {"a%41", "aA"}}[i%5]
	times := [][2]int64{{1700000000000000000, 1700000000000000000}, {1700000000000000001, 1799999999999999999}, {12345, 2345}, {1111, 11111}}[i/5%4]
	ks := [][2]string{{"k", "k"}, {"k", "key"}}[i/20%2]
	var p [2][]string
	for j := 0; j < 2; j++ {
		p[j] = open(x.enc(ks[j], texts[j], times[j]))
		if p[j] == nil {
			return
		}
	}
	for m := 0; m < 8; m++ {
		text, ts, mac := p[m&1][0], p[m>>1&1][1], p[m>>2&1][2]
		for sh := -2; sh <= 2; sh++ {
			a, b := text, ts
			if sh < 0 && len(a) > -sh {
				a, b = a[:len(a)+sh], a[len(a)+sh:]+b
			}
			if sh > 0 && len(b) > sh {
				a, b = a+b[:sh], b[sh:]
			}
			for _, k := range []string{ks[0], ks[1], ""} {
				x.dec(k, seal(a, b, mac))
			}
		}
	}
}
