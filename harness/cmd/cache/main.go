// Driver for C23: histories of cache calls against every back end, on a
// virtual clock, with back-end failures.
package main

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/wujiu2020/strip/caches"

	"verif/backs"
	"verif/h"
	"verif/vtime"
)

var kinds = backs.Kinds

type op struct {
	op    string
	key   int
	val   interface{}
	text  string // what val is in text form
	to    []int
	n     []int // amount as given to the call
	s     int
	fault string
}

func value(text string) h.M {
	if n, err := strconv.ParseInt(text, 10, 64); err == nil && n >= 0 && n < 1e18 && strconv.FormatInt(n, 10) == text {
		return h.M{"k": "n", "hi": n / 1e9, "lo": n % 1e9, "s": ""}
	}
	if len(text) > 64 || !utf8.ValidString(text) {
		d := sha1.Sum([]byte(text))
		text = fmt.Sprintf("#%d:%s", len(text), hex.EncodeToString(d[:]))
	}
	return h.M{"k": "t", "hi": 0, "lo": 0, "s": text}
}

var noVal = h.M{"k": "", "hi": 0, "lo": 0, "s": ""}

func verdict(err error) string {
	switch err {
	case nil:
		return "ok"
	case caches.ErrMissedKey:
		return "miss"
	}
	return "err"
}

// far is a timeout as the specification sees it: no history lasts longer.
func far(s int) int {
	if s > 1e9 {
		return 1e9
	}
	return s
}

func (b *back) run(t *h.Trace, o op, name string) string {
	in := h.M{"op": o.op, "key": o.key, "v": noVal, "to": h.L{}, "n": h.L{0, 0}, "s": o.s, "fault": ""}
	if o.op == "adv" {
		vtime.Advance(time.Duration(o.s) * time.Second)
		t.Ev("adv", in, h.M{"_": 0})
		return ""
	}
	if o.op == "set" {
		in["v"] = value(o.text)
	}
	if len(o.to) > 0 {
		in["to"] = h.L{far(o.to[0])}
	}
	if o.op == "incr" || o.op == "decr" {
		n := 1
		if len(o.n) > 0 {
			n = o.n[0]
		}
		in["n"] = h.L{n / 1000000000, n % 1000000000}
	}
	b.Arm(0, o.fault)
	r, v := "", noVal
	p := b.provider
	msg := h.Catch(func() {
		switch o.op {
		case "set":
			r = verdict(p.Set(name, o.val, o.to...))
		case "get":
			x, err := p.Get(name)
			r = verdict(err)
			if err == nil {
				r, v = "val", value(x.String())
			}
		case "has":
			x, err := p.Has(name)
			switch {
			case err != nil:
				r = verdict(err)
			case x:
				r = "yes"
			default:
				r = "no"
			}
		case "touch":
			r = verdict(p.Touch(name, o.to...))
		case "delete":
			r = verdict(p.Delete(name))
		case "incr":
			r = verdict(p.Incr(name, o.n...))
		case "decr":
			r = verdict(p.Decr(name, o.n...))
		case "clean":
			r = verdict(p.Clean())
		case "gc":
			r = verdict(p.GC())
		}
	})
	if msg != "" {
		r = "panic: " + msg
	}
	in["fault"] = b.Happened(o.fault)
	obs := h.M{"r": r, "v": v}
	if o.op == "gc" {
		obs["stale"] = b.Stale()
	}
	t.Ev(o.op, in, obs)
	return r
}

// what the generator believes about a key
type belief struct {
	has, num, unsure bool
	odd              bool // a number but no plain one
	n                int
	dl               int64 // 0: none
}

func odd(text string) bool {
	s := strings.TrimSpace(text)
	_, err := strconv.ParseFloat(s, 64)
	_, err2 := strconv.ParseInt(s, 0, 64)
	return err == nil || err2 == nil || s == ""
}

type runner struct {
	t    *h.Trace
	b    *back
	rng  *rand.Rand
	keys []string
	k    []belief
	now  int64
	dls  []int64
}

func (x *runner) alive(i int) bool { return x.k[i].has && (x.k[i].dl == 0 || x.k[i].dl > x.now) }

// clear of every deadline by two seconds
func (x *runner) clear(at int64) bool {
	for _, d := range x.dls {
		if at > d-2 && at < d+2 {
			return false
		}
	}
	return true
}

func (x *runner) do(o op) {
	name := ""
	if o.key > 0 {
		name = x.keys[o.key-1]
	}
	arith := o.op == "incr" || o.op == "decr"
	n := 1
	if len(o.n) > 0 {
		n = o.n[0]
	}
	if arith {
		k := x.k[o.key-1]
		if k.unsure {
			return
		}
		if x.b.Kind == "redis" && !x.alive(o.key-1) {
			return // known finding, has its own history
		}
		if k.odd {
			return // whether odd numbers can be counted with depends on the back end
		}
		if k.has && k.num && o.op == "decr" && k.n < n {
			return // below zero is not claimed
		}
		if k.has && k.num && o.op == "incr" && k.n > 1<<60 {
			return
		}
	}
	if o.op == "adv" {
		if !x.clear(x.now + int64(o.s)) {
			return
		}
		x.now += int64(o.s)
	}
	r := x.b.run(x.t, o, name)
	deadline := func() int64 {
		s := 60
		if len(o.to) > 0 && o.to[0] != 0 {
			s = o.to[0]
		}
		if s < 0 {
			return 0
		}
		s = far(s)
		x.dls = append(x.dls, x.now+int64(s))
		return x.now + int64(s)
	}
	if o.fault != "" {
		for i := range x.k {
			if o.op == "clean" || i == o.key-1 {
				x.k[i].unsure = true
			}
		}
		if o.op == "set" || o.op == "touch" {
			deadline()
		}
		return
	}
	switch o.op {
	case "set":
		b := belief{has: true, dl: deadline(), odd: odd(o.text)}
		if v := value(o.text); v["k"] == "n" {
			b.num, b.odd = true, false
			b.n, _ = strconv.Atoi(o.text)
		}
		x.k[o.key-1] = b
	case "touch":
		if r == "ok" {
			x.k[o.key-1].dl = deadline()
		}
	case "delete":
		x.k[o.key-1] = belief{}
	case "clean":
		for i := range x.k {
			x.k[i] = belief{}
		}
	case "incr":
		x.k[o.key-1].n += n
	case "decr":
		x.k[o.key-1].n -= n
	}
}

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

var day = 86400
var timeouts = []int{1, 2, 5, 30, 59, 60, 61, 3600, day, 30*day - 1, 30 * day, 30*day + 1, 45 * day, 365 * day, 5 * 365 * day, 20 * 365 * day, 100 * 365 * day, 290 * 365 * day, 1 << 34, math.MaxInt64, -1, -1, -7, 0, 0}

type word string

func anyValue(r *rand.Rand) (interface{}, string) {
	switch r.Intn(12) {
	case 0, 1, 2:
		n := []int{0, 1, 9, 10, 99, 100, 109, 190, 1009, 1000, 32767, 65536, 1 << 31, 1<<31 - 1, 1 << 32, 1<<53 + 1, 1 << 59}[r.Intn(17)]
		return n, strconv.Itoa(n)
	case 3:
		switch r.Intn(6) {
		case 0:
			return int8(100), "100"
		case 1:
			return int16(9), "9"
		case 2:
			return int32(1 << 30), "1073741824"
		case 3:
			return int64(1 << 40), "1099511627776"
		case 4:
			return uint16(10), "10"
		}
		return uint32(1<<32 - 1), "4294967295"
	case 4:
		b := r.Intn(2) == 0
		return b, strconv.FormatBool(b)
	case 5:
		f := []float64{1.5, -0.25, 100, 1e-7, 123456.789, 1e15}[r.Intn(6)]
		return f, strconv.FormatFloat(f, 'f', -1, 64)
	case 6:
		b := []byte(pick(r, "", "bytes", "\x00\x01\xff\xfe", "a\r\nEND\r\n", "9 "))
		return b, string(b)
	case 7:
		n := []int{5000, 70000, 900000}[r.Intn(3)]
		s := strings.Repeat(pick(r, "x", "é", "\r\n", "0"), n/2)
		return s, s
	case 8:
		s := pick(r, "named", "", " lead")
		return word(s), s
	case 9:
		return -5, "-5"
	}
	s := pick(r, "", "v", "text value", "trail ", " lead", "a\r\nEND\r\nx", "日本語", "nil", "007", "+5", "1.0", "true", "\x80\xff", "%s%d", "'\"\\", "\t")
	return s, s
}

func (x *runner) random(steps int) {
	r := x.rng
	for i := 0; i < steps; i++ {
		o := op{key: 1 + r.Intn(len(x.keys))}
		switch c := r.Intn(100); {
		case c < 26:
			o.op = "set"
			o.val, o.text = anyValue(r)
		case c < 46:
			o.op = "get"
		case c < 54:
			o.op = "has"
		case c < 62:
			o.op = "touch"
		case c < 67:
			o.op = "delete"
		case c < 76:
			o.op = "incr"
		case c < 84:
			o.op = "decr"
		case c < 86:
			o.op, o.key = "clean", 0
		case c < 88:
			o.op, o.key = "gc", 0
		default:
			o.op, o.key = "adv", 0
			o.s = []int{1, 3, 10, 31, 63, 120, 3603, day, 29 * day, 31 * day}[r.Intn(10)]
			if len(x.dls) > 0 && r.Intn(3) > 0 {
				d := x.dls[r.Intn(len(x.dls))] - x.now
				if r.Intn(2) == 0 {
					d -= 2
				} else {
					d += 2
				}
				if d > 0 {
					o.s = int(d)
				}
			}
			if x.now+int64(o.s) > 11*365*int64(day) {
				continue
			}
		}
		if o.op == "set" || o.op == "touch" {
			if r.Intn(5) > 0 {
				o.to = []int{timeouts[r.Intn(len(timeouts))]}
			}
		}
		if o.op == "incr" || o.op == "decr" {
			if r.Intn(3) > 0 {
				o.n = []int{[]int{0, 1, 2, 9, 10, 91, 1000, 1 << 20, 1<<32 + 1, 3e9}[r.Intn(10)]}
			}
			if k := x.k[o.key-1]; k.num && k.n > 1<<34 && r.Intn(2) == 0 {
				o.n = []int{[]int{1<<32 + 1, 3e9, 1 << 31}[r.Intn(3)]}
			} else if o.op == "decr" && k.num && k.n > 9 && k.n < 1<<30 && r.Intn(2) == 0 {
				o.n = []int{int(k.n - k.n/10)} // to fewer digits
				x.do(o)
				o = op{op: "get", key: o.key}
			}
		}
		if o.op != "adv" && r.Intn(9) == 0 {
			o.fault = pick(r, x.b.FaultKinds()...)
		}
		x.do(o)
	}
}

func main() {
	w := backs.New()
	h.Main(h.Area{
		N: func(c *h.Ctx) int { return len(kinds)*(len(c.Scen)+c.Pick(150, 4000)) + 1 },
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			if i == 0 { // redis creates a missing key on arithmetic
				b := provider(w, "redis", "")
				t.Src = "known"
				t.Cfg = h.M{"keys": 1, "back": "redis", "key": "redis-arith-missing"}
				b.run(t, op{op: pick(t.R, "incr", "decr"), key: 1}, "k")
				return
			}
			i--
			kind := kinds[i%len(kinds)]
			i /= len(kinds)
			prefix := pick(t.R, "", "p:", "prefix")
			b := provider(w, kind, prefix)
			defer func() { t.Ev("rest", nil, h.M{"held": b.Held()}) }()
			x := &runner{t: t, b: b, rng: t.R}
			if i < len(c.Scen) {
				t.Src = "tlc"
				x.keys = []string{"k", "kk"}
				x.k = make([]belief, 2)
				var ops [][]interface{}
				if err := json.Unmarshal(c.Scen[i], &ops); err != nil {
					panic(err)
				}
				t.Cfg = h.M{"keys": 2, "back": kind}
				for _, a := range ops {
					o := op{op: a[0].(string), key: int(a[1].(float64)), s: int(a[4].(float64))}
					if o.op == "set" {
						o.val, o.text = "tx", "tx"
						if a[2] == "n" {
							o.val, o.text = 10, "10"
						}
					}
					for _, n := range a[3].([]interface{}) {
						o.to = []int{int(n.(float64))}
					}
					x.do(o)
				}
				for k := range x.keys {
					x.do(op{op: "get", key: k + 1})
				}
				return
			}
			t.Src = "random"
			x.keys = [][]string{{"a"}, {"a", "b"}, {"k1", "k11", "k"}, {"Key", "key", "key.x", "$key"}, {"ключ", "k" + strings.Repeat("y", 200)}}[t.R.Intn(5)]
			x.k = make([]belief, len(x.keys))
			t.Cfg = h.M{"keys": len(x.keys), "back": kind}
			x.random(6 + t.R.Intn(25))
		},
	})
}
