// Driver for C27: settings, records and guarded functions on several loggers.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"sync"

	"github.com/wujiu2020/strip"

	"verif/cmd/logger/src/site"
	"verif/h"
)

type printer struct {
	mu     sync.Mutex
	prints []string
	long   bool // a record of many lines is expected
}

func (p *printer) Print(v ...interface{}) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.prints = append(p.prints, fmt.Sprint(v...))
}

// lines is a text as the specification sees it.
func lines(s string) []string {
	return strings.Split(strings.Replace(s, "\033", "^[", -1), "\n")
}

const trace = "cmd/logger/main.go:"

func (p *printer) take() h.L {
	p.mu.Lock()
	defer p.mu.Unlock()
	out := h.L{}
	for i, s := range p.prints {
		if i == 64 {
			break
		}
		ls := lines(s)
		// a stack names this file elsewhere than as the place of the record
		traced := strings.Contains(place.ReplaceAllString(s, ""), trace)
		if n := map[bool]int{true: 14, false: 150}[traced && !p.long]; len(ls) > n {
			ls = ls[:n]
		}
		for i, x := range ls {
			if len(x) > 700 {
				ls[i] = x[:700]
			}
		}
		out = append(out, h.M{"lines": ls, "traced": traced})
	}
	p.prints = nil
	return out
}

var printers = map[string]strip.PrefixParser{
	"none":  nil,
	"const": func(v []interface{}) (string, []interface{}) { return "<c>", v },
	"take": func(v []interface{}) (string, []interface{}) {
		if len(v) == 0 {
			return "", v
		}
		return "(" + fmt.Sprint(v[0]) + ")", v[1:]
	},
}

type stringer struct{ s string }

func (s stringer) String() string { return s.s }

var errValue = errors.New("e\nf")

func value(r *rand.Rand) interface{} {
	return []interface{}{"m", "a b", "x\ny", "x\n", "\nx", "", "100%", "%d %s", `lit\n`, "PANIC: p", "STACK s", "\033[31mred",
		7, -1, 2.5, true, nil, errValue, stringer{"s\nt"}, []int{1, 2}, map[string]int{"k": 1}, struct{ A, B int }{1, 2}, "end\n\n", "é", "\r", "[ERROR] fake",
		"PAN", "a", "b", "STACKED"}[r.Intn(30)]
}

func short(file string) string {
	parts := strings.SplitN(file, "/src/", 2)
	return parts[len(parts)-1]
}

// rec describes a record for the specification.
func rec(sev int, form bool, format string, v []interface{}, opt *strip.LineOpt) h.M {
	text := func(v []interface{}) []string {
		if form {
			return lines(fmt.Sprintf(format, v...))
		}
		return lines(fmt.Sprintln(v...))
	}
	m := h.M{"sev": sev, "all": text(v), "rest": lines(""), "first": h.L{}, "stack": false, "hidden": false,
		"at": h.M{"full": "", "short": ""}}
	if len(v) > 0 {
		m["rest"], m["first"] = text(v[1:]), lines(fmt.Sprint(v[0]))
	}
	if opt != nil {
		m["stack"], m["hidden"] = opt.Stack, opt.Hidden
	}
	return m
}

type run struct {
	t   *h.Trace
	r   *rand.Rand
	out *printer
	ls  []strip.LoggerAdv
	ids []string
}

func (x *run) set(g int, what string, v interface{}) {
	l := x.ls[g]
	in := v
	switch what {
	case "global":
		strip.GlobalLevel = strip.Level(v.(int))
		x.t.Ev("global", h.M{"g": 1, "r": "", "v": v}, nil)
		return
	case "prefix":
		l.SetPrefix(v.(string))
		in = lines(v.(string))
	case "level":
		l.SetLevel(strip.Level(v.(int)))
	case "stack":
		l.EnableLogStack(strip.Level(v.(int)))
	case "color":
		l.SetColorMode(v.(bool))
	case "line":
		l.SetLineInfo(v.(bool))
	case "short":
		l.SetShortLine(v.(bool))
	case "flat":
		l.SetFlatLine(v.(bool))
	case "parser":
		l.SetPrefixParser(printers[v.(string)])
	}
	id := ""
	if q, ok := l.(strip.ReqLogger); ok {
		id = q.ReqId()
	}
	x.t.Ev("set", h.M{"g": g + 1, "r": "", "what": what, "v": in}, h.M{"prints": x.out.take(), "id": id})
}

// args chooses a message.
func (x *run) args() (bool, string, []interface{}, *strip.LineOpt) {
	r := x.r
	var v []interface{}
	for n := r.Intn(4); n > 0; n-- {
		v = append(v, value(r))
	}
	if r.Intn(40) == 0 {
		v = append(v, strings.Repeat("\n", 20+r.Intn(100))+"end")
	}
	form := r.Intn(2) == 0
	format := ""
	if form {
		for i := range v {
			format += h.Pick(r, "", " ", "\n", "is ", "PANIC: ") + h.Pick(r, "%v", "%v", "%q", "%T") + h.Pick(r, "", "\n", "%%")
			_ = i
		}
		if len(v) == 0 {
			format = h.Pick(r, "text", "text\n", "a\nb", "", "PANIC: x", "100%%")
		}
	}
	var opt *strip.LineOpt
	if r.Intn(3) == 0 {
		opt = &strip.LineOpt{Depth: r.Intn(3), Stack: r.Intn(3) == 0, Hidden: r.Intn(2) == 0}
	}
	return form, format, v, opt
}

func (x *run) record(g, sev int, form bool, format string, v []interface{}, opt *strip.LineOpt) {
	var at site.At
	m := rec(sev, form, format, v, opt)
	all := append([]interface{}(nil), v...)
	depth := 0
	if opt != nil {
		all = append(all, *opt)
		depth = opt.Depth
	}
	site.Outer(&at, x.ls[g], sev, form, format, all)
	for _, k := range []string{"all", "rest", "first"} {
		ls, _ := m[k].([]string)
		x.out.long = x.out.long || len(ls) > 14
	}
	defer func() { x.out.long = false }()
	m["at"] = h.M{"full": at[depth], "short": short(at[depth])}
	x.t.Ev("rec", h.M{"g": g + 1, "r": m}, h.M{"prints": x.out.take()})
}

var place = regexp.MustCompile(`\["[^" ]*:\d+"\]`)

func (x *run) guard(g int) {
	r := x.r
	custom := &struct{ n int }{3}
	var value interface{}
	kind := r.Intn(8)
	value = []interface{}{nil, "boom", "PANIC: boom", "two\nlines", errValue, 7, custom, errValue}[kind]
	sev := r.Intn(9)
	f := func() {
		if kind == 7 {
			var m map[string]int
			m["x"] = 1
		}
		if value != nil {
			panic(value)
		}
	}
	var ret interface{}
	if sev == 0 {
		ret = x.ls[g].Recover(f)
	} else {
		ret = x.ls[g].Recover(f, strip.Level(sev))
	}
	name := "value"
	if kind == 0 {
		name = "nil"
	}
	got := "other"
	switch {
	case ret == nil:
		got = "nil"
	case kind == 7:
		if e, ok := ret.(error); ok && strings.Contains(e.Error(), "nil map") {
			got, value = "value", ret
		}
	case ret == value:
		got = "value"
	}
	m := rec(4, false, "", []interface{}{value}, nil)
	at := ""
	prints := x.out.take()
	for _, p := range prints {
		ls := p.(h.M)["lines"].([]string)
		for _, s := range ls {
			if f := place.FindString(s); f != "" {
				at = f[2 : len(f)-2]
				break
			}
		}
	}
	x.t.Ev("guard", h.M{"g": g + 1, "r": m, "sev": sev, "value": name}, h.M{"prints": prints, "ret": got, "at": h.M{"full": at, "short": at}})
}

// burst logs from several goroutines at once.
func (x *run) burst(g int) {
	var wg sync.WaitGroup
	var rs h.L
	for i := 0; i < 4; i++ {
		for j := 0; j < 5; j++ {
			rs = append(rs, rec(1+(i+2*j)%8, true, "%s\nof %d", []interface{}{fmt.Sprintf("record %d-%d!", i, j), i}, &strip.LineOpt{Hidden: true}))
		}
	}
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 5; j++ {
				var at site.At
				site.Outer(&at, x.ls[g], 1+(i+2*j)%8, true, "%s\nof %d", []interface{}{fmt.Sprintf("record %d-%d!", i, j), i, strip.LineOpt{Hidden: true}})
			}
		}(i)
	}
	wg.Wait()
	x.t.Ev("burst", h.M{"g": g + 1, "r": "", "rs": rs}, h.M{"prints": x.out.take()})
}

func (x *run) logger(id string) {
	x.ids = append(x.ids, id)
	if id == "" {
		x.ls = append(x.ls, strip.NewLogger(x.out))
	} else {
		x.ls = append(x.ls, strip.NewReqLogger(x.out, id))
	}
}

func (x *run) setting(r *rand.Rand) (string, interface{}) {
	switch what := h.Pick(r, "global", "prefix", "level", "stack", "color", "line", "short", "flat", "flat", "parser"); what {
	case "global", "level":
		return what, h.Pick(r, 0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 8, 8, 8)
	case "stack":
		return what, h.Pick(r, 0, 0, 1, 4, 8)
	case "prefix":
		return what, h.Pick(r, "", "[p]", "pre fix", "a\nb", "%d")
	case "parser":
		return what, h.Pick(r, "none", "none", "const", "take")
	default:
		return what, r.Intn(2) == 0
	}
}

type step struct {
	What string
	V    json.RawMessage
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	h.Main(h.Area{
		N: func(c *h.Ctx) int { return len(c.Scen) + c.Pick(700, 15000) },
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			r := t.R
			defer func(v strip.Level) { strip.GlobalLevel = v }(strip.GlobalLevel)
			global := 8
			if i >= len(c.Scen) {
				global = h.Pick(r, 8, 8, 8, 7, 4, 0)
			}
			strip.GlobalLevel = strip.Level(global)
			x := &run{t: t, r: r, out: &printer{}}
			t.Src = "random"
			if i < len(c.Scen) {
				t.Src = "spec"
				x.logger("")
				x.logger("r")
				var steps []step
				check(json.Unmarshal(c.Scen[i], &steps))
				for _, s := range steps {
					for g := range x.ls {
						switch s.What {
						case "global", "level", "stack":
							var v int
							check(json.Unmarshal(s.V, &v))
							x.set(g, s.What, v)
						case "prefix":
							var v []string
							check(json.Unmarshal(s.V, &v))
							x.set(g, s.What, strings.Join(v, "\n"))
						case "parser":
							var v string
							check(json.Unmarshal(s.V, &v))
							x.set(g, s.What, v)
						default:
							var v bool
							check(json.Unmarshal(s.V, &v))
							x.set(g, s.What, v)
						}
					}
				}
				for g := range x.ls {
					sev := h.Pick(r, 1, 4, 5, 8)
					x.record(g, sev, false, "", []interface{}{"a", "b"}, nil)
					x.record(g, h.Pick(r, 1, 4, 5, 8), true, "m\n%v", []interface{}{"x\ny"}, nil)
					form, format, v, opt := x.args()
					x.record(g, 1+r.Intn(8), form, format, v, opt)
					x.guard(g)
				}
			} else {
				for n := 1 + r.Intn(3); n > 0; n-- {
					x.logger(h.Pick(r, "", "", "r1", "r2"))
				}
				for n := 6 + r.Intn(14); n > 0; n-- {
					g := r.Intn(len(x.ls))
					switch k := r.Intn(20); {
					case k < 8:
						what, v := x.setting(r)
						x.set(g, what, v)
					case k < 17:
						form, format, v, opt := x.args()
						x.record(g, 1+r.Intn(8), form, format, v, opt)
					case k < 19:
						x.guard(g)
					default:
						x.burst(g)
					}
				}
			}
			t.Cfg = h.M{"global": global, "ids": x.ids}
		},
	})
}
