// Driver for C10-C12: histories of registrations, lookups, field injections
// and invocations on a tree of injectors.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/wujiu2020/strip/inject"

	"verif/h"
)

// Every type carries the text of the value's identity.
type (
	A struct {
		Id string
		X  int8
	}
	B struct {
		Id string
		Y  int16
	}
	C struct {
		Id string
		Z  int32
	}
	D struct {
		Id string
		W  int64
	}
	L   []string
	Str string
	I   interface{ Get() string }
)

func (a A) Get() string  { return a.Id }
func (b *B) Get() string { return b.Id }

// two different types of one name
func local1() reflect.Type {
	type Loc struct {
		Id string
		P  uint8
	}
	return reflect.TypeOf(Loc{})
}

func local2() reflect.Type {
	type Loc struct {
		Id string
		Q  uint16
	}
	return reflect.TypeOf(Loc{})
}

var bases = map[string]reflect.Type{
	"A": reflect.TypeOf(A{}), "B": reflect.TypeOf(B{}), "C": reflect.TypeOf(C{}), "D": reflect.TypeOf(D{}),
	"I":         reflect.TypeOf((*I)(nil)).Elem(),
	"any":       reflect.TypeOf((*interface{})(nil)).Elem(),
	"L":         reflect.TypeOf(L(nil)),
	"[]string":  reflect.TypeOf([]string(nil)),
	"[1]string": reflect.TypeOf([1]string{}),
	"[2]string": reflect.TypeOf([2]string{}),
	"map":       reflect.TypeOf(map[string]string(nil)),
	"map2":      reflect.TypeOf(map[Str]string(nil)),
	"func":      reflect.TypeOf((func() string)(nil)),
	"func2":     reflect.TypeOf((func() Str)(nil)),
	"[]Str":     reflect.TypeOf([]Str(nil)),
	"anon": reflect.TypeOf(struct {
		Id string
		V  bool
	}{}),
	"anon2": reflect.TypeOf(struct {
		Id string
		V  int8
	}{}),
	"Str":    reflect.TypeOf(Str("")),
	"string": reflect.TypeOf(""),
	"loc1":   local1(),
	"loc2":   local2(),
}

type ty struct {
	B string `json:"b"`
	P int    `json:"p"`
}

func (t ty) goType() reflect.Type {
	g := bases[t.B]
	for i := 0; i < t.P; i++ {
		g = reflect.PtrTo(g)
	}
	return g
}

// a value of type g which carries id
func mk(g reflect.Type, id string) reflect.Value {
	v := reflect.New(g).Elem()
	switch g.Kind() {
	case reflect.Ptr:
		p := reflect.New(g.Elem())
		p.Elem().Set(mk(g.Elem(), id))
		v.Set(p)
	case reflect.Interface:
		if len(id)%2 == 0 {
			v.Set(reflect.ValueOf(&A{Id: id}))
		} else {
			v.Set(reflect.ValueOf(&B{Id: id}))
		}
	case reflect.Struct:
		v.Field(0).SetString(id)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(g, 1, 1))
		v.Index(0).SetString(id)
	case reflect.Array:
		v.Index(0).SetString(id)
	case reflect.Map:
		v.Set(reflect.MakeMap(g))
		v.SetMapIndex(reflect.ValueOf("id").Convert(g.Key()), reflect.ValueOf(id))
	case reflect.Func:
		v.Set(reflect.MakeFunc(g, func([]reflect.Value) []reflect.Value {
			return []reflect.Value{reflect.ValueOf(id).Convert(g.Out(0))}
		}))
	case reflect.String:
		v.SetString(id)
	}
	return v
}

func idOf(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return ""
		}
		return idOf(v.Elem())
	case reflect.Struct:
		return v.Field(0).String()
	case reflect.Slice, reflect.Array:
		if v.Len() == 0 {
			return ""
		}
		return v.Index(0).String()
	case reflect.Map:
		for _, k := range v.MapKeys() {
			return v.MapIndex(k).String()
		}
		return ""
	case reflect.Func:
		if v.IsNil() {
			return ""
		}
		return v.Call(nil)[0].String()
	case reflect.String:
		return v.String()
	}
	return ""
}

type val struct {
	P int `json:"p"`
	R int `json:"r"`
}

func toVal(id string) val {
	if id == "" {
		return val{0, 0}
	}
	q := strings.SplitN(id, ".", 2)
	p, _ := strconv.Atoi(q[0])
	r, _ := strconv.Atoi(q[1])
	return val{p, r}
}

const untouched = "-1.0"

type run struct {
	P    int   `json:"p"`
	R    int   `json:"r"`
	Args []val `json:"args"`
}

type dep struct {
	Ty ty     `json:"ty"`
	N  string `json:"n"`
}

type world struct {
	t    *h.Trace
	inj  []inject.Injector
	runs []run
	nid  int
	bust bool // an operation panicked: the history ends
}

func (w *world) scope(par int) {
	in := inject.New()
	if par > 0 {
		in.SetParent(w.inj[par-1])
		w.t.Ev("scope", h.M{"par": par}, nil)
	}
	w.inj = append(w.inj, in)
}

func vals(args []reflect.Value) []val {
	out := []val{}
	for _, a := range args {
		out = append(out, toVal(idOf(a)))
	}
	return out
}

func depTypes(deps []dep) ([]reflect.Type, inject.Dep) {
	var in []reflect.Type
	names := inject.Dep{}
	for i, d := range deps {
		in = append(in, d.Ty.goType())
		if d.N != "" {
			names[i] = d.N
		}
	}
	return in, names
}

func withNames(f interface{}, names inject.Dep, force bool) interface{} {
	if len(names) > 0 || force {
		return inject.Provide{names, f}
	}
	return f
}

func (w *world) prov(s int, fn bool, t ty, n, as string, deps []dep) {
	r := w.t.R
	w.nid++
	id := w.nid
	null := fn && t.P == 1 && r.Intn(10) == 0 // the provider returns a nil pointer
	var value interface{}
	if fn {
		in, names := depTypes(deps)
		out := []reflect.Type{t.goType()}
		second := r.Intn(8) == 0
		if second { // only the first result counts
			out = append(out, reflect.TypeOf(0))
		}
		count := 0
		f := reflect.MakeFunc(reflect.FuncOf(in, out, false), func(args []reflect.Value) []reflect.Value {
			count++
			w.runs = append(w.runs, run{id, count, vals(args)})
			res := []reflect.Value{mk(t.goType(), fmt.Sprintf("%d.%d", id, count))}
			if null {
				res[0] = reflect.Zero(t.goType())
			}
			if second {
				res = append(res, reflect.ValueOf(count))
			}
			return res
		})
		value = withNames(f.Interface(), names, r.Intn(6) == 0)
	} else {
		deps = []dep{}
		value = mk(t.goType(), fmt.Sprintf("%d.0", id)).Interface()
	}
	var asp interface{}
	if as != "" {
		asp = reflect.Zero(reflect.PtrTo(bases[as])).Interface()
	}
	form := r.Intn(5)
	msg := h.Catch(func() {
		inj := w.inj[s-1]
		switch {
		case form == 0 && n == "" && as == "":
			inj.Provide(value)
		case form <= 1:
			inj.Provide(inject.Object{Value: value, Type: asp, Name: n})
		case form == 2:
			o := &inject.Object{Value: value, Name: n}
			if r.Intn(2) == 0 { // the same object has served another scope
				o.Name = h.Pick(r, "", "x", "m")
				same := o.Name == n
				inject.New().ProvideAs(o, (*fmt.Stringer)(nil), "y")
				if r.Intn(2) == 0 {
					inj.ProvideAs(o, asp, n)
					break
				}
				if same {
					inj.ProvideAs(o, asp)
					break
				}
				o.Name = n
			}
			inj.ProvideAs(o, asp)
		case form == 3: // what is given to ProvideAs goes before what the Object says
			o := inject.Object{Value: value, Name: h.Pick(r, "", "x", "m")}
			if asp != nil {
				o.Type = h.Pick(r, asp, interface{}((*fmt.Stringer)(nil)), reflect.Zero(reflect.PtrTo(bases["L"])).Interface())
			}
			inj.ProvideAs(o, asp, n)
		case n == "" && r.Intn(2) == 0:
			inj.ProvideAs(value, asp)
		default:
			inj.ProvideAs(value, asp, n)
		}
	})
	w.t.Ev("prov", h.M{"s": s, "id": id, "fn": fn, "ty": t, "n": n, "as": as, "deps": deps, "null": null}, h.M{"panic": msg})
	w.bust = w.bust || msg != ""
}

func outcome(err error, msg string) string {
	switch {
	case msg != "":
		return "panic"
	case err != nil:
		return "err"
	}
	return "ok"
}

func (w *world) take() []run {
	r := w.runs
	w.runs = nil
	if r == nil {
		return []run{}
	}
	return r
}

func (w *world) done(out string) {
	if out == "panic" {
		w.bust = true
	}
}

func (w *world) find(s int, t ty, n string, exists bool) {
	p := reflect.New(t.goType())
	p.Elem().Set(mk(t.goType(), untouched))
	var err error
	msg := h.Catch(func() {
		f := w.inj[s-1].Find
		if exists {
			f = w.inj[s-1].Exists
		}
		if n == "" && w.t.R.Intn(2) == 0 {
			err = f(p.Interface())
		} else {
			err = f(p.Interface(), n)
		}
	})
	op := "find"
	if exists {
		op = "exists"
	}
	o := outcome(err, msg)
	w.t.Ev(op, h.M{"s": s, "ty": t, "n": n}, h.M{"out": o, "v": toVal(idOf(p.Elem())), "runs": w.take()})
	w.done(o)
}

type field struct {
	Ty    ty     `json:"ty"`
	N     string `json:"n"`
	Tag   bool   `json:"tag"`
	Depth int    `json:"depth"`
	Open  bool   `json:"open"`
}

// apply builds a struct type with the given fields (and possibly nested ones)
func (w *world) apply(s int, pick func() dep) {
	r := w.t.R
	var fields []field
	var at []func() reflect.Value
	var root reflect.Value
	fill := func(v reflect.Value) {}
	var build func(depth int, open bool, get func() reflect.Value) reflect.Type
	var fills []func()
	build = func(depth int, open bool, get func() reflect.Value) reflect.Type {
		var fs []reflect.StructField
		n := 1 + r.Intn(3)
		for i := 0; i < n; i++ {
			i := i
			sub := func() reflect.Value { return get().Field(i) }
			name := fmt.Sprintf("F%d", i)
			if r.Intn(4) == 0 && depth < 5 { // a nested struct, by value, pointer or interface
				kind := r.Intn(4)
				in := build(depth+1, open, func() reflect.Value { // the nested struct itself
					v := sub()
					for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
						v = v.Elem()
					}
					return v
				})
				ft := in
				switch kind {
				case 1:
					ft = reflect.PtrTo(in)
				case 2:
					ft = bases["any"]
				}
				fills = append(fills, func() {
					switch kind {
					case 1, 2:
						sub().Set(reflect.New(in))
					}
				})
				fs = append(fs, reflect.StructField{Name: name, Type: ft, Tag: reflect.StructTag(h.Pick(r, "", `json:"x"`))})
				continue
			}
			d := pick()
			f := field{Ty: d.Ty, N: d.N, Depth: depth, Open: open}
			var tag string
			switch r.Intn(6) {
			case 0:
				f.N = ""
			case 1:
				f.N, tag = "", `inject:"-"`
			case 2:
				f.N, tag = "", `json:"inject"`
			default:
				f.Tag = true
				if d.N == "" {
					tag = "inject"
				} else {
					tag = `inject:"` + d.N + `"`
				}
			}
			fields = append(fields, f)
			at = append(at, sub)
			fs = append(fs, reflect.StructField{Name: name, Type: d.Ty.goType(), Tag: reflect.StructTag(tag)})
		}
		return reflect.StructOf(fs)
	}
	typ := build(1, true, func() reflect.Value { return root.Elem() })
	root = reflect.New(typ)
	// outer structs first: inner ones live behind their pointers
	for i := len(fills) - 1; i >= 0; i-- {
		fills[i]()
	}
	_ = fill
	for i, f := range fields {
		// a structured untagged field may itself have nothing to inject
		at[i]().Set(mk(f.Ty.goType(), untouched))
	}
	var err error
	msg := h.Catch(func() { err = w.inj[s-1].Apply(root.Interface()) })
	var vs []val
	for i := range fields {
		vs = append(vs, toVal(idOf(at[i]())))
	}
	if vs == nil {
		return // a struct of structs without fields
	}
	o := outcome(err, msg)
	w.t.Ev("apply", h.M{"s": s, "fields": fields}, h.M{"out": o, "vs": vs, "runs": w.take()})
	w.done(o)
}

func (w *world) invoke(s int, deps []dep, t *ty, body func()) {
	r := w.t.R
	w.nid++
	id := w.nid
	in, names := depTypes(deps)
	var out []reflect.Type
	if t != nil {
		out = append(out, t.goType())
	}
	entered := 0
	f := reflect.MakeFunc(reflect.FuncOf(in, out, false), func(args []reflect.Value) []reflect.Value {
		entered++
		w.t.Ev("invoke", h.M{"s": s, "deps": deps}, h.M{"out": "ok", "runs": w.take(), "args": vals(args)})
		if body != nil {
			body()
		}
		if t == nil {
			return nil
		}
		return []reflect.Value{mk(t.goType(), fmt.Sprintf("%d.%d", id, entered))}
	}).Interface()
	f = withNames(f, names, r.Intn(6) == 0)
	for i := 1 + r.Intn(2); i > 0; i-- {
		before := entered
		var err error
		var res []reflect.Value
		msg := h.Catch(func() { res, err = w.inj[s-1].Invoke(f) })
		o := outcome(err, msg)
		switch {
		case entered > before:
			v := val{id, entered}
			if t != nil && len(res) == 1 {
				v = toVal(idOf(res[0]))
			} else if t != nil {
				v = val{}
			}
			w.t.Ev("ret", h.M{"s": s, "id": id, "r": entered}, h.M{"out": o, "v": v})
		case o == "ok":
			w.t.Ev("invoke", h.M{"s": s, "deps": deps}, h.M{"out": "skipped", "runs": w.take(), "args": []val{}})
		default:
			w.t.Ev("invoke", h.M{"s": s, "deps": deps}, h.M{"out": o, "runs": w.take(), "args": []val{}})
		}
		w.done(o)
		if w.bust {
			return
		}
	}
}

func main() {
	h.Main(h.Area{
		Timeout: 20 * time.Second,
		N:       func(c *h.Ctx) int { return len(c.Scen) + c.Pick(1800, 25000) },
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			w := &world{t: t}
			w.scope(0)
			if i < len(c.Scen) {
				t.Src = "tlc"
				w.generated(c.Scen[i])
				return
			}
			t.Src = "random"
			w.random(c)
		},
	})
}

func (w *world) generated(raw json.RawMessage) {
	var sc struct {
		Hist []struct {
			Op string
			S  int
			K  string
			Ks []string
		}
	}
	if err := json.Unmarshal(raw, &sc); err != nil {
		panic(err)
	}
	r := w.t.R
	w.scope(1)
	keys := map[string]bool{}
	for _, x := range sc.Hist {
		keys[x.K] = true
		d := []dep{}
		for _, k := range x.Ks {
			keys[k] = true
			d = append(d, dep{ty{k, r.Intn(2)}, ""})
		}
		r.Shuffle(len(d), func(a, b int) { d[a], d[b] = d[b], d[a] })
		if x.Op == "prov" {
			w.prov(x.S, true, ty{x.K, 1}, "", "", d)
		} else {
			w.find(x.S, ty{x.K, r.Intn(2)}, "", false)
		}
		if w.bust {
			return
		}
	}
	var rest []func()
	for _, k := range []string{"A", "B", "C", "D"} {
		if keys[k] {
			k := k
			for s := 1; s <= 2; s++ {
				s := s
				rest = append(rest, func() { w.find(s, ty{k, 1}, "", false) })
			}
		}
	}
	r.Shuffle(len(rest), func(a, b int) { rest[a], rest[b] = rest[b], rest[a] })
	for _, f := range rest {
		f()
		if w.bust {
			return
		}
	}
}

var allBases []string

func init() {
	for _, b := range []string{"A", "B", "C", "D", "I", "any", "L", "[]string", "[1]string", "[2]string", "map", "map2", "func", "func2", "[]Str",
		"anon", "anon2", "Str", "string", "loc1", "loc2"} {
		allBases = append(allBases, b)
	}
}

func (w *world) random(c *h.Ctx) {
	r := w.t.R
	for i := r.Intn(3); i > 0; i-- {
		w.scope(1 + r.Intn(len(w.inj)))
	}
	// the keys of this history
	var ks []dep
	simple := r.Intn(2) == 0
	nk := 2 + r.Intn(5)
	for i := 0; i < nk; i++ {
		b := allBases[r.Intn(len(allBases))]
		if simple {
			b = allBases[r.Intn(5)]
		}
		ks = append(ks, dep{ty{b, 1}, h.Pick(r, "", "", "", "x", "y", "x:y", "X", "name of this one", "name of that one", "é", " x")})
		if r.Intn(4) == 0 { // a neighbour: the same type under another name
			ks = append(ks, dep{ty{b, 1}, h.Pick(r, "", "x", ":x", "name of this one")})
		}
	}
	// the form in which a key is asked for, mostly one that fits
	ask := func() dep {
		d := ks[r.Intn(len(ks))]
		switch x := r.Intn(12); {
		case x == 0 && r.Intn(3) == 0:
			d.Ty.P = 2
		case d.Ty.B == "I" || d.Ty.B == "any":
			d.Ty.P = 0
		case x < 5:
			d.Ty.P = 0
		}
		if r.Intn(60) == 0 {
			d.Ty.B = allBases[r.Intn(len(allBases))]
		}
		return d
	}
	deps := func(max int) []dep {
		ds := []dep{}
		for i := r.Intn(max + 1); i > 0; i-- {
			ds = append(ds, ask())
		}
		return ds
	}
	// mostly, keys need only keys before them
	neat := r.Intn(4) > 0
	provide := func(i int) {
		d := ks[i]
		fn := r.Intn(4) > 0
		t, as := d.Ty, ""
		if d.Ty.B == "I" || d.Ty.B == "any" {
			switch r.Intn(4) {
			case 0: // as itself
				if fn {
					t.P = 0
				}
			default:
				as = d.Ty.B
				t = ty{h.Pick(r, "A", "B", "B", "A", "A", "B", "C"), 1}
			}
		} else if fn {
			if r.Intn(6) == 0 {
				t.P = 0
			}
			if r.Intn(15) == 0 {
				as, t.B = t.B, allBases[r.Intn(len(allBases))]
			}
		} else if r.Intn(10) == 0 {
			t.P = 2
		}
		ds := deps(2)
		if neat && r.Intn(8) > 0 {
			all := ks
			ks = ks[:i]
			if i == 0 {
				ds = []dep{}
			} else {
				ds = deps(h.Pick(r, 3, 3, 3, 3, 6))
			}
			ks = all
		}
		w.prov(1+r.Intn(h.Pick(r, 1, len(w.inj), len(w.inj))), fn, t, d.N, as, ds)
	}
	prov := func() { provide(r.Intn(len(ks))) }
	for i := range ks {
		if r.Intn(12) > 0 && !w.bust {
			provide(i)
		}
	}
	for i := r.Intn(3); i > 0 && !w.bust; i-- {
		prov()
	}
	depth := 0
	var op func()
	op = func() {
		if w.bust {
			return
		}
		s := 1 + r.Intn(len(w.inj))
		switch x := r.Intn(20); {
		case x < 5:
			prov()
		case x < 12:
			d := ask()
			w.find(s, d.Ty, d.N, false)
		case x < 13:
			d := ask()
			w.find(s, d.Ty, d.N, true)
		case x < 16:
			w.apply(s, ask)
		case x == 16 && len(w.inj) < 5 && depth == 0:
			w.scope(1 + r.Intn(len(w.inj)))
		case x == 17 && len(w.inj) > 1:
			i := 2 + r.Intn(len(w.inj)-1)
			p := 1 + r.Intn(i-1)
			w.inj[i-1].SetParent(w.inj[p-1])
			w.t.Ev("parent", h.M{"s": i, "par": p}, nil)
		default:
			var t *ty
			if r.Intn(4) > 0 {
				d := ks[r.Intn(len(ks))]
				t = &ty{d.Ty.B, r.Intn(2)}
			}
			var body func()
			if depth < 2 && r.Intn(3) == 0 {
				body = func() {
					depth++
					for j := r.Intn(4); j > 0; j-- {
						op()
					}
					depth--
				}
			}
			w.invoke(s, deps(h.Pick(r, 3, 3, 7)), t, body)
		}
	}
	for i := 3 + r.Intn(12); i > 0; i-- {
		op()
	}
}
