package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"reflect"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip/params"

	"verif/h"
)

// ptype is a type a parameter is bound to
type ptype struct {
	d  h.M // as the specification takes it
	rt reflect.Type
	k  string
	e  *ptype
	mk *ptype
	fs []pfield
}

type pfield struct {
	n string
	t *ptype
}

func pScalar(t *h.Trace, k string) *ptype {
	if k == "" {
		k = scalarKinds[t.R.Intn(len(scalarKinds))]
	}
	if k == "time" {
		return &ptype{d: h.M{"k": k}, rt: timeTyp, k: k}
	}
	return &ptype{d: h.M{"k": k}, rt: typeOf(t, k, false), k: k}
}

func pType(t *h.Trace, depth int) *ptype {
	r := t.R
	x := r.Intn(12)
	if depth <= 0 && x >= 6 {
		x = r.Intn(6)
	}
	switch {
	case x < 4:
		return pScalar(t, "")
	case x == 4:
		return pScalar(t, "time")
	case x == 5:
		e := pScalar(t, h.Pick(r, "", "", "time"))
		return &ptype{d: h.M{"k": "ptr", "e": e.d}, rt: reflect.PtrTo(e.rt), k: "ptr", e: e}
	case x <= 8:
		e := pType(t, depth-1)
		return &ptype{d: h.M{"k": "list", "e": e.d}, rt: reflect.SliceOf(e.rt), k: "list", e: e}
	case x == 9:
		e := pScalar(t, h.Pick(r, "", "", "string"))
		mk := pScalar(t, h.Pick(r, "string", "string", "int", "int8"))
		return &ptype{d: h.M{"k": "map", "e": e.d, "key": mk.d}, rt: reflect.MapOf(mk.rt, e.rt), k: "map", e: e, mk: mk}
	default:
		var sf []reflect.StructField
		fs := []h.M{}
		p := &ptype{k: "struct"}
		n := 1 + r.Intn(4)
		if r.Intn(12) == 0 { // many fields
			n, depth = 14+r.Intn(12), 0
		}
		for i := n; i > 0; i-- {
			n := fmt.Sprintf("%c%c%d", "FG"[r.Intn(2)], "aA"[r.Intn(2)], i)
			if last := len(sf) - 1; last >= 0 && r.Intn(5) == 0 { // names which differ in case only
				twin := []byte(sf[last].Name)
				if twin[1] ^= 'a' ^ 'A'; last == 0 || sf[last-1].Name != string(twin) {
					n = string(twin)
				}
			}
			ft := pType(t, depth-1)
			sf = append(sf, reflect.StructField{Name: n, Type: ft.rt})
			fs = append(fs, h.M{"n": n, "t": ft.d})
			p.fs = append(p.fs, pfield{n, ft})
		}
		if r.Intn(3) == 0 { // not to be bound
			i := r.Intn(len(sf) + 1)
			sf = append(sf[:i], append([]reflect.StructField{{Name: "own", PkgPath: "main", Type: reflect.TypeOf(h.Pick(r, 0, 7))}}, sf[i:]...)...)
		}
		p.d, p.rt = h.M{"k": "struct", "fs": fs}, reflect.StructOf(sf)
		return p
	}
}

// vals collects parameters: their paths and texts
type vals struct {
	list []h.M
	url  url.Values
	form map[string]int
}

func newVals() *vals { return &vals{url: url.Values{}, list: []h.M{}, form: map[string]int{}} }

func seg(ty, s string, i int) h.M { return h.M{"t": ty, "s": s, "i": i} }

func keyOf(path []h.M) string {
	var b strings.Builder
	for _, g := range path {
		switch g["t"] {
		case "n":
			b.WriteString(g["s"].(string))
		case ".":
			b.WriteString("." + g["s"].(string))
		case "i":
			fmt.Fprintf(&b, "[%d]", g["i"])
		case "o": // left open
			b.WriteString("[" + g["s"].(string))
		case "h":
			b.WriteString("[" + g["s"].(string) + "]")
		case "e":
			b.WriteString("[]")
		case "k":
			b.WriteString("[" + g["s"].(string) + "]")
		}
	}
	return b.String()
}

func (v *vals) add(path []h.M, txts ...h.M) {
	k := keyOf(path)
	if _, ok := v.url[k]; ok {
		return
	}
	var ss []string
	for _, x := range txts {
		ss = append(ss, x["s"].(string))
	}
	v.url[k] = ss
	v.list = append(v.list, h.M{"p": append([]h.M{}, path...), "vs": txts})
}

func with(path []h.M, g h.M) []h.M { return append(append([]h.M{}, path...), g) }

func timeText(t *h.Trace) string {
	r := t.R
	d := fmt.Sprintf("%04d-%02d-%02d", h.Pick(r, 1970, 1999, 2000, 2020, 1900, 2037, 1583), h.Pick(r, 1, 2, 2, 6, 12, 0, 13), h.Pick(r, 1, 15, 28, 29, 30, 31, 32, 0))
	hm := fmt.Sprintf("%02d:%02d", h.Pick(r, 0, 7, 23, 24, 12), h.Pick(r, 0, 30, 59, 60))
	sec := fmt.Sprintf(":%02d", h.Pick(r, 0, 9, 59, 60))
	s := ""
	switch r.Intn(7) {
	case 0:
		s = d
	case 1:
		s = d + " " + hm
	case 2:
		s = d + " " + hm + sec
	case 3:
		s = d + "T" + hm + sec + "Z"
	case 4:
		s = d + "T" + hm + sec + h.Pick(r, "+08:00", "-05:30", "+00:00", "-23:59")
	case 5:
		return h.Pick(r, "0", "1", "1500000000", "-86401", "2147483647", "2147483648", "1700000000123", "99999999999", "-1500000000123", "9223372036854775808", "+60", "abc", "", "12 ")
	default:
		s = d + " " + hm + sec
	}
	if r.Intn(5) == 0 && len(s) > 0 {
		i := r.Intn(len(s))
		b := []byte(s)
		b[i] = "0123456789x-: T"[r.Intn(15)]
		s = string(b)
	}
	if r.Intn(10) == 0 {
		s = s[:len(s)-r.Intn(4)]
	}
	// one-digit hours are accepted by package time; leave them out
	if i := strings.IndexAny(s[min(len(s), 10):], " T"); i == 0 && len(s) > 12 && !(isd(s[11]) && isd(s[12])) {
		return s[:11]
	}
	return s
}

func isd(b byte) bool { return b >= '0' && b <= '9' }

func pText(t *h.Trace, p *ptype) string {
	switch p.k {
	case "time":
		return timeText(t)
	case "ptr":
		return pText(t, p.e)
	case "bool":
		if t.R.Intn(2) == 0 {
			return h.Pick(t.R, "true", "TRUE", " on ", "On", "1", "0", "false", "t", "yes", "", " ")
		}
	case "list", "struct", "map":
		return h.Pick(t.R, "x", "1", "")
	}
	return safeText(t.R, p.k)
}

func (v *vals) many(t *h.Trace, p *ptype) []h.M {
	out := []h.M{}
	n := 1 + t.R.Intn(3)*t.R.Intn(2)
	if t.R.Intn(6) == 0 {
		n += t.R.Intn(5)
	}
	for i := n; i > 0; i-- {
		out = append(out, text(pText(t, p)))
	}
	return out
}

// gen adds parameters for a value of the type at the path
func (v *vals) gen(t *h.Trace, path []h.M, p *ptype) {
	r := t.R
	if r.Intn(6) == 0 {
		return
	}
	switch p.k {
	case "list":
		// un-indexed elements come under one of the two spellings
		form, ok := v.form[keyOf(path)]
		if !ok {
			form = r.Intn(4)
			v.form[keyOf(path)] = form
		}
		switch form {
		case 0:
			v.add(path, v.many(t, p.e)...)
		case 1:
			v.add(with(path, seg("e", "", 0)), v.many(t, p.e)...)
		}
		if r.Intn(2) == 0 {
			for i := 1 + r.Intn(3); i > 0; i-- {
				v.gen(t, with(path, seg("i", "", h.Pick(r, 0, 1, 2, 5, 17))), p.e)
			}
		}
		if r.Intn(8) == 0 {
			big := h.Pick(r, "999999999999", "9223372036854775807", "99999999999999999999", "9223372036854775806", "2000000000")
			v.add(with(path, seg("h", big, 0)), text(pText(t, p.e)))
		}
		if r.Intn(8) == 0 {
			v.add(with(path, seg("o", h.Pick(r, "x", "0", "-1", "", "1"), 0)), text(pText(t, p.e)))
		}
		if r.Intn(4) == 0 { // what is no index
			g := with(path, seg("h", h.Pick(r, "x", "-1", "-2", "1.5", "0x1", "1 ", "é", "one", "0,1"), 0))
			if p.e.k == "struct" && r.Intn(2) == 0 {
				g = with(g, seg(".", p.e.fs[0].n, 0))
			}
			v.add(g, text(pText(t, p.e)))
		}
	case "struct":
		for _, f := range p.fs {
			v.gen(t, with(path, seg(".", f.n, 0)), f.t)
		}
		if r.Intn(6) == 0 {
			v.add(with(path, seg(".", h.Pick(r, "Nope", "fa1", "F", "Fa", "own", "own"), 0)), text("1"))
		}
	case "map":
		switch r.Intn(3) {
		case 0: // json
			used := map[string]bool{}
			js, obj := []h.M{}, []string{}
			for i := r.Intn(4); i > 0; i-- {
				k := h.Pick(r, "a", "b", "1", "2", "é", "k 1")
				if p.mk.k != "string" {
					k = strconv.Itoa(r.Intn(50))
				}
				if used[k] {
					continue
				}
				used[k] = true
				var val, lit string
				null := false
				switch r.Intn(5) {
				case 4: // no value, or a number with a fraction
					null = r.Intn(3) == 0
					val = h.Pick(r, "1.5", "-2.25", "0.5")
					if (p.e.k == "float32" || p.e.k == "float64") && r.Intn(2) == 0 {
						val = h.Pick(r, "1e3", "25E1", "1.5e2")
					}
					lit = val
					if null {
						val, lit = "", "null"
					}
				case 0:
					val = h.Pick(r, "0", "7", "-3", "1000000", "300", "70000")
					if p.e.k != "float32" && p.e.k != "string" && r.Intn(2) == 0 {
						val = h.Pick(r, "123456789", "9007199254740993", "21474836470", "9223372036854775807")
						if p.e.k == "float64" {
							val = "123456789012"
						}
					}
					lit = val
				case 1:
					val = h.Pick(r, "true", "false")
					lit = val
				default:
					val = pText(t, p.e)
					if p.e.k == "string" && r.Intn(2) == 0 {
						val = h.Pick(r, " a ", "b ", "\tc", "d  e", "null", "<nil>", "")
					}
					b, _ := json.Marshal(val)
					lit = string(b)
				}
				kb, _ := json.Marshal(k)
				obj = append(obj, string(kb)+h.Pick(r, ":", " : ")+lit)
				js = append(js, h.M{"k": text(k), "v": text(val), "null": null})
			}
			s := "{" + strings.Join(obj, ",") + "}"
			switch r.Intn(7) {
			case 2: // blanks around it
				s = h.Pick(r, " ", "\n", "\t ", "") + s + h.Pick(r, " ", "\n", "")
			case 0:
				s, js = s[:len(s)-1], []h.M{}
			case 1:
				s, js = s+h.Pick(r, "x", "{}", "]"), []h.M{}
			}
			x := text(s)
			x["j"] = js
			v.add(path, x)
		default:
			if r.Intn(4) == 0 {
				x := text("")
				x["j"] = []h.M{}
				v.add(path, x)
			}
			used := map[string]bool{}
			for i := r.Intn(4); i > 0; i-- {
				k := h.Pick(r, "a", "b", "x.y", "é", "1", "", "k 1")
				if p.mk.k != "string" {
					k = strconv.Itoa(1 + r.Intn(100))
					// one unparsable key at most: they all are the zero key
					if v.form["bad "+keyOf(path)] == 0 && r.Intn(4) == 0 {
						v.form["bad "+keyOf(path)] = 1
						k = h.Pick(r, "x", "99999999999999999999", "1.5")
					}
				}
				if used[k] {
					continue
				}
				used[k] = true
				g := seg("k", k, 0)
				g["x"] = text(k)
				v.add(with(path, g), v.many(t, p.e)...)
			}
		}
	default:
		v.add(path, v.many(t, p)...)
	}
}

func rootSeg(n string) []h.M { return []h.M{seg("n", n, 0)} }

func doBind(t *h.Trace, v *vals, name string, p *ptype) {
	dst := reflect.New(p.rt)
	preset(t, dst.Elem())
	pp := &params.Params{Values: v.url}
	msg := h.Catch(func() { pp.Bind(dst.Interface(), name) })
	t.Ev("pbind", h.M{"vals": v.list, "path": rootSeg(name), "ty": p.d}, h.M{"val": render(dst.Elem()), "panic": msg})
}

type unexpEmb struct {
	In string `param:"k1"`
	No string `param:"-"`
}
type UEmb struct {
	In2 int `param:"k2"`
}
type withHidden struct {
	hid int
	unexpEmb
	A string `param:"k3"`
	*UEmb
	B int `param:"-"`
}
type frozenPtr struct {
	*unexpEmb
	A int8 `param:"k2,omitempty"`
}
type embDeep struct {
	*embMid
	Z string `param:"k4"`
}
type embMid struct{ *UEmb }
type EmbOuter struct{ *EmbMid2 }
type EmbMid2 struct{ UEmb }

func runBind(c *h.Ctx, t *h.Trace, ts []string) {
	bytesAsList = true
	r := t.R
	if ts != nil {
		for _, s := range ts {
			for _, k := range scalarKinds {
				if !floatSafe(s, k) {
					continue
				}
				v := newVals()
				v.add(rootSeg("a"), text(s))
				p := pScalar(t, k)
				if r.Intn(4) == 0 {
					p = &ptype{d: h.M{"k": "list", "e": p.d}, rt: reflect.SliceOf(p.rt), k: "list", e: p}
				}
				doBind(t, v, "a", p)
			}
		}
		return
	}
	runJson(t)
	for q := 0; q < 4; q++ {
		// one parameter among others whose names share prefixes
		v := newVals()
		p := pType(t, 3)
		name := h.Pick(r, "a", "a", "A", "ab", "AB")
		v.gen(t, rootSeg(name), p)
		for _, n := range []string{"a", "ab", "A", "b", "aa", "Ab"} {
			if n != name && r.Intn(3) == 0 {
				v.gen(t, rootSeg(n), pType(t, 2))
			}
		}
		doBind(t, v, name, p)
	}
	for q := 0; q < 2; q++ {
		v := newVals()
		types := map[string]*ptype{}
		var build func(depth int, scalar bool) (reflect.Type, []h.M)
		fresh := 0
		build = func(depth int, scalar bool) (reflect.Type, []h.M) {
			var sf []reflect.StructField
			fs := []h.M{}
			for i := 1 + r.Intn(4); i > 0; i-- {
				fresh++
				name := fmt.Sprintf("F%d", fresh)
				x := r.Intn(9)
				if depth < 3 && x == 0 {
					ty, sub := build(depth+1, true)
					ptr := r.Intn(2) == 0
					if ptr {
						ty = reflect.PtrTo(ty)
					}
					sf = append(sf, reflect.StructField{Name: name, Type: ty, Anonymous: true})
					fs = append(fs, h.M{"f": "emb", "ptr": ptr, "set": false, "fs": sub})
					continue
				}
				pn := h.Pick(r, "k1", "k2", "k3", "k4", "k5", "k6")
				tag := fmt.Sprintf(`param:"%s"`, pn)
				if x == 1 {
					tag = fmt.Sprintf(`param:"%s,opt"`, pn)
				} else if x == 2 {
					tag, pn = `json:"x"`, name
				} else if x == 3 {
					tag, pn = `param:"-"`, "-"
				}
				var p *ptype
				switch {
				case types[pn] != nil:
					p = types[pn]
				case scalar:
					p = pScalar(t, h.Pick(r, "", "", "time"))
				default:
					p = pType(t, 2)
				}
				if pn != "-" {
					types[pn] = p
				}
				sf = append(sf, reflect.StructField{Name: name, Type: p.rt, Tag: reflect.StructTag(tag)})
				fs = append(fs, h.M{"f": "var", "name": pn, "t": p.d, "skip": x == 3})
			}
			return reflect.StructOf(sf), fs
		}
		ty, fs := build(0, false)
		dst := reflect.New(ty)
		var fill func(v reflect.Value, fs []h.M)
		fill = func(v reflect.Value, fs []h.M) {
			for i, f := range fs {
				if f["f"] == "emb" {
					e := v.Field(i)
					if f["ptr"].(bool) {
						if r.Intn(3) > 0 {
							// what the specification needs of a nil struct
							fill(reflect.New(e.Type().Elem()).Elem(), f["fs"].([]h.M))
							zeroPre(e.Type().Elem(), f["fs"].([]h.M))
							continue
						}
						e.Set(reflect.New(e.Type().Elem()))
						f["set"] = true
						e = e.Elem()
					}
					fill(e, f["fs"].([]h.M))
					continue
				}
				preset(t, v.Field(i))
				f["pre"] = render(v.Field(i))
			}
		}
		fill(dst.Elem(), fs)
		for _, n := range []string{"k1", "k2", "k3", "k4", "k5", "k6", "F1", "F2", "F3"} {
			if p := types[n]; p != nil {
				v.gen(t, rootSeg(n), p)
			} else if r.Intn(3) == 0 {
				v.gen(t, rootSeg(n), pType(t, 1))
			}
		}
		msg := h.Catch(func() { params.BindValuesToStruct(dst.Interface(), v.url) })
		t.Ev("pstruct", h.M{"vals": v.list, "fs": fs}, h.M{"val": render(dst.Elem()), "panic": msg})
	}
	// unexported fields and embedded structs
	v := newVals()
	str := h.M{"k": "string"}
	for _, n := range []string{"k1", "k3", "k4"} {
		if r.Intn(3) > 0 {
			v.add(rootSeg(n), text(safeText(r, "string")))
		}
	}
	if r.Intn(3) > 0 {
		v.add(rootSeg("k2"), text(safeText(r, "int8")))
	}
	vr := func(n string, ty h.M, skip bool, pre reflect.Value) h.M {
		return h.M{"f": "var", "name": n, "t": ty, "skip": skip, "pre": render(pre)}
	}
	emb := func(ptr, set bool, fs ...h.M) h.M { return h.M{"f": "emb", "ptr": ptr, "set": set, "fs": fs} }
	z := reflect.ValueOf(0)
	zs := reflect.ValueOf("")
	var dst interface{}
	var fs []h.M
	switch r.Intn(3) {
	case 0:
		x := &withHidden{hid: 3, unexpEmb: unexpEmb{"pre", "no"}, B: 9}
		set := r.Intn(2) == 0
		if set {
			x.UEmb = &UEmb{5}
		}
		dst = x
		fs = []h.M{vr("", str, true, reflect.ValueOf(3)),
			emb(false, false, vr("k1", str, false, zs), vr("-", str, true, reflect.ValueOf("no"))),
			vr("k3", str, false, zs),
			emb(true, set, vr("k2", h.M{"k": "int"}, false, z)),
			vr("", str, true, reflect.ValueOf(9))}
	case 1:
		x := &frozenPtr{}
		dst = x
		set := r.Intn(2) == 0
		if set {
			x.unexpEmb = &unexpEmb{"pre", "no"}
			fs = []h.M{emb(true, true, vr("k1", str, false, zs), vr("-", str, true, reflect.ValueOf("no")))}
		} else { // can not be set from outside its package
			fs = []h.M{vr("", str, true, reflect.ValueOf(x.unexpEmb))}
		}
		fs = append(fs, vr("k2", h.M{"k": "int8"}, false, z))
	default:
		dst = &EmbOuter{}
		fs = []h.M{emb(true, false, emb(false, false, vr("k2", h.M{"k": "int"}, false, z)))}
	}
	msg := h.Catch(func() { params.BindValuesToStruct(dst, v.url) })
	t.Ev("pstruct", h.M{"vals": v.list, "fs": fs}, h.M{"val": render(reflect.ValueOf(dst).Elem()), "panic": msg})
}

func zeroPre(ty reflect.Type, fs []h.M) {
	for i, f := range fs {
		if f["f"] == "emb" {
			e := ty.Field(i).Type
			if e.Kind() == reflect.Ptr {
				e = e.Elem()
			}
			f["set"] = false
			zeroPre(e, f["fs"].([]h.M))
			continue
		}
		f["pre"] = render(reflect.Zero(ty.Field(i).Type))
	}
}
