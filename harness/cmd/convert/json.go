package main

import (
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"sort"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"

	"verif/h"
)

// jsonTree makes a JSON text and, in pieces, the canonical form of its value:
// numbers are pieces of their own.
func jsonTree(t *h.Trace, depth int, exact bool, out *[]h.M) string {
	r := t.R
	put := func(n bool, s string) { *out = append(*out, h.M{"n": n, "s": s}) }
	sp := func() string { return h.Pick(r, "", "", " ", "\n\t") }
	x := r.Intn(7)
	if depth == 0 && x > 4 {
		x = r.Intn(5)
	}
	switch x {
	case 0:
		s := h.Pick(r, "null", "true", "false")
		put(false, s)
		return sp() + s + sp()
	case 1, 2:
		s := h.Pick(r, "0", "1", "-7", "12.5", "9007199254740991", "0.25")
		if exact {
			s = h.Pick(r, s, "12345678901234567890", "1e400", "1.10", "-0", "9007199254740993", "1E2")
		}
		put(true, s)
		return sp() + s + sp()
	case 3, 4:
		s := h.Pick(r, "", "a", "é\"\\", "12", "null", "a b")
		b, _ := json.Marshal(s)
		put(false, "s:"+s)
		return sp() + string(b) + sp()
	case 5:
		put(false, "[")
		l := []string{}
		for n := r.Intn(4); n > 0; n-- {
			l = append(l, jsonTree(t, depth-1, exact, out))
			put(false, ",")
		}
		put(false, "]")
		return sp() + "[" + strings.Join(l, ",") + "]"
	default:
		put(false, "{")
		l := []string{}
		for _, k := range []string{"a", "b", "c"} {
			if r.Intn(2) == 0 {
				put(false, k+"=")
				l = append(l, `"`+k+`":`+jsonTree(t, depth-1, exact, out))
				put(false, ",")
			}
		}
		put(false, "}")
		return "{" + strings.Join(l, ",") + "}" + sp()
	}
}

func jsonForm(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return fmt.Sprint(x)
	case json.Number:
		return "number " + string(x)
	case float64:
		return "float " + decimal(x)
	case string:
		return "s:" + x
	case []interface{}:
		s := "["
		for _, e := range x {
			s += jsonForm(e) + ","
		}
		return s + "]"
	case map[string]interface{}:
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += k + "=" + jsonForm(x[k]) + ","
		}
		return s + "}"
	}
	return fmt.Sprintf("%T", v)
}

func decimal(f float64) string {
	b, _ := json.Marshal(f)
	return string(b)
}

func runJson(t *h.Trace) {
	r := t.R
	sp := strip.New()
	sp.SetLogger(strip.NewLogger(discard{}))
	sp.Provide(params.ParamsParser())
	var f func(p *params.Params)
	sp.Routers(strip.Router("/r", strip.Any(func(p *params.Params) { f(p) })))
	for q := 0; q < 4; q++ {
		num := r.Intn(2) == 0
		parts := []h.M{}
		body := jsonTree(t, 3, num, &parts)
		kind := h.Pick(r, "good", "good", "good", "empty", "bad")
		switch kind {
		case "empty":
			body, parts = "", []h.M{{"n": false, "s": "s:as before"}}
		case "bad":
			body = h.Pick(r, "{", "[1,", "x", `{"a"`, "nul", `"a`, " ", strings.Repeat("[", 600))
		}
		var dest interface{} = "as before"
		err, msg, form := "none", "", ""
		f = func(p *params.Params) {
			var e error
			switch {
			case num:
				e = p.BindJsonBody(&dest, true)
			case r.Intn(2) == 0:
				e = p.BindJsonBody(&dest, false)
			default:
				e = p.BindJsonBody(&dest)
			}
			err = ""
			if e != nil {
				err = "error"
			}
			form = jsonForm(dest)
		}
		req := httptest.NewRequest(h.Pick(r, "POST", "PUT"), "/r?a=1", strings.NewReader(body))
		req.Header.Set("Content-Type", h.Pick(r, "application/json", "application/json; charset=utf-8", "text/plain"))
		msg = h.Catch(func() { sp.ServeHTTP(httptest.NewRecorder(), req) })
		t.Ev("json", h.M{"parts": parts, "num": num, "bad": kind == "bad"}, h.M{"form": form, "err": err, "panic": msg})
	}
}
