package main

import (
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"

	"verif/h"
)

type (
	nInt    int
	nInt8   int8
	nUint   uint
	nUint16 uint16
	nF32    float32
	nBool   bool
	nStr    string
	nStrs   []string
	nBytes  []byte
)

// kind -> types of that kind
var kindTypes = map[string][]reflect.Type{
	"bool":    {reflect.TypeOf(false), reflect.TypeOf(nBool(false))},
	"int":     {reflect.TypeOf(int(0)), reflect.TypeOf(nInt(0))},
	"int8":    {reflect.TypeOf(int8(0)), reflect.TypeOf(nInt8(0))},
	"int16":   {reflect.TypeOf(int16(0))},
	"int32":   {reflect.TypeOf(int32(0))},
	"int64":   {reflect.TypeOf(int64(0))},
	"uint":    {reflect.TypeOf(uint(0)), reflect.TypeOf(nUint(0))},
	"uint8":   {reflect.TypeOf(uint8(0))},
	"uint16":  {reflect.TypeOf(uint16(0)), reflect.TypeOf(nUint16(0))},
	"uint32":  {reflect.TypeOf(uint32(0))},
	"uint64":  {reflect.TypeOf(uint64(0))},
	"float32": {reflect.TypeOf(float32(0)), reflect.TypeOf(nF32(0))},
	"float64": {reflect.TypeOf(float64(0))},
	"string":  {reflect.TypeOf(""), reflect.TypeOf(nStr(""))},
	"bytes":   {reflect.TypeOf([]byte(nil)), reflect.TypeOf(nBytes(nil))},
	"strs":    {reflect.TypeOf([]string(nil)), reflect.TypeOf(nStrs(nil))},
	// kinds configuration can not be bound to
	"ints":  {reflect.TypeOf([]int(nil))},
	"map":   {reflect.TypeOf(map[string]string(nil))},
	"cplx":  {reflect.TypeOf(complex128(0))},
	"iface": {reflect.TypeOf((*interface{})(nil)).Elem()},
	"array": {reflect.TypeOf([2]string{})},
	"fn":    {reflect.TypeOf(func() {})},
}

var scalarKinds = []string{"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64",
	"float32", "float64", "string"}
var confKinds = append(append([]string{}, scalarKinds...), "bytes", "strs")
var oddKinds = []string{"ints", "map", "cplx", "iface", "array", "fn"}

// a non-zero value to find untouched or overwritten
func preset(t *h.Trace, v reflect.Value) {
	if t.R.Intn(3) == 0 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(42)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(43)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(44.5)
	case reflect.String:
		v.SetString("preset")
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 4))
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		preset(t, v.Elem())
	}
}

type kv struct{ k, v string }

// configured writes the data as INI text and loads it; values are quoted so
// that they are exact (what the text of a file denotes is C16)
func configured(t *h.Trace, data []kv) *strip.Config {
	var b strings.Builder
	for _, d := range data {
		sec, key := "", d.k
		if i := strings.Index(d.k, "::"); i >= 0 {
			sec, key = d.k[:i], d.k[i+2:]
		}
		if sec == "" {
			sec = "default"
		}
		if d.v == "" {
			fmt.Fprintf(&b, "[%s]\n%s =\n", sec, key)
			continue
		}
		fmt.Fprintf(&b, "[%s]\n%s = `%s`\n", sec, key, d.v)
	}
	c, err := config.LoadIniFromReader(strings.NewReader(b.String()))
	if err != nil {
		panic(fmt.Sprintf("harness: %v in %q", err, b.String()))
	}
	sp := strip.New()
	if t.R.Intn(2) == 0 {
		sp.ImportConfig(c)
	} else {
		sp.Config.Configer = c
	}
	// the application's own settings
	keys := []string{"run_path", "run_mode", "http_addr", "http_port"}
	env := []string{"", "", "", ""}
	for i, k := range keys {
		if t.R.Intn(4) == 0 {
			env[i] = h.Pick(t.R, "/env", "dev", "::1", "81")
			os.Setenv(strings.ToUpper(k), env[i])
		}
	}
	own := strip.New()
	o := own.Config
	now := func() []h.L {
		return []h.L{{"s", o.RunPath}, {"s", string(o.RunMode)}, {"s", o.HttpAddr}, {"s", o.HttpPort}}
	}
	first := now()
	own.ImportConfig(c)
	second := now()
	// what a later configuration does not name stays as it is
	more := []h.M{}
	for n := t.R.Intn(3); n > 0; n-- {
		data := []kv{}
		text := ""
		for _, k := range keys {
			if t.R.Intn(3) == 0 {
				v := h.Pick(t.R, "/srv/y", "prod", "::", "9090", "dev", "test", "z z", "0")
				data = append(data, kv{k, v})
				text += k + " = `" + v + "`\n"
			}
		}
		c, err := config.LoadIniFromReader(strings.NewReader(text))
		if err != nil {
			panic(fmt.Sprintf("harness: %v in %q", err, text))
		}
		own.ImportConfig(c)
		more = append(more, h.M{"data": dataCfg(data), "vals": now()})
	}
	is := []bool{o.RunMode.IsProd(), o.RunMode.IsDev(), o.RunMode.IsTest()}
	for _, k := range keys {
		os.Unsetenv(strings.ToUpper(k))
	}
	root, _ := os.Getwd()
	vars := []h.M{}
	for _, v := range []string{root, "prod", "127.0.0.1", "3000"} {
		vars = append(vars, h.M{"kind": "string", "ptr": false, "pre": h.L{"s", v}})
	}
	imported = func() {
		t.Ev("import", h.M{"keys": keys, "vars": vars, "env": env}, h.M{"first": first, "vals": second, "more": more, "is": is})
	}
	return sp.Config
}

var imported func()

func dataCfg(data []kv) []h.M {
	out := []h.M{}
	for _, d := range data {
		out = append(out, h.M{"k": d.k, "v": text(d.v)})
	}
	return out
}

func typeOf(t *h.Trace, kind string, ptr bool) reflect.Type {
	ts := kindTypes[kind]
	ty := ts[t.R.Intn(len(ts))]
	if ptr {
		ty = reflect.PtrTo(ty)
	}
	return ty
}

func pickKind(t *h.Trace) (kind string, ptr bool) {
	if t.R.Intn(10) == 0 {
		return oddKinds[t.R.Intn(len(oddKinds))], t.R.Intn(4) == 0
	}
	return confKinds[t.R.Intn(len(confKinds))], t.R.Intn(4) == 0
}

func runConf(c *h.Ctx, t *h.Trace, ts []string) {
	for _, k := range os.Environ() {
		if strings.HasPrefix(k, "RUN_") || strings.HasPrefix(k, "HTTP_") || strings.HasPrefix(k, "K") || strings.HasPrefix(k, "S") {
			os.Unsetenv(strings.SplitN(k, "=", 2)[0])
		}
	}
	r := t.R
	var data []kv
	if ts != nil {
		for i, s := range ts {
			data = append(data, kv{fmt.Sprintf("k%d", i), s})
		}
		t.Cfg = h.M{"data": dataCfg(data)}
		cfg := configured(t, data)
		for i := range ts {
			for _, k := range confKinds {
				if floatSafe(ts[i], k) {
					bindOne(t, cfg, k, r.Intn(8) == 0, fmt.Sprintf("k%d", i))
				}
			}
		}
		return
	}
	// random keys; kinds[i] says for what kind the text was made
	names := []string{"k1", "k2", "k3", "k4", "k5", "k6", "sec::k1", "sec::k2", "sec::k3", "oth::k1", "oth::k2"}
	// nobody asks for what bears the name of an untagged field
	for _, s := range []string{"", "", "sec::", "sec::", "oth::", "nosec::"} {
		n := fmt.Sprintf("%sF%d", s, 1+r.Intn(8))
		if !has(names, n) {
			names = append(names, n)
		}
	}
	kinds := map[string]string{}
	for _, n := range names {
		kinds[n], _ = pickKind(t)
		if r.Intn(5) > 0 {
			data = append(data, kv{n, safeText(r, kinds[n])})
		}
	}
	for _, n := range []string{"run_path", "run_mode", "http_addr", "http_port"} {
		if r.Intn(3) == 0 {
			data = append(data, kv{n, h.Pick(r, "/srv/x", "prod", "0.0.0.0", "8080", "dev", "é", "a b", "")})
		}
	}
	t.Cfg = h.M{"data": dataCfg(data)}
	cfg := configured(t, data)
	imported()
	look := func(n string) string {
		for _, d := range data {
			if d.k == n {
				return d.v
			}
		}
		return ""
	}
	pick := func(n string) (string, bool) {
		for {
			k, p := pickKind(t)
			if kinds[n] != "" && r.Intn(2) == 0 {
				k = kinds[n]
			}
			if floatSafe(look(n), k) {
				return k, p
			}
		}
	}
	for i := 0; i < 6; i++ {
		n := names[r.Intn(len(names))]
		k, p := pick(n)
		bindOne(t, cfg, k, p, n)
	}
	// tagged structs
	for i := 0; i < 3; i++ {
		var build func(sec string, depth int) (reflect.Type, []h.M)
		fresh := 0
		build = func(sec string, depth int) (reflect.Type, []h.M) {
			var sf []reflect.StructField
			fs := []h.M{}
			for j := 1 + r.Intn(5); j > 0; j-- {
				fresh++
				name := fmt.Sprintf("F%d", fresh)
				x := r.Intn(10)
				if depth == 0 && sec == "" && x == 0 {
					tag := h.Pick(r, "sec", "oth", "nosec", "", "-")
					ty, sub := build(tag+"!", 1)
					sf = append(sf, reflect.StructField{Name: name, Type: ty, Tag: confTag(tag)})
					fs = append(fs, h.M{"f": "sec", "tag": tag, "fs": sub})
					continue
				}
				if depth < 2 && !strings.HasSuffix(sec, "!") && x == 1 {
					ty, sub := build(sec, depth+1)
					sf = append(sf, reflect.StructField{Name: name, Type: ty, Anonymous: true})
					fs = append(fs, h.M{"f": "emb", "tag": "", "fs": sub})
					continue
				}
				key := h.Pick(r, "k1", "k2", "k3", "k4", "k5", "k6", "k9")
				full := key
				if s := strings.TrimSuffix(sec, "!"); s != "" {
					full = s + "::" + key
				}
				k, p := pick(full)
				if x == 2 {
					key = ""
				} else if x == 3 {
					key = "-"
				}
				sf = append(sf, reflect.StructField{Name: name, Type: typeOf(t, k, p), Tag: confTag(key)})
				fs = append(fs, h.M{"f": "var", "tag": key, "kind": k, "ptr": p})
			}
			return reflect.StructOf(sf), fs
		}
		ty, fs := build("", 0)
		v := reflect.New(ty)
		presetStruct(t, v.Elem(), fs)
		// an excluded field is not even one named "-"
		dashes := []string{"_", "SEC__", "OTH__", "NOSEC__"}
		for _, k := range dashes {
			os.Setenv(k, h.Pick(r, "1", "true", "17"))
		}
		msg := h.Catch(func() { config.Decode(cfg, v.Interface()) })
		for _, k := range dashes {
			os.Unsetenv(k)
		}
		t.Ev("decode", h.M{"fs": fs}, h.M{"val": render(v.Elem()), "panic": msg})
	}
}

func has(ns []string, n string) bool {
	for _, s := range ns {
		if s == n {
			return true
		}
	}
	return false
}

func confTag(s string) reflect.StructTag {
	if s == "" {
		return `json:"x"`
	}
	return reflect.StructTag(fmt.Sprintf(`conf:"%s"`, s))
}

func presetStruct(t *h.Trace, v reflect.Value, fs []h.M) {
	for i, f := range fs {
		if sub, ok := f["fs"]; ok {
			presetStruct(t, v.Field(i), sub.([]h.M))
			continue
		}
		preset(t, v.Field(i))
		f["pre"] = render(v.Field(i))
	}
}

func bindOne(t *h.Trace, cfg *strip.Config, kind string, ptr bool, key string) {
	v := reflect.New(typeOf(t, kind, ptr))
	preset(t, v.Elem())
	in := h.M{"v": h.M{"kind": kind, "ptr": ptr, "pre": render(v.Elem())}, "key": key}
	msg := h.Catch(func() { cfg.Bind(v.Interface(), key) })
	t.Ev("bind", in, h.M{"val": render(v.Elem()), "panic": msg})
}
