// Driver for C32: conversions between texts and values.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/utils/helpers"

	"verif/h"
)

var kinds = []string{"bool", "float32", "float64", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "string"}

// canon is the canonical text of a value.
func canon(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Float32:
		return decimal(v.Float(), 32)
	case reflect.Float64:
		return decimal(v.Float(), 64)
	}
	return fmt.Sprint(v.Interface())
}

func decimal(f float64, bits int) string {
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return strconv.FormatFloat(f, 'g', -1, bits)
	}
	return strconv.FormatFloat(f, 'f', -1, bits)
}

func chars(s string) []string {
	out := []string{}
	for _, r := range s {
		out = append(out, string(r))
	}
	return out
}

func text(s string) h.M { return h.M{"s": s, "c": chars(s)} }

// fits is the kind if the kind keeps every digit of the text, so that
// rounding never matters, else a kind that does.
func fits(k, s string) string {
	n := 0
	for _, c := range s {
		if c >= '0' && c <= '9' {
			n++
		}
	}
	if k == "float32" && n > 6 {
		k = "float64"
	}
	if k == "float64" && n > 15 {
		k = "int64"
	}
	if strings.HasPrefix(k, "float") && strings.ContainsAny(s, "_xX") {
		k = "int64" // other ways to write them
	}
	return k
}

// ask calls the method of the kind's name.
func ask(o interface{}, k string) h.M {
	m := reflect.ValueOf(o).MethodByName(strings.ToUpper(k[:1]) + k[1:])
	var out []reflect.Value
	if msg := h.Catch(func() { out = m.Call(nil) }); msg != "" {
		return h.M{"ok": false, "v": "panic: " + msg}
	}
	ok := len(out) == 1 || out[1].IsNil()
	if ok && len(out) == 2 {
		// the short form agrees
		if must := reflect.ValueOf(o).MethodByName("Must" + strings.ToUpper(k[:1]) + k[1:]); must.IsValid() {
			if w := must.Call(nil)[0]; canon(w) != canon(out[0]) {
				return h.M{"ok": ok, "v": "Must: " + canon(w)}
			}
		}
	}
	return h.M{"ok": ok, "v": canon(out[0])}
}

type (
	myInt   int
	myUint8 uint8
	myStr   string
	myBool  bool
	myF     float64
	myBytes []byte
)

// value is a value of basic kind k, or of a type named after it.
func value(r *rand.Rand, k string) interface{} {
	n := []int64{0, 1, -1, 7, 42, 127, -128, 128, 255, 256, 32767, 65535, 65536, math.MaxInt32, math.MinInt32, math.MaxUint32, math.MaxInt64, math.MinInt64, -3, r.Int63()}[r.Intn(20)]
	f := []float64{0, 1, -1, 2.5, -0.25, 100, 1e6, 0.1, 3.14, 123456, 1e20, 1.5e-5, math.Inf(1), math.NaN()}[r.Intn(14)]
	switch k {
	case "bool":
		return r.Intn(2) == 0
	case "float32":
		return float32(f)
	case "float64":
		return f
	case "int":
		return int(n)
	case "int8":
		return int8(n)
	case "int16":
		return int16(n)
	case "int32":
		return int32(n)
	case "int64":
		return n
	case "uint":
		return uint(n)
	case "uint8":
		return uint8(n)
	case "uint16":
		return uint16(n)
	case "uint32":
		return uint32(n)
	case "uint64":
		return uint64(n)
	}
	return words(r)
}

func words(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return h.Pick(r, "", "on", "off", "true", "false", "T", "F", "yes", "TRUE", "False", "tRue", "t", "f", "0", "1", "nil", "text", "é", " 1", "1 ", "0x10", "1e3", "1_000", "++1", "+", "-", ".", "1.", ".5", "-.5", "inf", "NaN", "+Inf", "-infinity")
	case 1:
		// around the limits
		b := new(big.Int).Lsh(big.NewInt(1), uint(h.Pick(r, 7, 8, 15, 16, 31, 32, 63, 64)))
		b.Add(b, big.NewInt(int64(r.Intn(5)-2)))
		if r.Intn(2) == 0 {
			b.Neg(b)
		}
		return h.Pick(r, "", "", "+", "0", "00") + b.String()
	case 2:
		s := ""
		for n := r.Intn(6); n >= 0; n-- {
			s += h.Pick(r, "0", "1", "2", "9", "5", "-", ".", "e", "1", "2")
		}
		if strings.Contains(s, "e") && len(s)-strings.Index(s, "e") > 3 {
			s = s[:strings.Index(s, "e")+2] // exponents stay small
		}
		return s
	}
	return fmt.Sprintf("%d.%d", r.Intn(2000)-1000, r.Intn(1000))
}

func number(r *rand.Rand) string {
	n := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(140))))
	return n.String()
}

// the sign and the digits (0 to 35, 99: no digit) before and after the point
func digits(s string) (neg bool, ip, fp []int) {
	ip, fp = []int{}, []int{}
	if neg = strings.HasPrefix(s, "-"); neg {
		s = s[1:]
	}
	at := &ip
	for _, c := range []byte(s) {
		switch {
		case c == '.' && at == &ip:
			at = &fp
		case c >= '0' && c <= '9':
			*at = append(*at, int(c-'0'))
		case c >= 'a' && c <= 'z':
			*at = append(*at, int(c-'a')+10)
		default:
			*at = append(*at, 99)
		}
	}
	return
}

func main() {
	h.Main(h.Area{
		N: func(c *h.Ctx) int { return (len(c.Scen)+9)/10 + c.Pick(500, 10000) },
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			r := t.R
			conv := func(s string) {
				k := fits(kinds[r.Intn(len(kinds))], s)
				in := h.M{"k": k, "t": text(s)}
				switch r.Intn(6) {
				case 0:
					if k != "string" {
						t.Ev("conv", in, ask(strip.StrTo(s), k))
						return
					}
					fallthrough
				case 1, 2:
					t.Ev("conv", in, ask(utils.StrTo(s), k))
				case 3:
					t.Ev("conv", in, ask(utils.ValueTo([]byte(s)), k))
				case 4:
					t.Ev("conv", in, ask(utils.ValueTo(myStr(s)), k))
				default:
					t.Ev("conv", in, ask(utils.ValueTo(s), k))
				}
			}
			if i < (len(c.Scen)+9)/10 {
				t.Src = "spec"
				for k := i * 10; k < i*10+10 && k < len(c.Scen); k++ {
					var s struct{ S string }
					if err := json.Unmarshal(c.Scen[k], &s); err != nil {
						panic(err)
					}
					for n := 0; n < 5; n++ {
						conv(s.S)
					}
				}
				return
			}
			t.Src = "random"
			if r.Intn(4) == 0 {
				var v helpers.SliceValue
				sets := []string{}
				for j := r.Intn(4); j >= 0; j-- {
					s := ""
					for k := r.Intn(8); k > 0; k-- {
						s += h.Pick(r, "a", "b", "a", "A", "ab", ",", ",", " ", "\t", "é", ",b", "=")
					}
					sets = append(sets, s)
					if err := v.Set(s); err != nil {
						s = err.Error()
					}
				}
				l, s := append([]string{}, v...), v.String()
				v.Unique()
				t.Ev("flag", h.M{"sets": sets}, h.M{"l": l, "s": s, "u": append([]string{}, v...)})
			}
			for n := 0; n < 25; n++ {
				if r.Intn(15) == 0 {
					// bytes are texts
					w := words(r)
					var v interface{} = []byte(w)
					s := ""
					switch r.Intn(4) {
					case 0:
						s = utils.ToStr(v)
					case 1:
						s = strip.ToStr(v)
					case 2:
						s = strip.ToStr(myBytes(w))
					default:
						w = (w + "...")[:3]
						s = strip.ToStr([3]byte{w[0], w[1], w[2]})
					}
					t.Ev("text", h.M{"k": "string", "v": w}, h.M{"t": text(s)})
					continue
				}
				k := kinds[r.Intn(len(kinds))]
				v := value(r, k)
				cv := canon(reflect.ValueOf(v))
				switch r.Intn(13) {
				case 12:
					if strings.HasPrefix(k, "float") {
						n := r.Intn(1<<16) - 1<<15
						d, p := h.Pick(r, 1, 2, 4, 8, 16), r.Intn(6)
						x := float64(n) / float64(d)
						exact := strconv.FormatFloat(x, 'f', -1, 64)
						s := ""
						switch {
						case k == "float64" && r.Intn(2) == 0:
							s = utils.ToStr(x, p, 64)
						case k == "float64":
							s = utils.ToStr(x, p)
						case r.Intn(2) == 0:
							s = utils.ToStr(float32(x), p, 32)
						default:
							s = utils.ToStr(float32(x), p)
						}
						neg, ip, fp := digits(exact)
						oneg, oip, ofp := digits(s)
						t.Ev("rounded", h.M{"neg": neg, "ip": ip, "fp": fp, "n": p}, h.M{"neg": oneg, "ip": oip, "fp": ofp})
					} else if strings.Contains(k, "int") {
						b := 2 + r.Intn(35)
						s := utils.ToStr(v, b)
						neg, d, _ := digits(cv)
						oneg, ds, _ := digits(s)
						t.Ev("based", h.M{"neg": neg, "d": d, "b": b}, h.M{"neg": oneg, "ds": ds})
					}
				case 10:
					s, d := "", h.Pick(r, ",", ";", "::", " | ", "é")
					for n := r.Intn(5); n >= 0; n-- {
						s += h.Pick(r, "", "a", " b ", "c,d", "\tx", ":", "é", "1") + h.Pick(r, d, d, d, ",", "", " ")
					}
					if d == "," && r.Intn(2) == 0 {
						t.Ev("list", h.M{"s": s, "d": d}, h.M{"l": strip.StrTo(s).Strings()})
					} else {
						t.Ev("list", h.M{"s": s, "d": d}, h.M{"l": strip.StrTo(s).Strings(d)})
					}
				case 11:
					// values of other types, and only those
					v := []interface{}{v, []string{"a", "", "b"}, []string{}, []byte("bytes"), "text", nil, []int{1}}[r.Intn(7)]
					u := utils.ValueTo(v)
					kind, l := "", []string{}
					switch w := v.(type) {
					case nil:
						kind = "nil"
					case []string:
						kind, l = "list", w
					case []byte:
						kind, l = "bytes", []string{string(w)}
					}
					t.Ev("whole", h.M{"k": kind, "l": l}, h.M{"nil": u.IsNil(), "list": append([]string{}, u.MustSliceString()...), "bytes": string(u.MustBytes()),
						"same": reflect.DeepEqual(u.Value(), v) || v != v})
				case 0, 1:
					conv(words(r))
				case 2:
					t.Ev("same", h.M{"k": k, "v": cv}, ask(utils.ValueTo(v), k))
				case 3, 4:
					// a value of another kind, by way of its text
					k2 := fits(kinds[r.Intn(len(kinds))], cv)
					if k2 == "string" && strings.HasPrefix(k, "float") || k == "float32" && k2 == "float64" {
						k2 = "bool"
					}
					if k == k2 {
						continue
					}
					t.Ev("conv", h.M{"k": k2, "t": text(cv)}, ask(utils.ValueTo(v), k2))
				case 5:
					// named types
					v := []interface{}{myInt(r.Intn(100) - 50), myUint8(r.Intn(256)), myBool(r.Intn(2) == 0), myF(float64(r.Intn(100)) / 4)}[r.Intn(4)]
					k2 := fits(kinds[r.Intn(len(kinds)-1)], canon(reflect.ValueOf(v)))
					t.Ev("conv", h.M{"k": k2, "t": text(canon(reflect.ValueOf(v)))}, ask(utils.ValueTo(v), k2))
				case 6:
					k2 := kinds[r.Intn(len(kinds)-1)]
					v := []interface{}{nil, struct{}{}, []int{1}, map[string]int{}, [1]string{"1"}, []string{"1"}, (*int)(nil), errTest("1")}[r.Intn(7)]
					t.Ev("none", h.M{"k": k2, "v": fmt.Sprintf("%#v", v)}, ask(utils.ValueTo(v), k2))
				case 7:
					s := ""
					if r.Intn(2) == 0 {
						s = utils.ToStr(v)
					} else if s = strip.ToStr(v); r.Intn(2) == 0 {
						s = strip.ToStr(&v)
						if p := reflect.New(reflect.TypeOf(v)); true {
							p.Elem().Set(reflect.ValueOf(v))
							s = strip.ToStr(p.Interface())
						}
					}
					t.Ev("text", h.M{"k": k, "v": cv}, h.M{"t": text(s)})
				case 8:
					if strings.Contains(k, "int") {
						n, err := utils.ToInt64(v)
						t.Ev("int64", h.M{"c": chars(cv)}, h.M{"ok": err == nil, "v": fmt.Sprint(n)})
					} else {
						_, err := utils.ToInt64(v)
						t.Ev("none", h.M{"k": "int64", "v": cv}, h.M{"ok": err == nil, "v": ""})
					}
				default:
					alpha := h.Pick(r, utils.HexAlphabets, utils.LowercaseAlphabets, utils.DefaultAlphabets, []byte("01"), []byte("zyx"), all[:], all[1:200])
					own := func(s string) bool {
						for _, c := range []byte(s) {
							if bytes.IndexByte(alpha, c) < 0 {
								return false
							}
						}
						return true
					}
					if r.Intn(2) == 0 {
						n := number(r)
						var tok string
						if string(alpha) == string(utils.DefaultAlphabets) {
							tok = utils.DefaultNumberEncode(n)
						} else {
							tok = utils.NumberEncode(n, alpha)
						}
						t.Ev("number", h.M{"n": n}, h.M{"back": utils.NumberDecode(tok, alpha), "own": own(tok)})
					} else {
						n := r.Intn(80)
						switch r.Intn(5) {
						case 0:
							alpha = []byte{'k'}
						case 1: // none: letters and digits
							alpha = utils.DefaultAlphabets
							s, _ := utils.RandomCreateBytes(n)
							s2 := utils.MustRandomCreateString(n)
							t.Ev("random", h.M{"n": n, "letters": 62}, h.M{"len": len(s), "own": own(string(s)) && own(s2), "differ": string(s) != s2})
							continue
						}
						s, err := utils.RandomCreateString(n, alpha...)
						if err != nil {
							s = err.Error()
						}
						if r.Intn(2) == 0 {
							s = utils.MustRandomCreateString(n, alpha...)
						}
						s2 := utils.MustRandomCreateString(n, alpha...)
						t.Ev("random", h.M{"n": n, "letters": len(alpha)}, h.M{"len": len(s), "own": own(s) && own(s2), "differ": s != s2})
					}
				}
			}
		},
	})
}

// all is every byte.
var all = func() (a [256]byte) {
	for i := range a {
		a[i] = byte(i)
	}
	return
}()

type errTest string

func (errTest) Error() string { return "1" }
