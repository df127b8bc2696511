package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/h"
)

// a text as the specification takes it
func text(s string) h.M {
	c := []string{}
	for _, r := range s {
		c = append(c, string(r))
	}
	return h.M{"s": s, "c": c}
}

func texts(ss []string) []h.M {
	out := []h.M{}
	for _, s := range ss {
		out = append(out, text(s))
	}
	return out
}

var bytesAsList bool // C19: a list of uint8 is a list

var timeTyp = reflect.TypeOf(time.Time{})

// render a value of any type as a tagged tuple
func render(v reflect.Value) h.L {
	if !v.IsValid() {
		return h.L{"p", h.L{}}
	}
	if v.Type() == timeTyp {
		t := v.Interface().(time.Time)
		if t.IsZero() {
			return h.L{"t", "zero"}
		}
		u := t.Unix()
		d := u / 86400
		if u%86400 < 0 {
			d--
		}
		return h.L{"t", fmt.Sprintf("%d:%d", d, u-d*86400) + map[bool]string{true: "", false: "+ns"}[t.Nanosecond() == 0]}
	}
	switch v.Kind() {
	case reflect.Bool:
		return h.L{"b", strconv.FormatBool(v.Bool())}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return h.L{"n", strconv.FormatInt(v.Int(), 10)}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return h.L{"n", strconv.FormatUint(v.Uint(), 10)}
	case reflect.Float32:
		return h.L{"n", strconv.FormatFloat(v.Float(), 'f', -1, 32)}
	case reflect.Float64:
		return h.L{"n", strconv.FormatFloat(v.Float(), 'f', -1, 64)}
	case reflect.String:
		return h.L{"s", v.String()}
	case reflect.Slice, reflect.Array:
		if !bytesAsList && v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			return h.L{"s", string(v.Bytes())}
		}
		es := h.L{}
		for i := 0; i < v.Len(); i++ {
			es = append(es, render(v.Index(i)))
		}
		return h.L{"l", es}
	case reflect.Ptr:
		if v.IsNil() {
			return h.L{"p", h.L{}}
		}
		return h.L{"p", h.L{render(v.Elem())}}
	case reflect.Map:
		es := h.L{}
		for _, k := range v.MapKeys() {
			es = append(es, h.L{render(k), render(v.MapIndex(k))})
		}
		sort.Slice(es, func(i, j int) bool { return fmt.Sprint(es[i]) < fmt.Sprint(es[j]) })
		return h.L{"m", es}
	case reflect.Struct:
		es := h.L{}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == "own" && v.Field(i).IsZero() {
				continue // nobody's but the owner's
			}
			es = append(es, render(v.Field(i)))
		}
		return h.L{"r", es}
	case reflect.Complex64, reflect.Complex128:
		return h.L{"s", fmt.Sprint(v.Complex())}
	case reflect.Interface, reflect.Func, reflect.Chan:
		return h.L{"s", v.Kind().String()}
	}
	return h.L{"s", "?" + v.Kind().String()}
}

var bounds = []string{"127", "128", "129", "255", "256", "32767", "32768", "32769", "65535", "65536",
	"2147483647", "2147483648", "2147483649", "4294967295", "4294967296",
	"9223372036854775807", "9223372036854775808", "9223372036854775809",
	"18446744073709551615", "18446744073709551616", "99999999999999999999", "0", "1", "7", "300", "70000", "3000000000"}

func randFloat(r *rand.Rand, digits int) string {
	var b strings.Builder
	b.WriteString(h.Pick(r, "", "", "-", "+"))
	n := 1 + r.Intn(digits)
	dot := r.Intn(n + 2)
	for i := 0; i < n; i++ {
		if i == dot {
			b.WriteByte('.')
		}
		b.WriteByte(byte('0' + r.Intn(10)))
	}
	if r.Intn(3) == 0 {
		fmt.Fprintf(&b, "%s%s%d", h.Pick(r, "e", "E"), h.Pick(r, "", "-", "+"), h.Pick(r, 0, 1, 2, 5, 12, 20, 60, 500, 70))
	}
	return b.String()
}

var words = []string{"", "true", "false", "True", "TRUE", "tRue", "t", "T", "f", "F", "on", "On", "ON", "off", "yes", "no", "1", "0",
	"abc", "héllo", "12abc", "0x1F", "1_000", " 5", "5 ", "-", "+", "--5", "+-5", "1.5", "1e3", ".", "e5", "inf", "-Inf", "NaN", "Infinity", "nanx",
	"-0", "007", "-007", "+5", "00", "1,2,3", "a, b ,c", ",,", " , x,", "x,", "a b", "日本,語", "0b11", "０"}

// randText is biased towards the texts of one kind
func randText(r *rand.Rand, kind string) string {
	switch r.Intn(6) {
	case 0:
		return words[r.Intn(len(words))]
	case 1:
		s := h.Pick(r, "", "", "-", "+", "0", "-0", "00") + bounds[r.Intn(len(bounds))]
		if r.Intn(8) == 0 {
			s += h.Pick(r, "0", "x", " ", ".", ".0")
		}
		return s
	case 2:
		d := 6
		if kind != "float32" {
			d = 15
		}
		if kind == "float32" || kind == "float64" || r.Intn(3) == 0 {
			return randFloat(r, map[bool]int{true: 6, false: d}[kind == "float32" || kind == ""])
		}
		return strconv.Itoa(r.Intn(2000) - 1000)
	case 3:
		if kind == "bool" {
			return h.Pick(r, "true", "false", "on", "1", "0", "T", "t")
		}
		return strconv.FormatInt(r.Int63()>>uint(r.Intn(63)), 10)
	case 4:
		if kind == "strs" {
			var p []string
			for i := r.Intn(4); i >= 0; i-- {
				p = append(p, h.Pick(r, "", " ", "a", " b", "c ", "d e", "\t", "longer-item", "5"))
			}
			return strings.Join(p, ",")
		}
		return strconv.Itoa(r.Intn(300) - 150)
	default:
		// short noise
		var b strings.Builder
		for i := r.Intn(5); i > 0; i-- {
			b.WriteString(h.Pick(r, "0", "1", "9", "-", "+", ".", "e", "x", ",", " ", "t"))
		}
		return b.String()
	}
}

// how many digits a text may carry so that its float is its own shortest form
func floatSafe(s, kind string) bool {
	max := 15
	if kind == "float32" {
		max = 6
	} else if kind != "float64" {
		return true
	}
	n := 0
	lead := true
	m := s
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		m = s[:i]
	}
	m2 := strings.TrimRight(strings.Map(func(c rune) rune {
		if c >= '0' && c <= '9' {
			return c
		}
		return -1
	}, m), "0")
	for _, c := range m2 {
		if lead && c == '0' {
			continue
		}
		lead = false
		n++
	}
	return n <= max && !strings.ContainsAny(s, "xXpP_")
}

func safeText(r *rand.Rand, kind string) string {
	for {
		s := randText(r, kind)
		if floatSafe(s, kind) {
			return s
		}
	}
}
