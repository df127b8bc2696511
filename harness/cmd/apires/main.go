// Driver for C28: derivations of API errors, and replies made of them and of
// other bodies.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math"
	"math/rand"
	"mime"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"testing/iotest"
	"unicode/utf8"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils/apires"

	"verif/h"
)

// canon is the canonical JSON text of a JSON text, "!" for other texts.
func canon(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if d.Decode(&v) != nil {
		return "!"
	}
	if _, err := d.Token(); err != io.EOF {
		return "!"
	}
	b, err := json.Marshal(v)
	if err != nil {
		return "!"
	}
	return string(b)
}

func text(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "!"
	}
	return canon(b)
}

// fields are the parts of an error's JSON.
func fields(b []byte) h.M {
	out := h.M{"code": -1, "msg": "", "data": "null"}
	var m map[string]json.RawMessage
	if canon(b) == "!" || json.Unmarshal(b, &m) != nil {
		return out
	}
	code, msg := 0, ""
	for k, v := range m {
		var err error
		switch k {
		case "code":
			err = json.Unmarshal(v, &code)
		case "message":
			err = json.Unmarshal(v, &msg)
		case "data":
			out["data"] = canon(v)
		default:
			err = errors.New("other key")
		}
		if err != nil {
			return out
		}
	}
	out["code"], out["msg"] = code, msg
	return out
}

type point struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
	z int
}

type marshals struct{ s string }

func (m marshals) MarshalJSON() ([]byte, error) {
	if m.s == "" {
		return nil, errors.New("no text")
	}
	return json.Marshal("<" + m.s + ">")
}

type failure struct{ Why string }

func (f *failure) Error() string { return "failure: " + f.Why }

// value is any value, encodable or not.
func value(r *rand.Rand) interface{} {
	var np *point
	vs := []interface{}{nil, 1, 0, -7, 2.5, true, false, "s", "", "a\"b<&>\n", "é世", []int{1, 2}, []int{}, []int(nil), map[string]int{"b": 1, "a": 2},
		map[string]interface{}{"l": []interface{}{nil, "x"}}, point{X: 1, z: 2}, &point{X: 2, Y: "y"}, np, []byte("bytes"), marshals{"m"},
		errors.New("plain"), &failure{"w"}, json.RawMessage(`{"raw": 1}`), math.MaxInt64, uint64(math.MaxUint64)}
	if r.Intn(6) == 0 {
		vs = []interface{}{make(chan int), func() {}, math.NaN(), math.Inf(1), marshals{}, map[string]interface{}{"f": func() {}}, []interface{}{1, make(chan int)},
			json.RawMessage(`{`), map[point]int{{}: 1}, complex(1, 2)}
	}
	return vs[r.Intn(len(vs))]
}

func message(r *rand.Rand) string {
	return h.Pick(r, "", "m", "not found", "a\"b", "<b>&", "100%", "%d", "é\n", "x")
}

type closer struct {
	io.Reader
	n *int
}

func (c closer) Close() error { *c.n++; return nil }

// counter counts the records of the application's logger.
type counter struct{ n int32 }

func (c *counter) Print(...interface{}) { atomic.AddInt32(&c.n, 1) }

// slow gives its text in small pieces.
type slow struct{ s string }

func (s *slow) Read(p []byte) (int, error) {
	if s.s == "" {
		return 0, io.EOF
	}
	n := copy(p[:1], s.s)
	s.s = s.s[n:]
	return n, nil
}

type run struct {
	t  *h.Trace
	r  *rand.Rand
	es []*apires.ResError

	records *counter
}

func (x *run) snap() h.L {
	out := h.L{}
	for _, e := range x.es {
		ok, status := apires.GetHttpCode(e)
		if !ok || !apires.IsResError(e) || status != e.HttpCode() {
			status = -1
		}
		d := text(e.Data)
		said := fields([]byte(e.Error()))
		if d == "!" {
			said = h.M{"code": 0, "msg": "", "data": "!"}
		}
		out = append(out, h.M{"status": status, "code": e.Code, "msg": e.Message, "data": d, "said": said})
	}
	return out
}

func (x *run) ev(op string, in, obs h.M) {
	if obs == nil {
		obs = h.M{}
	}
	obs["snap"] = x.snap()
	x.t.Ev(op, in, obs)
}

func (x *run) fresh(status, code int, msg string) {
	var e *apires.ResError
	d := "null"
	if x.r.Intn(2) == 0 {
		e = apires.NewResError(status, code, msg)
	} else {
		v := value(x.r)
		d = text(v)
		e = apires.NewResError(status, code, msg, v)
	}
	x.es = append(x.es, e)
	x.ev("new", h.M{"status": status, "code": code, "msg": msg, "data": d}, nil)
}

func (x *run) withData(of, kind int) {
	e := x.es[of-1]
	var v interface{}
	txt := []string{}
	switch kind {
	case 1:
		s := message(x.r)
		v, txt = s, []string{s}
	case 2:
		v = h.Pick[interface{}](x.r, 1, nil, point{X: 1}, []int{3})
	case 3:
		v = value(x.r)
		if x.r.Intn(6) == 0 {
			v = x.es[x.r.Intn(len(x.es))]
		}
		switch w := v.(type) {
		case error:
			txt = []string{w.Error()}
		case string:
			txt = []string{w}
		}
	}
	given := []string{}
	if x.r.Intn(3) == 0 {
		given = []string{message(x.r)}
	}
	d := text(v)
	x.es = append(x.es, e.WithData(v, given...))
	x.ev("data", h.M{"of": of, "data": d, "given": given, "text": txt}, nil)
}

func (x *run) withMsg(of int) {
	e := x.es[of-1]
	m := message(x.r)
	if x.r.Intn(2) == 0 {
		x.es = append(x.es, e.WithMsg(m))
	} else {
		f, v := strings.Replace(m, "%", "%%", -1)+h.Pick(x.r, "%d", " %v", "%s"), value(x.r)
		x.es = append(x.es, e.WithMsgf(f, v))
		m = fmt.Sprintf(f, v)
		if !utf8.ValidString(m) {
			m = "?"
		}
	}
	x.ev("msg", h.M{"of": of, "msg": m}, nil)
}

func (x *run) equal() {
	of := 1 + x.r.Intn(len(x.es))
	others := []int{}
	var es []*apires.ResError
	for n := x.r.Intn(4); n > 0; n-- {
		k := 1 + x.r.Intn(len(x.es))
		others, es = append(others, k), append(es, x.es[k-1])
	}
	x.ev("equal", h.M{"of": of, "others": others}, h.M{"eq": x.es[of-1].EqualAny(es...)})
}

// ask serves n requests with an action giving the result, some at once.
// cut shortens a long text to its beginning and its checksum.
func cut(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%s... %d %x", s[:30], len(s), crc32.ChecksumIEEE([]byte(s)))
	}
	return s
}

func (x *run) ask(n int, result interface{}) h.L {
	r := x.r
	sp := strip.New()
	x.records = new(counter)
	sp.SetLogger(strip.NewLogger(x.records))
	sp.Config.RunMode = h.Pick(r, strip.Mode("dev"), strip.Mode("prod"))
	sp.Filter(strip.GenericOutFilter())
	if ct := h.Pick(r, "", "", "text/html", "application/json"); ct != "" {
		sp.Filter(func(rw http.ResponseWriter) { rw.Header().Set("Content-Type", ct) })
	}
	var act interface{}
	kind := r.Intn(4)
	switch {
	case kind == 0:
		act = func() interface{} { return result }
	case kind == 1:
		act = func() strip.ActionResult { return result.(strip.ActionResult) }
	case kind == 2:
		act = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
			result.(strip.ActionResult).Write(ctx, rw, req)
		}
	default:
		switch v := result.(type) {
		case *apires.ResError:
			if r.Intn(2) == 0 {
				act = func() error { return v }
			} else {
				act = func() *apires.ResError { return v }
			}
		case *apires.ResBody:
			act = func() *apires.ResBody { return v }
		case *apires.RawBody:
			act = func() *apires.RawBody { return v }
		}
	}
	sp.Routers(strip.Router("/x", strip.Get(act)))
	outs := make(h.L, n)
	one := func(i int) {
		rec := httptest.NewRecorder()
		msg := h.Catch(func() { sp.ServeHTTP(rec, httptest.NewRequest("GET", "/x", nil)) })
		res := rec.Result()
		b, _ := io.ReadAll(res.Body)
		status := res.StatusCode
		if msg != "" {
			status = -1
		}
		mt, ps, _ := mime.ParseMediaType(res.Header.Get("Content-Type"))
		json := mt == "application/json" && (ps["charset"] == "" || strings.EqualFold(ps["charset"], "utf-8")) && canon(b) != "!"
		txt := string(b)
		if json {
			txt = canon(b)
		}
		outs[i] = h.M{"status": status, "len": len(b), "json": json, "text": cut(txt), "fields": fields(b)}
	}
	sp.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/nowhere", nil))
	if n > 1 && r.Intn(2) == 0 {
		var wg sync.WaitGroup
		for i := range outs {
			wg.Add(1)
			go func(i int) { defer wg.Done(); one(i) }(i)
		}
		wg.Wait()
	} else {
		for i := range outs {
			one(i)
		}
	}
	return outs
}

func (x *run) send(of int) {
	outs := x.ask(1+x.r.Intn(3), x.es[of-1])
	x.ev("send", h.M{"of": of}, h.M{"outs": outs, "quiet": x.records.n == 0})
}

func (x *run) reply() {
	r := x.r
	status := h.Pick(r, 0, 200, 200, 201, 202, 204, 400, 404, 418, 500, 503)
	given := r.Intn(4) > 0
	if !given {
		status = 200
	}
	raw := r.Intn(2) == 0
	kind := "json"
	var body interface{}
	txt := ""
	closed, stream, broken := 0, false, false
	n := 1 + r.Intn(2)
	switch k := r.Intn(4); {
	case k == 0:
		kind = "none"
	case k == 1 && raw:
		kind = "text"
		txt = h.Pick(r, "", "text", "a\nb", `{"looks":"like json"}`, "<html>", strings.Repeat("0123456789", 25))
		n = 1
		if r.Intn(6) == 0 {
			txt = strings.Repeat("0123456789abcde\n", 1+r.Intn(5000))
		}
		one := func(s io.Reader) io.Reader {
			if r.Intn(2) == 0 {
				return iotest.DataErrReader(s) // the last piece comes with the end
			}
			return s
		}
		switch r.Intn(7) {
		case 6: // reading it fails once this much is read
			body = closer{io.MultiReader(strings.NewReader(txt), iotest.ErrReader(io.ErrUnexpectedEOF)), &closed}
			stream = status != 204
			broken = stream
		case 0:
			body = []byte(txt)
		case 1:
			body = one(strings.NewReader(txt))
		case 2:
			body = bytes.NewBufferString(txt)
		case 3:
			body = struct {
				closer
				io.Writer
			}{closer{one(strings.NewReader(txt)), &closed}, nil}
			stream = status != 204
		case 4:
			body = closer{one(&slow{txt}), &closed}
			stream = status != 204
		default:
			body = txt
			n = 1 + r.Intn(2)
		}
	default:
		body = value(r)
		if raw {
			// of a raw response, these are texts
			switch v := body.(type) {
			case string:
				kind, txt = "text", v
			case []byte:
				kind, txt = "text", string(v)
			}
		}
		if body == nil {
			kind = "none"
		} else if kind == "json" {
			if txt = text(body); txt == "!" {
				kind, txt = "bad", ""
			}
		}
	}
	var res interface{}
	switch {
	case raw && body == nil && given:
		res = apires.RawRet(status)
	case raw && given:
		res = apires.RawWith(body, status)
	case raw:
		res = apires.RawWith(body)
	case body == nil && given:
		res = apires.Ret(status)
	case given:
		res = apires.With(body, status)
	default:
		res = apires.With(body)
	}
	in := h.M{"kind": kind, "raw": raw, "status": status, "text": cut(txt), "stream": stream, "broken": broken}
	outs := x.ask(n, res)
	for _, o := range outs {
		// a text which happens to be JSON is compared as it is
		if m := o.(h.M); kind == "text" && m["json"].(bool) {
			m["text"] = txt
			if m["len"] != len(txt) {
				m["text"] = "other"
			}
		}
	}
	x.ev("reply", in, h.M{"outs": outs, "quiet": x.records.n == 0, "closed": closed})
}

var statuses = []int{0, 200, 204, 400, 401, 404, 404, 500, 599}
var codes = []int{0, 1, 2, 404, -1}

func main() {
	h.Main(h.Area{
		N: func(c *h.Ctx) int { return len(c.Scen) + c.Pick(1500, 30000) },
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			r := t.R
			x := &run{t: t, r: r}
			if i < len(c.Scen) {
				t.Src = "spec"
				var steps []struct {
					Op       string
					Of, S, C int
				}
				if err := json.Unmarshal(c.Scen[i], &steps); err != nil {
					panic(err)
				}
				x.fresh(404, 1, "m")
				for _, s := range steps {
					switch s.Op {
					case "new":
						x.fresh(s.S, s.C, "m")
					case "msg":
						x.withMsg(s.Of)
					case "data":
						x.withData(s.Of, s.C)
					case "write":
						x.send(s.Of)
					}
				}
				x.equal()
				return
			}
			t.Src = "random"
			x.fresh(statuses[r.Intn(len(statuses))], codes[r.Intn(len(codes))], message(r))
			for n := 4 + r.Intn(8); n > 0; n-- {
				of := 1 + r.Intn(len(x.es))
				switch k := r.Intn(14); {
				case k < 2:
					x.fresh(statuses[r.Intn(len(statuses))], codes[r.Intn(len(codes))], message(r))
				case k < 5:
					x.withData(of, 1+r.Intn(3))
				case k < 7:
					x.withMsg(of)
				case k < 9:
					x.equal()
				case k < 12:
					x.send(of)
				default:
					x.reply()
				}
			}
		},
	})
}
