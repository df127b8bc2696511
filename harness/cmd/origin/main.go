// Driver for C31: what requests say about where they came from.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"

	"verif/h"
)

type request struct {
	RealIp, FwdFor, Remote, FwdHost, Host, FwdProto, Scheme, OrigUri, Uri string
}

func (q request) in() h.M {
	return h.M{"realip": q.RealIp, "fwdfor": q.FwdFor, "remote": q.Remote, "fwdhost": q.FwdHost, "host": q.Host,
		"fwdproto": q.FwdProto, "scheme": q.Scheme, "origuri": q.OrigUri, "uri": q.Uri}
}

// parse makes the request as a server gets it.
func (q request) parse() (*http.Request, error) {
	text := "GET " + q.Uri + " HTTP/1.1\r\n"
	host := q.Host
	text += "Host: " + host + "\r\n"
	for _, kv := range [][2]string{{"x-real-ip", q.RealIp}, {"X-Forwarded-For", q.FwdFor}, {"x-forwarded-host", q.FwdHost},
		{"X-FORWARDED-PROTO", q.FwdProto}, {"X-Original-URI", q.OrigUri}} {
		if kv[1] != "" {
			text += kv[0] + ": " + kv[1] + "\r\n"
		}
	}
	req, err := http.ReadRequest(bufio.NewReader(strings.NewReader(text + "\r\n")))
	if err != nil {
		return nil, err
	}
	req.RemoteAddr = q.Remote
	if q.Scheme != "" {
		req.URL.Scheme = q.Scheme
		req.RequestURI = ""
	}
	return req, nil
}

type views struct {
	ip, host, proto, uri func() string
	url                  func() (*url.URL, error)
}

func (v views) obs() h.M {
	o := h.M{}
	put := func(k string, f func() string) {
		s := ""
		if msg := h.Catch(func() { s = f() }); msg != "" {
			s = "panic: " + msg
		}
		o[k] = s
	}
	put("ip", v.ip)
	put("host", v.host)
	put("proto", v.proto)
	put("uri", v.uri)
	put("url", func() string {
		u, err := v.url()
		if err != nil {
			return "error: " + err.Error()
		}
		return u.String()
	})
	return o
}

type nothing struct{}

func (nothing) Header() http.Header         { return http.Header{} }
func (nothing) Write(p []byte) (int, error) { return len(p), nil }
func (nothing) WriteHeader(int)             {}

func main() {
	h.Main(h.Area{
		N: func(c *h.Ctx) int { return (len(c.Scen)+19)/20 + c.Pick(300, 5000) },
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			r := t.R
			t.Src = "random"
			var qs []request
			if i < (len(c.Scen)+19)/20 {
				t.Src = "spec"
				for k := i * 20; k < i*20+20 && k < len(c.Scen); k++ {
					var q request
					if err := json.Unmarshal(c.Scen[k], &q); err != nil {
						panic(err)
					}
					qs = append(qs, q)
				}
			} else {
				ip := func() string {
					if r.Intn(2) == 0 {
						return net.IPv4(byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))).String()
					}
					return h.Pick(r, "2001:db8::1", "::1", "::", "fe80::1%eth0", "::ffff:1.2.3.4", "1:2:3:4:5:6:7:8", fmt.Sprintf("%x:%x::", 1+r.Intn(65535), r.Intn(65536)))
				}
				join := func(a string) string {
					if strings.Contains(a, ":") {
						a = "[" + a + "]"
					}
					return a + ":" + fmt.Sprint(r.Intn(65536))
				}
				addr := func() string {
					if r.Intn(20) == 0 { // a proxy need not tell
						return h.Pick(r, "unknown", "_hidden", "localhost")
					}
					switch a := ip(); r.Intn(3) {
					case 0:
						return a
					case 1:
						if strings.Contains(a, ":") {
							return "[" + a + "]"
						}
						return a
					default:
						return join(a)
					}
				}
				host := func() string {
					a := h.Pick(r, "a.com", "localhost", "x-y.example.org", "1.2.3.4", "[2001:db8::1]", "[::1]", "A.Com")
					if r.Intn(2) == 0 {
						a += ":" + fmt.Sprint(1+r.Intn(65535))
					}
					return a
				}
				some := func(f func() string) string {
					if r.Intn(2) == 0 {
						return ""
					}
					return f()
				}
				uri := func() string {
					u := ""
					for n := 1 + r.Intn(3); n > 0; n-- {
						u += "/" + h.Pick(r, "", "a", "b%20c", "d%2Fe", "%E4%B8%96", "x.html", "a+b", "a;b", "~", "a=b&c", "!$'()*,:@", "%2e%2e")
					}
					if strings.HasPrefix(u, "//") {
						u = "/a" + u
					}
					if r.Intn(2) == 0 {
						u += "?" + h.Pick(r, "a=1", "a=1&b=%20", "q=/x?y", "a", "=", "x=//y")
					}
					return u
				}
				for n := 20; n > 0; n-- {
					q := request{RealIp: some(ip), FwdHost: some(host), Host: host(), Remote: join(ip()), FwdProto: some(func() string { return h.Pick(r, "http", "https", "wss") }),
						Uri: uri(), OrigUri: some(uri)}
					if r.Intn(3) > 0 {
						q.RealIp = ""
					}
					if r.Intn(2) == 0 {
						q.FwdFor = addr()
						for r.Intn(2) == 0 {
							q.FwdFor += h.Pick(r, ",", ", ", " , ") + addr()
						}
					} else if r.Intn(6) == 0 {
						q.FwdFor = ", " + addr()
					}
					if r.Intn(6) == 0 {
						q.Scheme = h.Pick(r, "https", "http")
					}
					qs = append(qs, q)
				}
			}
			for _, q := range qs {
				req, err := q.parse()
				if err != nil {
					panic(err)
				}
				if q.Scheme != "" {
					// as of a client's request: the URI is that of the URL
					req.URL.Host = q.Host
				}
				v := views{func() string { return params.RealIp(req) }, func() string { return params.RealHost(req) }, func() string { return params.RealProto(req) },
					func() string { return params.RealURI(req) }, func() (*url.URL, error) { return params.RealURL(req) }}
				was := *req.URL
				o := v.obs()
				o["kept"] = reflect.DeepEqual(was, *req.URL) && reflect.DeepEqual(o, v.obs())
				t.Ev("fn", q.in(), o)
				if r.Intn(4) == 0 {
					// the same through an application's parameters
					sp := strip.New()
					sp.Provide(params.ParamsParser())
					var o h.M
					sp.Filter(func(p *params.Params) {
						o = views{p.RealIp, p.RealHost, p.RealProto, p.RealURI, p.RealURL}.obs()
					})
					uri := req.RequestURI
					sp.ServeHTTP(nothing{}, req)
					req.RequestURI = uri
					if o != nil {
						o["kept"] = true
						t.Ev("params", q.in(), o)
					}
				}
			}
		},
	})
}
