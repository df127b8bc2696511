// Driver for C16: loads INI texts, builds layers, and looks keys up.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/utils/helpers"

	"verif/h"
)

func text(s string) h.M {
	c := []string{}
	for _, r := range s {
		c = append(c, string(r))
	}
	return h.M{"s": s, "c": c}
}

func texts(ss []string) []h.M {
	out := []h.M{}
	for _, s := range ss {
		out = append(out, text(s))
	}
	return out
}

const batch = 25

// a letter which stands for very many, in the texts and in what is found
const many = "\u0177"

var expanded = strings.Repeat("\u0177y", 30000)

func short(s string) string { return strings.ReplaceAll(s, expanded, many) }

// records counts the complaints
type records struct {
	strip.LoggerAdv
	n int
}

func (l *records) Warn(v ...interface{})                 { l.n++ }
func (l *records) Warnf(f string, v ...interface{})      { l.n++ }
func (l *records) Error(v ...interface{})                { l.n++ }
func (l *records) Errorf(f string, v ...interface{})     { l.n++ }
func (l *records) Critical(v ...interface{})             { l.n++ }
func (l *records) Criticalf(f string, v ...interface{})  { l.n++ }
func (l *records) Alert(v ...interface{})                { l.n++ }
func (l *records) Alertf(f string, v ...interface{})     { l.n++ }
func (l *records) Emergency(v ...interface{})            { l.n++ }
func (l *records) Emergencyf(f string, v ...interface{}) { l.n++ }

func main() {
	os.Setenv("VERIFTMP", "")
	h.Main(h.Area{
		N: func(c *h.Ctx) int { return (len(c.Scen)+batch-1)/batch + c.Pick(500, 6000) },
		Run: func(c *h.Ctx, i int, t *h.Trace) {
			nb := (len(c.Scen) + batch - 1) / batch
			w := &world{t: t}
			w.setEnv(nil)
			if i < nb {
				t.Src = "tlc"
				for j := i * batch; j < (i+1)*batch && j < len(c.Scen); j++ {
					var m struct{ S string }
					if err := json.Unmarshal(c.Scen[j], &m); err != nil {
						panic(err)
					}
					if w.load([]string{"[s]", m.S}) {
						n := len(w.cs)
						w.list(n, "s")
						w.find(n, "s::"+h.Pick(t.R, "a", "#1", "", "-", "a=", " ", "a a"))
						w.find(n, "a")
					}
				}
				return
			}
			t.Src = "random"
			if i%3 == 0 {
				w.classic()
			} else {
				w.layers()
			}
		},
	})
}

type world struct {
	t    *h.Trace
	cs   []config.Configer
	envs []string
}

func (w *world) text(lines []string) string {
	r := w.t.R
	nl := h.Pick(r, "\n", "\n", "\r\n")
	s := strings.Join(lines, nl)
	if r.Intn(2) == 0 {
		s += nl
	}
	if r.Intn(5) == 0 {
		s = "\xef\xbb\xbf" + s
	}
	return strings.ReplaceAll(s, many, expanded)
}

// opened counts the files below dir which this process has open.
func opened(dir string) (n int) {
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(to, dir+"/") {
			n++
		}
	}
	return
}

func (w *world) load(lines []string) bool {
	txt := w.text(lines)
	open := 0
	var c config.Configer
	var err error
	if w.t.R.Intn(4) == 0 { // through a file
		tmp, e := os.MkdirTemp("", "verif-conf")
		if e != nil {
			panic(e)
		}
		defer os.RemoveAll(tmp)
		tmp, _ = filepath.EvalSymlinks(tmp)
		if _, e := config.LoadIniFile(filepath.Join(tmp, "none.ini")); e == nil {
			open = -1 // a file that is not there was loaded
		}
		if e := os.WriteFile(filepath.Join(tmp, "c.ini"), []byte(txt), 0o644); e != nil {
			panic(e)
		}
		c, err = config.LoadIniFile(filepath.Join(tmp, "c.ini"))
		open += opened(tmp)
	} else {
		c, err = config.LoadIniFromReader(strings.NewReader(txt))
	}
	w.t.Ev("load", h.M{"lines": texts(lines)}, h.M{"ok": err == nil, "open": open})
	if err == nil {
		w.cs = append(w.cs, c)
	}
	return err == nil
}

func (w *world) find(i int, name string) {
	w.t.Ev("find", h.M{"file": i, "name": text(name)}, h.M{"v": short(w.cs[i-1].Find(name))})
}

func (w *world) list(i int, sec string) {
	m := w.cs[i-1].ListSection(sec)
	kvs := h.L{}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		kvs = append(kvs, h.L{k, short(m[k])})
	}
	for _, k := range ks { // the answer is the caller's own
		m[k] = "spoiled"
	}
	w.t.Ev("list", h.M{"file": i, "sec": sec}, h.M{"nil": m == nil, "kv": kvs})
}

func (w *world) setEnv(kvs [][2]string) {
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		if strings.HasPrefix(k, "A") || strings.HasPrefix(k, "S_") || strings.HasPrefix(k, "S1_") || strings.HasPrefix(k, "DEFAULT") || strings.HasPrefix(k, "K") || strings.HasPrefix(k, "SEC") || strings.HasPrefix(k, "RUN_") || k == "B" || k == "HTTP_ADDR" {
			os.Unsetenv(k)
		}
	}
	if kvs == nil {
		return
	}
	env := []h.M{}
	for _, e := range kvs {
		os.Setenv(e[0], e[1])
		env = append(env, h.M{"k": e[0], "v": e[1]})
	}
	w.t.Ev("env", h.M{"env": env}, nil)
}

var names = []string{"a", "a.b", "s::a", "s::k-1", "s1::a", "sec x::k 1", "default::a", "K", "s::#1", "s::#2", "s::", "", "::a", "s::a::b", "b", "s:a", "k", "s1::k-1", "zz::a", "s;1::a", "s#1::a", "s=1::a", "\"s\"::a", "s]::a", "S::a", "S::K"}

func (w *world) line() string {
	r := w.t.R
	pad := func(s string) string { return h.Pick(r, "", "", " ", "\t") + s + h.Pick(r, "", "", " ", "  ") }
	key := func() string {
		k := h.Pick(r, "a", "a.b", "k-1", "k 1", "K", "-", "-", "b", "é", "k", "#1")
		return h.Pick(r, k, k, k, k, "\""+k+"\"", "`"+k+"`", `"""`+k+`"""`, "\""+k+" : x\"", `"`+k, "")
	}
	val := func() string {
		v := h.Pick(r, "1", "v", "v w", "", "x=y", "a:b", "# no comment", "; x", "é", "\"q\"", "`", "``", "\"", "it's", "v ; w", "v # w", "v;w", "abcdef"+many, "abcdef "+many+" w", "long "+strings.Repeat("y", 30))
		return h.Pick(r, v, v, v, "`"+v+"`", `"""`+v+`"""`, "`"+v, "` "+v+" ` tail", `"""`+v, `"`+v+`"`, "`a`"+v+"`")
	}
	switch r.Intn(12) {
	case 0:
		return pad(h.Pick(r, "", "# c", "; c=1", "#", ";[x]", "# "+many))
	case 1, 2:
		return pad("[" + pad(h.Pick(r, "s", "s1", "sec x", "default", "s", "S", h.Pick(r, "s;1", "s#1", "s=1", "\"s\"", "s]"))) + "]")
	case 3:
		return pad(h.Pick(r, "junk", "=v", "[s", "[]", "[ ]", ":", "s]", "\"x\"", "`", "[s] # c = 1", "a", "[a]=1", "[a=1", "\"\"=1", "``:2", `"""a"""=`, `""""""=1`, `"""a"""`, `"""a""`, `"""k""" `))
	default:
		return pad(pad(key()) + h.Pick(r, "=", ":", " = ", ": ") + pad(val()))
	}
}

func (w *world) lines(n int) []string {
	ls := []string{}
	for i := w.t.R.Intn(n); i > 0; i-- {
		l := w.line()
		// most files are well-formed
		if w.t.R.Intn(12) > 0 {
			if _, err := config.LoadIniFromReader(strings.NewReader(l)); err != nil {
				continue
			}
		}
		ls = append(ls, l)
	}
	return ls
}

func (w *world) randEnv() {
	r := w.t.R
	kvs := [][2]string{}
	used := map[string]bool{}
	for i := r.Intn(4); i > 0; i-- {
		k := h.Pick(r, "A", "A_B", "S_A", "S_K_1", "SEC_X_K_1", "DEFAULT_A", "K", "S__1", "S1_A", "S_A__B", "B")
		if !used[k] {
			used[k] = true
			kvs = append(kvs, [2]string{k, h.Pick(r, "env", "", "env 2", " env ", " ", "e=n;v")})
		}
	}
	w.setEnv(kvs)
}

func (w *world) layers() {
	r := w.t.R
	var sps []*strip.Strip
	parent := map[int]int{}
	for i := 0; i < 12; i++ {
		n := len(w.cs)
		x := r.Intn(10)
		if n == 0 {
			x = 0
		}
		switch {
		case x == 0:
			if n < 4 {
				w.load(w.lines(14))
			}
		case x == 1 && n > 1:
			c, p := 1+r.Intn(n), 1+r.Intn(n)
			if p < c { // no loops
				w.cs[c-1].SetParent(w.cs[p-1])
				parent[c] = p
				w.t.Ev("parent", h.M{"child": c, "parent": p}, nil)
			}
		case x == 2:
			w.randEnv()
		case x == 3:
			w.list(1+r.Intn(n), h.Pick(r, "s", "S", "s1", "default", "sec x", "", "nope"))
		case x == 4:
			sp := strip.New()
			if r.Intn(4) == 0 { // nothing imported
				name := names[r.Intn(len(names))]
				w.t.Ev("bare", h.M{"name": text(name), "def": "dflt"}, h.M{"v": sp.Config.Find(name, "dflt"), "none": sp.Config.Find(name)})
				continue
			}
			f := 1 + r.Intn(n)
			sp.Config.Configer = w.cs[f-1]
			sps = append(sps, sp)
			name := names[r.Intn(len(names))]
			w.t.Ev("finddef", h.M{"file": f, "name": text(name), "def": "dflt"}, h.M{"v": short(sp.Config.Find(name, "dflt"))})
		default:
			for j := 0; j < 3; j++ {
				w.find(1+r.Intn(n), names[r.Intn(len(names))])
			}
		}
	}
}

type env struct {
	A   string `conf:"a"`
	Sec struct {
		A string `conf:"a"`
	} `conf:"s"`
}

func (w *world) classic() {
	r := w.t.R
	tmp, err := os.MkdirTemp("", "verif-conf")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	tmp, _ = filepath.EvalSymlinks(tmp)
	old, _ := os.Getwd()
	oldArg := os.Args[0]
	defer func() { os.Chdir(old); os.Args[0] = oldArg }()
	w.randEnv()
	dirs := []string{tmp + "/exe", tmp + "/wd", tmp + "/listed"}
	dir := dirs[2]
	switch r.Intn(6) {
	case 0: // the listed directory is the working directory
		dirs[2], dir = dirs[1], dirs[1]
	case 1: // everything in one place
		dirs[1], dirs[2], dir = dirs[0], dirs[0], dirs[0]
	case 2: // none listed
		dir = ""
	case 3: // the listed directory is that of the executable
		dirs[2], dir = dirs[0], dirs[0]
	case 4: // the working directory is that of the executable
		dirs[1] = dirs[0]
	}
	for _, d := range dirs {
		os.MkdirAll(d, 0o755)
	}
	os.Chdir(dirs[1])
	os.Args[0] = dirs[0] + "/prog"
	sp := strip.New()
	logged := &records{LoggerAdv: strip.NewLogger(log.New(io.Discard, "", 0))}
	sp.SetLogger(logged)
	mode := h.Pick(r, "dev", "prod", "test")
	sp.Config.RunMode = strip.Mode(mode)
	write := func(p string) []string {
		ls := w.lines(8)
		if r.Intn(2) == 0 {
			ls = append(ls, "[default]", "a = "+filepath.Base(p)+fmt.Sprint(r.Intn(100)), "[s]")
		}
		if err := os.WriteFile(p, []byte(w.text(ls)), 0o644); err != nil {
			panic(err)
		}
		return ls
	}
	std := []h.M{}
	paths, lines := []string{}, [][]h.M{}
	done := map[string]bool{}
	for d := 1; d <= 3; d++ {
		if d == 3 && dir == "" {
			continue
		}
		at := d // a directory which plays two parts plays the last
		for i := d + 1; i <= 3; i++ {
			if dirs[i-1] == dirs[d-1] && (i < 3 || dir != "") {
				at = i
			}
		}
		for k, base := range []string{"default", "app", "override"} {
			for _, md := range []string{"", mode, "other"} {
				p := filepath.Join(dirs[d-1], base+".ini")
				if md != "" {
					p = filepath.Join(dirs[d-1], base+"."+md+".ini")
				}
				if r.Intn(3) > 0 || done[p] {
					continue
				}
				done[p] = true
				ls := write(p)
				paths, lines = append(paths, p), append(lines, texts(ls))
				if md != "other" {
					std = append(std, h.M{"kind": k + 1, "mode": md != "", "dir": at, "lines": texts(ls)})
				}
			}
		}
	}
	extra := []interface{}{}
	var add []string
	missing := 0
	for i := r.Intn(3); i > 0; i-- {
		if len(paths) > 0 && r.Intn(3) == 0 { // a standard file, once more
			j := r.Intn(len(paths))
			extra, add = append(extra, lines[j]), append(add, paths[j])
			continue
		}
		p := filepath.Join(tmp, fmt.Sprintf("extra%d.ini", i))
		if r.Intn(5) > 0 {
			extra = append(extra, texts(write(p)))
		} else {
			missing++
		}
		add = append(add, p)
	}
	if len(std)+len(extra) == 0 {
		std = append(std, h.M{"kind": 1, "mode": false, "dir": 1, "lines": texts(write(filepath.Join(dirs[0], "default.ini")))})
	}
	var e env
	conf := helpers.LoadConfigFiles(sp, "app", &e, dir, add...)
	ns := []string{"a", "s::a"}
	for i := 0; i < 6; i++ {
		ns = append(ns, names[r.Intn(len(names))])
	}
	vs := []string{}
	for i, n := range ns {
		if i%2 == 0 {
			vs = append(vs, short(conf.Find(n)))
		} else {
			vs = append(vs, short(sp.Config.Find(n)))
		}
	}
	w.t.Ev("classic", h.M{"std": std, "extra": extra, "missing": missing, "names": texts(ns)}, h.M{"vs": vs, "bound": short(e.A), "app": short(e.Sec.A), "open": opened(tmp), "reports": logged.n})
}
