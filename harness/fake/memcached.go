package fake

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/vtime"
)

type mcItem struct {
	flags string
	data  string
	exp   time.Time // zero: never
	cas   int
}

type Memcached struct {
	base
	items map[string]*mcItem
	cas   int
}

func NewMemcached() *Memcached {
	m := &Memcached{items: map[string]*mcItem{}}
	m.listen(m.serve)
	return m
}

func (m *Memcached) Reset() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.items = map[string]*mcItem{}
	m.kind = ""
}

func (m *Memcached) Keys() (ks []string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for k := range m.items {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

func (m *Memcached) get(k string) *mcItem {
	it := m.items[k]
	if it != nil && !it.exp.IsZero() && !vtime.Now().Before(it.exp) {
		delete(m.items, k)
		return nil
	}
	return it
}

// expiry as memcached reads it: up to 30 days relative, else absolute;
// negative: at once
func mcExpiry(s string) (time.Time, bool) {
	n, err := strconv.ParseInt(s, 10, 32)
	if err != nil {
		return time.Time{}, false
	}
	switch {
	case n == 0:
		return time.Time{}, true
	case n < 0:
		return time.Unix(1, 0), true
	case n > 60*60*24*30:
		return time.Unix(n, 0), true
	}
	return vtime.Now().Add(time.Duration(n) * time.Second), true
}

func (m *Memcached) serve(c net.Conn) {
	r := bufio.NewReader(c)
	w := bufio.NewWriter(c)
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(strings.TrimRight(line, "\r\n"))
		if len(f) == 0 {
			fmt.Fprint(w, "ERROR\r\n")
			w.Flush()
			continue
		}
		var data string
		switch f[0] {
		case "set", "add", "replace", "append", "prepend", "cas":
			if len(f) < 5 {
				fmt.Fprint(w, "ERROR\r\n")
				w.Flush()
				continue
			}
			n, err := strconv.Atoi(f[4])
			if err != nil || n < 0 {
				fmt.Fprint(w, "CLIENT_ERROR bad data chunk\r\n")
				w.Flush()
				continue
			}
			b := make([]byte, n+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			data = string(b[:n])
		}
		m.mu.Lock()
		fault := ""
		if f[0] != "version" {
			fault = m.next()
		}
		out := ""
		switch fault {
		case "error":
			out = "SERVER_ERROR out of memory\r\n"
		case "drop":
			m.mu.Unlock()
			return
		default:
			out = m.do(f, data)
		}
		m.mu.Unlock()
		if fault == "late" {
			return
		}
		io.WriteString(w, out)
		if w.Flush() != nil {
			return
		}
	}
}

func (m *Memcached) do(f []string, data string) string {
	if len(f) > 1 && len(f[1]) > 250 {
		return "CLIENT_ERROR bad command line format\r\n"
	}
	switch f[0] {
	case "get", "gets", "gat", "gats":
		var b strings.Builder
		ks := f[1:]
		if f[0][:2] == "ga" {
			ks = f[2:]
		}
		for _, k := range ks {
			it := m.get(k)
			if it == nil {
				continue
			}
			if f[0][:2] == "ga" {
				e, ok := mcExpiry(f[1])
				if !ok {
					return "CLIENT_ERROR invalid exptime argument\r\n"
				}
				it.exp = e
			}
			fmt.Fprintf(&b, "VALUE %s %s %d", k, it.flags, len(it.data))
			if strings.HasSuffix(f[0], "s") {
				fmt.Fprintf(&b, " %d", it.cas)
			}
			fmt.Fprintf(&b, "\r\n%s\r\n", it.data)
		}
		return b.String() + "END\r\n"
	case "set", "add", "replace", "cas", "append", "prepend":
		if len(data) > 1<<20-200 {
			delete(m.items, f[1])
			return "SERVER_ERROR object too large for cache\r\n"
		}
		e, ok := mcExpiry(f[3])
		if !ok {
			return "CLIENT_ERROR bad command line format\r\n"
		}
		old := m.get(f[1])
		switch f[0] {
		case "add":
			if old != nil {
				return "NOT_STORED\r\n"
			}
		case "replace", "append", "prepend":
			if old == nil {
				return "NOT_STORED\r\n"
			}
		case "cas":
			if old == nil {
				return "NOT_FOUND\r\n"
			}
			if strconv.Itoa(old.cas) != f[5] {
				return "EXISTS\r\n"
			}
		}
		m.cas++
		it := &mcItem{flags: f[2], data: data, exp: e, cas: m.cas}
		switch f[0] {
		case "append":
			it.flags, it.data, it.exp = old.flags, old.data+data, old.exp
		case "prepend":
			it.flags, it.data, it.exp = old.flags, data+old.data, old.exp
		}
		m.items[f[1]] = it
		return "STORED\r\n"
	case "touch":
		it := m.get(f[1])
		if it == nil {
			return "NOT_FOUND\r\n"
		}
		e, ok := mcExpiry(f[2])
		if !ok {
			return "CLIENT_ERROR invalid exptime argument\r\n"
		}
		it.exp = e
		return "TOUCHED\r\n"
	case "delete":
		if m.get(f[1]) == nil {
			return "NOT_FOUND\r\n"
		}
		delete(m.items, f[1])
		return "DELETED\r\n"
	case "incr", "decr":
		d, err := strconv.ParseUint(f[2], 10, 64)
		if err != nil {
			return "CLIENT_ERROR invalid numeric delta argument\r\n"
		}
		it := m.get(f[1])
		if it == nil {
			return "NOT_FOUND\r\n"
		}
		v, err := strconv.ParseUint(strings.TrimRight(it.data, " "), 10, 64)
		if err != nil {
			return "CLIENT_ERROR cannot increment or decrement non-numeric value\r\n"
		}
		if f[0] == "incr" {
			v += d
		} else if d > v {
			v = 0
		} else {
			v -= d
		}
		s := strconv.FormatUint(v, 10)
		// in place: a shorter number is padded
		m.cas++
		it.cas = m.cas
		if n := len(it.data); len(s) < n {
			s2 := s + strings.Repeat(" ", n-len(s))
			it.data = s2
		} else {
			it.data = s
		}
		return s + "\r\n"
	case "flush_all":
		m.items = map[string]*mcItem{}
		return "OK\r\n"
	case "version":
		return "VERSION 1.6.0\r\n"
	}
	return "ERROR\r\n"
}
