package fake

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/vtime"
)

type rdItem struct {
	data string
	exp  time.Time
}

type Redis struct {
	base
	items map[string]*rdItem
}

func NewRedis() *Redis {
	m := &Redis{items: map[string]*rdItem{}}
	m.listen(m.serve)
	return m
}

func (m *Redis) Reset() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.items = map[string]*rdItem{}
	m.kind = ""
}

func (m *Redis) Keys() (ks []string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for k := range m.items {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

func (m *Redis) get(k string) *rdItem {
	it := m.items[k]
	if it != nil && !it.exp.IsZero() && !vtime.Now().Before(it.exp) {
		delete(m.items, k)
		return nil
	}
	return it
}

func (m *Redis) serve(c net.Conn) {
	r := bufio.NewReader(c)
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		line = strings.TrimRight(line, "\r\n")
		var args []string
		if strings.HasPrefix(line, "*") {
			n, _ := strconv.Atoi(line[1:])
			for i := 0; i < n; i++ {
				h, err := r.ReadString('\n')
				if err != nil {
					return
				}
				sz, _ := strconv.Atoi(strings.TrimRight(h, "\r\n")[1:])
				b := make([]byte, sz+2)
				if _, err := io.ReadFull(r, b); err != nil {
					return
				}
				args = append(args, string(b[:sz]))
			}
		} else {
			args = strings.Fields(line)
		}
		if len(args) == 0 {
			continue
		}
		args[0] = strings.ToUpper(args[0])
		m.mu.Lock()
		fault, out := "", ""
		if args[0] != "PING" {
			fault = m.next()
		}
		switch fault {
		case "error":
			out = "-LOADING Redis is loading the dataset in memory\r\n"
		case "drop":
			m.mu.Unlock()
			return
		default:
			out = m.do(args)
		}
		m.mu.Unlock()
		if fault == "late" {
			return
		}
		if _, err := io.WriteString(c, out); err != nil {
			return
		}
	}
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

const (
	rdNil   = "$-1\r\n"
	rdArgs  = "-ERR wrong number of arguments\r\n"
	rdInt   = "-ERR value is not an integer or out of range\r\n"
	rdSyn   = "-ERR syntax error\r\n"
	rdBadEx = "-ERR invalid expire time\r\n"
)

func (m *Redis) do(a []string) string {
	need := map[string]int{"GET": 2, "SET": 3, "SETEX": 4, "PSETEX": 4, "SETNX": 3, "GETSET": 3, "EXPIRE": 3, "PEXPIRE": 3, "EXPIREAT": 3,
		"PERSIST": 2, "TTL": 2, "PTTL": 2, "DEL": 2, "UNLINK": 2, "EXISTS": 2, "INCRBY": 3, "DECRBY": 3, "INCR": 2, "DECR": 2}
	if len(a) < need[a[0]] {
		return rdArgs
	}
	num := func(s string) (int64, bool) { n, err := strconv.ParseInt(s, 10, 64); return n, err == nil }
	switch a[0] {
	case "PING":
		return "+PONG\r\n"
	case "GET":
		if it := m.get(a[1]); it != nil {
			return bulk(it.data)
		}
		return rdNil
	case "SET":
		it := &rdItem{data: a[2]}
		old := m.get(a[1])
		for i := 3; i < len(a); i++ {
			o := strings.ToUpper(a[i])
			switch o {
			case "EX", "PX":
				if i+1 >= len(a) {
					return rdSyn
				}
				n, ok := num(a[i+1])
				if !ok {
					return rdInt
				}
				if n <= 0 {
					return rdBadEx
				}
				u := time.Second
				if o == "PX" {
					u = time.Millisecond
				}
				it.exp = vtime.Now().Add(time.Duration(n) * u)
				i++
			case "KEEPTTL":
				if old != nil {
					it.exp = old.exp
				}
			case "NX":
				if old != nil {
					return rdNil
				}
			case "XX":
				if old == nil {
					return rdNil
				}
			default:
				return rdSyn
			}
		}
		m.items[a[1]] = it
		return "+OK\r\n"
	case "SETEX", "PSETEX":
		n, ok := num(a[2])
		if !ok {
			return rdInt
		}
		if n <= 0 {
			return rdBadEx
		}
		u := time.Second
		if a[0] == "PSETEX" {
			u = time.Millisecond
		}
		m.items[a[1]] = &rdItem{data: a[3], exp: vtime.Now().Add(time.Duration(n) * u)}
		return "+OK\r\n"
	case "SETNX":
		if m.get(a[1]) != nil {
			return ":0\r\n"
		}
		m.items[a[1]] = &rdItem{data: a[2]}
		return ":1\r\n"
	case "GETSET":
		old := m.get(a[1])
		m.items[a[1]] = &rdItem{data: a[2]}
		if old == nil {
			return rdNil
		}
		return bulk(old.data)
	case "EXPIRE", "PEXPIRE", "EXPIREAT":
		n, ok := num(a[2])
		if !ok {
			return rdInt
		}
		it := m.get(a[1])
		if it == nil {
			return ":0\r\n"
		}
		switch a[0] {
		case "EXPIRE":
			if n > 1<<62/1000000000 { // beyond what the clock type holds
				it.exp = time.Time{}
				return ":1\r\n"
			}
			it.exp = vtime.Now().Add(time.Duration(n) * time.Second)
		case "PEXPIRE":
			it.exp = vtime.Now().Add(time.Duration(n) * time.Millisecond)
		default:
			it.exp = time.Unix(n, 0)
		}
		m.get(a[1])
		return ":1\r\n"
	case "PERSIST":
		it := m.get(a[1])
		if it == nil || it.exp.IsZero() {
			return ":0\r\n"
		}
		it.exp = time.Time{}
		return ":1\r\n"
	case "TTL", "PTTL":
		it := m.get(a[1])
		if it == nil {
			return ":-2\r\n"
		}
		if it.exp.IsZero() {
			return ":-1\r\n"
		}
		d := it.exp.Sub(vtime.Now())
		if a[0] == "TTL" {
			return fmt.Sprintf(":%d\r\n", int64(d/time.Second))
		}
		return fmt.Sprintf(":%d\r\n", int64(d/time.Millisecond))
	case "DEL", "UNLINK", "EXISTS":
		n := 0
		for _, k := range a[1:] {
			if m.get(k) != nil {
				n++
				if a[0] != "EXISTS" {
					delete(m.items, k)
				}
			}
		}
		return fmt.Sprintf(":%d\r\n", n)
	case "INCRBY", "DECRBY", "INCR", "DECR":
		d, ok := int64(1), true
		if len(a) > 2 {
			if d, ok = num(a[2]); !ok {
				return rdInt
			}
		}
		if a[0][0] == 'D' {
			d = -d
		}
		it := m.get(a[1])
		if it == nil {
			it = &rdItem{data: "0"}
			m.items[a[1]] = it
		}
		v, ok := num(it.data)
		if !ok || strconv.FormatInt(v, 10) != it.data {
			return rdInt
		}
		if d > 0 && v+d < v || d < 0 && v+d > v {
			return "-ERR increment or decrement would overflow\r\n"
		}
		it.data = strconv.FormatInt(v+d, 10)
		return ":" + it.data + "\r\n"
	case "FLUSHDB", "FLUSHALL":
		m.items = map[string]*rdItem{}
		return "+OK\r\n"
	case "SELECT":
		return "+OK\r\n"
	case "DBSIZE":
		return fmt.Sprintf(":%d\r\n", len(m.items))
	}
	return "-ERR unknown command '" + a[0] + "'\r\n"
}
