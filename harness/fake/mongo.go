package fake

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/globalsign/mgo/bson"

	"verif/vtime"
)

type coll struct {
	docs []bson.D
	ttl  map[string]time.Duration // field of a TTL index -> expireAfterSeconds
}

// Mongo understands what a driver of wire version 3 sends for single-document
// reads and writes.
type Mongo struct {
	base
	colls map[string]*coll
}

func NewMongo() *Mongo {
	m := &Mongo{colls: map[string]*coll{}}
	m.listen(m.serve)
	return m
}

func (m *Mongo) Reset() {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, c := range m.colls {
		c.docs = nil
	}
	m.kind = ""
}

// Stale is how many documents have a date which has passed.
func (m *Mongo) Stale() (n int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, c := range m.colls {
		for _, d := range c.docs {
			for _, e := range d {
				if t, ok := e.Value.(time.Time); ok && !vtime.Now().Before(t) {
					n++
					break
				}
			}
		}
	}
	return
}

func (m *Mongo) Keys() (ks []string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, c := range m.colls {
		for _, d := range c.docs {
			id, _ := field(d, "_id")
			if k, ok := field(d, "key"); ok {
				id = k
			}
			ks = append(ks, fmt.Sprint(id))
		}
	}
	sort.Strings(ks)
	return
}

func field(d bson.D, name string) (interface{}, bool) {
	for _, e := range d {
		if e.Name == name {
			return e.Value, true
		}
	}
	return nil, false
}

func sub(v interface{}) bson.D {
	d, _ := v.(bson.D)
	return d
}

func number(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case int64:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func compare(a, b interface{}) (int, bool) {
	if x, ok := number(a); ok {
		if y, ok := number(b); ok {
			switch {
			case x < y:
				return -1, true
			case x > y:
				return 1, true
			}
			return 0, true
		}
		return 0, false
	}
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y), true
		}
	case time.Time:
		if y, ok := b.(time.Time); ok {
			switch {
			case x.Before(y):
				return -1, true
			case x.After(y):
				return 1, true
			}
			return 0, true
		}
	case []byte:
		if y, ok := b.([]byte); ok {
			return bytes.Compare(x, y), true
		}
	case bool:
		if y, ok := b.(bool); ok && x == y {
			return 0, true
		}
	case bson.ObjectId:
		if y, ok := b.(bson.ObjectId); ok {
			return strings.Compare(string(x), string(y)), true
		}
	case nil:
		if b == nil {
			return 0, true
		}
	}
	return 0, false
}

func list(v interface{}) []interface{} { l, _ := v.([]interface{}); return l }

func matches(d bson.D, q bson.D) bool {
	for _, e := range q {
		switch e.Name {
		case "$and", "$or":
			any := false
			for _, x := range list(e.Value) {
				if matches(d, sub(x)) {
					any = true
				} else if e.Name == "$and" {
					return false
				}
			}
			if e.Name == "$or" && !any {
				return false
			}
			continue
		}
		v, has := field(d, e.Name)
		if ops := sub(e.Value); len(ops) > 0 && strings.HasPrefix(ops[0].Name, "$") {
			for _, o := range ops {
				c, ok := compare(v, o.Value)
				ok = ok && has
				r := false
				switch o.Name {
				case "$gt":
					r = ok && c > 0
				case "$gte":
					r = ok && c >= 0
				case "$lt":
					r = ok && c < 0
				case "$lte":
					r = ok && c <= 0
				case "$eq":
					r = ok && c == 0
				case "$ne":
					r = !(ok && c == 0)
				case "$exists":
					b, isb := o.Value.(bool)
					n, _ := number(o.Value)
					r = has == (isb && b || !isb && n != 0)
				case "$in", "$nin":
					for _, x := range list(o.Value) {
						if c, ok := compare(v, x); ok && c == 0 {
							r = true
						}
					}
					if o.Name == "$nin" {
						r = !r
					}
				}
				if !r {
					return false
				}
			}
			continue
		}
		if !has {
			if e.Value == nil {
				continue
			}
			return false
		}
		if c, ok := compare(v, e.Value); !ok || c != 0 {
			return false
		}
	}
	return true
}

func set(d bson.D, k string, v interface{}) bson.D {
	for i := range d {
		if d[i].Name == k {
			d[i].Value = v
			return d
		}
	}
	return append(d, bson.DocElem{Name: k, Value: v})
}

func unset(d bson.D, k string) bson.D {
	for i := range d {
		if d[i].Name == k {
			return append(d[:i:i], d[i+1:]...)
		}
	}
	return d
}

func add(a, b interface{}) (interface{}, bool) {
	if x, ok := a.(float64); ok {
		y, ok := number(b)
		return x + y, ok
	}
	if y, ok := b.(float64); ok {
		x, ok := number(a)
		return x + y, ok
	}
	var x, y int64
	wide := false
	switch v := a.(type) {
	case int:
		x = int64(v)
	case int64:
		x, wide = v, true
	default:
		return nil, false
	}
	switch v := b.(type) {
	case int:
		y = int64(v)
	case int64:
		y, wide = v, true
	default:
		return nil, false
	}
	s := x + y
	if !wide && s == int64(int32(s)) {
		return int(s), true
	}
	return s, true
}

// apply returns the updated document; inserting: $setOnInsert counts
func apply(d, u bson.D, inserting bool) (bson.D, string) {
	if len(u) == 0 || !strings.HasPrefix(u[0].Name, "$") {
		n := append(bson.D(nil), u...)
		if id, ok := field(d, "_id"); ok {
			if nid, has := field(n, "_id"); !has {
				n = append(bson.D{{Name: "_id", Value: id}}, n...)
			} else if c, ok := compare(id, nid); !ok || c != 0 {
				return nil, "The _id field cannot be changed"
			}
		}
		return n, ""
	}
	n := append(bson.D(nil), d...)
	for _, o := range u {
		for _, e := range sub(o.Value) {
			v, has := field(n, e.Name)
			switch o.Name {
			case "$set":
				n = set(n, e.Name, e.Value)
			case "$setOnInsert":
				if inserting {
					n = set(n, e.Name, e.Value)
				}
			case "$unset":
				n = unset(n, e.Name)
			case "$inc":
				if !has {
					n = set(n, e.Name, e.Value)
					continue
				}
				s, ok := add(v, e.Value)
				if !ok {
					return nil, "Cannot apply $inc to a value of non-numeric type"
				}
				n = set(n, e.Name, s)
			case "$max", "$min":
				if c, ok := compare(e.Value, v); !has || ok && (c > 0) == (o.Name == "$max") && c != 0 {
					n = set(n, e.Name, e.Value)
				}
			case "$currentDate":
				n = set(n, e.Name, vtime.Now())
			default:
				return nil, "Unknown modifier: " + o.Name
			}
		}
	}
	return n, ""
}

func (m *Mongo) coll(name string) *coll {
	c := m.colls[name]
	if c == nil {
		c = &coll{ttl: map[string]time.Duration{}}
		m.colls[name] = c
	}
	// the TTL monitor
	var keep []bson.D
	for _, d := range c.docs {
		dead := false
		for f, after := range c.ttl {
			if v, ok := field(d, f); ok {
				if t, ok := v.(time.Time); ok && !vtime.Now().Before(t.Add(after)) {
					dead = true
				}
			}
		}
		if !dead {
			keep = append(keep, d)
		}
	}
	c.docs = keep
	return c
}

func (c *coll) find(q bson.D) int {
	for i, d := range c.docs {
		if matches(d, q) {
			return i
		}
	}
	return -1
}

func fail(code int, msg string) bson.D {
	return bson.D{{Name: "ok", Value: 0.0}, {Name: "errmsg", Value: msg}, {Name: "code", Value: code}}
}

func writeError(code int, msg string) bson.D {
	return bson.D{{Name: "ok", Value: 1.0}, {Name: "n", Value: 0}, {Name: "writeErrors", Value: []interface{}{
		bson.D{{Name: "index", Value: 0}, {Name: "code", Value: code}, {Name: "errmsg", Value: msg}}}}}
}

func equalities(q bson.D) (d bson.D) {
	for _, e := range q {
		if o := sub(e.Value); strings.HasPrefix(e.Name, "$") || len(o) > 0 && strings.HasPrefix(o[0].Name, "$") {
			continue
		}
		d = append(d, e)
	}
	return
}

func (c *coll) upsert(q, u bson.D) (bson.D, string) {
	base := equalities(q)
	d, e := apply(base, u, true)
	if e != "" {
		return nil, e
	}
	if _, ok := field(d, "_id"); !ok {
		d = append(bson.D{{Name: "_id", Value: bson.NewObjectId()}}, d...)
	}
	id, _ := field(d, "_id")
	if c.find(bson.D{{Name: "_id", Value: id}}) >= 0 {
		return nil, "E11000 duplicate key error"
	}
	c.docs = append(c.docs, d)
	return d, ""
}

func isTrue(v interface{}) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	n, _ := number(v)
	return n != 0
}

func (m *Mongo) command(db string, q bson.D) bson.D {
	ok := bson.D{{Name: "ok", Value: 1.0}}
	name := strings.ToLower(q[0].Name)
	cn, _ := q[0].Value.(string)
	cname := db + "." + cn
	arg := func(n string) interface{} { v, _ := field(q, n); return v }
	switch name {
	case "ismaster":
		return append(bson.D{{Name: "ismaster", Value: true}, {Name: "maxBsonObjectSize", Value: 16 << 20}, {Name: "maxWireVersion", Value: 3}}, ok...)
	case "getnonce":
		return append(bson.D{{Name: "nonce", Value: "2375531c32080ae8"}}, ok...)
	case "ping", "logout", "endsessions":
		return ok
	case "buildinfo":
		return append(bson.D{{Name: "version", Value: "3.0.0"}, {Name: "versionArray", Value: []interface{}{3, 0, 0, 0}}}, ok...)
	case "createindexes":
		c := m.coll(cname)
		for _, x := range list(arg("indexes")) {
			key, _ := field(sub(x), "key")
			if s, has := field(sub(x), "expireAfterSeconds"); has && len(sub(key)) > 0 {
				n, _ := number(s)
				c.ttl[sub(key)[0].Name] = time.Duration(n) * time.Second
			}
		}
		return ok
	case "insert":
		c := m.coll(cname)
		n := 0
		for _, x := range list(arg("documents")) {
			id, _ := field(sub(x), "_id")
			if c.find(bson.D{{Name: "_id", Value: id}}) >= 0 {
				return writeError(11000, "E11000 duplicate key error")
			}
			c.docs = append(c.docs, sub(x))
			n++
		}
		return append(bson.D{{Name: "n", Value: n}}, ok...)
	case "update":
		c := m.coll(cname)
		n := 0
		var ups []interface{}
		for _, x := range list(arg("updates")) {
			q0, _ := field(sub(x), "q")
			u0, _ := field(sub(x), "u")
			up, _ := field(sub(x), "upsert")
			multi, _ := field(sub(x), "multi")
			hit := false
			for i, d := range c.docs {
				if matches(d, sub(q0)) {
					nd, e := apply(d, sub(u0), false)
					if e != "" {
						return writeError(14, e)
					}
					c.docs[i] = nd
					n++
					hit = true
					if !isTrue(multi) {
						break
					}
				}
			}
			if !hit && isTrue(up) {
				d, e := c.upsert(sub(q0), sub(u0))
				if e != "" {
					return writeError(11000, e)
				}
				id, _ := field(d, "_id")
				ups = append(ups, bson.D{{Name: "index", Value: 0}, {Name: "_id", Value: id}})
				n++
			}
		}
		r := bson.D{{Name: "n", Value: n}, {Name: "nModified", Value: n - len(ups)}}
		if ups != nil {
			r = append(r, bson.DocElem{Name: "upserted", Value: ups})
		}
		return append(r, ok...)
	case "delete":
		c := m.coll(cname)
		n := 0
		for _, x := range list(arg("deletes")) {
			q0, _ := field(sub(x), "q")
			lim, _ := field(sub(x), "limit")
			var keep []bson.D
			done := 0
			for _, d := range c.docs {
				if matches(d, sub(q0)) && !(isTrue(lim) && done == 1) {
					done++
					continue
				}
				keep = append(keep, d)
			}
			c.docs = keep
			n += done
		}
		return append(bson.D{{Name: "n", Value: n}}, ok...)
	case "findandmodify":
		c := m.coll(cname)
		i := c.find(sub(arg("query")))
		var value interface{}
		existing := i >= 0
		switch {
		case i >= 0 && isTrue(arg("remove")):
			value = c.docs[i]
			c.docs = append(c.docs[:i:i], c.docs[i+1:]...)
		case i >= 0:
			nd, e := apply(c.docs[i], sub(arg("update")), false)
			if e != "" {
				return fail(14, e)
			}
			value = c.docs[i]
			if isTrue(arg("new")) {
				value = nd
			}
			c.docs[i] = nd
		case isTrue(arg("upsert")):
			d, e := c.upsert(sub(arg("query")), sub(arg("update")))
			if e != "" {
				return fail(11000, e)
			}
			if isTrue(arg("new")) {
				value = d
			}
		}
		return append(bson.D{{Name: "value", Value: value}, {Name: "lastErrorObject", Value: bson.D{
			{Name: "updatedExisting", Value: existing}, {Name: "n", Value: 1}}}}, ok...)
	case "count":
		n := 0
		for _, d := range m.coll(cname).docs {
			if matches(d, sub(arg("query"))) {
				n++
			}
		}
		return append(bson.D{{Name: "n", Value: n}}, ok...)
	case "getlasterror":
		return append(bson.D{{Name: "n", Value: 0}, {Name: "err", Value: nil}}, ok...)
	}
	return fail(59, "no such command: "+name)
}

var dataCommands = map[string]bool{"insert": true, "update": true, "delete": true, "findandmodify": true, "count": true}

func (m *Mongo) serve(c net.Conn) {
	le := binary.LittleEndian
	for {
		var h [16]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			return
		}
		n := le.Uint32(h[:])
		if n < 16 || n > 64<<20 {
			return
		}
		body := make([]byte, n-16)
		if _, err := io.ReadFull(c, body); err != nil {
			return
		}
		if le.Uint32(h[12:]) != 2004 {
			continue // kill cursors and the like
		}
		body = body[4:]
		z := bytes.IndexByte(body, 0)
		ns := string(body[:z])
		body = body[z+1+8:]
		var q bson.D
		if err := bson.Unmarshal(body[:le.Uint32(body)], &q); err != nil {
			return
		}
		for _, w := range []string{"$query", "query"} {
			if x, ok := field(q, w); ok && len(q) > 0 && q[0].Name == w {
				q = sub(x)
				break
			}
		}
		m.mu.Lock()
		var docs []bson.D
		flags := uint32(8)
		fault := ""
		i := strings.IndexByte(ns, '.')
		db, name := ns[:i], ns[i+1:]
		isCmd := name == "$cmd"
		if !isCmd || len(q) > 0 && dataCommands[strings.ToLower(q[0].Name)] {
			fault = m.next()
		}
		switch {
		case fault == "drop":
			m.mu.Unlock()
			return
		case fault == "error" && isCmd:
			docs = []bson.D{fail(8, "injected failure")}
		case fault == "error":
			flags |= 2
			docs = []bson.D{{{Name: "$err", Value: "injected failure"}, {Name: "code", Value: 8}}}
		case isCmd:
			docs = []bson.D{m.command(db, q)}
		default:
			for _, d := range m.coll(ns).docs {
				if matches(d, q) {
					docs = append(docs, d)
				}
			}
		}
		var out []byte
		for _, d := range docs {
			b, err := bson.Marshal(d)
			if err != nil {
				panic(err)
			}
			out = append(out, b...)
		}
		m.mu.Unlock()
		if fault == "late" {
			return
		}
		r := make([]byte, 36, 36+len(out))
		le.PutUint32(r, uint32(36+len(out)))
		le.PutUint32(r[8:], le.Uint32(h[4:]))
		le.PutUint32(r[12:], 1)
		le.PutUint32(r[16:], flags)
		le.PutUint32(r[32:], uint32(len(docs)))
		if _, err := c.Write(append(r, out...)); err != nil {
			return
		}
	}
}
