// Package backs connects the code under test to the fake back ends.
package backs

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/bradfitz/gomemcache/memcache"
	"github.com/globalsign/mgo"
	"github.com/mediocregopher/radix.v2/pool"
	"github.com/mediocregopher/radix.v2/redis"

	"verif/fake"
	"verif/vtime"
)

var Kinds = []string{"mc", "redis", "mongo", "mongo-ttl"}

type World struct {
	mc          *fake.Memcached
	rd          *fake.Redis
	mg          *fake.Mongo
	Mc          *memcache.Client
	Rd          *pool.Pool
	root        *mgo.Session
	seq         int
	open        atomic.Int64 // redis connections
	kept, leaks int
}

type counted struct {
	net.Conn
	open *atomic.Int64
	once sync.Once
}

func (c *counted) Close() error {
	c.once.Do(func() { c.open.Add(-1) })
	return c.Conn.Close()
}

// held is how many redis connections came into use and stayed so since it was
// last asked (the pool's own pings use one for a moment, and it makes its
// second one in the background).
func (w *World) held() int {
	wait := 1000
	if w.leaks > 5 { // seen enough
		wait = 3
	}
	n := 0
	for i := 0; i < wait; i++ {
		if n = int(w.open.Load()) - w.Rd.Avail() - w.kept; n == 0 {
			return 0
		}
		time.Sleep(time.Millisecond)
	}
	w.kept += n
	w.leaks++
	return n
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

func New() *World {
	w := &World{mc: fake.NewMemcached(), rd: fake.NewRedis(), mg: fake.NewMongo()}
	w.Mc = memcache.New(w.mc.Addr())
	w.Mc.Timeout = 20 * time.Second
	var err error
	w.Rd, err = pool.NewCustom("tcp", w.rd.Addr(), 2, func(network, addr string) (*redis.Client, error) {
		c, err := net.Dial(network, addr)
		if err != nil {
			return nil, err
		}
		w.open.Add(1)
		return redis.NewClient(&counted{Conn: c, open: &w.open})
	})
	check(err)
	w.root, err = mgo.DialWithInfo(&mgo.DialInfo{Addrs: []string{w.mg.Addr()}, Direct: true, Timeout: 20 * time.Second, Database: "d"})
	check(err)
	return w
}

// Back is one empty back end at the start of time.
type Back struct {
	fake.Server
	Kind    string
	Connect func(func(*mgo.Collection) error) error // mongo
	Seq     int
	unreach int // connections until one fails; -1: none does
	refused bool
	w       *World
}

// Held is how many connections calls on this back end have kept.
func (b *Back) Held() int {
	if b.Kind != "redis" {
		return 0
	}
	return b.w.held()
}

func (w *World) Use(kind string) *Back {
	vtime.Reset()
	w.seq++
	b := &Back{Kind: kind, Seq: w.seq, unreach: -1, w: w}
	if kind == "redis" {
		w.held()
	}
	switch kind {
	case "mc":
		b.Server = w.mc
	case "redis":
		b.Server = w.rd
	default:
		b.Server = w.mg
		name := fmt.Sprintf("c%d", w.seq)
		b.Connect = func(f func(*mgo.Collection) error) error {
			if b.unreach >= 0 {
				b.unreach--
				if b.unreach < 0 {
					b.refused = true
					return errors.New("no reachable servers")
				}
			}
			s := w.root.Copy()
			defer s.Close()
			return f(s.DB("d").C(name))
		}
	}
	b.Reset()
	return b
}

// FaultKinds of the back end, likelier ones repeated.
func (b *Back) FaultKinds() []string {
	if b.Connect == nil {
		return []string{"error", "drop", "late"}
	}
	return []string{"error", "error", "reach", "reach", "drop", "late"}
}

// Arm makes the n-th command of the next call fail.
func (b *Back) Arm(n int, kind string) {
	switch kind {
	case "":
	case "reach":
		b.unreach = n
	default:
		b.FailAt(n, kind)
	}
}

// Happened says whether the armed fault struck: "" (no), "before" (nothing
// was done), "late" (it was done, the answer got lost).
func (b *Back) Happened(kind string) string {
	hit := false
	if kind == "reach" {
		hit = b.refused
	} else if kind != "" {
		hit = b.Disarm()
	}
	b.unreach, b.refused = -1, false
	switch {
	case !hit:
		return ""
	case kind == "late":
		return "late"
	}
	return "before"
}

// Stale is how many entries which have expired a back end that does not drop
// them by itself still has.
func (b *Back) Stale() int {
	if b.Kind != "mongo" {
		return 0
	}
	return b.w.mg.Stale()
}
