// Package fake holds the back ends the cache and session drivers run against:
// a memcached, a redis and a mongodb server on loopback sockets, written from
// their protocols, living on the virtual clock, with fault injection.
package fake

import (
	"net"
	"sync"
)

// Fault kinds: "error" (the server answers with an error, nothing is done),
// "drop" (the connection is cut, nothing is done), "late" (it is done, and
// the connection is cut before the answer).
type base struct {
	mu    sync.Mutex
	ln    net.Listener
	at    int // commands until the fault
	kind  string
	count int
}

func (b *base) listen(serve func(net.Conn)) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	b.ln = ln
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				serve(c)
			}()
		}
	}()
}

func (b *base) Addr() string { return b.ln.Addr().String() }

// FailAt makes the n-th data command from now (0: the next) fail.
func (b *base) FailAt(n int, kind string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.at, b.kind = n, kind
}

// Disarm removes a pending fault and says whether it was used.
func (b *base) Disarm() (used bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	used = b.kind == "used"
	b.kind = ""
	return
}

// Commands returns how many data commands were received.
func (b *base) Commands() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.count
}

// called with the lock held, once per data command
func (b *base) next() string {
	b.count++
	if b.kind == "" || b.kind == "used" {
		return ""
	}
	if b.at > 0 {
		b.at--
		return ""
	}
	k := b.kind
	b.kind = "used"
	return k
}

// Server is what the drivers use of every back end.
type Server interface {
	Addr() string
	Reset()
	FailAt(n int, kind string)
	Disarm() bool
	Commands() int
	Keys() []string // what is stored, expired or not
}
