// Package vsync has the part of package sync the code under test uses, built
// on channels: a goroutine blocked here is durably blocked in the sense of
// testing/synctest, so virtual time goes on and a deadlock is seen.
package vsync

import (
	"sync"

	"verif/vsched"
)

type (
	Pool   = sync.Pool
	Map    = sync.Map
	Locker = sync.Locker
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type waiter struct {
	ch    chan struct{}
	write bool
}

// RWMutex prefers waiting writers over new readers, as sync.RWMutex does.
type RWMutex struct {
	mu      sync.Mutex
	readers int
	writing bool
	queue   []waiter
}

func (m *RWMutex) acquire(write bool) {
	vsched.Y()
	m.mu.Lock()
	free := !m.writing && (!write || m.readers == 0)
	if free && len(m.queue) == 0 {
		m.take(write)
		m.mu.Unlock()
		return
	}
	w := waiter{make(chan struct{}), write}
	m.queue = append(m.queue, w)
	m.mu.Unlock()
	<-w.ch
	vsched.Y()
}

func (m *RWMutex) take(write bool) {
	if write {
		m.writing = true
	} else {
		m.readers++
	}
}

func (m *RWMutex) release(write bool) {
	m.mu.Lock()
	if write {
		if !m.writing {
			m.mu.Unlock()
			panic("sync: unlock of unlocked mutex")
		}
		m.writing = false
	} else {
		if m.readers == 0 {
			m.mu.Unlock()
			panic("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
	}
	for len(m.queue) > 0 {
		w := m.queue[0]
		if m.writing || (w.write && m.readers > 0) {
			break
		}
		m.queue = m.queue[1:]
		m.take(w.write)
		close(w.ch)
	}
	m.mu.Unlock()
	vsched.Y()
}

func (m *RWMutex) try(write bool) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writing || (write && m.readers > 0) || len(m.queue) > 0 {
		return false
	}
	m.take(write)
	return true
}

func (m *RWMutex) Lock()          { m.acquire(true) }
func (m *RWMutex) Unlock()        { m.release(true) }
func (m *RWMutex) RLock()         { m.acquire(false) }
func (m *RWMutex) RUnlock()       { m.release(false) }
func (m *RWMutex) TryLock() bool  { return m.try(true) }
func (m *RWMutex) TryRLock() bool { return m.try(false) }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// WaitGroup panics on misuse like sync.WaitGroup.
type WaitGroup struct {
	mu      sync.Mutex
	n       int
	waiters []chan struct{}
}

func (g *WaitGroup) Add(d int) {
	vsched.Y()
	g.mu.Lock()
	g.n += d
	n := g.n
	var wake []chan struct{}
	if n == 0 {
		wake, g.waiters = g.waiters, nil
	}
	g.mu.Unlock()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	for _, c := range wake {
		close(c)
	}
	vsched.Y()
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	vsched.Y()
	g.mu.Lock()
	if g.n == 0 {
		g.mu.Unlock()
		return
	}
	c := make(chan struct{})
	g.waiters = append(g.waiters, c)
	g.mu.Unlock()
	<-c
	vsched.Y()
	g.mu.Lock()
	n := g.n
	g.mu.Unlock()
	if n != 0 {
		panic("sync: WaitGroup is reused before previous Wait has returned")
	}
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	go func() {
		defer g.Done()
		f()
	}()
}
