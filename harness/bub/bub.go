// Package bub runs scenarios inside testing/synctest bubbles: time is virtual
// and a deadlock of the code under test is seen, not waited for.
// Programs using it are linked with -checklinkname=0, because
// testing/synctest can only be entered from a test.
package bub

import (
	"runtime"
	"testing/synctest"
	"time"
	_ "unsafe"
)

//go:linkname run internal/synctest.Run
func run(f func())

func init() { runtime.GOMAXPROCS(1) }

// Run runs f in a bubble of its own and returns when f does.  Goroutines
// which are left behind stay in the bubble, whose time then stands still.
func Run(f func()) {
	res := make(chan struct{})
	forever := make(chan struct{})
	go run(func() {
		f()
		close(res)
		<-forever
	})
	<-res
}

// Settle lets virtual time pass and waits until everything else in the bubble
// is blocked.
func Settle(d time.Duration) {
	time.Sleep(d)
	synctest.Wait()
}
