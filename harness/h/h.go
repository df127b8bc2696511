// Package h is the common part of all conformance drivers: it runs numbered
// scenarios against the real code and writes one recorded trace per scenario
// (one JSON object per line) for validation by TLC.
package h

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sync/atomic"
	"time"
)

type M = map[string]interface{}
type L = []interface{}

type Ctx struct {
	Prop string
	Seed int64
	Tier string
	Scen []json.RawMessage // scenarios generated by TLC from the specification
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

type Trace struct {
	Id  int        `json:"id"`
	Src string     `json:"src"`
	Cfg M          `json:"cfg"`
	Evs []M        `json:"ev"`
	R   *rand.Rand `json:"-"`
}

func (t *Trace) Ev(op string, in M, obs M) {
	if in == nil {
		in = M{"_": 0}
	}
	if obs == nil {
		obs = M{"_": 0}
	}
	t.Evs = append(t.Evs, M{"op": op, "in": in, "obs": obs})
}

// Catch runs f and returns the text of the panic it raised ("" when none).
func Catch(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if re, ok := e.(runtime.Error); ok {
				msg = "runtime: " + re.Error()
			} else {
				msg = fmt.Sprint(e)
			}
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return
}

// Area describes one driver: N scenarios, each run by Run on its own trace.
type Area struct {
	N       func(c *Ctx) int
	Run     func(c *Ctx, i int, t *Trace)
	Timeout time.Duration
}

func Main(area Area) {
	var (
		prop  = flag.String("prop", "", "property id")
		seed  = flag.Int64("seed", 1, "seed")
		tier  = flag.String("tier", "quick", "tier")
		scen  = flag.String("scen", "", "ndjson file of scenarios generated by TLC")
		start = flag.Int("start", 0, "first scenario")
		only  = flag.Int("only", -1, "run only this scenario")
		out   = flag.String("out", "", "output ndjson")
	)
	flag.Parse()
	debug.SetMaxStack(128 << 20)
	c := &Ctx{Prop: *prop, Seed: *seed, Tier: *tier}
	if *scen != "" {
		f, err := os.Open(*scen)
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 64<<20)
		for sc.Scan() {
			c.Scen = append(c.Scen, append(json.RawMessage(nil), sc.Bytes()...))
		}
		f.Close()
	}
	f, err := os.OpenFile(*out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	timeout := area.Timeout
	if timeout == 0 {
		timeout = 60 * time.Second
	}
	var beat int64
	go func() {
		last, since := int64(-1), time.Now()
		heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			if metrics.Read(heap); heap[0].Value.Uint64() > 6<<30 {
				fmt.Fprintln(os.Stderr, "VERIF-HANG scenario used up the memory")
				os.Exit(7)
			}
			time.Sleep(200 * time.Millisecond)
			b := atomic.LoadInt64(&beat)
			if b != last {
				last, since = b, time.Now()
			} else if time.Since(since) > timeout {
				fmt.Fprintln(os.Stderr, "VERIF-HANG scenario did not finish")
				buf := make([]byte, 1<<16)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(7)
			}
		}
	}()
	n := area.N(c)
	lo, hi := *start, n
	if *only >= 0 {
		lo, hi = *only, *only+1
	}
	w := bufio.NewWriter(f)
	for i := lo; i < hi; i++ {
		atomic.AddInt64(&beat, 1)
		fmt.Fprintf(os.Stdout, "S %d\n", i)
		t := &Trace{Id: i, R: rand.New(rand.NewSource(*seed*1000003 + int64(i)*7919 + 17))}
		area.Run(c, i, t)
		if t.Cfg == nil {
			t.Cfg = M{"_": 0}
		}
		if t.Evs == nil {
			t.Evs = []M{}
		}
		b, err := json.Marshal(t)
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
	fmt.Fprintf(os.Stdout, "DONE %d\n", n)
}

// Perm returns a shuffled copy of n indices.
func Pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }
