// Package mct runs the harness freely on the real scheduler.
package mct

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"time"
)

type Scenario struct {
	Name      string
	Prop      string
	NumCPU    int
	PB        int
	Thorough  bool
	NoRace    bool
	AllowLeak bool
	Default   bool
	Fine      bool
	NoFree    bool
	Real      bool // with the real size thresholds
	MaxStates int
	Horizon   int
	Body      func()
}

var scenarios []Scenario

func Register(s Scenario) { scenarios = append(scenarios, s) }

var (
	mu     sync.Mutex
	rng    *rand.Rand
	outs   []string
	finals []func()
	failed string
)

type abort struct{}

func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	mu.Lock()
	defer mu.Unlock()
	return rng.Intn(n)
}

func Free() bool { return true }

func Fail(format string, a ...any) {
	mu.Lock()
	defer mu.Unlock()
	if failed == "" {
		failed = fmt.Sprintf(format, a...)
	}
}

func Assert(cond bool, format string, a ...any) {
	if !cond {
		Fail(format, a...)
	}
}

func Out(format string, a ...any) {
	mu.Lock()
	defer mu.Unlock()
	outs = append(outs, fmt.Sprintf(format, a...))
}

func Final(f func()) {
	mu.Lock()
	defer mu.Unlock()
	finals = append(finals, f)
}

func Yield() { perturb() }

// Idle waits until most likely nothing else can happen; scenarios that depend
// on it are not run freely.
func Idle() { time.Sleep(5 * time.Millisecond) }

func perturb() {
	mu.Lock()
	k := rng.Intn(8)
	mu.Unlock()
	switch {
	case k < 3:
	case k < 7:
		runtime.Gosched()
	default:
		time.Sleep(time.Microsecond * time.Duration(k))
	}
}

type Log struct {
	mu sync.Mutex
	l  []string
}

func NewLog() *Log { return &Log{} }
func (l *Log) Add(format string, a ...any) {
	perturb()
	l.mu.Lock()
	defer l.mu.Unlock()
	l.l = append(l.l, fmt.Sprintf(format, a...))
}
func (l *Log) Items() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.l...)
}
func (l *Log) Len() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.l)
}

type Bag struct {
	mu sync.Mutex
	m  map[string]int
}

func NewBag() *Bag { return &Bag{m: map[string]int{}} }
func (b *Bag) Add(format string, a ...any) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.m == nil {
		b.m = map[string]int{}
	}
	b.m[fmt.Sprintf(format, a...)]++
}
func (b *Bag) Count(format string, a ...any) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.m[fmt.Sprintf(format, a...)]
}
func (b *Bag) Len() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	n := 0
	for _, c := range b.m {
		n += c
	}
	return n
}
func (b *Bag) Map() map[string]int { return b.m }

type Gauge struct {
	mu       sync.Mutex
	cur, max int
}

func NewGauge() *Gauge { return &Gauge{} }
func (g *Gauge) Enter() int {
	g.mu.Lock()
	g.cur++
	g.max = max(g.max, g.cur)
	n := g.cur
	g.mu.Unlock()
	perturb()
	return n
}
func (g *Gauge) Leave() {
	perturb()
	g.mu.Lock()
	defer g.mu.Unlock()
	g.cur--
}
func (g *Gauge) Max() int {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.max
}

type Cell struct {
	mu sync.Mutex
	v  int
}

func (c *Cell) Add(d int) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.v += d
	return c.v
}
func (c *Cell) Inc() { c.Add(1) }
func (c *Cell) Get() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.v
}
func (c *Cell) Set(x int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.v = x
}
func (c *Cell) Wait(x int) {
	for c.Get() < x {
		time.Sleep(20 * time.Microsecond)
	}
}

var (
	fList     = flag.Bool("list", false, "list scenarios")
	fRun      = flag.String("run", "", "scenario to run")
	fN        = flag.Int("n", 20, "executions")
	fSeed     = flag.Int64("seed", 1, "seed")
	fBudget   = flag.Float64("budget", 5, "seconds")
	fThorough = flag.Bool("thorough", false, "thorough tier")
)

func Thorough() bool { return *fThorough }

func Tier[T any](quick, thorough T) T {
	if *fThorough {
		return thorough
	}
	return quick
}

type report struct {
	Scenario string         `json:"scenario"`
	Runs     int            `json:"runs"`
	Outcomes map[string]int `json:"outcomes"`
	Failed   string         `json:"failed,omitempty"`
	Hung     bool           `json:"hung,omitempty"`
}

// Main runs scenarios (comma separated) freely and prints their outcomes.
func Main() {
	flag.Parse()
	if *fList {
		return
	}
	rng = rand.New(rand.NewSource(*fSeed))
	for i := range scenarios {
		s := &scenarios[i]
		if s.Name != *fRun {
			continue
		}
		r := report{Scenario: s.Name, Outcomes: map[string]int{}}
		end := time.Now().Add(time.Duration(*fBudget * float64(time.Second)))
		for k := 0; k < *fN && time.Now().Before(end); k++ {
			outs, finals, failed = nil, nil, ""
			base := runtime.NumGoroutine()
			done := make(chan bool)
			go func() {
				defer close(done)
				s.Body()
			}()
			select {
			case <-done:
			case <-time.After(60 * time.Second):
				r.Hung = true
			}
			if r.Hung {
				break
			}
			if !s.AllowLeak {
				for t := time.Now(); runtime.NumGoroutine() > base && time.Since(t) < 10*time.Second; {
					time.Sleep(20 * time.Microsecond)
				}
			}
			for _, f := range finals {
				f()
			}
			mu.Lock()
			o := ""
			for i, x := range outs {
				if i > 0 {
					o += "|"
				}
				o += x
			}
			r.Runs++
			r.Outcomes[o]++
			if failed != "" && r.Failed == "" {
				r.Failed = failed
			}
			mu.Unlock()
		}
		json.NewEncoder(os.Stdout).Encode(r)
		return
	}
	os.Exit(3)
}
