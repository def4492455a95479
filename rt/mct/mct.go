// Package mct is the harness side of the model checker. The harness is
// ordinary Go; this variant of the package runs it under the controlled
// scheduler, the one in rt_plain runs it freely.
package mct

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/intel/forGoParallel/zz_verif/mc"
)

// Scenario is one bounded space of executions.
type Scenario struct {
	Name      string
	Prop      string // property it decides
	NumCPU    int    // simulated processors (default 2)
	PB        int    // 0: all interleavings; n>0: at most n-1 preemptions
	Thorough  bool   // only in the thorough tier
	NoRace    bool
	AllowLeak bool
	Default   bool // enumerate inputs only, one schedule each
	Fine      bool
	NoFree    bool // not replayed against the real scheduler
	Real      bool // with the real size thresholds
	MaxStates int
	Horizon   int
	Body      func()
}

var scenarios []Scenario

// Register adds a scenario.
func Register(s Scenario) { scenarios = append(scenarios, s) }

// Choose returns every value in [0,n) in turn.
func Choose(n int) int { return mc.ChooseN(n) }

// Free reports whether the harness runs on the real scheduler.
func Free() bool { return false }

// Fail reports a violation.
func Fail(format string, a ...any) { mc.Fail(format, a...) }

// Assert reports a violation when cond is false.
func Assert(cond bool, format string, a ...any) {
	if !cond {
		mc.Fail(format, a...)
	}
}

// Out appends to the outcome of the execution.
func Out(format string, a ...any) { mc.Out(fmt.Sprintf(format, a...)) }

// Final registers a check for the end of the execution (all goroutines done).
func Final(f func()) { mc.Final(f) }

// Yield is a scheduling point without any effect.
func Yield() { mc.Point() }

// Idle blocks until nothing else can happen.
func Idle() { mc.Idle() }

// Log is an ordered log: every Add is a visible, mutually dependent event, but
// it does not order the memory accesses around it.
type Log struct {
	o mc.Event
	l []string
}

func NewLog() *Log { return &Log{} }

func (l *Log) Add(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	l.o.Do("log "+s, func() { l.l = append(l.l, s) })
}

// Items returns the log.
func (l *Log) Items() []string { return append([]string(nil), l.l...) }

// Len reads the length as an event of its own.
func (l *Log) Len() (n int) {
	l.o.Do("log len", func() { n = len(l.l) })
	return
}

// Bag is a multiset; its operations are invisible to the scheduler, so it may
// only be read in Final or after everything that adds to it has finished.
type Bag struct{ m map[string]int }

func NewBag() *Bag { return &Bag{map[string]int{}} }

func (b *Bag) Add(format string, a ...any) {
	if b.m == nil {
		b.m = map[string]int{}
	}
	b.m[fmt.Sprintf(format, a...)]++
}
func (b *Bag) Count(format string, a ...any) int {
	return b.m[fmt.Sprintf(format, a...)]
}
func (b *Bag) Len() int {
	n := 0
	for _, c := range b.m {
		n += c
	}
	return n
}
func (b *Bag) Map() map[string]int { return b.m }

// Gauge counts activities that overlap.
type Gauge struct {
	o        mc.Event
	cur, max int
}

func NewGauge() *Gauge { return &Gauge{} }

func (g *Gauge) Enter() (n int) {
	g.o.Do("enter", func() {
		g.cur++
		g.max = max(g.max, g.cur)
		n = g.cur
	})
	return
}
func (g *Gauge) Leave() { g.o.Do("leave", func() { g.cur-- }) }
func (g *Gauge) Max() int {
	return g.max
}

// Cell is a shared integer with visible, mutually dependent accesses that do
// not order memory.
type Cell struct {
	o mc.Event
	v int
}

func (c *Cell) Add(d int) (v int) {
	c.o.Do("cell", func() { c.v += d; v = c.v })
	return
}
func (c *Cell) Get() (v int) {
	c.o.Read("cell", func() { v = c.v })
	return
}

// Inc increments; increments commute.
func (c *Cell) Inc()      { c.o.Inc("cell inc", func() { c.v++ }) }
func (c *Cell) Set(x int) { c.o.Do("cell", func() { c.v = x }) }

// Wait blocks until the value is at least x.
func (c *Cell) Wait(x int) { c.o.Wait("cell wait", func() bool { return c.v >= x }) }

var (
	fList     = flag.Bool("list", false, "list scenarios")
	fRun      = flag.String("run", "", "scenario to run")
	fBudget   = flag.Float64("budget", 60, "seconds")
	fThorough = flag.Bool("thorough", false, "thorough tier")
	fReplay   = flag.String("replay", "", "schedule to replay")
	fNoPrune  = flag.Bool("noprune", false, "do not recognise visited states")
	fNoMem    = flag.Bool("nomem", false, "binary without memory instrumentation")
)

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return *fThorough }

// Tier picks the quick or the thorough value of a bound.
func Tier[T any](quick, thorough T) T {
	if *fThorough {
		return thorough
	}
	return quick
}

type output struct {
	*mc.Result
	Wall     float64    `json:"wall_s"`
	Schedule []mc.Trans `json:"schedule,omitempty"`
	Replays  int        `json:"replays,omitempty"`
	Detail   []string   `json:"detail,omitempty"`
}

// Main is the entry point of the harness binary.
func Main() {
	flag.Parse()
	mc.NoPrune = *fNoPrune
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	if *fList {
		var l []map[string]any
		for _, s := range scenarios {
			l = append(l, map[string]any{"name": s.Name, "prop": s.Prop, "thorough": s.Thorough, "nofree": s.NoFree, "numcpu": s.cpus(), "default": s.Default, "real": s.Real})
		}
		json.NewEncoder(os.Stdout).Encode(l)
		return
	}
	for i := range scenarios {
		if scenarios[i].Name == *fRun {
			runOne(&scenarios[i])
			return
		}
	}
	mc.Fatalf("no scenario %q", *fRun)
}

func (s *Scenario) cpus() int {
	if s.NumCPU == 0 {
		return 2
	}
	return s.NumCPU
}

func runOne(s *Scenario) {
	sc := &mc.Scenario{
		Name: s.Name, NumCPU: s.cpus(), Bound: s.PB - 1, NoRace: s.NoRace || *fNoMem, AllowLeak: s.AllowLeak,
		Default: s.Default, Fine: s.Fine, MaxStates: s.MaxStates, Horizon: s.Horizon, Body: s.Body,
	}
	start := time.Now()
	deadline := start.Add(time.Duration(*fBudget * float64(time.Second)))
	mc.Stop = func() bool { return time.Now().After(deadline) }
	enc := json.NewEncoder(os.Stdout)
	if *fReplay != "" {
		b, err := os.ReadFile(*fReplay)
		if err != nil {
			mc.Fatalf("%v", err)
		}
		var in struct {
			Schedule []mc.Trans `json:"schedule"`
		}
		if err := json.Unmarshal(b, &in); err != nil {
			mc.Fatalf("%v", err)
		}
		v, trace, div := mc.Replay(sc, in.Schedule)
		for _, l := range trace {
			fmt.Println(l)
		}
		switch {
		case div:
			fmt.Println("REPLAY DIVERGED")
			os.Exit(4)
		case v != nil:
			fmt.Printf("VIOLATION REPRODUCED [%s] %s\n", v.Kind, v.Msg)
			os.Exit(1)
		}
		fmt.Println("NO VIOLATION")
		return
	}
	res := mc.Explore(sc)
	o := output{Result: res, Wall: time.Since(start).Seconds()}
	if res.Violation != nil {
		o.Schedule = res.Schedule
		for i := 0; i < 3; i++ {
			v, trace, div := mc.Replay(sc, res.Schedule)
			if !div && v != nil && v.Kind == res.Violation.Kind {
				o.Replays++
				o.Detail = trace
				if v.Kind == "race" {
					for _, l := range trace {
						if strings.HasPrefix(l, "RACE") {
							o.Violation.Msg = strings.TrimPrefix(l, "RACE: ")
						}
					}
				}
			}
		}
	}
	if len(o.Outcomes) > 4000 {
		o.Outcomes = nil
	}
	enc.Encode(o)
}
