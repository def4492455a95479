package mc

import (
	"fmt"
	"iter"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"unsafe"
)

type opKind uint8

const (
	opNone opKind = iota
	opStart
	opNop
	opYield
	opChoose
	opIdle
	opSimple
	opMulti
	opSel
)

type pendOp struct {
	kind    opKind
	name    string
	n       int
	mark    int
	enabled func() bool
	nalts   func() int
	exec    func(alt int)
	cases   []Case
	hasDef  bool
	selAlt  int
}

type abortSig struct{}

var theAbort any = &abortSig{}

// worker is a reusable coroutine.
type worker struct {
	next  func() (struct{}, bool)
	stop  func()
	yield func(struct{}) bool
	job   *Thread
}

// Thread is one controlled goroutine.
type Thread struct {
	id     int
	w      *worker
	fn     func()
	op     pendOp
	done   bool
	daemon bool
	hash   H
	vc     VC
	nspawn uint64
	alt    int
	pan    any
	name   string
}

type Trans struct {
	t, alt, p, palt int // p == -1: solo
}

type node struct {
	trs    []Trans
	choice int
	sig    H
	last   int
	cost   []int
	spent  int
}

// Violation describes a failed execution.
type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

// Explorer holds the state of one exploration.
type Explorer struct {
	epoch    uint64
	threads  []*Thread
	cur      *Thread
	last     *Thread
	sig      H
	nev      int
	aborting bool
	active   bool
	viol     *Violation
	finals   []func()
	outs     []string
	leaked   []string
	shadow   map[unsafe.Pointer]*shadow
	addrObj  map[unsafe.Pointer]*Obj
	free     []*worker
	accesses int64
	fairNow  bool
	trace    bool
	steps    []string
	nCPU     int
	clock    int64

	stack   []*node
	visited map[H]int16
	late    bool // the time is over
	sc      *Scenario

	res Result
}

var ex = &Explorer{}

// progress counters read by the watchdog.
var execCount atomic.Int64

// Config of a scenario run.
type Scenario struct {
	Name      string
	NumCPU    int
	Bound     int  // preemption bound; <0 unbounded
	NoRace    bool // switch data race detection off
	AllowLeak bool // blocked threads after main returned are fine
	Default   bool // explore only choices (inputs), one schedule per input
	Fine      bool // scheduling points after release operations as well
	MaxStates int
	Horizon   int
	Body      func()
}

// Result of exploring one scenario.
type Result struct {
	Scenario    string         `json:"scenario"`
	Execs       int64          `json:"execs"`
	Complete    int64          `json:"complete"`
	States      int64          `json:"states"`
	Transitions int64          `json:"transitions"`
	Pruned      int64          `json:"pruned"`
	BoundHit    int64          `json:"bound_hit"`
	MaxDepth    int            `json:"max_depth"`
	MaxThreads  int            `json:"max_threads"`
	Accesses    int64          `json:"accesses"`
	Exhaustive  bool           `json:"exhaustive"`
	Why         string         `json:"why,omitempty"`
	Outcomes    map[string]int `json:"outcomes"`
	NOutcomes   int            `json:"n_outcomes"`
	Violation   *Violation     `json:"violation,omitempty"`
	Schedule    []Trans        `json:"-"`
	Trace       []string       `json:"trace,omitempty"`
	Choices     []int          `json:"choices,omitempty"`
}

// Active reports whether controlled execution is running.
func Active() bool { return ex.active && ex.cur != nil }

func (e *Explorer) newThread(fn func(), name string, daemon bool) *Thread {
	t := &Thread{id: len(e.threads), fn: fn, name: name, daemon: daemon}
	t.op = pendOp{kind: opStart, name: "start"}
	if p := e.cur; p != nil {
		p.nspawn++
		t.hash = p.hash.mixn(1000003 * p.nspawn)
		t.vc = p.vc.clone()
		p.tick()
	} else {
		t.hash = H{uint64(t.id) + 12345, 999}
	}
	t.tick()
	e.threads = append(e.threads, t)
	if len(e.threads) > e.res.MaxThreads {
		e.res.MaxThreads = len(e.threads)
	}
	return t
}

func (t *Thread) tick() {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

func (t *Thread) acquire(vc VC) { t.vc.join(vc) }

func (t *Thread) release(vc *VC) {
	vc.join(t.vc)
	t.tick()
}

func newWorker() *worker {
	w := &worker{}
	w.next, w.stop = iter.Pull(func(yield func(struct{}) bool) {
		w.yield = yield
		for {
			w.runJob()
			w.job.done = true
			if !yield(struct{}{}) {
				return
			}
		}
	})
	return w
}

func (w *worker) runJob() {
	defer func() {
		if r := recover(); r != nil {
			if r == theAbort {
				return
			}
			ex.fail("crash", fmt.Sprintf("uncaught panic in goroutine %d: %s", w.job.id, firstLine(r)))
			if ex.trace {
				ex.steps = append(ex.steps, "panic stack:\n"+string(debug.Stack()))
			}
		}
	}()
	w.job.fn()
}

func firstLine(v any) string {
	s := fmt.Sprint(v)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func (e *Explorer) fail(kind, msg string) {
	if e.viol == nil && !e.aborting {
		e.viol = &Violation{kind, msg}
	}
}

// resume runs t up to its next operation.
func (e *Explorer) resume(t *Thread) {
	if t.w == nil {
		if n := len(e.free); n > 0 {
			t.w = e.free[n-1]
			e.free = e.free[:n-1]
		} else {
			t.w = newWorker()
		}
		t.w.job = t
	}
	e.cur = t
	t.w.next()
	e.cur = nil
	if t.done {
		e.free = append(e.free, t.w)
		t.w = nil
	}
}

// park publishes the pending operation of the current thread and waits until
// the explorer has executed it.
func (e *Explorer) park(t *Thread) {
	if e.aborting {
		panic(theAbort)
	}
	if e.viol != nil {
		panic(theAbort)
	}
	t.w.yield(struct{}{})
	if e.aborting {
		panic(theAbort)
	}
	if t.pan != nil {
		p := t.pan
		t.pan = nil
		panic(p)
	}
}

type acc struct {
	o *Obj
	c Class
}

func (e *Explorer) event(t *Thread, alt uint64, accs ...acc) {
	h := t.hash.mixn(alt)
	for _, a := range accs {
		h = h.mix(a.o.dep(a.c))
	}
	for _, a := range accs {
		a.o.sum = a.o.sum.add(h)
	}
	t.hash = h
	e.sig = e.sig.add(h)
	e.nev++
}

// simple performs one operation with a single object.
func simple(name string, o *Obj, c Class, enabled func() bool, do func(t *Thread)) {
	t := ex.cur
	if t == nil {
		if ex.aborting {
			return
		}
		if enabled != nil && !enabled() {
			panic("mc: blocking operation outside a controlled thread: " + name)
		}
		o.fresh()
		do(&Thread{})
		return
	}
	t.op = pendOp{kind: opSimple, name: name, enabled: enabled}
	t.op.exec = func(int) {
		ex.event(t, 1, acc{o, c})
		do(t)
	}
	ex.park(t)
}

// eager performs a release operation without a preceding scheduling point.
func eager(name string, o *Obj, c Class, do func(t *Thread)) {
	t := ex.cur
	if ex.aborting {
		return
	}
	if t == nil {
		o.fresh()
		do(&Thread{})
		return
	}
	if ex.trace {
		ex.steps = append(ex.steps, fmt.Sprintf("T%d %s%s", t.id, name, ex.site()))
	}
	ex.event(t, 2, acc{o, c})
	do(t)
	if t.pan != nil {
		p := t.pan
		t.pan = nil
		panic(p)
	}
	if ex.sc.Fine {
		t.op = pendOp{kind: opNop, name: "after " + name}
		ex.park(t)
	}
}

// Go starts a controlled goroutine.
func Go(fn func()) {
	if ex.aborting {
		return
	}
	if ex.cur == nil {
		panic("mc: go statement outside a controlled thread")
	}
	c := ex.newThread(fn, "", false)
	if ex.trace {
		ex.steps = append(ex.steps, fmt.Sprintf("T%d go T%d%s", ex.cur.id, c.id, ex.site()))
	}
	if ex.sc.Fine {
		t := ex.cur
		t.op = pendOp{kind: opNop, name: "after go"}
		ex.park(t)
	}
}

// GoDaemon starts a controlled background thread (timers).
func GoDaemon(fn func()) {
	if ex.aborting || ex.cur == nil {
		return
	}
	ex.newThread(fn, "daemon", true)
}

// Yield is runtime.Gosched.
func Yield() {
	t := ex.cur
	if t == nil || ex.aborting {
		return
	}
	t.op = pendOp{kind: opYield, name: "yield", mark: ex.nev}
	ex.park(t)
}

// ChooseN explores every value 0..n-1.
func ChooseN(n int) int {
	if n <= 1 {
		return 0
	}
	t := ex.cur
	if t == nil {
		return 0
	}
	t.op = pendOp{kind: opChoose, name: "choose", n: n}
	ex.park(t)
	return t.alt
}

// enabled lists every transition possible in the current state.
func (e *Explorer) enabled(buf []Trans) []Trans {
	buf = buf[:0]
	// ample sets: a thread whose next operation is independent of every
	// operation of every other thread is explored alone.
	for _, t := range e.threads {
		if t.done {
			continue
		}
		switch t.op.kind {
		case opChoose:
			for i := 0; i < t.op.n; i++ {
				buf = append(buf, Trans{t.id, i, -1, 0})
			}
			return buf
		case opStart, opNop:
			if !e.sc.Fine && !t.daemon {
				return append(buf, Trans{t.id, 0, -1, 0})
			}
		}
	}
	for _, t := range e.threads {
		if t.done {
			continue
		}
		switch t.op.kind {
		case opStart, opNop:
			buf = append(buf, Trans{t.id, 0, -1, 0})
		case opYield:
			if e.nev > t.op.mark {
				buf = append(buf, Trans{t.id, 0, -1, 0})
			}
		case opSimple:
			if t.op.enabled == nil || t.op.enabled() {
				buf = append(buf, Trans{t.id, 0, -1, 0})
			}
		case opMulti:
			for i, n := 0, t.op.nalts(); i < n; i++ {
				buf = append(buf, Trans{t.id, i, -1, 0})
			}
		case opSel:
			buf = e.selTrans(t, buf)
		}
	}
	if len(buf) == 0 {
		for _, t := range e.threads {
			if !t.done && (t.op.kind == opYield || t.op.kind == opIdle) {
				buf = append(buf, Trans{t.id, 0, -1, 0})
			}
		}
	}
	if l := e.last; l != nil && len(buf) > 1 {
		k := 0
		for i := range buf {
			if buf[i].t == l.id || buf[i].p == l.id {
				x := buf[i]
				copy(buf[k+1:i+1], buf[k:i])
				buf[k] = x
				k++
			}
		}
	}
	return buf
}

func (e *Explorer) exec(tr Trans) {
	t := e.threads[tr.t]
	if e.trace {
		e.steps = append(e.steps, e.describe(tr))
	}
	if tr.p >= 0 {
		p := e.threads[tr.p]
		e.execJoint(t, p, tr)
		if e.last != p {
			e.last = t
		}
		e.resume(t)
		if e.viol == nil {
			e.resume(p)
		}
		return
	}
	t.alt = tr.alt
	switch t.op.kind {
	case opStart:
		e.event(t, 11)
	case opNop, opYield:
		e.event(t, 12)
	case opIdle:
		// depends on everything that has happened
		t.hash = t.hash.mix(e.sig)
		e.event(t, 13)
	case opChoose:
		e.event(t, 100+uint64(tr.alt))
	case opSimple, opMulti:
		e.last = t
		t.op.exec(tr.alt)
	case opSel:
		e.last = t
		e.execSolo(t, tr.alt)
	}
	e.resume(t)
}

func (e *Explorer) describe(tr Trans) string {
	t := e.threads[tr.t]
	s := fmt.Sprintf("T%d %s", t.id, t.op.name)
	if t.op.kind == opChoose || t.op.kind == opMulti {
		s += fmt.Sprintf(" -> %d", tr.alt)
	}
	if t.op.kind == opSel {
		s = fmt.Sprintf("T%d %s", t.id, selName(t, tr.alt))
	}
	if tr.p >= 0 {
		s += fmt.Sprintf(" <=> T%d %s", tr.p, selName(e.threads[tr.p], tr.palt))
	}
	return s
}

func (e *Explorer) site() string {
	if !e.trace {
		return ""
	}
	var pcs [24]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.File, "/zz_verif/") || strings.Contains(f.File, "/zz_verif/harness") {
			fn := f.Function
			if i := strings.LastIndexByte(fn, '/'); i >= 0 {
				fn = fn[i+1:]
			}
			return fmt.Sprintf(" at %s:%d (%s)", trimPath(f.File), f.Line, fn)
		}
		if !more {
			return ""
		}
	}
}

func trimPath(p string) string {
	for _, m := range []string{"/zz_verif/", "/repo/"} {
		if i := strings.Index(p, m); i >= 0 {
			return p[i+len(m):]
		}
	}
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		if j := strings.LastIndexByte(p[:i], '/'); j >= 0 {
			return p[j+1:]
		}
	}
	return p
}

var resets []func()

// RegisterReset is called by the generated per-package reset functions.
func RegisterReset(f func()) { resets = append(resets, f) }

var epochCounter uint64

func (e *Explorer) begin() {
	epochCounter++
	e.epoch = epochCounter
	e.threads = e.threads[:0]
	e.cur, e.last = nil, nil
	e.sig = H{1, 1}
	e.nev = 0
	e.aborting = false
	e.viol = nil
	e.finals = nil
	e.outs = nil
	e.leaked = nil
	e.accesses = 0
	e.fairNow = false
	e.steps = nil
	e.clock = 0
	if len(e.shadow) > 0 || e.shadow == nil {
		if len(e.shadow) > 4096 || e.shadow == nil {
			e.shadow = map[unsafe.Pointer]*shadow{}
		} else {
			clear(e.shadow)
		}
	}
	clear(e.addrObj)
	for _, f := range resets {
		f()
	}
	e.active = true
}

func (e *Explorer) end() {
	e.aborting = true
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		if !t.done && t.w != nil {
			for tries := 0; !t.done && tries < 100000; tries++ {
				e.resume(t)
			}
		}
	}
	e.active = false
	e.res.Execs++
	execCount.Add(1)
	e.res.Accesses += e.accesses
}

var errReplay = "replay diverged: the program under test is not deterministic under the controlled scheduler"

// nondet is set when a replay diverged.
type nondet struct{ msg string }

// run executes one schedule: the prefix on the stack, then default choices,
// pushing new nodes. It returns false if the run was cut at a visited state.
func (e *Explorer) run() (complete bool) {
	e.begin()
	main := e.newThread(e.sc.Body, "main", false)
	e.resumeMain(main)
	depth := 0
	var buf []Trans
	horizon := e.sc.Horizon
	if horizon == 0 {
		horizon = 20000
		if e.sc.Default {
			horizon = 400000
		}
	}
	for e.viol == nil {
		if depth&8191 == 8191 && Stop != nil && Stop() {
			e.late = true
			return false
		}
		var tr Trans
		if depth < len(e.stack) {
			n := e.stack[depth]
			if n.sig != e.sig {
				panic(nondet{errReplay})
			}
			tr = n.trs[n.choice]
			if tr.t >= len(e.threads) || e.threads[tr.t].done {
				panic(nondet{errReplay})
			}
			e.exec(tr)
			depth++
			continue
		}
		buf = e.enabled(buf)
		if len(buf) == 0 || e.onlyDaemons() {
			return e.terminal()
		}
		if depth >= horizon {
			e.fair(buf)
			return false
		}
		if e.sc.Default && e.threads[buf[0].t].op.kind != opChoose {
			buf = buf[:1]
		}
		spent := 0
		lastID := -1
		if e.last != nil {
			lastID = e.last.id
		}
		if depth > 0 {
			p := e.stack[depth-1]
			spent = p.spent + p.cost[p.choice]
		}
		n := &node{sig: e.sig, last: lastID, spent: spent}
		if e.sc.Bound >= 0 && len(buf) > 1 && e.threads[buf[0].t].op.kind != opChoose {
			lastOK := lastID >= 0 && (buf[0].t == lastID || buf[0].p == lastID)
			for _, x := range buf {
				c := 0
				if lastOK && x.t != lastID && x.p != lastID {
					c = 1
				}
				if spent+c > e.sc.Bound {
					e.res.BoundHit++
					continue
				}
				n.trs = append(n.trs, x)
				n.cost = append(n.cost, c)
			}
		} else {
			n.trs = append(n.trs, buf...)
			n.cost = make([]int, len(n.trs))
		}
		if len(n.trs) > 1 || e.sc.Bound < 0 {
			key := e.sig
			left := int16(0)
			if e.sc.Bound >= 0 {
				key = key.mixn(uint64(lastID + 5))
				left = int16(e.sc.Bound - spent)
			}
			if old, ok := e.visited[key]; ok && old >= left && !NoPrune {
				e.res.Pruned++
				return false
			}
			if _, ok := e.visited[key]; !ok {
				e.res.States++
			}
			e.visited[key] = left
		} else {
			e.res.States++
		}
		e.stack = append(e.stack, n)
		if len(e.stack) > e.res.MaxDepth {
			e.res.MaxDepth = len(e.stack)
		}
		e.res.Transitions++
		e.exec(n.trs[0])
		depth++
	}
	return false
}

func (e *Explorer) resumeMain(t *Thread) {
	t.op = pendOp{kind: opNop, name: "main"}
	e.last = t
	e.resume(t)
}

func (e *Explorer) onlyDaemons() bool {
	for _, t := range e.threads {
		if !t.done && !t.daemon {
			return false
		}
	}
	return true
}

func (e *Explorer) terminal() bool {
	main := e.threads[0]
	for _, t := range e.threads {
		if !t.done && !t.daemon {
			e.leaked = append(e.leaked, fmt.Sprintf("T%d blocked in %s", t.id, opName(t)))
		}
	}
	if !main.done {
		e.fail("deadlock", "no goroutine can make progress: "+strings.Join(e.leaked, "; "))
		return false
	}
	if len(e.leaked) > 0 && !e.sc.AllowLeak {
		e.fail("leak", "goroutines blocked forever after the call returned: "+strings.Join(e.leaked, "; "))
		return false
	}
	for _, f := range e.finals {
		f()
		if e.viol != nil {
			return false
		}
	}
	e.res.Complete++
	out := strings.Join(e.outs, "|")
	if _, ok := e.res.Outcomes[out]; ok || len(e.res.Outcomes) < 5000 {
		e.res.Outcomes[out]++
	}
	return true
}

func opName(t *Thread) string {
	if t.op.kind == opSel {
		return "select/channel operation"
	}
	return t.op.name
}

// fair continues a very long execution under a round-robin schedule; if it
// still does not end, the program cannot terminate even under fairness.
func (e *Explorer) fair(buf []Trans) {
	next := 0
	for i := 0; i < 3000000 && e.viol == nil; i++ {
		if i&8191 == 8191 && Stop != nil && Stop() {
			e.late = true
			return
		}
		buf = e.enabled(buf)
		if len(buf) == 0 || e.onlyDaemons() {
			e.res.Exhaustive = false
			e.res.Why = "horizon reached"
			e.terminal()
			return
		}
		pick := buf[0]
		best := 1 << 30
		for _, x := range buf {
			d := (x.t - next + len(e.threads)) % len(e.threads)
			if d < best {
				best, pick = d, x
			}
		}
		// rotate over alternatives too
		var same []Trans
		for _, x := range buf {
			if x.t == pick.t {
				same = append(same, x)
			}
		}
		pick = same[i%len(same)]
		next = pick.t + 1
		e.exec(pick)
	}
	if e.viol == nil {
		e.fail("livelock", "no termination within the horizon, even under a fair schedule")
	}
}

// NoPrune makes the search expand states it has visited before, to compare
// the results with those of the usual search.
var NoPrune bool

// Stop is polled between executions.
var Stop func() bool

// Explore runs the exhaustive search for one scenario.
func Explore(sc *Scenario) (res *Result) {
	e := &Explorer{sc: sc, nCPU: sc.NumCPU, free: ex.free}
	if e.nCPU == 0 {
		e.nCPU = 2
	}
	e.addrObj = map[unsafe.Pointer]*Obj{}
	e.visited = map[H]int16{}
	e.res = Result{Scenario: sc.Name, Exhaustive: true, Outcomes: map[string]int{}}
	ex = e
	defer func() {
		if r := recover(); r != nil {
			if nd, ok := r.(nondet); ok {
				e.end()
				e.res.Exhaustive = false
				e.res.Why = nd.msg
				e.res.NOutcomes = len(e.res.Outcomes)
				res = &e.res
				return
			}
			panic(r)
		}
	}()
	for {
		e.run()
		e.end()
		if e.viol != nil {
			e.res.Violation = e.viol
			for _, n := range e.stack {
				e.res.Schedule = append(e.res.Schedule, n.trs[n.choice])
			}
			e.res.Exhaustive = false
			if e.res.Why == "" {
				e.res.Why = "stopped at a violation"
			}
			break
		}
		for len(e.stack) > 0 {
			n := e.stack[len(e.stack)-1]
			if n.choice+1 < len(n.trs) {
				n.choice++
				e.res.Transitions++
				break
			}
			e.stack[len(e.stack)-1] = nil
			e.stack = e.stack[:len(e.stack)-1]
		}
		if len(e.stack) == 0 {
			break
		}
		if sc.MaxStates > 0 && e.res.States >= int64(sc.MaxStates) {
			e.res.Exhaustive = false
			e.res.Why = "state cap"
			break
		}
		if e.late || Stop != nil && Stop() {
			e.res.Exhaustive = false
			e.res.Why = "time budget"
			break
		}
	}
	if e.res.BoundHit > 0 && sc.Bound >= 0 && e.res.Why == "" {
		e.res.Why = fmt.Sprintf("complete for preemption bound %d", sc.Bound)
	}
	e.res.NOutcomes = len(e.res.Outcomes)
	return &e.res
}

// Replay re-executes a schedule with tracing and returns its violation.
func Replay(sc *Scenario, sched []Trans) (v *Violation, trace []string, diverged bool) {
	e := &Explorer{sc: sc, nCPU: sc.NumCPU, free: ex.free, trace: true}
	if e.nCPU == 0 {
		e.nCPU = 2
	}
	e.addrObj = map[unsafe.Pointer]*Obj{}
	e.visited = map[H]int16{}
	e.res = Result{Outcomes: map[string]int{}}
	ex = e
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(nondet); ok {
				e.end()
				diverged = true
				trace = e.steps
				return
			}
			panic(r)
		}
	}()
	e.begin()
	main := e.newThread(e.sc.Body, "main", false)
	e.resumeMain(main)
	var buf []Trans
	for _, tr := range sched {
		if e.viol != nil {
			break
		}
		buf = e.enabled(buf)
		ok := false
		for _, x := range buf {
			if x == tr {
				ok = true
			}
		}
		if !ok {
			panic(nondet{errReplay})
		}
		e.exec(tr)
	}
	if e.viol == nil {
		buf = e.enabled(buf)
		if len(buf) == 0 || e.onlyDaemons() {
			e.terminal()
		} else {
			e.fair(buf)
		}
	}
	v = e.viol
	trace = e.steps
	e.end()
	return v, trace, false
}

// CheckDeadline helper for harness binaries.
func Fatalf(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(3)
}

// Fail records a violation and ends the current thread.
func Fail(format string, a ...any) {
	if ex.aborting {
		return
	}
	ex.fail("fail", fmt.Sprintf(format, a...))
	if ex.cur != nil {
		panic(theAbort)
	}
}

// Out appends to the observable outcome of this execution.
func Out(s string) { ex.outs = append(ex.outs, s) }

// Final registers a check to be run when every thread has ended or is blocked.
func Final(f func()) { ex.finals = append(ex.finals, f) }

// NumCPU is the simulated processor count.
func NumCPU() int {
	if ex.nCPU == 0 {
		return 2
	}
	return ex.nCPU
}

// NumThreads counts live threads.
func NumThreads() int {
	n := 0
	for _, t := range ex.threads {
		if !t.done && !t.daemon {
			n++
		}
	}
	return n
}

// Recover filters the abort signal out of recovered values.
func Recover(r any) any {
	if r == theAbort {
		panic(theAbort)
	}
	return r
}

// Tick advances and returns the virtual clock (nanoseconds).
func Tick() int64 {
	ex.clock += 1000
	return ex.clock
}

// Point is a scheduling point that commutes with everything.
func Point() {
	t := ex.cur
	if t == nil || ex.aborting {
		return
	}
	t.op = pendOp{kind: opNop, name: "point"}
	ex.park(t)
}

// Idle blocks until no other thread can take a step.
func Idle() {
	t := ex.cur
	if t == nil || ex.aborting {
		return
	}
	t.op = pendOp{kind: opIdle, name: "idle"}
	ex.park(t)
}

// Event is an object for harness observations: visible to the scheduler but
// without any synchronisation effect.
type Event struct{ o Obj }

// Do performs f as a visible event.
func (e *Event) Do(name string, f func()) {
	simple(name, &e.o, Write, nil, func(*Thread) { f() })
}

// Read performs f as an event that commutes with other reads.
func (e *Event) Read(name string, f func()) {
	simple(name, &e.o, Read, nil, func(*Thread) { f() })
}

// Inc performs f as an event that commutes with other increments.
func (e *Event) Inc(name string, f func()) {
	simple(name, &e.o, Add, nil, func(*Thread) { f() })
}

// Wait blocks until cond holds.
func (e *Event) Wait(name string, cond func() bool) {
	simple(name, &e.o, Read, cond, func(*Thread) {})
}
