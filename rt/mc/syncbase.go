package mc

import "unsafe"

// The types below are used by the sync, atomic and context shims.

// AddrObj returns the dependency object of a memory address.
func AddrObj(p unsafe.Pointer) *Obj {
	if ex.addrObj == nil {
		return &Obj{}
	}
	o := ex.addrObj[p]
	if o == nil {
		o = &Obj{epoch: ex.epoch}
		ex.addrObj[p] = o
	}
	return o
}

// AtomicOp performs f as one atomic action on address p.
func AtomicOp(name string, p unsafe.Pointer, c Class, f func()) {
	if p == nil {
		panic(plainError("invalid memory address or nil pointer dereference"))
	}
	if ex.aborting {
		return
	}
	o := AddrObj(p)
	simple(name, o, c, nil, func(t *Thread) {
		f()
		if t.vc == nil {
			return
		}
		ex.atomicAccess(t, p, c == Write)
		t.acquire(o.vc)
		if c == Write {
			t.release(&o.vc)
		}
	})
}

// Mutex state shared by Mutex and RWMutex.
type Mutex struct {
	o       Obj
	epoch   uint64
	held    bool
	readers int
	writer  bool // a writer holds or has announced itself
	readVC  VC
}

func (m *Mutex) fresh() {
	if m.epoch != ex.epoch {
		m.epoch = ex.epoch
		m.o = Obj{epoch: ex.epoch}
	}
}

func (m *Mutex) Lock() {
	m.fresh()
	simple("Lock", &m.o, Write, func() bool { return !m.held }, func(t *Thread) {
		m.held = true
		t.acquire(m.o.vc)
	})
}

func (m *Mutex) TryLock() (ok bool) {
	m.fresh()
	simple("TryLock", &m.o, Write, nil, func(t *Thread) {
		if !m.held {
			m.held, ok = true, true
			t.acquire(m.o.vc)
		}
	})
	return
}

func (m *Mutex) Unlock() {
	m.fresh()
	eager("Unlock", &m.o, Write, func(t *Thread) {
		if !m.held {
			ex.fail("fatal", "sync: unlock of unlocked mutex")
			t.pan = theAbort
			return
		}
		m.held = false
		t.release(&m.o.vc)
	})
}

// Reader/writer lock operations; a waiting writer blocks new readers.
func (m *Mutex) WLock() {
	m.fresh()
	simple("Lock(announce)", &m.o, Write, func() bool { return !m.writer }, func(t *Thread) { m.writer = true })
	simple("Lock", &m.o, Write, func() bool { return m.readers == 0 }, func(t *Thread) {
		m.held = true
		t.acquire(m.o.vc)
		t.acquire(m.readVC)
	})
}

func (m *Mutex) WTryLock() (ok bool) {
	m.fresh()
	simple("TryLock", &m.o, Write, nil, func(t *Thread) {
		if !m.writer && m.readers == 0 {
			m.writer, m.held, ok = true, true, true
			t.acquire(m.o.vc)
			t.acquire(m.readVC)
		}
	})
	return
}

func (m *Mutex) WUnlock() {
	m.fresh()
	eager("Unlock", &m.o, Write, func(t *Thread) {
		if !m.held {
			ex.fail("fatal", "sync: Unlock of unlocked RWMutex")
			t.pan = theAbort
			return
		}
		m.held, m.writer = false, false
		t.release(&m.o.vc)
	})
}

func (m *Mutex) RLock() {
	m.fresh()
	simple("RLock", &m.o, Add, func() bool { return !m.writer }, func(t *Thread) {
		m.readers++
		t.acquire(m.o.vc)
	})
}

func (m *Mutex) RTryLock() (ok bool) {
	m.fresh()
	simple("TryRLock", &m.o, Write, nil, func(t *Thread) {
		if !m.writer {
			m.readers++
			ok = true
			t.acquire(m.o.vc)
		}
	})
	return
}

func (m *Mutex) RUnlock() {
	m.fresh()
	eager("RUnlock", &m.o, Add, func(t *Thread) {
		if m.readers == 0 {
			ex.fail("fatal", "sync: RUnlock of unlocked RWMutex")
			t.pan = theAbort
			return
		}
		m.readers--
		t.release(&m.readVC)
	})
}

// Cond is a condition variable; waiters are woken in FIFO order.
type Cond struct {
	o     Obj
	epoch uint64
	wait  []*waiter
}

type waiter struct {
	woken bool
	vc    VC
}

func (c *Cond) fresh() {
	if c.epoch != ex.epoch {
		c.epoch = ex.epoch
		c.o = Obj{epoch: ex.epoch}
		c.wait = nil
	}
}

// Wait atomically enqueues the caller and calls unlock, then waits for a wake-up.
func (c *Cond) Wait(unlock func()) {
	c.fresh()
	w := &waiter{}
	simple("Cond.Wait(enqueue)", &c.o, Write, nil, func(t *Thread) { c.wait = append(c.wait, w) })
	unlock()
	simple("Cond.Wait", &c.o, Write, func() bool { return w.woken }, func(t *Thread) { t.acquire(w.vc) })
}

func (c *Cond) Signal() {
	c.fresh()
	simple("Cond.Signal", &c.o, Write, nil, func(t *Thread) {
		if len(c.wait) > 0 {
			w := c.wait[0]
			c.wait = c.wait[1:]
			w.woken = true
			t.release(&w.vc)
		}
	})
}

func (c *Cond) Broadcast() {
	c.fresh()
	simple("Cond.Broadcast", &c.o, Write, nil, func(t *Thread) {
		for _, w := range c.wait {
			w.woken = true
			t.release(&w.vc)
		}
		c.wait = nil
	})
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	o     Obj
	epoch uint64
	n     int
}

func (w *WaitGroup) fresh() {
	if w.epoch != ex.epoch {
		w.epoch = ex.epoch
		w.o = Obj{epoch: ex.epoch}
	}
}

func (w *WaitGroup) Add(d int) {
	w.fresh()
	do := func(t *Thread) {
		w.n += d
		if w.n < 0 {
			t.pan = "sync: negative WaitGroup counter"
			return
		}
		if d < 0 {
			t.release(&w.o.vc)
		}
	}
	if d < 0 {
		eager("WaitGroup.Done", &w.o, Add, do)
		return
	}
	simple("WaitGroup.Add", &w.o, Add, nil, do)
}

func (w *WaitGroup) Wait() {
	w.fresh()
	simple("WaitGroup.Wait", &w.o, Read, func() bool { return w.n == 0 }, func(t *Thread) { t.acquire(w.o.vc) })
}

// Once is sync.Once.
type Once struct {
	o       Obj
	epoch   uint64
	done    bool
	running bool
}

func (o *Once) Do(f func()) {
	if o.epoch != ex.epoch {
		o.epoch = ex.epoch
		o.o = Obj{epoch: ex.epoch}
	}
	run := false
	simple("Once.Do", &o.o, Write, func() bool { return !o.running }, func(t *Thread) {
		if o.done {
			t.acquire(o.o.vc)
			return
		}
		o.running, run = true, true
	})
	if !run {
		return
	}
	defer eager("Once.done", &o.o, Write, func(t *Thread) {
		o.running, o.done = false, true
		t.release(&o.o.vc)
	})
	f()
}

// Map is sync.Map: every operation is one atomic action.
type Map struct {
	o     Obj
	epoch uint64
	m     map[any]*mapEnt
	keys  []any
}

type mapEnt struct {
	v  any
	in bool
	vc VC
}

func (m *Map) fresh() {
	if m.epoch != ex.epoch {
		m.epoch = ex.epoch
		m.o = Obj{epoch: ex.epoch}
	}
	if m.m == nil {
		m.m = map[any]*mapEnt{}
	}
}

func (m *Map) ent(k any) *mapEnt {
	e := m.m[k]
	if e == nil {
		e = &mapEnt{}
		m.m[k] = e
		m.keys = append(m.keys, k)
	}
	return e
}

// Do runs f on the entry of key k as one atomic action.
func (m *Map) Do(name string, c Class, k any, f func(v *any, in *bool)) {
	m.fresh()
	_ = map[any]bool{k: true} // panics for unhashable keys, like sync.Map
	simple("Map."+name, &m.o, c, nil, func(t *Thread) {
		if c == Read {
			e := m.m[k]
			if e == nil {
				e = &mapEnt{}
			}
			t.acquire(e.vc)
			v, in := e.v, e.in
			f(&v, &in)
			return
		}
		e := m.ent(k)
		defer func() {
			if r := recover(); r != nil {
				t.pan = r
			}
		}()
		t.acquire(e.vc)
		f(&e.v, &e.in)
		t.release(&e.vc)
	})
}

// Keys lists the keys present.
func (m *Map) Keys() (ks []any) {
	m.fresh()
	simple("Map.Range", &m.o, Read, nil, func(t *Thread) {
		for _, k := range m.keys {
			if m.m[k].in {
				ks = append(ks, k)
			}
		}
	})
	return
}

// Clear removes everything.
func (m *Map) Clear() {
	m.fresh()
	simple("Map.Clear", &m.o, Write, nil, func(t *Thread) {
		for _, e := range m.m {
			t.acquire(e.vc)
			e.v, e.in = nil, false
			t.release(&e.vc)
		}
	})
}

// Pool is sync.Pool; Get may return any pooled item or none.
type Pool struct {
	o     Obj
	epoch uint64
	items []poolItem
}

type poolItem struct {
	v  any
	vc VC
}

func (p *Pool) fresh() {
	if p.epoch != ex.epoch {
		p.epoch = ex.epoch
		p.o = Obj{epoch: ex.epoch}
		p.items = nil
	}
}

func (p *Pool) Get() (v any, ok bool) {
	p.fresh()
	t := ex.cur
	if t == nil {
		return nil, false
	}
	t.op = pendOp{kind: opMulti, name: "Pool.Get", nalts: func() int { return len(p.items) + 1 }}
	t.op.exec = func(alt int) {
		ex.event(t, 500+uint64(alt), acc{&p.o, Write})
		n := len(p.items)
		if alt == n {
			return
		}
		it := p.items[n-1-alt]
		p.items = append(p.items[:n-1-alt:n-1-alt], p.items[n-alt:]...)
		t.acquire(it.vc)
		v, ok = it.v, true
	}
	ex.park(t)
	return
}

func (p *Pool) Put(v any) {
	p.fresh()
	simple("Pool.Put", &p.o, Write, nil, func(t *Thread) {
		it := poolItem{v: v}
		t.release(&it.vc)
		p.items = append(p.items, it)
	})
}

// Flag is a one-shot broadcast event with a payload (contexts).
type Flag struct {
	O    Obj
	Ch   *Chan[struct{}]
	Err  error
	Why  error
	Kids []*Flag
	Fns  []*After
}

// After is a function that is started when a flag is set, at most once.
type After struct {
	f    func()
	done bool
}

// NewFlag returns a flag that is not set.
func NewFlag() *Flag { return &Flag{Ch: MakeChan[struct{}]()} }

// Fire sets the flag and its descendants as one atomic action, and reports
// whether it was not set before.
func (f *Flag) Fire(err, why error) (first bool) {
	f.Ch.c.obj.fresh()
	var fns []func()
	simple("context cancel", &f.Ch.c.obj, Write, nil, func(t *Thread) {
		first = f.Err == nil
		fns = f.fire(t, err, why, true)
	})
	for _, g := range fns {
		Go(g)
	}
	return
}

func (f *Flag) fire(t *Thread, err, why error, top bool) (fns []func()) {
	if f.Err != nil {
		return
	}
	f.Ch.c.obj.fresh()
	t.acquire(f.Ch.c.obj.vc) // those who attached something
	if !top && t.vc != nil {
		// the children are separate objects of the same event
		ex.event(t, 600, acc{&f.Ch.c.obj, Write})
	}
	f.Err, f.Why = err, why
	f.Ch.CloseNow(t)
	for _, a := range f.Fns {
		if !a.done {
			a.done = true
			fns = append(fns, a.f)
		}
	}
	f.Fns = nil
	for _, k := range f.Kids {
		fns = append(fns, k.fire(t, err, why, false)...)
	}
	return
}

// State reads the flag.
func (f *Flag) State() (err, why error) {
	f.Ch.c.obj.fresh()
	simple("context Err", &f.Ch.c.obj, Read, nil, func(t *Thread) {
		err, why = f.Err, f.Why
		if err != nil {
			t.acquire(f.Ch.c.obj.vc)
		}
	})
	return
}

// Attach registers a child, or a function that is to be started in a goroutine
// of its own; it reports the error if the flag is already set.
func (f *Flag) Attach(kid *Flag, fn *After) (err, why error) {
	f.Ch.c.obj.fresh()
	start := false
	simple("context attach", &f.Ch.c.obj, Write, nil, func(t *Thread) {
		if f.Err != nil {
			err, why = f.Err, f.Why
			t.acquire(f.Ch.c.obj.vc)
			if fn != nil && !fn.done {
				fn.done, start = true, true
			}
			return
		}
		if kid != nil {
			f.Kids = append(f.Kids, kid)
		}
		if fn != nil {
			f.Fns = append(f.Fns, fn)
		}
		t.release(&f.Ch.c.obj.vc)
	})
	if start {
		Go(fn.f)
	}
	return
}

// NewAfter returns a record for f.
func NewAfter(f func()) *After { return &After{f: f} }

// Detach prevents a function from being started, and reports whether it did.
func (f *Flag) Detach(fn *After) (stopped bool) {
	f.Ch.c.obj.fresh()
	simple("context stop", &f.Ch.c.obj, Write, nil, func(t *Thread) {
		stopped = !fn.done
		fn.done = true
		if f.Err != nil {
			t.acquire(f.Ch.c.obj.vc)
		}
	})
	return
}
