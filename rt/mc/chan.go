package mc

import "fmt"

// core is the type-independent part of a channel.
type core struct {
	obj    Obj
	cap    int
	closed bool
	n      int // buffered elements
	slotVC []VC
	elemVC []VC
	sent   int
	recvd  int
	seen   uint64
}

// Case is one communication of a select statement.
type Case interface {
	core() *core
	isSend() bool
	solo(t *Thread)     // perform against the buffer / closed channel
	give(t *Thread) any // sender side of a rendezvous
	take(t *Thread, from Case)
}

// Chan replaces chan T.
type Chan[T any] struct {
	c   core
	buf []T
}

// MakeChan replaces make(chan T, n).
func MakeChan[T any](n ...int) *Chan[T] {
	ch := &Chan[T]{}
	if len(n) > 0 {
		if n[0] < 0 {
			panic("makechan: size out of range")
		}
		ch.c.cap = n[0]
	}
	return ch
}

// SendCase is a send communication.
type SendCase[T any] struct {
	ch *Chan[T]
	v  T
}

// RecvCase is a receive communication; Val and Ok hold its result.
type RecvCase[T any] struct {
	ch  *Chan[T]
	Val T
	Ok  bool
}

func (c *Chan[T]) SendCase(v T) *SendCase[T] { return &SendCase[T]{c, v} }
func (c *Chan[T]) RecvCase() *RecvCase[T]    { return &RecvCase[T]{ch: c} }

func (s *SendCase[T]) core() *core {
	if s.ch == nil {
		return nil
	}
	return &s.ch.c
}
func (s *RecvCase[T]) core() *core {
	if s.ch == nil {
		return nil
	}
	return &s.ch.c
}
func (s *SendCase[T]) isSend() bool       { return true }
func (s *RecvCase[T]) isSend() bool       { return false }
func (s *SendCase[T]) give(t *Thread) any { return nil }
func (s *RecvCase[T]) give(t *Thread) any { return nil }
func (s *SendCase[T]) take(*Thread, Case) {}
func (s *RecvCase[T]) take(t *Thread, from Case) {
	s.Val = from.(*SendCase[T]).v
	s.Ok = true
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

func (s *SendCase[T]) solo(t *Thread) {
	c := &s.ch.c
	if c.closed {
		t.pan = plainError("send on closed channel")
		return
	}
	s.ch.buf = append(s.ch.buf, s.v)
	i := c.sent % c.cap
	if len(c.slotVC) < c.cap {
		c.slotVC = make([]VC, c.cap)
		c.elemVC = make([]VC, c.cap)
	}
	t.acquire(c.slotVC[i])
	c.elemVC[i] = nil
	t.release(&c.elemVC[i])
	c.sent++
	c.n++
}

func (s *RecvCase[T]) solo(t *Thread) {
	c := &s.ch.c
	if c.n > 0 {
		s.Val, s.Ok = s.ch.buf[0], true
		s.ch.buf = s.ch.buf[1:]
		i := c.recvd % c.cap
		t.acquire(c.elemVC[i])
		c.slotVC[i] = nil
		t.release(&c.slotVC[i])
		c.recvd++
		c.n--
		return
	}
	var z T
	s.Val, s.Ok = z, false
	t.acquire(c.obj.vc)
}

// soloReady reports whether the case can complete without a partner.
func soloReady(cs Case) bool {
	c := cs.core()
	if c == nil {
		return false
	}
	if cs.isSend() {
		return c.closed || c.n < c.cap
	}
	return c.n > 0 || c.closed
}

const defaultAlt = -1

func (e *Explorer) selTrans(t *Thread, buf []Trans) []Trans {
	certain := false
	for i, cs := range t.op.cases {
		c := cs.core()
		if c == nil {
			continue
		}
		if soloReady(cs) {
			certain = true
			buf = append(buf, Trans{t.id, i, -1, 0})
			continue
		}
		if !cs.isSend() || c.cap > 0 {
			continue
		}
		for _, u := range e.threads {
			if u == t || u.done || u.op.kind != opSel {
				continue
			}
			for j, cr := range u.op.cases {
				if !cr.isSend() && cr.core() == c {
					buf = append(buf, Trans{t.id, i, u.id, j})
				}
			}
		}
	}
	if t.op.hasDef && !certain {
		buf = append(buf, Trans{t.id, defaultAlt, -1, 0})
	}
	return buf
}

func (e *Explorer) execJoint(s, r *Thread, tr Trans) {
	cs, cr := s.op.cases[tr.alt], r.op.cases[tr.palt]
	c := cs.core()
	h := s.hash.mixn(200 + uint64(tr.alt)).mix(r.hash.mixn(300 + uint64(tr.palt)))
	h = h.mix(c.obj.dep(Read))
	c.obj.sum = c.obj.sum.add(h)
	s.hash, r.hash = h.mixn(1), h.mixn(2)
	e.sig = e.sig.add(h)
	e.nev++
	cr.take(r, cs)
	s.alt, r.alt = tr.alt, tr.palt
	sv := s.vc.clone()
	s.acquire(r.vc)
	r.acquire(sv)
	s.tick()
	r.tick()
}

func (e *Explorer) execSolo(t *Thread, alt int) {
	t.alt = alt
	if alt == defaultAlt {
		var accs []acc
		for _, cs := range t.op.cases {
			if c := cs.core(); c != nil {
				dup := false
				for _, a := range accs {
					if a.o == &c.obj {
						dup = true
					}
				}
				if !dup {
					accs = append(accs, acc{&c.obj, Read})
				}
			}
		}
		e.event(t, 399, accs...)
		return
	}
	cs := t.op.cases[alt]
	c := cs.core()
	cl := Write
	if c.closed && c.n == 0 {
		cl = Read
	}
	e.event(t, 400+uint64(alt), acc{&c.obj, cl})
	cs.solo(t)
}

func selName(t *Thread, alt int) string {
	if t.op.kind != opSel {
		return t.op.name
	}
	if alt == defaultAlt {
		return "select default"
	}
	cs := t.op.cases[alt]
	s := "recv"
	if cs.isSend() {
		s = "send"
	}
	if cs.core().closed {
		s += "(closed)"
	}
	if len(t.op.cases) > 1 {
		s = fmt.Sprintf("select case %d: %s", alt, s)
	}
	return s
}

// Select replaces the select statement; it returns the index of the case that
// was performed, or len(cases) for the default case.
func Select(hasDefault bool, cases ...Case) int {
	t := ex.cur
	if t == nil {
		if ex.aborting {
			return 0
		}
		for i, cs := range cases {
			if soloReady(cs) {
				d := &Thread{}
				cs.core().obj.fresh()
				cs.solo(d)
				if d.pan != nil {
					panic(d.pan)
				}
				return i
			}
		}
		if hasDefault {
			return len(cases)
		}
		panic("mc: blocking channel operation outside a controlled thread")
	}
	t.op = pendOp{kind: opSel, cases: cases, hasDef: hasDefault, name: "select"}
	if ex.trace {
		t.op.name = "select" + ex.site()
	}
	ex.park(t)
	if t.alt == defaultAlt {
		return len(cases)
	}
	return t.alt
}

// Send replaces ch <- v.
func (c *Chan[T]) Send(v T) { Select(false, &SendCase[T]{c, v}) }

// Recv replaces <-ch.
func (c *Chan[T]) Recv() T {
	r := &RecvCase[T]{ch: c}
	Select(false, r)
	return r.Val
}

// Recv2 replaces v, ok := <-ch.
func (c *Chan[T]) Recv2() (T, bool) {
	r := &RecvCase[T]{ch: c}
	Select(false, r)
	return r.Val, r.Ok
}

// Close replaces close(ch).
func (c *Chan[T]) Close() {
	if c == nil {
		panic(plainError("close of nil channel"))
	}
	simple("close", &c.c.obj, Write, nil, func(t *Thread) {
		if c.c.closed {
			t.pan = plainError("close of closed channel")
			return
		}
		c.c.closed = true
		t.release(&c.c.obj.vc)
	})
}

// closeNow closes as part of another operation.
func (c *Chan[T]) CloseNow(t *Thread) {
	c.c.obj.fresh()
	c.c.closed = true
	t.release(&c.c.obj.vc)
}

// Len replaces len(ch).
func (c *Chan[T]) Len() int {
	if c == nil || c.c.cap == 0 {
		return 0
	}
	n := 0
	simple("len(chan)", &c.c.obj, Read, nil, func(*Thread) { n = c.c.n })
	return n
}

// Cap replaces cap(ch).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.c.cap
}

// Iter replaces range over a channel.
func (c *Chan[T]) Iter() func(yield func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := c.Recv2()
			if !ok || !yield(v) {
				return
			}
		}
	}
}
