// Package sync is the controlled replacement of the standard package.
package sync

import (
	"github.com/intel/forGoParallel/zz_verif/mc"
	real "sync"
)

type Locker = real.Locker

type Mutex struct{ m mc.Mutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type RWMutex struct{ m mc.Mutex }

func (m *RWMutex) Lock()          { m.m.WLock() }
func (m *RWMutex) Unlock()        { m.m.WUnlock() }
func (m *RWMutex) TryLock() bool  { return m.m.WTryLock() }
func (m *RWMutex) RLock()         { m.m.RLock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }
func (m *RWMutex) TryRLock() bool { return m.m.RTryLock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ w mc.WaitGroup }

func (w *WaitGroup) Add(n int) { w.w.Add(n) }
func (w *WaitGroup) Done()     { w.w.Add(-1) }
func (w *WaitGroup) Wait()     { w.w.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.w.Add(1)
	mc.Go(func() {
		defer w.w.Add(-1)
		f()
	})
}

type Once struct{ o mc.Once }

func (o *Once) Do(f func()) { o.o.Do(f) }

func OnceFunc(f func()) func() {
	v := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { v() }
}

func OnceValue[T any](f func() T) func() T {
	var (
		once  Once
		valid bool
		p     any
		res   T
	)
	return func() T {
		once.Do(func() {
			defer func() {
				p = mc.Recover(recover())
				if !valid {
					panic(p)
				}
			}()
			res = f()
			f = nil
			valid = true
		})
		if !valid {
			panic(p)
		}
		return res
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	type both struct {
		a T1
		b T2
	}
	v := OnceValue(func() both { a, b := f(); return both{a, b} })
	return func() (T1, T2) { x := v(); return x.a, x.b }
}

type Cond struct {
	L Locker
	c mc.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.c.Wait(c.L.Unlock)
	c.L.Lock()
}
func (c *Cond) Signal()    { c.c.Signal() }
func (c *Cond) Broadcast() { c.c.Broadcast() }

type Map struct{ m mc.Map }

func (m *Map) Load(key any) (value any, ok bool) {
	m.m.Do("Load", mc.Read, key, func(v *any, in *bool) {
		if *in {
			value, ok = *v, true
		}
	})
	return
}

func (m *Map) Store(key, value any) { m.Swap(key, value) }

func (m *Map) Clear() { m.m.Clear() }

func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	m.m.Do("LoadOrStore", mc.Write, key, func(v *any, in *bool) {
		if *in {
			actual, loaded = *v, true
			return
		}
		*v, *in = value, true
		actual = value
	})
	return
}

func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	m.m.Do("LoadAndDelete", mc.Write, key, func(v *any, in *bool) {
		if *in {
			value, loaded = *v, true
		}
		*v, *in = nil, false
	})
	return
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	m.m.Do("Swap", mc.Write, key, func(v *any, in *bool) {
		if *in {
			previous, loaded = *v, true
		}
		*v, *in = value, true
	})
	return
}

func (m *Map) CompareAndSwap(key, old, new any) (swapped bool) {
	m.m.Do("CompareAndSwap", mc.Write, key, func(v *any, in *bool) {
		if *in && *v == old {
			*v, swapped = new, true
		}
	})
	return
}

func (m *Map) CompareAndDelete(key, old any) (deleted bool) {
	m.m.Do("CompareAndDelete", mc.Write, key, func(v *any, in *bool) {
		if *in && *v == old {
			*v, *in, deleted = nil, false, true
		}
	})
	return
}

func (m *Map) Range(f func(key, value any) bool) {
	for _, k := range m.m.Keys() {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

type Pool struct {
	New func() any
	p   mc.Pool
}

func (p *Pool) Get() any {
	if v, ok := p.p.Get(); ok {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.p.Put(v)
}
