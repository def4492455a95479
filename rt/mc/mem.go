package mc

import (
	"cmp"
	"fmt"
	"reflect"
	"slices"
	"unsafe"
)

// shadow is the access history of one memory location.
type shadow struct {
	wT, rT int32
	wC, rC uint32
	wSite  string
	rSite  string
	more   []racc
	atom   []racc // atomic accesses
}

type racc struct {
	t    int32
	c    uint32
	w    bool
	site string
}

// AccessLimit bounds the plain memory accesses of one execution.
var AccessLimit int64 = 400_000_000

func (e *Explorer) access(p unsafe.Pointer, write bool) {
	t := e.cur
	if t == nil || e.aborting {
		return
	}
	e.accesses++
	if e.sc.NoRace {
		if e.accesses > AccessLimit {
			e.fail("runaway", "execution does not terminate (memory access limit)")
			panic(theAbort)
		}
		return
	}
	s := e.shadow[p]
	if s == nil {
		s = &shadow{wT: -1, rT: -1}
		e.shadow[p] = s
		if e.accesses > AccessLimit {
			e.fail("runaway", "execution does not terminate (memory access limit)")
			panic(theAbort)
		}
	} else if e.accesses > AccessLimit {
		e.fail("runaway", "execution does not terminate (memory access limit)")
		panic(theAbort)
	}
	id := int32(t.id)
	now := t.vc[t.id]
	if s.wT >= 0 && s.wT != id && t.vc.get(int(s.wT)) < s.wC {
		e.race(t, write, s.wT, "write", s.wSite)
	}
	for _, r := range s.atom {
		if r.t != id && (write || r.w) && t.vc.get(int(r.t)) < r.c {
			e.race(t, write, r.t, "atomic access", r.site)
		}
	}
	if write {
		if s.rT >= 0 && s.rT != id && t.vc.get(int(s.rT)) < s.rC {
			e.race(t, write, s.rT, "read", s.rSite)
		}
		for _, r := range s.more {
			if r.t != id && t.vc.get(int(r.t)) < r.c {
				e.race(t, write, r.t, "read", r.site)
			}
		}
		s.wT, s.wC = id, now
		s.rT = -1
		s.more = s.more[:0]
		if e.trace {
			s.wSite = e.site()
		}
		return
	}
	if s.rT == id || s.rT < 0 || t.vc.get(int(s.rT)) >= s.rC {
		s.rT, s.rC = id, now
		if e.trace {
			s.rSite = e.site()
		}
		return
	}
	for i := range s.more {
		if s.more[i].t == id {
			s.more[i].c = now
			return
		}
	}
	r := racc{t: id, c: now}
	if e.trace {
		r.site = e.site()
	}
	s.more = append(s.more, r)
}

// atomicAccess checks an atomic access against plain accesses.
func (e *Explorer) atomicAccess(t *Thread, p unsafe.Pointer, write bool) {
	if e.sc.NoRace || e.aborting {
		return
	}
	s := e.shadow[p]
	if s == nil {
		s = &shadow{wT: -1, rT: -1}
		e.shadow[p] = s
	}
	id := int32(t.id)
	if s.wT >= 0 && s.wT != id && t.vc.get(int(s.wT)) < s.wC {
		e.raceNow(t, write, s.wT, "write", s.wSite)
		return
	}
	if write {
		if s.rT >= 0 && s.rT != id && t.vc.get(int(s.rT)) < s.rC {
			e.raceNow(t, write, s.rT, "read", s.rSite)
			return
		}
		for _, r := range s.more {
			if r.t != id && t.vc.get(int(r.t)) < r.c {
				e.raceNow(t, write, r.t, "read", r.site)
				return
			}
		}
	}
	now := t.vc[t.id]
	for i := range s.atom {
		if s.atom[i].t == id && s.atom[i].w == write {
			s.atom[i].c = now
			return
		}
	}
	s.atom = append(s.atom, racc{t: id, c: now, w: write})
}

func (e *Explorer) race(t *Thread, write bool, ot int32, ok, osite string) {
	e.raceNow(t, write, ot, ok, osite)
	panic(theAbort)
}

func (e *Explorer) raceNow(t *Thread, write bool, ot int32, ok, osite string) {
	k := "read"
	if write {
		k = "write"
	}
	msg := "data race: " + k + " concurrent with " + ok
	if e.trace {
		e.steps = append(e.steps, fmt.Sprintf("RACE: T%d %s%s is concurrent with T%d %s%s", t.id, k, e.site(), ot, ok, osite))
	}
	e.fail("race", msg)
}

// Rd records a read of *p.
func Rd[T any](p *T) *T {
	if unsafe.Sizeof(*p) != 0 {
		ex.access(unsafe.Pointer(p), false)
	}
	return p
}

// Wr records a write of *p.
func Wr[T any](p *T) *T {
	if p != nil && unsafe.Sizeof(*p) != 0 {
		ex.access(unsafe.Pointer(p), true)
	}
	return p
}

// RW records a read and a write of *p.
func RW[T any](p *T) *T {
	if unsafe.Sizeof(*p) != 0 {
		ex.access(unsafe.Pointer(p), false)
		ex.access(unsafe.Pointer(p), true)
	}
	return p
}

var leafCache = map[reflect.Type][]uintptr{}

func leaves(t reflect.Type, base uintptr, out []uintptr) []uintptr {
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			out = leaves(f.Type, base+f.Offset, out)
		}
	case reflect.Array:
		n := t.Len()
		if n > 64 {
			n = 64
		}
		for i := 0; i < n; i++ {
			out = leaves(t.Elem(), base+uintptr(i)*t.Elem().Size(), out)
		}
	default:
		if t.Size() != 0 {
			out = append(out, base)
		}
	}
	return out
}

func (e *Explorer) accessAll(p unsafe.Pointer, t reflect.Type, write bool) {
	l, ok := leafCache[t]
	if !ok {
		l = leaves(t, 0, nil)
		leafCache[t] = l
	}
	for _, o := range l {
		e.access(unsafe.Add(p, o), write)
	}
}

// RdS is Rd for structs and arrays.
func RdS[T any](p *T) *T {
	ex.accessAll(unsafe.Pointer(p), reflect.TypeFor[T](), false)
	return p
}

// WrS is Wr for structs and arrays.
func WrS[T any](p *T) *T {
	ex.accessAll(unsafe.Pointer(p), reflect.TypeFor[T](), true)
	return p
}

// mark records a write of *a whatever its type.
func mark[A any](a *A) *A {
	if unsafe.Sizeof(*a) <= 8 {
		return Wr(a)
	}
	return WrS(a)
}

// SetP1 assigns after its argument has been evaluated.
func SetP1[A any](a *A) func(A) {
	return func(x A) { *mark(a) = x }
}

func SetP2[A, B any](a *A, b *B) func(A, B) {
	return func(x A, y B) { *mark(a), *mark(b) = x, y }
}

func SetP3[A, B, C any](a *A, b *B, c *C) func(A, B, C) {
	return func(x A, y B, z C) { *mark(a), *mark(b), *mark(c) = x, y, z }
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MapRd records a read of the map.
func MapRd[M ~map[K]V, K comparable, V any](m M) M {
	if m != nil {
		ex.access(mapPtr[M, K, V](m), false)
	}
	return m
}

// MapWr records a write of the map.
func MapWr[M ~map[K]V, K comparable, V any](m M) M {
	if m != nil {
		ex.access(mapPtr[M, K, V](m), true)
	}
	return m
}

// MapSet returns an assigning function for the map.
func MapSet[M ~map[K]V, K comparable, V any](m M) func(K, V) {
	return func(k K, v V) { MapWr[M, K, V](m)[k] = v }
}

// RangeSlice iterates over a slice, recording element reads.
func RangeSlice[S ~[]E, E any](s S) func(yield func(int, E) bool) {
	return func(yield func(int, E) bool) {
		for i := range s {
			if !yield(i, *Rd(&s[i])) {
				return
			}
		}
	}
}

// RangeMap iterates over a map in a deterministic order.
func RangeMap[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		MapRd[M, K, V](m)
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		slices.SortFunc(keys, func(a, b K) int { return keyCmp(a, b) })
		for _, k := range keys {
			v, ok := MapRd[M, K, V](m)[k]
			if !ok && k == k {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func keyCmp(a, b any) int {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == vb.Kind() {
		switch {
		case va.CanInt():
			return cmp.Compare(va.Int(), vb.Int())
		case va.CanUint():
			return cmp.Compare(va.Uint(), vb.Uint())
		case va.CanFloat():
			return cmp.Compare(va.Float(), vb.Float())
		}
	}
	return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b))
}

func rdSlice[S ~[]E, E any](s S) {
	if ex.cur == nil || ex.aborting {
		return
	}
	if ex.sc.NoRace {
		ex.accesses += int64(len(s))
		return
	}
	for i := range s {
		Rd(&s[i])
	}
}

func wrSlice[S ~[]E, E any](s S) {
	if ex.cur == nil || ex.aborting {
		return
	}
	if ex.sc.NoRace {
		ex.accesses += int64(len(s))
		return
	}
	for i := range s {
		Wr(&s[i])
	}
}

// Copy replaces copy for slices.
func Copy[S ~[]E, R ~[]E, E any](dst S, src R) int {
	n := min(len(dst), len(src))
	rdSlice[R, E](src[:n])
	wrSlice[S, E](dst[:n])
	return copy(dst, src)
}

// AppendNote records the memory effects of append(s, n elements...).
func AppendTo[S ~[]E, E any](s S, n int) S {
	if ex.cur == nil || ex.aborting {
		return s
	}
	if len(s)+n <= cap(s) {
		wrSlice[S, E](s[len(s) : len(s)+n])
	} else {
		rdSlice[S, E](s)
	}
	return s
}

// AppendSlice replaces append(s, t...).
func AppendSlice[S ~[]E, R ~[]E, E any](s S, r R) S {
	rdSlice[R, E](r)
	AppendTo[S, E](s, len(r))
	return append(s, r...)
}

// Zero clears *p.
func Zero[T any](p *T) {
	var z T
	*p = z
}
