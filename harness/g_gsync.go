package main

import (
	"fmt"
	"sync"

	"github.com/intel/forGoParallel/gsync"
	"github.com/intel/forGoParallel/zz_verif/mct"
)

// mapOp is an operation on a Map[int,int] together with its specification on a
// plain map.
type mapOp struct {
	kind, k, v, w int
}

const mapKinds = 8

func (o mapOp) String() string {
	return fmt.Sprintf("%s(%d,%d,%d)", []string{"Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "Swap", "CompareAndSwap", "CompareAndDelete"}[o.kind], o.k, o.v, o.w)
}

func (o mapOp) real(m *gsync.Map[int, int]) string {
	switch o.kind {
	case 0:
		return fmt.Sprint(m.Load(o.k))
	case 1:
		m.Store(o.k, o.v)
	case 2:
		return fmt.Sprint(m.LoadOrStore(o.k, o.v))
	case 3:
		return fmt.Sprint(m.LoadAndDelete(o.k))
	case 4:
		m.Delete(o.k)
	case 5:
		return fmt.Sprint(m.Swap(o.k, o.v))
	case 6:
		return fmt.Sprint(m.CompareAndSwap(o.k, o.w, o.v))
	case 7:
		return fmt.Sprint(m.CompareAndDelete(o.k, o.w))
	}
	return ""
}

func (o mapOp) spec(m map[int]int) string {
	old, in := m[o.k]
	switch o.kind {
	case 0:
		return fmt.Sprint(old, in)
	case 1:
		m[o.k] = o.v
	case 2:
		if in {
			return fmt.Sprint(old, true)
		}
		m[o.k] = o.v
		return fmt.Sprint(o.v, false)
	case 3:
		delete(m, o.k)
		return fmt.Sprint(old, in)
	case 4:
		delete(m, o.k)
	case 5:
		m[o.k] = o.v
		return fmt.Sprint(old, in)
	case 6:
		if in && old == o.w {
			m[o.k] = o.v
			return "true"
		}
		return "false"
	case 7:
		if in && old == o.w {
			delete(m, o.k)
			return "true"
		}
		return "false"
	}
	return ""
}

// call is one completed operation with its real-time interval.
type call struct {
	op         mapOp
	res        string
	start, end int
}

// linearizable searches for an order of the calls that respects real time and
// explains every result and the final content.
func linearizable(calls []call, done uint, m map[int]int, final map[int]int) bool {
	if done == 1<<len(calls)-1 {
		if len(m) != len(final) {
			return false
		}
		for k, v := range final {
			if w, ok := m[k]; !ok || w != v {
				return false
			}
		}
		return true
	}
	for i, c := range calls {
		if done>>i&1 == 1 {
			continue
		}
		ok := true
		for j, d := range calls {
			if done>>j&1 == 0 && j != i && d.end < c.start {
				ok = false
			}
		}
		if !ok {
			continue
		}
		n := map[int]int{}
		for k, v := range m {
			n[k] = v
		}
		if c.op.spec(n) == c.res && linearizable(calls, done|1<<i, n, final) {
			return true
		}
	}
	return false
}

func content(m *gsync.Map[int, int]) map[int]int {
	r := map[int]int{}
	m.Range(func(k, v int) bool {
		if _, dup := r[k]; dup {
			mct.Fail("Range visited key %d twice", k)
		}
		r[k] = v
		return true
	})
	return r
}

func chooseOp(keys, vals int) mapOp {
	o := mapOp{kind: mct.Choose(mapKinds), k: mct.Choose(keys)}
	switch o.kind {
	case 1, 2, 5, 6:
		o.v = 1 + mct.Choose(vals)
	}
	switch o.kind {
	case 6, 7:
		o.w = 1 + mct.Choose(vals)
	}
	return o
}

func init() {
	// G01: linearizability of concurrent operations
	conc := func(threads, each, keys, vals int, realtime bool) func() {
		return func() {
			var m gsync.Map[int, int]
			init := map[int]int{}
			if mct.Choose(2) == 1 {
				m.Store(0, 1)
				init[0] = 1
			}
			ops := make([][]mapOp, threads)
			for t := range ops {
				for range each {
					ops[t] = append(ops[t], chooseOp(keys, vals))
				}
			}
			// permuting the threads gives the same set of executions
			for t := 1; t < threads; t++ {
				if fmt.Sprint(ops[t]) < fmt.Sprint(ops[t-1]) {
					return
				}
			}
			calls := make([]call, threads*each)
			var clock mct.Cell
			var wg sync.WaitGroup
			for t := range ops {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i, o := range ops[t] {
						c := &calls[t*each+i]
						c.op = o
						if realtime {
							c.start = clock.Add(1)
						} else {
							c.start = i * 2
						}
						c.res = o.real(&m)
						if realtime {
							c.end = clock.Add(1)
						} else {
							c.end = 1000
							if i+1 < each {
								c.end = i*2 + 1
							}
						}
					}
				}()
			}
			wg.Wait()
			final := content(&m)
			ok := false
			if realtime {
				ok = linearizable(calls, 0, init, final)
			} else {
				ok = seqConsistent(calls, each, init, final)
			}
			mct.Assert(ok, "no sequential order of %v from %v explains the results and the final content %v", calls, init, final)
			mct.Out("%v %v", calls, final)
		}
	}
	reg("G01", "two", mct.Scenario{Body: conc(2, 1, 2, 2, true)})
	reg("G01", "three", mct.Scenario{Body: conc(3, 1, 1, 2, false)})
	reg("G01", "twice", mct.Scenario{Body: conc(2, 2, 1, mct.Tier(1, 2), false)})
	reg("G01", "realtime", mct.Scenario{Thorough: true, Body: conc(2, 2, 1, 1, true)})
	reg("G01", "three/keys", mct.Scenario{Thorough: true, Body: conc(3, 1, 2, 2, false)})

	reg("G01", "Range", mct.Scenario{Body: func() {
		var m gsync.Map[int, int]
		m.Store(0, 10)
		m.Store(1, 11)
		m.Store(2, 12)
		kind := mct.Choose(5)
		seen := map[int]int{}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch kind {
			case 0:
				m.Store(1, 21)
			case 1:
				m.Delete(1)
			case 2:
				m.Store(3, 13)
			case 3:
				m.Swap(1, 21)
				m.Swap(1, 31)
			case 4:
				m.LoadAndDelete(1)
				m.LoadOrStore(1, 41)
			}
		}()
		m.Range(func(k, v int) bool {
			if w, dup := seen[k]; dup {
				mct.Fail("Range visited key %d twice (%d, %d)", k, w, v)
			}
			seen[k] = v
			return true
		})
		wg.Wait()
		mct.Assert(seen[0] == 10 && seen[2] == 12, "Range missed an entry that was present all the time: %v", seen)
		switch v, ok := seen[1]; kind {
		case 0:
			mct.Assert(v == 11 || v == 21, "Range reported %v for key 1", seen)
		case 1:
			mct.Assert(!ok || v == 11, "Range reported %v for key 1", seen)
		case 2:
			mct.Assert(v == 11, "Range reported %v for key 1", seen)
		case 3:
			mct.Assert(v == 11 || v == 21 || v == 31, "Range reported %v for key 1", seen)
		case 4:
			mct.Assert(!ok || v == 11 || v == 41, "Range reported %v for key 1", seen)
		}
		mct.Out("%d %v", kind, seen)
	}})

	// G02: sequences of operations behave like those on a plain map
	reg("G02", "sequences", mct.Scenario{Default: true, NoRace: true, Body: func() {
		var m gsync.Map[int, int]
		spec := map[int]int{}
		n := mct.Tier(4, 5)
		var trace []string
		for range n {
			o := chooseOp(mct.Tier(1, 1), 2)
			trace = append(trace, o.String())
			got, want := o.real(&m), o.spec(spec)
			mct.Assert(got == want, "%v returned %s, want %s", trace, got, want)
		}
		got := content(&m)
		mct.Assert(fmt.Sprint(got) == fmt.Sprint(spec), "%v leaves %v, want %v", trace, got, spec)
	}})
	reg("G02", "keys", mct.Scenario{Default: true, NoRace: true, Body: func() {
		var m gsync.Map[int, int]
		spec := map[int]int{}
		var trace []string
		for range 3 {
			o := chooseOp(2, 2)
			trace = append(trace, o.String())
			got, want := o.real(&m), o.spec(spec)
			mct.Assert(got == want, "%v returned %s, want %s", trace, got, want)
		}
		got := content(&m)
		mct.Assert(fmt.Sprint(got) == fmt.Sprint(spec), "%v leaves %v, want %v", trace, got, spec)
	}})
	reg("G02", "Range", mct.Scenario{Default: true, NoRace: true, Body: func() {
		var m gsync.Map[int, string]
		n := mct.Choose(6)
		for i := range n {
			m.Store(i, fmt.Sprint(i))
		}
		stop := mct.Choose(7)
		act := mct.Choose(4)
		seen := map[int]bool{}
		m.Range(func(k int, v string) bool {
			mct.Assert(!seen[k] && v == fmt.Sprint(k), "Range over %d entries visits %d:%q after %v", n, k, v, seen)
			seen[k] = true
			switch act { // the callback may use the map
			case 1:
				m.Delete(k)
			case 2:
				m.Store(k, v)
			case 3:
				m.Load(k)
			}
			return len(seen) < stop
		})
		mct.Assert(len(seen) == min(n, max(stop, 1)), "Range over %d entries visited %d until false at %d", n, len(seen), stop)
		left := 0
		m.Range(func(int, string) bool { left++; return true })
		want := n
		if act == 1 {
			want -= len(seen)
		}
		mct.Assert(left == want, "%d entries left, want %d", left, want)
		mct.Out("%d %d %d", n, stop, act)
	}})
	reg("G02", "interfaces", mct.Scenario{Default: true, NoRace: true, Body: func() {
		// values and keys of interface type, among them nil
		var vals = []any{nil, 1, "x", (*int)(nil)}
		var m gsync.Map[any, any]
		spec := map[any]any{}
		var trace []string
		for range 3 {
			k := vals[mct.Choose(3)]
			kind := mct.Choose(mapKinds)
			v := vals[mct.Choose(len(vals))]
			trace = append(trace, fmt.Sprintf("%d(%v,%v)", kind, k, v))
			old, in := spec[k]
			var got, want string
			p, panicked := caught(func() {
				switch kind {
				case 0:
					x, ok := m.Load(k)
					got, want = show(x, ok), show(old, in)
				case 1:
					m.Store(k, v)
					spec[k] = v
				case 2:
					x, ok := m.LoadOrStore(k, v)
					got = show(x, ok)
					if in {
						want = show(old, true)
					} else {
						want = show(v, false)
						spec[k] = v
					}
				case 3:
					x, ok := m.LoadAndDelete(k)
					got, want = show(x, ok), show(old, in)
					delete(spec, k)
				case 4:
					m.Delete(k)
					delete(spec, k)
				case 5:
					x, ok := m.Swap(k, v)
					got, want = show(x, ok), show(old, in)
					spec[k] = v
				case 6:
					got = fmt.Sprint(m.CompareAndSwap(k, v, "new"))
					want = fmt.Sprint(in && old == v)
					if in && old == v {
						spec[k] = "new"
					}
				case 7:
					got = fmt.Sprint(m.CompareAndDelete(k, v))
					want = fmt.Sprint(in && old == v)
					if in && old == v {
						delete(spec, k)
					}
				}
			})
			mct.Assert(!panicked, "%v panicked: %v", trace, p)
			mct.Assert(got == want, "%v returned %s, want %s", trace, got, want)
		}
		n := 0
		p, panicked := caught(func() {
			m.Range(func(k, v any) bool {
				n++
				w, ok := spec[k]
				mct.Assert(ok && show(v, true) == show(w, true), "%v: Range visits %v:%v, want %v", trace, k, v, w)
				return true
			})
		})
		mct.Assert(!panicked, "%v: Range panicked: %v", trace, p)
		mct.Assert(n == len(spec), "%v: Range visits %d entries, want %d", trace, n, len(spec))
	}})
	reg("G02", "types", mct.Scenario{Default: true, NoRace: true, Body: func() {
		type key struct {
			a int
			b string
		}
		x, y := 1, 1
		var m gsync.Map[key, *int]
		k1, k2 := key{1, "a"}, key{1, "b"}
		m.Store(k1, &x)
		if v, ok := m.Load(k1); !ok || v != &x {
			mct.Fail("Load of a struct key")
		}
		if v, ok := m.Load(k2); ok || v != nil {
			mct.Fail("Load of an absent struct key = %v", v)
		}
		mct.Assert(!m.CompareAndSwap(k1, &y, nil), "CompareAndSwap compares the pointees")
		mct.Assert(m.CompareAndSwap(k1, &x, nil), "CompareAndSwap of equal pointers")
		if v, ok := m.Swap(k1, &y); !ok || v != nil {
			mct.Fail("Swap of a nil pointer value = %v, %v", v, ok)
		}
		if v, ok := m.LoadAndDelete(k1); !ok || v != &y {
			mct.Fail("LoadAndDelete = %v, %v", v, ok)
		}
		if v, ok := m.LoadAndDelete(k1); ok || v != nil {
			mct.Fail("second LoadAndDelete = %v, %v", v, ok)
		}
		var fm gsync.Map[string, func() int] // values that cannot be compared
		fm.Store("a", func() int { return 7 })
		if f, ok := fm.Load("a"); !ok || f() != 7 {
			mct.Fail("Load of a function value")
		}
		if f, loaded := fm.LoadOrStore("a", nil); !loaded || f() != 7 {
			mct.Fail("LoadOrStore of a function value")
		}
		if f, loaded := fm.Swap("b", nil); loaded || f != nil {
			mct.Fail("Swap of an absent entry")
		}
		if f, ok := fm.Load("b"); !ok || f != nil {
			mct.Fail("Load of a nil function value")
		}
	}})

	// G03: pools hand out every object to one owner at a time
	reg("G03", "exclusive", mct.Scenario{Body: func() {
		type obj struct{ owner, uses int }
		made := 0
		var mu sync.Mutex
		p := &gsync.Pool[obj]{New: func() *obj { mu.Lock(); made++; mu.Unlock(); return &obj{} }}
		threads := 2 + mct.Choose(mct.Tier(1, 2))
		n := mct.Tier(2, 3)
		if threads == 3 {
			n = 1
		}
		got := mct.NewBag()
		var wg sync.WaitGroup
		for t := range threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for range n {
					x := p.Get()
					if x == nil {
						mct.Fail("Get returned nil")
						return
					}
					mct.Assert(x.owner == 0, "goroutine %d was handed an object in use by %d", t+1, x.owner)
					x.owner = t + 1
					x.uses++
					mct.Yield()
					mct.Assert(x.owner == t+1, "object of goroutine %d is used by %d", t+1, x.owner)
					x.owner = 0
					got.Add("x")
					p.Put(x)
				}
			}()
		}
		wg.Wait()
		mct.Assert(made >= 1 && made <= threads*n, "New was called %d times for %d Gets", made, threads*n)
		mct.Out("%d", threads)
	}})
	reg("G03", "first-use", mct.Scenario{Body: func() {
		type obj struct{ n int }
		p := &gsync.Pool[obj]{New: func() *obj { return &obj{n: 1} }}
		kinds := vector(mct.Tier(2, 3), 2)
		var wg sync.WaitGroup
		for _, k := range kinds {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if k == 0 {
					x := p.Get()
					mct.Assert(x != nil && (x.n == 1 || x.n == 2), "first Get = %v", x)
					x.n = 7
				} else {
					p.Put(&obj{n: 2})
				}
			}()
		}
		wg.Wait()
		x := p.Get()
		mct.Assert(x != nil && (x.n == 1 || x.n == 2), "Get = %v", x)
		mct.Out("%v", kinds)
	}})
	reg("G03", "sequences", mct.Scenario{NoRace: true, Body: func() {
		// every object handed out was either put back before or is new
		var p gsync.Pool[int]
		made := map[*int]bool{}
		hasNew := mct.Choose(2) == 1
		if hasNew {
			p.New = func() *int { x := new(int); made[x] = true; return x }
		}
		in := map[*int]int{}
		var out []*int
		for range mct.Tier(5, 7) {
			switch mct.Choose(3) {
			case 0:
				var x *int
				pan, panicked := caught(func() { x = p.Get() })
				mct.Assert(!panicked, "Get panicked: %v (New set: %v)", pan, hasNew)
				switch {
				case x == nil:
					mct.Assert(!hasNew, "Get returned nil although New is set")
				case in[x] > 0:
					in[x]--
					out = append(out, x)
				default:
					mct.Assert(made[x], "Get returned an object that was neither put back nor new")
					delete(made, x)
					out = append(out, x)
				}
			case 1:
				x := new(int)
				if len(out) > 0 {
					x, out = out[0], out[1:]
				}
				in[x]++
				p.Put(x)
			case 2:
				p.Put(nil)
			}
		}
		mct.Out("%v %d", hasNew, len(out))
	}})
	reg("G03", "late-New", mct.Scenario{Default: true, NoRace: true, Body: func() {
		var p gsync.Pool[string]
		if mct.Choose(2) == 1 {
			p.Put(nil)
		} else {
			x, y := "x", "y"
			p.Put(&x)
			p.Put(&y)
			p.Get()
			p.Get()
		}
		p.New = func() *string { s := "new"; return &s }
		x := p.Get()
		mct.Assert(x != nil, "Get returned nil although New is set")
	}})
}

func show(v any, ok bool) string {
	switch x := v.(type) {
	case nil:
		return fmt.Sprint("nil ", ok)
	case *int:
		return fmt.Sprint("ptr ", x == nil, ok)
	}
	return fmt.Sprintf("%T:%v %v", v, v, ok)
}

// seqConsistent searches for an interleaving of the threads' calls that
// explains every result and the final content.
func seqConsistent(calls []call, each int, init, final map[int]int) bool {
	n := len(calls) / each
	at := make([]int, n)
	var rec func(m map[int]int) bool
	rec = func(m map[int]int) bool {
		end := true
		for t := range n {
			if at[t] == each {
				continue
			}
			end = false
			c := calls[t*each+at[t]]
			k := map[int]int{}
			for a, b := range m {
				k[a] = b
			}
			if c.op.spec(k) == c.res {
				at[t]++
				if rec(k) {
					return true
				}
				at[t]--
			}
		}
		if !end {
			return false
		}
		if len(m) != len(final) {
			return false
		}
		for a, b := range final {
			if x, ok := m[a]; !ok || x != b {
				return false
			}
		}
		return true
	}
	return rec(init)
}
