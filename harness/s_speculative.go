package main

import (
	"fmt"
	"sort"

	"github.com/intel/forGoParallel/speculative"
	"github.com/intel/forGoParallel/zz_verif/mct"
)

// specOp invokes a speculative combinator on functions body(i), i < n, where
// body reports whether function i decides the result early.
type specOp struct {
	name   string
	min    int
	values bool // the functions produce values that are combined
	run    func(n int, body func(i int) bool) (decided bool, val string)
}

var specOps = []specOp{
	{"Do", 0, false, func(n int, body func(int) bool) (bool, string) {
		fs := make([]func() bool, n)
		for i := range fs {
			fs[i] = func() bool { return body(i) }
		}
		return speculative.Do(fs...), ""
	}},
	{"And", 0, false, func(n int, body func(int) bool) (bool, string) {
		fs := make([]func() bool, n)
		for i := range fs {
			fs[i] = func() bool { return !body(i) }
		}
		return !speculative.And(fs...), ""
	}},
	{"Or", 0, false, func(n int, body func(int) bool) (bool, string) {
		fs := make([]func() bool, n)
		for i := range fs {
			fs[i] = func() bool { return body(i) }
		}
		return speculative.Or(fs...), ""
	}},
	{"Reduce", 1, true, func(n int, body func(int) bool) (bool, string) {
		fs := make([]func() (string, bool), n)
		for i := range fs {
			fs[i] = func() (string, bool) { d := body(i); return fmt.Sprintf("<%d>", i), d }
		}
		v, d := speculative.Reduce(func(x, y string) (string, bool) { return x + y, false }, fs[0], fs[1:]...)
		return d, v
	}},
}

type specRange struct {
	name   string
	values bool
	run    func(low, high, n int, body func(l, h int) bool) (decided bool, val string)
}

var specRanges = []specRange{
	{"Range", false, func(low, high, n int, body func(int, int) bool) (bool, string) {
		return speculative.Range(low, high, n, body), ""
	}},
	{"RangeAnd", false, func(low, high, n int, body func(int, int) bool) (bool, string) {
		return !speculative.RangeAnd(low, high, n, func(l, h int) bool { return !body(l, h) }), ""
	}},
	{"RangeOr", false, func(low, high, n int, body func(int, int) bool) (bool, string) {
		return speculative.RangeOr(low, high, n, body), ""
	}},
	{"RangeReduce", true, func(low, high, n int, body func(int, int) bool) (bool, string) {
		v, d := speculative.RangeReduce(low, high, n, func(l, h int) (string, bool) {
			d := body(l, h)
			return fmt.Sprintf("[%d,%d)", l, h), d
		}, func(x, y string) (string, bool) { return x + y, false })
		return d, v
	}},
}

// all is the combination of all values when nothing decides.
func specAll(n int) (s string) {
	for i := range n {
		s += fmt.Sprintf("<%d>", i)
	}
	return
}

// layout finds the batches a range combinator uses for the given arguments.
func layout(run func(low, high, n int, body func(l, h int) bool) (bool, string), low, high, n int) []batch {
	c := newCollector()
	run(low, high, n, func(l, h int) bool { c.add(l, h); return false })
	return c.batches()
}

func init() {
	for _, op := range specOps {
		// S01: the result, on every schedule
		res := func(maxN int) func() {
			return func() {
				n := op.min + mct.Choose(maxN-op.min+1)
				v := vector(n, 2)
				decided, val := op.run(n, func(i int) bool { mct.Yield(); return v[i] == 1 })
				first := -1
				for i := n - 1; i >= 0; i-- {
					if v[i] == 1 {
						first = i
					}
				}
				mct.Assert(decided == (first >= 0), "%s of %v: decided=%v", op.name, v, decided)
				if op.values {
					want := specAll(n)
					if first >= 0 {
						want = fmt.Sprintf("<%d>", first)
					}
					mct.Assert(val == want, "%s of %v = %s, want %s", op.name, v, val, want)
				}
				mct.Out("%v %v %s", v, decided, val)
			}
		}
		reg("S01", op.name, mct.Scenario{Body: res(mct.Tier(5, 7))})
		reg("S01", op.name+"/inputs", mct.Scenario{Default: true, Body: res(mct.Tier(10, 13))})

		// S02: an early decision does not wait
		// The functions in `stuck` block until the combinator has returned.
		early := func(right bool, maxN int) func() {
			return func() {
				n := 2 + mct.Choose(maxN-1)
				d := mct.Choose(n) // the function that decides
				v := vector(n, 3)  // 0 undecided, 1 blocked, 2 decides as well
				left, all := false, true
				for i := range v {
					if i != d && v[i] == 1 {
						all = false
						left = left || i < d
					}
				}
				// the left-most decider
				for i := d - 1; i >= 0; i-- {
					if v[i] == 2 {
						return
					}
				}
				if all || left != right {
					return // nothing blocked here, or in the other scenario
				}
				var release mct.Cell
				calls := mct.NewBag()
				decided, val := op.run(n, func(i int) bool {
					calls.Add("%d", i)
					if i == d {
						return true
					}
					if v[i] == 1 {
						release.Wait(1)
					}
					return v[i] == 2
				})
				mct.Assert(decided, "%s: function %d of %d decided, but the result does not say so", op.name, d, n)
				if op.values {
					mct.Assert(val == fmt.Sprintf("<%d>", d), "%s: function %d of %d decided, result %s", op.name, d, n, val)
				}
				release.Inc()
				mct.Final(func() {
					for i := range n {
						mct.Assert(calls.Count("%d", i) == 1, "%s: function %d of %d was invoked %d times", op.name, i, n, calls.Count("%d", i))
					}
				})
				mct.Out("%d %d %v", n, d, v)
			}
		}
		reg("S02", op.name, mct.Scenario{Body: early(false, mct.Tier(4, 5))})
		reg("S02", op.name+"/left-blocked", mct.Scenario{NoFree: true, Body: early(true, 3)})

		// S03: no early decision: everything has completed
		comp := func(maxN int) func() {
			return func() {
				n := op.min + mct.Choose(maxN-op.min+1)
				slot := make([]int, n)
				decided, _ := op.run(n, func(i int) bool {
					slot[i]++
					mct.Yield()
					slot[i] += 10
					return false
				})
				mct.Assert(!decided, "%s of %d undecided functions: decided", op.name, n)
				for i := range slot {
					mct.Assert(slot[i] == 11, "%s returned undecided with function %d of %d in state %d (11: finished once)", op.name, i, n, slot[i])
				}
				mct.Out("%d", n)
			}
		}
		reg("S03", op.name, mct.Scenario{Body: comp(mct.Tier(7, 9))})
		reg("S03", op.name+"/long", mct.Scenario{Default: true, Body: comp(mct.Tier(40, 80))})

		// S04: panics
		pan := func(maxN int) func() {
			return func() {
				n := op.min + mct.Choose(maxN-op.min+1)
				v := vector(n, 4) // undecided, error panic, text panic, decides
				first := -1
				for i := n - 1; i >= 0; i-- {
					if v[i] != 0 {
						first = i
					}
				}
				var decided bool
				p, panicked := caught(func() {
					decided, _ = op.run(n, func(i int) bool {
						mct.Yield()
						if v[i] == 3 {
							return true
						}
						act(i, v[i])
						return false
					})
				})
				switch {
				case first < 0:
					mct.Assert(!panicked && !decided, "%s of %v: panicked=%v decided=%v", op.name, v, panicked, decided)
				case v[first] == 3:
					mct.Assert(!panicked && decided, "%s of %v: panicked=%v (%v) decided=%v", op.name, v, panicked, p, decided)
				default:
					mct.Assert(panicked, "%s of %v did not panic", op.name, v)
					mct.Assert(panicID(p) == actID(first, v[first]), "%s of %v panicked with %s", op.name, v, panicID(p))
				}
				mct.Out("%v %v %v", v, panicked, decided)
			}
		}
		reg("S04", op.name, mct.Scenario{Body: pan(4)})
		reg("S04", op.name+"/inputs", mct.Scenario{Default: true, Body: pan(mct.Tier(6, 8))})

		// S05: every function is invoked exactly once, and ends
		once := func(maxN int) func() {
			return func() {
				n := op.min + mct.Choose(maxN-op.min+1)
				v := vector(n, 2)
				slot := make([]int, n)
				op.run(n, func(i int) bool {
					slot[i]++
					mct.Yield()
					slot[i] += 10
					return v[i] == 1
				})
				mct.Final(func() {
					for i := range slot {
						mct.Assert(slot[i] == 11, "%s of %v: function %d ended in state %d (11: finished once)", op.name, v, i, slot[i])
					}
				})
				mct.Out("%v", v)
			}
		}
		reg("S05", op.name, mct.Scenario{Body: once(mct.Tier(5, 7))})
		reg("S05", op.name+"/inputs", mct.Scenario{Default: true, Body: once(mct.Tier(9, 12))})

		// S06: the functions really run concurrently
		reg("S06", op.name, mct.Scenario{Body: func() {
			n := op.min + mct.Choose(mct.Tier(5, 6)-op.min)
			d := mct.Choose(n + 1)
			var c mct.Cell
			op.run(n, func(i int) bool {
				c.Inc()
				c.Wait(n)
				return i == d
			})
			mct.Out("%d", n)
		}})
	}
	// a join function that decides
	reg("S01", "Reduce/join", mct.Scenario{Body: func() {
		n := 2 + mct.Choose(mct.Tier(4, 5))
		k := mct.Choose(n) // joining anything that ends with k decides
		fs := make([]func() (string, bool), n)
		for i := range fs {
			fs[i] = func() (string, bool) { mct.Yield(); return string(rune('a' + i)), false }
		}
		all := "abcdefgh"[:n]
		v, d := speculative.Reduce(func(x, y string) (string, bool) {
			return x + y, y[len(y)-1] == byte('a'+k)
		}, fs[0], fs[1:]...)
		mct.Assert(d && v[len(v)-1] == byte('a'+k) && contiguous(all, v) || !d && v == all,
			"Reduce of %d values with a join deciding at %d = %q, %v", n, k, v, d)
		if k == n-1 {
			mct.Assert(d, "Reduce of %d values: the last join decided, result %v", n, d)
		}
		mct.Out("%d %d %s %v", n, k, v, d)
	}})
	reg("S04", "Reduce/join", mct.Scenario{Body: func() {
		n := 2 + mct.Choose(4)
		k := mct.Choose(n)
		fs := make([]func() (string, bool), n)
		for i := range fs {
			fs[i] = func() (string, bool) { mct.Yield(); return string(rune('a' + i)), false }
		}
		p, panicked := caught(func() {
			speculative.Reduce(func(x, y string) (string, bool) {
				if y[len(y)-1] == byte('a'+k) {
					panic(seqNum(k))
				}
				return x + y, false
			}, fs[0], fs[1:]...)
		})
		if panicked {
			mct.Assert(panicID(p) == fmt.Sprintf("e%d", k), "Reduce with a panicking join panicked with %v", p)
		}
		mct.Assert(panicked || k != n-1, "the final join panicked, Reduce did not")
		mct.Out("%d %d %v", n, k, panicked)
	}})

	for _, rg := range specRanges {
		res := func(sizes, ns int) func() {
			return func() {
				low := []int{0, -3}[mct.Choose(2)]
				size := mct.Choose(sizes + 1)
				n := mct.Choose(ns + 1)
				v := vector(max(size, 1), 2) // decision of the batch starting at low+i
				c := newCollector()
				decided, val := rg.run(low, low+size, n, func(l, h int) bool {
					c.add(l, h)
					mct.Yield()
					return v[l-low] == 1
				})
				mct.Final(func() {
					all, want, dec := "", "", false
					for _, b := range c.batches() {
						s := fmt.Sprintf("[%d,%d)", b.low, b.high)
						all += s
						if v[b.low-low] == 1 && !dec {
							dec, want = true, s
						}
					}
					if !dec {
						want = all
					}
					mct.Assert(decided == dec, "%s(%d,%d,%d) with %v: decided=%v", rg.name, low, low+size, n, v, decided)
					if rg.values {
						mct.Assert(val == want, "%s(%d,%d,%d) with %v = %s, want %s", rg.name, low, low+size, n, v, val, want)
					}
				})
				mct.Out("%d %d %v %v %s", size, n, v, decided, val)
			}
		}
		reg("S01", rg.name, mct.Scenario{Body: res(mct.Tier(4, 5), mct.Tier(5, 6))})
		reg("S01", rg.name+"/inputs", mct.Scenario{Default: true, Body: res(mct.Tier(7, 9), mct.Tier(8, 10))})

		early := func(right bool, sizes, ns int) func() {
			return func() {
				size := 2 + mct.Choose(sizes-1)
				n := 2 + mct.Choose(ns-1)
				bs := layout(rg.run, 0, size, n)
				if len(bs) < 2 {
					return
				}
				d := mct.Choose(len(bs))
				stuck := vector(len(bs), 2)
				left, some := false, false
				at := map[int]int{}
				for i := range bs {
					at[bs[i].low] = i
					if i != d && stuck[i] == 1 {
						some = true
						left = left || i < d
					}
				}
				if !some || left != right {
					return
				}
				var release mct.Cell
				decided, val := rg.run(0, size, n, func(l, h int) bool {
					i, ok := at[l]
					if !ok {
						mct.Fail("%s(0,%d,%d) used different batches the second time", rg.name, size, n)
					}
					if i == d {
						return true
					}
					if stuck[i] == 1 {
						release.Wait(1)
					}
					return false
				})
				mct.Assert(decided, "%s(0,%d,%d): batch %v decided, but the result does not say so", rg.name, size, n, bs[d])
				if rg.values {
					mct.Assert(val == fmt.Sprintf("[%d,%d)", bs[d].low, bs[d].high), "%s(0,%d,%d): batch %v decided, result %s", rg.name, size, n, bs[d], val)
				}
				release.Inc()
				mct.Out("%d %d %d %v", size, n, d, stuck)
			}
		}
		reg("S02", rg.name, mct.Scenario{Body: early(false, mct.Tier(5, 6), mct.Tier(5, 6))})
		reg("S02", rg.name+"/left-blocked", mct.Scenario{NoFree: true, Body: early(true, 3, 3)})

		comp := func(sizes, ns int) func() {
			return func() {
				size := mct.Choose(sizes + 1)
				n := mct.Choose(ns + 1)
				slot := make([]int, size)
				empty := 0
				rg.run(0, size, n, func(l, h int) bool {
					for i := l; i < h; i++ {
						slot[i]++
					}
					mct.Yield()
					for i := l; i < h; i++ {
						slot[i] += 10
					}
					if l == h {
						empty++
					}
					return false
				})
				for i := range slot {
					mct.Assert(slot[i] == 11, "%s(0,%d,%d) returned undecided with element %d in state %d (11: processed once)", rg.name, size, n, i, slot[i])
				}
				mct.Assert(size > 0 || empty == 1, "%s(0,0,%d) processed the empty range %d times", rg.name, n, empty)
				mct.Out("%d %d", size, n)
			}
		}
		reg("S03", rg.name, mct.Scenario{Body: comp(mct.Tier(6, 8), mct.Tier(6, 8))})
		reg("S03", rg.name+"/long", mct.Scenario{Default: true, Body: comp(mct.Tier(20, 40), mct.Tier(20, 40))})

		pan := func(sizes, ns int) func() {
			return func() {
				size := 1 + mct.Choose(sizes)
				n := 1 + mct.Choose(ns)
				v := vector(size, 4)
				c := newCollector()
				var decided bool
				p, panicked := caught(func() {
					decided, _ = rg.run(0, size, n, func(l, h int) bool {
						c.add(l, h)
						mct.Yield()
						if v[l] == 3 {
							return true
						}
						act(l, v[l])
						return false
					})
				})
				mct.Final(func() {
					first := 0
					id := ""
					for _, b := range c.batches() {
						if first == 0 && v[b.low] != 0 {
							first, id = v[b.low], actID(b.low, v[b.low])
						}
					}
					switch first {
					case 0:
						mct.Assert(!panicked && !decided, "%s(0,%d,%d) with %v: panicked=%v decided=%v", rg.name, size, n, v, panicked, decided)
					case 3:
						mct.Assert(!panicked && decided, "%s(0,%d,%d) with %v: panicked=%v decided=%v", rg.name, size, n, v, panicked, decided)
					default:
						mct.Assert(panicked, "%s(0,%d,%d) with %v did not panic", rg.name, size, n, v)
						if panicked {
							mct.Assert(panicID(p) == id, "%s(0,%d,%d) with %v panicked with %s, want %s", rg.name, size, n, v, panicID(p), id)
						}
					}
				})
				mct.Out("%v", panicked)
			}
		}
		reg("S04", rg.name, mct.Scenario{Body: pan(mct.Tier(3, 4), mct.Tier(4, 5))})
		reg("S04", rg.name+"/inputs", mct.Scenario{Default: true, Body: pan(mct.Tier(5, 6), mct.Tier(6, 7))})

		// S05: partition, whatever is decided
		part := func(lows []int, sizes, ns int) func() {
			return func() {
				low := lows[mct.Choose(len(lows))]
				size := mct.Choose(sizes)
				n := mct.Choose(ns)
				d := mct.Choose(3) // nothing, the first batch, everything decides
				c := newCollector()
				rg.run(low, low+size, n, func(l, h int) bool {
					c.add(l, h)
					mct.Yield()
					return d == 1 && l == low || d == 2
				})
				mct.Final(func() {
					if e := checkPartition(c.batches(), low, low+size, n); e != "" {
						mct.Fail("%s(%d,%d,%d): %s", rg.name, low, low+size, n, e)
					}
				})
				mct.Out("%d %d %d", low, size, n)
			}
		}
		for cpu := 1; cpu <= 4; cpu++ {
			reg("S05", fmt.Sprintf("%s/cpu%d", rg.name, cpu), mct.Scenario{NumCPU: cpu, Default: true, NoRace: true, Body: part([]int{0, -3, 5}, mct.Tier(26, 80), mct.Tier(28, 84))})
		}
		reg("S05", rg.name+"/schedules", mct.Scenario{Body: part([]int{1}, mct.Tier(6, 8), mct.Tier(6, 8))})
		reg("S05", rg.name+"/large", mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: func() {
			size := largeSizes[mct.Choose(len(largeSizes))]
			n := largeNs[mct.Choose(len(largeNs))]
			c := newCollector()
			rg.run(3, 3+size, n, func(l, h int) bool { c.add(l, h); return false })
			if e := checkPartition(c.batches(), 3, 3+size, n); e != "" {
				mct.Fail("%s(3,%d,%d): %s", rg.name, 3+size, n, e)
			}
		}})
		reg("S05", rg.name+"/huge", mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: func() {
			x := hugeRanges[mct.Choose(len(hugeRanges))]
			n := mct.Choose(mct.Tier(35, 260))
			c := newCollector()
			rg.run(x.low, x.high, n, func(l, h int) bool { c.add(l, h); return false })
			if e := checkPartition(c.batches(), x.low, x.high, n); e != "" {
				mct.Fail("%s(%d,%d,%d): %s", rg.name, x.low, x.high, n, e)
			}
		}})
		reg("S05", rg.name+"/invalid", mct.Scenario{Default: true, Body: func() {
			low := mct.Choose(4) - 2
			high := low + mct.Choose(5) - 3
			n := mct.Choose(5) - 3
			c := newCollector()
			_, panicked := caught(func() { rg.run(low, high, n, func(l, h int) bool { c.add(l, h); return false }) })
			want := high < low || n < 0
			mct.Assert(panicked == want, "%s(%d,%d,%d): panicked=%v, want %v", rg.name, low, high, n, panicked, want)
			mct.Assert(!want || c.b.Len() == 0, "%s(%d,%d,%d) invoked its function", rg.name, low, high, n)
			mct.Out("%v", panicked)
		}})

		reg("S06", rg.name, mct.Scenario{Body: func() {
			size := 1 + mct.Choose(mct.Tier(4, 5))
			n := mct.Choose(mct.Tier(5, 6))
			bs := layout(rg.run, 0, size, n)
			d := mct.Choose(len(bs) + 1)
			var c mct.Cell
			rg.run(0, size, n, func(l, h int) bool {
				c.Inc()
				c.Wait(len(bs))
				return d < len(bs) && l == bs[d].low
			})
			mct.Out("%d %d", size, n)
		}})
	}
	sort.Ints(largeSizes)
}

var (
	largeSizes = []int{63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 100000, 1 << 20, 1<<20 + 7, 1 << 31, 1<<40 + 3, 1 << 61}
	largeNs    = []int{0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}
)

func contiguous(all, s string) bool {
	for i := 0; i+len(s) <= len(all); i++ {
		if all[i:i+len(s)] == s {
			return true
		}
	}
	return false
}
