package main

import (
	"fmt"
	"math"
	"runtime"
	"sort"

	"github.com/intel/forGoParallel/parallel"
	"github.com/intel/forGoParallel/zz_verif/mct"
)

// forkJoin names the combinators over a list of functions and invokes them on
// functions body(i), i < n, with a uniform result.
var forkJoin = []struct {
	name string
	min  int
	run  func(n int, body func(i int) int) string
	want func(v []int) string
}{
	{"Do", 0, func(n int, body func(int) int) string {
		fs := make([]func(), n)
		for i := range fs {
			fs[i] = func() { body(i) }
		}
		parallel.Do(fs...)
		return ""
	}, func(v []int) string { return "" }},
	{"And", 0, func(n int, body func(int) int) string {
		return fmt.Sprint(parallel.And(boolFuncs(n, body)...))
	}, func(v []int) string {
		r := true
		for _, x := range v {
			r = r && x != 0
		}
		return fmt.Sprint(r)
	}},
	{"Or", 0, func(n int, body func(int) int) string {
		return fmt.Sprint(parallel.Or(boolFuncs(n, body)...))
	}, func(v []int) string {
		r := false
		for _, x := range v {
			r = r || x != 0
		}
		return fmt.Sprint(r)
	}},
	{"Reduce", 1, func(n int, body func(int) int) string {
		fs := strFuncs(n, body)
		return parallel.Reduce(func(x, y string) string { return x + y }, fs[0], fs[1:]...)
	}, concat},
	{"ReduceSum", 0, func(n int, body func(int) int) string {
		fs := make([]func() int, n)
		for i := range fs {
			fs[i] = func() int { return body(i)*(1<<(3*i)) + 1 }
		}
		return fmt.Sprint(parallel.ReduceSum(fs...))
	}, func(v []int) string {
		r := 0
		for i, x := range v {
			r += x*(1<<(3*i)) + 1
		}
		return fmt.Sprint(r)
	}},
	{"ReduceSumString", 0, func(n int, body func(int) int) string {
		return parallel.ReduceSum(strFuncs(n, body)...)
	}, concat},
	{"ReduceProduct", 0, func(n int, body func(int) int) string {
		fs := make([]func() int, n)
		for i := range fs {
			fs[i] = func() int { return body(i) + i + 2 }
		}
		return fmt.Sprint(parallel.ReduceProduct(fs...))
	}, func(v []int) string {
		r := 1
		for i, x := range v {
			r *= x + i + 2
		}
		return fmt.Sprint(r)
	}},
	{"ReduceProductFloat", 0, func(n int, body func(int) int) string {
		fs := make([]func() float64, n)
		for i := range fs {
			fs[i] = func() float64 { return powers[body(i)] }
		}
		return fmt.Sprint(parallel.ReduceProduct(fs...))
	}, func(v []int) string {
		r := 1.0
		for _, x := range v {
			r *= powers[x]
		}
		return fmt.Sprint(r)
	}},
}

// powers of two, whose products are exact.
var powers = []float64{2, 0.5, 8}

func concat(v []int) string {
	r := ""
	for i, x := range v {
		r += string(rune('a'+i)) + fmt.Sprint(x)
	}
	return r
}

func boolFuncs(n int, body func(int) int) []func() bool {
	fs := make([]func() bool, n)
	for i := range fs {
		fs[i] = func() bool { return body(i) != 0 }
	}
	return fs
}

func strFuncs(n int, body func(int) int) []func() string {
	fs := make([]func() string, n)
	for i := range fs {
		fs[i] = func() string { return string(rune('a'+i)) + fmt.Sprint(body(i)) }
	}
	return fs
}

// batch is one invocation of a range function.
type batch struct{ low, high int }

// ranges names the range combinators.
var ranges = []struct {
	name string
	run  func(low, high, n int, body func(low, high int) int) string
	want func(b []batch, v []int) string // batches in order with their values
}{
	{"Range", func(low, high, n int, body func(int, int) int) string {
		parallel.Range(low, high, n, func(l, h int) { body(l, h) })
		return ""
	}, func([]batch, []int) string { return "" }},
	{"RangeAnd", func(low, high, n int, body func(int, int) int) string {
		return fmt.Sprint(parallel.RangeAnd(low, high, n, func(l, h int) bool { return body(l, h) != 0 }))
	}, func(b []batch, v []int) string {
		r := true
		for _, x := range v {
			r = r && x != 0
		}
		return fmt.Sprint(r)
	}},
	{"RangeOr", func(low, high, n int, body func(int, int) int) string {
		return fmt.Sprint(parallel.RangeOr(low, high, n, func(l, h int) bool { return body(l, h) != 0 }))
	}, func(b []batch, v []int) string {
		r := false
		for _, x := range v {
			r = r || x != 0
		}
		return fmt.Sprint(r)
	}},
	{"RangeReduce", func(low, high, n int, body func(int, int) int) string {
		return parallel.RangeReduce(low, high, n, func(l, h int) string {
			return fmt.Sprintf("[%d,%d)%d", l, h, body(l, h))
		}, func(x, y string) string { return x + y })
	}, concatBatches},
	{"RangeReduceSum", func(low, high, n int, body func(int, int) int) string {
		return parallel.RangeReduceSum(low, high, n, func(l, h int) string {
			return fmt.Sprintf("[%d,%d)%d", l, h, body(l, h))
		})
	}, concatBatches},
	{"RangeReduceSumInt", func(low, high, n int, body func(int, int) int) string {
		return fmt.Sprint(parallel.RangeReduceSum(low, high, n, func(l, h int) int {
			return 100*(l+50) + body(l, h)
		}))
	}, func(b []batch, v []int) string {
		r := 0
		for i, x := range b {
			r += 100*(x.low+50) + v[i]
		}
		return fmt.Sprint(r)
	}},
	{"RangeReduceProduct", func(low, high, n int, body func(int, int) int) string {
		return fmt.Sprint(parallel.RangeReduceProduct(low, high, n, func(l, h int) int {
			return 2*(l+20) + 1 + body(l, h)
		}))
	}, func(b []batch, v []int) string {
		r := 1
		for i, x := range b {
			r *= 2*(x.low+20) + 1 + v[i]
		}
		return fmt.Sprint(r)
	}},
}

func concatBatches(b []batch, v []int) string {
	r := ""
	for i, x := range b {
		r += fmt.Sprintf("[%d,%d)%d", x.low, x.high, v[i])
	}
	return r
}

// partition checks that the batches cover [low,high) exactly.
func checkPartition(b []batch, low, high, n int) string {
	sort.Slice(b, func(i, j int) bool {
		if b[i].low != b[j].low {
			return b[i].low < b[j].low
		}
		return b[i].high < b[j].high
	})
	if low == high {
		if len(b) != 1 || b[0].low != low || b[0].high != high {
			return fmt.Sprintf("empty range: invocations %v", b)
		}
		return ""
	}
	at := low
	for _, x := range b {
		if x.low != at || x.high <= x.low {
			return fmt.Sprintf("invocations %v do not partition [%d,%d)", b, low, high)
		}
		at = x.high
	}
	if at != high {
		return fmt.Sprintf("invocations %v do not cover [%d,%d)", b, low, high)
	}
	if n == 0 {
		n = 2 * runtime.NumCPU()
	}
	if len(b) > n {
		return fmt.Sprintf("%d batches, at most %d expected", len(b), n)
	}
	return ""
}

// hugeRanges have bounds near those of int.
var hugeRanges = []batch{
	{0, math.MaxInt}, {-1, math.MaxInt - 1}, {math.MinInt, -1}, {math.MinInt / 2, math.MaxInt / 2},
	{math.MinInt, math.MinInt}, {math.MinInt, math.MinInt + 1}, {math.MinInt, math.MinInt + 9}, {math.MinInt, math.MinInt + 29},
	{math.MaxInt, math.MaxInt}, {math.MaxInt - 1, math.MaxInt}, {math.MaxInt - 9, math.MaxInt}, {math.MaxInt - 29, math.MaxInt}, {math.MaxInt - 17, math.MaxInt - 3},
	{math.MaxInt - 1000, math.MaxInt}, {1 << 62, math.MaxInt}, {-1 << 31, 1 << 31}, {-1 << 32, 1 << 31}, {1, 1 << 62},
}

// collector gathers invocations; it is only read when they have all ended.
type collector struct{ b *mct.Bag }

func newCollector() *collector { return &collector{mct.NewBag()} }
func (c *collector) add(l, h int) {
	c.b.Add("%d %d", l, h)
}
func (c *collector) batches() (l []batch) {
	for k, n := range c.b.Map() {
		var x batch
		fmt.Sscanf(k, "%d %d", &x.low, &x.high)
		for range n {
			l = append(l, x)
		}
	}
	sort.Slice(l, func(i, j int) bool {
		return l[i].low < l[j].low || l[i].low == l[j].low && l[i].high < l[j].high
	})
	return
}

func init() {
	// P01: completion and visibility
	for _, fj := range forkJoin {
		full := func(maxN int) func() {
			return func() {
				n := fj.min + mct.Choose(maxN-fj.min+1)
				bad := mct.Choose(2) // value returned by the functions
				slot := make([]int, n)
				fj.run(n, func(i int) int {
					slot[i]++
					mct.Yield()
					slot[i] += 10
					return bad
				})
				for i := range slot {
					mct.Assert(slot[i] == 11, "%s returned with function %d of %d in state %d (11: finished once)", fj.name, i, n, slot[i])
				}
				mct.Out("%d", n)
			}
		}
		reg("P01", fj.name, mct.Scenario{Body: full(mct.Tier(5, 7))})
		reg("P01", fj.name+"/long", mct.Scenario{Default: true, Body: full(mct.Tier(24, 64))})
	}
	for _, rg := range ranges {
		body := func(maxSize, maxN int) func() {
			return func() {
				size := mct.Choose(maxSize + 1)
				n := mct.Choose(maxN + 1)
				bad := mct.Choose(2)
				slot := make([]int, size)
				calls := mct.NewBag()
				done := 0
				var empty int
				rg.run(0, size, n, func(l, h int) int {
					calls.Add("x")
					for i := l; i < h; i++ {
						slot[i]++
					}
					if l == h {
						empty++
					}
					mct.Yield()
					for i := l; i < h; i++ {
						slot[i] += 10
					}
					return bad
				})
				_ = done
				for i := range slot {
					mct.Assert(slot[i] == 11, "%s(0,%d,%d) returned with element %d in state %d (11: processed once)", rg.name, size, n, i, slot[i])
				}
				if size == 0 {
					mct.Assert(empty == 1, "%s: empty range processed %d times", rg.name, empty)
				}
				mct.Out("%d %d", size, calls.Len())
			}
		}
		reg("P01", rg.name, mct.Scenario{Body: body(mct.Tier(5, 6), mct.Tier(5, 6))})
		reg("P01", rg.name+"/long", mct.Scenario{Default: true, Body: body(mct.Tier(14, 30), mct.Tier(14, 30))})
	}

	// P02: ordered combination
	for _, fj := range forkJoin {
		mk := func(maxN, base int) func() {
			return func() {
				n := fj.min + mct.Choose(maxN-fj.min+1)
				v := vector(n, base)
				calls := mct.NewBag()
				got := fj.run(n, func(i int) int {
					calls.Add("%d", i)
					mct.Yield()
					return v[i]
				})
				want := fj.want(v)
				mct.Assert(got == want, "%s of %v = %q, want %q", fj.name, v, got, want)
				for i := range n {
					mct.Assert(calls.Count("%d", i) == 1, "%s invoked function %d of %d %d times", fj.name, i, n, calls.Count("%d", i))
				}
				mct.Out("%v %s", v, got)
			}
		}
		reg("P02", fj.name, mct.Scenario{Body: mk(mct.Tier(4, 5), 2)})
		reg("P02", fj.name+"/inputs", mct.Scenario{Default: true, Body: mk(mct.Tier(9, 12), 2)})
	}
	reg("P02", "types", mct.Scenario{Default: true, Body: func() {
		n := mct.Choose(6)
		var fu []func() uint8
		var fc []func() complex128
		var ff []func() float32
		wu, wc, wf := uint8(0), complex128(0), float32(0)
		pu, pc, pf := uint8(1), complex128(1), float32(1)
		for i := range n {
			fu = append(fu, func() uint8 { return uint8(37*i + 11) })
			fc = append(fc, func() complex128 { return complex(float64(i)+1, float64(i)) })
			ff = append(ff, func() float32 { return float32(i) + 1 })
			wu += uint8(37*i + 11)
			pu *= uint8(37*i + 11)
			wc += complex(float64(i)+1, float64(i))
			pc *= complex(float64(i)+1, float64(i))
			wf += float32(i) + 1
			pf *= float32(i) + 1
		}
		mct.Assert(parallel.ReduceSum(fu...) == wu, "ReduceSum[uint8] of %d", n)
		mct.Assert(parallel.ReduceProduct(fu...) == pu, "ReduceProduct[uint8] of %d", n)
		mct.Assert(parallel.ReduceSum(fc...) == wc, "ReduceSum[complex128] of %d", n)
		mct.Assert(parallel.ReduceProduct(fc...) == pc, "ReduceProduct[complex128] of %d", n)
		mct.Assert(parallel.ReduceSum(ff...) == wf, "ReduceSum[float32] of %d", n)
		mct.Assert(parallel.ReduceProduct(ff...) == pf, "ReduceProduct[float32] of %d", n)
		mct.Out("%d", n)
	}})

	// P03: panics
	for _, fj := range forkJoin {
		mk := func(maxN int) func() {
			return func() {
				n := fj.min + mct.Choose(maxN-fj.min+1)
				v := vector(n, 3)
				first := ""
				for i := n - 1; i >= 0; i-- {
					if v[i] != 0 {
						first = actID(i, v[i])
					}
				}
				r := anyResult(fj.name)
				p, panicked := caught(func() {
					fj.run(n, func(i int) int {
						mct.Yield()
						act(i, v[i])
						return r
					})
				})
				mct.Assert(panicked == (first != ""), "%s of behaviours %v: panicked=%v", fj.name, v, panicked)
				if panicked {
					mct.Assert(panicID(p) == first, "%s of behaviours %v panicked with %s, want %s", fj.name, v, panicID(p), first)
				}
				mct.Out("%v %s", v, first)
			}
		}
		reg("P03", fj.name, mct.Scenario{Body: mk(mct.Tier(4, 5))})
		reg("P03", fj.name+"/inputs", mct.Scenario{Default: true, Body: mk(mct.Tier(7, 9))})
	}
	for _, rg := range ranges {
		mk := func(sizes, ns int) func() {
			return func() {
				size := 1 + mct.Choose(sizes)
				n := 1 + mct.Choose(ns)
				v := vector(size, 3) // behaviour of the batch starting at i
				ran := newCollector()
				r := anyResult(rg.name)
				p, panicked := caught(func() {
					rg.run(0, size, n, func(l, h int) int {
						ran.add(l, h)
						mct.Yield()
						act(l, v[l])
						return r
					})
				})
				mct.Final(func() {
					first := ""
					for _, b := range ran.batches() {
						if first == "" {
							first = actID(b.low, v[b.low])
						}
					}
					mct.Assert(panicked == (first != ""), "%s(0,%d,%d) with behaviours %v: panicked=%v", rg.name, size, n, v, panicked)
					if panicked {
						mct.Assert(panicID(p) == first, "%s(0,%d,%d) with behaviours %v panicked with %s, want %s", rg.name, size, n, v, panicID(p), first)
					}
				})
				mct.Out("%v", panicked)
			}
		}
		reg("P03", rg.name, mct.Scenario{Body: mk(mct.Tier(4, 5), mct.Tier(4, 5))})
	}
	// a panicking join function, possibly in a helper goroutine
	reg("P03", "Reduce/join", mct.Scenario{Body: func() {
		n := 2 + mct.Choose(3)
		bad := mct.Choose(n)
		fs := make([]func() string, n)
		for i := range fs {
			fs[i] = func() string { mct.Yield(); return string(rune('a' + i)) }
		}
		p, panicked := caught(func() {
			parallel.Reduce(func(x, y string) string {
				if y[0] == byte('a'+bad) {
					panic(seqNum(bad))
				}
				return x + y
			}, fs[0], fs[1:]...)
		})
		if panicked {
			mct.Assert(panicID(p) == fmt.Sprintf("e%d", bad), "Reduce with a panicking join panicked with %v", p)
		}
		mct.Out("%v", panicked)
	}})
	reg("P03", "RangeReduce/join", mct.Scenario{Body: func() {
		n := 2 + mct.Choose(3)
		bad := 1 + mct.Choose(n-1)
		p, panicked := caught(func() {
			parallel.RangeReduce(0, n, n, func(l, h int) int { return l }, func(x, y int) int {
				if y == bad {
					panic(seqNum(bad))
				}
				return x
			})
		})
		if panicked {
			mct.Assert(panicID(p) == fmt.Sprintf("e%d", bad), "RangeReduce with a panicking join panicked with %v", p)
		}
		mct.Out("%v", panicked)
	}})

	// P04: partitioning
	for cpu := 1; cpu <= 4; cpu++ {
		for _, rg := range ranges {
			reg("P04", fmt.Sprintf("%s/cpu%d", rg.name, cpu), mct.Scenario{NumCPU: cpu, Default: true, NoRace: true, Body: func() {
				low := []int{0, -3, 5}[mct.Choose(3)]
				size := mct.Choose(mct.Tier(26, 80))
				n := mct.Choose(mct.Tier(28, 84))
				c := newCollector()
				rg.run(low, low+size, n, func(l, h int) int { c.add(l, h); return 1 })
				if e := checkPartition(c.batches(), low, low+size, n); e != "" {
					mct.Fail("%s(%d,%d,%d): %s", rg.name, low, low+size, n, e)
				}
				mct.Out("%d %d %d %v", low, size, n, c.batches())
			}})
		}
	}
	for _, rg := range ranges {
		reg("P04", rg.name+"/invalid", mct.Scenario{Default: true, Body: func() {
			low := mct.Choose(4) - 2
			high := low + mct.Choose(5) - 3
			n := mct.Choose(5) - 3
			c := newCollector()
			_, panicked := caught(func() { rg.run(low, high, n, func(l, h int) int { c.add(l, h); return 1 }) })
			want := high < low || n < 0
			mct.Assert(panicked == want, "%s(%d,%d,%d): panicked=%v, want %v", rg.name, low, high, n, panicked, want)
			if want {
				mct.Assert(c.b.Len() == 0, "%s(%d,%d,%d) invoked its function", rg.name, low, high, n)
			}
			mct.Out("%v", panicked)
		}})
		reg("P04", rg.name+"/large", mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: func() {
			size := largeSizes[mct.Choose(len(largeSizes))]
			n := largeNs[mct.Choose(len(largeNs))]
			c := newCollector()
			rg.run(3, 3+size, n, func(l, h int) int { c.add(l, h); return 1 })
			if e := checkPartition(c.batches(), 3, 3+size, n); e != "" {
				mct.Fail("%s(3,%d,%d): %s", rg.name, 3+size, n, e)
			}
		}})
		reg("P04", rg.name+"/huge", mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: func() {
			x := hugeRanges[mct.Choose(len(hugeRanges))]
			n := mct.Choose(mct.Tier(35, 260))
			c := newCollector()
			rg.run(x.low, x.high, n, func(l, h int) int { c.add(l, h); return 1 })
			if e := checkPartition(c.batches(), x.low, x.high, n); e != "" {
				mct.Fail("%s(%d,%d,%d): %s", rg.name, x.low, x.high, n, e)
			}
		}})
		reg("P04", rg.name+"/schedules", mct.Scenario{Body: func() {
			size := mct.Choose(mct.Tier(5, 6))
			n := mct.Choose(mct.Tier(5, 6))
			c := newCollector()
			rg.run(1, 1+size, n, func(l, h int) int { c.add(l, h); mct.Yield(); return mct.Choose(2) })
			mct.Final(func() {
				if e := checkPartition(c.batches(), 1, 1+size, n); e != "" {
					mct.Fail("%s(1,%d,%d): %s", rg.name, 1+size, n, e)
				}
			})
			mct.Out("%d %d", size, n)
		}})
	}

	// P05: range reductions
	for _, rg := range ranges[1:] {
		mk := func(sizes, ns int) func() {
			return func() {
				low := []int{0, -2}[mct.Choose(2)]
				size := mct.Choose(sizes + 1)
				n := mct.Choose(ns + 1)
				v := vector(max(size, 1), 2)
				c := newCollector()
				got := rg.run(low, low+size, n, func(l, h int) int {
					c.add(l, h)
					mct.Yield()
					return v[l-low]
				})
				b := c.batches()
				var bv []int
				for _, x := range b {
					bv = append(bv, v[x.low-low])
				}
				want := rg.want(b, bv)
				mct.Assert(got == want, "%s(%d,%d,%d) with batch values %v = %q, want %q", rg.name, low, low+size, n, bv, got, want)
				mct.Out("%d %d %v %s", size, n, v, got)
			}
		}
		reg("P05", rg.name, mct.Scenario{Body: mk(mct.Tier(4, 5), mct.Tier(5, 6))})
		reg("P05", rg.name+"/inputs", mct.Scenario{Default: true, Body: mk(mct.Tier(8, 10), mct.Tier(9, 11))})
	}

	// P06: prefix sums
	for cpu := 1; cpu <= 3; cpu++ {
		reg("P06", fmt.Sprintf("int/cpu%d", cpu), mct.Scenario{NumCPU: cpu, Default: true, Body: func() {
			n := mct.Choose(mct.Tier(40, 140))
			kind := mct.Choose(3)
			in := make([]int, n)
			for i := range in {
				in[i] = []int{i*i - 3, 1 << (i % 60), -i}[kind]
			}
			checkPrefix(in)
			mct.Out("%d %d", n, kind)
		}})
	}
	reg("P06", "string", mct.Scenario{Default: true, Body: func() {
		n := mct.Choose(mct.Tier(20, 70))
		in := make([]string, n)
		for i := range in {
			in[i] = string(rune('a' + i%26))
		}
		checkPrefix(in)
		mct.Out("%d", n)
	}})
	reg("P06", "schedules", mct.Scenario{NumCPU: 1, Body: func() {
		n := mct.Choose(mct.Tier(5, 6))
		in := make([]string, n)
		for i := range in {
			in[i] = string(rune('a' + i))
		}
		checkPrefix(in)
		mct.Out("%d", n)
	}})
	reg("P06", "values", mct.Scenario{Default: true, Body: func() {
		in := vector(mct.Choose(mct.Tier(7, 9)), 3)
		checkPrefix(in)
		mct.Out("%v", in)
	}})

	// P07: the functions really run concurrently
	for _, fj := range forkJoin {
		reg("P07", fj.name, mct.Scenario{Body: func() {
			n := fj.min + mct.Choose(mct.Tier(5, 6)-fj.min)
			bad := mct.Choose(2)
			var c mct.Cell
			fj.run(n, func(i int) int {
				c.Inc()
				c.Wait(n) // blocks until every function has started
				return bad
			})
			mct.Out("%d", n)
		}})
	}
	for _, rg := range ranges {
		reg("P07", rg.name, mct.Scenario{Body: func() {
			size := 1 + mct.Choose(mct.Tier(4, 5))
			n := mct.Choose(mct.Tier(6, 7))
			calls := mct.NewBag()
			rg.run(0, size, n, func(l, h int) int { calls.Add("x"); return 1 })
			k := calls.Len()
			var c mct.Cell
			rg.run(0, size, n, func(l, h int) int {
				c.Inc()
				c.Wait(k)
				return 1
			})
			mct.Out("%d %d", size, n)
		}})
	}
}

func checkPrefix[T parallel.Addable](in []T) {
	orig := append([]T(nil), in...)
	var want []T
	var sum T
	for _, x := range orig {
		sum += x
		want = append(want, sum)
	}
	got := parallel.PrefixSum(in)
	mct.Assert(len(got) == len(want), "PrefixSum of %v has length %d", orig, len(got))
	for i := range want {
		mct.Assert(got[i] == want[i], "PrefixSum(%v)[%d] = %v, want %v", orig, i, got[i], want[i])
	}
	for i := range orig {
		mct.Assert(in[i] == orig[i], "PrefixSum changed element %d of its argument %v to %v", i, orig, in[i])
	}
}
