package main

import (
	"fmt"
	"math"

	"github.com/intel/forGoParallel/parallel"
	"github.com/intel/forGoParallel/speculative"
	"github.com/intel/forGoParallel/zz_verif/mct"
)

// Larger numbers of functions and ranges, with structured behaviours, and
// several calls one after the other or at the same time.

// counts are numbers of functions around the places where halving changes.
var counts = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1000}

// chooseCount chooses a number of functions between least and most.
func chooseCount(least, most int) int {
	var l []int
	for _, c := range counts {
		if least <= c && c <= most {
			l = append(l, c)
		}
	}
	return l[mct.Choose(len(l))]
}

// pick chooses one of the numbers given.
func pick(l ...int) int { return l[mct.Choose(len(l))] }

// some chooses one of a few numbers, or many in the thorough tier.
func some(l []int, least, most int) int {
	if mct.Thorough() {
		return chooseCount(least, most)
	}
	return pick(l...)
}

// choosePos chooses a position among n: all if n is small.
func choosePos(n int) int {
	if n <= 33 {
		return mct.Choose(n)
	}
	l := []int{0, 1, 2, n/4 - 1, n / 4, n/4 + 1, n/2 - 1, n / 2, n/2 + 1, 3 * n / 4, 3*n/4 + 1, n - 3, n - 2, n - 1}
	return l[mct.Choose(len(l))]
}

// pattern chooses a vector of n zeros and ones with a structure.
func pattern(n int) []int {
	v := make([]int, n)
	if n == 0 {
		return v
	}
	switch mct.Choose(5) {
	case 0:
	case 1:
		for i := range v {
			v[i] = 1
		}
	case 2:
		v[choosePos(n)] = 1
	case 3:
		for i := range v {
			v[i] = 1
		}
		v[choosePos(n)] = 0
	case 4:
		for i := choosePos(n); i < n; i++ {
			v[i] = 1
		}
	}
	return v
}

// events chooses a vector with at most two entries that are not zero, each at
// most k.
func events(n, k int) []int {
	v := make([]int, n)
	if n == 0 {
		return v
	}
	i, j := choosePos(n), 0
	if n <= 12 {
		j = mct.Choose(n)
	} else {
		j = []int{i, 0, max(0, i-1), min(n-1, i+1), n - 1}[mct.Choose(5)]
	}
	v[i] = mct.Choose(k + 1)
	if i != j {
		v[j] = mct.Choose(k + 1)
	}
	return v
}

// twice runs call with k=0 and k=1 one after the other, or at the same time.
func twice(together bool, call func(k int)) {
	if !together {
		call(0)
		call(1)
		return
	}
	var c mct.Cell
	go func() {
		call(0)
		c.Inc()
	}()
	call(1)
	c.Wait(1)
}

// marks records the progress of functions without synchronising them.
type marks []int

func (m marks) run(i int) {
	m[i]++
	mct.Yield()
	m[i] += 10
}

func (m marks) check(format string, a ...any) {
	for i := range m {
		mct.Assert(m[i] == 11, "%s: function or element %d in state %d (11: finished once)", fmt.Sprintf(format, a...), i, m[i])
	}
}

func init() {
	for _, fj := range forkJoin {
		reg("P01", fj.name+"/many", mct.Scenario{Default: true, Body: func() {
			n := chooseCount(fj.min, mct.Tier(300, 1000))
			m := make(marks, n)
			fj.run(n, func(i int) int { m.run(i); return i % 2 })
			m.check("%s of %d functions returned", fj.name, n)
			mct.Out("%d", n)
		}})
		reg("P01", fj.name+"/again", mct.Scenario{Body: func() {
			together := mct.Choose(2) == 1
			n := fj.min + mct.Choose(4-fj.min)
			bad := mct.Choose(n + 1) // a function of the first call that panics
			m := make(marks, n)
			twice(together, func(k int) {
				if k == 0 {
					caught(func() {
						fj.run(n, func(i int) int {
							mct.Yield()
							act(i, b2i(i == bad))
							return 1
						})
					})
					return
				}
				fj.run(n, func(i int) int { m.run(i); return 1 })
				m.check("another call of %s of %d functions returned", fj.name, n)
			})
			mct.Out("%v %d %d", together, n, bad)
		}})
		reg("P01", fj.name+"/nested", mct.Scenario{Body: func() {
			n := max(1, fj.min+mct.Choose(mct.Tier(3, 4)-fj.min))
			k := max(1, fj.min+mct.Choose(3-fj.min))
			m := make(marks, n*k)
			fj.run(n, func(i int) int {
				fj.run(k, func(j int) int { m.run(i*k + j); return 1 })
				for j := range k {
					mct.Assert(m[i*k+j] == 11, "an inner call of %s returned with function %d in state %d (11: finished once)", fj.name, j, m[i*k+j])
				}
				return 1
			})
			m.check("%s of %d calls of %s of %d functions returned", fj.name, n, fj.name, k)
			mct.Out("%d %d", n, k)
		}})
		reg("P02", fj.name+"/many", mct.Scenario{Default: true, NoRace: true, Body: func() {
			n := chooseCount(fj.min, mct.Tier(130, 600))
			v := pattern(n)
			got, want := fj.run(n, func(i int) int { return v[i] }), fj.want(v)
			mct.Assert(got == want, "%s of %v = %q, want %q", fj.name, v, got, want)
			mct.Out("%v", v)
		}})
		reg("P02", fj.name+"/again", mct.Scenario{Body: func() {
			together := mct.Choose(2) == 1
			n := fj.min + mct.Choose(4-fj.min)
			v := vector(n, 2)
			twice(together, func(k int) {
				w := append([]int(nil), v...)
				for i := range w {
					w[i] = w[i]*(1-k) + (1-w[i])*k
				}
				got, want := fj.run(n, func(i int) int { mct.Yield(); return w[i] }), fj.want(w)
				mct.Assert(got == want, "%s of %v = %q, want %q", fj.name, w, got, want)
			})
			mct.Out("%v %v", together, v)
		}})
		reg("P03", fj.name+"/many", mct.Scenario{Default: true, NoRace: true, Body: func() {
			n := some([]int{2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 17, 33, 65}, 2, 130)
			v := events(n, 2)
			first := ""
			for i := n - 1; i >= 0; i-- {
				if v[i] != 0 {
					first = actID(i, v[i])
				}
			}
			r := anyResult(fj.name)
			p, panicked := caught(func() { fj.run(n, func(i int) int { act(i, v[i]); return r }) })
			mct.Assert(panicked == (first != ""), "%s of behaviours %v: panicked=%v", fj.name, v, panicked)
			if panicked {
				mct.Assert(panicID(p) == first, "%s of behaviours %v panicked with %s, want %s", fj.name, v, panicID(p), first)
			}
			mct.Out("%v", v)
		}})
		reg("P03", fj.name+"/nested", mct.Scenario{Body: func() {
			// panics cross several levels, in different calls
			n, k := max(2, fj.min), max(2, fj.min)
			v := vector(n*k, 3)
			first := ""
			for i := n*k - 1; i >= 0; i-- {
				if v[i] != 0 {
					first = actID(i, v[i])
				}
			}
			r := anyResult(fj.name)
			p, panicked := caught(func() {
				fj.run(n, func(i int) int {
					fj.run(k, func(j int) int { mct.Yield(); act(i*k+j, v[i*k+j]); return r })
					return r
				})
			})
			mct.Assert(panicked == (first != ""), "nested %s of behaviours %v: panicked=%v", fj.name, v, panicked)
			if panicked {
				mct.Assert(panicID(p) == first, "nested %s of behaviours %v panicked with %s, want %s", fj.name, v, panicID(p), first)
			}
			mct.Out("%v", v)
		}})
		reg("P03", fj.name+"/again", mct.Scenario{Body: func() {
			together := mct.Choose(2) == 1
			n := fj.min + mct.Choose(4-fj.min)
			v := vector(n, 2)
			first := ""
			for i := n - 1; i >= 0; i-- {
				if v[i] != 0 {
					first = actID(i, v[i])
				}
			}
			quiet := mct.Choose(2) // the call without panics
			twice(together, func(k int) {
				p, panicked := caught(func() {
					fj.run(n, func(i int) int {
						mct.Yield()
						if k != quiet {
							act(i, v[i])
						}
						return 1
					})
				})
				if k == quiet {
					mct.Assert(!panicked, "%s of %d functions panicked because of another call: %v", fj.name, n, p)
				} else {
					mct.Assert(panicked == (first != "") && (!panicked || panicID(p) == first), "%s of behaviours %v: panicked=%v %v", fj.name, v, panicked, p)
				}
			})
			mct.Out("%v %v %d", together, v, quiet)
		}})
		reg("P07", fj.name+"/many", mct.Scenario{Default: true, NoRace: true, Body: func() {
			n := chooseCount(max(1, fj.min), mct.Tier(130, 600))
			var c mct.Cell
			fj.run(n, func(i int) int { c.Inc(); c.Wait(n); return i % 2 })
			mct.Out("%d", n)
		}})
		reg("P07", fj.name+"/huge", mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: func() {
			n := []int{255, 513, 1100, 2100, 5000}[mct.Choose(mct.Tier(3, 5))]
			var c mct.Cell
			fj.run(n, func(i int) int { c.Inc(); c.Wait(n); return i % 2 })
			mct.Out("%d", n)
		}})
		reg("P07", fj.name+"/pairs", mct.Scenario{Default: true, NoRace: true, Body: func() {
			// function i waits for function j alone
			n := max(2, fj.min) + mct.Choose(mct.Tier(15, 30))
			i, j := mct.Choose(n), mct.Choose(n)
			var c mct.Cell
			fj.run(n, func(k int) int {
				if k == j {
					c.Inc()
				}
				if k == i {
					c.Wait(1)
				}
				return 1
			})
			mct.Out("%d %d %d", n, i, j)
		}})
	}
	for _, rg := range ranges {
		reg("P01", rg.name+"/many", mct.Scenario{Default: true, Body: func() {
			size := chooseCount(0, mct.Tier(130, 600))
			n := chooseCount(0, mct.Tier(130, 600))
			m := make(marks, size)
			rg.run(0, size, n, func(l, h int) int {
				for i := l; i < h; i++ {
					m[i]++
				}
				mct.Yield()
				for i := l; i < h; i++ {
					m[i] += 10
				}
				return l % 2
			})
			m.check("%s(0,%d,%d) returned", rg.name, size, n)
			mct.Out("%d %d", size, n)
		}})
		reg("P01", rg.name+"/again", mct.Scenario{Body: func() {
			together := mct.Choose(2) == 1
			size := 1 + mct.Choose(4)
			n := 1 + mct.Choose(size)
			bad := mct.Choose(size + 1)
			m := make(marks, size)
			twice(together, func(k int) {
				if k == 0 {
					caught(func() {
						rg.run(0, size, n, func(l, h int) int {
							mct.Yield()
							act(l, b2i(l == bad))
							return 1
						})
					})
					return
				}
				rg.run(0, size, n, func(l, h int) int {
					for i := l; i < h; i++ {
						m[i]++
					}
					mct.Yield()
					for i := l; i < h; i++ {
						m[i] += 10
					}
					return 1
				})
				m.check("another call of %s(0,%d,%d) returned", rg.name, size, n)
			})
			mct.Out("%v %d %d %d", together, size, n, bad)
		}})
		reg("P01", rg.name+"/nested", mct.Scenario{Body: func() {
			size, n := 1+mct.Choose(mct.Tier(2, 3)), 1+mct.Choose(3)
			k := 1 + mct.Choose(2)
			m := make(marks, size*k)
			rg.run(0, size, n, func(l, h int) int {
				rg.run(l*k, h*k, k, func(l, h int) int {
					for i := l; i < h; i++ {
						m[i]++
					}
					mct.Yield()
					for i := l; i < h; i++ {
						m[i] += 10
					}
					return 1
				})
				for i := l * k; i < h*k; i++ {
					mct.Assert(m[i] == 11, "an inner call of %s returned with element %d in state %d (11: finished once)", rg.name, i, m[i])
				}
				return 1
			})
			m.check("%s of calls of %s returned", rg.name, rg.name)
			mct.Out("%d %d %d", size, n, k)
		}})
		reg("P03", rg.name+"/many", mct.Scenario{Default: true, NoRace: true, Body: func() {
			size := some([]int{1, 2, 4, 7, 9, 16, 33}, 1, 65)
			n := some([]int{1, 2, 3, 5, 8, 17}, 1, 33)
			v := events(size, 2) // the subrange that contains an element behaves like it
			r := anyResult(rg.name)
			ran := newCollector()
			p, panicked := caught(func() {
				rg.run(0, size, n, func(l, h int) int {
					ran.add(l, h)
					for i := l; i < h; i++ {
						act(i, v[i])
					}
					return r
				})
			})
			mct.Final(func() {
				first := ""
				for i := size - 1; i >= 0; i-- {
					if v[i] != 0 {
						first = actID(i, v[i])
					}
				}
				mct.Assert(panicked == (first != ""), "%s(0,%d,%d) with behaviours %v: panicked=%v", rg.name, size, n, v, panicked)
				if panicked {
					mct.Assert(panicID(p) == first, "%s(0,%d,%d) with behaviours %v panicked with %s, want %s", rg.name, size, n, v, panicID(p), first)
				}
			})
		}})
		reg("P03", rg.name+"/again", mct.Scenario{Body: func() {
			together := mct.Choose(2) == 1
			size := 1 + mct.Choose(4)
			bad := mct.Choose(size)
			quiet := mct.Choose(2)
			twice(together, func(k int) {
				p, panicked := caught(func() {
					rg.run(0, size, size, func(l, h int) int {
						mct.Yield()
						if k != quiet && l <= bad && bad < h {
							act(bad, 1)
						}
						return 1
					})
				})
				if k == quiet {
					mct.Assert(!panicked, "%s(0,%d,%d) panicked because of another call: %v", rg.name, size, size, p)
				} else {
					mct.Assert(panicked && panicID(p) == actID(bad, 1), "%s(0,%d,%d) with a panic for %d: panicked=%v %v", rg.name, size, size, bad, panicked, p)
				}
			})
			mct.Out("%v %v %v %v", together, size, bad, quiet)
		}})
		reg("P04", rg.name+"/many", mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: func() {
			size := 26 + mct.Choose(mct.Tier(45, 120))
			n := mct.Choose(mct.Tier(72, 150))
			c := newCollector()
			rg.run(-7, size-7, n, func(l, h int) int { c.add(l, h); return 1 })
			if e := checkPartition(c.batches(), -7, size-7, n); e != "" {
				mct.Fail("%s(-7,%d,%d): %s", rg.name, size-7, n, e)
			}
		}})
		reg("P07", rg.name+"/huge", mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: func() {
			size := []int{300, 1100, 2100, 5000}[mct.Choose(mct.Tier(2, 4))]
			n := size - mct.Choose(2)
			calls := mct.NewBag()
			rg.run(0, size, n, func(l, h int) int { calls.Add("x"); return 1 })
			k := calls.Len()
			var c mct.Cell
			rg.run(0, size, n, func(l, h int) int { c.Inc(); c.Wait(k); return l % 2 })
			mct.Out("%d %d", size, n)
		}})
		reg("P07", rg.name+"/many", mct.Scenario{Default: true, NoRace: true, Body: func() {
			size := chooseCount(1, mct.Tier(70, 300))
			n := chooseCount(0, mct.Tier(70, 300))
			calls := mct.NewBag()
			rg.run(0, size, n, func(l, h int) int { calls.Add("x"); return 1 })
			k := calls.Len()
			var c mct.Cell
			rg.run(0, size, n, func(l, h int) int {
				c.Inc()
				c.Wait(k)
				return l % 2
			})
			mct.Out("%d %d", size, n)
		}})
	}
	for _, rg := range ranges[1:] {
		reg("P05", rg.name+"/many", mct.Scenario{Default: true, NoRace: true, Body: func() {
			size := some([]int{1, 2, 3, 5, 7, 8, 12, 16, 17, 31, 33, 64}, 0, 130)
			n := some([]int{0, 1, 2, 3, 4, 5, 7, 8, 12, 17, 33}, 0, 66)
			v := pattern(max(size, 1))
			c := newCollector()
			got := rg.run(0, size, n, func(l, h int) int { c.add(l, h); return v[l] })
			b := c.batches()
			var bv []int
			for _, x := range b {
				bv = append(bv, v[x.low])
			}
			want := rg.want(b, bv)
			mct.Assert(got == want, "%s(0,%d,%d) with batch values %v = %q, want %q", rg.name, size, n, bv, got, want)
		}})
		reg("P05", rg.name+"/again", mct.Scenario{Body: func() {
			together := mct.Choose(2) == 1
			size := 1 + mct.Choose(3)
			v := vector(size, 2)
			twice(together, func(k int) {
				c := newCollector()
				got := rg.run(0, size, size, func(l, h int) int { c.add(l, h); mct.Yield(); return v[l]*(1-k) + (1-v[l])*k })
				b := c.batches()
				var bv []int
				for _, x := range b {
					bv = append(bv, v[x.low]*(1-k)+(1-v[x.low])*k)
				}
				want := rg.want(b, bv)
				mct.Assert(got == want, "%s(0,%d,%d) with batch values %v = %q, want %q", rg.name, size, size, bv, got, want)
			})
			mct.Out("%v %v", together, v)
		}})
	}

	// prefix sums
	for _, cpu := range []int{1, 3, 8, 64} {
		reg("P06", fmt.Sprintf("lengths/cpu%d", cpu), mct.Scenario{NumCPU: cpu, Default: true, NoRace: true, Real: true, NoFree: true, Body: func() {
			in := make([]int, mct.Choose(mct.Tier(300, 1500)))
			for i := range in {
				in[i] = i*i - 3
			}
			checkPrefix(in)
			mct.Out("%d", len(in))
		}})
		reg("P06", fmt.Sprintf("powers/cpu%d", cpu), mct.Scenario{NumCPU: cpu, Default: true, NoRace: true, Real: true, NoFree: true, Body: func() {
			n := 1<<(8+mct.Choose(mct.Tier(9, 13))) - 2 + mct.Choose(5)
			in := make([]uint64, n)
			for i := range in {
				in[i] = uint64(i)*0x9E3779B97F4A7C15 + 1
			}
			checkPrefix(in)
			mct.Out("%d", n)
		}})
	}
	reg("P06", "again", mct.Scenario{NumCPU: 1, Body: func() {
		together := mct.Choose(2) == 1
		in := []string{"a", "b", "c"}[:mct.Choose(mct.Tier(3, 4))]
		twice(together, func(k int) { checkPrefix(in) })
		mct.Out("%v %d", together, len(in))
	}})

	// speculative
	for _, op := range specOps {
		result := func(v []int, decided bool, val string) {
			first := -1
			for i := len(v) - 1; i >= 0; i-- {
				if v[i] == 1 {
					first = i
				}
			}
			mct.Assert(decided == (first >= 0), "%s of %v: decided=%v", op.name, v, decided)
			if op.values {
				want := specAll(len(v))
				if first >= 0 {
					want = fmt.Sprintf("<%d>", first)
				}
				mct.Assert(val == want, "%s of %v = %s, want %s", op.name, v, val, want)
			}
		}
		reg("S01", op.name+"/many", mct.Scenario{Default: true, NoRace: true, Body: func() {
			v := pattern(chooseCount(op.min, mct.Tier(130, 600)))
			decided, val := op.run(len(v), func(i int) bool { return v[i] == 1 })
			result(v, decided, val)
			mct.Out("%v", v)
		}})
		reg("S01", op.name+"/again", mct.Scenario{Body: func() {
			together := mct.Choose(2) == 1
			v := vector(op.min+mct.Choose(4-op.min), 2)
			twice(together, func(k int) {
				w := append([]int(nil), v...)
				for i := range w {
					w[i] = w[i]*(1-k) + (1-w[i])*k
				}
				decided, val := op.run(len(w), func(i int) bool { mct.Yield(); return w[i] == 1 })
				result(w, decided, val)
			})
			mct.Out("%v %v", together, v)
		}})
		reg("S02", op.name+"/many", mct.Scenario{Default: true, NoRace: true, Body: func() {
			n := 2 + mct.Choose(mct.Tier(24, 64))
			d := mct.Choose(n - 1)
			b := d + 1 + mct.Choose(n-d) // blocked: only b, or all right of d
			var release mct.Cell
			decided, val := op.run(n, func(i int) bool {
				if i > d && (i == b || b == n) {
					release.Wait(1)
				}
				return i == d
			})
			mct.Assert(decided, "%s: function %d of %d decided, but the result does not say so", op.name, d, n)
			mct.Assert(!op.values || val == fmt.Sprintf("<%d>", d), "%s: function %d of %d decided, result %s", op.name, d, n, val)
			release.Inc()
			mct.Out("%d %d %d", n, d, b)
		}})
		// a call while functions of a former one are still running
		again := func(check bool) func() {
			return func() {
				together := mct.Choose(2) == 1
				n := max(2, op.min) + mct.Choose(mct.Tier(2, 3))
				d := mct.Choose(n)
				e := mct.Choose(n + 1)
				m := make(marks, n)
				stop := make(marks, n)
				twice(together, func(k int) {
					if k == 0 {
						op.run(n, func(i int) bool { stop.run(i); return i == d })
						return
					}
					decided, _ := op.run(n, func(i int) bool { m.run(i); return i == e })
					mct.Assert(decided == (e < n), "another call of %s of %d functions, with %d deciding: %v", op.name, n, e, decided)
					if check && e == n {
						m.check("another call of %s of %d functions returned undecided", op.name, n)
					}
				})
				mct.Final(func() {
					m.check("after a call of %s of %d functions", op.name, n)
					stop.check("after a call of %s of %d functions", op.name, n)
				})
				mct.Out("%v %d %d %d", together, n, d, e)
			}
		}
		reg("S03", op.name+"/again", mct.Scenario{Body: again(true)})
		reg("S05", op.name+"/again", mct.Scenario{Body: again(false)})
		reg("S03", op.name+"/many", mct.Scenario{Default: true, Body: func() {
			n := chooseCount(op.min, mct.Tier(300, 1000))
			m := make(marks, n)
			decided, _ := op.run(n, func(i int) bool { m.run(i); return false })
			mct.Assert(!decided, "%s of %d undecided functions: decided", op.name, n)
			m.check("%s of %d functions returned", op.name, n)
			mct.Out("%d", n)
		}})
		reg("S05", op.name+"/many", mct.Scenario{Default: true, Body: func() {
			n := chooseCount(op.min, mct.Tier(130, 600))
			v := pattern(n)
			m := make(marks, n)
			op.run(n, func(i int) bool { m.run(i); return v[i] == 1 })
			mct.Final(func() { m.check("%s of %d functions", op.name, n) })
			mct.Out("%v", v)
		}})
		specPanic := func(v []int, decided bool, p any, panicked bool) {
			first := -1
			for i := len(v) - 1; i >= 0; i-- {
				if v[i] != 0 {
					first = i
				}
			}
			switch {
			case first < 0:
				mct.Assert(!panicked && !decided, "%s of %v: panicked=%v decided=%v", op.name, v, panicked, decided)
			case v[first] == 3:
				mct.Assert(!panicked && decided, "%s of %v: panicked=%v (%v) decided=%v", op.name, v, panicked, p, decided)
			default:
				mct.Assert(panicked, "%s of %v did not panic", op.name, v)
				mct.Assert(panicID(p) == actID(first, v[first]), "%s of %v panicked with %s", op.name, v, panicID(p))
			}
		}
		reg("S04", op.name+"/many", mct.Scenario{Default: true, NoRace: true, Body: func() {
			n := some([]int{2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 17, 33}, 2, 130)
			v := events(n, 3)
			var decided bool
			p, panicked := caught(func() {
				decided, _ = op.run(n, func(i int) bool { act(i, v[i]); return v[i] == 3 })
			})
			specPanic(v, decided, p, panicked)
			mct.Out("%v", v)
		}})
		reg("S04", op.name+"/again", mct.Scenario{Body: func() {
			together := mct.Choose(2) == 1
			n := max(2, op.min) + mct.Choose(mct.Tier(2, 3))
			i, j := mct.Choose(n), mct.Choose(n)
			v := make([]int, n)
			v[i] = 1 + 2*mct.Choose(2)
			v[j] = mct.Choose(2) * 2
			twice(together, func(k int) {
				var decided bool
				p, panicked := caught(func() {
					decided, _ = op.run(n, func(i int) bool {
						mct.Yield()
						if k == 0 {
							act(i, v[i])
							return v[i] == 3
						}
						return false
					})
				})
				if k == 0 {
					specPanic(v, decided, p, panicked)
				} else {
					mct.Assert(!panicked && !decided, "%s of %d undecided functions: panicked=%v decided=%v", op.name, n, panicked, decided)
				}
			})
			mct.Out("%v %v", together, v)
		}})
		reg("S04", op.name+"/nested", mct.Scenario{Body: func() {
			n, k := 2, 2
			v := vector(n*k, 3)
			for i := range v {
				if v[i] == 2 {
					v[i] = 3
				}
			}
			var decided bool
			p, panicked := caught(func() {
				decided, _ = op.run(n, func(i int) bool {
					d, _ := op.run(k, func(j int) bool {
						mct.Yield()
						act(i*k+j, v[i*k+j])
						return v[i*k+j] == 3
					})
					return d
				})
			})
			specPanic(v, decided, p, panicked)
			mct.Out("%v", v)
		}})
		reg("S06", op.name+"/many", mct.Scenario{Default: true, NoRace: true, Body: func() {
			n := chooseCount(max(1, op.min), mct.Tier(130, 600))
			d := choosePos(n)
			var c mct.Cell
			op.run(n, func(i int) bool { c.Inc(); c.Wait(n); return i == d })
			mct.Out("%d %d", n, d)
		}})
		reg("S06", op.name+"/huge", mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: func() {
			n := []int{255, 513, 1100, 2100, 5000}[mct.Choose(mct.Tier(3, 5))]
			var c mct.Cell
			op.run(n, func(i int) bool { c.Inc(); c.Wait(n); return i == n-1 })
			mct.Out("%d", n)
		}})
		reg("S06", op.name+"/pairs", mct.Scenario{Default: true, NoRace: true, Body: func() {
			n := max(2, op.min) + mct.Choose(mct.Tier(15, 30))
			i, j := mct.Choose(n), mct.Choose(n)
			var c mct.Cell
			op.run(n, func(k int) bool {
				if k == j {
					c.Inc()
				}
				if k == i {
					c.Wait(1)
				}
				return false
			})
			mct.Out("%d %d %d", n, i, j)
		}})
	}
	for _, rg := range specRanges {
		reg("S01", rg.name+"/many", mct.Scenario{Default: true, NoRace: true, Body: func() {
			size := some([]int{1, 2, 3, 5, 7, 8, 12, 16, 17, 31, 33, 64}, 0, 130)
			n := some([]int{0, 1, 2, 3, 4, 5, 7, 8, 12, 17, 33}, 0, 66)
			v := pattern(max(size, 1))
			c := newCollector()
			decided, val := rg.run(0, size, n, func(l, h int) bool { c.add(l, h); return v[l] == 1 })
			mct.Final(func() {
				all, want, dec := "", "", false
				for _, b := range c.batches() {
					s := fmt.Sprintf("[%d,%d)", b.low, b.high)
					all += s
					if v[b.low] == 1 && !dec {
						dec, want = true, s
					}
				}
				if !dec {
					want = all
				}
				mct.Assert(decided == dec, "%s(0,%d,%d) with %v: decided=%v", rg.name, size, n, v, decided)
				mct.Assert(!rg.values || val == want, "%s(0,%d,%d) with %v = %s, want %s", rg.name, size, n, v, val, want)
			})
		}})
		reg("S02", rg.name+"/many", mct.Scenario{Default: true, NoRace: true, Body: func() {
			size := 2 + mct.Choose(mct.Tier(14, 30))
			n := 2 + mct.Choose(mct.Tier(14, 30))
			bs := layout(rg.run, 0, size, n)
			if len(bs) < 2 {
				return
			}
			d := mct.Choose(len(bs) - 1)
			b := d + 1 + mct.Choose(len(bs)-d)
			at := map[int]int{}
			for i := range bs {
				at[bs[i].low] = i
			}
			var release mct.Cell
			decided, val := rg.run(0, size, n, func(l, h int) bool {
				i, ok := at[l]
				if !ok {
					mct.Fail("%s(0,%d,%d) used different batches the second time", rg.name, size, n)
				}
				if i > d && (i == b || b == len(bs)) {
					release.Wait(1)
				}
				return i == d
			})
			mct.Assert(decided, "%s(0,%d,%d): batch %v decided, but the result does not say so", rg.name, size, n, bs[d])
			mct.Assert(!rg.values || val == fmt.Sprintf("[%d,%d)", bs[d].low, bs[d].high), "%s(0,%d,%d): batch %v decided, result %s", rg.name, size, n, bs[d], val)
			release.Inc()
			mct.Out("%d %d %d %d", size, n, d, b)
		}})
		again := func(check bool) func() {
			return func() {
				together := mct.Choose(2) == 1
				size := 2 + mct.Choose(mct.Tier(2, 3))
				d := mct.Choose(size)
				e := mct.Choose(size + 1)
				m := make(marks, size)
				stop := make(marks, size)
				run := func(m marks, l, h int) {
					for i := l; i < h; i++ {
						m[i]++
					}
					mct.Yield()
					for i := l; i < h; i++ {
						m[i] += 10
					}
				}
				twice(together, func(k int) {
					if k == 0 {
						rg.run(0, size, size, func(l, h int) bool { run(stop, l, h); return l <= d && d < h })
						return
					}
					decided, _ := rg.run(0, size, size, func(l, h int) bool { run(m, l, h); return l <= e && e < h })
					mct.Assert(decided == (e < size), "another call of %s(0,%d,%d), with %d deciding: %v", rg.name, size, size, e, decided)
					if check && e == size {
						m.check("another call of %s(0,%d,%d) returned undecided", rg.name, size, size)
					}
				})
				mct.Final(func() {
					m.check("after a call of %s(0,%d,%d)", rg.name, size, size)
					stop.check("after a call of %s(0,%d,%d)", rg.name, size, size)
				})
				mct.Out("%v %d %d %d", together, size, d, e)
			}
		}
		reg("S03", rg.name+"/again", mct.Scenario{Body: again(true)})
		reg("S05", rg.name+"/again", mct.Scenario{Body: again(false)})
		reg("S03", rg.name+"/many", mct.Scenario{Default: true, Body: func() {
			size := chooseCount(0, mct.Tier(130, 600))
			n := chooseCount(0, mct.Tier(130, 600))
			m := make(marks, size)
			decided, _ := rg.run(0, size, n, func(l, h int) bool {
				for i := l; i < h; i++ {
					m[i]++
				}
				mct.Yield()
				for i := l; i < h; i++ {
					m[i] += 10
				}
				return false
			})
			mct.Assert(!decided, "%s(0,%d,%d) without decision: decided", rg.name, size, n)
			m.check("%s(0,%d,%d) returned", rg.name, size, n)
			mct.Out("%d %d", size, n)
		}})
		reg("S05", rg.name+"/many", mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: func() {
			size := 26 + mct.Choose(mct.Tier(45, 120))
			n := mct.Choose(mct.Tier(72, 150))
			c := newCollector()
			rg.run(-7, size-7, n, func(l, h int) bool { c.add(l, h); return false })
			if e := checkPartition(c.batches(), -7, size-7, n); e != "" {
				mct.Fail("%s(-7,%d,%d): %s", rg.name, size-7, n, e)
			}
		}})
		reg("S04", rg.name+"/many", mct.Scenario{Default: true, NoRace: true, Body: func() {
			size := some([]int{1, 2, 4, 7, 9, 16, 33}, 1, 65)
			n := some([]int{1, 2, 3, 5, 8, 17}, 1, 33)
			v := events(size, 3)
			c := newCollector()
			var decided bool
			p, panicked := caught(func() {
				decided, _ = rg.run(0, size, n, func(l, h int) bool {
					c.add(l, h)
					for i := l; i < h; i++ {
						act(i, v[i])
						if v[i] == 3 {
							return true
						}
					}
					return false
				})
			})
			mct.Final(func() {
				first := -1
				for i := size - 1; i >= 0; i-- {
					if v[i] != 0 {
						first = i
					}
				}
				switch {
				case first < 0:
					mct.Assert(!panicked && !decided, "%s(0,%d,%d) with %v: panicked=%v decided=%v", rg.name, size, n, v, panicked, decided)
				case v[first] == 3:
					mct.Assert(!panicked && decided, "%s(0,%d,%d) with %v: panicked=%v (%v) decided=%v", rg.name, size, n, v, panicked, p, decided)
				default:
					mct.Assert(panicked, "%s(0,%d,%d) with %v did not panic", rg.name, size, n, v)
					mct.Assert(panicID(p) == actID(first, v[first]), "%s(0,%d,%d) with %v panicked with %s", rg.name, size, n, v, panicID(p))
				}
			})
		}})
		reg("S06", rg.name+"/huge", mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: func() {
			size := []int{300, 1100, 2100, 5000}[mct.Choose(mct.Tier(2, 4))]
			n := size - mct.Choose(2)
			k := len(layout(rg.run, 0, size, n))
			var c mct.Cell
			rg.run(0, size, n, func(l, h int) bool { c.Inc(); c.Wait(k); return false })
			mct.Out("%d %d", size, n)
		}})
		reg("S06", rg.name+"/many", mct.Scenario{Default: true, NoRace: true, Body: func() {
			size := chooseCount(1, mct.Tier(70, 300))
			n := chooseCount(0, mct.Tier(70, 300))
			k := len(layout(rg.run, 0, size, n))
			var c mct.Cell
			rg.run(0, size, n, func(l, h int) bool {
				c.Inc()
				c.Wait(k)
				return false
			})
			mct.Out("%d %d", size, n)
		}})
	}

	// Decisions and panics of the combining function. A function is the first
	// of the right operand of exactly one combination, however results are
	// grouped.
	joins := []struct {
		name string
		run  func(n int, body func(i int) (string, bool), join func(x, y string) (string, bool)) (string, bool)
	}{
		{"Reduce", func(n int, body func(i int) (string, bool), join func(x, y string) (string, bool)) (string, bool) {
			fs := make([]func() (string, bool), n)
			for i := range fs {
				fs[i] = func() (string, bool) { return body(i) }
			}
			return speculative.Reduce(join, fs[0], fs[1:]...)
		}},
		{"RangeReduce", func(n int, body func(i int) (string, bool), join func(x, y string) (string, bool)) (string, bool) {
			return speculative.RangeReduce(0, n, n, func(l, h int) (string, bool) {
				if h != l+1 {
					mct.Fail("RangeReduce(0,%d,%d) has a batch [%d,%d)", n, n, l, h)
				}
				return body(l)
			}, join)
		}},
	}
	letter := func(i int) string { return string(rune('a' + i)) }
	for _, j := range joins {
		mk := func(most int, def bool) func() {
			return func() {
				n := 2 + mct.Choose(most-1)
				k := 1 + mct.Choose(n-1) // the combination with k first on its right decides
				f := mct.Choose(n + 1)   // this function decides
				all := ""
				for i := range n {
					all += letter(i)
				}
				// which functions does that combination cover?
				group := ""
				j.run(n, func(i int) (string, bool) { return letter(i), false }, func(x, y string) (string, bool) {
					mct.Assert(contiguous(all, x+y), "%s of %d values combined %q and %q", j.name, n, x, y)
					if y[:1] == letter(k) {
						group = x + y
					}
					return x + y, false
				})
				mct.Assert(group != "", "%s of %d values: nothing was combined with value %d first on the right", j.name, n, k)
				v, d := j.run(n, func(i int) (string, bool) {
					if !def {
						mct.Yield()
					}
					if i == f {
						return letter(i) + "!", true
					}
					return letter(i), false
				}, func(x, y string) (string, bool) {
					return x + y, y[:1] == letter(k)
				})
				want, dec := group, true
				if f < n && f <= int(group[len(group)-1]-'a') {
					// to the left of the group, or in it
					want = letter(f) + "!"
				}
				mct.Assert(d == dec && v == want, "%s of %d values, where combining with value %d first on the right and function %d decide: %q, %v, want %q", j.name, n, k, f, v, d, want)
				mct.Out("%d %d %d %s %v", n, k, f, v, d)
			}
		}
		reg("S01", j.name+"/joins", mct.Scenario{Body: mk(mct.Tier(5, 6), false)})
		reg("S01", j.name+"/joins/many", mct.Scenario{Default: true, Body: mk(mct.Tier(16, 20), true)})
		mkp := func(most int) func() {
			return func() {
				n := 2 + mct.Choose(most-1)
				k := mct.Choose(n)
				p, panicked := caught(func() {
					j.run(n, func(i int) (string, bool) { mct.Yield(); return letter(i), false }, func(x, y string) (string, bool) {
						if y[:1] == letter(k) {
							panic(seqNum(k))
						}
						return x + y, false
					})
				})
				mct.Assert(panicked == (k > 0), "%s of %d values, where combining with value %d first on the right panics: panicked=%v", j.name, n, k, panicked)
				mct.Assert(!panicked || panicID(p) == actID(k, 1), "%s of %d values, where combining with value %d first on the right panics, panicked with %v", j.name, n, k, p)
				mct.Out("%d %d", n, k)
			}
		}
		reg("S04", j.name+"/joins", mct.Scenario{Body: mkp(mct.Tier(5, 6))})
		reg("S04", j.name+"/joins/many", mct.Scenario{Default: true, Body: mkp(mct.Tier(24, 24))})
	}
	pjoins := []struct {
		name string
		run  func(n int, body func(i int) string, join func(x, y string) string) string
	}{
		{"Reduce", func(n int, body func(i int) string, join func(x, y string) string) string {
			fs := make([]func() string, n)
			for i := range fs {
				fs[i] = func() string { return body(i) }
			}
			return parallel.Reduce(join, fs[0], fs[1:]...)
		}},
		{"RangeReduce", func(n int, body func(i int) string, join func(x, y string) string) string {
			return parallel.RangeReduce(0, n, n, func(l, h int) string { return body(l) }, join)
		}},
	}
	for _, j := range pjoins {
		mk := func(most int) func() {
			return func() {
				n := 2 + mct.Choose(most-1)
				k := mct.Choose(n)
				f := mct.Choose(n + 1) // this function panics as well
				all := ""
				for i := range n {
					all += letter(i)
				}
				group := ""
				r := j.run(n, func(i int) string { return letter(i) }, func(x, y string) string {
					mct.Assert(contiguous(all, x+y), "%s of %d values combined %q and %q", j.name, n, x, y)
					if y[:1] == letter(k) {
						group = x + y
					}
					return x + y
				})
				mct.Assert(r == all, "%s of %q = %q", j.name, all, r)
				p, panicked := caught(func() {
					j.run(n, func(i int) string {
						mct.Yield()
						if i == f {
							panic(seqNum(100 + i))
						}
						return letter(i)
					}, func(x, y string) string {
						if y[:1] == letter(k) {
							panic(seqNum(k))
						}
						return x + y
					})
				})
				want := ""
				switch {
				case f < n && (k == 0 || f <= int(group[len(group)-1]-'a')):
					want = actID(100+f, 1)
				case k > 0:
					want = actID(k, 1)
				}
				mct.Assert(panicked == (want != ""), "%s of %d values, where combining with value %d first on the right and function %d panic: panicked=%v", j.name, n, k, f, panicked)
				mct.Assert(!panicked || panicID(p) == want, "%s of %d values, where combining with value %d first on the right and function %d panic, panicked with %v", j.name, n, k, f, p)
				mct.Out("%d %d %d", n, k, f)
			}
		}
		reg("P03", j.name+"/joins", mct.Scenario{Body: mk(mct.Tier(5, 6))})
		reg("P03", j.name+"/joins/many", mct.Scenario{Default: true, Body: mk(mct.Tier(12, 20))})
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Sums and products of these do not depend on how they are grouped.
var specialSum = []float64{0, 1, math.Inf(1), math.Inf(-1), math.NaN()}
var specialProduct = []float64{0, 2, -1, math.Inf(1), math.Inf(-1), math.NaN()}

// sameFloat does not distinguish zeros, nor different NaN.
func sameFloat(x, y float64) bool {
	return x == y || x != x && y != y
}

func init() {
	special := func(vals []float64, start float64, op func(x, y float64) float64, do func(fs []func() float64) float64) func() {
		return func() {
			n := 1 + mct.Choose(mct.Tier(3, 4))
			fs := make([]func() float64, n)
			var v []float64
			want := start
			for i := range fs {
				x := vals[mct.Choose(len(vals))]
				v = append(v, x)
				fs[i] = func() float64 { return x }
				if i == 0 {
					want = x
				} else {
					want = op(want, x)
				}
			}
			got := do(fs)
			mct.Assert(sameFloat(got, want), "%v: result %v, want %v", v, got, want)
			mct.Out("%v %v", v, got)
		}
	}
	sum := func(x, y float64) float64 { return x + y }
	product := func(x, y float64) float64 { return x * y }
	at := func(fs []func() float64, op func(x, y float64) float64) func(low, high int) float64 {
		return func(low, high int) float64 {
			r := fs[low]()
			for i := low + 1; i < high; i++ {
				r = op(r, fs[i]())
			}
			return r
		}
	}
	reg("P02", "ReduceSum/special", mct.Scenario{Default: true, Body: special(specialSum, 0, sum, func(fs []func() float64) float64 { return parallel.ReduceSum(fs...) })})
	reg("P02", "ReduceProduct/special", mct.Scenario{Default: true, Body: special(specialProduct, 1, product, func(fs []func() float64) float64 { return parallel.ReduceProduct(fs...) })})
	reg("P05", "RangeReduceSum/special", mct.Scenario{Default: true, Body: special(specialSum, 0, sum, func(fs []func() float64) float64 {
		return parallel.RangeReduceSum(0, len(fs), len(fs), at(fs, sum))
	})})
	reg("P05", "RangeReduceProduct/special", mct.Scenario{Default: true, Body: special(specialProduct, 1, product, func(fs []func() float64) float64 {
		return parallel.RangeReduceProduct(0, len(fs), len(fs), at(fs, product))
	})})
}
