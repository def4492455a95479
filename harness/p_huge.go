package main

import (
	"fmt"
	"strings"

	"github.com/intel/forGoParallel/zz_verif/mct"
)

// Calls with many more functions or subranges than processors, or than any
// fixed number of goroutines an implementation could reserve.

func hugeCount() int {
	return []int{257, 1025, 513, 2049}[mct.Choose(mct.Tier(2, 4))]
}

// hugePos chooses a position among n.
func hugePos(n int) int {
	return pick(0, 1, n/2-1, n/2, n-2, n-1)
}

// hugeVector chooses a vector whose entries are 0, except for at most two.
func hugeVector(n int, kinds ...int) []int {
	v := make([]int, n)
	i := hugePos(n)
	v[i] = kinds[mct.Choose(len(kinds))]
	if mct.Choose(2) == 1 {
		v[pick(i/2, (i+n)/2)] = kinds[mct.Choose(len(kinds))]
	}
	return v
}

// sparse describes a vector with few different entries.
func sparse(v []int) string {
	s := fmt.Sprintf("%d×%d", len(v), v[len(v)/3])
	for i, x := range v {
		if x != v[len(v)/3] && len(s) < 60 {
			s += fmt.Sprintf(" %d:%d", i, x)
		}
	}
	return s
}

// anyResult chooses the result of functions that do not panic, if it may make
// a difference for whether others have to be regarded.
func anyResult(name string) int {
	if strings.HasSuffix(name, "And") || strings.HasSuffix(name, "Or") {
		return mct.Choose(2)
	}
	return 1
}

func firstEvent(v []int) int {
	for i, x := range v {
		if x != 0 {
			return i
		}
	}
	return -1
}

func init() {
	huge := func(id, name string, body func()) {
		reg(id, name+"/huge", mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: body})
	}
	panics := func(what string, v []int, p any, panicked bool) {
		first := firstEvent(v)
		mct.Assert(panicked == (first >= 0), "%s, first panic in %d: panicked=%v", what, first, panicked)
		if panicked {
			mct.Assert(panicID(p) == actID(first, v[first]), "%s, first panic in %d: panicked with %s", what, first, panicID(p))
		}
	}
	for _, fj := range forkJoin {
		huge("P01", fj.name, func() {
			n := hugeCount()
			m := make(marks, n)
			bad := pick(-1, 0, n/2, n-1)
			_, panicked := caught(func() {
				fj.run(n, func(i int) int { m.run(i); act(i, b2i(i == bad)); return i % 2 })
			})
			mct.Assert(panicked == (bad >= 0), "%s of %d functions, %d panics: panicked=%v", fj.name, n, bad, panicked)
			m.check("%s of %d functions returned", fj.name, n)
			mct.Out("%d %d", n, bad)
		})
		huge("P02", fj.name, func() {
			n := hugeCount()
			if fj.name == "ReduceProductFloat" {
				n = min(n, 600) // larger products are not finite
			}
			v := make([]int, n)
			base := mct.Choose(2)
			for i := range v {
				v[i] = base
			}
			if mct.Choose(2) == 1 {
				v[hugePos(n)] = 1 - base
			}
			got, want := fj.run(n, func(i int) int { return v[i] }), fj.want(v)
			mct.Assert(got == want, "%s of %s = %.80q, want %.80q", fj.name, sparse(v), got, want)
			mct.Out("%s", sparse(v))
		})
		huge("P03", fj.name, func() {
			v := hugeVector(hugeCount(), 1, 2)
			r := anyResult(fj.name)
			p, panicked := caught(func() { fj.run(len(v), func(i int) int { act(i, v[i]); return r }) })
			panics(fmt.Sprintf("%s of %d functions", fj.name, len(v)), v, p, panicked)
			mct.Out("%s", sparse(v))
		})
	}
	for _, rg := range ranges {
		huge("P01", rg.name, func() {
			n := hugeCount()
			k := n - mct.Choose(2)
			m := make(marks, n)
			bad := pick(-1, 0, n/2, n-1)
			_, panicked := caught(func() {
				rg.run(0, n, k, func(l, h int) int {
					for i := l; i < h; i++ {
						m.run(i)
					}
					act(bad, b2i(l <= bad && bad < h))
					return 1
				})
			})
			mct.Assert(panicked == (bad >= 0), "%s(0,%d,%d), %d panics: panicked=%v", rg.name, n, k, bad, panicked)
			m.check("%s(0,%d,%d) returned", rg.name, n, k)
			mct.Out("%d %d %d", n, k, bad)
		})
		huge("P03", rg.name, func() {
			v := hugeVector(hugeCount(), 1, 2)
			n := len(v) - mct.Choose(2)
			r := anyResult(rg.name)
			p, panicked := caught(func() {
				rg.run(0, len(v), n, func(l, h int) int {
					for i := l; i < h; i++ {
						act(i, v[i])
					}
					return r
				})
			})
			panics(fmt.Sprintf("%s(0,%d,%d)", rg.name, len(v), n), v, p, panicked)
			mct.Out("%d %s", n, sparse(v))
		})
	}
	for _, rg := range ranges[1:] {
		huge("P05", rg.name, func() {
			n := hugeCount()
			k := n - mct.Choose(2)
			base := mct.Choose(2)
			odd := -1
			if mct.Choose(2) == 1 {
				odd = hugePos(n)
			}
			c := newCollector()
			val := func(l int) int {
				if l == odd {
					return 1 - base
				}
				return base
			}
			got := rg.run(0, n, k, func(l, h int) int { c.add(l, h); return val(l) })
			b := c.batches()
			var bv []int
			for _, x := range b {
				bv = append(bv, val(x.low))
			}
			want := rg.want(b, bv)
			mct.Assert(got == want, "%s(0,%d,%d) with batch values %s = %.80q, want %.80q", rg.name, n, k, sparse(bv), got, want)
		})
	}
	// speculative
	for _, op := range specOps {
		run := func(v []int, f func(i int)) (decided bool, val string, p any, panicked bool) {
			p, panicked = caught(func() {
				decided, val = op.run(len(v), func(i int) bool {
					f(i)
					act(i, v[i])
					return v[i] == 3
				})
			})
			return
		}
		check := func(v []int, decided bool, val string, p any, panicked bool) {
			what := fmt.Sprintf("%s of %d functions", op.name, len(v))
			first := firstEvent(v)
			switch {
			case first < 0:
				mct.Assert(!panicked && !decided, "%s, none decides: decided=%v panicked=%v", what, decided, panicked)
				mct.Assert(!op.values || val == specAll(len(v)), "%s, none decides: result %.80s", what, val)
			case v[first] == 3:
				mct.Assert(!panicked && decided, "%s, %d decides: decided=%v panicked=%v", what, first, decided, panicked)
				mct.Assert(!op.values || val == fmt.Sprintf("<%d>", first), "%s, %d decides: result %.80s", what, first, val)
			default:
				mct.Assert(panicked && panicID(p) == actID(first, v[first]), "%s, %d panics first: panicked=%v %v", what, first, panicked, p)
			}
		}
		huge("S01", op.name, func() {
			v := make([]int, hugeCount())
			if mct.Choose(2) == 1 {
				v = hugeVector(len(v), 3)
			}
			decided, val, p, panicked := run(v, func(int) {})
			check(v, decided, val, p, panicked)
			mct.Out("%s", sparse(v))
		})
		huge("S04", op.name, func() {
			v := hugeVector(hugeCount(), 1, 2, 3)
			decided, val, p, panicked := run(v, func(int) {})
			check(v, decided, val, p, panicked)
			mct.Out("%s", sparse(v))
		})
		huge("S02", op.name, func() {
			v := make([]int, hugeCount())
			d := hugePos(len(v) - 1)
			v[d] = 3
			var release mct.Cell
			decided, val, p, panicked := run(v, func(i int) {
				if i > d {
					release.Wait(1)
				}
			})
			check(v, decided, val, p, panicked)
			release.Inc()
			mct.Out("%s", sparse(v))
		})
		for _, id := range []string{"S03", "S05"} {
			huge(id, op.name, func() {
				v := make([]int, hugeCount())
				if id == "S05" {
					v = hugeVector(len(v), 3)
				}
				m := make(marks, len(v))
				decided, val, p, panicked := run(v, m.run)
				check(v, decided, val, p, panicked)
				if id == "S03" {
					m.check("%s of %d functions returned", op.name, len(v))
				}
				mct.Final(func() { m.check("%s of %d functions", op.name, len(v)) })
				mct.Out("%s", sparse(v))
			})
		}
	}
	for _, rg := range specRanges {
		// one or two elements decide or panic, in subranges of their own
		run := func(v []int, n int, f func(l, h int)) (bs []batch, decided bool, val string, p any, panicked bool) {
			bs = layout(rg.run, 0, len(v), n)
			p, panicked = caught(func() {
				decided, val = rg.run(0, len(v), n, func(l, h int) bool {
					f(l, h)
					for i := l; i < h; i++ {
						act(i, v[i])
						if v[i] == 3 {
							return true
						}
					}
					return false
				})
			})
			return
		}
		check := func(v []int, n int, bs []batch, decided bool, val string, p any, panicked bool) {
			what := fmt.Sprintf("%s(0,%d,%d)", rg.name, len(v), n)
			first := firstEvent(v)
			all, at := "", ""
			for _, b := range bs {
				s := fmt.Sprintf("[%d,%d)", b.low, b.high)
				all += s
				if b.low <= first && first < b.high {
					at = s
				}
			}
			switch {
			case first < 0:
				mct.Assert(!panicked && !decided, "%s, none decides: decided=%v panicked=%v", what, decided, panicked)
				mct.Assert(!rg.values || val == all, "%s, none decides: result %.80s", what, val)
			case v[first] == 3:
				mct.Assert(!panicked && decided, "%s, %d decides: decided=%v panicked=%v", what, first, decided, panicked)
				mct.Assert(!rg.values || val == at, "%s, %d decides: result %.80s", what, first, val)
			default:
				mct.Assert(panicked && panicID(p) == actID(first, v[first]), "%s, %d panics first: panicked=%v %v", what, first, panicked, p)
			}
		}
		choose := func(kinds ...int) ([]int, int) {
			v := make([]int, hugeCount())
			if len(kinds) > 0 {
				v = hugeVector(len(v), kinds...)
			}
			return v, len(v) - mct.Choose(2)
		}
		huge("S01", rg.name, func() {
			v, n := choose(3)
			bs, decided, val, p, panicked := run(v, n, func(l, h int) {})
			check(v, n, bs, decided, val, p, panicked)
			mct.Out("%d %s", n, sparse(v))
		})
		huge("S02", rg.name, func() {
			v, n := choose()
			d := hugePos(len(v) / 2)
			v[d] = 3
			var release mct.Cell
			bs, decided, val, p, panicked := run(v, n, func(l, h int) {
				if l > d {
					release.Wait(1)
				}
			})
			check(v, n, bs, decided, val, p, panicked)
			release.Inc()
			mct.Out("%d %s", n, sparse(v))
		})
		huge("S04", rg.name, func() {
			v, n := choose(1, 2, 3)
			bs, decided, val, p, panicked := run(v, n, func(l, h int) {})
			check(v, n, bs, decided, val, p, panicked)
			mct.Out("%d %s", n, sparse(v))
		})
		huge("S03", rg.name, func() {
			v, n := choose()
			m := make(marks, len(v))
			bs, decided, val, p, panicked := run(v, n, func(l, h int) {
				for i := l; i < h; i++ {
					m.run(i)
				}
			})
			check(v, n, bs, decided, val, p, panicked)
			m.check("%s(0,%d,%d) returned", rg.name, len(v), n)
			mct.Out("%d %s", n, sparse(v))
		})
	}
}
