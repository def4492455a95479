package main

import (
	"fmt"
	"math"
	"slices"
	"sort"

	"github.com/intel/forGoParallel/psort"
	"github.com/intel/forGoParallel/zz_verif/mct"
)

// item is an element with a key and an identity.
type item struct{ key, id int }

// items implements every interface of psort; accesses are instrumented.
type items []item

func (s items) Len() int                    { return len(s) }
func (s items) Less(i, j int) bool          { return s[i].key < s[j].key }
func (s items) Swap(i, j int)               { s[i], s[j] = s[j], s[i] }
func (s items) NewTemp() psort.StableSorter { return make(items, len(s)) }
func (s items) Assign(source psort.StableSorter) func(i, j, len int) {
	dst, src := s, source.(items)
	return func(i, j, len int) {
		if i < 0 || j < 0 || len < 0 {
			mct.Fail("Assign(%d,%d,%d) on collections of %d elements", i, j, len, cap(dst))
		}
		copy(dst[i:i+len], src[j:j+len])
	}
}
func (s items) SequentialSort(i, j int) {
	t := s[i:j]
	for a := 1; a < len(t); a++ {
		for b := a; b > 0 && t[b].key < t[b-1].key; b-- {
			t[b], t[b-1] = t[b-1], t[b]
		}
	}
}

// big is like items, with the library's sequential sort for large inputs.
type big []item

func (s big) Len() int                    { return len(s) }
func (s big) Less(i, j int) bool          { return s[i].key < s[j].key }
func (s big) Swap(i, j int)               { s[i], s[j] = s[j], s[i] }
func (s big) NewTemp() psort.StableSorter { return make(big, len(s)) }
func (s big) Assign(source psort.StableSorter) func(i, j, len int) {
	dst, src := s, source.(big)
	return func(i, j, len int) {
		if i < 0 || j < 0 || len < 0 {
			mct.Fail("Assign(%d,%d,%d) on collections of %d elements", i, j, len, cap(dst))
		}
		copy(dst[i:i+len], src[j:j+len])
	}
}
func (s big) SequentialSort(i, j int) {
	t := s[i:j]
	sort.SliceStable(t, func(a, b int) bool { return t[a].key < t[b].key })
}

func makeItems(keys []int) items {
	s := make(items, len(keys))
	for i, k := range keys {
		s[i] = item{k, i}
	}
	return s
}

// checkSorted checks that s is a sorted permutation of the tagged keys, and a
// stable one when asked for.
func checkSorted(what string, keys []int, s []item, stable bool) {
	seen := make([]bool, len(keys))
	for i, x := range s {
		if x.id < 0 || x.id >= len(keys) || seen[x.id] || keys[x.id] != x.key {
			mct.Fail("%s of %v: result %v is no permutation", what, brief(keys), s[max(0, i-3):min(len(s), i+4)])
		}
		seen[x.id] = true
		if i > 0 && s[i-1].key > x.key {
			mct.Fail("%s of %v: result is not sorted at %d: %v", what, brief(keys), i, s[max(0, i-3):min(len(s), i+4)])
		}
		if stable && i > 0 && s[i-1].key == x.key && s[i-1].id > x.id {
			mct.Fail("%s of %v: result is not stable at %d: %v", what, brief(keys), i, s[max(0, i-3):min(len(s), i+4)])
		}
	}
}

func brief(keys []int) string {
	if len(keys) <= 40 {
		return fmt.Sprint(keys)
	}
	return fmt.Sprintf("%d keys starting with %v", len(keys), keys[:12])
}

// permutation chooses a permutation of 0..n-1.
func permutation(n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	var p []int
	for len(rest) > 0 {
		k := mct.Choose(len(rest))
		p = append(p, rest[k])
		rest = append(rest[:k:k], rest[k+1:]...)
	}
	return p
}

// family returns key sequence number f of a structured family for size n.
func family(f, n int) (keys []int) {
	keys = make([]int, n)
	for i := range keys {
		switch f {
		case 0:
			keys[i] = i
		case 1:
			keys[i] = n - i
		case 2:
			keys[i] = 7
		case 3:
			keys[i] = i % 2
		case 4:
			keys[i] = 1 - i%2
		case 5: // organ pipe
			keys[i] = min(i, n-i)
		case 6:
			keys[i] = -min(i, n-i)
		case 7: // saw teeth
			keys[i] = i % 17
		case 8:
			keys[i] = -(i % 100)
		case 9: // two runs
			if i < n/2 {
				keys[i] = 2 * i
			} else {
				keys[i] = 2*(i-n/2) + 1
			}
		case 10: // rotated
			keys[i] = (i + n/3) % n
		case 11: // scrambled
			keys[i] = int(uint32(i*2654435761) >> 8)
		case 12: // few values, scrambled
			keys[i] = int(uint32(i*2654435761)>>8) % 5
		case 13: // sorted except the last
			keys[i] = i
			if i == n-1 {
				keys[i] = -1
			}
		case 14: // sorted except the first
			keys[i] = i
			if i == 0 {
				keys[i] = n
			}
		case 15: // sorted halves, upper first
			keys[i] = i
			if i < n/2 {
				keys[i] = i + n
			}
		case 16: // quarters out of order
			keys[i] = i + []int{3, 0, 2, 1}[min(3, 4*i/max(n, 1))]*n
		case 17: // extreme values
			keys[i] = []int{math.MaxInt, math.MinInt, 0}[i%3]
		case 18: // the right half starts with a few that belong into the left one
			keys[i] = i
			if h := n / 2; i >= h {
				keys[i] = i + n
				if i < h+min(6, h/4) {
					keys[i] = n/8 + n/100*(i-h)
				}
			}
		case 19: // the left half ends with a few that belong into the right one
			keys[i] = i
			if h := n / 2; i < h {
				keys[i] = i - n
				if i >= h-min(6, h/4) {
					keys[i] = n - n/8 - n/100*(h-i)
				}
			}
		case 20: // the right half holds few elements spread over the left one, and many large ones
			keys[i] = i
			if h := n / 2; i >= h {
				keys[i] = i + n
				if (i-h)%max(1, h/8) == 0 {
					keys[i] = i - h
				}
			}
		case 21: // few elements of the left half are spread over the right one
			keys[i] = i
			if h := n / 2; i < h {
				keys[i] = i - n
				if i%max(1, h/8) == 1 {
					keys[i] = i + h
				}
			}
		case 22: // like 18 for quarters, with equal elements
			q := max(n/4, 1)
			keys[i] = (i%q)/3 + i/q*n
			if i/q%2 == 1 && i%q < min(6, q/4) {
				keys[i] = q/12 + (i/q-1)*n
			}
		case 23: // like 19 for quarters, with equal elements
			q := max(n/4, 1)
			keys[i] = (i%q)/3 + i/q*n
			if i/q%2 == 0 && i%q >= q-min(6, q/4) {
				keys[i] = q/12 + (i/q+1)*n
			}
		}
	}
	return
}

const families = 24

var realSizes = []int{0x500 - 1, 0x500, 0x500 + 1, 0x500 + 10, 2 * 0x500, 2*0x500 + 11, 0x3000 - 1, 0x3000, 0x3000 + 1, 0x3000 + 2, 0x3000 + 3, 4*0x3000 - 1, 4 * 0x3000, 4*0x3000 + 3, 5*0x500 + 7, 5*0x3000 + 1, 8*0x3000 + 2, 16*0x3000 + 3, 10007, 20011, 100003, 30 * 0x500}

func init() {
	type sorting struct {
		prop, name string
		stable     bool
		small      func(items)
		large      func(big)
	}
	for _, so := range []sorting{
		{"Q01", "Sort", false, func(s items) { psort.Sort(s) }, func(s big) { psort.Sort(s) }},
		{"Q02", "StableSort", true, func(s items) { psort.StableSort(s) }, func(s big) { psort.StableSort(s) }},
	} {
		check := func(keys []int) {
			s := makeItems(keys)
			so.small(s)
			checkSorted(so.name, keys, s, so.stable)
		}
		reg(so.prop, "binary", mct.Scenario{Default: true, NoRace: true, Body: func() {
			keys := vector(mct.Choose(mct.Tier(14, 18)), 2)
			check(keys)
			mct.Out("%d", len(keys))
		}})
		reg(so.prop, "ternary", mct.Scenario{Default: true, NoRace: true, Body: func() {
			keys := vector(mct.Choose(mct.Tier(10, 12)), 3)
			check(keys)
			mct.Out("%d", len(keys))
		}})
		reg(so.prop, "permutations", mct.Scenario{Default: true, NoRace: true, Body: func() {
			keys := permutation(mct.Choose(mct.Tier(9, 10)))
			check(keys)
			mct.Out("%d", len(keys))
		}})
		reg(so.prop, "swapped", mct.Scenario{Default: true, NoRace: true, Body: func() {
			n := mct.Choose(mct.Tier(32, 70))
			keys := family(0, n)
			if n > 0 {
				i, j := mct.Choose(n), mct.Choose(n)
				keys[i], keys[j] = keys[j], keys[i]
			}
			check(keys)
			mct.Out("%d", n)
		}})
		reg(so.prop, "families", mct.Scenario{Default: true, NoRace: true, Body: func() {
			n, f := mct.Choose(mct.Tier(90, 300)), mct.Choose(families)
			check(family(f, n))
			mct.Out("%d %d", n, f)
		}})
		reg(so.prop, "schedules", mct.Scenario{Body: func() {
			n := []int{4, 5, 8, 9, 10, 11}[mct.Choose(mct.Tier(6, 6))]
			f := mct.Choose(families)
			check(family(f, n))
			mct.Out("%d %d", n, f)
		}})
		reg(so.prop, "schedules/large", mct.Scenario{PB: mct.Tier(2, 3), Body: func() {
			n := []int{12, 16, 13, 17, 20, 28}[mct.Choose(mct.Tier(2, 6))]
			f := []int{1, 12, 16, 5, 10, 11}[mct.Choose(mct.Tier(3, 6))]
			check(family(f, n))
			mct.Out("%d %d", n, f)
		}})
		for part := range 4 {
			reg(so.prop, fmt.Sprintf("real%d", part), mct.Scenario{Default: true, NoRace: true, Real: true, Body: func() {
				var sizes []int
				for i, n := range realSizes {
					if i%4 == part {
						sizes = append(sizes, n)
					}
				}
				n, f := sizes[mct.Choose(len(sizes))], mct.Choose(families)
				keys := family(f, n)
				s := big(makeItems(keys))
				so.large(s)
				checkSorted(so.name, keys, s, so.stable)
				mct.Out("%d %d", n, f)
			}})
		}
	}
	reg("Q02", "sequential", mct.Scenario{Default: true, NoRace: true, Body: func() {
		// the concrete types go through the same algorithm
		keys := vector(mct.Choose(mct.Tier(11, 13)), 2)
		s := append(psort.IntSlice(nil), keys...)
		psort.StableSort(s)
		for i := 1; i < len(s); i++ {
			mct.Assert(s[i-1] <= s[i], "StableSort of IntSlice %v = %v", keys, s)
		}
		sum := 0
		for i := range s {
			sum += keys[i] - s[i]
		}
		mct.Assert(sum == 0, "StableSort of IntSlice %v = %v", keys, s)
	}})

	// Q03: IsSorted is exact
	exact := func(keys []int, got bool) {
		want := sort.IntsAreSorted(keys)
		mct.Assert(got == want, "IsSorted(%s) = %v", brief(keys), got)
	}
	reg("Q03", "binary", mct.Scenario{Default: true, NoRace: true, Body: func() {
		keys := vector(mct.Choose(mct.Tier(15, 18)), 2)
		exact(keys, psort.IsSorted(makeItems(keys)))
		mct.Out("%v", sort.IntsAreSorted(keys))
	}})
	reg("Q03", "permutations", mct.Scenario{Default: true, NoRace: true, Body: func() {
		keys := permutation(mct.Choose(mct.Tier(8, 10)))
		exact(keys, psort.IsSorted(makeItems(keys)))
	}})
	inversions := func(n int) []int {
		keys := family(0, n)
		switch mct.Choose(4) {
		case 0:
		case 1: // one adjacent inversion
			if n > 1 {
				i := mct.Choose(n - 1)
				keys[i], keys[i+1] = keys[i+1], keys[i]
			}
		case 2: // one element smaller than everything
			if n > 0 {
				keys[mct.Choose(n)] = -1
			}
		case 3: // equal except for a step down
			k := mct.Choose(n + 1)
			for i := range keys {
				keys[i] = 0
				if i < k {
					keys[i] = 1
				}
			}
		}
		return keys
	}
	reg("Q03", "inversions", mct.Scenario{Default: true, NoRace: true, Body: func() {
		keys := inversions(mct.Choose(mct.Tier(110, 300)))
		exact(keys, psort.IsSorted(makeItems(keys)))
	}})
	reg("Q03", "schedules", mct.Scenario{Body: func() {
		keys := inversions([]int{8, 9, 10, 11, 12, 20, 21, 22, 29, 30}[mct.Choose(mct.Tier(7, 10))])
		got := psort.IsSorted(makeItems(keys))
		exact(keys, got)
		mct.Out("%d %v", len(keys), got)
	}})
	reg("Q03", "real", mct.Scenario{Default: true, NoRace: true, Real: true, Body: func() {
		n := []int{9, 10, 11, 12, 0x500 - 1, 0x500, 0x500 + 1, 0x500 + 9, 0x500 + 10, 0x500 + 11, 2*0x500 + 10, 3000, 5200}[mct.Choose(mct.Tier(12, 13))]
		keys := family(0, n)
		k := mct.Choose(n + 1)
		if k > 0 && (k < 40 || k > n-40 || k%7 == 0 || k%1024 < 3 || n < 2000) {
			if k < n {
				keys[k] = keys[k-1] - 1
			}
		}
		exact(keys, psort.IsSorted(big(makeItems(keys))))
	}})
	reg("Q03", "real/large", mct.Scenario{Default: true, NoRace: true, Real: true, Body: func() {
		// a step down at both ends, and around powers of two
		n := []int{5200, 70000, 131072 + 3, 200000}[mct.Choose(mct.Tier(3, 4))]
		var at []int
		for _, m := range []int{0, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, n / 2, n} {
			for d := -2; d <= 2; d++ {
				if k := m + d; k > 0 && k < n {
					at = append(at, k)
				}
			}
		}
		keys := family(0, n)
		if k := mct.Choose(len(at) + 1); k < len(at) {
			keys[at[k]] = keys[at[k]-1] - 1
		}
		exact(keys, psort.IsSorted(big(makeItems(keys))))
	}})
	reg("Q03", "helpers", mct.Scenario{Default: true, NoRace: true, Body: func() {
		n := mct.Choose(mct.Tier(50, 120))
		keys := inversions(n)
		want := sort.IntsAreSorted(keys)
		fl := make([]float64, n)
		st := make([]string, n)
		for i, k := range keys {
			fl[i] = float64(k) / 4
			st[i] = fmt.Sprintf("%08d", k+10)
		}
		mct.Assert(psort.IntsAreSorted(keys) == want, "IntsAreSorted(%v)", keys)
		mct.Assert(psort.Float64sAreSorted(fl) == want, "Float64sAreSorted(%v)", fl)
		mct.Assert(psort.StringsAreSorted(st) == want, "StringsAreSorted(%v)", st)
	}})

	// Q04: exclusive, in-bounds access, and nothing outlives the call. Data
	// races are detected by the checker on every schedule; the collection is
	// modified right after the call.
	touch := func(s items) {
		for i := range s {
			s[i].key = -1
		}
	}
	reg("Q04", "Sort", mct.Scenario{Body: func() {
		n := []int{8, 9, 10, 12, 18, 20, 23}[mct.Choose(mct.Tier(6, 7))]
		s := makeItems(family(mct.Choose(families), n))
		psort.Sort(s)
		touch(s)
		mct.Out("%d", n)
	}})
	reg("Q04", "Sort/inputs", mct.Scenario{Default: true, Body: func() {
		s := makeItems(vector(mct.Choose(mct.Tier(13, 15)), 2))
		psort.Sort(s)
		touch(s)
		mct.Out("%d", len(s))
	}})
	reg("Q04", "Sort/families", mct.Scenario{Default: true, Body: func() {
		s := makeItems(family(mct.Choose(families), mct.Choose(mct.Tier(60, 200))))
		psort.Sort(s)
		touch(s)
		mct.Out("%d", len(s))
	}})
	reg("Q04", "StableSort", mct.Scenario{Body: func() {
		n := []int{3, 4, 5, 8, 9, 12, 16}[mct.Choose(mct.Tier(6, 7))]
		s := makeItems(family(mct.Choose(families), n))
		psort.StableSort(s)
		touch(s)
		mct.Out("%d", n)
	}})
	reg("Q04", "StableSort/inputs", mct.Scenario{Default: true, Body: func() {
		s := makeItems(vector(mct.Choose(mct.Tier(13, 15)), 2))
		psort.StableSort(s)
		touch(s)
		mct.Out("%d", len(s))
	}})
	reg("Q04", "StableSort/families", mct.Scenario{Default: true, Body: func() {
		s := makeItems(family(mct.Choose(families), mct.Choose(mct.Tier(60, 200))))
		psort.StableSort(s)
		touch(s)
		mct.Out("%d", len(s))
	}})
	reg("Q04", "IsSorted", mct.Scenario{Body: func() {
		s := makeItems(inversions([]int{8, 9, 11, 12, 20, 22, 30}[mct.Choose(mct.Tier(6, 7))]))
		psort.IsSorted(s)
		touch(s)
		mct.Out("%d", len(s))
	}})
	reg("Q04", "IsSorted/readonly", mct.Scenario{Default: true, NoRace: true, Body: func() {
		keys := inversions(mct.Choose(40))
		s := makeItems(keys)
		psort.IsSorted(s)
		for i := range s {
			mct.Assert(s[i] == item{keys[i], i}, "IsSorted changed element %d of %v", i, keys)
		}
	}})

	// Q05: the concrete slice types
	var floats = []float64{math.NaN(), math.Inf(-1), -1.5, math.Copysign(0, -1), 0, 2.25, math.Inf(1)}
	same := func(a, b []float64) bool {
		for i := range a {
			if !(a[i] == b[i] || a[i] != a[i] && b[i] != b[i]) {
				return false
			}
		}
		return len(a) == len(b)
	}
	float := func(what string, in []float64) {
		want := append([]float64(nil), in...)
		sort.Float64s(want)
		for k, f := range []func(psort.Float64Slice){
			func(s psort.Float64Slice) { psort.Sort(s) },
			func(s psort.Float64Slice) { psort.StableSort(s) },
		} {
			s := append(psort.Float64Slice(nil), in...)
			f(s)
			mct.Assert(same(s, want), "%s of Float64Slice %v = %v, want %v", []string{"Sort", "StableSort"}[k], in, s, want)
			mct.Assert(psort.Float64sAreSorted(s), "Float64sAreSorted(%v) = false", s)
		}
		mct.Assert(psort.Float64sAreSorted(in) == sort.Float64sAreSorted(in), "Float64sAreSorted(%v) = %v", in, psort.Float64sAreSorted(in))
	}
	reg("Q05", "float64", mct.Scenario{Default: true, NoRace: true, Body: func() {
		n := mct.Choose(mct.Tier(6, 7))
		in := make([]float64, n)
		for i := range in {
			in[i] = floats[mct.Choose(len(floats))]
		}
		float("values", in)
	}})
	reg("Q05", "float64/nan", mct.Scenario{Default: true, NoRace: true, Body: func() {
		v := vector(mct.Choose(mct.Tier(13, 15)), 2)
		in := make([]float64, len(v))
		for i := range in {
			in[i] = float64(i)
			if v[i] == 1 {
				in[i] = math.NaN()
			}
		}
		float("nan", in)
	}})
	stable := func(n int) {
		// zeros of both signs are equal, and so are NaN: their order is kept
		few := []float64{0, math.Copysign(0, -1), math.NaN(), math.Float64frombits(math.Float64bits(math.NaN()) ^ 1), 1, math.Inf(-1)}
		k := 2 + mct.Choose(len(few)-1)
		x := uint64(mct.Choose(8))*977 + 3
		in := make([]float64, n)
		for i := range in {
			x = x*6364136223846793005 + 1442695040888963407
			in[i] = few[int(x>>33)%k]
		}
		want := slices.Clone(in)
		sort.Stable(sort.Float64Slice(want))
		got := slices.Clone(in)
		psort.StableSort(psort.Float64Slice(got))
		for i := range want {
			mct.Assert(math.Float64bits(got[i]) == math.Float64bits(want[i]), "StableSort of %d elements starting with %v: element %d is %v (%x), want %v (%x)", n, in[:min(n, 10)], i, got[i], math.Float64bits(got[i]), want[i], math.Float64bits(want[i]))
		}
	}
	reg("Q05", "float64/stable", mct.Scenario{Default: true, NoRace: true, Body: func() {
		stable([]int{2, 3, 5, 11, 12, 13, 16, 21, 33, 50, 200}[mct.Choose(11)])
	}})
	reg("Q05", "float64/stable/real", mct.Scenario{Default: true, NoRace: true, Real: true, Body: func() {
		stable([]int{13, 600, 1300, 0x3000 - 1, 0x3000, 13000, 50000}[mct.Choose(mct.Tier(6, 7))])
	}})
	reg("Q05", "int", mct.Scenario{Default: true, NoRace: true, Body: func() {
		n, f := mct.Choose(mct.Tier(60, 200)), mct.Choose(families)
		in := family(f, n)
		want := append([]int(nil), in...)
		sort.Ints(want)
		a := append(psort.IntSlice(nil), in...)
		psort.Sort(a)
		mct.Assert(eqInts(a, want), "Sort of IntSlice %v = %v", in, a)
		b := append(psort.IntSlice(nil), in...)
		psort.StableSort(b)
		mct.Assert(eqInts(b, want), "StableSort of IntSlice %v = %v", in, b)
		mct.Assert(psort.IntsAreSorted(in) == sort.IntsAreSorted(in), "IntsAreSorted(%v)", in)
	}})
	reg("Q05", "string", mct.Scenario{Default: true, NoRace: true, Body: func() {
		n, f := mct.Choose(mct.Tier(60, 200)), mct.Choose(families)
		in := make([]string, n)
		for i, k := range family(f, n) {
			in[i] = fmt.Sprint(k % 1000)
		}
		want := append([]string(nil), in...)
		sort.Strings(want)
		a := append(psort.StringSlice(nil), in...)
		psort.Sort(a)
		b := append(psort.StringSlice(nil), in...)
		psort.StableSort(b)
		for i := range want {
			mct.Assert(a[i] == want[i], "Sort of StringSlice %v = %v", in, a)
			mct.Assert(b[i] == want[i], "StableSort of StringSlice %v = %v", in, b)
		}
		mct.Assert(psort.StringsAreSorted(in) == sort.StringsAreSorted(in), "StringsAreSorted(%v)", in)
	}})
	reg("Q05", "methods", mct.Scenario{Default: true, NoRace: true, Body: func() {
		// SequentialSort sorts exactly [i,j); Assign copies exactly the range;
		// NewTemp has the length of the original and is distinct from it
		n := 1 + mct.Choose(5)
		i := mct.Choose(n + 1)
		j := i + mct.Choose(n+1-i)
		d := mct.Choose(n + 1 - (j - i))
		in := family(1, n)
		want := append([]int(nil), in...)
		sort.Ints(want[i:j])
		is := append(psort.IntSlice(nil), in...)
		fs := make(psort.Float64Slice, n)
		ss := make(psort.StringSlice, n)
		for k, x := range in {
			fs[k] = float64(x)
			ss[k] = string(rune('a' + x))
		}
		is.SequentialSort(i, j)
		fs.SequentialSort(i, j)
		ss.SequentialSort(i, j)
		for k, x := range want {
			mct.Assert(is[k] == x && fs[k] == float64(x) && ss[k] == string(rune('a'+x)),
				"SequentialSort(%d,%d) of %v: %v %v %v", i, j, in, is, fs, ss)
		}
		it, ft, st := is.NewTemp().(psort.IntSlice), fs.NewTemp().(psort.Float64Slice), ss.NewTemp().(psort.StringSlice)
		mct.Assert(len(it) == n && len(ft) == n && len(st) == n, "NewTemp of %d elements", n)
		for k := range n {
			it[k], ft[k], st[k] = -1, -1, "-"
		}
		mct.Assert(eqInts(is, want), "NewTemp of IntSlice aliases the original")
		mct.Assert(fs[0] >= 0 && ss[0] != "-", "NewTemp aliases the original")
		it.Assign(is)(d, i, j-i)
		ft.Assign(fs)(d, i, j-i)
		st.Assign(ss)(d, i, j-i)
		for k := range n {
			wi := -1
			if k >= d && k < d+j-i {
				wi = want[i+k-d]
			}
			ws := "-"
			if wi >= 0 {
				ws = string(rune('a' + wi))
			}
			mct.Assert(it[k] == wi && ft[k] == float64(wi) && st[k] == ws, "Assign(%d,%d,%d): %v %v %v", d, i, j-i, it, ft, st)
		}
	}})

	// Q06: panics in the methods of a collection reach the caller
	for _, name := range []string{"Sort", "StableSort", "IsSorted"} {
		trapped := func(n, f int) {
			methods := map[string][]string{
				"Sort":       {"Less", "SequentialSort", "Swap", "Len"},
				"StableSort": {"Less", "SequentialSort", "Assign", "assign", "NewTemp", "Len"},
				"IsSorted":   {"Less", "Len"},
			}[name]
			method := methods[mct.Choose(len(methods))]
			s := &trap{items: makeItems(family(f, n)), method: method, hits: mct.NewBag()}
			switch method {
			case "Less", "SequentialSort", "Swap", "assign":
				s.bad = mct.Choose(n)
			}
			result := false
			p, panicked := caught(func() {
				switch name {
				case "Sort":
					psort.Sort(s)
				case "StableSort":
					psort.StableSort(s)
				case "IsSorted":
					result = psort.IsSorted(s)
				}
			})
			sorted := sort.IntsAreSorted(family(f, n))
			mct.Final(func() {
				hits := s.hits.Len()
				if name == "IsSorted" && !sorted {
					mct.Assert(panicked || !result, "IsSorted of %d elements in family %d returns true", n, f)
					mct.Assert(!panicked || hits > 0, "IsSorted of %d elements in family %d panicked", n, f)
				} else {
					mct.Assert(panicked == (hits > 0), "%s of %d elements in family %d: panicked=%v after %d panics of %s", name, n, f, panicked, hits, method)
				}
				if name == "Sort" {
					seen := make([]bool, n)
					for _, x := range s.items {
						mct.Assert(!seen[x.id], "after a panic of %s, Sort of %d elements in family %d leaves %v", method, n, f, s.items)
						seen[x.id] = true
					}
				}
				if !panicked && name != "IsSorted" {
					checkSorted(name, family(f, n), s.items, name == "StableSort")
				}
			})
			if panicked {
				mct.Assert(panicID(p) == "e77", "%s panicked with %v", name, p)
			}
			mct.Out("%d %d %v", n, f, panicked)
		}
		reg("Q06", name, mct.Scenario{PB: mct.Tier(3, 4), Body: func() {
			trapped([]int{4, 9, 11, 12, 20}[mct.Choose(mct.Tier(4, 5))], []int{0, 1, 5, 11}[mct.Choose(4)])
		}})
		reg("Q06", name+"/inputs", mct.Scenario{Default: true, NoRace: true, Body: func() {
			n := 1 + mct.Choose(mct.Tier(30, 60))
			trapped(n, mct.Choose(families))
		}})
		reg("Q06", name+"/again", mct.Scenario{PB: mct.Tier(2, 3), NumCPU: 1, Body: func() {
			// a panic in one call is no matter of another one
			together := mct.Choose(2) == 1
			n := []int{9, 12}[mct.Choose(2)]
			twice(together, func(k int) {
				s := &trap{items: makeItems(family(1, n)), hits: mct.NewBag()}
				if k == 1 {
					s.method, s.bad = "Less", mct.Choose(n)
				}
				p, panicked := caught(func() {
					switch name {
					case "Sort":
						psort.Sort(s)
					case "StableSort":
						psort.StableSort(s)
					case "IsSorted":
						s.items[0], s.items[n-1] = s.items[n-1], s.items[0]
						psort.IsSorted(s)
					}
				})
				mct.Assert(k == 1 || !panicked, "%s panicked because of another call: %v", name, p)
			})
		}})
	}
}

// trap panics in a method, when element number bad is looked at.
type trap struct {
	items
	method string
	bad    int
	hits   *mct.Bag
	raise  func(int) // panics, if set
}

func (s *trap) spring(method string, l ...int) {
	if s.method != method {
		return
	}
	hit := len(l) == 0
	for _, i := range l {
		hit = hit || s.items[i].id == s.bad
	}
	if hit {
		s.hits.Add("x")
		if s.raise != nil {
			s.raise(77)
		}
		panic(seqNum(77))
	}
}

func (s *trap) Len() int           { s.spring("Len"); return s.items.Len() }
func (s *trap) Less(i, j int) bool { s.spring("Less", i, j); return s.items.Less(i, j) }
func (s *trap) Swap(i, j int)      { s.spring("Swap", i, j); s.items.Swap(i, j) }
func (s *trap) NewTemp() psort.StableSorter {
	s.spring("NewTemp")
	return &trap{make(items, len(s.items)), s.method, s.bad, s.hits, s.raise}
}
func (s *trap) Assign(source psort.StableSorter) func(i, j, len int) {
	s.spring("Assign")
	src := source.(*trap)
	f := s.items.Assign(src.items)
	return func(i, j, n int) {
		for k := j; k < j+n; k++ {
			src.spring("assign", k)
		}
		f(i, j, n)
	}
}
func (s *trap) SequentialSort(i, j int) {
	for k := i; k < j; k++ {
		s.spring("SequentialSort", k)
	}
	s.items.SequentialSort(i, j)
}

func init() {
	// several calls at the same time, or one after the other
	again := func(prop string, f func(k, n, fam int)) {
		reg(prop, "again", mct.Scenario{PB: mct.Tier(3, 4), NumCPU: 1, Body: func() {
			together := mct.Choose(2) == 1
			n, m := []int{9, 10, 12}[mct.Choose(mct.Tier(2, 3))], []int{3, 9, 11}[mct.Choose(mct.Tier(2, 3))]
			fs, gs := mct.Choose(2), mct.Choose(2)
			twice(together, func(k int) {
				if k == 0 {
					f(k, n, fs)
				} else {
					f(k, m, gs)
				}
			})
		}})
	}
	again("Q01", func(k, n, f int) {
		keys := family([]int{1, 0}[f], n)
		s := makeItems(keys)
		psort.Sort(s)
		checkSorted("Sort", keys, s, false)
	})
	again("Q02", func(k, n, f int) {
		keys := family([]int{1, 12}[f], n)
		s := makeItems(keys)
		psort.StableSort(s)
		checkSorted("StableSort", keys, s, true)
	})
	again("Q03", func(k, n, f int) {
		keys := family([]int{0, 14}[f], n+2)
		if f == 1 {
			keys = family(13, n+2)
		}
		got := psort.IsSorted(makeItems(keys))
		mct.Assert(got == sort.IntsAreSorted(keys), "IsSorted of %v = %v", keys, got)
	})
	reg("Q03", "again/real", mct.Scenario{PB: 2, Real: true, NumCPU: 1, Body: func() {
		// the thresholds are too large to explore everything
		fs := [2]int{mct.Choose(3), mct.Choose(3)}
		twice(true, func(k int) {
			keys := family([]int{0, 14, 13}[fs[k]], 2*0x500+20)
			got := psort.IsSorted(big(makeItems(keys)))
			mct.Assert(got == (fs[k] == 0), "IsSorted of %s = %v", brief(keys), got)
		})
	}})
}
