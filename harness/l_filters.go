package main

import (
	"fmt"
	"slices"

	"github.com/intel/forGoParallel/pipeline"
	"github.com/intel/forGoParallel/zz_verif/mct"
)

// numbers returns a source of the numbers 0..n-1 in batches of `size`, of known
// or unknown total size.
func numbers(n, size int, known bool) *pipeline.Pipeline[[]int] {
	var prep func(ctx0) int
	if known {
		prep = func(ctx0) int { return n }
	}
	next := 0
	p := pipeline.New(pipeline.NewFunc(prep, func(int) ([]int, int, error) {
		k := min(size, n-next)
		b := make([]int, 0, k)
		for range k {
			b = append(b, next)
			next++
		}
		return b, k, nil
	}))
	return p
}

func init() {
	// L10: predicates over batches
	type quantifier struct {
		name  string
		make  func(*bool, bool, pipeline.Predicate[string]) pipeline.Filter[string]
		empty bool // result without any batch
		known bool // value of the predicate that decides the result
	}
	quantifiers := []quantifier{
		{"Every", pipeline.Every[string], true, false},
		{"NotEvery", pipeline.NotEvery[string], false, false},
		{"Some", pipeline.Some[string], false, true},
		{"NotAny", pipeline.NotAny[string], true, true},
	}
	quant := func(q quantifier, kind byte, nb int, behind, before string) {
		v := vector(nb, 2)
		cancel := mct.Choose(2) == 1
		result := mct.Choose(2) == 1 // whatever was there before
		what := fmt.Sprintf("%s(%v) in %s[%c]%s, cancel %v", q.name, v, behind, kind, before, cancel)
		p := newPipe(nb, false)
		for s := range behind {
			p.Add(mkNode(behind[s], pipeline.Receive(func(_ int, d string) string { mct.Yield(); return d })))
		}
		calls := mct.NewBag()
		decided := mct.NewBag()
		p.Add(mkNode(kind, q.make(&result, cancel, func(d string) bool {
			calls.Add("%s", d)
			r := v[d[0]-'0'] == 1
			if r == q.known {
				decided.Add("%s", d)
			}
			return r
		}), pipeline.Receive(func(seqNo int, d string) string {
			mct.Assert(d == fmt.Sprint(seqNo), "%s: batch %d became %q", what, seqNo, d)
			if cancel && (v[seqNo] == 1) == q.known {
				mct.Assert(p.Context().Err() != nil, "%s: the pipeline is not cancelled after batch %d", what, seqNo)
			}
			if !cancel {
				mct.Assert(p.Context().Err() == nil, "%s: the pipeline is cancelled", what)
			}
			return d
		})))
		for s := range before {
			p.Add(mkNode(before[s], pipeline.Receive(func(_ int, d string) string { return d })))
		}
		p.Run()
		want := q.empty
		for _, x := range v {
			if (x == 1) == q.known {
				want = !q.empty
			}
		}
		if cancel {
			// batches behind the deciding one may be dropped
			mct.Assert(calls.Len() == nb || decided.Len() > 0, "%s: %v were tested", what, calls.Map())
		} else {
			mct.Assert(calls.Len() == nb, "%s: %v were tested", what, calls.Map())
		}
		for b := range nb {
			mct.Assert(calls.Count("%d", b) <= 1, "%s: %v were tested", what, calls.Map())
		}
		mct.Assert(result == want, "%s = %v", what, result)
		mct.Assert(p.Err() == nil, "%s: error %v", what, p.Err())
		mct.Out("%s %v", what, result)
	}
	for _, q := range quantifiers {
		reg("L10", q.name, mct.Scenario{PB: mct.Tier(3, 4), Body: func() {
			quant(q, nodeKinds[mct.Choose(5)], mct.Choose(mct.Tier(3, 4)), "", "")
		}})
		reg("L10", q.name+"/behind", mct.Scenario{PB: 2, Body: func() {
			quant(q, nodeKinds[mct.Choose(5)], 2, chooseKinds(1), "")
		}})
		reg("L10", q.name+"/all", mct.Scenario{Default: true, Body: func() {
			quant(q, nodeKinds[mct.Choose(5)], mct.Choose(mct.Tier(6, 8)), "", "")
		}})
		for _, k := range nodeKinds {
			reg("L10", fmt.Sprintf("%s/before/%c", q.name, k), mct.Scenario{PB: mct.Tier(1, 2), NumCPU: 2, Body: func() {
				quant(q, nodeKinds[mct.Choose(5)], 2, "", string(k))
			}})
		}
	}
	reg("L10", "together", mct.Scenario{PB: 2, Body: func() {
		// all of them on the same batches
		kind := nodeKinds[mct.Choose(5)]
		nb := mct.Choose(3)
		v := vector(nb, 2)
		p := newPipe(nb, false)
		res := make([]bool, len(quantifiers))
		for i, q := range quantifiers {
			p.Add(mkNode(kind, q.make(&res[i], false, func(d string) bool { return v[d[0]-'0'] == 1 })))
		}
		p.Run()
		all, any := !slices.Contains(v, 0), slices.Contains(v, 1)
		mct.Assert(res[0] == all && res[1] == !all && res[2] == any && res[3] == !any, "%c: %v for %v", kind, res, v)
		mct.Out("%c %v %v", kind, v, res)
	}})
	for _, kind := range nodeKinds {
		// two of them on the same batches, each of which may cancel the pipeline
		reg("L10", fmt.Sprintf("pairs/%c", kind), mct.Scenario{PB: mct.Tier(1, 2), NumCPU: 2, Body: func() {
			type use struct {
				q      quantifier
				v      []int
				cancel bool
				result bool
				hits   mct.Cell
			}
			nb := 1 + mct.Choose(2)
			p := newPipe(nb, false)
			var uses []*use
			same := mct.Choose(2) == 1
			for range 2 {
				u := &use{q: quantifiers[mct.Choose(4)], v: vector(nb, 2), cancel: mct.Choose(2) == 1}
				uses = append(uses, u)
			}
			for i, u := range uses {
				k := byte(kind)
				if i == 1 && !same {
					k = 'P'
				}
				p.Add(mkNode(k, u.q.make(&u.result, u.cancel, func(d string) bool {
					r := u.v[d[0]-'0'] == 1
					if r == u.q.known {
						u.hits.Inc()
					}
					return r
				})))
			}
			p.Run()
			for i, u := range uses {
				want := u.q.empty != (u.hits.Get() > 0)
				mct.Assert(u.result == want, "%c, same stage %v: %s(%v, cancel %v), number %d of %s(%v, cancel %v) and %s(%v, cancel %v), is %v, and %d batches decided it", kind, same,
					u.q.name, u.v, u.cancel, i, uses[0].q.name, uses[0].v, uses[0].cancel, uses[1].q.name, uses[1].v, uses[1].cancel, u.result, u.hits.Get())
			}
			mct.Assert(p.Err() == nil, "error %v", p.Err())
			mct.Out("%v %v", uses[0].result, uses[1].result)
		}})
	}

	// L11: Count and Append
	tally := func(kind byte, n, size int, known bool, behind, before string, touch, empty bool) {
		what := fmt.Sprintf("%s[%c]%s: %d elements in batches of %d, known size %v, modified later %v", behind, kind, before, n, size, known, touch)
		p := numbers(n, size, known)
		count := 100 // whatever was there before
		second := 100
		all := []int{-1}
		if empty {
			all = nil
		}
		for s := range behind {
			p.Add(mkNode(behind[s], pipeline.Receive(func(_ int, d []int) []int { mct.Yield(); return d })))
		}
		p.Add(mkNode(kind, pipeline.Count[int](&count), pipeline.Append(&all), pipeline.Receive(func(_ int, d []int) []int {
			mct.Yield()
			r := append(d, d...)
			if touch {
				// the batch belongs to the following filters
				r = slices.Clone(r)
				for i := range d {
					d[i] = -5
				}
				d = append(d, -6)
			}
			return r
		}), pipeline.Receive(func(seqNo int, d []int) []int {
			k := min(size, n-seqNo*size)
			mct.Assert(len(d) == 2*k && d[0] == seqNo*size && d[2*k-1] == seqNo*size+k-1, "%s: batch %d is %v", what, seqNo, d)
			return d
		})))
		p.Add(mkNode(kind, pipeline.Count[int](&second)))
		for s := range before {
			p.Add(mkNode(before[s], pipeline.Receive(func(_ int, d []int) []int { return d })))
		}
		p.Run()
		mct.Assert(p.Err() == nil, "%s: error %v", what, p.Err())
		mct.Assert(count == n, "%s: Count = %d", what, count)
		mct.Assert(second == 2*n, "%s: Count of doubled batches = %d", what, second)
		if !empty {
			mct.Assert(len(all) > 0 && all[0] == -1, "%s: Append made %v", what, all)
			all = all[1:]
		}
		mct.Assert(len(all) == n, "%s: Append made %v", what, all)
		if !ordered(kind) {
			// batches are kept together, in any order
			for i := 0; i < n; {
				k := min(size, n-all[i])
				mct.Assert(all[i]%size == 0, "%s: Append made %v", what, all)
				for j := range k {
					mct.Assert(all[i+j] == all[i]+j, "%s: Append made %v", what, all)
				}
				i += k
			}
			all = slices.Sorted(slices.Values(all))
		}
		mct.Assert(eqInts(all, upTo(n)), "%s: Append made %v", what, all)
		mct.Out("%s", what)
	}
	for _, k := range nodeKinds {
		reg("L11", fmt.Sprintf("%c", k), mct.Scenario{PB: mct.Tier(3, 4), Body: func() {
			tally(byte(k), mct.Choose(mct.Tier(4, 5)), 1+mct.Choose(2), mct.Choose(2) == 1, "", "", false, false)
		}})
		reg("L11", fmt.Sprintf("behind/%c", k), mct.Scenario{PB: 2, Body: func() {
			tally(byte(k), 2, 1, mct.Choose(2) == 1, chooseKinds(1), "", true, true)
		}})
	}
	for _, k := range nodeKinds {
		reg("L11", fmt.Sprintf("before/%c", k), mct.Scenario{PB: mct.Tier(1, 2), NumCPU: 2, Body: func() {
			tally(nodeKinds[mct.Choose(5)], 2, 1, mct.Choose(2) == 1, "", chooseKinds(mct.Choose(2))+string(k), false, false)
		}})
	}
	reg("L11", "all", mct.Scenario{Default: true, Body: func() {
		tally(nodeKinds[mct.Choose(5)], mct.Choose(mct.Tier(8, 12)), 1+mct.Choose(4), mct.Choose(2) == 1, "", "", mct.Choose(2) == 1, mct.Choose(2) == 1)
	}})
	// Count and Append see what earlier stages leave, in whatever kind of stage
	tallyCut := func(kind byte, n, size int, known bool, before string, op, arg int) {
		what := fmt.Sprintf("%d elements in batches of %d, known size %v, %s, %c(%d), %c", n, size, known, before, "LSDE"[op], arg, kind)
		p := numbers(n, size, known)
		p.SetVariableBatchSize(size, size)
		for s := range before {
			p.Add(mkNode(before[s], pipeline.Receive(func(_ int, d []int) []int { mct.Yield(); return d })))
		}
		want := upTo(n)
		switch op {
		case 0:
			p.Add(pipeline.Limit[int](arg, false))
			want = want[:min(arg, n)]
		case 1:
			p.Add(pipeline.Skip[int](arg))
			want = want[min(arg, n):]
		case 2:
			// a filter that drops batches, and says so
			p.Add(pipeline.Par(func(_ *pipeline.Pipeline[[]int], _ pipeline.NodeKind, size *int) (pipeline.Receiver[[]int], pipeline.Finalizer) {
				*size = -1
				return func(seqNo int, d []int) []int {
					if seqNo%2 == arg%2 {
						return nil
					}
					return d
				}, nil
			}))
			want = nil
			for i := range n {
				if i/size%2 != arg%2 {
					want = append(want, i)
				}
			}
		case 3:
			// a filter that drops elements of unknown number
			p.Add(pipeline.Seq(func(_ *pipeline.Pipeline[[]int], _ pipeline.NodeKind, size *int) (pipeline.Receiver[[]int], pipeline.Finalizer) {
				*size = -1
				return func(seqNo int, d []int) (r []int) {
					for _, x := range d {
						if x >= arg {
							r = append(r, x, x)
						}
					}
					return r
				}, nil
			}))
			want = nil
			for i := arg; i < n; i++ {
				want = append(want, i, i)
			}
		}
		count := 100
		var all []int
		saw := mct.NewBag()
		p.Add(mkNode(kind, pipeline.Append(&all), pipeline.Count[int](&count), pipeline.Receive(func(seqNo int, d []int) []int {
			for _, x := range d {
				saw.Add("%d", x)
			}
			return d
		})))
		p.Run()
		mct.Assert(p.Err() == nil, "%s: error %v", what, p.Err())
		mct.Assert(count == len(want), "%s: Count = %d, want %d", what, count, len(want))
		mct.Assert(saw.Len() == len(want), "%s: the stage saw %v", what, saw.Map())
		if !ordered(kind) {
			slices.Sort(all)
		}
		mct.Assert(eqInts(all, want), "%s: Append made %v", what, all)
		mct.Out("%s", what)
	}
	reg("L11", "cut", mct.Scenario{Default: true, Body: func() {
		tallyCut(nodeKinds[mct.Choose(5)], mct.Choose(6), 1+mct.Choose(2), mct.Choose(2) == 1, chooseKinds(mct.Choose(2)), mct.Choose(4), mct.Choose(6))
	}})
	for _, k := range nodeKinds {
		reg("L11", fmt.Sprintf("cut/%c", k), mct.Scenario{PB: mct.Tier(1, 2), Body: func() {
			tallyCut(byte(k), 3, 1+mct.Choose(2), mct.Choose(2) == 1, []string{"", "P"}[mct.Choose(2)], mct.Choose(4), 1+mct.Choose(2))
		}})
	}
	reg("L11", "pieces", mct.Scenario{PB: 3, Body: func() {
		// only Count, only Append
		kind := nodeKinds[mct.Choose(5)]
		n := mct.Choose(4)
		known := mct.Choose(2) == 1
		p := numbers(n, 1, known)
		var all []int
		count := 7
		which := mct.Choose(2)
		if which == 0 {
			p.Add(mkNode(kind, pipeline.Count[int](&count)))
		} else {
			p.Add(mkNode(kind, pipeline.Append(&all)))
		}
		p.Run()
		if which == 0 {
			mct.Assert(count == n, "%c: Count = %d, want %d (known size %v)", kind, count, n, known)
		} else {
			mct.Assert(len(all) == n, "%c: Append made %v, want %d elements", kind, all, n)
			slices.Sort(all)
			mct.Assert(eqInts(all, upTo(n)), "%c: Append made %v", kind, all)
		}
		mct.Out("%c %d %v %d", kind, n, known, which)
	}})

	// L12: Limit and Skip
	cut := func(kind byte, n, size int, known bool, ops string, args []int, cancel bool) {
		what := fmt.Sprintf("%d elements in batches of %d, known size %v, %s%v, cancel %v, then %c", n, size, known, ops, args, cancel, kind)
		p := numbers(n, size, known)
		p.SetVariableBatchSize(size, size)
		want := upTo(n)
		reached := false
		fails := false
		for i, op := range ops {
			a := args[i]
			if op == 'L' {
				p.Add(pipeline.Limit[int](a, cancel))
				if a >= 0 {
					reached = reached || len(want) >= a
					want = want[:min(a, len(want))]
				}
			} else {
				p.Add(pipeline.Skip[int](a))
				if a < 0 {
					fails = true
					want = nil
				} else {
					want = want[min(a, len(want)):]
				}
			}
		}
		total := -1
		slots := make([][]int, n+1)
		p.Add(mkNode(kind, func(_ *pipeline.Pipeline[[]int], _ pipeline.NodeKind, dataSize *int) (pipeline.Receiver[[]int], pipeline.Finalizer) {
			total = *dataSize
			return func(seqNo int, d []int) []int {
				mct.Assert(seqNo < len(slots) && slots[seqNo] == nil, "%s: batch %d received twice", what, seqNo)
				slots[seqNo] = d
				return d
			}, nil
		}))
		p.Run()
		got := flatten(slots)
		if fails {
			mct.Assert(p.Err() != nil, "%s: no error", what)
			mct.Assert(len(got) == 0, "%s: received %v", what, got)
		} else {
			mct.Assert(p.Err() == nil, "%s: error %v", what, p.Err())
			if cancel && reached {
				// batches may be dropped, but nothing else gets through
				for _, g := range got {
					mct.Assert(slices.Contains(want, g), "%s: received %v", what, got)
				}
				if ordered(kind) {
					mct.Assert(len(got) <= len(want) && eqInts(got, want[:len(got)]), "%s: received %v", what, got)
				}
			} else {
				mct.Assert(eqInts(got, want), "%s: received %v, want %v", what, got, want)
			}
			mct.Assert(total < 0 || total == len(want), "%s: announced size is %d, want %d", what, total, len(want))
			if known && !slices.Contains(args, -1) {
				mct.Assert(total >= 0, "%s: the size is not known any more", what)
			}
		}
		mct.Out("%s", what)
	}
	arg := func() int { return mct.Choose(6) - 1 }
	for i, ops := range []string{"L", "S", "LS", "SL", "LL", "SS"} {
		args := func() (a []int) {
			for range ops {
				a = append(a, arg())
			}
			return
		}
		_ = i
		reg("L12", ops, mct.Scenario{Default: true, Body: func() {
			cut(nodeKinds[mct.Choose(5)], mct.Choose(5), 1+mct.Choose(3), mct.Choose(2) == 1, ops, args(), mct.Choose(2) == 1)
		}})
		reg("L12", ops+"/schedules", mct.Scenario{PB: mct.Tier(2, 3), Body: func() {
			cut(nodeKinds[mct.Choose(5)], 3, 1+mct.Choose(2), mct.Choose(2) == 1, ops, args(), strMinus(ops, 'S') != "" && mct.Choose(2) == 1)
		}})
	}
	// behind other stages, the first elements are still those of the source, and
	// stages of any kind see all others
	behind := func(before string, op int, a, n, size int, known bool, after string) {
		what := fmt.Sprintf("%d elements in batches of %d, %s, %c(%d), %s", n, size, before, "LS"[op], a, after)
		p := numbers(n, size, known)
		p.SetVariableBatchSize(size, size)
		for s := range before {
			p.Add(mkNode(before[s], pipeline.Receive(func(_ int, d []int) []int { mct.Yield(); return d })))
		}
		want := upTo(n)
		if op == 0 {
			p.Add(pipeline.Limit[int](a, false))
			want = want[:min(a, n)]
		} else {
			p.Add(pipeline.Skip[int](a))
			want = want[min(a, n):]
		}
		got := make([]*mct.Bag, len(after))
		last := make([]int, len(after))
		for s := range after {
			got[s] = mct.NewBag()
			last[s] = -1
			p.Add(mkNode(after[s], pipeline.Receive(func(_ int, d []int) []int {
				for _, x := range d {
					got[s].Add("%d", x)
					if ordered(after[s]) {
						mct.Assert(x > last[s], "%s: stage %d received %d after %d", what, s, x, last[s])
						last[s] = x
					}
				}
				return d
			})))
		}
		p.Run()
		mct.Assert(p.Err() == nil, "%s: error %v", what, p.Err())
		for s := range after {
			mct.Assert(got[s].Len() == len(want), "%s: stage %d received %v", what, s, got[s].Map())
			for _, w := range want {
				mct.Assert(got[s].Count("%d", w) == 1, "%s: stage %d received %v", what, s, got[s].Map())
			}
		}
		mct.Out("%s", what)
	}
	for _, k := range nodeKinds {
		reg("L12", fmt.Sprintf("behind/%c", k), mct.Scenario{PB: 2, Body: func() {
			behind(string(k), mct.Choose(2), 1+mct.Choose(2), 3, 1+mct.Choose(2), false, chooseKinds(1))
		}})
		reg("L12", fmt.Sprintf("behind/deep/%c", k), mct.Scenario{Thorough: true, PB: 3, Body: func() {
			behind(string(k), mct.Choose(2), mct.Choose(4), 3, 1, mct.Choose(2) == 1, chooseKinds(1))
		}})
	}
	reg("L12", "behind/all", mct.Scenario{Default: true, Body: func() {
		behind(chooseKinds(1), mct.Choose(2), mct.Choose(6), 5, 1+mct.Choose(2), mct.Choose(2) == 1, chooseKinds(1+mct.Choose(2)))
	}})
}

// repeat returns a function that repeats each element f times.
func repeat(f int) func(int, []int) []int {
	return func(_ int, d []int) (r []int) {
		for _, x := range d {
			for i := range f {
				r = append(r, 10*x+i)
			}
		}
		return
	}
}

// resizers are kinds of transformations or, small letters, of stages.
const resizers = transformKinds + "ospxl"

// resize adds a stage or transformation that makes f elements of each.
func resize(kind byte, p *pipeline.Pipeline[[]int], f int) *pipeline.Pipeline[[]int] {
	if kind >= 'a' {
		kind -= 'a' - 'A'
		if mct.Choose(2) == 0 {
			p.Add(mkNode(kind, pipeline.Receive(pipeline.Receiver[[]int](repeat(f)))))
		} else {
			p.Add(mkNode(kind, pipeline.ReceiveAndFinalize(repeat(f), func() {})))
		}
		return p
	}
	return mkTransform(kind, p, repeat(f))
}

func init() {
	// L11, L12: behind transformations and filters that change the number of elements
	tally := func(tk, kind byte, n, size, f int, known bool) {
		what := fmt.Sprintf("%d elements in batches of %d, known size %v, %c to %d each, %c", n, size, known, tk, f, kind)
		p := numbers(n, size, known)
		first, count := 7, 7
		var all []int
		p.Add(pipeline.Par(pipeline.Count[int](&first)))
		q := resize(tk, p, f)
		q.Add(mkNode(kind, pipeline.Count[int](&count), pipeline.Append(&all)))
		q.Run()
		mct.Assert(p.Err() == nil && q.Err() == nil, "%s: error %v", what, p.Err())
		mct.Assert(first == n, "%s: Count before it = %d", what, first)
		mct.Assert(count == n*f, "%s: Count = %d", what, count)
		want := repeat(f)(0, upTo(n))
		if !ordered(kind) {
			slices.Sort(all)
			slices.Sort(want)
		}
		mct.Assert(eqInts(all, want), "%s: Append made %v", what, all)
		mct.Out("%s", what)
	}
	reg("L11", "transform", mct.Scenario{Default: true, Body: func() {
		tally(resizers[mct.Choose(11)], nodeKinds[mct.Choose(5)], mct.Choose(4), 1+mct.Choose(2), mct.Choose(4), mct.Choose(2) == 1)
	}})
	for _, k := range nodeKinds {
		reg("L11", fmt.Sprintf("transform/%c", k), mct.Scenario{PB: mct.Tier(1, 2), NumCPU: 2, Body: func() {
			tally(resizers[mct.Choose(11)], byte(k), 2, 1, 2, mct.Choose(2) == 1)
		}})
	}
	cut := func(tk, kind byte, n, size, f int, known bool, before int, ops string, args []int) {
		what := fmt.Sprintf("%d elements in batches of %d, known size %v, Limit(%d), %c to %d each, %s%v, %c", n, size, known, before, tk, f, ops, args, kind)
		p := numbers(n, size, known)
		p.SetVariableBatchSize(size, size)
		in := upTo(n)
		if before >= 0 {
			p.Add(pipeline.Limit[int](before, false))
			in = in[:min(before, n)]
		}
		q := resize(tk, p, f)
		want := repeat(f)(0, in)
		for i, op := range ops {
			if op == 'L' {
				q.Add(pipeline.Limit[int](args[i], false))
				want = want[:min(args[i], len(want))]
			} else {
				q.Add(pipeline.Skip[int](args[i]))
				want = want[min(args[i], len(want)):]
			}
		}
		slots := make([][]int, n+1)
		seen := collect(q, kind, slots, nil)
		q.Run()
		mct.Assert(q.Err() == nil, "%s: error %v", what, q.Err())
		numbered(seen, what)
		mct.Assert(eqInts(slices.Concat(slots...), want), "%s: received %v, want %v", what, slots, want)
		mct.Out("%s", what)
	}
	for _, ops := range []string{"L", "S", "SL"} {
		reg("L12", "transform/"+ops, mct.Scenario{Default: true, Body: func() {
			args := make([]int, len(ops))
			for i := range args {
				args[i] = mct.Choose(mct.Tier(7-2*len(ops), 7))
			}
			cut(resizers[mct.Choose(11)], nodeKinds[mct.Choose(5)], mct.Choose(4), 1+mct.Choose(2), 1+mct.Choose(2), mct.Choose(2) == 1, mct.Choose(3)-1, ops, args)
		}})
		reg("L12", "transform/"+ops+"/schedules", mct.Scenario{PB: mct.Tier(1, 2), NumCPU: 2, Body: func() {
			args := make([]int, len(ops))
			for i := range args {
				args[i] = 1 + 2*mct.Choose(2)
			}
			cut(resizers[mct.Choose(11)], "PX"[mct.Choose(2)], 2, 1, 2, mct.Choose(2) == 1, -1, ops, args)
		}})
	}
}

func strMinus(s string, c rune) string {
	out := ""
	for _, r := range s {
		if r != c {
			out += string(r)
		}
	}
	return out
}
