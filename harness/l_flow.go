package main

import (
	"fmt"

	"github.com/intel/forGoParallel/pipeline"
	"github.com/intel/forGoParallel/zz_verif/mct"
)

const nodeKinds = "OSPLX"

// mkNode makes a node of the given kind: ordered, sequential, parallel, limited
// parallel or strictly ordered.
func mkNode[T any](kind byte, filters ...pipeline.Filter[T]) pipeline.Node[T] {
	switch kind {
	case 'O':
		return pipeline.Ord(filters...)
	case 'S':
		return pipeline.Seq(filters...)
	case 'P':
		return pipeline.Par(filters...)
	case 'L':
		return pipeline.LimitedPar(filters...)
	case 'X':
		return pipeline.StrictOrd(filters...)
	}
	panic("unknown kind")
}

// sequential reports whether a node of this kind runs one receiver at a time.
func sequential(kind byte) bool { return kind != 'P' && kind != 'L' }

// ordered reports whether a node of this kind sees batches in encounter order.
func ordered(kind byte) bool { return kind == 'O' || kind == 'X' }

// counted returns a source of n batches "0", "1", ... with one element each.
func counted(n int, known bool) *pipeline.Func[string] {
	var prep func(ctx0) int
	if known {
		prep = func(ctx0) int { return n }
	}
	next := 0
	return pipeline.NewFunc(prep, func(int) (string, int, error) {
		if next == n {
			return "", 0, nil
		}
		next++
		return fmt.Sprint(next - 1), 1, nil
	})
}

func newPipe(n int, known bool) *pipeline.Pipeline[string] {
	p := pipeline.New(counted(n, known))
	p.NofBatches(max(n, 1))
	p.SetVariableBatchSize(1, 1)
	return p
}

// chooseKinds chooses a string of n node kinds.
func chooseKinds(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = nodeKinds[mct.Choose(len(nodeKinds))]
	}
	return string(b)
}

// exactlyOnce checks that the bag holds every batch at every stage once, with
// the data the earlier stages made.
func exactlyOnce(got *mct.Bag, kinds string, nb int, what string) {
	for b := range nb {
		data := fmt.Sprint(b)
		for s := range kinds {
			n := got.Count("%d %d %s", s, b, data)
			mct.Assert(n == 1, "%s: stage %d received batch %d with data %q %d times; all received: %v", what, s, b, data, n, got.Map())
			data += string(rune('a' + s))
		}
	}
	mct.Assert(got.Len() == nb*len(kinds), "%s: unexpected deliveries: %v", what, got.Map())
}

// flow runs a pipeline of the given kinds and checks deliveries.
func flow(kinds string, nb int, known bool, hold holder) {
	got := mct.NewBag()
	p := newPipe(nb, known)
	for s := range kinds {
		mark := string(rune('a' + s))
		p.Add(mkNode(kinds[s], pipeline.Receive(func(seqNo int, data string) string {
			got.Add("%d %d %s", s, seqNo, data)
			hold.at(s, seqNo)
			return data + mark
		})))
	}
	p.Run()
	mct.Assert(p.Err() == nil, "%s: error %v", kinds, p.Err())
	exactlyOnce(got, kinds, nb, fmt.Sprintf("%s with %d batches", kinds, nb))
	mct.Out("%s %d", kinds, nb)
}

// order checks the encounter order at the ordered stages, and keeps state
// without synchronisation in all one-at-a-time stages.
func order(kinds string, nb int, known bool, hold holder) {
	p := newPipe(nb, known)
	count := make([]int, len(kinds))
	last := ""
	for s := range kinds {
		p.Add(mkNode(kinds[s], pipeline.Receive(func(seqNo int, data string) string {
			hold.at(s, seqNo)
			if sequential(kinds[s]) {
				if ordered(kinds[s]) {
					mct.Assert(seqNo == count[s], "%s: stage %d received batch %d after %d batches", kinds, s, seqNo, count[s])
				}
				count[s]++
				if s == len(kinds)-1 {
					last += data
				}
			}
			return data
		})))
	}
	p.Run()
	for s := range kinds {
		mct.Assert(!sequential(kinds[s]) || count[s] == nb, "%s: stage %d ran %d times for %d batches", kinds, s, count[s], nb)
	}
	if nb > 4 {
		last = "" // these scenarios do not explore all orders
	}
	mct.Out("%s %d %s", kinds, nb, last)
}

// exclusion checks that one-at-a-time stages never overlap with themselves, and
// that state they keep without synchronisation is free of races.
func exclusion(kinds string, nb int, known bool, hold holder) {
	p := newPipe(nb, known)
	inside := make([]int, len(kinds))
	sum := make([]int, len(kinds))
	for s := range kinds {
		p.Add(mkNode(kinds[s], pipeline.Receive(func(seqNo int, data string) string {
			hold.at(s, seqNo)
			if sequential(kinds[s]) {
				inside[s]++
				mct.Assert(inside[s] == 1, "%s: %d receivers of stage %d are active together", kinds, inside[s], s)
				mct.Yield()
				sum[s] += seqNo + 1
				inside[s]--
			} else {
				mct.Yield()
			}
			hold.at(s, seqNo)
			return data
		})))
	}
	p.Run()
	for s := range kinds {
		mct.Assert(!sequential(kinds[s]) || sum[s] == nb*(nb+1)/2, "%s: state of stage %d is %d after %d batches", kinds, s, sum[s], nb)
	}
	mct.Out("%s %d", kinds, nb)
}

// final checks the finalizers.
func final(kinds string, nb int, known bool, hold holder) {
	p := newPipe(nb, known)
	slots := make([][]int, len(kinds))
	fins := make([]int, len(kinds))
	for s := range kinds {
		slots[s] = make([]int, nb)
		p.Add(mkNode(kinds[s], pipeline.ReceiveAndFinalize(func(seqNo int, data string) string {
			mct.Assert(fins[s] == 0, "%s: stage %d received batch %d after its finalizer", kinds, s, seqNo)
			mct.Yield()
			slots[s][seqNo]++
			hold.at(s, seqNo)
			return data
		}, func() {
			fins[s]++
			for b, n := range slots[s] {
				mct.Assert(n == 1, "%s: finalizer of stage %d runs when batch %d was received %d times", kinds, s, b, n)
			}
		})))
	}
	p.Run()
	for s := range fins {
		mct.Assert(fins[s] == 1, "%s: finalizer of stage %d ran %d times", kinds, s, fins[s])
	}
	mct.Out("%s %d", kinds, nb)
}

// finalizers runs a pipeline with several filters per stage, which may have a
// receiver, a finalizer, both, or none, and checks that finalizers run in the
// order of their filters.
func finalizers(kinds string, filters, nb int) {
	var log, want []int
	p := newPipe(nb, mct.Choose(2) == 1)
	got := mct.NewBag()
	receivers := make([]int, len(kinds))
	for s := range kinds {
		var fs []pipeline.Filter[string]
		for range filters {
			i := len(want)
			f := pipeline.Finalizer(func() {
				n := got.Count("%d", s)
				mct.Assert(n == nb*receivers[s], "%s: finalizer %d runs after %d calls of the %d receivers of its stage", kinds, i, n, receivers[s])
				log = append(log, i)
			})
			r := pipeline.Receiver[string](func(_ int, d string) string { got.Add("%d", s); return d })
			switch mct.Choose(4) {
			case 0:
				f = nil
			case 1:
				r = nil
			case 2:
				f, r = nil, nil
			}
			if f != nil {
				want = append(want, i)
			}
			if r != nil {
				receivers[s]++
			}
			fs = append(fs, pipeline.ReceiveAndFinalize(r, f))
		}
		p.Add(mkNode(kinds[s], fs...))
	}
	p.Run()
	mct.Assert(eqInts(log, want), "%s: finalizers ran as %v, want %v", kinds, log, want)
	mct.Out("%s %v", kinds, log)
}

// shapes registers a pipeline check for all sequences of node kinds.
// A holder is called by each receiver before it returns; it may block.
type holder func(s, seqNo int)

func (h holder) at(s, seqNo int) {
	if h != nil {
		h(s, seqNo)
	}
}

func shapes(prop string, f func(kinds string, nb int, known bool, hold holder)) {
	reg(prop, "one", mct.Scenario{Body: func() {
		f(chooseKinds(1), mct.Choose(mct.Tier(4, 5)), mct.Choose(2) == 1, nil)
	}})
	reg(prop, "one/cpu3", mct.Scenario{NumCPU: 3, PB: 3, Body: func() {
		f(chooseKinds(1), mct.Choose(mct.Tier(4, 5)), mct.Choose(2) == 1, nil)
	}})
	for _, k := range nodeKinds {
		reg(prop, fmt.Sprintf("two/%c", k), mct.Scenario{PB: mct.Tier(3, 4), Body: func() {
			f(string(k)+chooseKinds(1), 2+mct.Choose(2), false, nil)
		}})
		reg(prop, fmt.Sprintf("three/%c", k), mct.Scenario{PB: 2, Body: func() {
			f(string(k)+chooseKinds(2), 2+mct.Choose(2), false, nil)
		}})
		for _, j := range nodeKinds {
			reg(prop, fmt.Sprintf("deep/%c%c", k, j), mct.Scenario{Thorough: true, PB: 3, Body: func() {
				f(string(k)+string(j)+chooseKinds(1+mct.Choose(2)), 2+mct.Choose(2), mct.Choose(2) == 1, nil)
			}})
		}
	}
	// batches leave a parallel stage in any order
	overtake := func(n int, choose func(n int) []int) func() {
		return func() {
			nb := n
			rank := choose(nb)
			var turn mct.Cell
			kinds := "P" + chooseKinds(1)
			f(kinds, nb, mct.Choose(2) == 1, func(s, seqNo int) {
				if s == 0 {
					turn.Wait(rank[seqNo])
					turn.Inc()
				}
			})
		}
	}
	reg(prop, "overtake", mct.Scenario{Default: true, Body: overtake(mct.Tier(5, 6), permutation)})
	reg(prop, "overtake/schedules", mct.Scenario{PB: 1, Body: overtake(4, permutation)})
	if prop == "L04" {
		reg(prop, "overtake/many", mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: overtake(1100, func(n int) []int {
			// reversed, or the first one last
			rank := make([]int, n)
			how := mct.Choose(2)
			for i := range rank {
				rank[i] = (i + n - 1) % n
				if how == 1 {
					rank[i] = n - 1 - i
				}
			}
			return rank
		})})
	}
	for _, n := range []int{12, 20, 37, 150} {
		reg(prop, fmt.Sprintf("overtake/%d", n), mct.Scenario{Default: true, Body: overtake(n, func(n int) []int {
			// reversed, rotated, pairs swapped, evens first, halves reversed, one late, one early
			rank := make([]int, n)
			how := mct.Choose(7)
			var k int
			if n > 37 {
				k = []int{1, n / 2, n - 1}[mct.Choose(3)]
			} else {
				k = 1 + mct.Choose(n-1)
			}
			for i := range rank {
				switch how {
				case 0:
					rank[i] = n - 1 - i
				case 1:
					rank[i] = (i + k) % n
				case 2:
					rank[i] = min(i^1, n-1)
				case 3:
					rank[i] = i / 2
					if i%2 == 1 {
						rank[i] = (n+1)/2 + i/2
					}
				case 4:
					rank[i] = i
					if i < k {
						rank[i] = k - 1 - i
					}
				case 5: // the first one comes after k others
					rank[i] = i
					if i == 0 {
						rank[i] = k
					} else if i <= k {
						rank[i] = i - 1
					}
				case 6: // number k comes first
					rank[i] = i
					if i == k {
						rank[i] = 0
					} else if i < k {
						rank[i] = i + 1
					}
				}
			}
			if how == 2 && n%2 == 1 {
				rank[n-1] = n - 1
			}
			return rank
		})})
	}
	reg(prop, "two/cpu1", mct.Scenario{NumCPU: 1, PB: 1, Body: func() {
		f(chooseKinds(2), mct.Tier(2, 3), mct.Choose(2) == 1, nil)
	}})
	reg(prop, "two/cpu4", mct.Scenario{NumCPU: 4, PB: 1, Thorough: true, Body: func() {
		f(chooseKinds(2), 3, mct.Choose(2) == 1, nil)
	}})
	// one pipeline after another that may have been cancelled or failed
	reg(prop, "again", mct.Scenario{Default: true, Body: func() {
		k := "P" + chooseKinds(1)
		ranks := [2][]int{permutation(3), permutation(3)}
		disturb(k, 3, mct.Choose(3), mct.Choose(2), mct.Choose(3), ranks[0])
		f(k, 3, false, inTurn(ranks[1]))
	}})
	reg(prop, "again/schedules", mct.Scenario{PB: 1, Body: func() {
		k := chooseKinds(1)
		disturb(k, 2, 1+mct.Choose(2), 0, mct.Choose(2), nil)
		f(k, 2, false, nil)
	}})
	// two pipelines at the same time
	reg(prop, "concurrent", mct.Scenario{PB: 1, Body: func() {
		k := [2]string{chooseKinds(1), chooseKinds(1)}
		twice(true, func(i int) { f(k[i], 2, false, nil) })
	}})
	reg(prop, "concurrent/more", mct.Scenario{Thorough: true, PB: 2, Body: func() {
		k := [2]string{chooseKinds(1), chooseKinds(1)}
		twice(true, func(i int) { f(k[i], 2, false, nil) })
	}})
	// a pipeline within a receiver of another one
	nested := func() {
		outer, inner := chooseKinds(1), chooseKinds(1)
		p := newPipe(2, false)
		n := mct.NewBag()
		p.Add(mkNode(outer[0], pipeline.Receive(func(_ int, d string) string {
			f(inner, 2, false, nil)
			n.Add("x")
			return d
		})))
		p.Run()
		mct.Assert(n.Len() == 2, "%s: the outer pipeline received %d batches", outer, n.Len())
	}
	reg(prop, "nested", mct.Scenario{Default: true, Body: nested})
	reg(prop, "nested/schedules", mct.Scenario{Thorough: true, PB: 1, Body: nested})
	// many stages
	reg(prop, "stages", mct.Scenario{Default: true, Body: func() {
		n := []int{5, 8, 13, 26}[mct.Choose(4)]
		first, step := mct.Choose(5), mct.Choose(5)
		b := make([]byte, n)
		for i := range b {
			b[i] = nodeKinds[(first+i*step)%5]
		}
		f(string(b), []int{0, 1, 4}[mct.Choose(3)], mct.Choose(2) == 1, nil)
	}})
	reg(prop, "stages/four", mct.Scenario{Default: true, Body: func() {
		f(chooseKinds(4), 2, false, nil)
	}})
	// many batches
	reg(prop, "batches", mct.Scenario{Default: true, Body: func() {
		f(chooseKinds(1+mct.Choose(2)), 300, mct.Choose(2) == 1, nil)
	}})
	if prop == "L01" || prop == "L02" {
		reg(prop, "batches/many", mct.Scenario{Default: true, NoFree: true, Horizon: 2000000, Body: func() {
			f(chooseFrom("OSLX", 1), 66000, true, nil)
		}})
	}
	reg(prop, "long", mct.Scenario{Default: true, Body: func() {
		f(chooseKinds(1+mct.Choose(4)), 5+3*mct.Choose(2), mct.Choose(2) == 1, nil)
	}})
}

// inTurn holds the batches of the first stage until it is their turn.
func inTurn(rank []int) holder {
	var turn mct.Cell
	return func(s, seqNo int) {
		if s == 0 {
			turn.Wait(rank[seqNo])
			turn.Inc()
		}
	}
}

// disturb runs a pipeline that a receiver of the given stage may cancel or let
// fail at the given batch. The first stage forwards batches in the given order.
func disturb(kinds string, nb, how, stage, at int, rank []int) {
	p := newPipe(nb, false)
	var turn mct.Cell
	for s := range kinds {
		p.Add(mkNode(kinds[s], pipeline.Receive(func(seqNo int, d string) string {
			if s == 0 && rank != nil {
				turn.Wait(rank[seqNo])
			}
			if s == stage && seqNo == at {
				switch how {
				case 1:
					p.Cancel()
					turn.Add(nb)
				case 2:
					p.SetErr(seqNum(1))
					turn.Add(nb)
				}
			}
			if s == 0 {
				turn.Inc()
			}
			return d
		})))
	}
	p.Run()
}

// values sends batches of the given values through nodes with several filters
// each, which return what the table says.
func values(kinds string, filters, nb int) {
	what := fmt.Sprintf("%s with %d filters each, %d batches", kinds, filters, nb)
	// all the ways to be empty, and not
	vals := []any{nil, "", 0, []int(nil), []int{}, "x", (*int)(nil), error(nil)}
	at := func(stage, b int) int { return (stage*3 + b*5) % len(vals) }
	same := func(a, b any) bool { return fmt.Sprintf("%T %v", a, a) == fmt.Sprintf("%T %v", b, b) }
	next := 0
	p := pipeline.New(pipeline.NewFunc(nil, func(int) (any, int, error) {
		if next == nb {
			return nil, 0, nil
		}
		next++
		return vals[at(0, next-1)], 1, nil
	}))
	got := mct.NewBag()
	stage := 0
	for s := range kinds {
		var fs []pipeline.Filter[any]
		for range filters {
			i := stage
			stage++
			fs = append(fs, pipeline.Receive(func(seqNo int, d any) any {
				mct.Assert(same(d, vals[at(i, seqNo)]), "%s: filter %d received %T %v for batch %d", what, i, d, d, seqNo)
				got.Add("%d %d", i, seqNo)
				return vals[at(i+1, seqNo)]
			}))
		}
		p.Add(mkNode(kinds[s], fs...))
	}
	p.Run()
	mct.Assert(p.Err() == nil, "%s: error %v", what, p.Err())
	for i := range stage {
		for b := range nb {
			mct.Assert(got.Count("%d %d", i, b) == 1, "%s: filter %d received batch %d %d times", what, i, b, got.Count("%d %d", i, b))
		}
	}
	mct.Out("%s", what)
}

func init() {
	reg("L01", "values", mct.Scenario{Default: true, Body: func() {
		values(chooseKinds(1+mct.Choose(2)), 1+mct.Choose(6), []int{1, 4, 9}[mct.Choose(3)])
	}})
	reg("L01", "values/schedules", mct.Scenario{PB: 2, Body: func() {
		values(chooseKinds(1), 1+mct.Choose(4), 3)
	}})
	shapes("L01", flow)
	shapes("L02", order)
	shapes("L03", exclusion)
	shapes("L05", final)
	reg("L05", "order", mct.Scenario{Default: true, Body: func() {
		finalizers(chooseKinds(1+mct.Choose(mct.Tier(2, 3))), 1+mct.Choose(2), mct.Choose(3))
	}})
	reg("L05", "order/three", mct.Scenario{Default: true, Body: func() {
		finalizers(chooseKinds(3), 1, 2)
	}})
	reg("L05", "order/schedules", mct.Scenario{PB: mct.Tier(2, 3), Body: func() {
		finalizers(chooseKinds(1+mct.Choose(2)), 1, 2)
	}})
}
