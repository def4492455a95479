package main

import (
	"context"
	"fmt"
	"math"
	"slices"
	"strings"

	"github.com/intel/forGoParallel/pipeline"
	"github.com/intel/forGoParallel/zz_verif/mct"
)

// void has no size, so slices of it may be of any length.
type void = struct{}

var hugeSizes = []int{4096, 1 << 20, 1 << 31, 1 << 32, 1 << 40, math.MaxInt/2 + 1, math.MaxInt - 1, math.MaxInt}

// voids is a source of batches of the given lengths.
func voids(sizes []int, known bool) *pipeline.Pipeline[[]void] {
	var prep func(ctx0) int
	total := 0
	for _, s := range sizes {
		total += s
	}
	if known {
		prep = func(ctx0) int { return total }
	}
	next := 0
	return pipeline.New(pipeline.NewFunc(prep, func(int) ([]void, int, error) {
		if next == len(sizes) {
			return nil, 0, nil
		}
		next++
		return make([]void, sizes[next-1]), sizes[next-1], nil
	}))
}

func init() {
	// L08: requests for far more than there is
	reg("L08", "huge", mct.Scenario{Default: true, Body: func() {
		n := mct.Choose(4)
		size := hugeSizes[mct.Choose(len(hugeSizes))]
		kind := nodeKinds[mct.Choose(5)]
		how := mct.Choose(5)
		direct := mct.Choose(2) == 1
		what := fmt.Sprintf("%d elements of source %d, %d requested, %c", n, how, size, kind)
		var got []string
		text := strings.NewReader(strings.Join(lines(n), "\n"))
		switch how {
		case 0:
			drain(pipeline.NewScanner(text), kind, size, direct, func(data []string) { got = append(got, data...) })
		case 1:
			drain(pipeline.NewBytesScanner(text), kind, size, direct, func(data [][]byte) {
				for _, d := range data {
					got = append(got, string(d))
				}
			})
		case 2:
			drain(pipeline.NewSlice(lines(n)), kind, size, direct, func(data []string) { got = append(got, data...) })
		default:
			ch := make(chan string, n)
			for _, l := range lines(n) {
				ch <- l
			}
			close(ch)
			if how == 3 {
				drain(pipeline.NewMultiChan(ch), kind, size, direct, func(data []string) { got = append(got, data...) })
			} else {
				drain(pipeline.NewChan(ch), kind, size, direct, func(data string) { got = append(got, data) })
			}
		}
		if !ordered(kind) {
			slices.Sort(got)
		}
		mct.Assert(join(got) == join(lines(n)), "%s: received %v", what, got)
		mct.Out("%s", what)
	}})

	// L09: increments and limits near the largest int
	reg("L09", "variable/huge", mct.Scenario{Default: true, Body: func() {
		some := []int{1, 512, 1 << 31, 1 << 32, 1 << 53, math.MaxInt/2 + 1, math.MaxInt - 1, math.MaxInt}
		inc, limit := some[mct.Choose(len(some))], some[mct.Choose(len(some))]
		rounds := mct.Choose(5)
		i := 0
		want := min(inc, limit)
		p := pipeline.New(pipeline.NewFunc(nil, func(size int) (int, int, error) {
			mct.Assert(size == want, "increment %d, limit %d: request %d is for %d elements, want %d", inc, limit, i, size, want)
			if want > limit-inc {
				want = limit
			} else {
				want += inc
			}
			i++
			if i > rounds {
				return 0, 0, nil
			}
			return i, 1, nil
		}))
		p.SetVariableBatchSize(inc, limit)
		seen := 0
		p.Add(mkNode("OSX"[mct.Choose(3)], pipeline.Receive(func(_ int, d int) int { seen++; return d })))
		p.Run()
		mct.Assert(seen == rounds && i == rounds+1, "increment %d, limit %d: %d requests, %d batches of %d", inc, limit, i, seen, rounds)
		mct.Out("%d %d %d", inc, limit, rounds)
	}})

	// L11, L12: numbers of elements beyond 32 bits
	lengths := []int{1, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1 << 40}
	chooseLengths := func() (sizes []int, total int) {
		for range 1 + mct.Choose(2) {
			s := lengths[mct.Choose(len(lengths))]
			sizes = append(sizes, s)
			total += s
		}
		return
	}
	reg("L11", "huge", mct.Scenario{Default: true, NoRace: true, Body: func() {
		sizes, total := chooseLengths()
		known := mct.Choose(2) == 1
		kind := nodeKinds[mct.Choose(5)]
		p := voids(sizes, known)
		count := -7
		p.Add(mkNode(kind, pipeline.Count[void](&count)))
		p.Run()
		mct.Assert(count == total, "%c: Count of batches of %v elements, known size %v, is %d", kind, sizes, known, count)
		mct.Out("%c %v %v", kind, sizes, known)
	}})
	reg("L12", "huge", mct.Scenario{Default: true, NoRace: true, Body: func() {
		sizes, total := chooseLengths()
		known := mct.Choose(2) == 1
		kind := nodeKinds[mct.Choose(5)]
		arg := []int{0, 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 2, 1<<40 + 1, 1 << 62, math.MaxInt}[mct.Choose(10)]
		limit := mct.Choose(2) == 0
		what := fmt.Sprintf("%c: Limit %v, %d, of batches of %v elements, known size %v", kind, limit, arg, sizes, known)
		p := voids(sizes, known)
		want := min(total, arg)
		if limit {
			p.Add(pipeline.Limit[void](arg, false))
		} else {
			p.Add(pipeline.Skip[void](arg))
			want = total - want
		}
		announced := -1
		got := mct.NewBag()
		p.Add(mkNode(kind, func(_ *pipeline.Pipeline[[]void], _ pipeline.NodeKind, size *int) (pipeline.Receiver[[]void], pipeline.Finalizer) {
			announced = *size
			return func(seqNo int, d []void) []void { got.Add("%d %d", seqNo, len(d)); return d }, nil
		}))
		p.Run()
		sum := 0
		for k := range got.Map() {
			var seqNo, n int
			fmt.Sscanf(k, "%d %d", &seqNo, &n)
			sum += n
		}
		mct.Assert(p.Err() == nil && sum == want, "%s: %d elements pass, want %d (error %v)", what, sum, want, p.Err())
		mct.Assert(announced < 0 || announced == want, "%s: %d elements announced, want %d", what, announced, want)
		mct.Out("%s", what)
	}})

	// L16: notifiers run for every run, whatever there is to do in it
	reg("L16", "always", mct.Scenario{PB: 2, Body: func() {
		n := []int{0, 1, -1}[mct.Choose(3)] // batches, -1: nothing, of unknown size
		fill := mct.Choose(6)
		tf := mct.Choose(3) // no transformation, one that is all there is, one with stages on both sides
		p := newPipe(max(n, 0), n >= 0)
		q := p
		if tf > 0 {
			if tf == 2 {
				p.Add(pipeline.Par(pipeline.Receive(func(_ int, d string) string { return d })))
			}
			q = pipeline.Transform(p, func(_ int, d string) string { return d })
		}
		calls := mct.NewBag()
		done := make(chan bool, 3)
		note := func(r *pipeline.Pipeline[string], name string) {
			r.Notify(func() {
				mct.Assert(r.Context() != nil, "no context in a notifier")
				calls.Add("%s", name)
				done <- true
			})
		}
		note(p, "first")
		note(q, "second")
		fails := false
		switch fill {
		case 0: // no stage at all
		case 1:
			q.Add(mkNode(nodeKinds[mct.Choose(5)], pipeline.Identity[string]))
		case 2:
			q.Add(mkNode[string](nodeKinds[mct.Choose(5)]), mkNode(nodeKinds[mct.Choose(5)], pipeline.Receive[string](nil)))
		case 3:
			q.Add(mkNode(nodeKinds[mct.Choose(5)], pipeline.Receive(func(_ int, d string) string { return d })))
		case 4: // only a finalizer
			q.Add(mkNode(nodeKinds[mct.Choose(5)], pipeline.Finalize[string](func() {})))
		case 5: // a filter reports an error before anything starts
			fails = true
			q.Add(mkNode(nodeKinds[mct.Choose(5)], func(p *pipeline.Pipeline[string], _ pipeline.NodeKind, _ *int) (pipeline.Receiver[string], pipeline.Finalizer) {
				p.SetErr(seqNum(4))
				return nil, nil
			}))
		}
		note(q, "third")
		mct.Assert(calls.Len() == 0, "notified before the start")
		if mct.Choose(2) == 0 {
			p.Run()
		} else {
			q.Run()
		}
		for range 3 {
			<-done
		}
		mct.Assert((q.Err() != nil) == fails, "error %v", q.Err())
		mct.Final(func() {
			mct.Assert(calls.Len() == 3 && calls.Count("first") == 1 && calls.Count("second") == 1 && calls.Count("third") == 1, "notified: %v", calls.Map())
		})
		mct.Out("%d %d %d", n, fill, tf)
	}})
}

// drain takes everything from a source, directly or in a pipeline.
func drain[T any](src pipeline.Source[T], kind byte, size int, direct bool, take func(T)) {
	if direct {
		src.Prepare(context.Background())
		for src.Fetch(size) > 0 {
			take(src.Data())
		}
		return
	}
	p := pipeline.New(src)
	p.NofBatches(1)
	p.SetVariableBatchSize(size, size)
	var got mct.Cell
	var all [8]T
	p.Add(mkNode(kind, pipeline.Receive(func(_ int, d T) T { all[got.Add(1)-1] = d; return d })))
	p.Run()
	mct.Assert(p.Err() == nil, "error %v", p.Err())
	for i := range got.Get() {
		take(all[i])
	}
}

// patient is a source of batches of the numbers 0..n-1 that then waits for the
// pipeline to be cancelled, as if there might be more.
func patient(n, size, announced int) *pipeline.Pipeline[[]int] {
	next := 0
	var ctx ctx0
	return pipeline.New(pipeline.NewFunc(func(c ctx0) int { ctx = c; return announced }, func(int) ([]int, int, error) {
		if next >= n {
			<-ctx.Done()
			return nil, 0, nil
		}
		var b []int
		for range size {
			b = append(b, next)
			next++
		}
		return b, size, nil
	}))
}

func init() {
	// L10, L12: a pipeline that is cancelled by a filter need not wait for its
	// source to end
	through := func(p *pipeline.Pipeline[[]int], before string) *pipeline.Pipeline[[]int] {
		for s := range before {
			p.Add(mkNode(before[s], pipeline.Receive(func(_ int, d []int) []int { mct.Yield(); return d })))
		}
		switch mct.Choose(3) {
		case 1:
			return pipeline.Transform(p, func(_ int, d []int) []int { return d })
		case 2:
			return pipeline.OrdTransform(p, func(_ int, d []int) []int { return d })
		}
		return p
	}
	limited := func(before string, after string) {
		size := 1 + mct.Choose(2)
		skip := mct.Choose(3) - 1
		limit := mct.Choose(4)
		n := limit + max(skip, 0)
		announced := []int{-1, n + size + 1, 1 << 40}[mct.Choose(3)]
		p := patient(n, size, announced)
		q := through(p, before)
		what := fmt.Sprintf("%s, Skip(%d), Limit(%d) of endless batches of %d, %d announced, %s", before, skip, limit, size, announced, after)
		if skip >= 0 {
			q.Add(pipeline.Skip[int](skip))
		}
		q.Add(pipeline.Limit[int](limit, true))
		slots := make([][]int, n+2)
		for s := range after {
			q.Add(mkNode(after[s], pipeline.Receive(func(seqNo int, d []int) []int { slots[seqNo] = d; return d })))
		}
		q.Run()
		mct.Assert(q.Err() == nil, "%s: error %v", what, q.Err())
		for i, x := range flatten(slots) {
			mct.Assert(x >= max(skip, 0) && x < n, "%s: received %v", what, slots)
			if ordered(after[0]) {
				mct.Assert(x == max(skip, 0)+i, "%s: received %v", what, slots)
			}
		}
		mct.Out("%s", what)
	}
	reg("L12", "endless", mct.Scenario{Default: true, Body: func() {
		limited(chooseKinds(mct.Choose(2)), chooseKinds(1))
	}})
	for _, k := range nodeKinds {
		reg("L12", fmt.Sprintf("endless/%c", k), mct.Scenario{PB: 2, Body: func() {
			limited(string(k), "S")
		}})
	}
	decided := func(before string, kind byte) {
		which := mct.Choose(4)
		at := mct.Choose(3)
		last := at + mct.Choose(2)
		p := patient(last+1, 1, -1)
		q := through(p, before)
		result := mct.Choose(2) == 1
		test := func(d []int) bool { return (len(d) > 0 && d[0] == at) == (which >= 2) }
		filter := []func(*bool, bool, pipeline.Predicate[[]int]) pipeline.Filter[[]int]{
			pipeline.Every[[]int], pipeline.NotEvery[[]int], pipeline.Some[[]int], pipeline.NotAny[[]int]}[which]
		q.Add(mkNode(kind, filter(&result, true, test)))
		q.Run()
		what := fmt.Sprintf("%s, filter %d in %c, batch %d decides, endless source", before, which, kind, at)
		mct.Assert(q.Err() == nil && result == (which == 1 || which == 2), "%s: %v (error %v)", what, result, q.Err())
		mct.Out("%s", what)
	}
	reg("L10", "endless", mct.Scenario{Default: true, Body: func() {
		decided(chooseKinds(mct.Choose(2)), nodeKinds[mct.Choose(5)])
	}})
	for _, k := range nodeKinds {
		reg("L10", fmt.Sprintf("endless/%c", k), mct.Scenario{PB: 2, Body: func() {
			decided("", byte(k))
		}})
	}
}
