package main

import (
	"fmt"
	"strings"

	"github.com/intel/forGoParallel/pipeline"
	"github.com/intel/forGoParallel/zz_verif/mct"
)

// protoSource is a source that checks how it is used. Its fields are accessed
// without synchronisation.
type protoSource struct {
	size    int // announced
	short   bool
	left    int // elements
	next    int
	failAt  int // Fetch number that fails, if positive
	before  bool
	err     error
	state   string
	fetches int
	batch   []int
	ctx     ctx0
	hook    func(fetch int)
	what    string
}

func (s *protoSource) expect(states, call string) {
	mct.Assert(strings.Contains(states, s.state), "%s: %s called %s", s.what, call, s.state)
}

func (s *protoSource) Prepare(ctx ctx0) int {
	s.expect("at first", "Prepare")
	mct.Assert(ctx != nil, "%s: Prepare called without a context", s.what)
	s.state = "after Prepare"
	s.ctx = ctx
	return s.size
}

func (s *protoSource) Fetch(n int) int {
	s.expect("after Prepare, after Data", "Fetch")
	mct.Assert(n > 0, "%s: Fetch called with size %d", s.what, n)
	s.fetches++
	if s.hook != nil {
		s.hook(s.fetches)
	}
	if s.failAt == s.fetches {
		s.err = seqNum(s.failAt)
		s.state = "after an error"
		if s.before {
			return 0
		}
	}
	if s.short {
		n = 1 + n/2
	}
	n = min(n, s.left)
	if s.err == nil {
		s.state = "after Fetch"
	}
	if n == 0 {
		s.state = "at the end"
	}
	s.left -= n
	s.batch = nil
	for range n {
		s.batch = append(s.batch, s.next)
		s.next++
	}
	return n
}

func (s *protoSource) Data() []int {
	s.expect("after Fetch, after Data, after an error", "Data")
	if s.err == nil {
		s.state = "after Data"
	}
	return s.batch
}

func (s *protoSource) Err() error { return s.err }

func (s *protoSource) start(what string) *protoSource {
	s.state = "at first"
	s.what = what
	return s
}

// monitor is a node that checks how it is used, and forwards to a node of this
// package or on its own. Fields without synchronisation are accessed by Begin
// and End, and in slots for each batch.
type monitor struct {
	inner    pipeline.Node[[]int] // or
	mode     byte                 // 'i' forwards inline, 'a' in another goroutine, 'd' is dropped
	begun    int
	ended    int
	index    int
	position int
	before   *monitor
	fed      []int
	wait     chan struct{}
	pending  int
	what     string
	pipe     *pipeline.Pipeline[[]int]
}

func (m *monitor) TryMerge(pipeline.Node[[]int]) bool { return false }

func (m *monitor) Begin(p *pipeline.Pipeline[[]int], index int, size *int) bool {
	m.begun++
	mct.Assert(m.begun == 1, "%s: Begin called %d times", m.what, m.begun)
	mct.Assert(p == m.pipe && p.Context() != nil, "%s: Begin called with another pipeline", m.what)
	mct.Assert(index >= 0, "%s: Begin called with index %d", m.what, index)
	mct.Assert(m.before == nil || m.before.begun == 1, "%s: Begin called before the one of the node in front", m.what)
	if m.mode == 'd' {
		return false
	}
	if m.inner != nil {
		return m.inner.Begin(p, index, size)
	}
	m.wait = make(chan struct{}, len(m.fed))
	return true
}

func (m *monitor) StrictOrd() bool { return m.inner != nil && m.inner.StrictOrd() }

func (m *monitor) Feed(p *pipeline.Pipeline[[]int], index, seqNo int, data []int) {
	mct.Assert(m.begun == 1 && m.ended == 0 && m.mode != 'd', "%s: Feed called after %d Begin and %d End", m.what, m.begun, m.ended)
	mct.Assert(p == m.pipe, "%s: Feed called with another pipeline", m.what)
	mct.Assert(seqNo >= 0 && seqNo < len(m.fed), "%s: Feed called with batch %d", m.what, seqNo)
	m.fed[seqNo]++
	switch {
	case m.inner != nil:
		m.inner.Feed(p, index, seqNo, data)
	case m.mode == 'a':
		go func() {
			p.FeedForward(index, seqNo, data)
			m.wait <- struct{}{}
		}()
	default:
		p.FeedForward(index, seqNo, data)
	}
}

func (m *monitor) End() {
	mct.Assert(m.mode != 'd', "%s: End of a dropped node", m.what)
	mct.Assert(m.begun == 1 && m.ended == 0, "%s: End called after %d Begin and %d End", m.what, m.begun, m.ended)
	mct.Assert(m.before == nil || m.before.ended == 1 || m.before.mode == 'd', "%s: End called before the one of the node in front", m.what)
	n := 0
	for b, f := range m.fed {
		mct.Assert(f <= 1, "%s: batch %d fed %d times", m.what, b, f)
		n += f
	}
	switch {
	case m.inner != nil:
		m.inner.End()
	case m.mode == 'a':
		for range n {
			<-m.wait
		}
	}
	m.ended++
}

// userNodes runs a pipeline of nodes given by letters: upper case ones are
// nodes of the package, lower case ones i, a, d are nodes of the user, and
// o, s, p, l, x are nodes of the package within nodes of the user.
func userNodes(kinds string, nb int, known bool) {
	what := fmt.Sprintf("%s with %d batches", kinds, nb)
	src := (&protoSource{size: -1, left: nb}).start(what)
	if known {
		src.size = nb
	}
	p := pipeline.New[[]int](src)
	p.NofBatches(max(nb, 1))
	p.SetVariableBatchSize(1, 1)
	got := mct.NewBag()
	fins := make([]int, len(kinds))
	counts := make([]int, len(kinds))
	effective := 0
	var last *monitor
	var all []*monitor
	for s := range kinds {
		k := kinds[s]
		filter := pipeline.ReceiveAndFinalize(func(seqNo int, d []int) []int {
			mct.Assert(len(d) == 1 && d[0] == seqNo, "%s: stage %d received %v as batch %d", what, s, d, seqNo)
			got.Add("%d %d", s, seqNo)
			if up := k &^ 32; sequential(up) {
				mct.Assert(!ordered(up) || counts[s] == seqNo, "%s: stage %d received batch %d after %d batches", what, s, seqNo, counts[s])
				counts[s]++
			}
			return d
		}, func() {
			fins[s]++
			mct.Assert(src.state == "at the end", "%s: finalizer of stage %d runs %s", what, s, src.state)
			mct.Assert(got.Len() >= nb, "%s: finalizer of stage %d runs before all batches", what, s)
		})
		if k < 'a' {
			p.Add(mkNode(k, filter))
			effective++
			continue
		}
		m := &monitor{fed: make([]int, nb), what: fmt.Sprintf("%s: node %d", what, s), pipe: p, before: last, position: s}
		switch k {
		case 'i', 'a':
			m.mode = k
			effective++
		case 'd':
			m.mode = k
		default:
			m.inner = mkNode(k&^32, filter)
			effective++
		}
		p.Add(m)
		last = m
		all = append(all, m)
	}
	p.Run()
	mct.Assert(p.Err() == nil, "%s: error %v", what, p.Err())
	if effective > 0 {
		for s := range kinds {
			if k := kinds[s]; k == 'i' || k == 'a' || k == 'd' {
				continue
			}
			mct.Assert(fins[s] == 1, "%s: finalizer of stage %d ran %d times", what, s, fins[s])
			for b := range nb {
				n := got.Count("%d %d", s, b)
				mct.Assert(n == 1, "%s: stage %d received batch %d %d times", what, s, b, n)
			}
		}
		for _, m := range all {
			mct.Assert(m.begun == 1, "%s: Begin called %d times", m.what, m.begun)
			if m.mode == 'd' {
				continue
			}
			mct.Assert(m.ended == 1, "%s: End called %d times", m.what, m.ended)
			for b, f := range m.fed {
				mct.Assert(f == 1, "%s: batch %d fed %d times", m.what, b, f)
			}
		}
	}
	mct.Out("%s", what)
}

// chooseFrom chooses a string of n of the given letters.
func chooseFrom(letters string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[mct.Choose(len(letters))]
	}
	return string(b)
}

func init() {
	// L19: sources
	source := func(kinds string, s *protoSource, inc, most, batches int) {
		what := fmt.Sprintf("%s, source of %d announcing %d, sizes %d %d, %d batches, failing at %d", kinds, s.left, s.size, inc, most, batches, s.failAt)
		total := s.left
		s.start(what)
		p := pipeline.New[[]int](s)
		p.SetVariableBatchSize(inc, most)
		p.NofBatches(batches)
		got := mct.NewBag()
		for i := range kinds {
			p.Add(mkNode(kinds[i], pipeline.Receive(func(seqNo int, d []int) []int {
				mct.Assert(len(d) > 0, "%s: stage %d received an empty batch", what, i)
				for _, x := range d {
					got.Add("%d %d", i, x)
				}
				return d
			})))
		}
		p.Run()
		mct.Assert(p.Context() == s.ctx, "%s: Prepare was called with another context", what)
		if s.err != nil {
			mct.Assert(p.Err() == s.err, "%s: error %v, want %v", what, p.Err(), s.err)
			mct.Out("%s", what)
			return
		}
		mct.Assert(p.Err() == nil, "%s: error %v", what, p.Err())
		mct.Assert(s.state == "at the end", "%s: Run returned %s", what, s.state)
		for i := range kinds {
			for x := range total {
				mct.Assert(got.Count("%d %d", i, x) == 1, "%s: stage %d received element %d %d times", what, i, x, got.Count("%d %d", i, x))
			}
		}
		mct.Assert(got.Len() == len(kinds)*total, "%s: received %v", what, got.Map())
		mct.Out("%s", what)
	}
	reg("L19", "sizes", mct.Scenario{Default: true, Body: func() {
		// whatever size is announced
		left := mct.Choose(mct.Tier(8, 12))
		size := mct.Choose(mct.Tier(11, 16)) - 1
		s := &protoSource{left: left, size: size, short: mct.Choose(2) == 1}
		source(chooseKinds(1), s, mct.Choose(3), mct.Choose(4), mct.Choose(mct.Tier(4, 6)))
	}})
	reg("L19", "errors", mct.Scenario{Default: true, Body: func() {
		left := mct.Choose(5)
		s := &protoSource{left: left, size: left - mct.Choose(2)*(left+1), failAt: 1 + mct.Choose(6), before: mct.Choose(2) == 1}
		source(chooseKinds(1+mct.Choose(2)), s, 1, 1, max(left, 1))
	}})
	reg("L19", "one", mct.Scenario{Body: func() {
		left := mct.Choose(4)
		s := &protoSource{left: left, size: left - mct.Choose(2)*(left+1), failAt: mct.Choose(4), before: mct.Choose(2) == 1}
		source(chooseKinds(1), s, 1, 1, max(left, 1))
	}})
	reg("L19", "two", mct.Scenario{PB: mct.Tier(2, 3), Body: func() {
		left := mct.Choose(4)
		s := &protoSource{left: left, size: -1, failAt: mct.Choose(4)}
		source(chooseKinds(2), s, 1, 1, 1)
	}})
	reg("L19", "cancelled", mct.Scenario{PB: mct.Tier(3, 4), Body: func() {
		// a source that ends when the pipeline is cancelled, which a
		// receiver or the source itself does
		kinds := chooseKinds(1)
		by := mct.Choose(5)
		what := fmt.Sprintf("%s, cancelled by %d", kinds, by)
		var p *pipeline.Pipeline[[]int]
		s := (&protoSource{left: 3, size: -1}).start(what)
		s.hook = func(n int) {
			if by == n+1 {
				p.Cancel()
			}
			if s.ctx.Err() != nil {
				s.left = 0
			}
		}
		p = pipeline.New[[]int](s)
		p.SetVariableBatchSize(1, 1)
		p.Add(mkNode(kinds[0], pipeline.Receive(func(seqNo int, d []int) []int {
			if seqNo == by {
				p.Cancel()
			}
			return d
		})))
		p.Run()
		mct.Assert(p.Err() == nil, "%s: error %v", what, p.Err())
		mct.Assert(s.state == "at the end", "%s: Run returned %s", what, s.state)
		mct.Out("%s", what)
	}})
	reg("L19", "transform", mct.Scenario{PB: 2, Body: func() {
		kinds := chooseKinds(2)
		which := mct.Choose(2)
		left := mct.Choose(3)
		what := fmt.Sprintf("%s, pipeline %d, %d batches", kinds, which, left)
		s := (&protoSource{left: left, size: -1, failAt: mct.Choose(3)}).start(what)
		p := pipeline.New[[]int](s)
		p.SetVariableBatchSize(1, 1)
		id := pipeline.Receive(func(_ int, d []int) []int { return d })
		p.Add(mkNode(kinds[0], id))
		q := mkTransform('T', p, func(_ int, d []int) int { return len(d) })
		q.Add(mkNode(kinds[1], pipeline.Receive(func(_ int, d int) int { return d })))
		if which == 0 {
			p.Run()
		} else {
			q.Run()
		}
		mct.Assert(p.Context() == s.ctx && q.Context() == s.ctx, "%s: another context", what)
		mct.Assert(p.Err() == s.err && q.Err() == s.err, "%s: errors %v %v, want %v", what, p.Err(), q.Err(), s.err)
		mct.Out("%s", what)
	}})

	// L20: nodes of the user. Those of the package within others are not used
	// before strictly ordered ones, which have to know what is before them.
	fits := func(kinds string) bool {
		i := strings.LastIndexAny(kinds, "Xx")
		return i < 0 || !strings.ContainsAny(kinds[:i], "oslx")
	}
	const every = "OSPLXiadosplx"
	reg("L20", "one", mct.Scenario{Body: func() {
		userNodes(chooseFrom("iadosplx", 1), mct.Choose(4), mct.Choose(2) == 1)
	}})
	for _, k := range every {
		two := func(pb, n, batches int) mct.Scenario {
			return mct.Scenario{PB: pb, Body: func() {
				kinds := string(k) + chooseFrom(every, n)
				if !fits(kinds) {
					return
				}
				userNodes(kinds, 2+mct.Choose(batches), false)
			}}
		}
		reg("L20", fmt.Sprintf("two/%c", k), two(2, 1, 2))
		s := two(3, 1, 2)
		s.Thorough = true
		reg("L20", fmt.Sprintf("two/%c/more", k), s)
		s = two(1, 2, 1)
		reg("L20", fmt.Sprintf("three/%c", k), s)
		s = two(2, 2, 2)
		s.Thorough = true
		reg("L20", fmt.Sprintf("three/%c/more", k), s)
	}
	reg("L20", "long", mct.Scenario{Default: true, Body: func() {
		kinds := chooseFrom(every, mct.Tier(3, 4))
		if !fits(kinds) {
			return
		}
		userNodes(kinds, 5, mct.Choose(2) == 1)
	}})
	reg("L20", "compose", mct.Scenario{Default: true, Body: func() {
		// ComposeFilters calls all filters in order, and keeps what is not nil
		p := newPipe(0, false)
		kind := []pipeline.NodeKind{pipeline.Ordered, pipeline.Sequential, pipeline.Parallel}[mct.Choose(3)]
		n := mct.Choose(5)
		size := 100
		var fs []pipeline.Filter[string]
		var calls, recv, fin, wantR, wantF []int
		for i := range n {
			which := mct.Choose(5)
			if which == 4 {
				fs = append(fs, pipeline.Identity[string])
				calls = append(calls, i)
				size++
				continue
			}
			if which&1 != 0 {
				wantR = append(wantR, i)
			}
			if which&2 != 0 {
				wantF = append(wantF, i)
			}
			fs = append(fs, func(q *pipeline.Pipeline[string], k pipeline.NodeKind, s *int) (r pipeline.Receiver[string], f pipeline.Finalizer) {
				mct.Assert(q == p && k == kind && s == &size, "filter %d called with other arguments", i)
				calls = append(calls, i)
				*s++
				if which&1 != 0 {
					r = func(int, string) string { recv = append(recv, i); return "" }
				}
				if which&2 != 0 {
					f = func() { fin = append(fin, i) }
				}
				return
			})
		}
		skipped := len(calls)
		want := upTo(n)
		calls = nil
		rs, fins := pipeline.ComposeFilters(p, kind, &size, fs)
		mct.Assert(len(calls) == n-skipped && size == 100+n, "%d filters, of which %d are the identity: called %v, size %d", n, skipped, calls, size)
		for i := 1; i < len(calls); i++ {
			mct.Assert(calls[i-1] < calls[i], "filters called in order %v, want %v", calls, want)
		}
		for _, r := range rs {
			r(0, "")
		}
		for _, f := range fins {
			f()
		}
		mct.Assert(eqInts(recv, wantR) && eqInts(fin, wantF), "receivers %v and finalizers %v, want %v and %v", recv, fin, wantR, wantF)
		mct.Out("%d %v %v", n, wantR, wantF)
	}})
}
