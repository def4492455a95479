package main

import (
	"context"
	"fmt"

	"github.com/intel/forGoParallel/pipeline"
	"github.com/intel/forGoParallel/zz_verif/mct"
)

// observe adds a stage that records what it receives and checks what has to
// hold even when the pipeline is cancelled: nothing arrives twice, ordered
// stages see a contiguous prefix, finalizers come last.
type observed struct {
	kinds string
	got   *mct.Bag
	next  []int
	fins  []int
}

func observe(p *pipeline.Pipeline[string], kinds string, hook func(s, seqNo int)) *observed {
	o := &observed{kinds: kinds, got: mct.NewBag(), next: make([]int, len(kinds)), fins: make([]int, len(kinds))}
	for s := range kinds {
		mark := string(rune('a' + s))
		p.Add(mkNode(kinds[s], pipeline.ReceiveAndFinalize(func(seqNo int, data string) string {
			if ordered(kinds[s]) {
				mct.Assert(seqNo == o.next[s], "%s: stage %d received batch %d after %d batches", kinds, s, seqNo, o.next[s])
				o.next[s]++
			}
			o.got.Add("%d %d %s", s, seqNo, data)
			if hook != nil {
				hook(s, seqNo)
			}
			return data + mark
		}, func() { o.fins[s]++ })))
	}
	return o
}

// observeAll does the same where lower case letters are transformations.
func observeAll(p *pipeline.Pipeline[string], kinds string, hook func(s, seqNo int)) (*pipeline.Pipeline[string], *observed) {
	o := &observed{kinds: kinds, got: mct.NewBag(), next: make([]int, len(kinds)), fins: make([]int, len(kinds))}
	for s := range kinds {
		k := kinds[s]
		mark := string(rune('a' + s))
		f := func(seqNo int, data string) string {
			if k == 'o' || k == 'x' || ordered(k) {
				mct.Assert(seqNo == o.next[s], "%s: stage %d received batch %d after %d batches", kinds, s, seqNo, o.next[s])
				o.next[s]++
			}
			o.got.Add("%d %d %s", s, seqNo, data)
			hook(s, seqNo)
			return data + mark
		}
		if k >= 'a' {
			o.fins[s] = 1
			p = mkTransform(k-'a'+'A', p, f)
		} else {
			p.Add(mkNode(k, pipeline.ReceiveAndFinalize(f, func() { o.fins[s]++ })))
		}
	}
	if kinds[len(kinds)-1] >= 'a' {
		p.Add(pipeline.Par(pipeline.Receive(func(_ int, d string) string { return d })))
	}
	return p, o
}

func (o *observed) check(nb int, complete bool) {
	total := 0
	for b := range nb {
		data := fmt.Sprint(b)
		prev := 1
		for s := range o.kinds {
			n := o.got.Count("%d %d %s", s, b, data)
			mct.Assert(n <= prev, "%s: batch %d received %d times at stage %d, %d times before: %v", o.kinds, b, n, s, prev, o.got.Map())
			mct.Assert(!complete || n == 1, "%s: batch %d received %d times at stage %d: %v", o.kinds, b, n, s, o.got.Map())
			prev = n
			total += n
			data += string(rune('a' + s))
		}
	}
	mct.Assert(o.got.Len() == total, "%s: unexpected deliveries %v", o.kinds, o.got.Map())
}

func (o *observed) finalized() {
	for s, n := range o.fins {
		mct.Assert(n == 1, "%s: finalizer of stage %d ran %d times", o.kinds, s, n)
	}
}

func init() {
	// L04: termination; a deadlock, a leaked goroutine or a crash is reported
	// by the checker.
	finish := func(kinds string, nb int, known bool, hold holder) {
		p := newPipe(nb, known)
		for s := range kinds {
			p.Add(mkNode(kinds[s], pipeline.Receive(func(seqNo int, data string) string { mct.Yield(); hold.at(s, seqNo); return data })))
		}
		p.Run()
		mct.Assert(p.Context().Err() != nil, "%s: Run returned without cancelling its context", kinds)
		mct.Out("%s %d", kinds, nb)
	}
	shapes("L04", finish)
	reg("L04", "strict/cpu1", mct.Scenario{NumCPU: 1, PB: 3, Body: func() {
		finish(chooseKinds(2)+"X", 2+mct.Choose(2), false, nil)
	}})
	reg("L04", "uneven", mct.Scenario{PB: 3, Body: func() {
		// parallel receivers that wait for later batches to arrive
		kinds := "P" + []string{"O", "S", "X", "L", ""}[mct.Choose(5)]
		nb := 3
		var c mct.Cell
		p := newPipe(nb, false)
		for s := range kinds {
			p.Add(mkNode(kinds[s], pipeline.Receive(func(seqNo int, data string) string {
				if s == 0 {
					c.Inc()
					if seqNo == 0 {
						c.Wait(nb)
					}
				}
				return data
			})))
		}
		p.Run()
		mct.Out("%s", kinds)
	}})

	// L06: cancellation
	// from inside a receiver
	inside := func(kinds string, nb int) {
		p := newPipe(nb, mct.Choose(2) == 1)
		cs, cb := mct.Choose(len(kinds)), mct.Choose(nb)
		o := observe(p, kinds, func(s, seqNo int) {
			if s == cs && seqNo == cb {
				p.Cancel()
			}
		})
		p.Run()
		o.finalized()
		mct.Assert(p.Err() == nil, "%s: error %v after Cancel", kinds, p.Err())
		mct.Assert(p.Context().Err() == context.Canceled, "%s: context error %v", kinds, p.Context().Err())
		mct.Final(func() { o.check(nb, false) })
		mct.Out("%s %d %d %d", kinds, nb, cs, cb)
	}
	// by a goroutine of its own, at any point
	outside := func(kinds string, nb int) {
		p := newPipe(nb, false)
		o := observe(p, kinds, nil)
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan bool)
		go func() {
			cancel()
			close(done)
		}()
		p.RunWithContext(ctx, cancel)
		o.finalized()
		<-done
		mct.Final(func() { o.check(nb, false) })
		mct.Out("%s %d", kinds, nb)
	}
	for _, k := range nodeKinds {
		reg("L06", fmt.Sprintf("inside/%c", k), mct.Scenario{PB: mct.Tier(3, 4), Body: func() { inside(string(k), 2+mct.Choose(2)) }})
		reg("L06", fmt.Sprintf("inside/two/%c", k), mct.Scenario{PB: 2, Body: func() { inside(string(k)+chooseKinds(1), 2) }})
		reg("L06", fmt.Sprintf("outside/%c", k), mct.Scenario{PB: mct.Tier(4, 5), Body: func() { outside(string(k), mct.Choose(4)) }})
		for _, j := range nodeKinds {
			reg("L06", fmt.Sprintf("outside/%c%c", k, j), mct.Scenario{PB: 2, Body: func() { outside(string(k)+string(j), 2+mct.Choose(2)) }})
			reg("L06", fmt.Sprintf("outside/deep/%c%c", k, j), mct.Scenario{Thorough: true, PB: 3, Body: func() { outside(string(k)+string(j), 2+mct.Choose(2)) }})
			reg("L06", fmt.Sprintf("outside/three/%c%c", k, j), mct.Scenario{Thorough: true, PB: 2, Body: func() { outside(string(k)+string(j)+chooseKinds(1), 2) }})
		}
	}
	for _, k := range nodeKinds {
		reg("L06", fmt.Sprintf("inside/three/%c", k), mct.Scenario{PB: mct.Tier(1, 2), Body: func() { inside(string(k)+chooseKinds(2), 2) }})
		reg("L06", fmt.Sprintf("outside/three/%c", k), mct.Scenario{PB: 1, Body: func() { outside(string(k)+chooseKinds(2), 2) }})
		// stages that wait for their turn in front of strictly ordered ones
		reg("L06", fmt.Sprintf("inside/strict/%c", k), mct.Scenario{Thorough: true, PB: 2, Body: func() {
			inside(string(k)+[]string{"LX", "SX", "XL", "XX"}[mct.Choose(4)], 2)
		}})
		reg("L06", fmt.Sprintf("inside/strict/three/%c", k), mct.Scenario{Thorough: true, PB: 1, Body: func() {
			inside(string(k)+[]string{"LX", "SX", "XL", "XX", "LSX", "SLX"}[mct.Choose(6)], 3)
		}})
	}
	reg("L06", "strict", mct.Scenario{PB: 2, Body: func() { inside([]string{"PLX", "PSX", "PXX"}[mct.Choose(3)], 2) }})
	reg("L06", "strict/more", mct.Scenario{PB: 1, Body: func() { inside("PLX", 3) }})
	reg("L06", "before", mct.Scenario{Body: func() {
		// a context that is cancelled before the pipeline starts
		kinds := chooseKinds(1 + mct.Choose(2))
		p := newPipe(2, mct.Choose(2) == 1)
		o := observe(p, kinds, nil)
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		p.RunWithContext(ctx, cancel)
		o.finalized()
		mct.Final(func() { o.check(2, false) })
		mct.Out("%s", kinds)
	}})
	reg("L06", "parent", mct.Scenario{PB: 3, Body: func() {
		// cancelling a parent context
		kinds := chooseKinds(1)
		p := newPipe(2, false)
		o := observe(p, kinds, nil)
		parent, stop := context.WithCancel(context.Background())
		ctx, cancel := context.WithCancel(parent)
		defer cancel()
		done := make(chan bool)
		go func() { stop(); close(done) }()
		p.RunWithContext(ctx, cancel)
		o.finalized()
		<-done
		mct.Assert(p.Context() == ctx, "Context is not the one passed to RunWithContext")
		mct.Final(func() { o.check(2, false) })
		mct.Out("%s", kinds)
	}})

	// L07: errors
	reg("L07", "receiver", mct.Scenario{PB: 3, Body: func() {
		// receivers report errors; the first one wins
		kinds := chooseKinds(1)
		nb := 2 + mct.Choose(2)
		p := newPipe(nb, false)
		v := vector(nb, 2)
		won := mct.NewBag()
		lost := mct.NewBag()
		o := observe(p, kinds, func(s, seqNo int) {
			if v[seqNo] == 1 {
				if p.SetErr(seqNum(seqNo)) {
					won.Add("%d", seqNo)
				} else {
					lost.Add("%d", seqNo)
				}
				mct.Assert(p.Err() != nil, "Err is nil after SetErr")
			}
		})
		p.Run()
		err := p.Err()
		mct.Final(func() {
			o.check(nb, false)
			mct.Assert(won.Len() <= 1 && (won.Len() == 1 || lost.Len() == 0), "%s: SetErr succeeded for %v, failed for %v", kinds, won.Map(), lost.Map())
			e := p.Err()
			if won.Len() == 0 {
				mct.Assert(e == nil, "%s: Err = %v without any SetErr", kinds, e)
			} else {
				mct.Assert(won.Count("%v", errNo(e)) == 1, "%s: Err = %v, but SetErr succeeded for %v", kinds, e, won.Map())
				mct.Assert(p.Context().Err() != nil, "%s: SetErr did not cancel the context", kinds)
			}
			mct.Assert(err == nil || err == e, "%s: Err changed from %v to %v", kinds, err, e)
		})
		mct.Out("%s %v", kinds, v)
	}})
	reg("L07", "two", mct.Scenario{PB: 2, Body: func() {
		kinds := chooseKinds(2)
		nb := 2
		p := newPipe(nb, false)
		at := mct.Choose(2)
		o := observe(p, kinds, func(s, seqNo int) {
			if s == at {
				p.SetErr(seqNum(seqNo))
			}
		})
		p.Run()
		mct.Final(func() {
			o.check(nb, false)
			e := errNo(p.Err())
			seen := 0
			for b := range nb {
				if o.got.Count("%d %d %s", at, b, fmt.Sprint(b)+"a"[:at]) > 0 {
					seen++
				}
			}
			mct.Assert((e >= 0) == (seen > 0), "%s: Err = %v after %d failing receivers", kinds, p.Err(), seen)
			mct.Assert(e < 0 || o.got.Count("%d %d %s", at, e, fmt.Sprint(e)+"a"[:at]) == 1, "%s: Err = %v was never set", kinds, p.Err())
		})
		mct.Out("%s %d", kinds, at)
	}})
	reg("L07", "outside", mct.Scenario{PB: mct.Tier(3, 4), Body: func() {
		// errors set by other goroutines once the pipeline runs
		kinds := chooseKinds(1)
		nb := 2
		p := newPipe(nb, mct.Choose(2) == 1)
		k := 1 + mct.Choose(2)
		won := mct.NewBag()
		o := observe(p, kinds, nil)
		done := make(chan bool, 2)
		for i := range k {
			p.Notify(func() {
				if p.SetErr(seqNum(i)) {
					won.Add("%d", i)
				}
				done <- true
			})
		}
		p.Run()
		for range k {
			<-done
		}
		e := errNo(p.Err())
		mct.Assert(won.Len() == 1 && won.Count("%d", e) == 1, "%s: Err = %v, but SetErr succeeded for %v", kinds, p.Err(), won.Map())
		mct.Final(func() { o.check(nb, false) })
		mct.Out("%s %d", kinds, k)
	}})
	reg("L07", "source", mct.Scenario{PB: 3, Body: func() {
		// the source fails at batch `bad`, together with data or at the end
		kinds := chooseKinds(1 + mct.Choose(2))
		nb := 3
		bad := mct.Choose(nb + 1)
		withData := mct.Choose(2) == 1
		known := mct.Choose(2) == 1
		next, after := 0, 0
		fetch := func(int) (string, int, error) {
			if after > 0 {
				after++
			}
			var err error
			n := 1
			if next == bad {
				err = seqNum(9)
				after++
				if !withData {
					n = 0
				}
			}
			if next == nb {
				n = 0
			}
			next++
			return fmt.Sprint(next - 1), n, err
		}
		var prep func(ctx0) int
		if known {
			prep = func(ctx0) int { return nb }
		}
		p := pipeline.New(pipeline.NewFunc(prep, fetch))
		p.NofBatches(nb)
		p.SetVariableBatchSize(1, 1)
		o := observe(p, kinds, nil)
		p.Run()
		mct.Assert(errNo(p.Err()) == 9, "%s: source failed at batch %d (data %v), Err = %v", kinds, bad, withData, p.Err())
		mct.Assert(after == 1, "%s: the source was asked for data again after its error", kinds)
		mct.Final(func() { o.check(nb, false) })
		mct.Out("%s %d %v", kinds, bad, withData)
	}})
	reg("L07", "source-vs-receiver", mct.Scenario{PB: 3, Body: func() {
		// an error already set is not replaced by one of the source
		kinds := chooseKinds(1)
		next := 0
		var p *pipeline.Pipeline[string]
		set := false
		p = pipeline.New(pipeline.NewFunc(nil, func(int) (string, int, error) {
			next++
			if next == 2 {
				set = p.SetErr(seqNum(1))
				return "", 0, seqNum(2)
			}
			return "x", 1, nil
		}))
		o := observe(p, kinds, nil)
		p.Run()
		mct.Assert(set && errNo(p.Err()) == 1, "%s: Err = %v after SetErr (%v)", kinds, p.Err(), set)
		_ = o
		mct.Out("%s", kinds)
	}})
	reg("L07", "again", mct.Scenario{Body: func() {
		// a pipeline with an error does not run
		kinds := chooseKinds(1)
		p := newPipe(1, false)
		calls := mct.NewBag()
		p.Add(mkNode(kinds[0], func(pp *pipeline.Pipeline[string], _ pipeline.NodeKind, _ *int) (pipeline.Receiver[string], pipeline.Finalizer) {
			mct.Assert(pp.SetErr(seqNum(1)), "SetErr failed")
			mct.Assert(!pp.SetErr(seqNum(2)), "second SetErr succeeded")
			return func(_ int, d string) string { calls.Add("x"); return d }, nil
		}))
		p.Run()
		mct.Assert(errNo(p.Err()) == 1, "Err = %v", p.Err())
		mct.Assert(calls.Len() == 0, "a filter reported an error before the start, but batches were delivered")
		p.Run()
		mct.Assert(errNo(p.Err()) == 1 && calls.Len() == 0, "a failed pipeline ran again: Err = %v", p.Err())
		mct.Out("%s", kinds)
	}})

	// L18: Err, SetErr and Cancel are safe to be called concurrently
	reg("L18", "calls", mct.Scenario{PB: mct.Tier(3, 5), Body: func() {
		kinds := chooseKinds(1)
		p := newPipe(2, mct.Choose(2) == 1)
		ops := vector(2, 4)
		done := make(chan bool, 2)
		for i := range ops {
			p.Notify(func() {
				switch ops[i] {
				case 0:
					p.Err()
				case 1:
					p.SetErr(seqNum(i))
				case 2:
					p.Cancel()
				case 3:
					p.Context().Err()
				}
				done <- true
			})
		}
		p.Add(mkNode(kinds[0], pipeline.Receive(func(_ int, d string) string { return d })))
		p.Run()
		e := p.Err()
		<-done
		<-done
		mct.Assert(e == nil || p.Err() == e, "Err changed from %v to %v", e, p.Err())
		mct.Assert((p.Err() != nil) == (ops[0] == 1 || ops[1] == 1), "Err = %v after calls %v", p.Err(), ops)
		mct.Out("%s %v", kinds, ops)
	}})
	reg("L18", "receivers", mct.Scenario{PB: 3, Body: func() {
		kinds := []string{"P", "L", "PO", "PP", "SP"}[mct.Choose(5)]
		p := newPipe(2, false)
		op := mct.Choose(3)
		for s := range kinds {
			p.Add(mkNode(kinds[s], pipeline.Receive(func(seqNo int, d string) string {
				switch op {
				case 0:
					p.Err()
				case 1:
					p.SetErr(seqNum(seqNo))
				case 2:
					p.Cancel()
				}
				return d
			})))
		}
		p.Run()
		mct.Out("%s %d", kinds, op)
	}})
	reg("L18", "transform", mct.Scenario{PB: 2, Body: func() {
		p := newPipe(2, false)
		kinds := chooseKinds(1)
		p.Add(mkNode(kinds[0], pipeline.Receive(func(_ int, d string) string { return d })))
		q := pipeline.Transform(p, func(_ int, d string) int { return len(d) })
		q.Add(pipeline.Par(pipeline.Receive(func(_ int, d int) int { q.SetErr(seqNum(d)); return d })))
		done := make(chan bool)
		p.Notify(func() { p.SetErr(seqNum(7)); close(done) })
		q.Run()
		<-done
		mct.Assert(p.Err() != nil && p.Err() == q.Err(), "errors %v and %v", p.Err(), q.Err())
		mct.Out("%s", kinds)
	}})
}

// errNo is the number of a sentinel error, or -1.
func errNo(err error) int {
	if s, ok := err.(seqNum); ok {
		return int(s)
	}
	if err == nil {
		return -1
	}
	return -2
}
