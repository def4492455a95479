package main

import (
	"context"
	"fmt"
	"slices"
	"strings"

	"github.com/intel/forGoParallel/pipeline"
	"github.com/intel/forGoParallel/zz_verif/mct"
)

const transformKinds = "TOSPLX"

// mkTransform adds a transformation of the given kind, T being the plain one.
func mkTransform[S, T any](kind byte, p *pipeline.Pipeline[S], f func(int, S) T) *pipeline.Pipeline[T] {
	switch kind {
	case 'T':
		return pipeline.Transform(p, f)
	case 'O':
		return pipeline.OrdTransform(p, f)
	case 'S':
		return pipeline.SeqTransform(p, f)
	case 'P':
		return pipeline.ParTransform(p, f)
	case 'L':
		return pipeline.LimitedParTransform(p, f)
	case 'X':
		return pipeline.StrictOrdTransform(p, f)
	}
	panic("unknown kind")
}

func init() {
	// L13: bounds of parallelism
	bound := func(kinds string, at, nb, cpus int) {
		// the stage at `at` is a limited one; at most `cpus` receivers are active.
		// Lower case letters are stages without any effect.
		var inside mct.Cell
		p := newPipe(nb, false)
		for s := range kinds {
			if kinds[s] >= 'a' {
				p.Add(mkNode(kinds[s]-'a'+'A', pipeline.Identity[string]))
				continue
			}
			p.Add(mkNode(kinds[s], pipeline.Receive(func(seqNo int, d string) string {
				if s == at {
					n := inside.Add(1)
					mct.Assert(n <= cpus, "%s: %d receivers of stage %d are active, %d processors", kinds, n, s, cpus)
					inside.Add(-1)
				}
				return d
			})))
		}
		p.Run()
		mct.Out("%s %d", kinds, nb)
	}
	reg("L13", "limit", mct.Scenario{PB: mct.Tier(3, 4), Body: func() { bound("L", 0, 3, 2) }})
	reg("L13", "limit/cpu1", mct.Scenario{NumCPU: 1, PB: 3, Body: func() { bound("L"+[]string{"", "X"}[mct.Choose(2)], 0, 3, 1) }})
	reg("L13", "limit/cpu3", mct.Scenario{NumCPU: 3, PB: 2, Body: func() { bound("L", 0, 4, 3) }})
	reg("L13", "limit/behind", mct.Scenario{PB: 3, Body: func() {
		bound([]string{"PL", "SL", "OL", "XL"}[mct.Choose(4)], 1, 3, 2)
	}})
	reg("L13", "limit/merged", mct.Scenario{PB: 2, Body: func() {
		// adjacent nodes, or nodes that become adjacent
		bound([]string{"LL", "LlL", "lL", "LpL", "LsL", "LxL", "lLl"}[mct.Choose(7)], 0, 3, 2)
	}})
	reg("L13", "limit/merged/last", mct.Scenario{PB: 2, Body: func() {
		k := []string{"LL", "LlL", "LpL", "PlL", "PLL", "PLlL"}[mct.Choose(6)]
		bound(k, len(k)-1, 3, 2)
	}})
	reg("L13", "limit/merged/cpu1", mct.Scenario{NumCPU: 1, PB: 3, Body: func() {
		k := []string{"LL", "LlL", "LpL", "LLL"}[mct.Choose(4)]
		bound(k, mct.Choose(2)*(len(k)-1), 2+mct.Choose(2), 1)
	}})
	reg("L13", "limit/transform", mct.Scenario{NumCPU: 1, PB: 2, Body: func() {
		// limited transformations, alone or next to limited nodes
		var first, second, third mct.Cell
		enter := func(c *mct.Cell, what string) {
			n := c.Add(1)
			mct.Assert(n <= 1, "%d %s are active, one processor", n, what)
			c.Add(-1)
		}
		p := newPipe(3, false)
		if mct.Choose(2) == 1 {
			p.Add(pipeline.LimitedPar(pipeline.Receive(func(_ int, d string) string { enter(&first, "receivers"); return d })))
		}
		q := pipeline.LimitedParTransform(p, func(_ int, d string) int { enter(&second, "transformations"); return len(d) })
		q.Add(pipeline.LimitedPar(pipeline.Receive(func(_ int, d int) int { enter(&third, "receivers"); return d })))
		p.Run()
		mct.Out("done")
	}})
	reg("L13", "limit/strict", mct.Scenario{PB: mct.Tier(2, 3), Body: func() {
		bound([]string{"LX", "LPX", "LLX"}[mct.Choose(3)], 0, 3, 2)
	}})
	reach := func(kind byte, tail string, k, nb int) {
		// k receivers are active at the same time
		var arrived mct.Cell
		p := newPipe(nb, false)
		p.Add(mkNode(kind, pipeline.Receive(func(seqNo int, d string) string {
			arrived.Inc()
			arrived.Wait(k)
			return d
		})))
		for s := range tail {
			p.Add(mkNode(tail[s], pipeline.Receive(func(_ int, d string) string { return d })))
		}
		p.Run()
		mct.Out("%c %s %d %d", kind, tail, k, nb)
	}
	tails := []string{"", "O", "S", "P", "L", "X"}
	reg("L13", "reach/limited", mct.Scenario{PB: 3, Body: func() {
		reach('L', tails[mct.Choose(6)], 2, 2+mct.Choose(2))
	}})
	for _, tail := range tails {
		reg("L13", "reach/limited/cpu3/"+tail, mct.Scenario{NumCPU: 3, PB: 2, Body: func() {
			reach('L', tail, 3, mct.Tier(3, 3+mct.Choose(2)))
		}})
	}
	reg("L13", "reach/par", mct.Scenario{PB: 3, Body: func() {
		// no bound for parallel nodes, whatever the number of processors
		nb := 2 + mct.Choose(2)
		reach('P', tails[mct.Choose(6)], nb, nb)
	}})
	reg("L13", "reach/par/cpu1", mct.Scenario{NumCPU: 1, PB: 2, Body: func() {
		reach('P', tails[mct.Choose(6)], 4, 4)
	}})
	reg("L13", "reach/par/many", mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: func() {
		n := []int{50, 129, 300, 1100, 2100}[mct.Choose(mct.Tier(4, 5))]
		reach('P', tails[mct.Choose(6)], n, n)
	}})
	exact := func(kinds string, at, nb, cpus int) {
		// whenever nothing else can happen, exactly as many receivers of the
		// limited stage as there are processors or batches are active
		what := fmt.Sprintf("%s, %d batches, %d processors", kinds, nb, cpus)
		var inside, arrived, gate, over mct.Cell
		p := newPipe(nb, false)
		for s := range kinds {
			p.Add(mkNode(kinds[s], pipeline.Receive(func(seqNo int, d string) string {
				if s == at {
					n := inside.Add(1)
					mct.Assert(n <= cpus, "%s: %d receivers are active", what, n)
					turn := arrived.Add(1)
					if strings.HasSuffix(kinds, "X") {
						turn = seqNo + 1 // or they have to wait behind the stage
					}
					gate.Wait(turn)
					inside.Add(-1)
				}
				return d
			})))
		}
		go func() {
			for released := 0; released < nb; released++ {
				mct.Idle()
				n := inside.Get()
				mct.Assert(n == min(cpus, nb-released), "%s: %d receivers are active after %d have returned", what, n, released)
				gate.Inc()
			}
			over.Set(1)
		}()
		p.Run()
		over.Wait(1)
		mct.Out("%s", what)
	}
	for _, cpus := range []int{1, 2, 3, 5, 8, 16, 33, 64} {
		reg("L13", fmt.Sprintf("exact/cpu%d", cpus), mct.Scenario{NumCPU: cpus, Default: true, NoRace: true, NoFree: true, Body: func() {
			extra := []int{0, 1, 2, cpus, 2*cpus + 1}
			at := mct.Choose(2)
			kinds := strings.Repeat("P", at) + "L" + tails[mct.Choose(6)]
			exact(kinds, at, cpus+extra[mct.Choose(len(extra))], cpus)
		}})
	}
	for _, tail := range tails {
		reg("L13", "exact/schedules/"+tail, mct.Scenario{PB: 2, NoFree: true, Body: func() {
			exact("L"+tail, 0, 3, 2)
		}})
	}
	reg("L13", "reach/stages", mct.Scenario{PB: 3, Body: func() {
		// different stages work on different batches at the same time
		kinds := []string{"OS", "SO", "SX", "XX", "OX", "XL", "SP", "SL"}[mct.Choose(8)]
		var first, second mct.Cell
		p := newPipe(2, false)
		if kinds[0] != 'P' && kinds[1] != 'P' && kinds[1] != 'L' {
			// nodes of these kinds would be merged, or one at a time
			p.Add(mkNode(kinds[0], pipeline.Receive(func(seqNo int, d string) string {
				if seqNo == 1 {
					first.Inc()
				}
				return d
			})))
			p.Add(pipeline.Par(pipeline.Receive(func(seqNo int, d string) string {
				if seqNo == 0 {
					first.Wait(1)
				}
				return d
			})))
			p.Add(mkNode(kinds[1], pipeline.Receive(func(seqNo int, d string) string {
				second.Inc()
				return d
			})))
		} else {
			p.Add(mkNode(kinds[0], pipeline.Receive(func(seqNo int, d string) string {
				if seqNo == 1 {
					first.Inc()
				}
				second.Inc()
				return d
			})))
			p.Add(mkNode(kinds[1], pipeline.Receive(func(seqNo int, d string) string {
				if seqNo == 0 {
					first.Wait(1)
				}
				return d
			})))
		}
		p.Run()
		mct.Assert(second.Get() == 2, "%s: %d batches", kinds, second.Get())
		mct.Out("%s", kinds)
	}})

	// L14: transformations
	trans := func(before string, tk byte, after string, nb int, viaNext bool) {
		what := fmt.Sprintf("%s(%c)%s with %d batches", before, tk, after, nb)
		got := mct.NewBag()
		fins := 0
		p := newPipe(nb, mct.Choose(2) == 1)
		for s := range before {
			p.Add(mkNode(before[s], pipeline.ReceiveAndFinalize(func(seqNo int, d string) string {
				mct.Yield()
				got.Add("%d %d %s", s, seqNo, d)
				return d + string(rune('a'+s))
			}, func() { fins++ })))
		}
		inside, count, calls := 0, 0, mct.NewBag()
		suffix := "abcdef"[:len(before)]
		q := mkTransform(tk, p, func(seqNo int, d string) int {
			mct.Assert(d == fmt.Sprint(seqNo)+suffix, "%s: transforming batch %d: %q", what, seqNo, d)
			calls.Add("%d", seqNo)
			if tk == 'O' || tk == 'X' || tk == 'S' {
				// one at a time, without synchronisation
				inside++
				mct.Assert(inside == 1, "%s: transformations overlap", what)
				mct.Yield()
				inside--
				if tk != 'S' {
					mct.Assert(seqNo == count, "%s: transforming batch %d after %d batches", what, seqNo, count)
				}
				count++
			}
			return seqNo + 10
		})
		next := make([]int, len(after))
		for s := range after {
			q.Add(mkNode(after[s], pipeline.ReceiveAndFinalize(func(seqNo int, d int) int {
				mct.Assert(d == seqNo+10+100*s, "%s: stage %d after the transformation received %d for batch %d", what, s, d, seqNo)
				if ordered(after[s]) {
					mct.Assert(next[s] == seqNo, "%s: stage %d after the transformation received batch %d after %d batches", what, s, seqNo, next[s])
					next[s]++
				}
				got.Add("+%d %d", s, seqNo)
				return d + 100
			}, func() {
				fins++
				for b := range nb {
					mct.Assert(got.Count("+%d %d", s, b) == 1, "%s: finalizer of stage %d after the transformation runs when batch %d was received %d times", what, s, b, got.Count("+%d %d", s, b))
				}
			})))
		}
		if viaNext {
			q.Run()
		} else {
			p.Run()
		}
		mct.Assert(p.Err() == nil && q.Err() == nil, "%s: errors %v, %v", what, p.Err(), q.Err())
		mct.Assert(p.Context() != nil && p.Context() == q.Context(), "%s: different contexts", what)
		for b := range nb {
			mct.Assert(calls.Count("%d", b) == 1, "%s: batch %d transformed %d times", what, b, calls.Count("%d", b))
			for s := range before {
				mct.Assert(got.Count("%d %d %d%s", s, b, b, "abcdef"[:s]) == 1, "%s: stage %d, batch %d: %v", what, s, b, got.Map())
			}
			for s := range after {
				mct.Assert(got.Count("+%d %d", s, b) == 1, "%s: stage %d after the transformation, batch %d: %v", what, s, b, got.Map())
			}
		}
		mct.Assert(calls.Len() == nb && got.Len() == nb*(len(before)+len(after)), "%s: deliveries %v, transformations %v", what, got.Map(), calls.Map())
		mct.Assert(fins == len(before)+len(after), "%s: %d finalizers ran", what, fins)
		mct.Out("%s", what)
	}
	for i := range transformKinds {
		t := transformKinds[i]
		reg("L14", fmt.Sprintf("first/%c", t), mct.Scenario{PB: 3, Body: func() {
			trans("", t, chooseKinds(1), mct.Choose(3), mct.Choose(2) == 1)
		}})
		reg("L14", fmt.Sprintf("around/%c", t), mct.Scenario{PB: 2, Body: func() {
			trans(chooseKinds(1), t, chooseKinds(1), 2, false)
		}})
		reg("L14", fmt.Sprintf("inputs/%c", t), mct.Scenario{Default: true, Body: func() {
			trans(chooseKinds(mct.Choose(3)), t, chooseKinds(1+mct.Choose(2)), mct.Choose(5), mct.Choose(2) == 1)
		}})
		for j := range nodeKinds {
			reg("L14", fmt.Sprintf("around/deep/%c%c", t, nodeKinds[j]), mct.Scenario{Thorough: true, PB: 3, Body: func() {
				trans(string(nodeKinds[j]), t, chooseKinds(1), 2+mct.Choose(2), false)
			}})
			reg("L14", fmt.Sprintf("after/deep/%c%c", t, nodeKinds[j]), mct.Scenario{Thorough: true, PB: 2, Body: func() {
				trans(string(nodeKinds[j]), t, chooseKinds(2), 2, false)
			}})
		}
	}
	chain2 := func(k1, t1, k2 string, nb int) {
		what := fmt.Sprintf("%s(%s)%s", k1, t1, k2)
		p := newPipe(nb, false)
		for s := range k1 {
			p.Add(mkNode(k1[s], pipeline.Receive(func(_ int, d string) string { mct.Yield(); return d + "x" })))
		}
		q := mkTransform(t1[0], p, func(seqNo int, d string) int { mct.Yield(); return len(d) + 10*seqNo })
		seen := make([]int, len(k2))
		for s := range k2 {
			if k2[s] != 'X' {
				q.Add(mkNode(k2[s], pipeline.Receive(func(_ int, d int) int { mct.Yield(); return d })))
				continue
			}
			q.Add(mkNode(k2[s], pipeline.Receive(func(seqNo int, d int) int {
				mct.Assert(d == len(k1)+1+10*seqNo && seqNo == seen[s], "%s: the strict stage received batch %d (%d) after %d batches", what, seqNo, d, seen[s])
				seen[s]++
				return d
			})))
		}
		p.Run()
		mct.Assert(p.Err() == nil && seen[len(k2)-1] == nb, "%s: %d batches, error %v", what, seen[len(k2)-1], p.Err())
		mct.Out("%s", what)
	}
	chain := func(k1, t1, k2, t2, k3 string, nb int) {
		what := fmt.Sprintf("%s(%s)%s(%s)%s", k1, t1, k2, t2, k3)
		p := newPipe(nb, false)
		n1, n2 := 0, 0
		for s := range k1 {
			p.Add(mkNode(k1[s], pipeline.Receive(func(_ int, d string) string { mct.Yield(); return d + "x" })))
		}
		q := mkTransform(t1[0], p, func(seqNo int, d string) int { return len(d) + 10*seqNo })
		for s := range k2 {
			q.Add(mkNode(k2[s], pipeline.Receive(func(seqNo int, d int) int {
				mct.Assert(d == len(k1)+1+10*seqNo, "%s: batch %d is %d in the middle", what, seqNo, d)
				if ordered(k2[s]) {
					mct.Assert(n1 == seqNo, "%s: batch %d in the middle after %d batches", what, seqNo, n1)
					n1++
				}
				return d + 1
			})))
		}
		r := mkTransform(t2[0], q, func(seqNo int, d int) []string { return []string{fmt.Sprint(d)} })
		seen := mct.NewBag()
		for s := range k3 {
			r.Add(mkNode(k3[s], pipeline.Receive(func(seqNo int, d []string) []string {
				want := fmt.Sprint(len(k1) + 1 + 10*seqNo + len(k2))
				mct.Assert(len(d) == 1 && d[0] == want, "%s: batch %d is %v at the end", what, seqNo, d)
				if ordered(k3[s]) {
					mct.Assert(n2 == seqNo, "%s: batch %d at the end after %d batches", what, seqNo, n2)
					n2++
				}
				if s == len(k3)-1 {
					seen.Add("%d", seqNo)
				}
				return d
			})))
		}
		r.Run()
		mct.Assert(numbered(seen, what) == nb, "%s: %d batches at the end", what, seen.Len())
		mct.Assert(p.Err() == nil, "%s: error %v", what, p.Err())
		mct.Out("%s", what)
	}
	reg("L14", "chain", mct.Scenario{PB: 2, Body: func() {
		chain(chooseKinds(mct.Choose(2)), "T", chooseKinds(mct.Choose(2)), "T", chooseKinds(1), 2)
	}})
	reg("L14", "chain/inputs", mct.Scenario{Default: true, Body: func() {
		t := func() string { return transformKinds[mct.Choose(6):][:1] }
		chain(chooseKinds(mct.Choose(2)), t(), chooseKinds(mct.Choose(2)), t(), chooseKinds(1), 3)
	}})
	reg("L14", "strict/nested", mct.Scenario{PB: 2, Body: func() {
		// a strictly ordered stage behind transformations
		k := []string{"L", "S", "P", "O"}
		chain(k[mct.Choose(4)], "T", k[mct.Choose(4)], []string{"T", "X", "L"}[mct.Choose(3)], "X", 2)
	}})
	// stages that have to be ordered for a strict one behind them, with more
	// batches than a limited stage can hold
	nested := func(k1s, k2s []string, nb int) {
		k1 := k1s[mct.Choose(len(k1s))]
		t1 := "TP"[mct.Choose(2):][:1]
		chain2(k1, t1, k2s[mct.Choose(len(k2s))], nb)
	}
	reg("L14", "strict/cpu1", mct.Scenario{NumCPU: 1, PB: 2, Body: func() { nested([]string{"", "P"}, []string{"LX", "LSX", "SLX"}, 2) }})
	reg("L14", "strict/cpu1/more", mct.Scenario{NumCPU: 1, Thorough: true, PB: 1, Body: func() { nested([]string{"", "P", "L", "S"}, []string{"LX", "LSX", "SLX", "LOX", "LPX"}, 3) }})
	reg("L14", "strict/cpu2", mct.Scenario{NumCPU: 2, PB: 1, Body: func() { nested([]string{"", "P"}, []string{"LX", "SLX"}, 3) }})
	reg("L14", "strict/cpu2/more", mct.Scenario{NumCPU: 2, Thorough: true, PB: 2, Body: func() { nested([]string{"", "P"}, []string{"LX", "SLX"}, 3) }})
	reg("L14", "strict/deep", mct.Scenario{NumCPU: 1, PB: mct.Tier(1, 2), Body: func() {
		// the strict node is behind two transformations
		chain([]string{"", "P"}[mct.Choose(2)], []string{"T", "P", "L"}[mct.Choose(3)], []string{"L", "", "S"}[mct.Choose(3)], []string{"T", "L", "P"}[mct.Choose(3)], []string{"LX", "X"}[mct.Choose(2)], 2)
	}})
	reg("L14", "mixed", mct.Scenario{PB: 2, Body: func() {
		// an identity stage between, and one that is dropped, in front of a strict one
		kind := chooseKinds(1)
		p := newPipe(2, false)
		p.Add(mkNode(kind[0], pipeline.Receive(func(_ int, d string) string { mct.Yield(); return d })))
		q := pipeline.Transform(p, func(seqNo int, d string) int { return seqNo })
		q.Add(pipeline.LimitedPar(pipeline.Receive(func(_ int, d int) int { return d + 1 })))
		q.Add(pipeline.Seq(pipeline.Identity[int]))
		q.Add(pipeline.LimitedPar(pipeline.Receive(func(_ int, d int) int { return d + 1 })))
		n := 0
		q.Add(mkNode("OX"[mct.Choose(2)], pipeline.Receive(func(seqNo int, d int) int {
			mct.Assert(seqNo == n && d == n+2, "%s: batch %d is %d after %d batches", kind, seqNo, d, n)
			n++
			return d
		})))
		p.Run()
		mct.Assert(n == 2, "%s: %d batches of 2", kind, n)
		mct.Out("%s", kind)
	}})

	// L15: stages may be merged or dropped, but not noticeably
	merge := func(kinds, drop string, nb int, multi bool, groups ...bool) {
		// lower case letters in kinds are nodes without any effect
		what := fmt.Sprintf("%s with %d batches, effectless filters %s, several filters %v", kinds, nb, drop, multi)
		p := newPipe(nb, mct.Choose(2) == 1)
		// groups tells which nodes are added together with the next one
		var group []pipeline.Node[string]
		add := func(i int, n pipeline.Node[string]) {
			group = append(group, n)
			if i >= len(groups) || !groups[i] {
				p.Add(group...)
				group = nil
			}
		}
		got := mct.NewBag()
		fins := mct.NewBag()
		var data = func(b, s int) string { return fmt.Sprint(b) + strings.Repeat("|", s) }
		s := 0
		total := 0
		next := map[int]*int{}
		for i := range kinds {
			kind := kinds[i]
			if kind >= 'a' {
				var fs []pipeline.Filter[string]
				if drop == "identity" {
					fs = append(fs, pipeline.Identity[string])
				}
				if drop == "nils" {
					fs = append(fs, pipeline.Receive[string](nil), pipeline.Finalize[string](nil), pipeline.ReceiveAndFinalize[string](nil, nil))
				}
				if drop == "finalizer" {
					fs = append(fs, pipeline.Finalize[string](func() { fins.Add("extra %d", i) }))
				}
				add(i, mkNode(kind-'a'+'A', fs...))
				continue
			}
			var fs []pipeline.Filter[string]
			count := 1
			if multi {
				count = 2
				fs = append(fs, pipeline.Finalize[string](func() { fins.Add("extra %d", i) }), pipeline.Identity[string])
			}
			for range count {
				stage := s
				s++
				total++
				next[stage] = new(int)
				fs = append(fs, pipeline.ReceiveAndFinalize(func(seqNo int, d string) string {
					mct.Assert(d == data(seqNo, stage), "%s: filter %d received %q for batch %d", what, stage, d, seqNo)
					if ordered(kind) {
						mct.Assert(*next[stage] == seqNo, "%s: filter %d received batch %d after %d batches", what, stage, seqNo, *next[stage])
						*next[stage]++
					}
					if kind == 'S' {
						*next[stage]++
					}
					got.Add("%d %d", stage, seqNo)
					return d + "|"
				}, func() {
					fins.Add("%d", stage)
					for b := range nb {
						mct.Assert(got.Count("%d %d", stage, b) == 1, "%s: finalizer %d runs when batch %d was received %d times", what, stage, b, got.Count("%d %d", stage, b))
					}
				}))
			}
			add(i, mkNode(kind, fs...))
		}
		p.Add(group...)
		p.Run()
		mct.Assert(p.Err() == nil, "%s: error %v", what, p.Err())
		for stage := range s {
			for b := range nb {
				mct.Assert(got.Count("%d %d", stage, b) == 1, "%s: filter %d received batch %d %d times; %v", what, stage, b, got.Count("%d %d", stage, b), got.Map())
			}
			mct.Assert(fins.Count("%d", stage) == 1, "%s: finalizers %v", what, fins.Map())
		}
		mct.Assert(got.Len() == nb*total, "%s: received %v", what, got.Map())
		for i := range kinds {
			want := 0
			if kinds[i] < 'a' && multi || kinds[i] >= 'a' && drop == "finalizer" {
				want = 1
			}
			mct.Assert(fins.Count("extra %d", i) == want, "%s: finalizers %v", what, fins.Map())
		}
		mct.Out("%s", what)
	}
	chooseMixed := func(n int) string {
		const all = nodeKinds + "osplx"
		b := make([]byte, n)
		for i := range b {
			b[i] = all[mct.Choose(len(all))]
		}
		return string(b)
	}
	drops := []string{"none", "identity", "nils", "finalizer"}
	reg("L15", "inputs", mct.Scenario{Default: true, Body: func() {
		merge(chooseMixed(1+mct.Choose(mct.Tier(3, 4))), drops[mct.Choose(4)], mct.Choose(2)*3, mct.Choose(2) == 1)
	}})
	reg("L15", "groups", mct.Scenario{Default: true, Body: func() {
		// nodes may be added several at a time
		n := 2 + mct.Choose(mct.Tier(2, 3))
		g := make([]bool, n)
		for i := range n - 1 {
			g[i] = mct.Choose(2) == 1
		}
		merge(chooseMixed(n), "identity", 2, false, g...)
	}})
	reg("L15", "inputs/four", mct.Scenario{Default: true, Body: func() {
		merge(chooseMixed(4), "identity", 3, false)
	}})
	reg("L15", "one", mct.Scenario{PB: 3, Body: func() {
		merge(chooseMixed(1), drops[mct.Choose(4)], mct.Choose(4), mct.Choose(2) == 1)
	}})
	for _, k := range nodeKinds {
		// the same kind around a node that disappears
		reg("L15", fmt.Sprintf("around/%c", k), mct.Scenario{PB: mct.Tier(2, 3), Body: func() {
			drop := nodeKinds[mct.Choose(5)] - 'A' + 'a'
			merge(string(k)+string(drop)+string(nodeKinds[mct.Choose(5)]), "identity", 2, false)
		}})
		reg("L15", fmt.Sprintf("two/%c", k), mct.Scenario{PB: 2, Body: func() {
			merge(string(k)+chooseMixed(1), "identity", 2, mct.Choose(2) == 1)
		}})
		reg("L15", fmt.Sprintf("four/%c", k), mct.Scenario{Thorough: true, PB: 2, Body: func() {
			drop := nodeKinds[mct.Choose(5)] - 'A' + 'a'
			merge(string(k)+string(drop)+chooseKinds(2), "identity", 2, false)
		}})
	}
	reg("L15", "behind", mct.Scenario{PB: 2, Body: func() {
		// stages behind merged ones
		k := []string{"PsP", "LsL", "PxP", "LpL", "XpS", "XpX", "XpO", "SpS", "OpS"}[mct.Choose(9)]
		merge(k+chooseKinds(1), "identity", 2, false)
	}})
	reg("L15", "behind/two", mct.Scenario{Default: true, Body: func() {
		k := []string{"PsP", "LsL", "PxP", "LpL", "XpS", "XpX", "XpO", "SpS", "OpS"}[mct.Choose(9)]
		merge(k+chooseKinds(2), drops[mct.Choose(4)], 3, mct.Choose(2) == 1)
	}})
	reg("L15", "behind/two/schedules", mct.Scenario{Thorough: true, PB: 2, Body: func() {
		k := []string{"PsP", "LsL", "XpS", "XpX"}[mct.Choose(4)]
		merge(k+chooseKinds(2), "identity", 2, false)
	}})
	reg("L15", "inputs/five", mct.Scenario{Thorough: true, Default: true, Body: func() {
		merge(chooseMixed(5), "identity", 2, false)
	}})
	reg("L15", "empty", mct.Scenario{Default: true, Body: func() {
		// a pipeline without any effective node
		n := mct.Choose(3)
		p := newPipe(2, mct.Choose(2) == 1)
		for range n {
			p.Add(mkNode(nodeKinds[mct.Choose(5)], pipeline.Identity[string]))
		}
		p.Run()
		mct.Assert(p.Err() == nil, "error %v", p.Err())
		mct.Out("%d", n)
	}})

	// L16: notifiers
	reg("L16", "once", mct.Scenario{PB: mct.Tier(4, 5), Body: func() {
		kind := nodeKinds[mct.Choose(5)]
		n := mct.Choose(3)
		p := newPipe(1, false)
		calls := mct.NewBag()
		done := make(chan bool, n)
		for i := range n {
			p.Notify(func() {
				mct.Assert(p.Context() != nil, "no context in a notifier")
				calls.Add("%d", i)
				done <- true
			})
		}
		p.Add(mkNode(kind, pipeline.Receive(func(_ int, d string) string { return d })))
		mct.Assert(calls.Len() == 0, "notified before the start")
		p.Run()
		for range n {
			<-done
		}
		mct.Final(func() {
			for i := range n {
				mct.Assert(calls.Count("%d", i) == 1, "notifier %d of %d ran %d times", i, n, calls.Count("%d", i))
			}
		})
		mct.Out("%c %d", kind, n)
	}})
	reg("L16", "calls", mct.Scenario{PB: mct.Tier(2, 3), Body: func() {
		// everything a notifier may call works as soon as it runs
		kind := nodeKinds[mct.Choose(5)]
		n := 1 + mct.Choose(2)
		how := make([]int, n)
		for i := range how {
			how[i] = mct.Choose(4)
		}
		p := newPipe(1, mct.Choose(2) == 1)
		done := make(chan bool, n)
		for i := range n {
			p.Notify(func() {
				switch how[i] {
				case 0:
					p.Cancel()
					mct.Assert(p.Context().Err() != nil, "%c: Cancel in a notifier did not cancel the context", kind)
				case 1:
					set := p.SetErr(seqNum(i))
					mct.Assert(p.Err() != nil && (!set || p.Context().Err() != nil), "%c: error %v, context error %v after SetErr in a notifier", kind, p.Err(), p.Context().Err())
				case 2:
					p.Err()
				case 3:
					<-p.Context().Done()
				}
				done <- true
			})
		}
		p.Add(mkNode(kind, pipeline.Receive(func(_ int, d string) string { return d })))
		p.Run()
		for range n {
			<-done
		}
		mct.Assert((p.Err() != nil) == slices.Contains(how, 1), "%c: error %v", kind, p.Err())
		mct.Out("%c %v", kind, how)
	}})
	reg("L16", "blocking", mct.Scenario{PB: 3, Body: func() {
		// notifiers run in goroutines of their own: they may wait for the end
		// of the run, and for each other
		kind := nodeKinds[mct.Choose(5)]
		nb := mct.Choose(3)
		p := newPipe(nb, false)
		over := make(chan bool)
		meet := make(chan bool)
		done := make(chan bool, 2)
		p.Notify(func() { meet <- true; <-over; done <- true })
		p.Notify(func() { <-meet; <-p.Context().Done(); done <- true })
		count := mct.NewBag()
		p.Add(mkNode(kind, pipeline.Receive(func(_ int, d string) string { count.Add("x"); return d })))
		p.Run()
		mct.Assert(count.Len() == nb, "%c: %d batches of %d", kind, count.Len(), nb)
		close(over)
		<-done
		<-done
		mct.Out("%c %d", kind, nb)
	}})
	reg("L16", "feeding", mct.Scenario{PB: 3, Body: func() {
		// a notifier feeds the source, or cancels the pipeline
		kind := nodeKinds[mct.Choose(5)]
		ch := make(chan int)
		how := mct.Choose(3)
		p := pipeline.New(pipeline.NewChan(ch))
		p.Notify(func() {
			for i := range 2 {
				select {
				case ch <- i:
				case <-p.Context().Done():
				}
			}
			switch how {
			case 0:
				close(ch)
			case 1:
				p.Cancel()
			case 2:
				p.SetErr(seqNum(3))
			}
		})
		slots := make([]int, 2)
		seen := collect(p, kind, slots, nil)
		p.Run()
		mct.Assert(how != 0 || seen.Len() == 2 && eqInts(slots, upTo(2)), "%c: received %v", kind, slots)
		mct.Assert((how == 2) == (p.Err() != nil), "%c: error %v", kind, p.Err())
		mct.Out("%c %d", kind, how)
	}})
	reg("L16", "transform", mct.Scenario{PB: 2, Body: func() {
		p := newPipe(2, false)
		q := pipeline.Transform(p, func(seqNo int, d string) int { return seqNo })
		done := make(chan bool, 2)
		p.Notify(func() { mct.Assert(q.Context() != nil, "no context"); done <- true })
		q.Notify(func() { mct.Assert(p.Context() != nil, "no context"); done <- true })
		q.Add(mkNode(nodeKinds[mct.Choose(5)], pipeline.Receive(func(_ int, d int) int { return d })))
		if mct.Choose(2) == 0 {
			p.Run()
		} else {
			q.Run()
		}
		<-done
		<-done
		mct.Out("done")
	}})

	// L17: contexts
	type key struct{}
	reg("L17", "with", mct.Scenario{PB: 3, Body: func() {
		// RunWithContext uses the context it gets and leaves it alone
		kinds := chooseKinds(1)
		nb := mct.Choose(3)
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, 7))
		var prepared ctx0
		next := 0
		p := pipeline.New(pipeline.NewFunc(func(c ctx0) int { prepared = c; return nb }, func(int) (int, int, error) {
			if next == nb {
				return 0, 0, nil
			}
			next++
			return next - 1, 1, nil
		}))
		p.NofBatches(max(nb, 1))
		count := mct.NewBag()
		for s := range kinds {
			p.Add(mkNode(kinds[s], func(pp *pipeline.Pipeline[int], kind pipeline.NodeKind, size *int) (pipeline.Receiver[int], pipeline.Finalizer) {
				mct.Assert(pp == p && *size == nb, "filter called with another pipeline or size %d", *size)
				want := pipeline.Ordered
				switch kinds[s] {
				case 'S':
					want = pipeline.Sequential
				case 'P', 'L':
					want = pipeline.Parallel
				}
				mct.Assert(kind == want, "%s: filter called with node kind %v", kinds, kind)
				return func(_ int, d int) int {
						mct.Assert(p.Context().Value(key{}) == 7 && p.Context().Err() == nil, "receiver sees another context")
						count.Add("%d", s)
						return d
					}, func() {
						mct.Assert(p.Context().Err() == nil, "the context is cancelled when finalizers run")
					}
			}))
		}
		p.RunWithContext(ctx, cancel)
		mct.Assert(prepared == ctx && p.Context() == ctx, "the context is not the one passed to RunWithContext")
		mct.Assert(ctx.Err() == nil, "%s: RunWithContext cancelled the context of its caller", kinds)
		mct.Assert(count.Len() == nb*len(kinds), "%s: %v", kinds, count.Map())
		cancel()
		mct.Out("%s %d", kinds, nb)
	}})
	noCancel := func(kinds string, nb int) {
		p := newPipe(nb, mct.Choose(2) == 1)
		got := mct.NewBag()
		stages := 0
		for s := range kinds {
			if kinds[s] >= 'a' {
				p.Add(mkNode(kinds[s]-'a'+'A', pipeline.Identity[string]))
				continue
			}
			stages++
			p.Add(mkNode(kinds[s], pipeline.Receive(func(_ int, d string) string { got.Add("x"); return d })))
		}
		p.RunWithContext(context.Background(), func() { mct.Fail("%s: cancelled", kinds) })
		mct.Assert(got.Len() == stages*nb, "%s: %v", kinds, got.Map())
		mct.Out("%s", kinds)
	}
	reg("L17", "with/nocancel", mct.Scenario{PB: 2, Body: func() {
		// nothing is left behind even when the caller never cancels
		noCancel(chooseKinds(2), 2)
	}})
	reg("L17", "with/nocancel/dropped", mct.Scenario{PB: 1, Body: func() {
		// stages that become adjacent, as those between them have no effect
		k := chooseKinds(1)
		d := string(chooseKinds(1)[0] - 'A' + 'a')
		noCancel(k+d+chooseKinds(1), 2)
	}})
	reg("L17", "with/nocancel/transform", mct.Scenario{PB: 1, Body: func() {
		k := chooseKinds(1)
		p := newPipe(2, false)
		n := mct.NewBag()
		q := mkTransform("TL"[mct.Choose(2)], p, func(_ int, d string) int { return len(d) })
		d := chooseKinds(1)
		q.Add(mkNode(k[0], pipeline.Receive(func(_ int, d int) int { n.Add("a"); return d })))
		q.Add(mkNode(d[0], pipeline.Identity[int]))
		q.Add(mkNode(chooseKinds(1)[0], pipeline.Receive(func(_ int, d int) int { n.Add("b"); return d })))
		p.RunWithContext(context.Background(), func() { mct.Fail("%s %s: cancelled", k, d) })
		mct.Assert(n.Count("a") == 2 && n.Count("b") == 2, "%s %s: %v", k, d, n.Map())
		mct.Out("%s %s", k, d)
	}})
	reg("L17", "cancel", mct.Scenario{PB: 3, Body: func() {
		// Cancel and SetErr call the cancel function of the caller
		kinds := chooseKinds(1)
		how := mct.Choose(2)
		calls := mct.NewBag()
		ctx, cancel := context.WithCancel(context.Background())
		p := newPipe(2, false)
		p.Add(mkNode(kinds[0], pipeline.Receive(func(seqNo int, d string) string {
			if seqNo == 0 {
				if how == 0 {
					p.Cancel()
				} else {
					mct.Assert(p.SetErr(seqNum(3)), "%s: the first error was not accepted", kinds)
				}
				mct.Assert(calls.Len() == 1 && ctx.Err() != nil && p.Context().Err() != nil, "%s: cancel was called %d times", kinds, calls.Len())
			}
			return d
		})))
		p.RunWithContext(ctx, func() {
			// it may use the pipeline itself
			mct.Assert(p.Context() == ctx, "%s: another context when cancel is called", kinds)
			err := p.Err()
			mct.Assert(how == 0 && err == nil || how == 1 && errNo(err) == 3, "%s: error %v when cancel is called", kinds, err)
			mct.Assert(how == 0 || !p.SetErr(seqNum(4)), "%s: a second error was accepted", kinds)
			calls.Add("x")
			cancel()
		})
		mct.Assert(calls.Len() <= 1, "%s: cancel was called %d times", kinds, calls.Len())
		cancel()
		mct.Out("%s %d", kinds, how)
	}})
}
