package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/intel/forGoParallel/pipeline"
	"github.com/intel/forGoParallel/zz_verif/mct"
)

// addStages adds stages of the given kinds to p, lower case letters being
// transformations. All of them call f.
func addStages(p *pipeline.Pipeline[string], kinds string, f func(s, seqNo int)) *pipeline.Pipeline[string] {
	for s := range kinds {
		at := func(seqNo int, d string) string { f(s, seqNo); return d }
		if k := kinds[s]; k >= 'a' {
			p = mkTransform(k-'a'+'A', p, at)
		} else {
			p.Add(mkNode(k, pipeline.Receive(at)))
		}
	}
	return p
}

func init() {
	// L21: batches that are held in a stage hold up no others, except those that
	// must follow them
	held := func(kinds string, at, nb, cpus int, idle bool) {
		var holding []bool
		serial := strings.ContainsAny(kinds[at:at+1], "OXox")
		stage := at // a plain transformation belongs to the stage in front of it
		for stage > 0 && kinds[stage] == 't' {
			stage--
		}
		n := 0
		first := nb
		limited := strings.ContainsAny(kinds[stage:stage+1], "Ll")
		for b := range nb {
			h := (!limited || n < cpus-1) && mct.Choose(2) == 1
			holding = append(holding, h)
			if h {
				n++
				first = min(first, b)
			}
		}
		what := fmt.Sprintf("%s, %d processors, stage %d holds batches %v", kinds, cpus, at, holding)
		strict := strings.LastIndexAny(kinds, "Xx")
		// adjacent sequential and ordered stages may be one ordered stage
		merged := make([]bool, len(kinds))
		for s := 0; s < len(kinds); s++ {
			e := s
			for e < len(kinds) && strings.ContainsAny(kinds[e:e+1], "SOso") {
				e++
				if kinds[e-1] >= 'a' {
					break
				}
			}
			for e > s && e < len(kinds) && kinds[e] == 't' {
				e++
			}
			for i := s; i < e; i++ {
				merged[i] = strings.ContainsAny(kinds[s:e], "Oo")
			}
			s = max(s, e-1)
		}
		// how often stage s has processed batch b while the others are held, -1: whatever
		want := make([][]int, len(kinds))
		expected := 0
		if idle {
			expected = 1
		}
		inOrder := false
		for s := range kinds {
			want[s] = make([]int, nb)
			if s > at && strings.ContainsAny(kinds[s:s+1], "OXox") {
				inOrder = true
			}
			for b := range nb {
				w := 1
				switch {
				case s < at:
					w = -1
				case holding[b]:
					w = 0
				case b < first:
				case serial:
					w = 0 // held up by the stage itself
				case s <= strict && strings.Trim(kinds[stage:s+1], "Ppt") != "" || merged[s]:
					w = -1 // may keep to the encounter order
				case inOrder:
					w = 0
				}
				want[s][b] = w
				if w == 1 && !idle {
					expected++
				}
			}
		}
		p := newPipe(nb, mct.Choose(2) == 1)
		got := mct.NewBag()
		var gate, over mct.Cell
		q := addStages(p, kinds, func(s, seqNo int) {
			if s == at && holding[seqNo] {
				gate.Wait(expected)
			}
			got.Add("%d %d", s, seqNo)
			if !idle && want[s][seqNo] == 1 {
				gate.Inc()
			}
		})
		if strings.ContainsAny(kinds[len(kinds)-1:], "tosplx") {
			q.Add(pipeline.Par(pipeline.Receive(func(_ int, d string) string { return d })))
		}
		if idle {
			go func() {
				mct.Idle()
				for s := range kinds {
					for b := range nb {
						n := got.Count("%d %d", s, b)
						mct.Assert(n == want[s][b] || want[s][b] < 0, "%s: stage %d has processed batch %d %d times, want %d; all: %v", what, s, b, n, want[s][b], got.Map())
					}
				}
				gate.Set(expected)
				over.Set(1)
			}()
		} else {
			over.Set(1)
		}
		q.Run()
		over.Wait(1)
		for s := range kinds {
			for b := range nb {
				mct.Assert(got.Count("%d %d", s, b) == 1, "%s: stage %d has processed batch %d %d times", what, s, b, got.Count("%d %d", s, b))
			}
		}
		mct.Out("%s", what)
	}
	all := nodeKinds + "tosplx"
	stages := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = all[mct.Choose(len(all))]
		}
		return string(b)
	}
	parallel := []string{"P", "L", "p", "l", "Pt", "Lt"}
	holder := func(before int) (kinds string, at int) {
		kinds = stages(before) + parallel[mct.Choose(len(parallel))]
		return kinds, len(kinds) - 1
	}
	for _, k := range "OXox" {
		// what comes before a batch held in an ordered stage goes through all others
		reg("L21", "serial/"+string(k), mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: func() {
			before := stages(mct.Choose(2))
			held(before+string(k)+stages(1+mct.Choose(2)), len(before), 3, 2, true)
		}})
	}
	for _, k := range parallel {
		reg("L21", "held/around/"+k, mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: func() {
			before := stages(mct.Choose(2))
			held(before+k+stages(1+mct.Choose(2)), len(before+k)-1, 3, 2, true)
		}})
		for i, a := range []string{nodeKinds, "tosplx"} {
			reg("L21", fmt.Sprintf("schedules/%s/%d", k, i), mct.Scenario{PB: mct.Tier(2, 3), NoFree: true, Body: func() {
				held(k+string(a[mct.Choose(len(a))]), len(k)-1, 2+mct.Choose(mct.Tier(2-i, 2)), 2, true)
			}})
		}
	}
	for _, k := range parallel {
		// one of many batches is held
		many := func(maxN int) func() {
			return func() {
				nb := maxN - mct.Choose(2)
				b := mct.Choose(nb)
				what := fmt.Sprintf("%s, batch %d of %d is held", k, b, nb)
				p := newPipe(nb, mct.Choose(2) == 1)
				got := 0
				var gate, over mct.Cell
				q := addStages(p, k, func(s, seqNo int) {
					if s == len(k)-1 {
						if seqNo == b {
							gate.Wait(1)
						}
						got++
					}
				})
				if k[len(k)-1] >= 'a' {
					q.Add(pipeline.Seq(pipeline.Receive(func(_ int, d string) string { return d })))
				}
				go func() {
					mct.Idle()
					mct.Assert(got == nb-1, "%s: %d other batches were processed", what, got)
					gate.Set(1)
					over.Set(1)
				}()
				q.Run()
				over.Wait(1)
				mct.Assert(got == nb, "%s: %d batches were processed", what, got)
				mct.Out("%s", what)
			}
		}
		reg("L21", "held/many/"+k, mct.Scenario{Default: true, NoRace: true, NoFree: true, Body: many(80)})
		reg("L21", "held/many/more/"+k, mct.Scenario{Default: true, NoRace: true, NoFree: true, Thorough: true, Body: many(300)})
	}
	reg("L21", "meet", mct.Scenario{Default: true, Body: func() {
		// held until the others have got as far as they can
		k, at := holder(0)
		held(k+stages(1), at, 2+mct.Choose(2), 2, false)
	}})
	for _, k := range "PLpl" {
		reg("L21", fmt.Sprintf("meet/%c", k), mct.Scenario{PB: 2, Body: func() {
			held(string(k)+chooseKinds(1), 0, 3, 2, false)
		}})
	}
	for _, cpus := range []int{2, 3} {
		reg("L21", fmt.Sprintf("held/cpu%d", cpus), mct.Scenario{NumCPU: cpus, Default: true, NoRace: true, NoFree: true, Body: func() {
			before := mct.Choose(2)
			k, at := holder(before)
			held(k+stages(1+mct.Choose(2-before)), at, 3, cpus, true)
		}})
		reg("L21", fmt.Sprintf("held/more/cpu%d", cpus), mct.Scenario{NumCPU: cpus, Default: true, NoRace: true, NoFree: true, Thorough: true, Body: func() {
			before := mct.Choose(2)
			k, at := holder(before)
			held(k+stages(2), at, 4, cpus, true)
		}})
	}
}

// stream is a reader that returns one number per line, and waits at one of them.
type stream struct {
	n, next int
	wait    func(i int)
}

func (r *stream) Read(b []byte) (int, error) {
	r.wait(r.next)
	if r.next == r.n {
		return 0, io.EOF
	}
	r.next++
	return copy(b, fmt.Sprintf("%d\n", r.next-1)), nil
}

// through makes the elements of a source go through a number of stages.
func through[S any](src pipeline.Source[S], size int, kinds string, elements func(S) []string, got *mct.Bag) *pipeline.Pipeline[S] {
	p := pipeline.New(src)
	p.SetVariableBatchSize(size, size)
	for s := range kinds {
		p.Add(mkNode(kinds[s], pipeline.Receive(func(_ int, d S) S {
			for _, e := range elements(d) {
				got.Add("%d %s", s, e)
			}
			return d
		})))
	}
	return p
}

func init() {
	// L21: a source that has to wait for more does not hold up what it has
	// delivered
	slow := func(how int, kinds string, n, size int) {
		at := mct.Choose(n + 1)
		what := fmt.Sprintf("source %d waits for element %d of %d, batches of %d, %s", how, at, n, size, kinds)
		var gate, over mct.Cell
		wait := func(i int) {
			if i == at {
				gate.Wait(1)
			}
		}
		got := mct.NewBag()
		one := func(d string) []string { return []string{d} }
		many := func(d []string) []string { return d }
		var run func()
		switch how {
		case 0:
			next := 0
			run = through(pipeline.NewFunc(nil, func(int) (d []string, _ int, _ error) {
				for len(d) < size {
					wait(next)
					if next == n {
						break
					}
					d = append(d, fmt.Sprint(next))
					next++
				}
				return d, len(d), nil
			}), size, kinds, many, got).Run
		case 1, 2:
			ch := make(chan string, mct.Choose(3))
			go func() {
				for i := range n + 1 {
					wait(i)
					if i < n {
						ch <- fmt.Sprint(i)
					}
				}
				close(ch)
			}()
			if how == 1 {
				size = 1
				run = through(pipeline.NewChan(ch), 1, kinds, one, got).Run
			} else {
				run = through(pipeline.NewMultiChan(ch), size, kinds, many, got).Run
			}
		case 3:
			run = through(pipeline.NewScanner(&stream{n: n, wait: wait}), size, kinds, many, got).Run
		case 4:
			run = through(pipeline.NewBytesScanner(&stream{n: n, wait: wait}), size, kinds, func(d [][]byte) (s []string) {
				for _, b := range d {
					s = append(s, string(b))
				}
				return
			}, got).Run
		}
		go func() {
			mct.Idle()
			for s := range kinds {
				for i := range at / size * size {
					mct.Assert(got.Count("%d %d", s, i) == 1, "%s: stage %d has not processed element %d: %v", what, s, i, got.Map())
				}
			}
			gate.Set(1)
			over.Set(1)
		}()
		run()
		over.Wait(1)
		for s := range kinds {
			for i := range n {
				mct.Assert(got.Count("%d %d", s, i) == 1, "%s: stage %d has processed %v", what, s, got.Map())
			}
		}
		mct.Out("%s", what)
	}
	for how := range 5 {
		reg("L21", fmt.Sprintf("source/%d", how), mct.Scenario{Default: true, NoFree: true, Body: func() {
			slow(how, chooseKinds(1+mct.Choose(2)), 1+mct.Choose(4), 1+mct.Choose(2))
		}})
		reg("L21", fmt.Sprintf("source/%d/schedules", how), mct.Scenario{PB: 2, NoFree: true, Body: func() {
			slow(how, chooseKinds(1), 1+mct.Choose(3), 1+mct.Choose(2))
		}})
	}
}
