package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/intel/forGoParallel/pipeline"
	"github.com/intel/forGoParallel/zz_verif/mct"
)

func init() {
	// L06, L07: a pipeline is stopped when all that can wait is waiting: every
	// batch from a certain one on is held in one stage, the stages before are
	// full, and the source is at its end or waits for the context.
	stopped := func(kinds string, nb, cpus int, fail bool) {
		at := mct.Choose(len(kinds))
		from := mct.Choose(nb)
		outside := mct.Choose(2) == 1
		early := mct.Choose(2) == 1
		ends := mct.Choose(2) == 1
		what := fmt.Sprintf("%s, %d processors, held at stage %d from batch %d on, outside %v, gate opened at once %v, ends %v", kinds, cpus, at, from, outside, early, ends)
		var gate, over mct.Cell
		fetched, first := 0, true
		ctx, cancel := context.WithCancel(context.Background())
		p := pipeline.New(pipeline.NewFunc(nil, func(int) (string, int, error) {
			if fetched == nb {
				if !ends {
					<-ctx.Done()
				}
				return "", 0, nil
			}
			fetched++
			return fmt.Sprint(fetched - 1), 1, nil
		}))
		p.NofBatches(nb)
		p.SetVariableBatchSize(1, 1)
		how := mct.Choose(2)
		stop := func() {
			switch {
			case fail:
				mct.Assert(p.SetErr(seqNum(how)), "%s: SetErr failed", what)
				mct.Assert(!p.SetErr(seqNum(7)), "%s: a second SetErr succeeded", what)
			case how == 0:
				p.Cancel()
			default:
				cancel()
			}
			if !early {
				mct.Idle()
			}
			gate.Set(1)
		}
		q, o := observeAll(p, kinds, func(s, seqNo int) {
			switch {
			case s != at || seqNo < from:
			case !outside && first:
				first = false
				mct.Idle()
				stop()
			default:
				gate.Wait(1)
			}
		})
		if outside {
			go func() {
				mct.Idle()
				stop()
				over.Set(1)
			}()
		} else {
			over.Set(1)
		}
		q.RunWithContext(ctx, cancel)
		if !fail {
			o.finalized()
		}
		over.Wait(1)
		mct.Assert(p.Context().Err() == context.Canceled, "%s: context error %v", what, p.Context().Err())
		if fail {
			mct.Assert(errNo(p.Err()) == how, "%s: Err = %v after SetErr(%d)", what, p.Err(), how)
		} else {
			mct.Assert(p.Err() == nil, "%s: error %v after Cancel", what, p.Err())
		}
		mct.Final(func() { o.check(fetched, false) })
		mct.Out("%s", what)
	}
	stages := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = "tosplx"[mct.Choose(6)]
			if i < n-1 && mct.Choose(2) == 1 {
				b[i] = nodeKinds[mct.Choose(len(nodeKinds))]
			}
		}
		return string(b)
	}
	for i, id := range []string{"L06", "L07"} {
		for _, cpus := range []int{1, 2, 3} {
			for _, k := range nodeKinds {
				d := mct.Scenario{NumCPU: cpus, Default: true, NoFree: true, NoRace: true}
				d.Body = func() {
					stopped(string(k)+chooseKinds(mct.Choose(2)), cpus+4, cpus, i == 1)
				}
				reg(id, fmt.Sprintf("stopped/cpu%d/%c", cpus, k), d)
				d.Body = func() {
					stopped(string(k)+chooseKinds(2), cpus+4, cpus, i == 1)
				}
				reg(id, fmt.Sprintf("stopped/three/cpu%d/%c", cpus, k), d)
				d.Body = func() {
					stopped(string(k)+stages(1), cpus+4, cpus, i == 1)
				}
				reg(id, fmt.Sprintf("stopped/before/cpu%d/%c", cpus, k), d)
				d.Body = func() {
					stopped(stages(1)+string(k), cpus+4, cpus, i == 1)
				}
				reg(id, fmt.Sprintf("stopped/behind/cpu%d/%c", cpus, k), d)
				d.Thorough = true
				d.Body = func() {
					stopped(string(k)+stages(2), cpus+3, cpus, i == 1)
				}
				reg(id, fmt.Sprintf("stopped/mixed/cpu%d/%c", cpus, k), d)
				d.Body = func() {
					stopped(string(k)+chooseKinds(3), cpus+3, cpus, i == 1)
				}
				reg(id, fmt.Sprintf("stopped/four/cpu%d/%c", cpus, k), d)
			}
		}
	}
}

// stepwise runs a pipeline in which every receiver is held until nothing else
// can happen, and then one of them, any one, goes on. So all orders in which
// the receivers can end are explored, however the stages are connected. If stop
// is not nil, it may be called instead, once.
func stepwise(id string, kinds string, nb int, known bool, stop func(p *pipeline.Pipeline[string])) {
	var held []int // stage and batch of the receivers that are held
	gates := make([]mct.Cell, len(kinds)*nb)
	var over mct.Cell
	got := mct.NewBag()
	active := make([]int, len(kinds))
	next := make([]int, len(kinds))
	fins := make([]int, len(kinds))
	finalized, stopped := 0, false
	effect := "" // the stages with an effect
	p := newPipe(nb, known)
	q := p
	for _, k := range []byte(kinds) {
		if k == '-' {
			q.Add(pipeline.Par(pipeline.Identity[string]))
			continue
		} else if k == '=' {
			q.Add(pipeline.Seq[string]())
			continue
		}
		s := len(effect)
		effect += string(k)
		mark := string(rune('a' + s))
		f := func(seqNo int, data string) string {
			active[s]++
			switch id {
			case "L01", "L06", "L07", "L14", "L15":
				got.Add("%d %d %s", s, seqNo, data)
			case "L05":
				mct.Assert(fins[s] == 0, "%s: stage %d received batch %d after its finalizer", kinds, s, seqNo)
			}
			switch id {
			case "L02", "L06", "L07", "L14", "L15":
				if k == 'O' || k == 'X' || k == 'o' || k == 'x' {
					mct.Assert(seqNo == next[s], "%s: stage %d received batch %d after %d batches", kinds, s, seqNo, next[s])
				}
			}
			switch id {
			case "L03", "L14", "L15":
				mct.Assert(active[s] == 1 || strings.IndexByte("PLplt", k) >= 0, "%s: stage %d runs %d receivers at once", kinds, s, active[s])
			}
			next[s]++
			held = append(held, s*nb+seqNo)
			gates[s*nb+seqNo].Wait(1)
			active[s]--
			return data + mark
		}
		if k >= 'a' {
			q = mkTransform(k-'a'+'A', q, f)
			continue
		}
		q.Add(mkNode(k, pipeline.ReceiveAndFinalize(f, func() {
			if id == "L05" {
				mct.Assert(active[s] == 0 && next[s] == nb, "%s: the finalizer of stage %d runs with %d active receivers after %d batches", kinds, s, active[s], next[s])
				mct.Assert(finalized == s, "%s: the finalizer of stage %d is number %d", kinds, s, finalized)
			}
			finalized++
			fins[s]++
		})))
	}
	if effect[len(effect)-1] >= 'a' {
		q.Add(pipeline.Par(pipeline.Receive(func(_ int, d string) string { return d })))
	}
	order := ""
	go func() {
		for mct.Idle(); len(held) > 0; mct.Idle() {
			i, n := 0, len(held)
			if stop != nil && !stopped {
				n++
			} else if stopped {
				n = 1
			}
			if n > 1 {
				i = mct.Choose(n)
			}
			if i == len(held) {
				stopped = true
				order += " stop"
				stop(q)
				continue
			}
			h := held[i]
			held = append(held[:i], held[i+1:]...)
			order += fmt.Sprintf(" %d/%d", h/nb, h%nb)
			gates[h].Set(1)
		}
		over.Set(1)
	}()
	q.Run()
	if id == "L06" || id == "L05" || id == "L14" || id == "L15" {
		for s := range effect {
			mct.Assert(fins[s] == 1 || effect[s] >= 'a', "%s: finalizer of stage %d ran %d times", kinds, s, fins[s])
		}
	}
	err := errNo(q.Err())
	mct.Assert((err == 5) == (id == "L07" && stopped) && (err == 5 || err == -1), "%s: Err = %v", kinds, q.Err())
	over.Wait(1)
	mct.Final(func() {
		switch id {
		case "L01", "L14", "L15":
			exactlyOnce(got, effect, nb, kinds)
		case "L06", "L07":
			(&observed{kinds: effect, got: got}).check(nb, !stopped)
		}
	})
	mct.Out("%s%s", kinds, order)
}

func init() {
	mk := func(id string, cpus, stages, nb int, thorough bool) {
		split := []string{""}
		if thorough {
			split = strings.Split(nodeKinds, "")
		}
		for _, k := range nodeKinds {
			for _, j := range split {
				reg(id, fmt.Sprintf("stepwise/%d/%d/cpu%d/%c%s", stages, nb, cpus, k, j), mct.Scenario{NumCPU: cpus, Default: true, NoFree: true, NoRace: true, Thorough: thorough, Body: func() {
					stepwise(id, string(k)+j+chooseKinds(stages-1-len(j)), nb, mct.Choose(2) == 1, nil)
				}})
			}
		}
	}
	for _, id := range []string{"L01", "L02", "L03", "L04", "L05"} {
		mk(id, 2, 2, 3, false)
		mk(id, 3, 2, 4, false)
		mk(id, 2, 3, 3, false)
		mk(id, 2, 4, 2, false)
		mk(id, 2, 2, 4, true)
		if id == "L01" || id == "L02" {
			mk(id, 2, 4, 3, true)
			mk(id, 3, 3, 4, true)
		}
		mk(id, 3, 2, 5, true)
	}
	stops := map[string]func(*pipeline.Pipeline[string]){
		"L06": func(p *pipeline.Pipeline[string]) { p.Cancel() },
		"L07": func(p *pipeline.Pipeline[string]) { mct.Assert(p.SetErr(seqNum(5)), "SetErr failed") },
	}
	all := nodeKinds + "tosplx"
	some := func(from string, n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = from[mct.Choose(len(from))]
		}
		return string(b)
	}
	for _, id := range []string{"L06", "L07"} {
		// many batches that wait for their turn while the next one is held
		for _, kinds := range []string{"PX", "PLX", "PSX", "PXX", "PLLX", "PxX", "PLx"} {
			d := mct.Scenario{NumCPU: 1, Default: true, NoFree: true, NoRace: true, Thorough: len(kinds) > 3}
			d.Body = func() { stepwise(id, kinds, 4, false, stops[id]) }
			reg(id, "stepwise/waiting/"+kinds, d)
			if len(kinds) == 2 {
				d.Body = func() { stepwise(id, kinds, 5, false, stops[id]) }
				reg(id, "stepwise/waiting/five/"+kinds, d)
				d.Thorough = true
				d.Body = func() { stepwise(id, kinds, 6, false, stops[id]) }
				reg(id, "stepwise/waiting/more/"+kinds, d)
			} else if len(kinds) == 3 {
				d.Thorough = true
				d.Body = func() { stepwise(id, kinds, 5, false, stops[id]) }
				reg(id, "stepwise/waiting/more/"+kinds, d)
				d.NumCPU = 2
				reg(id, "stepwise/waiting/cpu2/"+kinds, d)
			}
		}
		for _, k := range all {
			d := mct.Scenario{Default: true, NoFree: true, NoRace: true}
			d.Body = func() { stepwise(id, string(k)+some(all, 1), 3, false, stops[id]) }
			reg(id, "stepwise/two/"+string(k), d)
			d.Body = func() { stepwise(id, string(k)+some(all, 2), 2, false, stops[id]) }
			reg(id, "stepwise/three/"+string(k), d)
			d.Thorough = true
			for _, j := range all {
				d.Body = func() { stepwise(id, string(k)+string(j)+some(all, 1), 3, false, stops[id]) }
				reg(id, "stepwise/three/more/"+string(k)+string(j), d)
			}
		}
	}
	for _, k := range nodeKinds {
		// stages that disappear behind a transformation
		d := mct.Scenario{Default: true, NoFree: true, NoRace: true}
		d.Body = func() { stepwise("L15", "t"+string(k)+some("-=", 1)+some(nodeKinds, 1), 2, false, nil) }
		reg("L15", "stepwise/behind/"+string(k), d)
		d.Body = func() {
			stepwise("L15", "t"+string(k)+some("-=", 1)+some(nodeKinds, 1)+some(nodeKinds, 1), 1, false, nil)
		}
		reg("L15", "stepwise/behind/two/"+string(k), d)
	}
	for _, cpus := range []int{1, 2, 4} {
		reg("L14", fmt.Sprintf("active/cpu%d", cpus), mct.Scenario{NumCPU: cpus, Default: true, NoFree: true, NoRace: true, Body: func() {
			// how many batches the functions are applied to at the same time
			before := some("-tP", 1)
			k := "ptl"[mct.Choose(3)]
			nb := 1 + mct.Choose(6)
			want := nb
			if k == 'l' {
				want = min(nb, cpus)
			} else if k == 't' {
				before = "P"
			}
			what := fmt.Sprintf("%s%c, %d batches", before, k, nb)
			p := newPipe(nb, mct.Choose(2) == 1)
			if before == "t" {
				p = pipeline.Transform(p, func(_ int, d string) string { return d })
			} else if before == "P" {
				p.Add(pipeline.Par(pipeline.Receive(func(_ int, d string) string { return d })))
			}
			active := 0
			var gate, over mct.Cell
			q := mkTransform(k-'a'+'A', p, func(_ int, d string) string {
				active++
				gate.Wait(1)
				active--
				return d
			})
			q.Add(mkNode(nodeKinds[mct.Choose(5)], pipeline.Receive(func(_ int, d string) string { return d })))
			go func() {
				mct.Idle()
				mct.Assert(active == want, "%s: %d are processed at the same time, want %d", what, active, want)
				gate.Set(1)
				over.Set(1)
			}()
			q.Run()
			over.Wait(1)
			mct.Out("%s", what)
		}})
	}
	for _, k := range all {
		d := mct.Scenario{Default: true, NoFree: true, NoRace: true}
		d.Body = func() { stepwise("L14", string(k)+some("tosplx", 1), 3, mct.Choose(2) == 1, nil) }
		reg("L14", "stepwise/two/"+string(k), d)
		d.Body = func() { stepwise("L14", string(k)+some("tosplx", 1)+some(all, 1), 2, false, nil) }
		reg("L14", "stepwise/three/"+string(k), d)
		d.Body = func() {
			kinds := string(k) + some(all, 1)
			at := mct.Choose(3)
			stepwise("L15", kinds[:at]+some("-=", 1)+kinds[at:], 2, false, nil)
		}
		reg("L15", "stepwise/two/"+string(k), d)
		d.Thorough = true
		for _, j := range all {
			d.Body = func() { stepwise("L14", string(k)+string(j)+some("tosplx", 1), 3, false, nil) }
			reg("L14", "stepwise/three/more/"+string(k)+string(j), d)
			d.Body = func() { stepwise("L14", string(k)+string(j)+some("tosplx", 1)+some(all, 1), 2, false, nil) }
			reg("L14", "stepwise/four/more/"+string(k)+string(j), d)
			d.Body = func() {
				kinds := string(k) + string(j) + some(all, 1)
				at := mct.Choose(4)
				stepwise("L15", kinds[:at]+some("-=", 1)+kinds[at:], 2, false, nil)
			}
			reg("L15", "stepwise/three/more/"+string(k)+string(j), d)
		}
	}
}
