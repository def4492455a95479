package main

import (
	"fmt"
	"sort"

	"github.com/intel/forGoParallel/zz_verif/mct"
)

// A stepped call holds every function it invokes until nothing else can happen,
// and then lets one of them, any one, end. So all orders in which the functions
// can end are explored. Functions are named by the element they start with.
type stepped struct {
	what     string
	v        []int // what the functions do in the end
	held     []int
	ends     map[int]int // upper bounds of the functions that were invoked
	done     map[int]bool
	gates    []mct.Cell
	returned bool
	order    string
	atStep   func(*stepped)
}

func newStepped(what string, v []int, atStep func(*stepped)) *stepped {
	return &stepped{what: fmt.Sprintf("%s of %v", what, v), v: v, ends: map[int]int{}, done: map[int]bool{}, gates: make([]mct.Cell, len(v)+1), atStep: atStep}
}

// body is what a function does.
func (s *stepped) body(l, h int) int {
	if _, ok := s.ends[l]; ok {
		mct.Assert(false, "%s: function %d was invoked twice", s.what, l)
	}
	s.ends[l] = h
	s.held = append(s.held, l)
	s.gates[l].Wait(1)
	s.done[l] = true
	return s.v[l]
}

// run calls f, which is expected to invoke body.
func (s *stepped) run(f func()) (p any, panicked bool) {
	var over mct.Cell
	go func() {
		for mct.Idle(); ; mct.Idle() {
			if s.atStep != nil {
				s.atStep(s)
			}
			if len(s.held) == 0 {
				break
			}
			i := 0
			if len(s.held) > 1 {
				i = mct.Choose(len(s.held))
			}
			l := s.held[i]
			s.held = append(s.held[:i], s.held[i+1:]...)
			s.order += fmt.Sprint(" ", l)
			s.gates[l].Set(1)
		}
		over.Set(1)
	}()
	p, panicked = caught(f)
	s.returned = true
	over.Wait(1)
	return
}

// lows are the functions that were invoked, in order.
func (s *stepped) lows() (l []int) {
	for x := range s.ends {
		l = append(l, x)
	}
	sort.Ints(l)
	return
}

// prefix is what the functions that have ended determine: the first of them, in
// order, without a gap before it, that does not return 0.
func (s *stepped) prefix() (first int, all bool) {
	at := 0
	for at < len(s.v) {
		h, ok := s.ends[at]
		if !ok || !s.done[at] {
			return -1, false
		}
		if s.v[at] != 0 {
			return at, false
		}
		at = h
	}
	return -1, true
}

func init() {
	type parOp struct {
		name string
		min  int
		run  func(n int, body func(l, h int) int) string
		want func(s *stepped, v func(int) int) string
	}
	var ops []parOp
	for _, fj := range forkJoin {
		ops = append(ops, parOp{fj.name, fj.min, func(n int, body func(l, h int) int) string {
			return fj.run(n, func(i int) int { return body(i, i+1) })
		}, func(s *stepped, v func(int) int) string {
			var l []int
			for i := range s.v {
				l = append(l, v(s.v[i]))
			}
			return fj.want(l)
		}})
	}
	for _, rg := range ranges {
		ops = append(ops, parOp{rg.name, 1, func(n int, body func(l, h int) int) string {
			return rg.run(0, n, n, body)
		}, func(s *stepped, v func(int) int) string {
			var b []batch
			var l []int
			for _, x := range s.lows() {
				b = append(b, batch{x, s.ends[x]})
				l = append(l, v(s.v[x]))
			}
			return rg.want(b, l)
		}})
	}
	for _, op := range ops {
		mk := func(id string, maxN int, base int) func() {
			return func() {
				n := op.min + mct.Choose(maxN-op.min+1)
				what := op.name
				s := newStepped(what, vector(n, base), nil)
				if id == "P01" {
					s.atStep = func(s *stepped) {
						mct.Assert(len(s.held) == 0 || !s.returned, "%s has returned while functions %v are active", s.what, s.held)
					}
				}
				val := func(x int) int { return x }
				if id == "P03" {
					val = func(int) int { return 1 }
				}
				var got string
				p, panicked := s.run(func() {
					got = op.run(n, func(l, h int) int {
						x := s.body(l, h)
						if id == "P03" || id == "P01" {
							act(l, x)
						}
						return val(x)
					})
				})
				what = s.what + ", ended in the order" + s.order
				if id == "P03" {
					first := ""
					for _, l := range s.lows() {
						if first == "" {
							first = actID(l, s.v[l])
						}
					}
					mct.Assert(panicked == (first != ""), "%s: panicked=%v", what, panicked)
					if panicked {
						mct.Assert(panicID(p) == first, "%s: panicked with %s, want %s", what, panicID(p), first)
					}
				} else if id != "P01" {
					mct.Assert(!panicked, "%s: panicked with %v", what, p)
					mct.Assert(got == op.want(s, val), "%s: %s, want %s", what, got, op.want(s, val))
				}
				at := 0
				for _, l := range s.lows() {
					mct.Assert(l == at, "%s: function %d was not invoked", what, at)
					at = s.ends[l]
				}
				mct.Assert(at == n || n == 0, "%s: functions were invoked up to %d", what, at)
				mct.Out("%s", what)
			}
		}
		d := mct.Scenario{Default: true, NoFree: true, NoRace: true}
		more := d
		more.Thorough = true
		d.Body, more.Body = mk("P01", 6, 1), mk("P01", 8, 1)
		reg("P01", op.name+"/stepwise", d)
		reg("P01", op.name+"/stepwise/more", more)
		d.Body, more.Body = mk("P01", 4, 2), mk("P01", 6, 2)
		reg("P01", op.name+"/stepwise/panics", d)
		reg("P01", op.name+"/stepwise/panics/more", more)
		id := "P02"
		if op.name[:2] == "Ra" {
			id = "P05"
		}
		if op.name != "Do" && op.name != "Range" {
			d.Body, more.Body = mk(id, 5, 2), mk(id, 7, 2)
			reg(id, op.name+"/stepwise", d)
			reg(id, op.name+"/stepwise/more", more)
		}
		d.Body, more.Body = mk("P03", 4, 3), mk("P03", 6, 3)
		reg("P03", op.name+"/stepwise", d)
		reg("P03", op.name+"/stepwise/more", more)
	}

	type specStep struct {
		name   string
		min    int
		values bool
		run    func(n int, body func(l, h int) bool) (bool, string)
	}
	var sops []specStep
	for _, op := range specOps {
		sops = append(sops, specStep{op.name, op.min, op.values, func(n int, body func(l, h int) bool) (bool, string) {
			return op.run(n, func(i int) bool { return body(i, i+1) })
		}})
	}
	for _, rg := range specRanges {
		sops = append(sops, specStep{rg.name, 1, rg.values, func(n int, body func(l, h int) bool) (bool, string) {
			return rg.run(0, n, n, body)
		}})
	}
	for _, op := range sops {
		// functions return undecided (0), decide (1), panic (2)
		mk := func(id string, maxN int, base int) func() {
			return func() {
				n := op.min + mct.Choose(maxN-op.min+1)
				s := newStepped(op.name, vector(n, base), nil)
				s.atStep = func(s *stepped) {
					first, _ := s.prefix()
					any := false
					for l := range s.done {
						any = any || s.v[l] != 0
					}
					switch id {
					case "S02":
						mct.Assert(s.returned || first < 0, "%s has not returned although function %d has decided after all before it; ended so far:%s", s.what, first, s.order)
					case "S03":
						mct.Assert(!s.returned || any || len(s.held) == 0, "%s has returned while functions %v are active; ended so far:%s", s.what, s.held, s.order)
					}
				}
				var decided bool
				var val string
				p, panicked := s.run(func() {
					decided, val = op.run(n, func(l, h int) bool {
						x := s.body(l, h)
						if x == 2 {
							act(l, 1)
						}
						return x == 1
					})
				})
				what := s.what + ", ended in the order" + s.order
				at, first, all := 0, -1, ""
				for _, l := range s.lows() {
					mct.Assert(l == at, "%s: function %d was not invoked", what, at)
					at = s.ends[l]
					if first < 0 && s.v[l] != 0 {
						first = l
					}
					one := fmt.Sprintf("<%d>", l)
					if op.name[:2] == "Ra" {
						one = fmt.Sprintf("[%d,%d)", l, at)
					}
					if first == l {
						all = one
					} else if first < 0 {
						all += one
					}
				}
				mct.Assert(at == n || n == 0, "%s: functions were invoked up to %d", what, at)
				if first >= 0 && s.v[first] == 2 {
					mct.Assert(panicked && panicID(p) == actID(first, 1), "%s: panicked=%v (%v), decided=%v", what, panicked, p, decided)
				} else {
					mct.Assert(!panicked, "%s: panicked with %v", what, p)
					mct.Assert(decided == (first >= 0), "%s: decided=%v", what, decided)
					mct.Assert(!op.values || val == all, "%s: result %s, want %s", what, val, all)
				}
				mct.Out("%s", what)
			}
		}
		d := mct.Scenario{Default: true, NoFree: true, NoRace: true}
		more := d
		more.Thorough = true
		d.Body, more.Body = mk("S01", 5, 2), mk("S01", 7, 2)
		reg("S01", op.name+"/stepwise", d)
		reg("S01", op.name+"/stepwise/more", more)
		d.Body, more.Body = mk("S02", 5, 2), mk("S02", 7, 2)
		reg("S02", op.name+"/stepwise", d)
		reg("S02", op.name+"/stepwise/more", more)
		d.Body, more.Body = mk("S03", 6, 1), mk("S03", 8, 1)
		reg("S03", op.name+"/stepwise", d)
		reg("S03", op.name+"/stepwise/more", more)
		d.Body, more.Body = mk("S03", 4, 2), mk("S03", 6, 2)
		reg("S03", op.name+"/stepwise/early", d)
		reg("S03", op.name+"/stepwise/early/more", more)
		d.Body, more.Body = mk("S04", 5, 3), mk("S04", 6, 3)
		reg("S04", op.name+"/stepwise", d)
		reg("S04", op.name+"/stepwise/more", more)
	}
}
