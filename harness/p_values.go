package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"runtime"
	"strings"

	"github.com/intel/forGoParallel/psort"
	"github.com/intel/forGoParallel/zz_verif/mct"
)

// pair is a value without methods.
type pair struct{ a, b int }

// shout is a Stringer.
type shout struct{ i int }

func (s *shout) String() string { return fmt.Sprintf("shout<%d>", s.i) }

// refError is an error with pointer receivers.
type refError struct{ i int }

func (e *refError) Error() string { return fmt.Sprintf("ref<%d>", e.i) }

// listError is an error that cannot be compared.
type listError []int

func (e listError) Error() string { return fmt.Sprintf("list%v", []int(e)) }

// likeError claims to be other errors.
type likeError struct{ i int }

func (e likeError) Error() string { return "like" }
func (e likeError) Is(target error) bool {
	s, ok := target.(seqNum)
	return ok && int(s) == e.i
}

var errFixed = errors.New("fixed")

// panicKind is a way to panic, and how to recognize it.
type panicKind struct {
	name  string
	raise func(i int)
	match func(i int, p any) bool
}

func anError(f func(i int, err error) bool) func(i int, p any) bool {
	return func(i int, p any) bool {
		err, ok := p.(error)
		return ok && f(i, err)
	}
}

func aText(f func(i int) string) func(i int, p any) bool {
	return func(i int, p any) bool { return strings.Contains(fmt.Sprint(p), f(i)) }
}

func runtimeError(text string) func(i int, p any) bool {
	return anError(func(i int, err error) bool {
		var re runtime.Error
		return errors.As(err, &re) && strings.Contains(err.Error(), text) && strings.Contains(re.Error(), text)
	})
}

var panicKinds = []panicKind{
	{"an error value", func(i int) { panic(seqNum(i)) }, anError(func(i int, err error) bool {
		var s seqNum
		return errors.Is(err, seqNum(i)) && errors.As(err, &s) && int(s) == i
	})},
	{"an index out of range", func(i int) { var s []int; s[i]++ }, anError(func(i int, err error) bool {
		return runtimeError(fmt.Sprintf("index out of range [%d] with length 0", i))(i, err)
	})},
	{"a nil map", func(i int) { var m map[int]int; m[i]++ }, runtimeError("assignment to entry in nil map")},
	{"a nil pointer", func(i int) { var p *pair; p.b = i }, runtimeError("nil pointer dereference")},
	{"a division by zero", func(i int) { z := i - i; panic(i / z) }, runtimeError("divide by zero")},
	{"a failed type assertion", func(i int) { var x any = i; panic(x.(string)) }, anError(func(i int, err error) bool {
		var te *runtime.TypeAssertionError
		return errors.As(err, &te)
	})},
	{"nil", func(i int) { panic(nil) }, anError(func(i int, err error) bool {
		var ne *runtime.PanicNilError
		return errors.As(err, &ne)
	})},
	{"a wrapped error", func(i int) { panic(fmt.Errorf("wrapped: %w", seqNum(i))) }, anError(func(i int, err error) bool {
		return errors.Is(err, seqNum(i)) && strings.Contains(err.Error(), "wrapped")
	})},
	{"joined errors", func(i int) { panic(errors.Join(io.EOF, seqNum(i))) }, anError(func(i int, err error) bool {
		return errors.Is(err, io.EOF) && errors.Is(err, seqNum(i))
	})},
	{"an error with several causes", func(i int) { panic(fmt.Errorf("%w and %w", seqNum(i), errFixed)) }, anError(func(i int, err error) bool {
		return errors.Is(err, errFixed) && errors.Is(err, seqNum(i))
	})},
	{"an error with an Is method", func(i int) { panic(likeError{i}) }, anError(func(i int, err error) bool {
		var l likeError
		return errors.Is(err, seqNum(i)) && errors.Is(err, likeError{i}) && errors.As(err, &l)
	})},
	{"a pointer to an error", func(i int) { panic(&refError{i}) }, anError(func(i int, err error) bool {
		var r *refError
		return errors.As(err, &r) && r.i == i
	})},
	{"an error that cannot be compared", func(i int) { panic(listError{i, 1}) }, anError(func(i int, err error) bool {
		var l listError
		return errors.As(err, &l) && l[0] == i
	})},
	{"a file error", func(i int) { panic(&fs.PathError{Op: "open", Path: fmt.Sprint("file", i), Err: fs.ErrNotExist}) }, anError(func(i int, err error) bool {
		var pe *fs.PathError
		return errors.Is(err, fs.ErrNotExist) && errors.As(err, &pe) && pe.Path == fmt.Sprint("file", i)
	})},
	{"io.EOF", func(i int) { panic(io.EOF) }, anError(func(i int, err error) bool { return errors.Is(err, io.EOF) })},
	{"an error of package errors", func(i int) { panic(errFixed) }, anError(func(i int, err error) bool { return errors.Is(err, errFixed) })},
	{"a text", func(i int) { panic(fmt.Sprintf("text %d%%d %%w", i)) }, aText(func(i int) string { return fmt.Sprintf("text %d%%d %%w", i) })},
	{"a text of several lines", func(i int) { panic(fmt.Sprintf("first\nsecond %d\n", i)) }, aText(func(i int) string { return fmt.Sprintf("first\nsecond %d\n", i) })},
	{"an empty text", func(i int) { panic("") }, func(int, any) bool { return true }},
	{"an integer", func(i int) { panic(4710815 + i) }, aText(func(i int) string { return fmt.Sprint(4710815 + i) })},
	{"a boolean", func(i int) { panic(i < 0) }, aText(func(i int) string { return "false" })},
	{"a structure", func(i int) { panic(pair{4711, i}) }, aText(func(i int) string { return fmt.Sprint(pair{4711, i}) })},
	{"a Stringer", func(i int) { panic(&shout{i}) }, aText(func(i int) string { return fmt.Sprintf("shout<%d>", i) })},
}

// choosePanics chooses up to two of n functions and how they panic. It returns
// the left-most one.
func choosePanics(n int) (raise func(i int), check func(what string, p any, panicked bool)) {
	kinds := make([]*panicKind, n)
	first := mct.Choose(n + 1)
	if first < n {
		kinds[first] = &panicKinds[mct.Choose(len(panicKinds))]
		if first+1 < n {
			if next := first + 1 + mct.Choose(n-first); next < n {
				kinds[next] = &panicKinds[[]int{1, 16, 0, 6}[mct.Choose(4)]]
			}
		}
	}
	return func(i int) {
			if kinds[i] != nil {
				kinds[i].raise(i)
			}
		}, func(what string, p any, panicked bool) {
			mct.Assert(panicked == (first < n), "%s: panicked=%v (%v)", what, panicked, p)
			if panicked {
				mct.Assert(kinds[first].match(first, p), "%s: function %d of %d panics with %s, but the call panics with %T %v", what, first, n, kinds[first].name, p, p)
			}
			mct.Out("%v %d", panicked, first)
		}
}

func init() {
	for _, fj := range forkJoin {
		reg("P03", fj.name+"/values", mct.Scenario{Default: true, NoRace: true, Body: func() {
			n := fj.min + mct.Choose(mct.Tier(5, 7)-fj.min)
			levels := mct.Choose(3)
			raise, check := choosePanics(n)
			p, panicked := caught(func() {
				fj.run(n, func(i int) int {
					body := func(int) int { raise(i); return 1 }
					for range levels {
						inner := body
						body = func(int) int { fj.run(max(1, fj.min), inner); return 1 }
					}
					return body(0)
				})
			})
			check(fmt.Sprintf("%s of %d functions, %d levels", fj.name, n, levels), p, panicked)
		}})
	}
	for _, rg := range ranges {
		reg("P03", rg.name+"/values", mct.Scenario{Default: true, NoRace: true, Body: func() {
			n := 1 + mct.Choose(mct.Tier(4, 6))
			levels := mct.Choose(3)
			raise, check := choosePanics(n)
			p, panicked := caught(func() {
				rg.run(0, n, n, func(l, h int) int {
					body := func(int, int) int {
						for i := l; i < h; i++ {
							raise(i)
						}
						return 1
					}
					for range levels {
						inner := body
						body = func(int, int) int { rg.run(0, 1, 1, inner); return 1 }
					}
					return body(0, 1)
				})
			})
			check(fmt.Sprintf("%s(0,%d,%d), %d levels", rg.name, n, n, levels), p, panicked)
		}})
	}
	for _, op := range specOps {
		reg("S04", op.name+"/values", mct.Scenario{Default: true, NoRace: true, Body: func() {
			n := op.min + mct.Choose(mct.Tier(5, 7)-op.min)
			levels := mct.Choose(3)
			raise, check := choosePanics(n)
			p, panicked := caught(func() {
				op.run(n, func(i int) bool {
					body := func(int) bool { raise(i); return false }
					for range levels {
						inner := body
						body = func(int) bool { d, _ := op.run(max(1, op.min), inner); return d }
					}
					return body(0)
				})
			})
			check(fmt.Sprintf("%s of %d functions, %d levels", op.name, n, levels), p, panicked)
		}})
	}
	for _, rg := range specRanges {
		reg("S04", rg.name+"/values", mct.Scenario{Default: true, NoRace: true, Body: func() {
			n := 1 + mct.Choose(mct.Tier(4, 6))
			levels := mct.Choose(3)
			raise, check := choosePanics(n)
			p, panicked := caught(func() {
				rg.run(0, n, n, func(l, h int) bool {
					body := func(int, int) bool {
						for i := l; i < h; i++ {
							raise(i)
						}
						return false
					}
					for range levels {
						inner := body
						body = func(int, int) bool { d, _ := rg.run(0, 1, 1, inner); return d }
					}
					return body(0, 1)
				})
			})
			check(fmt.Sprintf("%s(0,%d,%d), %d levels", rg.name, n, n, levels), p, panicked)
		}})
	}
	for _, name := range []string{"Sort", "StableSort", "IsSorted"} {
		reg("Q06", name+"/values", mct.Scenario{Default: true, NoRace: true, Body: func() {
			n := []int{4, 9, 12, 20}[mct.Choose(4)]
			kind := &panicKinds[mct.Choose(len(panicKinds))]
			s := &trap{items: makeItems(family(1, n)), hits: mct.NewBag(), raise: kind.raise}
			s.method = map[string][]string{
				"Sort":       {"Less", "SequentialSort", "Swap", "Len"},
				"StableSort": {"Less", "SequentialSort", "Assign", "assign", "NewTemp", "Len"},
				"IsSorted":   {"Less", "Len"},
			}[name][mct.Choose(map[string]int{"Sort": 4, "StableSort": 6, "IsSorted": 2}[name])]
			s.bad = mct.Choose(n)
			if name == "IsSorted" {
				s.items = makeItems(family(0, n))
			}
			p, panicked := caught(func() {
				switch name {
				case "Sort":
					psort.Sort(s)
				case "StableSort":
					psort.StableSort(s)
				case "IsSorted":
					psort.IsSorted(s)
				}
			})
			mct.Assert(panicked == (s.hits.Len() > 0), "%s of %d elements: panicked=%v after %d panics of %s", name, n, panicked, s.hits.Len(), s.method)
			mct.Assert(!panicked || kind.match(77, p), "%s of %d elements: %s panics with %s, but the call panics with %T %v", name, n, s.method, kind.name, p, p)
			mct.Out("%v", panicked)
		}})
	}
}
