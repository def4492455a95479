package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/intel/forGoParallel/zz_verif/mct"
)

// reg registers a scenario under the name prop/name.
func reg(prop, name string, s mct.Scenario) {
	s.Prop = prop
	s.Name = prop + "/" + name
	mct.Register(s)
}

// vector chooses a vector of n digits in base b.
func vector(n, b int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = mct.Choose(b)
	}
	return v
}

// seqNum is a sentinel error identifying its origin.
type seqNum int

func (s seqNum) Error() string { return fmt.Sprintf("failure<%d>", int(s)) }

// caught runs f and returns what it panicked with, if anything.
func caught(f func()) (p any, panicked bool) {
	ok := false
	defer func() {
		if !ok {
			p, panicked = recover(), true
		}
	}()
	f()
	ok = true
	return
}

// panicID extracts the identity of the original panic from a panic value that
// may have been wrapped: the sentinel error must be reachable, or the text must
// be contained.
func panicID(p any) string {
	if err, ok := p.(error); ok {
		var s seqNum
		if errors.As(err, &s) {
			return fmt.Sprintf("e%d", int(s))
		}
	}
	t := fmt.Sprint(p)
	// the first line holds the original panic value
	if i := strings.IndexByte(t, '\n'); i >= 0 {
		t = t[:i]
	}
	if i := strings.Index(t, "text<"); i >= 0 {
		if j := strings.IndexByte(t[i:], '>'); j > 0 {
			return "s" + t[i+5:i+j]
		}
	}
	return "unknown:" + t
}

// act performs behaviour b of function i: 0 returns, 1 panics with an error,
// 2 panics with a string.
func act(i, b int) {
	switch b {
	case 1:
		panic(seqNum(i))
	case 2:
		panic(fmt.Sprintf("text<%d>", i))
	}
}

func actID(i, b int) string {
	switch b {
	case 1:
		return fmt.Sprintf("e%d", i)
	case 2:
		return fmt.Sprintf("s%d", i)
	}
	return ""
}

func join(l []string) string { return strings.Join(l, ",") }

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
