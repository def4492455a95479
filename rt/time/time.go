// Package time replaces the waiting parts of the standard package: a duration
// may elapse at any moment.
package time

import (
	real "time"

	"github.com/intel/forGoParallel/zz_verif/mc"
)

func Sleep(d real.Duration) { mc.Yield() }

func Now() real.Time { return real.Unix(1_000_000_000, mc.Tick()) }

func Since(t real.Time) real.Duration { return Now().Sub(t) }

func Until(t real.Time) real.Duration { return t.Sub(Now()) }

func After(d real.Duration) *mc.Chan[real.Time] { return NewTimer(d).C }

func Tick(d real.Duration) *mc.Chan[real.Time] { return NewTimer(d).C }

type Timer struct {
	C       *mc.Chan[real.Time]
	stopped bool
}

func NewTimer(d real.Duration) *Timer {
	t := &Timer{C: mc.MakeChan[real.Time](1)}
	mc.GoDaemon(func() {
		if !t.stopped {
			t.stopped = true
			t.C.Send(Now())
		}
	})
	return t
}

func AfterFunc(d real.Duration, f func()) *Timer {
	t := &Timer{}
	mc.GoDaemon(func() {
		if !t.stopped {
			t.stopped = true
			mc.Go(f)
		}
	})
	return t
}

func (t *Timer) Stop() bool {
	ok := !t.stopped
	t.stopped = true
	return ok
}

func (t *Timer) Reset(d real.Duration) bool {
	ok := !t.stopped
	t.stopped = false
	return ok
}
