// Package context is the controlled replacement of the standard package.
package context

import (
	realctx "context"
	"errors"
	"time"

	"github.com/intel/forGoParallel/zz_verif/mc"
)

var (
	Canceled         = realctx.Canceled
	DeadlineExceeded = realctx.DeadlineExceeded
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *mc.Chan[struct{}]
	Err() error
	Value(key any) any
}

type CancelFunc func()
type CancelCauseFunc func(cause error)

type base struct{}

func (base) Deadline() (time.Time, bool) { return time.Time{}, false }
func (base) Done() *mc.Chan[struct{}]    { return nil }
func (base) Err() error                  { return nil }
func (base) Value(any) any               { return nil }

func Background() Context { return base{} }
func TODO() Context       { return base{} }

type flagKey struct{}

type cctx struct {
	parent Context
	f      *mc.Flag
	dl     time.Time
	hasDl  bool
}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() *mc.Chan[struct{}] { return c.f.Ch }
func (c *cctx) Err() error {
	err, _ := c.f.State()
	return err
}
func (c *cctx) Value(key any) any {
	if _, ok := key.(flagKey); ok {
		return c.f
	}
	return c.parent.Value(key)
}

func flagOf(c Context) *mc.Flag {
	if v, ok := c.Value(flagKey{}).(*mc.Flag); ok {
		return v
	}
	return nil
}

func mk(parent Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{parent: parent, f: mc.NewFlag()}
	if pf := flagOf(parent); pf != nil {
		if err, why := pf.Attach(c.f, nil); err != nil {
			c.f.Fire(err, why)
		}
	} else if d := parent.Done(); d != nil {
		mc.Go(func() {
			if mc.Select(false, d.RecvCase(), c.f.Ch.RecvCase()) == 0 {
				c.f.Fire(parent.Err(), Cause(parent))
			}
		})
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := mk(parent)
	return c, func() { c.f.Fire(Canceled, Canceled) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := mk(parent)
	return c, func(cause error) {
		if cause == nil {
			cause = Canceled
		}
		c.f.Fire(Canceled, cause)
	}
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := mk(parent)
	c.dl, c.hasDl = d, true
	if cause == nil {
		cause = DeadlineExceeded
	}
	mc.GoDaemon(func() { c.f.Fire(DeadlineExceeded, cause) })
	return c, func() { c.f.Fire(Canceled, Canceled) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, time.Unix(0, 0).Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Unix(0, 0).Add(d), cause)
}

func Cause(c Context) error {
	if f := flagOf(c); f != nil {
		_, why := f.State()
		return why
	}
	return c.Err()
}

func AfterFunc(c Context, f func()) (stop func() bool) {
	fl := flagOf(c)
	if fl == nil {
		d := c.Done()
		if d == nil {
			stopped := mc.NewFlag()
			return func() bool { return stopped.Fire(Canceled, nil) }
		}
		fl = mc.NewFlag()
		end := mc.NewFlag()
		mc.Go(func() {
			if mc.Select(false, d.RecvCase(), end.Ch.RecvCase()) == 0 {
				fl.Fire(c.Err(), Cause(c))
			}
		})
		a := mc.NewAfter(f)
		fl.Attach(nil, a)
		return func() bool {
			ok := fl.Detach(a)
			end.Fire(Canceled, nil)
			return ok
		}
	}
	a := mc.NewAfter(f)
	fl.Attach(nil, a)
	return func() bool { return fl.Detach(a) }
}

type vctx struct {
	Context
	k, v any
}

func (c *vctx) Value(key any) any {
	if c.k == key {
		return c.v
	}
	return c.Context.Value(key)
}

func WithValue(parent Context, key, val any) Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if key == nil {
		panic("nil key")
	}
	return &vctx{parent, key, val}
}

type nocancel struct {
	base
	p Context
}

func (c nocancel) Value(key any) any {
	if _, ok := key.(flagKey); ok {
		return nil
	}
	return c.p.Value(key)
}

func WithoutCancel(parent Context) Context { return nocancel{p: parent} }

var _ = errors.New
