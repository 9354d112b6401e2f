//go:build go1.23

// Package vcontext replaces context.
package vcontext

import (
	"context"
	"time"

	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }

type ctx struct {
	parent   Context
	done     chan struct{}
	o        vsched.Obj
	vc       vsched.SyncVC
	err      error
	cause    error
	children []*ctx
	deadline time.Time
	hasDl    bool
	vt       *vsched.Timer
}

type keyT struct{}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	if vsched.Active() {
		vsched.Point()
		c.o.Read(401)
		c.vc.Acquire()
	}
	return c.err
}
func (c *ctx) Value(k any) any {
	if _, ok := k.(keyT); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *ctx) cancel(err, cause error, point bool) {
	if c.err != nil {
		return
	}
	c.err = err
	c.cause = cause
	if c.cause == nil {
		c.cause = err
	}
	if vsched.Active() {
		c.o.Write(402)
		c.vc.ReleaseVC()
		vsched.CloseNow(c.done)
	} else if !vsched.Killing() {
		close(c.done)
	}
	if c.vt != nil {
		c.vt.Disarm()
	}
	for _, k := range c.children {
		k.cancel(err, c.cause, false)
	}
	c.children = nil
}

func newCtx(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(keyT{}).(*ctx); ok {
		if vsched.Active() {
			vsched.Point()
			p.o.Read(403)
			p.vc.Acquire()
		}
		if p.err != nil {
			c.cancel(p.err, p.cause, false)
		} else {
			p.children = append(p.children, c)
		}
	} else if parent.Err() != nil {
		c.cancel(parent.Err(), context.Cause(parent), false)
	}
	return c
}

func (c *ctx) detach() {
	if p, ok := c.parent.Value(keyT{}).(*ctx); ok {
		for i, k := range p.children {
			if k == c {
				p.children = append(p.children[:i:i], p.children[i+1:]...)
				return
			}
		}
	}
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() {
		if vsched.Active() {
			vsched.Point()
		}
		c.cancel(Canceled, nil, true)
		c.detach()
	}
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) {
		if vsched.Active() {
			vsched.Point()
		}
		c.cancel(Canceled, cause, true)
		c.detach()
	}
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	c := newCtx(parent)
	c.hasDl = true
	if vsched.Active() {
		c.deadline = time.Unix(0, 0).Add(time.Duration(vsched.Now()) + d)
		if c.err == nil {
			c.vt = vsched.NewVTimer(int64(d), 0, func() { c.cancel(DeadlineExceeded, nil, false) })
		}
	} else {
		time.AfterFunc(d, func() { c.cancel(DeadlineExceeded, nil, false) })
	}
	return c, func() {
		if vsched.Active() {
			vsched.Point()
		}
		c.cancel(Canceled, nil, true)
		c.detach()
	}
}

func WithDeadline(parent Context, t time.Time) (Context, CancelFunc) {
	var now time.Time
	if vsched.Active() {
		now = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(vsched.Now()))
	} else {
		now = time.Now()
	}
	return WithTimeout(parent, t.Sub(now))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithTimeout(parent, d)
}

func WithDeadlineCause(parent Context, t time.Time, cause error) (Context, CancelFunc) {
	return WithDeadline(parent, t)
}

func WithValue(parent Context, key, val any) Context { return context.WithValue(parent, key, val) }
func WithoutCancel(parent Context) Context           { return context.WithoutCancel(parent) }

func Cause(c Context) error {
	if k, ok := c.Value(keyT{}).(*ctx); ok {
		return k.cause
	}
	return context.Cause(c)
}

func AfterFunc(c Context, f func()) (stop func() bool) {
	stopped := make(chan struct{})
	fired, st := false, false
	vsched.Go(func() {
		r1 := vsched.RecvCase(c.Done())
		r2 := vsched.RecvCase(stopped)
		if vsched.Select(false, r1, r2) == 0 && !st {
			fired = true
			f()
		}
	})
	return func() bool {
		if fired || st {
			return false
		}
		st = true
		vsched.Close(stopped)
		return true
	}
}
