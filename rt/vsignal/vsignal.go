//go:build go1.23

// Package vsignal replaces os/signal: signals are raised by the harness and reach the channels registered for them.
package vsignal

import (
	"context"
	"os"

	"github.com/aws/go-kafka-event-source/streams/zverif/vcontext"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

type reg struct {
	c    chan<- os.Signal
	sigs []os.Signal // none: all
}

var (
	regs []*reg
	obj  vsched.Obj
)

func init() { vsched.OnReset(func() { regs = nil }) }

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	vsched.Point()
	obj.Write(1)
	regs = append(regs, &reg{c, append([]os.Signal{}, sigs...)})
}

func Stop(c chan<- os.Signal) {
	vsched.Point()
	obj.Write(2)
	var l []*reg
	for _, r := range regs {
		if r.c != c {
			l = append(l, r)
		}
	}
	regs = l
}

func Reset(sigs ...os.Signal) {
	vsched.Point()
	obj.Write(3)
	if len(sigs) == 0 {
		regs = nil
	}
	for _, r := range regs {
		var l []os.Signal
		for _, s := range r.sigs {
			if !has(sigs, s) {
				l = append(l, s)
			}
		}
		if len(l) == 0 {
			l = []os.Signal{nil}
		}
		r.sigs = l
	}
}

func has(l []os.Signal, s os.Signal) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Raise delivers a signal; it reports whether anybody is registered for it.
func Raise(s os.Signal) (ok bool) {
	vsched.Point()
	obj.Write(4)
	for _, r := range regs {
		if len(r.sigs) == 0 || has(r.sigs, s) {
			ok = true
			vsched.TrySendTo(r.c, s)
		}
	}
	return
}

// Ignore takes the signals from everybody; a raised signal that is ignored reaches nobody.
func Ignore(sigs ...os.Signal) { Reset(sigs...) }

func Ignored(os.Signal) bool { return false }

func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := vcontext.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sigs...)
	vsched.GoNamed("signal.NotifyContext", func() {
		if i := vsched.Select(false, vsched.RecvCase(c), vsched.RecvCase(ctx.Done())); i == 0 {
			cancel()
		}
	})
	return ctx, func() { cancel(); Stop(c) }
}
