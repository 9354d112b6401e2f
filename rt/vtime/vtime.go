//go:build go1.23

// Package vtime replaces time: the clock and all timers are virtual.
package vtime

import (
	"time"

	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
)

var (
	UTC             = time.UTC
	Local           = time.Local
	ParseDuration   = time.ParseDuration
	FixedZone       = time.FixedZone
	LoadLocation    = time.LoadLocation
	Date            = time.Date
	Parse           = time.Parse
	ParseInLocation = time.ParseInLocation
	Unix            = time.Unix
	UnixMicro       = time.UnixMicro
	UnixMilli       = time.UnixMilli
)

var base = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)

func Now() Time {
	if !vsched.Active() {
		if vsched.Killing() {
			return base
		}
		return time.Now()
	}
	return base.Add(time.Duration(vsched.Now()))
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	if !vsched.Active() {
		if !vsched.Killing() {
			time.Sleep(d)
		}
		return
	}
	if d <= 0 {
		vsched.Yield()
		return
	}
	vsched.Point()
	t := vsched.Cur()
	vsched.NewVTimer(int64(d), 0, func() { t.Wake() })
	vsched.Block("sleep")
}

// Timer replaces time.Timer.
type Timer struct {
	C  <-chan Time
	c  chan Time
	vt *vsched.Timer
	rt *time.Timer
}

func NewTimer(d Duration) *Timer {
	if !vsched.Active() {
		rt := time.NewTimer(d)
		return &Timer{C: rt.C, rt: rt}
	}
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.vt = vsched.NewVTimer(int64(d), 0, func() { vsched.TrySendNow(c, base.Add(time.Duration(vsched.Now()))) })
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	if !vsched.Active() {
		return &Timer{rt: time.AfterFunc(d, f)}
	}
	vsched.Point()
	t := &Timer{}
	t.vt = vsched.NewVTimer(int64(d), 0, func() { vsched.GoNamed("AfterFunc", f) })
	return t
}

func (t *Timer) Stop() bool {
	if t.rt != nil {
		return t.rt.Stop()
	}
	if vsched.Killing() {
		return false
	}
	vsched.Point()
	was := t.vt.Disarm()
	if t.c != nil {
		vsched.Drain(t.c)
	}
	return was
}

func (t *Timer) Reset(d Duration) bool {
	if t.rt != nil {
		return t.rt.Reset(d)
	}
	if vsched.Killing() {
		return false
	}
	vsched.Point()
	was := t.vt.Arm(int64(d), 0)
	if t.c != nil {
		vsched.Drain(t.c)
	}
	return was
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker replaces time.Ticker.
type Ticker struct {
	C  <-chan Time
	c  chan Time
	vt *vsched.Timer
	rt *time.Ticker
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !vsched.Active() {
		rt := time.NewTicker(d)
		return &Ticker{C: rt.C, rt: rt}
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c}
	t.vt = vsched.NewVTimer(int64(d), int64(d), func() { vsched.TrySendNow(c, base.Add(time.Duration(vsched.Now()))) })
	return t
}

func Tick(d Duration) <-chan Time { return NewTicker(d).C }

func (t *Ticker) Stop() {
	if t.rt != nil {
		t.rt.Stop()
		return
	}
	if vsched.Killing() {
		return
	}
	vsched.Point()
	t.vt.Disarm()
}

func (t *Ticker) Reset(d Duration) {
	if t.rt != nil {
		t.rt.Reset(d)
		return
	}
	if vsched.Killing() {
		return
	}
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.vt.Arm(int64(d), int64(d))
}
