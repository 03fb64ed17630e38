package main

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/myyrakle/gost"

	"gostverif/mon"
)

func init() {
	mon.Rule("T02", "a case is one sleep (or a group of simultaneous sleeps) measured on the monotonic clock; non-trivial when the duration is not zero; distinct by duration and construction")
	mon.Reg("T02", "at-least-the-duration", 400, 6000, sleepOne)
	mon.Reg("T02", "whole-seconds", 8, 24, sleepSeconds)
	mon.Reg("T02", "many-sleepers", 20, 200, sleepMany)
	mon.Reg("T02", "very-long-sleeps", 24, 100, sleepLong)
	mon.RegSerial("T02", "others-keep-running", 6, 40, sleepOthers)
	mon.Need("T02", "measured sleep", 300)
}

func build(c *mon.Case, ns uint64) (gost.Duration, string) {
	switch k := c.R.N(6); {
	case k == 0 && ns%1000 == 0:
		return gost.DurationFromMicros(gost.U64(ns / 1000)), "micros"
	case k == 1 && ns%1000000 == 0:
		return gost.DurationFromMillis(gost.U64(ns / 1000000)), "millis"
	case k == 2:
		return gost.DurationNew(gost.U64(ns/1000000000), gost.U32(ns%1000000000)), "new"
	case k == 3 && ns >= 1000000000 && ns < 4000000000:
		return gost.DurationNew(gost.U64(ns/1000000000-1), gost.U32(ns%1000000000)+1000000000), "carry"
	case k == 4 && ns%1000000000 == 0:
		return gost.DurationFromSecs(gost.U64(ns / 1000000000)), "secs"
	}
	return gost.DurationFromNanos(gost.U64(ns)), "nanos"
}

// timed sleeps and checks the lower bound; the upper one is only there to tell
// a hang, and is no statement about speed.
func timed(c *mon.Case, ns uint64) {
	d, how := build(c, ns)
	c.Op("sleep", ns, how)
	var took time.Duration
	within(c, fmt.Sprintf("waking up from a sleep of %d ns", ns), func() {
		t := time.Now()
		gost.Sleep(d)
		took = time.Since(t)
	})
	c.Evals(1)
	c.Check(took >= time.Duration(ns), "a sleep of %d ns (%s) returned after %d ns", ns, how, took.Nanoseconds())
	c.Check(took < time.Duration(ns)+20*time.Second, "a sleep of %d ns returned after %v", ns, took)
	c.Event("measured sleep")
	if ns > 0 {
		c.Nontrivial()
	}
}

func sleepOne(c *mon.Case) {
	var ns uint64
	switch c.R.N(7) {
	case 0:
		ns = uint64(c.R.N(3))
	case 1:
		ns = uint64(c.R.N(1000))
	case 2:
		ns = uint64(c.R.N(1000000))
	case 3:
		ns = uint64(c.R.N(1000)) * 1000
	case 4:
		ns = uint64(c.R.N(40)) * 1000000
	case 5:
		ns = uint64(c.R.N(40000000))
	default:
		ns = mon.Pick(c.R, uint64(999), 1000, 1001, 999999, 1000000, 1000001, 10000000, 99999999, 100000000, 100000001)
	}
	timed(c, ns)
}

func sleepSeconds(c *mon.Case) {
	timed(c, mon.Pick(c.R, uint64(999999999), 1000000000, 1000000001, 1100000000, 1500000000, 1000999999, 2000000000, 1099999999))
}

func sleepMany(c *mon.Case) {
	n := c.R.In(20, 200)
	c.Op("sleepers", n)
	ds := make([]uint64, n)
	for i := range ds {
		ds[i] = uint64(c.R.N(60)) * 1000000
	}
	var g mon.Group

	for i := range ds {
		d := gost.DurationFromNanos(gost.U64(ds[i]))
		g.Go(func() {
			t := time.Now()
			gost.Sleep(d)
			if took := time.Since(t); took < time.Duration(ds[i]) {
				panic(fmt.Sprintf("one of %d sleeps, of %d ns, returned after %d ns", n, ds[i], took.Nanoseconds()))
			}
		})
	}
	within(c, "waking up of many sleepers", g.Wait)

	c.Evals(n)
	c.EventN("measured sleep", n)
	c.Nontrivial()
}

// sleepLong: a sleep longer than anyone can wait for starts, and goes on.
func sleepLong(c *mon.Case) {
	const max = ^uint64(0)
	type dur struct {
		secs  uint64
		nanos uint32
	}
	x := mon.Pick(c.R, dur{max, 0}, dur{max, 999999999}, dur{max / 2, 0}, dur{1 << 33, 0}, dur{1 << 34, 5}, dur{9223372036, 854775807}, dur{9223372036, 854775808}, dur{9223372037, 0}, dur{9223372035, 999999999},
		dur{18446744073, 709551615}, dur{18446744073, 709551616}, dur{18446744074, 0}, dur{36893488147, 419103232}, dur{1 << 55, 1}, dur{1 << 63, 0}, dur{1<<63 - 1, 1}, dur{3600, 0}, dur{86400 * 365, 7}, dur{10, 0})
	c.Op("long", x.secs, int(x.nanos))
	d := gost.DurationNew(gost.U64(x.secs), gost.U32(x.nanos))
	ended := make(chan any, 1)
	go func() {
		defer func() { ended <- recover() }()
		gost.Sleep(d)
	}()
	wait := 60 * time.Millisecond
	select {
	case r := <-ended:
		if r != nil {
			c.Fail("a sleep of %d s and %d ns panicked: %v", x.secs, x.nanos, r)
		}
		c.Fail("a sleep of %d s and %d ns returned at once", x.secs, x.nanos)
	case <-time.After(wait):
	}
	c.Evals(1)
	c.Event("endless sleep still going on")
	c.Nontrivial()
}

// sleepOthers: with one processor, a sleeper must not keep it to itself.
func sleepOthers(c *mon.Case) {
	c.Op("others")
	old := runtime.GOMAXPROCS(1)
	defer runtime.GOMAXPROCS(old)
	var count atomic.Int64
	var stop atomic.Bool
	done := make(chan struct{})
	go func() {
		defer close(done)
		for !stop.Load() {
			count.Add(1)
			runtime.Gosched()
		}
	}()
	h := gost.Spawn(func() { gost.Sleep(gost.DurationFromMillis(30)) })
	t := time.Now()
	gost.Sleep(gost.DurationFromMillis(30))
	took := time.Since(t)
	n := count.Load()
	stop.Store(true)
	<-done
	h.Join()
	c.Check(took >= 30*time.Millisecond, "a sleep of 30 ms returned after %v", took)
	c.Check(n >= 3, "during a sleep another thread ran only %d steps", n)
	c.Evals(2)
	c.Event("measured sleep")
	c.Nontrivial()
}
