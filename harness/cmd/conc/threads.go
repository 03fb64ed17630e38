package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"

	"gostverif/mon"
)

func init() {
	mon.Rule("M02", "a case is one run of spawned threads; non-trivial when a join was waited for by more than one thread or called more than once, or a finished-test ran while the thread did; distinct by parameters and the observed order of ends")
	reg("M02", "join-sees-everything", 4000, 80000, threadJoins)
	reg("M02", "finished-test", 4000, 80000, threadFinished)
	reg("M02", "spawn-never-blocks", 2400, 40000, threadGate)
	reg("M02", "all-run-at-once", 240, 3200, threadBarrier)
	mon.Reg("M02", "long-running", 8, 80, longThread)
	mon.RegSerial("M02", "thousands-at-once", 2, 10, func(c *mon.Case) { thousands(c, false) })
	mon.RegSerial("M02", "crowd", 8, 60, func(c *mon.Case) { barrier(c, 600+c.R.N(3400)) })
	reg("M02", "trees-of-threads", 1200, 24000, threadTree)
	mon.RegSerial("M02", "unjoined-threads-end", 36, 450, func(c *mon.Case) { unclaimed(c, false) })
	mon.Need("M02", "join before the end", 100)
	mon.Need("M02", "join after the end", 100)
	mon.Need("M02", "repeated join", 100)
	mon.Need("M02", "finished seen false", 100)
	mon.Need("M02", "finished seen true", 100)

	mon.Rule("M03", "a case is one run of asynchronous tasks (non-trivial when a task was awaited more than once or by more than one thread) or one history of asynchronous file operations (non-trivial when at least four succeeded and one was refused)")
	reg("M03", "every-await-gets-the-result", 4800, 96000, awaits)
	mon.Reg("M03", "values-of-every-kind", 2400, 24000, awaitKinds)
	mon.Reg("M03", "long-running", 8, 80, longTask)
	mon.RegSerial("M03", "thousands-at-once", 2, 10, func(c *mon.Case) { thousands(c, true) })
	mon.RegSerial("M03", "crowd", 8, 60, func(c *mon.Case) { tasks(c, 600+c.R.N(3400)) })
	reg("M03", "all-run-at-once", 240, 3200, awaitBarrier)
	mon.RegSerial("M03", "unawaited-tasks-end", 36, 450, func(c *mon.Case) { unclaimed(c, true) })
	mon.Need("M03", "await before the end", 100)
	mon.Need("M03", "await after the end", 100)
	mon.Need("M03", "repeated await", 100)
	mon.Need("M03", "concurrent awaits", 100)
}

// within fails when f does not return in time.
func within(c *mon.Case, what string, f func()) {
	var g mon.Group
	done := make(chan struct{})
	g.Go(f)
	go func() {
		defer close(done)
		defer func() { recover() }()
		g.Wait()
	}()
	select {
	case <-done:
		g.Wait()
	case <-time.After(30 * time.Second):
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		c.Fail("%s did not happen within 30 s", what)
	}
}

// threadJoins: several threads, each joined any number of times from anywhere.
func threadJoins(c *mon.Case) {
	n, kind := c.R.In(1, 24), c.R.N(4)
	joiners := c.R.In(1, 4)
	goexit := c.R.P(0.15)
	c.Op("threads", n, kind, joiners, goexit)
	runs := make([]atomic.Int64, n)
	ended := make([]atomic.Bool, n)
	plain := make([]uint64, n) // written without a lock: join has to order it
	hs := make([]gost.JoinHandle, n)
	seed := c.R.U64()
	var before, after, again atomic.Int64
	var endOrder []int
	var mu sync.Mutex
	within(c, "joining every thread", func() {
		for i := 0; i < n; i++ {
			hs[i] = gost.Spawn(func() {
				j := newJitter(seed+uint64(i), kind)
				runs[i].Add(1)
				j.here()
				for k := 0; k < 10; k++ {
					plain[i] += uint64(i + k)
					j.here()
				}
				mu.Lock()
				endOrder = append(endOrder, i)
				mu.Unlock()
				ended[i].Store(true)
				if goexit && i%3 == 0 {
					runtime.Goexit() // another way for a thread to end
				}
			})
		}
		var g mon.Group
		for t := 0; t < joiners; t++ {
			g.Go(func() {
				j := newJitter(seed^uint64(t+77), kind)
				order := make([]int, n)
				for i := range order {
					order[i] = i
				}
				mon.Shuffle(j.r, order)
				for _, i := range order {
					j.here()
					times := 1 + j.r.N(3)
					for k := 0; k < times; k++ {
						if ended[i].Load() {
							after.Add(1)
						} else {
							before.Add(1)
						}
						r := hs[i].Join()
						if !bool(r.IsOk()) || bool(r.IsErr()) {
							panic("joining a thread that ended normally reported an error")
						}
						if k > 0 || joiners > 1 {
							again.Add(1)
						}
						if !ended[i].Load() {
							panic(fmt.Sprintf("join of thread %d returned before it had ended", i))
						}
						want := uint64(0)
						for k := 0; k < 10; k++ {
							want += uint64(i + k)
						}
						if plain[i] != want {
							panic(fmt.Sprintf("after join, thread %d's work is %d, not %d", i, plain[i], want))
						}
						if !bool(hs[i].IsFinished()) {
							panic("after join the finished-test is false")
						}
					}
				}
			})
		}
		g.Wait()
	})
	for i := range runs {
		c.Check(runs[i].Load() == 1, "thread %d ran %d times", i, runs[i].Load())
		c.Check(bool(hs[i].IsFinished()), "a joined thread is not finished any more")
	}
	c.Evals(2 * n * joiners)
	c.EventN("join before the end", int(before.Load()))
	c.EventN("join after the end", int(after.Load()))
	c.EventN("repeated join", int(again.Load()))
	h := uint64(n)
	for _, x := range endOrder {
		h = mon.Mix(h, uint64(x))
	}
	c.State(h)
	if again.Load() > 0 {
		c.Op("ended", h)
		c.Nontrivial()
	}
}

// threadFinished: the finished-test, from several threads, while it runs.
func threadFinished(c *mon.Case) {
	pollers, kind := c.R.In(1, 5), c.R.N(4)
	joinFirst := c.R.Bool()
	hold := c.R.Bool()
	c.Op("poll", pollers, kind, joinFirst, hold)
	gate := make(chan struct{})
	var work [4]uint64
	var ended atomic.Bool
	seed := c.R.U64()
	h := gost.Spawn(func() {
		j := newJitter(seed, kind)
		if hold {
			<-gate
		}
		for i := range work {
			j.here()
			work[i] = seed
		}
		ended.Store(true)
	})
	var no, yes int
	if hold {
		for i := 0; i < 20; i++ {
			c.Check(!bool(h.IsFinished()), "the finished-test is true while the thread is still waiting")
			no++
			runtime.Gosched()
		}
		close(gate)
	}
	var nos, yeses atomic.Int64
	within(c, "the finished-test turning true", func() {
		var g mon.Group
		for t := 0; t < pollers; t++ {
			g.Go(func() {
				j := newJitter(seed+uint64(t)+1, kind)
				hh := h // a copy of the handle
				was := false
				for k := 0; ; k++ {
					f := bool(hh.IsFinished())
					if f {
						yeses.Add(1)
						if !ended.Load() {
							panic("the finished-test is true before the thread ended")
						}
						for i := range work {
							if work[i] != seed {
								panic("finished, but its work is not visible")
							}
						}
						was = true
						if k > 30 {
							return
						}
					} else {
						nos.Add(1)
						if was {
							panic("the finished-test turned false again")
						}
						if k > 50 {
							time.Sleep(50 * time.Microsecond)
						}
					}
					if joinFirst && k == 10 && t == 0 {
						hh.Join()
						if !bool(hh.IsFinished()) {
							panic("after join the finished-test is false")
						}
					}
					j.here()
				}
			})
		}
		g.Wait()
		r := h.Join()
		if !bool(r.IsOk()) {
			panic("joining after the finished-test reported an error")
		}
		h.Join()
	})
	c.Check(bool(h.IsFinished()), "after join the finished-test is false")
	c.Evals(20 + int(nos.Load()+yeses.Load()))
	c.EventN("finished seen false", no+int(nos.Load()))
	c.EventN("finished seen true", yes+int(yeses.Load()))
	c.State(mon.Mix(uint64(nos.Load()), uint64(pollers)))
	c.Nontrivial()
}

// threadGate: the thread cannot go on before Spawn has returned.
func threadGate(c *mon.Case) {
	n := c.R.In(1, 30)
	c.Op("gate", n)
	gate := make(chan struct{})
	var ran atomic.Int64
	var hs []gost.JoinHandle
	within(c, "spawning threads that wait", func() {
		for i := 0; i < n; i++ {
			hs = append(hs, gost.Spawn(func() {
				<-gate
				ran.Add(1)
			}))
		}
	})
	c.Check(ran.Load() == 0, "a thread passed a closed gate")
	for _, h := range hs {
		c.Check(!bool(h.IsFinished()), "the finished-test is true while the thread is still waiting")
	}
	close(gate)
	within(c, "joining released threads", func() {
		for i := len(hs) - 1; i >= 0; i-- {
			hs[i].Join()
		}
	})
	c.Check(ran.Load() == int64(n), "%d of %d threads ran", ran.Load(), n)
	c.Evals(2*n + 2)
	c.EventN("finished seen false", n)
	c.Nontrivial()
}

// threadBarrier: all threads have to be running for any to go on.
func threadBarrier(c *mon.Case) { barrier(c, c.R.In(2, 400)) }

func barrier(c *mon.Case, n int) {
	c.Op("barrier", n)
	var arrived atomic.Int64
	all := make(chan struct{})
	var hs []gost.JoinHandle
	within(c, "spawned threads running side by side", func() {
		for i := 0; i < n; i++ {
			hs = append(hs, gost.Spawn(func() {
				if arrived.Add(1) == int64(n) {
					close(all)
				}
				<-all
			}))
		}
		for _, h := range hs {
			h.Join()
		}
	})
	c.Check(arrived.Load() == int64(n), "%d threads, %d runs", n, arrived.Load())
	c.Evals(n)
	c.Nontrivial()
}

// longThread: however long the thread runs, no join returns before its end.
func longThread(c *mon.Case) {
	run := time.Duration(300+(c.Index%8)*600) * time.Millisecond
	joiners := c.R.In(1, 4)
	c.Op("long", run, joiners)
	var ended atomic.Bool
	work := 0
	h := gost.Spawn(func() {
		time.Sleep(run)
		work = 7
		ended.Store(true)
	})
	within(c, "joining a long-running thread", func() {
		var g mon.Group
		for t := 0; t < joiners; t++ {
			g.Go(func() {
				h.Join()
				if !ended.Load() || work != 7 {
					panic("join returned before the thread had ended")
				}
			})
		}
		for {
			was := ended.Load()
			f := bool(h.IsFinished())
			if f {
				if !ended.Load() {
					panic("the finished-test is true before the thread ended")
				}
				break
			}
			if !was {
				c.Event("finished seen false")
			}
			time.Sleep(3 * time.Millisecond)
		}
		g.Wait()
	})
	c.Evals(joiners + 1)
	c.EventN("join before the end", joiners)
	c.Nontrivial()
}

// longTask: however long the task runs, no await returns before its end.
func longTask(c *mon.Case) {
	run := time.Duration(300+(c.Index%8)*600) * time.Millisecond
	waiters := c.R.In(1, 4)
	want := c.R.U64()
	c.Op("long", run, waiters)
	f := gokio.Spawn(func() uint64 {
		time.Sleep(run)
		return want
	})
	within(c, "awaiting a long-running task", func() {
		var g mon.Group
		for t := 0; t < waiters; t++ {
			g.Go(func() {
				for k := 0; k < 2; k++ {
					if got := f.Await(); got != want {
						panic(fmt.Sprintf("await of a task that ran for %v returned %d, not %d", run, got, want))
					}
				}
			})
		}
		g.Wait()
	})
	c.Evals(2 * waiters)
	c.EventN("await before the end", waiters)
	c.Nontrivial()
}

// thousands: there is no limit to how many may run at once.
func thousands(c *mon.Case, task bool) {
	n := c.R.In(3000, 5000)
	c.Op("at once", n, task)
	var arrived atomic.Int64
	all := make(chan struct{})
	body := func() {
		if arrived.Add(1) == int64(n) {
			close(all)
		}
		<-all
	}
	within(c, "thousands running side by side", func() {
		if task {
			fs := make([]gost.Future[int], n)
			for i := range fs {
				fs[i] = gokio.Spawn(func() int { body(); return i })
			}
			for i, f := range fs {
				if got := f.Await(); got != i {
					panic(fmt.Sprintf("task %d's await returned %d", i, got))
				}
			}
			return
		}
		hs := make([]gost.JoinHandle, n)
		for i := range hs {
			hs[i] = gost.Spawn(body)
		}
		for _, h := range hs {
			h.Join()
		}
	})
	c.Evals(n)
	c.Nontrivial()
}

// threadTree: threads that spawn and join threads.
func threadTree(c *mon.Case) {
	depth, width, kind := c.R.In(1, 4), c.R.In(1, 4), c.R.N(3)
	c.Op("tree", depth, width, kind)
	seed := c.R.U64()
	var total atomic.Int64
	var run func(d int, id uint64) uint64
	run = func(d int, id uint64) uint64 {
		total.Add(1)
		j := newJitter(seed+id, kind)
		if d == 0 {
			j.here()
			return 1
		}
		subs := make([]uint64, width)
		hs := make([]gost.JoinHandle, width)
		for i := range hs {
			hs[i] = gost.Spawn(func() { subs[i] = run(d-1, id*8+uint64(i)+1) })
			j.here()
		}
		sum := uint64(1)
		for i := range hs {
			hs[i].Join()
			sum += subs[i]
		}
		return sum
	}
	var got uint64
	within(c, "joining a tree of threads", func() {
		h := gost.Spawn(func() { got = run(depth, 1) })
		h.Join()
	})
	c.Check(got == uint64(total.Load()), "the tree counts %d threads, %d ran", got, total.Load())
	want, p := uint64(0), uint64(1)
	for i := 0; i <= depth; i++ {
		want += p
		p *= uint64(width)
	}
	c.Check(got == want, "a tree of %d threads counted %d", want, got)
	c.Evals(int(want))
	c.Nontrivial()
}

// unclaimed: threads nobody joins and tasks nobody awaits run once and end.
func unclaimed(c *mon.Case, task bool) {
	n := c.R.In(50, 300)
	c.Op("unclaimed", n)
	time.Sleep(time.Millisecond)
	base := runtime.NumGoroutine()
	var ran atomic.Int64
	for i := 0; i < n; i++ {
		if task {
			f := gokio.Spawn(func() int { ran.Add(1); return i })
			_ = f
		} else {
			h := gost.Spawn(func() { ran.Add(1) })
			if i%3 == 0 {
				h.IsFinished()
			}
		}
	}
	deadline := time.Now().Add(20 * time.Second)
	for time.Now().Before(deadline) {
		if ran.Load() == int64(n) && runtime.NumGoroutine() <= base+n/4 {
			break
		}
		time.Sleep(200 * time.Microsecond)
	}
	c.Check(ran.Load() == int64(n), "%d of %d ran although nobody waited for them", ran.Load(), n)
	left := runtime.NumGoroutine() - base
	c.Check(left <= n/4, "%d of %d that nobody waited for never ended", left, n)
	c.Evals(2)
	c.EventN("ended unclaimed", n)
	c.Nontrivial()
}

// ------------------------------------------------------------------ tasks

type result struct {
	id   int
	data []uint64
	p    *uint64
}

func awaits(c *mon.Case) {
	n, waiters, kind := c.R.In(1, 16), c.R.In(1, 5), c.R.N(4)
	hold := c.R.P(0.3)
	c.Op("tasks", n, waiters, kind, hold)
	runs := make([]atomic.Int64, n)
	ended := make([]atomic.Bool, n)
	effect := make([]uint64, n)
	cells := make([]uint64, n)
	seed := c.R.U64()
	gate := make(chan struct{})
	var before, after, again, conc atomic.Int64
	fs := make([]gost.Future[result], n)
	within(c, "starting tasks", func() {
		for i := range fs {
			fs[i] = gokio.Spawn(func() result {
				j := newJitter(seed+uint64(i), kind)
				if hold {
					<-gate
				}
				runs[i].Add(1)
				j.here()
				r := result{id: i, p: &cells[i]}
				for k := 0; k < 5; k++ {
					r.data = append(r.data, seed+uint64(i*10+k))
					j.here()
				}
				cells[i] = seed ^ uint64(i)
				effect[i] = seed - uint64(i)
				ended[i].Store(true)
				return r
			})
		}
	})
	within(c, "every await", func() {
		var g mon.Group
		if hold {
			g.Go(func() {
				time.Sleep(100 * time.Microsecond)
				close(gate)
			})
		}
		for t := 0; t < waiters; t++ {
			g.Go(func() {
				j := newJitter(seed^uint64(t+99), kind)
				order := make([]int, n)
				for i := range order {
					order[i] = i
				}
				mon.Shuffle(j.r, order)
				for _, i := range order {
					j.here()
					times := 1 + j.r.N(3)
					for k := 0; k < times; k++ {
						if ended[i].Load() {
							after.Add(1)
						} else {
							before.Add(1)
						}
						r := fs[i].Await()
						if k > 0 {
							again.Add(1)
						}
						if waiters > 1 {
							conc.Add(1)
						}
						if !ended[i].Load() {
							panic(fmt.Sprintf("await of task %d returned before it had ended", i))
						}
						if r.id != i || len(r.data) != 5 || r.data[4] != seed+uint64(i*10+4) || r.p != &cells[i] {
							panic(fmt.Sprintf("await number %d of task %d returned %+v", k+1, i, r))
						}
						if *r.p != seed^uint64(i) || effect[i] != seed-uint64(i) {
							panic(fmt.Sprintf("after await, task %d's effects are not visible", i))
						}
					}
				}
			})
		}
		g.Wait()
	})
	for i := range runs {
		c.Check(runs[i].Load() == 1, "task %d ran %d times", i, runs[i].Load())
	}
	c.Evals(n * waiters)
	c.EventN("await before the end", int(before.Load()))
	c.EventN("await after the end", int(after.Load()))
	c.EventN("repeated await", int(again.Load()))
	c.EventN("concurrent awaits", int(conc.Load()))
	c.State(mon.Mix(mon.Mix(uint64(before.Load()), uint64(after.Load())), uint64(n*8+waiters)))
	if again.Load() > 0 || waiters > 1 {
		c.Nontrivial()
	}
}

func awaitOne[T any](c *mon.Case, name string, v T, same func(a, b T) bool) {
	c.Op("await", name)
	var runs atomic.Int64
	f := gokio.Spawn(func() T { runs.Add(1); return v })
	within(c, "awaiting", func() {
		for k := 0; k < 3; k++ {
			got := f.Await()
			if !same(got, v) {
				panic(fmt.Sprintf("await number %d of a task that produced %v (%s) returned %v", k+1, v, name, got))
			}
		}
	})
	c.Check(runs.Load() == 1, "the task ran %d times", runs.Load())
	c.Evals(3)
	c.EventN("repeated await", 2)
}

// awaitKinds: results of every kind, zero and nil values included.
func awaitKinds(c *mon.Case) {
	eq := func(a, b int) bool { return a == b }
	awaitOne(c, "zero int", 0, eq)
	awaitOne(c, "int", int(c.R.Word()), eq)
	awaitOne(c, "string", gost.String(fmt.Sprint(c.R.U64())), func(a, b gost.String) bool { return a == b })
	awaitOne(c, "empty", struct{}{}, func(a, b struct{}) bool { return true })
	awaitOne[error](c, "nil error", nil, func(a, b error) bool { return a == b })
	awaitOne[any](c, "any", c.R.U64(), func(a, b any) bool { return a == b })
	p := new(int)
	awaitOne(c, "pointer", p, func(a, b *int) bool { return a == b })
	awaitOne(c, "some", gost.Some(gost.I32(c.R.N(100))), func(a, b gost.Option[gost.I32]) bool {
		return bool(a.IsSome()) && a.Unwrap() == b.Unwrap()
	})
	awaitOne(c, "none", gost.None[gost.I32](), func(a, b gost.Option[gost.I32]) bool { return bool(a.IsNone()) })
	awaitOne(c, "ok", gost.Ok(gost.I32(5)), func(a, b gost.Result[gost.I32]) bool {
		return bool(a.IsOk()) && a.Unwrap() == 5
	})
	awaitOne(c, "err", gost.Err[gost.I32](fmt.Errorf("e%d", c.Index)), func(a, b gost.Result[gost.I32]) bool {
		return bool(a.IsErr()) && a.UnwrapErr() == b.UnwrapErr()
	})
	v := gost.VecNew[gost.I32]()
	for i := 0; i < c.R.N(20); i++ {
		v.Push(gost.I32(i))
	}
	awaitOne(c, "vec", v, func(a, b gost.Vec[gost.I32]) bool { return bool(a.Eq(b)) })
	awaitOne(c, "func result of a task", func() int {
		return gokio.Spawn(func() int { return 7 }).Await()
	}(), eq)
	// a task that awaits a task
	within(c, "a task awaiting another", func() {
		inner := gokio.Spawn(func() int { time.Sleep(50 * time.Microsecond); return 41 })
		outer := gokio.Spawn(func() int { return inner.Await() + 1 })
		if outer.Await() != 42 || inner.Await() != 41 || outer.Await() != 42 {
			panic("nested awaits returned something else than the tasks produced")
		}
	})
	c.Evals(3)
	c.Nontrivial()
}

func awaitBarrier(c *mon.Case) { tasks(c, c.R.In(2, 400)) }

func tasks(c *mon.Case, n int) {
	c.Op("barrier", n)
	var arrived atomic.Int64
	all := make(chan struct{})
	within(c, "tasks running side by side", func() {
		fs := make([]gost.Future[int], n)
		for i := range fs {
			fs[i] = gokio.Spawn(func() int {
				if arrived.Add(1) == int64(n) {
					close(all)
				}
				<-all
				return i
			})
		}
		for i := n - 1; i >= 0; i-- {
			if got := fs[i].Await(); got != i {
				panic(fmt.Sprintf("task %d's await returned %d", i, got))
			}
		}
	})
	c.Check(arrived.Load() == int64(n), "%d tasks, %d runs", n, arrived.Load())
	c.Evals(n)
	c.Nontrivial()
}
