package main

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/myyrakle/gost"

	"gostverif/mon"
)

func init() {
	mon.Rule("M01", "a case is one concurrent run on real locks; non-trivial when at least two threads took the lock and at least one acquisition overlapped another thread's attempt; distinct by the recorded order of holders (the interleaving)")
	reg("M01", "exclusion-and-order", 2400, 48000, mutexHistory)
	reg("M01", "no-lost-update", 1200, 24000, mutexCounter)
	mon.Reg("M01", "sequential-model", 6000, 80000, mutexModel)
	reg("M01", "blocked-waiters-proceed", 800, 16000, mutexWaiters)
	reg("M01", "try-lock-never-blocks", 800, 16000, mutexTry)
	mon.Reg("M01", "long-hold", 8, 160, mutexLongHold)
	reg("M01", "guarded-collections", 600, 12000, mutexCollections)
	mon.RegSerial("M01", "crowd", 14, 120, mutexCrowd)
	mon.Reg("M01", "many-turns", 4, 40, mutexTurns)
	mon.Need("M01", "waiter in a crowd", 1000)
	mon.Need("M01", "contended acquisition", 200)
	mon.Need("M01", "try-lock succeeded", 200)
	mon.Need("M01", "try-lock refused", 200)
	mon.Need("M01", "waiter woken", 200)
}

// section is one critical section as its thread saw it. Times come from one
// global counter, so that "before" means before in real time.
type section struct {
	thread           int
	call, got        int64 // around Lock
	rel, done        int64 // around Unlock
	read, wrote      uint64
	try, blockedTime bool
}

type cell struct {
	version uint64
	check   uint64
	log     []uint64
}

func mutexHistory(c *mon.Case) {
	threads := c.R.In(2, 8)
	per := c.R.In(5, 60)
	tryShare := mon.Pick(c.R, 0, 0, 20, 50, 100)
	kind := c.R.N(4)
	c.Op("run", threads, per, tryShare, kind)
	m := gost.MutexNew(cell{version: 1, check: 1 * 31})
	var clock, holders atomic.Int64
	recs := make([][]section, threads)
	fails := make([][]section, threads)
	seeds := make([]uint64, threads)
	for i := range seeds {
		seeds[i] = c.R.U64()
	}
	start := make(chan struct{})
	var g mon.Group
	for t := 0; t < threads; t++ {
		g.Go(func() {
			j := newJitter(seeds[t], kind)
			<-start
			for i := 0; i < per; i++ {
				s := section{thread: t, try: j.r.N(100) < tryShare}
				var p *cell
				s.call = clock.Add(1)
				if s.try {
					r := m.TryLock()
					s.got = clock.Add(1)
					if bool(r.IsErr()) {
						if bool(r.IsOk()) {
							panic("a try-lock both succeeded and failed")
						}
						fails[t] = append(fails[t], s)
						j.here()
						continue
					}
					p = r.Unwrap()
				} else {
					p = m.Lock()
					s.got = clock.Add(1)
				}
				if n := holders.Add(1); n != 1 {
					panic(fmt.Sprintf("%d threads hold the lock at once", n))
				}
				s.read = p.version
				if p.check != p.version*31 || uint64(len(p.log))+1 != p.version {
					panic(fmt.Sprintf("a holder sees a half-made change: version %d, check %d, %d entries", p.version, p.check, len(p.log)))
				}
				j.here()
				p.log = append(p.log, p.version)
				j.here()
				p.version++
				j.here()
				p.check = p.version * 31
				s.wrote = p.version
				if n := holders.Add(-1); n != 0 {
					panic("another thread took the lock while it was held")
				}
				s.rel = clock.Add(1)
				m.Unlock()
				s.done = clock.Add(1)
				recs[t] = append(recs[t], s)
				j.here()
			}
		})
	}
	close(start)
	g.Wait()
	var all, refused []section
	for t := range recs {
		all = append(all, recs[t]...)
		refused = append(refused, fails[t]...)
	}
	// The versions read and written give the order of the sections; it must be
	// one chain, and a section that ended before another was asked for must
	// come before it.
	sort.Slice(all, func(i, j int) bool { return all[i].read < all[j].read })
	h, used, overlap := uint64(threads), map[int]bool{}, 0
	for i, s := range all {
		c.Check(s.read == uint64(i+1) && s.wrote == s.read+1, "the updates of the holders do not form one chain: section %d read version %d and wrote %d", i, s.read, s.wrote)
		if i > 0 {
			p := all[i-1]
			c.Check(p.rel < s.got, "two sections overlap: thread %d held until %d, thread %d from %d", p.thread, p.rel, s.thread, s.got)
			if p.rel > s.call {
				overlap++
			}
		}
		h = mon.Mix(h, uint64(s.thread))
		used[s.thread] = true
		if s.try {
			c.Event("try-lock succeeded")
		}
	}
	p := m.Lock()
	c.Check(p.version == uint64(len(all)+1), "after %d sections the value carries %d updates", len(all), p.version-1)
	m.Unlock()
	// A refusal needs someone else's section in progress.
	for _, f := range refused {
		c.Event("try-lock refused")
		ok := false
		for _, s := range all {
			if s.call < f.got && s.done > f.call && s.thread != f.thread {
				ok = true
				break
			}
		}
		for _, o := range refused {
			if !ok && o.thread != f.thread && o.call < f.got && o.got > f.call {
				ok = true
			}
		}
		c.Check(ok, "a try-lock was refused although nothing else was using the lock")
	}
	c.Evals(2*len(all) + len(refused))
	c.EventN("acquisitions", len(all))
	c.EventN("contended acquisition", overlap)
	c.State(h)
	if len(used) > 1 && overlap > 0 {
		c.Nontrivial()
		c.Op("order", h)
	}
}

// mutexCounter: plain increments; the race detector watches their ordering.
func mutexCounter(c *mon.Case) {
	threads, per, kind := c.R.In(2, 16), c.R.In(20, 300), c.R.N(4)
	locks := c.R.In(1, 3)
	c.Op("run", threads, per, kind, locks)
	ms := make([]*gost.Mutex[gost.U64], locks)
	for i := range ms {
		m := gost.MutexNew(gost.U64(0))
		ms[i] = &m
	}
	want := make([]atomic.Int64, locks)
	seed := c.R.U64()
	var g mon.Group
	for t := 0; t < threads; t++ {
		g.Go(func() {
			j := newJitter(seed+uint64(t), kind)
			for i := 0; i < per; i++ {
				k := j.r.N(locks)
				m := ms[k]
				var p *gost.U64
				if j.r.N(3) == 0 {
					r := m.TryLock()
					if bool(r.IsErr()) {
						continue
					}
					p = r.Unwrap()
				} else {
					p = m.Lock()
				}
				v := *p
				j.here()
				*p = v + 1
				want[k].Add(1)
				m.Unlock()
			}
		})
	}
	g.Wait()
	for k, m := range ms {
		got := *m.Lock()
		m.Unlock()
		c.Check(int64(got) == want[k].Load(), "%d increments under the lock left %d", want[k].Load(), got)
		c.Evals(1)
		c.EventN("acquisitions", int(got))
	}
	c.Nontrivial()
}

// mutexModel: one thread at a time acts, so every outcome is determined.
func mutexModel(c *mon.Case) {
	init := c.R.U64()
	m := gost.MutexNew(init)
	held := false
	val := init
	var p *uint64
	n := c.R.In(5, 30)
	for i := 0; i < n; i++ {
		// each step may run on a different thread: the lock belongs to no thread
		step := func(f func()) {
			if c.R.N(3) == 0 {
				var g mon.Group
				g.Go(f)
				g.Wait()
			} else {
				f()
			}
		}
		switch k := c.R.N(10); {
		case k < 4:
			c.Op("try", held)
			step(func() {
				r := m.TryLock()
				ok, bad := bool(r.IsOk()), bool(r.IsErr())
				c.Check(ok != bad, "a try-lock neither succeeded nor failed")
				c.Check(ok == !held, "try-lock on a lock that is held=%v succeeded=%v", held, ok)
				if ok {
					p = r.Unwrap()
					held = true
				} else {
					c.Check(r.UnwrapErr() != nil, "a refused try-lock carries no error")
				}
			})
			if held {
				c.Event("try-lock succeeded")
			}
		case k < 6:
			if !held {
				c.Op("lock")
				step(func() { p = m.Lock() })
				held = true
			}
		case k < 8:
			if held {
				c.Op("unlock")
				step(func() { m.Unlock() })
				held = false
			}
		default:
			if held {
				c.Check(*p == val, "a holder reads %d, the last holder left %d", *p, val)
				val = c.R.U64()
				c.Op("set")
				step(func() { *p = val })
			}
		}
		if held {
			c.Check(*p == val, "a holder reads %d, the last holder left %d", *p, val)
		}
		c.Evals(1)
	}
	if held {
		m.Unlock()
	}
	q := m.Lock()
	c.Check(*q == val, "the value is %d, the last holder left %d", *q, val)
	m.Unlock()
	c.Nontrivial()
}

// mutexWaiters: every blocked thread gets its turn once the holder lets go.
func mutexWaiters(c *mon.Case) {
	n := c.R.In(1, 40)
	c.Op("waiters", n)
	m := gost.MutexNew(0)
	order := []int{}
	p := m.Lock()
	var started, entered atomic.Int64
	done := make(chan struct{})
	var g mon.Group
	for i := 0; i < n; i++ {
		g.Go(func() {
			started.Add(1)
			q := m.Lock()
			entered.Add(1)
			*q++
			order = append(order, i)
			m.Unlock()
		})
	}
	for started.Load() != int64(n) {
		runtime.Gosched()
	}
	if c.R.Bool() {
		time.Sleep(200 * time.Microsecond)
	}
	c.Check(entered.Load() == 0, "%d threads passed a lock that is held", entered.Load())
	c.Check(*p == 0, "the value changed under its holder")
	for i := 0; i < 3; i++ {
		r := m.TryLock()
		c.Check(bool(r.IsErr()), "a try-lock succeeded on a held lock")
		c.Event("try-lock refused")
	}
	m.Unlock()
	go func() { g.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		c.Fail("the lock was released, but %d of %d waiting threads never got it", int64(n)-entered.Load(), n)
	}
	g.Wait()
	c.Check(len(order) == n && *m.Lock() == n, "%d waiters, %d turns", n, len(order))
	m.Unlock()
	c.Evals(n)
	c.EventN("waiter woken", n)
	h := uint64(n)
	for _, x := range order {
		h = mon.Mix(h, uint64(x))
	}
	c.State(h)
	c.Nontrivial()
}

// mutexTry: with the lock held until the tries are over, a try that blocked
// would never return.
func mutexTry(c *mon.Case) {
	threads, per := c.R.In(1, 8), c.R.In(1, 20)
	c.Op("tries", threads, per)
	m := gost.MutexNew(gost.String("x"))
	m.Lock()
	var refused atomic.Int64
	done := make(chan struct{})
	var wg sync.WaitGroup
	for t := 0; t < threads; t++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				if r := m.TryLock(); bool(r.IsErr()) {
					refused.Add(1)
				}
			}
		}()
	}
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		c.Fail("a try-lock on a held lock blocks")
	}
	c.Check(refused.Load() == int64(threads*per), "%d of %d try-locks on a held lock succeeded", int64(threads*per)-refused.Load(), threads*per)
	m.Unlock()
	r := m.TryLock()
	c.Check(bool(r.IsOk()), "a try-lock on a free lock, after refused ones, was refused")
	c.Check(*r.Unwrap() == "x", "the value changed")
	m.Unlock()
	c.Evals(threads*per + 1)
	c.EventN("try-lock refused", threads*per)
	c.Event("try-lock succeeded")
	c.Nontrivial()
}

// mutexCollections: the library's own collections as the guarded value.
func mutexCollections(c *mon.Case) {
	threads, per, kind := c.R.In(2, 6), c.R.In(10, 60), c.R.N(3)
	c.Op("run", threads, per, kind)
	m := gost.MutexNew(gost.VecNew[gost.I64]())
	q := gost.MutexNew(gost.VecDequeNew[gost.I64]())
	h := gost.MutexNew(gost.HashMapNew[gost.I64, gost.I64]())
	b := gost.MutexNew(gost.BTreeMapNew[gost.I64, gost.I64]())
	seed := c.R.U64()
	var popped [8]int64
	var g mon.Group
	for t := 0; t < threads; t++ {
		g.Go(func() {
			j := newJitter(seed+uint64(t), kind)
			for i := 0; i < per; i++ {
				id := gost.I64(t*1000 + i)
				v := m.Lock()
				v.Push(id)
				j.here()
				m.Unlock()
				d := q.Lock()
				d.PushBack(id)
				if j.r.Bool() {
					if bool(d.PopFront().IsSome()) {
						popped[t]++
					}
				}
				q.Unlock()
				x := h.Lock()
				x.Insert(id, id)
				h.Unlock()
				j.here()
				y := b.Lock()
				y.Insert(id, id)
				b.Unlock()
			}
		})
	}
	g.Wait()
	n := threads * per
	v := m.Lock()
	c.Check(int(v.Len()) == n, "%d pushes under a lock left %d elements", n, v.Len())
	last := map[int64]int64{}
	for i := 0; i < n; i++ {
		x := int64(v.GetUnchecked(gost.USize(i)))
		t := x / 1000
		c.Check(last[t] == x%1000, "thread %d's pushes are out of order", t)
		last[t]++
	}
	m.Unlock()
	var pops int64
	for _, p := range popped {
		pops += p
	}
	c.Check(int64(q.Lock().Len()) == int64(n)-pops, "%d pushes and %d pops do not add up to what is left", n, pops)
	q.Unlock()
	c.Check(int(h.Lock().Len()) == n, "%d distinct inserts under a lock left a smaller map", n)
	h.Unlock()
	c.Check(int(b.Lock().Len()) == n, "%d distinct inserts under a lock left a smaller ordered map", n)
	b.Unlock()
	c.Evals(n + 4)
	c.Nontrivial()
}

// mutexLongHold: however long the lock is held, nobody else passes it.
func mutexLongHold(c *mon.Case) {
	hold := time.Duration(300+(c.Index%8)*600) * time.Millisecond
	n := c.R.In(1, 6)
	c.Op("hold", hold, n)
	m := gost.MutexNew(0)
	p := m.Lock()
	var entered atomic.Int64
	stop := make(chan struct{})
	var g mon.Group
	for i := 0; i < n; i++ {
		try := c.R.P(0.3)
		g.Go(func() {
			if !try {
				q := m.Lock()
				entered.Add(1)
				*q++
				m.Unlock()
				return
			}
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Millisecond):
				}
				if r := m.TryLock(); bool(r.IsOk()) {
					entered.Add(1)
					*r.Unwrap()++
					m.Unlock()
					return
				}
			}
		})
	}
	for end := time.Now().Add(hold); time.Now().Before(end); {
		time.Sleep(5 * time.Millisecond)
		if k := entered.Load(); k != 0 {
			c.Fail("%d threads passed a lock held for %v", k, hold)
		}
		c.Evals(1)
	}
	c.Check(*p == 0, "the value changed under its holder")
	before := entered.Load()
	c.Check(before == 0, "%d threads passed a lock that is held", before)
	m.Unlock()
	close(stop)
	g.Wait()
	c.Check(int64(*m.Lock()) == entered.Load(), "%d turns left %d", entered.Load(), 0)
	m.Unlock()
	c.Event("long hold")
	c.Nontrivial()
}

// mutexCrowd: hundreds of threads wait for one lock at the same time.
func mutexCrowd(c *mon.Case) {
	n := []int{20, 40, 70, 130, 140, 260, 300, 520, 600, 70, 130, 260, 520, 1100}[c.Index%14] + c.R.N(10)
	turns, try := c.R.In(1, 2), c.R.P(0.5)
	c.Op("crowd", n, turns, try)
	m := gost.MutexNew(0)
	m.Lock()
	var asking, holders, got atomic.Int64
	var order []int
	var g mon.Group
	enter := func(i int, p *int) {
		if k := holders.Add(1); k != 1 {
			panic(fmt.Sprintf("%d of %d waiting threads hold the lock at once", k, n))
		}
		*p++
		order = append(order, i)
		if i%8 == 0 {
			runtime.Gosched()
		}
		if k := holders.Add(-1); k != 0 {
			panic("another thread took the lock while it was held")
		}
		got.Add(1)
		m.Unlock()
	}
	for i := 0; i < n; i++ {
		g.Go(func() {
			for k := 0; k < turns; k++ {
				asking.Add(1)
				if try && i%3 == 0 {
					if r := m.TryLock(); bool(r.IsOk()) {
						enter(i, r.Unwrap())
						continue
					}
				}
				enter(i, m.Lock())
			}
		})
	}
	for asking.Load() < int64(n) {
		time.Sleep(time.Millisecond)
	}
	time.Sleep(5 * time.Millisecond)
	c.Check(got.Load() == 0, "%d threads passed a held lock", got.Load())
	m.Unlock()
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { recover() }()
		g.Wait()
	}()
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		c.Fail("the lock was released, but only %d of %d turns came", got.Load(), n*turns)
	}
	g.Wait()
	c.Check(*m.Lock() == n*turns && len(order) == n*turns, "%d turns left %d", n*turns, len(order))
	m.Unlock()
	h := uint64(n)
	for _, x := range order {
		h = mon.Mix(h, uint64(x))
	}
	c.State(h)
	c.Op("order", h)
	c.Evals(n * turns)
	c.EventN("waiter in a crowd", n)
	c.Nontrivial()
}

// mutexTurns: one lock taken more often than a 16-bit count can tell.
func mutexTurns(c *mon.Case) {
	threads := c.R.In(1, 4)
	per := 140000 / threads
	c.Op("turns", threads, per)
	m := gost.MutexNew(uint64(0))
	var holders atomic.Int64
	var g mon.Group
	for t := 0; t < threads; t++ {
		g.Go(func() {
			for i := 0; i < per; i++ {
				var p *uint64
				if i%16 == 5 {
					r := m.TryLock()
					if bool(r.IsErr()) {
						if threads == 1 {
							panic(fmt.Sprintf("turn %d: a try-lock on a free lock was refused", i))
						}
						p = m.Lock()
					} else {
						p = r.Unwrap()
					}
				} else {
					p = m.Lock()
				}
				if holders.Add(1) != 1 {
					panic("two threads hold the lock at once")
				}
				*p++
				holders.Add(-1)
				m.Unlock()
			}
		})
	}
	g.Wait()
	v := *m.Lock()
	m.Unlock()
	c.Check(v == uint64(threads*per), "%d turns left %d", threads*per, v)
	c.Evals(threads * per)
	c.Nontrivial()
}
