//go:build !vals

package main

import (
	"slices"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

// Waves: long histories in phases, in which a collection grows to thousands of
// elements, is churned so that its contents move through its memory, is
// drained to some fraction or to nothing, and grows again. Every call is
// checked against the model; the whole content at the end of each phase.

func init() {
	mon.Reg("C01", "waves", 60, 2000, vecWaves)
	mon.Reg("C03", "waves", 120, 4000, dequeWaves)
	mon.Reg("C04", "waves", 60, 2000, listWaves)
	mon.Reg("C05", "waves-map", 50, 1500, func(c *mon.Case) { hashWaves(c, false) })
	mon.Reg("C05", "waves-set", 40, 1000, func(c *mon.Case) { hashWaves(c, true) })
	mon.Reg("C06", "waves", 24, 600, func(c *mon.Case) { treeWaves(c, false) })
	mon.Reg("C07", "waves", 24, 600, func(c *mon.Case) { treeWaves(c, true) })
	mon.Reg("C09", "waves", 60, 2000, heapWaves)
	for _, id := range []string{"C01", "C03", "C04", "C05", "C06", "C07", "C09"} {
		mon.Need(id, "wave drained to a fraction", 10)
		mon.Need(id, "wave drained to empty", 3)
	}
}

// waves calls step until the length that it returns reaches each of a series
// of targets; step is told whether to grow, and churn keeps the length.
func waves(c *mon.Case, grow, shrink, churn func(), length func() int, whole func()) {
	r := c.R
	peak := mon.Pick(r, 100, 500, 1000, 1100, 2000, 3000, 5000)
	if r.P(0.1) {
		peak = mon.Pick(r, 9000, 17000)
	}
	c.Nontrivial()
	for ph := r.In(3, 7); ph > 0; ph-- {
		top := max(1, peak*mon.Pick(r, 20, 50, 90, 100, 100, 110)/100+r.In(-2, 2))
		c.Op("grow to", top)
		for length() < top {
			grow()
			c.Evals(1)
		}
		if r.P(0.5) {
			whole()
		}
		for k := mon.Pick(r, 0, 0, 3, r.N(top+1), top, 2*top); k > 0; k-- {
			churn()
			c.Evals(1)
		}
		low := mon.Pick(r, 0, 1, r.N(10), top/32, top/16, top/8, top/5, top/4, top/3, top/2, top*3/4)
		low = max(0, low-r.N(2))
		c.Op("shrink to", low)
		if low == 0 {
			c.Event("wave drained to empty")
		} else {
			c.Event("wave drained to a fraction")
		}
		n := 0
		for length() > low {
			shrink()
			c.Evals(1)
			if n++; n%512 == 0 && r.P(0.3) {
				for k := r.N(40); k > 0; k-- {
					churn()
				}
			}
		}
		whole()
	}
}

func vecWaves(c *mon.Case) {
	r := c.R
	v := gost.VecNew[gost.I32]()
	if r.Bool() {
		v = gost.VecWithCapacity[gost.I32](gost.USize(r.N(3000)))
	}
	var m []gost.I32
	next := gost.I32(0)
	same := kI32.Same
	push := func() {
		next++
		v.Push(next)
		m = append(m, next)
	}
	pop := func() {
		wantSome(c, "Pop()", v.Pop(), m[len(m)-1], same)
		m = m[:len(m)-1]
	}
	length := func() int {
		c.Check(int(v.Len()) == len(m), "Len() is %d, want %d", v.Len(), len(m))
		return len(m)
	}
	waves(c, push, pop, func() {
		switch {
		case len(m) > 0 && r.P(0.6):
			i := r.N(len(m))
			next++
			v.Set(gost.USize(i), next)
			m[i] = next
			j := r.N(len(m))
			wantSome(c, "Get", v.Get(gost.USize(j)), m[j], same)
		case r.P(0.05):
			i := r.N(len(m) + 1)
			next++
			v.Insert(gost.USize(i), next)
			m = slices.Insert(m, i, next)
		default:
			push()
			pop()
		}
	}, length, func() {
		length()
		sameSeq(c, "AsSlice()", v.AsSlice(), m, same)
		if r.P(0.1) {
			v.Reserve(gost.USize(r.N(2000)))
			sameSeq(c, "AsSlice() after Reserve", v.AsSlice(), m, same)
		}
	})
}

// queue is a model for both ends with cheap steps.
type queue struct {
	xs   []gost.I32
	off  int
	next gost.I32
}

func (q *queue) all() []gost.I32 { return q.xs[q.off:] }
func (q *queue) n() int          { return len(q.xs) - q.off }
func (q *queue) back() gost.I32  { q.next++; q.xs = append(q.xs, q.next); return q.next }
func (q *queue) front() gost.I32 {
	if q.off == 0 {
		room := len(q.xs) + 16
		q.xs = append(make([]gost.I32, room, 2*room+len(q.xs)), q.xs...)
		q.off = room
	}
	q.next++
	q.off--
	q.xs[q.off] = q.next
	return q.next
}
func (q *queue) popFront() gost.I32 { q.off++; return q.xs[q.off-1] }
func (q *queue) popBack() gost.I32 {
	x := q.xs[len(q.xs)-1]
	q.xs = q.xs[:len(q.xs)-1]
	return x
}

func dequeWaves(c *mon.Case) {
	r := c.R
	d := gost.VecDequeNew[gost.I32]()
	if r.P(0.3) {
		d = gost.VecDequeWithCapacity[gost.I32](gost.USize(r.N(3000)))
	}
	q := &queue{}
	// the share of each kind of step that works at the front
	in, out := mon.Pick(r, 0, 0, 100, 50, 5), mon.Pick(r, 0, 100, 100, 50, 95)
	push := func() {
		if r.N(100) < in {
			d.PushFront(q.front())
		} else {
			d.PushBack(q.back())
		}
	}
	pop := func() {
		if r.N(100) < out {
			wantSome(c, "PopFront()", d.PopFront(), q.popFront(), kI32.Same)
		} else {
			wantSome(c, "PopBack()", d.PopBack(), q.popBack(), kI32.Same)
		}
	}
	length := func() int {
		c.Check(int(d.Len()) == q.n(), "Len() is %d, want %d", d.Len(), q.n())
		return q.n()
	}
	waves(c, push, pop, func() {
		push()
		pop()
	}, length, func() {
		length()
		m := q.all()
		c.Check(len(m) == int(d.Len()), "Len() is %d, want %d", d.Len(), len(m))
		for i, x := range m {
			if got := d.GetUnchecked(gost.USize(i)); got != x {
				c.Fail("element %d of %d is %v, want %v", i, len(m), got, x)
			}
		}
		if len(m) > 0 {
			wantSome(c, "Front()", d.Front(), m[0], kI32.Same)
			wantSome(c, "Back()", d.Back(), m[len(m)-1], kI32.Same)
		} else {
			wantNone(c, "Front()", d.Front())
			wantNone(c, "PopFront()", d.PopFront())
			wantNone(c, "PopBack()", d.PopBack())
		}
		switch r.N(10) {
		case 0:
			d.Reserve(gost.USize(r.N(2000)))
		case 1:
			sameSeq(c, "AsSlice()", d.AsSlice(), m, kI32.Same)
		case 2:
			in, out = out, in
		case 3:
			odd := func(x gost.I32) gost.Bool { return x&1 == 1 }
			d.Retain(odd)
			q.xs = slices.DeleteFunc(slices.Clone(m), func(x gost.I32) bool { return x&1 != 1 })
			q.off = 0
		case 4:
			sameSeq(c, "IntoIter()", drain(c, d.IntoIter(), len(m)), m, kI32.Same)
		}
	})
}

func listWaves(c *mon.Case) {
	r := c.R
	d := gost.LinkedListNew[gost.I32]()
	q := &queue{}
	in, out := mon.Pick(r, 0, 100, 50), mon.Pick(r, 0, 100, 50)
	push := func() {
		if r.N(100) < in {
			d.PushFront(q.front())
		} else {
			d.PushBack(q.back())
		}
	}
	pop := func() {
		if r.N(100) < out {
			wantSome(c, "PopFront()", d.PopFront(), q.popFront(), kI32.Same)
		} else {
			wantSome(c, "PopBack()", d.PopBack(), q.popBack(), kI32.Same)
		}
	}
	length := func() int {
		c.Check(int(d.Len()) == q.n(), "Len() is %d, want %d", d.Len(), q.n())
		return q.n()
	}
	waves(c, push, pop, func() {
		push()
		pop()
	}, length, func() {
		length()
		m := q.all()
		sameSeq(c, "IntoIter()", drain(c, d.IntoIter(), len(m)), m, kI32.Same)
		if len(m) > 0 {
			c.Check(*d.Front().Unwrap() == m[0], "Front() is %v, want %v", *d.Front().Unwrap(), m[0])
			c.Check(*d.Back().Unwrap() == m[len(m)-1], "Back() is %v, want %v", *d.Back().Unwrap(), m[len(m)-1])
		} else {
			wantNone(c, "PopFront()", d.PopFront())
			wantNone(c, "PopBack()", d.PopBack())
		}
		if r.P(0.3) { // and from another list
			e := gost.LinkedListNew[gost.I32]()
			for k := mon.Pick(r, 0, 1, 5, 1000); k > 0; k-- {
				e.PushBack(q.back())
			}
			d.Append(&e)
			c.Check(bool(e.IsEmpty()) && e.Len() == 0, "an appended list still has %d elements", e.Len())
			in, out = out, in
		}
	})
}

func hashWaves(c *mon.Case, set bool) {
	r := c.R
	h, s := gost.HashMapNew[gost.I32, gost.I32](), gost.HashSetNew[gost.I32]()
	m := map[gost.I32]gost.I32{}
	var keys []gost.I32 // those present
	next := gost.I32(0)
	stride := mon.Pick[gost.I32](r, 1, 7, 64, 1<<16, 1<<20+3)
	insert := func(k gost.I32) {
		next++
		old, had := m[k]
		m[k] = next
		if set {
			got := bool(s.Insert(k))
			c.Check(got == !had, "Insert(%v) is %v, but it was present: %v", k, got, had)
			return
		}
		o := h.Insert(k, next)
		c.Check(bool(o.IsSome()) == had && (!had || o.Unwrap() == old), "Insert(%v) returned %v, want %v (present %v)", k, o, old, had)
	}
	grow := func() {
		k := gost.I32(r.N(100000)) * stride
		if _, had := m[k]; !had {
			keys = append(keys, k)
		}
		insert(k)
	}
	remove := func(k gost.I32) {
		old, had := m[k]
		delete(m, k)
		if set {
			got := bool(s.Remove(k))
			c.Check(got == had, "Remove(%v) is %v, but it was present: %v", k, got, had)
			return
		}
		o := h.Remove(k)
		c.Check(bool(o.IsSome()) == had && (!had || o.Unwrap() == old), "Remove(%v) returned %v, want %v (present %v)", k, o, old, had)
	}
	shrink := func() {
		i := r.N(len(keys))
		k := keys[i]
		keys[i] = keys[len(keys)-1]
		keys = keys[:len(keys)-1]
		remove(k)
		if r.P(0.1) {
			remove(k) // absent by now
		}
	}
	length := func() int {
		n := h.Len()
		if set {
			n = s.Len()
		}
		c.Check(int(n) == len(m), "Len() is %d, want %d", n, len(m))
		return len(m)
	}
	waves(c, grow, shrink, func() {
		if len(keys) == 0 || r.Bool() {
			grow()
			shrink()
		} else {
			insert(keys[r.N(len(keys))])
		}
	}, length, func() {
		length()
		for _, k := range keys {
			if set {
				c.Check(bool(s.Contains(k)), "Contains(%v) is false for a member", k)
			} else if o := h.Get(k); bool(o.IsNone()) || o.Unwrap() != m[k] {
				c.Fail("Get(%v) is %v, want %v", k, o, m[k])
			}
		}
		if set {
			sameBag(c, "IntoIter()", drain(c, s.IntoIter(), len(keys)), keys)
		} else {
			sameBag(c, "Keys()", drain(c, h.Keys(), len(keys)), keys)
			for _, e := range drain(c, h.IntoIter(), len(keys)) {
				x, had := m[e.Key]
				c.Check(had && x == e.Value, "IntoIter() gave %v, want %v (present %v)", e, x, had)
			}
		}
		if r.P(0.05) {
			h.Clear()
			s.Clear()
			clear(m)
			keys = nil
			length()
		}
	})
}

func treeWaves(c *mon.Case, set bool) {
	r := c.R
	t := &tree[gost.I32, gost.I32]{set: set, m: gost.BTreeMapNew[gost.I32, gost.I32](), s: gost.BTreeSetNew[gost.I32]()}
	o := &ordered[gost.I32, gost.I32]{cmp: kI32.Cmp}
	in, out := r.N(5), r.N(5)
	span := mon.Pick(r, 50000, 200000, 1<<20)
	up, down := gost.I32(0), gost.I32(0)
	hot := 0
	pick := func(how int) gost.I32 {
		switch how {
		case 0:
			up++
			return up
		case 1:
			down--
			return down
		case 2: // around a place that wanders
			hot += r.In(-3, 3)
			return gost.I32(hot + r.In(-40, 40))
		}
		return gost.I32(r.N(span))
	}
	grow := func() {
		k := pick(in)
		if _, had := o.find(k); had && r.Bool() {
			k = gost.I32(r.N(span))
		}
		t.insert(c, o, k, gost.I32(r.N(1000)), kI32)
	}
	shrink := func() {
		n := len(o.ks)
		i := r.N(n)
		switch out {
		case 0:
			i = 0
		case 1:
			i = n - 1
		case 2:
			i = min(n-1, max(0, n/2+r.In(-2, 2)))
		case 3:
			i = min(n-1, r.N(20))
		}
		k := o.ks[i]
		t.remove(c, o, k, kI32)
		if r.P(0.05) {
			t.remove(c, o, k, kI32) // absent by now
		}
	}
	waves(c, grow, shrink, func() {
		grow()
		shrink()
	}, func() int {
		if r.P(0.01) {
			n, empty := t.length()
			c.Check(n == len(o.ks) && empty == (n == 0), "Len() is %d, want %d", n, len(o.ks))
		}
		return len(o.ks)
	}, func() {
		var probes []gost.I32
		for i := 0; i < 20; i++ {
			probes = append(probes, pick(3))
		}
		checkTree(c, t, o, kI32, kI32, true, probes...)
		in, out = mon.Pick(r, in, r.N(5)), mon.Pick(r, out, r.N(5))
	})
}

// heapWaves counts how many of each value there are, so that every pop is
// checked at once; values come from a small range to have many ties, or from a
// wide one.
func heapWaves(c *mon.Case) {
	r := c.R
	h := gost.BinaryHeapNew[gost.I32]()
	span := mon.Pick(r, 5, 100, 4000)
	count := make([]int, span)
	n, most := 0, -1 // most: no value above it is present
	order := r.N(4)
	next := 0
	push := func() {
		x := r.N(span)
		switch order {
		case 0:
			next = (next + 1) % span
			x = next
		case 1:
			next = (next + span - 1) % span
			x = next
		}
		h.Push(gost.I32(x))
		count[x]++
		n++
		most = max(most, x)
	}
	pop := func() {
		for most >= 0 && count[most] == 0 {
			most--
		}
		o := h.Pop()
		c.Check(bool(o.IsSome()), "Pop() is None with %d elements", n)
		if got := o.Unwrap(); int(got) != most {
			c.Fail("Pop() gave %v, but the greatest of %d elements is %d", got, n, most)
		}
		count[most]--
		n--
	}
	length := func() int {
		c.Check(int(h.Len()) == n, "Len() is %d, want %d", h.Len(), n)
		return n
	}
	waves(c, push, pop, func() {
		push()
		pop()
	}, length, func() {
		length()
		seen := make([]int, span)
		for _, x := range h.AsSlice() {
			c.Check(x >= 0 && int(x) < span, "AsSlice() holds %v, which was never pushed", x)
			seen[x]++
		}
		c.Check(slices.Equal(seen, count), "the heap's elements are not those put in and not taken out")
		if n == 0 {
			wantNone(c, "Pop()", h.Pop())
		}
		if r.P(0.4) {
			g := gost.BinaryHeapNew[gost.I32]()
			for k := mon.Pick(r, 0, 1, 10, n, n+1, 2*n, 1000); k > 0; k-- {
				x := r.N(span)
				g.Push(gost.I32(x))
				count[x]++
				n++
				most = max(most, x)
			}
			h.Append(&g)
			c.Check(bool(g.IsEmpty()), "an appended heap still has %d elements", g.Len())
			length()
		}
	})
}
