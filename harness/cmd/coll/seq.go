//go:build !vals

package main

import (
	"math"
	"slices"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

func init() {
	mon.Rule("C01", "a case is one history of edits on a vector (with a second vector for appends), checked against a Go slice after every edit; non-trivial when it has at least 4 edits")
	mon.Need("C01", "out-of-range access", 50)
	mon.Need("C01", "append of a second vector", 50)
	mon.Need("C01", "reserve that grew", 50)
	mon.Reg("C01", "vec-I32", 6000, 150000, func(c *mon.Case) { vecHistory(c, kI32) })
	mon.Reg("C01", "vec-U8", 2000, 60000, func(c *mon.Case) { vecHistory(c, kU8) })
	mon.Reg("C01", "vec-String", 3000, 80000, func(c *mon.Case) { vecHistory(c, kStr) })
	mon.Reg("C01", "vec-Item", 3000, 80000, func(c *mon.Case) { vecHistory(c, kItem) })

	mon.Rule("C03", "a case is one history of edits on a deque (with a second deque for appends), or one enumerated ring layout with every operation applied to it, checked against a Go slice after every edit; non-trivial when the ring wrapped")
	mon.Need("C03", "ring wrapped", 500)
	mon.Need("C03", "growth while wrapped", 200)
	mon.Need("C03", "append from a wrapped deque", 50)
	mon.Reg("C03", "deque-I32", 6000, 150000, func(c *mon.Case) { dequeHistory(c, kI32) })
	mon.Reg("C03", "deque-String", 3000, 80000, func(c *mon.Case) { dequeHistory(c, kStr) })
	mon.Reg("C03", "deque-Item", 3000, 80000, func(c *mon.Case) { dequeHistory(c, kItem) })
	mon.Reg("C03", "deque-layouts", 16, 40, dequeLayouts)

	mon.Rule("C04", "a case is one history of edits on a linked list (with a second list for appends), checked against a Go slice, forwards by iteration and backwards by popping; non-trivial when it has at least 4 edits")
	mon.Need("C04", "emptied and refilled", 100)
	mon.Need("C04", "append of a second list", 100)
	mon.Reg("C04", "list-I32", 6000, 150000, func(c *mon.Case) { listHistory(c, kI32) })
	mon.Reg("C04", "list-String", 3000, 80000, func(c *mon.Case) { listHistory(c, kStr) })
	mon.Reg("C04", "list-Item", 3000, 80000, func(c *mon.Case) { listHistory(c, kItem) })
}

func steps(c *mon.Case) int {
	if c.Big > 0 {
		return c.R.In(8, 40)
	}
	if c.Tier == "thorough" && c.R.P(0.1) {
		return c.R.In(100, 1500)
	}
	return c.R.In(1, mon.Pick(c.R, 6, 20, 60, 150))
}

func checkVec[T any](c *mon.Case, k Kit[T], v *gost.Vec[T], m []T) {
	c.Evals(1)
	c.Check(int(v.Len()) == len(m), "Len() is %d, want %d", v.Len(), len(m))
	c.Check(bool(v.IsEmpty()) == (len(m) == 0), "IsEmpty() is %v with %d elements", v.IsEmpty(), len(m))
	c.Check(v.Capacity() >= v.Len(), "Capacity() %d below Len() %d", v.Capacity(), v.Len())
	sameSeq(c, "AsSlice()", v.AsSlice(), m, k.Same)
	if len(m) <= 40 || c.R.P(0.1) {
		for i := range m {
			wantSome(c, "Get", v.Get(gost.USize(i)), m[i], k.Same)
			c.Check(k.Same(v.GetUnchecked(gost.USize(i)), m[i]), "GetUnchecked(%d) is %v, want %v", i, v.GetUnchecked(gost.USize(i)), m[i])
		}
	}
}

func outIndex(r *mon.Rand, n int) gost.USize {
	return mon.Pick(r, gost.USize(n), gost.USize(n+1), gost.USize(n+r.N(100)), gost.USize(math.MaxInt64), gost.USize(math.MaxUint64))
}

func newVec[T any](c *mon.Case) (gost.Vec[T], []T) {
	switch c.R.N(4) {
	case 0:
		n := c.R.N(20)
		c.Op("VecWithCapacity", n)
		v := gost.VecWithCapacity[T](gost.USize(n))
		c.Check(int(v.Capacity()) >= n, "VecWithCapacity(%d) has capacity %d", n, v.Capacity())
		return v, nil
	case 1:
		n := c.R.N(20)
		c.Op("VecWithLen", n)
		return gost.VecWithLen[T](gost.USize(n)), make([]T, n)
	}
	c.Op("VecNew")
	return gost.VecNew[T](), nil
}

func vecHistory[T any](c *mon.Case, k Kit[T]) {
	r := c.R
	d := dom(c)
	v, m := newVec[T](c)
	w, mw := newVec[T](c)
	if c.Big > 0 {
		fill := func(v *gost.Vec[T], m *[]T, n int) {
			for i := 0; i < n; i++ {
				x := k.Gen(r, d)
				v.Push(x)
				*m = append(*m, x)
				c.Check(int(v.Len()) == len(*m), "after %d pushes Len() is %d", len(*m), v.Len())
			}
		}
		fill(&v, &m, c.Big)
		if r.Bool() {
			fill(&w, &mw, bigSize(c))
		}
		c.Op("filled", len(m), len(mw))
	}
	checkVec(c, k, &v, m)
	n := steps(c)
	if n >= 4 {
		c.Nontrivial()
	}
	pushBias := mon.Pick(r, 1, 3, 8)
	for i := 0; i < n; i++ {
		if r.P(0.03) { // edit the second one
			v, w, m, mw = w, v, mw, m
			c.Op("switch")
		}
		op := r.N(18 + pushBias)
		switch op {
		default:
			x := k.Gen(r, d)
			c.Op("Push", x)
			v.Push(x)
			m = append(m, x)
		case 0, 1:
			c.Op("Pop")
			o := v.Pop()
			if len(m) == 0 {
				wantNone(c, "Pop()", o)
			} else {
				wantSome(c, "Pop()", o, m[len(m)-1], k.Same)
				m = m[:len(m)-1]
			}
		case 2, 3:
			x, at := k.Gen(r, d), r.N(len(m)+1)
			c.Op("Insert", at, x)
			v.Insert(gost.USize(at), x)
			m = slices.Insert(slices.Clone(m), at, x)
		case 4, 5:
			c.Op("Append", len(mw))
			c.Event("append of a second vector")
			v.Append(&w)
			m = append(slices.Clone(m), mw...)
			mw = nil
			checkVec(c, k, &w, nil)
			if r.Bool() { // refill the emptied one: it must be independent
				for j := r.N(4); j > 0; j-- {
					x := k.Gen(r, d)
					w.Push(x)
					mw = append(mw, x)
				}
				c.Op("refill", len(mw))
				checkVec(c, k, &w, mw)
			}
		case 6:
			if r.P(0.3) {
				c.Op("Clear")
				v.Clear()
				m = nil
			}
		case 7, 8:
			mod, eq := r.In(1, 4), r.N(4)
			idx := 0
			var seen []T
			keep := make([]bool, len(m))
			for j := range keep {
				keep[j] = (j*7+eq)%4 < mod
			}
			c.Op("Retain", mod, eq)
			v.Retain(func(x T) gost.Bool {
				seen = append(seen, x)
				idx++
				if idx > len(keep) {
					return false
				}
				return gost.Bool(keep[idx-1])
			})
			sameSeq(c, "elements shown to Retain's predicate", seen, m, k.Same)
			var nm []T
			for j, x := range m {
				if keep[j] {
					nm = append(nm, x)
				}
			}
			m = nm
		case 9, 10:
			x := k.Gen(r, d)
			if len(m) > 0 && r.P(0.7) {
				at := r.N(len(m))
				if r.Bool() {
					c.Op("Set", at, x)
					wantNone(c, "Set in range", v.Set(gost.USize(at), x))
				} else {
					c.Op("SetUnchecked", at, x)
					v.SetUnchecked(gost.USize(at), x)
				}
				m = slices.Clone(m)
				m[at] = x
			} else {
				at := outIndex(r, len(m))
				c.Op("Set", uint64(at), x)
				c.Event("out-of-range access")
				wantSome(c, "Set out of range (the rejected value)", v.Set(at, x), x, k.Same)
			}
		case 11:
			at := outIndex(r, len(m))
			c.Op("Get", uint64(at))
			c.Event("out-of-range access")
			wantNone(c, "Get out of range", v.Get(at))
		case 12:
			if len(m) > 0 {
				a, b := r.N(len(m)), r.N(len(m))
				c.Op("Swap", a, b)
				v.Swap(gost.USize(a), gost.USize(b))
				m = slices.Clone(m)
				m[a], m[b] = m[b], m[a]
			}
		case 13:
			c.Op("Reverse")
			v.Reverse()
			m = slices.Clone(m)
			slices.Reverse(m)
		case 14:
			if r.P(0.5) {
				x := k.Gen(r, d)
				c.Op("Fill", x)
				v.Fill(x)
				m = slices.Clone(m)
				for j := range m {
					m[j] = x
				}
			} else {
				var made []T
				c.Op("FillWith")
				v.FillWith(func() T {
					x := k.Gen(r, d)
					made = append(made, x)
					return x
				})
				c.Check(len(made) == len(m), "FillWith called its function %d times for %d elements", len(made), len(m))
				m = made
			}
		case 15, 16:
			a := r.N(mon.Pick(r, 2, 10, 100))
			c.Op("Reserve", a)
			if int(v.Capacity()) < len(m)+a {
				c.Event("reserve that grew")
			}
			v.Reserve(gost.USize(a))
			c.Check(int(v.Capacity()) >= len(m)+a, "after Reserve(%d) at length %d the capacity is %d", a, len(m), v.Capacity())
		case 17:
			at := len(m) + 1 + r.N(5)
			c.Op("Insert", at)
			c.Event("out-of-range access")
			cp := gost.VecNew[T]()
			for _, x := range m {
				cp.Push(x)
			}
			p, _ := mon.Panics(func() { cp.Insert(gost.USize(at), k.Gen(r, d)) })
			c.Check(p, "Insert(%d) into a vector of length %d did not panic", at, len(m))
		}
		checkVec(c, k, &v, m)
	}
	checkVec(c, k, &w, mw)
	all := c.Big > 0 && r.Bool()
	for len(m) > 0 && (all || r.P(0.9) && len(m) < 60) {
		wantSome(c, "draining Pop()", v.Pop(), m[len(m)-1], k.Same)
		m = m[:len(m)-1]
	}
	checkVec(c, k, &v, m)
}

// ------------------------------------------------------------------ deque

// ring is an independent account of where a ring of this capacity would hold
// the elements, only to count how often histories reach wrapped layouts.
type ring struct{ head, cap int }

func (g *ring) wrapped(n int) bool { return n > 0 && g.cap > 0 && g.head+n > g.cap }

func checkDeque[T any](c *mon.Case, k Kit[T], v *gost.VecDeque[T], m []T) {
	c.Evals(1)
	c.Check(int(v.Len()) == len(m), "Len() is %d, want %d", v.Len(), len(m))
	c.Check(bool(v.IsEmpty()) == (len(m) == 0), "IsEmpty() is %v with %d elements", v.IsEmpty(), len(m))
	c.Check(v.Capacity() >= v.Len(), "Capacity() %d below Len() %d", v.Capacity(), v.Len())
	var zero T
	first, last := zero, zero
	if len(m) > 0 {
		first, last = m[0], m[len(m)-1]
	}
	wantOpt(c, "Front()", v.Front(), first, len(m) > 0, k.Same)
	wantOpt(c, "Back()", v.Back(), last, len(m) > 0, k.Same)
	for i := range m {
		o := v.Get(gost.USize(i))
		if bool(o.IsNone()) || !k.Same(o.Unwrap(), m[i]) {
			c.Fail("Get(%d) is %v, want %v; model %s", i, o, m[i], brief(m))
		}
	}
	sameSeq(c, "AsSlice()", v.AsSlice(), m, k.Same)
	if c.R.P(0.2) {
		for i := range m {
			c.Check(k.Same(v.GetUnchecked(gost.USize(i)), m[i]), "GetUnchecked(%d) is %v, want %v", i, v.GetUnchecked(gost.USize(i)), m[i])
		}
		it := v.IntoIter()
		for i := range m {
			wantSome(c, "iteration", it.Next(), m[i], k.Same)
		}
		wantNone(c, "end of iteration", it.Next())
	}
}

func newDeque[T any](c *mon.Case) (gost.VecDeque[T], []T) {
	switch c.R.N(5) {
	case 0, 1:
		n := c.R.N(12)
		c.Op("VecDequeWithCapacity", n)
		v := gost.VecDequeWithCapacity[T](gost.USize(n))
		c.Check(int(v.Capacity()) >= n, "VecDequeWithCapacity(%d) has capacity %d", n, v.Capacity())
		return v, nil
	case 2:
		n := c.R.N(12)
		c.Op("VecDequeWithLen", n)
		return gost.VecDequeWithLen[T](gost.USize(n)), make([]T, n)
	}
	c.Op("VecDequeNew")
	return gost.VecDequeNew[T](), nil
}

type dq[T any] struct {
	v gost.VecDeque[T]
	m []T
	g ring
}

func (d *dq[T]) note(c *mon.Case, grewFrom int) {
	if d.g.wrapped(len(d.m)) {
		c.Event("ring wrapped")
		c.Nontrivial()
	}
}

func (d *dq[T]) grow(c *mon.Case) {
	if nc := int(d.v.Capacity()); nc != d.g.cap {
		if nc > d.g.cap && d.g.wrapped(len(d.m)-1) {
			c.Event("growth while wrapped")
		}
		d.g = ring{0, nc} // where it lies now is the library's business
	}
}

func dequeHistory[T any](c *mon.Case, k Kit[T]) {
	r := c.R
	d := dom(c)
	first := true
	mk := func() *dq[T] {
		v, m := newDeque[T](c)
		x := &dq[T]{v: v, m: m}
		x.g.cap = int(x.v.Capacity())
		if c.Big > 0 && (first || r.Bool()) {
			n := c.Big
			if !first {
				n = bigSize(c)
			}
			if r.Bool() { // a full ring with its front somewhere inside
				x.v = gost.VecDequeWithCapacity[T](gost.USize(n))
				x.m = nil
			}
			x.g = ring{0, int(x.v.Capacity())}
			turn := 0
			if r.Bool() {
				turn = r.N(n)
			}
			for i := 0; i < n+turn; i++ {
				y := k.Gen(r, d)
				x.v.PushBack(y)
				x.m = append(x.m, y)
				x.grow(c)
				if i >= n {
					wantSome(c, "PopFront()", x.v.PopFront(), x.m[0], k.Same)
					x.m = x.m[1:]
					x.g.head = (x.g.head + 1) % max(x.g.cap, 1)
				}
			}
			c.Op("filled", n, turn)
		}
		first = false
		return x
	}
	a, b := mk(), mk()
	checkDeque(c, k, &a.v, a.m)
	n := steps(c)
	style := r.N(4) // 0 balanced, 1 queue forwards, 2 queue backwards, 3 growing
	for i := 0; i < n; i++ {
		if r.P(0.04) {
			c.Op("switch")
			a, b = b, a
		}
		op := r.N(30)
		if op < 16 {
			switch style {
			case 0:
				op %= 4
			case 1:
				op = mon.Pick(r, 1, 2, 1, 2, 1)
			case 2:
				op = mon.Pick(r, 0, 3, 0, 3, 0)
			case 3:
				op = mon.Pick(r, 0, 1, 0, 1, 2)
			}
		}
		switch op {
		case 0:
			x := k.Gen(r, d)
			c.Op("PushFront", x)
			a.v.PushFront(x)
			a.m = append([]T{x}, a.m...)
			a.g.head--
			if a.g.head < 0 {
				a.g.head += max(a.g.cap, 1)
			}
			a.grow(c)
		case 1, 16, 17:
			x := k.Gen(r, d)
			c.Op("PushBack", x)
			a.v.PushBack(x)
			a.m = append(slices.Clone(a.m), x)
			a.grow(c)
		case 2:
			c.Op("PopFront")
			o := a.v.PopFront()
			if len(a.m) == 0 {
				wantNone(c, "PopFront()", o)
			} else {
				wantSome(c, "PopFront()", o, a.m[0], k.Same)
				a.m = a.m[1:]
				a.g.head = (a.g.head + 1) % max(a.g.cap, 1)
			}
		case 3:
			c.Op("PopBack")
			o := a.v.PopBack()
			if len(a.m) == 0 {
				wantNone(c, "PopBack()", o)
			} else {
				wantSome(c, "PopBack()", o, a.m[len(a.m)-1], k.Same)
				a.m = a.m[:len(a.m)-1]
			}
		case 18, 19:
			c.Op("Append", len(b.m))
			if b.g.wrapped(len(b.m)) {
				c.Event("append from a wrapped deque")
			}
			a.v.Append(&b.v)
			a.m = append(slices.Clone(a.m), b.m...)
			b.m = nil
			a.g = ring{0, int(a.v.Capacity())}
			b.g = ring{0, int(b.v.Capacity())}
			checkDeque(c, k, &b.v, nil)
			for j := r.N(6); j > 0; j-- {
				x := k.Gen(r, d)
				if r.Bool() {
					c.Op("other.PushFront", x)
					b.v.PushFront(x)
					b.m = append([]T{x}, b.m...)
					b.g.head = max(b.g.cap, 1) - 1
				} else {
					c.Op("other.PushBack", x)
					b.v.PushBack(x)
					b.m = append(slices.Clone(b.m), x)
				}
			}
			checkDeque(c, k, &b.v, b.m)
		case 20, 21:
			mod, eq := r.In(1, 4), r.N(4)
			idx := 0
			var seen []T
			keep := make([]bool, len(a.m))
			for j := range keep {
				keep[j] = (j*7+eq)%4 < mod
			}
			c.Op("Retain", mod, eq)
			a.v.Retain(func(x T) gost.Bool {
				seen = append(seen, x)
				idx++
				if idx > len(keep) {
					return false
				}
				return gost.Bool(keep[idx-1])
			})
			sameSeq(c, "elements shown to Retain's predicate", seen, a.m, k.Same)
			var nm []T
			for j, x := range a.m {
				if keep[j] {
					nm = append(nm, x)
				}
			}
			a.m = nm
		case 22, 23:
			x := k.Gen(r, d)
			if len(a.m) > 0 && r.P(0.7) {
				at := r.N(len(a.m))
				if r.Bool() {
					c.Op("Set", at, x)
					wantNone(c, "Set in range", a.v.Set(gost.USize(at), x))
				} else {
					c.Op("SetUnchecked", at, x)
					a.v.SetUnchecked(gost.USize(at), x)
				}
				a.m = slices.Clone(a.m)
				a.m[at] = x
			} else {
				at := outIndex(r, len(a.m))
				c.Op("Set/Get", uint64(at), x)
				wantSome(c, "Set out of range (the rejected value)", a.v.Set(at, x), x, k.Same)
				wantNone(c, "Get out of range", a.v.Get(at))
			}
		case 24:
			if len(a.m) > 0 {
				x, y := r.N(len(a.m)), r.N(len(a.m))
				c.Op("Swap", x, y)
				a.v.Swap(gost.USize(x), gost.USize(y))
				a.m = slices.Clone(a.m)
				a.m[x], a.m[y] = a.m[y], a.m[x]
			}
		case 25:
			if r.P(0.3) {
				c.Op("Clear")
				a.v.Clear()
				a.m = nil
				a.g = ring{0, int(a.v.Capacity())}
			}
		case 26:
			if r.Bool() {
				x := k.Gen(r, d)
				c.Op("Fill", x)
				a.v.Fill(x)
				a.m = slices.Clone(a.m)
				for j := range a.m {
					a.m[j] = x
				}
			} else {
				var made []T
				c.Op("FillWith")
				a.v.FillWith(func() T {
					x := k.Gen(r, d)
					made = append(made, x)
					return x
				})
				c.Check(len(made) == len(a.m), "FillWith called its function %d times for %d elements", len(made), len(a.m))
				a.m = made
			}
		case 27, 28:
			x := r.N(mon.Pick(r, 2, 5, 30))
			c.Op("Reserve", x)
			if x > 0 && a.g.wrapped(len(a.m)) {
				c.Event("growth while wrapped")
			}
			a.v.Reserve(gost.USize(x))
			c.Check(int(a.v.Capacity()) >= len(a.m)+x, "after Reserve(%d) at length %d the capacity is %d", x, len(a.m), a.v.Capacity())
			a.g.cap = int(a.v.Capacity())
		case 29:
			c.Op("Dedup")
			a.v.Dedup(func(x T) any { return x })
			a.m = dedupModel(a.m, k.Eq)
		}
		a.note(c, 0)
		checkDeque(c, k, &a.v, a.m)
	}
	checkDeque(c, k, &b.v, b.m)
	// Drain from both ends: nothing may be lost, duplicated or reordered.
	for len(a.m) > 0 {
		if r.Bool() {
			wantSome(c, "draining PopFront()", a.v.PopFront(), a.m[0], k.Same)
			a.m = a.m[1:]
		} else {
			wantSome(c, "draining PopBack()", a.v.PopBack(), a.m[len(a.m)-1], k.Same)
			a.m = a.m[:len(a.m)-1]
		}
	}
	checkDeque(c, k, &a.v, nil)
}

func dedupModel[T any](m []T, eq func(a, b T) bool) []T {
	var out []T
	for i, x := range m {
		if i == 0 || !eq(out[len(out)-1], x) {
			out = append(out, x)
		}
	}
	return out
}

// dequeLayouts enumerates every front offset and every length for one
// capacity, and applies every operation to each layout.
func dequeLayouts(c *mon.Case) {
	capacity := c.Index + 1
	c.Op("capacity", capacity)
	c.Nontrivial()
	k := kI32
	n := 0
	for off := 0; off < capacity; off++ {
		for l := 0; l <= capacity; l++ {
			if off+l > capacity {
				c.Event("ring wrapped")
			}
			base := make([]gost.I32, l)
			for i := range base {
				base[i] = gost.I32(i + 1)
			}
			do := func(name string, f func(v *gost.VecDeque[gost.I32]) []gost.I32) {
				v := makeDeque(capacity, off, base)
				want := f(&v)
				n++
				if !sameQuiet(v.AsSlice(), want) || int(v.Len()) != len(want) {
					c.Op(name, off, l)
				}
				checkDeque(c, k, &v, want)
				for i := 0; i < 3; i++ { // and it keeps working
					v.PushFront(gost.I32(-i))
					want = append([]gost.I32{gost.I32(-i)}, want...)
					v.PushBack(gost.I32(-i))
					want = append(want, gost.I32(-i))
				}
				checkDeque(c, k, &v, want)
			}
			do("nothing", func(v *gost.VecDeque[gost.I32]) []gost.I32 { return slices.Clone(base) })
			do("PushFront", func(v *gost.VecDeque[gost.I32]) []gost.I32 {
				if off+l > capacity && l == capacity {
					c.Event("growth while wrapped")
				}
				v.PushFront(0)
				return append([]gost.I32{0}, base...)
			})
			do("PushBack", func(v *gost.VecDeque[gost.I32]) []gost.I32 { v.PushBack(0); return append(slices.Clone(base), 0) })
			for add := 0; add <= capacity+2; add++ {
				do("Reserve", func(v *gost.VecDeque[gost.I32]) []gost.I32 {
					v.Reserve(gost.USize(add))
					c.Check(int(v.Capacity()) >= l+add, "after Reserve(%d) at length %d the capacity is %d", add, l, v.Capacity())
					return slices.Clone(base)
				})
			}
			if l > 0 {
				do("PopFront", func(v *gost.VecDeque[gost.I32]) []gost.I32 { v.PopFront(); return slices.Clone(base[1:]) })
				do("PopBack", func(v *gost.VecDeque[gost.I32]) []gost.I32 { v.PopBack(); return slices.Clone(base[:l-1]) })
				do("Swap", func(v *gost.VecDeque[gost.I32]) []gost.I32 {
					v.Swap(0, gost.USize(l-1))
					w := slices.Clone(base)
					w[0], w[l-1] = w[l-1], w[0]
					return w
				})
			}
			do("Retain", func(v *gost.VecDeque[gost.I32]) []gost.I32 {
				v.Retain(func(x gost.I32) gost.Bool { return x%2 == 1 })
				var w []gost.I32
				for _, x := range base {
					if x%2 == 1 {
						w = append(w, x)
					}
				}
				return w
			})
			for off2 := 0; off2 < capacity; off2 += 1 + capacity/4 {
				do("Append", func(v *gost.VecDeque[gost.I32]) []gost.I32 {
					o := makeDeque(capacity, off2, base)
					if off2+l > capacity {
						c.Event("append from a wrapped deque")
					}
					v.Append(&o)
					checkDeque(c, k, &o, nil)
					return append(slices.Clone(base), base...)
				})
			}
		}
	}
	c.Enumerated(n)
}

func sameQuiet[T comparable](a, b []T) bool { return slices.Equal(a, b) }

// ------------------------------------------------------------------ linked list

func checkList[T any](c *mon.Case, k Kit[T], v *gost.LinkedList[T], m []T) {
	c.Evals(1)
	c.Check(int(v.Len()) == len(m), "Len() is %d, want %d", v.Len(), len(m))
	c.Check(bool(v.IsEmpty()) == (len(m) == 0), "IsEmpty() is %v with %d elements", v.IsEmpty(), len(m))
	f, b := v.Front(), v.Back()
	if len(m) == 0 {
		wantNone(c, "Front()", f)
		wantNone(c, "Back()", b)
	} else {
		c.Check(bool(f.IsSome()), "Front() is None, want %v", m[0])
		c.Check(bool(b.IsSome()), "Back() is None, want %v", m[len(m)-1])
		c.Check(k.Same(*f.Unwrap(), m[0]), "Front() is %v, want %v", *f.Unwrap(), m[0])
		c.Check(k.Same(*b.Unwrap(), m[len(m)-1]), "Back() is %v, want %v", *b.Unwrap(), m[len(m)-1])
	}
	it := v.IntoIter()
	for i := range m {
		o := it.Next()
		if bool(o.IsNone()) {
			c.Fail("iteration ends after %d of %d elements", i, len(m))
		}
		if !k.Same(o.Unwrap(), m[i]) {
			c.Fail("iteration element %d is %v, want %v", i, o.Unwrap(), m[i])
		}
	}
	wantNone(c, "end of iteration", it.Next())
}

func listHistory[T any](c *mon.Case, k Kit[T]) {
	r := c.R
	d := dom(c)
	type ll struct {
		v gost.LinkedList[T]
		m []T
	}
	a, b := &ll{v: gost.LinkedListNew[T]()}, &ll{v: gost.LinkedListNew[T]()}
	checkList(c, k, &a.v, nil)
	if c.Big > 0 {
		for i := 0; i < c.Big; i++ {
			x := k.Gen(r, d)
			a.v.PushBack(x)
			a.m = append(a.m, x)
		}
		for i := r.N(2) * bigSize(c); i > 0; i-- {
			x := k.Gen(r, d)
			b.v.PushFront(x)
			b.m = append(b.m, x)
		}
		slices.Reverse(b.m)
		c.Op("filled", len(a.m), len(b.m))
	}
	n := steps(c)
	if n >= 4 {
		c.Nontrivial()
	}
	style := r.N(3)
	emptied := false
	for i := 0; i < n; i++ {
		if r.P(0.05) {
			c.Op("switch")
			a, b = b, a
		}
		op := r.N(12)
		if op < 8 {
			switch style {
			case 0:
				op = op % 4
			case 1:
				op = mon.Pick(r, 0, 1, 0, 1, 2, 3)
			case 2: // hover around empty
				if len(a.m) > 1 {
					op = r.In(2, 3)
				} else {
					op = r.N(4)
				}
			}
		}
		switch op {
		case 0:
			x := k.Gen(r, d)
			c.Op("PushFront", x)
			a.v.PushFront(x)
			a.m = append([]T{x}, a.m...)
			if emptied {
				c.Event("emptied and refilled")
				emptied = false
			}
		case 1:
			x := k.Gen(r, d)
			c.Op("PushBack", x)
			a.v.PushBack(x)
			a.m = append(slices.Clone(a.m), x)
			if emptied {
				c.Event("emptied and refilled")
				emptied = false
			}
		case 2:
			c.Op("PopFront")
			o := a.v.PopFront()
			if len(a.m) == 0 {
				wantNone(c, "PopFront()", o)
			} else {
				wantSome(c, "PopFront()", o, a.m[0], k.Same)
				a.m = a.m[1:]
				emptied = emptied || len(a.m) == 0
			}
		case 3:
			c.Op("PopBack")
			o := a.v.PopBack()
			if len(a.m) == 0 {
				wantNone(c, "PopBack()", o)
			} else {
				wantSome(c, "PopBack()", o, a.m[len(a.m)-1], k.Same)
				a.m = a.m[:len(a.m)-1]
				emptied = emptied || len(a.m) == 0
			}
		case 8, 9:
			c.Op("Append", len(b.m))
			c.Event("append of a second list")
			a.v.Append(&b.v)
			a.m = append(slices.Clone(a.m), b.m...)
			b.m = nil
			checkList(c, k, &b.v, nil)
			for j := r.N(4); j > 0; j-- {
				x := k.Gen(r, d)
				c.Op("other.push", x)
				if r.Bool() {
					b.v.PushBack(x)
					b.m = append(slices.Clone(b.m), x)
				} else {
					b.v.PushFront(x)
					b.m = append([]T{x}, b.m...)
				}
			}
			checkList(c, k, &b.v, b.m)
		case 10:
			if r.P(0.3) {
				c.Op("Clear")
				a.v.Clear()
				a.m = nil
				emptied = true
			}
		case 11: // the references to the ends are references
			if len(a.m) > 0 {
				x := k.Gen(r, d)
				a.m = slices.Clone(a.m)
				if r.Bool() {
					c.Op("*Front()=", x)
					*a.v.Front().Unwrap() = x
					a.m[0] = x
				} else {
					c.Op("*Back()=", x)
					*a.v.Back().Unwrap() = x
					a.m[len(a.m)-1] = x
				}
			}
		}
		checkList(c, k, &a.v, a.m)
	}
	checkList(c, k, &b.v, b.m)
	// Drain one backwards and the other from both ends: the links of both
	// directions must tell the same story.
	for len(a.m) > 0 {
		wantSome(c, "draining PopBack()", a.v.PopBack(), a.m[len(a.m)-1], k.Same)
		a.m = a.m[:len(a.m)-1]
		if r.P(0.1) && (len(a.m) < 200 || r.P(0.02)) {
			checkList(c, k, &a.v, a.m)
		}
	}
	checkList(c, k, &a.v, nil)
	for len(b.m) > 0 {
		if r.Bool() {
			wantSome(c, "draining PopFront()", b.v.PopFront(), b.m[0], k.Same)
			b.m = b.m[1:]
		} else {
			wantSome(c, "draining PopBack()", b.v.PopBack(), b.m[len(b.m)-1], k.Same)
			b.m = b.m[:len(b.m)-1]
		}
	}
	checkList(c, k, &b.v, nil)
}
