//go:build !vals

package main

import (
	"slices"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

func init() {
	mon.Rule("C02", "a case sorts, searches, deduplicates or tests membership in one sequence (random, sorted, reversed, sawtooth, organ-pipe or few-valued; as a vector or as a deque with its front moved into the ring), with results compared with an independent stable sort of the same items; items carry an identity besides their key; non-trivial when two elements are equal")
	mon.Need("C02", "deduplicated by keys of several types", 200)
	mon.Need("C02", "equal elements", 1000)
	mon.Need("C02", "wrapped deque", 300)
	mon.Need("C02", "search hit", 1000)
	mon.Need("C02", "search miss", 1000)
	mon.Reg("C02", "sort-Item", 6000, 150000, func(c *mon.Case) { sortCase(c, kItem) })
	mon.Reg("C02", "sort-I32", 3000, 80000, func(c *mon.Case) { sortCase(c, kI32) })
	mon.Reg("C02", "sort-String", 2000, 60000, func(c *mon.Case) { sortCase(c, kStr) })
	mon.Reg("C02", "sort-I128", 1500, 50000, func(c *mon.Case) { sortCase(c, kI128) })
	mon.Reg("C02", "search-Item", 5000, 120000, func(c *mon.Case) { searchCase(c, kItem) })
	mon.Reg("C02", "search-I32", 3000, 80000, func(c *mon.Case) { searchCase(c, kI32) })
	mon.Reg("C02", "search-String", 2000, 60000, func(c *mon.Case) { searchCase(c, kStr) })
	mon.Reg("C02", "dedup-Item", 5000, 120000, func(c *mon.Case) { dedupCase(c, kItem) })
	mon.Reg("C02", "dedup-I32", 3000, 80000, func(c *mon.Case) { dedupCase(c, kI32) })
	mon.Reg("C02", "dedup-String", 2000, 60000, func(c *mon.Case) { dedupCase(c, kStr) })
	mon.Reg("C02", "nested", 2000, 60000, nestedMembership)
}

// shaped makes a sequence of a random size and shape.
func shaped[T any](c *mon.Case, k Kit[T]) []T {
	r := c.R
	n := mon.Pick(r, r.N(8), r.N(14), r.N(14), r.N(60), r.N(300))
	if r.P(0.03) {
		n = r.In(300, 2500)
	}
	d := mon.Pick(r, 1, 2, 3, 8, 30, 1000)
	if c.Big > 0 {
		n = c.Big
		d = mon.Pick(r, 2, 100, n, 10*n)
	}
	xs := make([]T, n)
	for i := range xs {
		xs[i] = k.Gen(r, d)
	}
	shape := mon.Pick(r, "random", "random", "sorted", "reversed", "sawtooth", "pipe", "nearly")
	switch shape {
	case "sorted":
		slices.SortStableFunc(xs, k.Cmp)
	case "reversed":
		slices.SortStableFunc(xs, func(a, b T) int { return -k.Cmp(a, b) })
	case "sawtooth":
		slices.SortStableFunc(xs[:n/2], k.Cmp)
		slices.SortStableFunc(xs[n/2:], k.Cmp)
	case "pipe":
		slices.SortStableFunc(xs[:n/2], k.Cmp)
		slices.SortStableFunc(xs[n/2:], func(a, b T) int { return -k.Cmp(a, b) })
	case "nearly":
		slices.SortStableFunc(xs, k.Cmp)
		if n > 1 {
			i, j := r.N(n), r.N(n)
			xs[i], xs[j] = xs[j], xs[i]
		}
	}
	c.Op(shape, n, d)
	if n <= 40 {
		for _, x := range xs {
			c.Op("", x)
		}
	}
	return xs
}

func vecOf[T any](xs []T) gost.Vec[T] {
	v := gost.VecNew[T]()
	for _, x := range xs {
		v.Push(x)
	}
	return v
}

// dequeOf builds a deque holding xs in some ring layout.
func dequeOf[T any](c *mon.Case, xs []T) gost.VecDeque[T] {
	r := c.R
	capacity := len(xs) + mon.Pick(r, 0, 0, 1, 3, 10)
	if r.P(0.2) {
		capacity = r.N(len(xs) + 1)
	}
	off := 0
	if capacity > 0 {
		off = r.N(capacity)
	}
	c.Op("deque", capacity, off)
	if capacity >= len(xs) && off+len(xs) > capacity {
		c.Event("wrapped deque")
	}
	if r.P(0.2) { // built from the back
		v := gost.VecDequeWithCapacity[T](gost.USize(capacity))
		for i := len(xs) - 1; i >= 0; i-- {
			v.PushFront(xs[i])
		}
		return v
	}
	return makeDeque(capacity, off, xs)
}

func dequeSlice[T any](v *gost.VecDeque[T]) []T {
	out := make([]T, 0, int(v.Len()))
	for i := gost.USize(0); i < v.Len(); i++ {
		out = append(out, v.Get(i).Unwrap())
	}
	return out
}

func ordering(n int) gost.Ordering {
	switch {
	case n < 0:
		return gost.OrderingLess
	case n > 0:
		return gost.OrderingGreater
	}
	return gost.OrderingEqual
}

func noteEqual[T any](c *mon.Case, sorted []T, cmp func(a, b T) int) {
	for i := 1; i < len(sorted); i++ {
		if cmp(sorted[i-1], sorted[i]) == 0 {
			c.Event("equal elements")
			c.Nontrivial()
			return
		}
	}
}

func sortCase[T comparable](c *mon.Case, k Kit[T]) {
	r := c.R
	xs := shaped(c, k)
	orig := slices.Clone(xs)
	cmp := k.Cmp
	kind := r.N(3)
	if kind == 1 {
		cmp = func(a, b T) int { return -k.Cmp(a, b) }
	}
	want := slices.Clone(xs)
	slices.SortStableFunc(want, cmp)
	noteEqual(c, want, cmp)
	by := func(a, b T) gost.Ordering { return ordering(cmp(a, b)) }
	stable := r.P(0.6)
	deque := r.Bool()
	c.Op("sort", kind, stable, deque)
	var got []T
	if deque {
		v := dequeOf(c, xs)
		switch {
		case kind == 0 && stable:
			v.Sort()
		case kind == 0:
			v.SortUnstable()
		case stable:
			v.SortBy(by)
		default:
			v.SortUnstableBy(by)
		}
		got = dequeSlice(&v)
		// the sorted deque is still a working deque
		if len(got) > 0 {
			checkDeque(c, k, &v, got)
			x := got[0]
			v.PushFront(x)
			v.PushBack(x)
			checkDeque(c, k, &v, append(append([]T{x}, got...), x))
		}
	} else {
		v := vecOf(xs)
		switch {
		case kind == 0 && stable:
			v.Sort()
		case kind == 0:
			v.SortUnstable()
		case stable:
			v.SortBy(by)
		default:
			v.SortUnstableBy(by)
		}
		got = v.AsSlice()
	}
	c.Evals(1)
	if stable {
		sameSeq(c, "stable sort", got, want, k.Same)
		return
	}
	sameBag(c, "unstable sort (as a multiset)", got, orig)
	for i := 1; i < len(got); i++ {
		c.Check(cmp(got[i-1], got[i]) <= 0, "unstable sort: element %d (%v) is above element %d (%v): %s", i-1, got[i-1], i, got[i], brief(got))
	}
}

type searcher[T any] interface {
	BinarySearch(T) gost.Option[gost.USize]
	BinarySearchBy(func(T) gost.Ordering) gost.Option[gost.USize]
	Contains(T) gost.Bool
}

func searchCase[T comparable](c *mon.Case, k Kit[T]) {
	r := c.R
	xs := shaped(c, k)
	slices.SortStableFunc(xs, k.Cmp)
	noteEqual(c, xs, k.Cmp)
	if len(xs) > 300 && c.Big == 0 {
		xs = xs[:300]
	}
	var s searcher[T]
	deque := r.Bool()
	c.Op("search", deque)
	var dv gost.VecDeque[T]
	var vv gost.Vec[T]
	if deque {
		dv = dequeOf(c, xs)
		s = dv
	} else {
		vv = vecOf(xs)
		s = vv
	}
	var probes []T
	for i := 0; i < 12; i++ {
		probes = append(probes, k.Gen(r, mon.Pick(r, 3, 30, 1000, 2000, 5*c.Big+1)))
	}
	if len(xs) > 0 {
		probes = append(probes, xs[0], xs[len(xs)-1], xs[len(xs)/2], xs[r.N(len(xs))], xs[r.N(len(xs))])
	}
	for _, p := range probes {
		present := slices.ContainsFunc(xs, func(x T) bool { return k.Cmp(x, p) == 0 })
		if present {
			c.Event("search hit")
		} else {
			c.Event("search miss")
		}
		c.Evals(3)
		for j, o := range []gost.Option[gost.USize]{s.BinarySearch(p), s.BinarySearchBy(func(x T) gost.Ordering { return ordering(k.Cmp(x, p)) })} {
			name := []string{"BinarySearch", "BinarySearchBy"}[j]
			if !present {
				c.Check(bool(o.IsNone()), "%s(%v) claims a position although no element is equal: %s", name, p, brief(xs))
				continue
			}
			c.Check(bool(o.IsSome()), "%s(%v) finds nothing in %s", name, p, brief(xs))
			at := o.Unwrap()
			c.Check(at < gost.USize(len(xs)) && k.Cmp(xs[at], p) == 0, "%s(%v) gives position %d, which does not hold an equal element: %s", name, p, at, brief(xs))
		}
		c.Check(bool(s.Contains(p)) == slices.ContainsFunc(xs, func(x T) bool { return k.Eq(x, p) }), "Contains(%v) is %v on %s", p, s.Contains(p), brief(xs))
	}
	if deque {
		sameSeq(c, "after searching", dequeSlice(&dv), xs, k.Same)
	} else {
		sameSeq(c, "after searching", vv.AsSlice(), xs, k.Same)
	}
}

func dedupCase[T comparable](c *mon.Case, k Kit[T]) {
	r := c.R
	xs := shaped(c, k)
	if r.Bool() { // runs of repeats
		for i := 1; i < len(xs); i++ {
			if r.P(0.5) {
				xs[i] = xs[i-1]
			}
		}
		c.Op("runs")
	}
	noteEqual(c, xs, k.Cmp)
	c.Evals(1)
	// membership on unsorted sequences
	for i := 0; i < 4; i++ {
		p := k.Gen(r, mon.Pick(r, 3, 30, 2000))
		if len(xs) > 0 && r.Bool() {
			p = xs[r.N(len(xs))]
		}
		want := slices.ContainsFunc(xs, func(x T) bool { return k.Eq(x, p) })
		c.Check(bool(vecOf(xs).Contains(p)) == want, "Vec.Contains(%v) is not %v on %s", p, want, brief(xs))
		c.Check(bool(dequeOf(c, xs).Contains(p)) == want, "VecDeque.Contains(%v) is not %v on %s", p, want, brief(xs))
	}
	switch r.N(3) {
	case 0:
		v := vecOf(xs)
		c.Op("Vec.Dedup")
		v.Dedup()
		sameSeq(c, "Vec.Dedup", v.AsSlice(), dedupModel(xs, k.Eq), k.Same)
	case 1:
		v := dequeOf(c, xs)
		c.Op("VecDeque.Dedup")
		v.Dedup(func(x T) any { return x })
		sameSeq(c, "VecDeque.Dedup", dequeSlice(&v), dedupModel(xs, k.Eq), k.Same)
	case 2:
		v := vecOf(xs)
		mod := mon.Pick(r, 1, 2, 3, 1000)
		key := func(x T) int { return int(mon.HashString(k.Str(x))%uint64(mod)) + len(k.Str(x))*1000 }
		if r.Bool() { // keys of several types, no key at all among them
			kinds := []any{nil, 0, "", false, gost.I32(0), gost.I64(0), [2]int{}, struct{}{}, (*int)(nil), 1, "1"}
			turn := r.N(len(kinds))
			few := r.In(2, len(kinds))
			c.Op("Vec.DedupByKey of several types", turn, few)
			c.Event("deduplicated by keys of several types")
			of := func(x T) any { return kinds[(turn+int(mon.HashString(k.Str(x))%uint64(few)))%len(kinds)] }
			v.DedupByKey(of)
			sameSeq(c, "Vec.DedupByKey", v.AsSlice(), dedupModel(xs, func(a, b T) bool { return of(a) == of(b) }), k.Same)
			return
		}
		calls := 0
		c.Op("Vec.DedupByKey", mod)
		v.DedupByKey(func(x T) any { calls++; return key(x) })
		sameSeq(c, "Vec.DedupByKey", v.AsSlice(), dedupModel(xs, func(a, b T) bool { return key(a) == key(b) }), k.Same)
	}
}

// nestedMembership: elements that are collections compare by content.
func nestedMembership(c *mon.Case) {
	r := c.R
	mk := func() ([]gost.I32, gost.Vec[gost.I32]) {
		n := r.N(3)
		xs := make([]gost.I32, n)
		for i := range xs {
			xs[i] = gost.I32(r.N(2))
		}
		switch r.N(3) {
		case 0:
			return xs, vecOf(xs)
		case 1: // by way of an iterator
			return xs, vecOf(xs).IntoIter().CollectToVec()
		}
		v := gost.VecWithCapacity[gost.I32](9)
		for _, x := range xs {
			v.Push(x)
		}
		v.Push(7)
		v.Pop()
		return xs, v
	}
	n := r.N(8)
	var models [][]gost.I32
	v := gost.VecNew[gost.Vec[gost.I32]]()
	for i := 0; i < n; i++ {
		m, x := mk()
		c.Op("element", brief(m))
		models = append(models, m)
		v.Push(x)
	}
	c.Evals(2)
	m, x := mk()
	c.Op("probe", brief(m))
	want := slices.ContainsFunc(models, func(o []gost.I32) bool { return slices.Equal(o, m) })
	if want {
		c.Nontrivial()
	}
	c.Check(bool(v.Contains(x)) == want, "Contains(%v) is not %v on %v", m, want, models)
	v.Dedup()
	wm := dedupModel(models, func(a, b []gost.I32) bool { return slices.Equal(a, b) })
	c.Check(int(v.Len()) == len(wm), "Dedup of %v leaves %d elements, want %d", models, v.Len(), len(wm))
	for i := range wm {
		c.Check(slices.Equal(v.GetUnchecked(gost.USize(i)).AsSlice(), wm[i]), "Dedup of %v: element %d is %v", models, i, v.GetUnchecked(gost.USize(i)).AsSlice())
	}
}
