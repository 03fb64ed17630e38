//go:build !vals

package main

import (
	"math"
	"slices"
	"strings"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

// P01: what an operation costs, counted by elements that count their own
// comparisons, by the capacities that are seen while a collection grows, and,
// for the lists, by the processor time of long lists against short ones. The
// limits are several times what any algorithm of the class needs, and far
// below what one of a worse class takes at these sizes.

func init() {
	mon.Rule("P01", "a case runs one operation on collections of a thousand to a hundred thousand elements in one initial order (random, sorted, reversed, few values, organ pipe, patterns that defeat quicksorts, an adversary that decides the order while the sort runs), counts comparisons, reallocations or processor time, and compares with a limit of the documented class; non-trivial always; distinct by operation, size and order")
	mon.Reg("P01", "sort", 320, 4000, sortCost)
	mon.Reg("P01", "sort-adversary", 60, 800, sortAdversary)
	mon.Reg("P01", "search", 120, 2000, searchCost)
	mon.Reg("P01", "tree", 120, 1200, treeCost)
	mon.Reg("P01", "heap", 240, 1200, heapCost)
	mon.Reg("P01", "growth", 160, 2000, growthCost)
	mon.Reg("P01", "thrash", 60, 1000, thrashCost)
	mon.Need("P01", "sort counted", 200)
	mon.Need("P01", "sort against an adversary", 50)
	mon.Need("P01", "search counted", 10000)
	mon.Need("P01", "tree operation counted", 100000)
	mon.Need("P01", "heap operation counted", 100000)
	mon.Need("P01", "growth observed", 100)
}

// Counted counts the comparisons it takes part in.
type Counted struct {
	V int32
	N *int
}

func (a Counted) Cmp(b Counted) gost.Ordering {
	*a.N++
	switch {
	case a.V < b.V:
		return gost.OrderingLess
	case a.V > b.V:
		return gost.OrderingGreater
	}
	return gost.OrderingEqual
}

func (a Counted) Eq(b Counted) gost.Bool {
	*a.N++
	return a.V == b.V
}

func lg(n int) float64 { return math.Log2(float64(n + 2)) }

// initialOrder is n values in a named order.
func initialOrder(r *mon.Rand, n int, kind string) []int32 {
	a := make([]int32, n)
	for i := range a {
		switch kind {
		case "reversed":
			a[i] = int32(n - i)
		case "random":
			a[i] = int32(r.N(4 * n))
		case "few values":
			a[i] = int32(r.N(4))
		case "organ pipe":
			a[i] = int32(min(i, n-i))
		case "sawtooth":
			a[i] = int32(i % 50)
		case "nearly sorted":
			a[i] = int32(i)
		case "all equal":
		default:
			a[i] = int32(i)
		}
	}
	switch kind {
	case "nearly sorted":
		for k := n / 50; k > 0; k-- {
			i, j := r.N(n), r.N(n)
			a[i], a[j] = a[j], a[i]
		}
	case "median of three": // defeats quicksorts that take the middle of three
		k := n / 2
		for i := 0; i < k; i++ {
			if i%2 == 0 {
				a[i] = int32(i + 1)
			} else {
				a[i] = int32(k + i)
			}
			a[k+i] = int32(2 * (i + 1))
		}
	case "last smallest":
		for i := range a {
			a[i] = int32(i + 1)
		}
		a[n-1] = 0
	case "interleaved":
		for i := range a {
			if i%2 == 0 {
				a[i] = int32(i)
			} else {
				a[i] = int32(n - i)
			}
		}
	}
	return a
}

var orders = []string{"random", "random", "sorted", "reversed", "few values", "organ pipe", "sawtooth", "nearly sorted", "all equal", "median of three", "last smallest", "interleaved"}

type sortable[T any] interface {
	Sort()
	SortUnstable()
	SortBy(func(T, T) gost.Ordering)
	SortUnstableBy(func(T, T) gost.Ordering)
}

// either makes a vector, or a deque with its contents across the end of its
// buffer.
func either[T any](r *mon.Rand, xs []T) (string, sortable[T], func() []T) {
	if r.Bool() {
		v := gost.VecNew[T]()
		for _, x := range xs {
			v.Push(x)
		}
		return "Vec", &v, v.AsSlice
	}
	d := makeDeque(len(xs)+r.N(3), r.N(len(xs)+1), xs)
	return "VecDeque", &d, func() []T { return d.AsSlice() }
}

func sortCost(c *mon.Case) {
	r := c.R
	n := mon.Pick(r, 1000, 1500, 2047, 4096, 6000)
	if r.P(0.1) {
		n = mon.Pick(r, 20000, 32768)
	}
	kind := mon.Pick(r, orders...)
	count := 0
	a := initialOrder(r, n, kind)
	xs := make([]Counted, n)
	for i := range a {
		xs[i] = Counted{a[i], &count}
	}
	name, s, get := either(r, xs)
	how := mon.Pick(r, "Sort", "SortUnstable", "SortBy", "SortUnstableBy")
	c.Op(name+"."+how, n, kind)
	c.Nontrivial()
	by := func(x, y Counted) gost.Ordering { return x.Cmp(y) }
	switch how {
	case "Sort":
		s.Sort()
	case "SortUnstable":
		s.SortUnstable()
	case "SortBy":
		s.SortBy(by)
	default:
		s.SortUnstableBy(by)
	}
	took := count
	limit := 12*float64(n)*lg(n) + 2000
	c.Evals(1)
	c.Event("sort counted")
	c.Check(float64(took) <= limit, "%s.%s of %d elements (%s) took %d comparisons, more than %.0f", name, how, n, kind, took, limit)
	ok := slices.IsSortedFunc(get(), func(x, y Counted) int { return int(x.V) - int(y.V) })
	c.Check(ok, "%s.%s of %d elements (%s) did not sort", name, how, n, kind)
}

// sortAdversary fixes the order of the elements only while the sort compares
// them, always so that it learns least (after McIlroy, "A killer adversary for
// quicksort"); the answers stay those of a total order.
func sortAdversary(c *mon.Case) {
	r := c.R
	n := mon.Pick(r, 1000, 2000, 4000, 8000)
	xs := make([]int32, n)
	for i := range xs {
		xs[i] = int32(i)
	}
	gas := n + 1
	val := make([]int, n)
	for i := range val {
		val[i] = gas
	}
	solid, candidate, count := 0, -1, 0
	cmp := func(x, y int32) gost.Ordering {
		count++
		if x != y && val[x] == gas && val[y] == gas {
			k := y
			if int(x) == candidate {
				k = x
			}
			val[k] = solid
			solid++
		}
		if val[x] == gas {
			candidate = int(x)
		} else if val[y] == gas {
			candidate = int(y)
		}
		switch {
		case val[x] < val[y]:
			return gost.OrderingLess
		case val[x] > val[y]:
			return gost.OrderingGreater
		}
		return gost.OrderingEqual
	}
	name, s, get := either(r, xs)
	how := mon.Pick(r, "SortBy", "SortUnstableBy", "SortUnstableBy")
	c.Op("adversary", name, how, n)
	c.Nontrivial()
	if how == "SortBy" {
		s.SortBy(cmp)
	} else {
		s.SortUnstableBy(cmp)
	}
	limit := 12*float64(n)*lg(n) + 2000
	c.Evals(1)
	c.Event("sort against an adversary")
	c.Check(float64(count) <= limit, "%s.%s of %d elements against an adversary took %d comparisons, more than %.0f", name, how, n, count, limit)
	c.Check(slices.IsSortedFunc(get(), func(x, y int32) int { return val[x] - val[y] }), "%s.%s of %d elements against an adversary did not sort", name, how, n)
}

func searchCost(c *mon.Case) {
	r := c.R
	n := mon.Pick(r, 500, 1000, 4095, 4096, 10000, 50000)
	count := 0
	gap := mon.Pick(r, 0, 1, 2, 2, 1000)
	xs := make([]Counted, n)
	for i := range xs {
		xs[i] = Counted{int32(i * gap), &count}
		if gap == 1000 { // most of the values close together, some far away
			xs[i].V = int32(i)
			if i > n-n/20 {
				xs[i].V *= 1000
			}
		}
	}
	v := gost.VecNew[Counted]()
	for _, x := range xs {
		v.Push(x)
	}
	d := makeDeque(n+r.N(3), r.N(n+1), xs)
	limit := 4*lg(n) + 10
	c.Op("search", n, gap)
	c.Nontrivial()
	for k := 0; k < 200; k++ {
		want := Counted{xs[r.N(n)].V + int32(r.N(2)), &count}
		if k < 4 {
			want.V = mon.Pick(r, -1, 0, xs[n-1].V, xs[n-1].V+1)
		}
		by := func(x Counted) gost.Ordering { return x.Cmp(want) }
		for _, f := range []struct {
			name string
			run  func()
		}{
			{"Vec.BinarySearch", func() { v.BinarySearch(want) }},
			{"Vec.BinarySearchBy", func() { v.BinarySearchBy(by) }},
			{"VecDeque.BinarySearch", func() { d.BinarySearch(want) }},
			{"VecDeque.BinarySearchBy", func() { d.BinarySearchBy(by) }},
		} {
			count = 0
			f.run()
			c.Check(float64(count) <= limit, "%s among %d elements took %d comparisons, more than %.0f", f.name, n, count, limit)
			c.Evals(1)
			c.Event("search counted")
		}
	}
}

func treeCost(c *mon.Case) {
	r := c.R
	n := mon.Pick(r, 2000, 4000, 10000, 20000)
	kind := mon.Pick(r, "random", "sorted", "reversed", "organ pipe", "interleaved")
	keys := initialOrder(r, n, kind)
	count := 0
	m := gost.BTreeMapNew[Counted, int]()
	s := gost.BTreeSetNew[Counted]()
	isSet := r.Bool()
	limit := 40*lg(n) + 60
	c.Op("tree", isSet, n, kind)
	c.Nontrivial()
	worst := 0
	op := func(what string, f func()) {
		count = 0
		f()
		worst = max(worst, count)
		c.Check(float64(count) <= limit, "%s in an ordered collection (set: %v) of at most %d keys, inserted %s, took %d comparisons, more than %.0f", what, isSet, n, kind, count, limit)
		c.Evals(1)
		c.Event("tree operation counted")
	}
	k := func(v int32) Counted { return Counted{v, &count} }
	insert := func(v int32) {
		op("Insert", func() {
			if isSet {
				s.Insert(k(v))
			} else {
				m.Insert(k(v), 0)
			}
		})
	}
	remove := func(v int32) {
		op("Remove", func() {
			if isSet {
				s.Remove(k(v))
			} else {
				m.Remove(k(v))
			}
		})
	}
	look := func(v int32) {
		op("a lookup", func() {
			if isSet {
				s.Contains(k(v))
			} else if v%2 == 0 {
				m.ContainsKey(k(v))
			} else {
				m.Get(k(v))
			}
		})
	}
	for _, v := range keys {
		insert(v)
		if r.P(0.2) {
			look(keys[r.N(n)])
		}
	}
	drop := initialOrder(r, n, mon.Pick(r, "random", "sorted", "reversed", "interleaved"))
	for i, v := range drop {
		if i > n*9/10 && r.Bool() {
			break
		}
		remove(v)
		look(keys[r.N(n)])
		if r.P(0.1) {
			insert(keys[r.N(n)])
		}
	}
	c.State(mon.Mix(uint64(n), uint64(worst)))
}

func heapCost(c *mon.Case) {
	r := c.R
	n := mon.Pick(r, 1000, 4000, 10000, 30000)
	kind := mon.Pick(r, orders...)
	vals := initialOrder(r, n, kind)
	count := 0
	h := gost.BinaryHeapNew[Counted]()
	limit := 8*lg(n) + 16
	c.Op("heap", n, kind)
	c.Nontrivial()
	op := func(what string, most float64, f func()) {
		count = 0
		f()
		c.Check(float64(count) <= most, "%s on a heap of at most %d elements, pushed %s, took %d comparisons, more than %.0f", what, n, kind, count, most)
		c.Evals(1)
		c.Event("heap operation counted")
	}
	for _, v := range vals {
		op("Push", limit, func() { h.Push(Counted{v, &count}) })
		if r.P(0.1) {
			op("Pop", limit, func() { h.Pop() })
		}
	}
	if r.Bool() {
		other := gost.BinaryHeapNew[Counted]()
		k := int(h.Len()) / 4
		for i := 0; i < k; i++ {
			op("Pop", limit, func() { other.Push(h.Pop().Unwrap()) })
		}
		op("Append of a quarter", limit*float64(n), func() { h.Append(&other) })
	}
	if r.P(0.2) {
		all := float64(n) * limit
		op("IntoSortedVec", all, func() { h.IntoSortedVec() })
	}
	for !bool(h.IsEmpty()) {
		op("Pop", limit, func() { h.Pop() })
	}
}

// thrashCost lets a collection grow and shrink again, and stays for a while
// wherever the capacity changed: changing it back and forth there would make
// each push and pop move every element.
func thrashCost(c *mon.Case) {
	r := c.R
	n := mon.Pick(r, 500, 3000, 20000)
	what := mon.Pick(r, "Vec", "VecDeque back", "VecDeque front", "VecDeque queue", "BinaryHeap")
	c.Op("thrash", what, n)
	c.Nontrivial()
	v := gost.VecNew[int32]()
	d := gost.VecDequeNew[int32]()
	h := gost.BinaryHeapNew[gost.I32]()
	var push, pop func()
	var capacity, length func() gost.USize
	switch what {
	case "Vec":
		push, pop = func() { v.Push(1) }, func() { v.Pop() }
		capacity, length = func() gost.USize { return v.Capacity() }, func() gost.USize { return v.Len() }
	case "BinaryHeap":
		push, pop = func() { h.Push(1) }, func() { h.Pop() }
		capacity, length = func() gost.USize { return h.Capacity() }, func() gost.USize { return h.Len() }
	default:
		push, pop = func() { d.PushBack(1) }, func() { d.PopBack() }
		if what == "VecDeque front" {
			push, pop = func() { d.PushFront(1) }, func() { d.PopFront() }
		}
		if what == "VecDeque queue" {
			pop = func() { d.PopFront() }
		}
		capacity, length = func() gost.USize { return d.Capacity() }, func() gost.USize { return d.Len() }
	}
	steps, moved := 0, 0
	last := capacity()
	step := func(f func()) bool {
		f()
		steps++
		now := capacity()
		changed := now != last
		if changed {
			moved += int(length())
			last = now
		}
		return changed
	}
	stay := func() {
		for i := 0; i < 300; i++ {
			step(pop)
			step(push)
		}
		for i := 0; i < 100; i++ {
			step(push)
			step(push)
			step(pop)
			step(pop)
		}
	}
	check := func() {
		most := 20*(steps+n) + 1000
		c.Check(moved <= most, "%s of at most %d elements: %d pushes and pops moved %d elements, more than %d", what, n, steps, moved, most)
	}
	for i := 0; i < n; i++ {
		if step(push) && i > 64 {
			stay()
		}
	}
	check()
	for int(length()) > 2 {
		if step(pop) || r.N(200) == 0 || int(length()*2) == int(capacity()) || int(length()*4) == int(capacity()) {
			stay()
		}
	}
	check()
	c.Evals(steps)
	c.Event("growth observed")
}

// growthCost watches the capacity while a collection grows from empty.
func growthCost(c *mon.Case) {
	r := c.R
	n := mon.Pick(r, 3000, 50000, 300000, 1000000)
	what := mon.Pick(r, "Vec", "VecDeque back", "VecDeque front", "VecDeque both", "BinaryHeap", "Vec.Append", "VecDeque.Append", "BinaryHeap.Append")
	c.Op("growth", what, n)
	c.Nontrivial()
	v := gost.VecNew[int32]()
	d := gost.VecDequeNew[int32]()
	h := gost.BinaryHeapNew[gost.I32]()
	if r.Bool() {
		k := mon.Pick(r, 0, 1, 2, 7, 100)
		v, d, h = gost.VecWithCapacity[int32](gost.USize(k)), gost.VecDequeWithCapacity[int32](gost.USize(k)), gost.BinaryHeapWithCapacity[gost.I32](gost.USize(k))
	}
	var push func()
	var capacity func() gost.USize
	switch what {
	case "Vec":
		push, capacity = func() { v.Push(1) }, func() gost.USize { return v.Capacity() }
	case "VecDeque back":
		push, capacity = func() { d.PushBack(1) }, func() gost.USize { return d.Capacity() }
	case "VecDeque front":
		push, capacity = func() { d.PushFront(1) }, func() gost.USize { return d.Capacity() }
	case "VecDeque both":
		k := 0
		push, capacity = func() {
			if k++; k%3 == 0 {
				d.PushFront(1)
			} else {
				d.PushBack(1)
			}
		}, func() gost.USize { return d.Capacity() }
	case "BinaryHeap":
		push, capacity = func() { h.Push(1) }, func() gost.USize { return h.Capacity() }
	case "Vec.Append":
		o := gost.VecNew[int32]()
		push, capacity = func() { o.Push(1); v.Append(&o) }, func() gost.USize { return v.Capacity() }
	case "VecDeque.Append":
		o := gost.VecDequeNew[int32]()
		push, capacity = func() { o.PushBack(1); d.Append(&o) }, func() gost.USize { return d.Capacity() }
	default:
		o := gost.BinaryHeapNew[gost.I32]()
		push, capacity = func() { o.Push(1); h.Append(&o) }, func() gost.USize { return h.Capacity() }
	}
	if strings.HasSuffix(what, "Append") {
		n = min(n, 50000) // each push makes a collection
	}
	changes, moved := 0, 0
	last := capacity()
	for i := 0; i < n; i++ {
		push()
		if now := capacity(); now != last {
			c.Check(now > last, "%s: pushing took the capacity from %d to %d", what, last, now)
			changes++
			moved += i
			last = now
		}
	}
	c.Evals(n)
	c.Event("growth observed")
	c.Check(moved <= 20*n+1000, "%s: growing to %d elements reallocated %d times and moved %d elements, more than %d", what, n, changes, moved, 20*n+1000)
	c.Check(int(last) >= n, "%s: a capacity of %d holds %d elements", what, last, n)
}
