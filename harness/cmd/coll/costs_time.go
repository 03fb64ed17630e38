//go:build !vals

package main

import (
	"fmt"
	"runtime"
	"syscall"
	"time"
	"unsafe"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

// The part of P01 that is decided by processor time, where nothing can be
// counted from outside.

func init() {
	mon.RegSerial("P01", "constant", 1, 24, constantCost)
	mon.RegSerial("P01", "whole", 1, 12, wholeCost)
	mon.RegSerial("P01", "clear", 1, 6, clearCost)
	mon.RegSerial("P01", "steady", 1, 12, steadyCost)
	mon.Need("P01", "operation timed", 150)
	mon.Need("P01", "steady use observed", 10)
}

// spent is the processor time that f takes on this thread.
func spent(f func()) time.Duration {
	now := func() int64 {
		const threadClock = 3 // CLOCK_THREAD_CPUTIME_ID
		var t syscall.Timespec
		syscall.Syscall(syscall.SYS_CLOCK_GETTIME, threadClock, uintptr(unsafe.Pointer(&t)), 0)
		return t.Nano()
	}
	a := now()
	f()
	return time.Duration(now() - a)
}

// timed compares the processor time of an operation on a small collection and
// on a large one, with a limit of the documented class; a try that was slow for
// another reason is repeated. An operation of a worse class takes many times
// the limit at the sizes used here.
func timed(c *mon.Case, what string, small, large func() func()) {
	best := time.Hour
	var base time.Duration
	for try := 0; try < 4 && best > 60*time.Millisecond+20*base; try++ {
		if try > 0 {
			runtime.GC()
		}
		base = spent(small())
		best = min(best, spent(large()))
	}
	c.Evals(1)
	c.Event("operation timed")
	c.Check(best <= 60*time.Millisecond+20*base, "%s took %v of processor time on the large collection, and %v on the small one", what, best, base)
}

type num = gost.I64

func vecTo(n int) *gost.Vec[num] {
	v := gost.VecNew[num]()
	for i := 0; i < n; i++ {
		v.Push(num(i))
	}
	return &v
}

// dequeTo holds the numbers across the end of its buffer.
func dequeTo(n int) *gost.VecDeque[num] {
	v := gost.VecDequeNew[num]()
	for i := n / 3; i < n; i++ {
		v.PushBack(num(i))
	}
	for i := n/3 - 1; i >= 0; i-- {
		v.PushFront(num(i))
	}
	return &v
}

func listTo(n int) *gost.LinkedList[num] {
	v := gost.LinkedListNew[num]()
	for i := 0; i < n; i++ {
		v.PushBack(num(i))
	}
	return &v
}

func hsetTo(from, n int) *gost.HashSet[num] {
	v := gost.HashSetNew[num]()
	for i := from; i < from+n; i++ {
		v.Insert(num(i))
	}
	return &v
}

func bsetTo(from, n int) *gost.BTreeSet[num] {
	v := gost.BTreeSetNew[num]()
	for i := from; i < from+n; i++ {
		v.Insert(num(i))
	}
	return &v
}

func hmapTo(n int) *gost.HashMap[num, num] {
	v := gost.HashMapNew[num, num]()
	for i := 0; i < n; i++ {
		v.Insert(num(i), 1)
	}
	return &v
}

func bmapTo(n int) *gost.BTreeMap[num, num] {
	v := gost.BTreeMapNew[num, num]()
	for i := 0; i < n; i++ {
		v.Insert(num(i), 1)
	}
	return &v
}

func heapTo(n int) *gost.BinaryHeap[num] {
	v := gost.BinaryHeapNew[num]()
	for i := 0; i < n; i++ {
		v.Push(num(i))
	}
	return &v
}

// each makes a run of operations of one kind of collection.
func each[T any](try func(string, func(int) func(int)), kind string, make func(int) *T) func(string, func(*T, int)) {
	return func(name string, f func(*T, int)) {
		try(kind+"."+name, func(n int) func(int) {
			x := make(n)
			return func(i int) { f(x, i) }
		})
	}
}

// constantCost makes many calls of an operation that takes constant (or
// logarithmic) time on a long collection and as many on a short one.
func constantCost(c *mon.Case) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	const calls = 3000
	short, long := calls+10, mon.Pick(c.R, 200000, 250000)
	c.Op("constant", long)
	c.Nontrivial()
	try := func(name string, make func(n int) func(i int)) {
		run := func(n int) func() func() {
			return func() func() {
				f := make(n)
				return func() {
					for i := 0; i < calls; i++ {
						f(i)
					}
				}
			}
		}
		timed(c, fmt.Sprintf("%d calls of %s, with %d and %d elements,", calls, name, short, long), run(short), run(long))
	}
	at := func(n gost.USize, i int) gost.USize { return (gost.USize(i) * 7919) % n }

	type list = gost.LinkedList[num]
	lists := each(try, "LinkedList", listTo)
	lists("Len", func(l *list, i int) { l.Len() })
	lists("IsEmpty", func(l *list, i int) { l.IsEmpty() })
	lists("Front", func(l *list, i int) { l.Front() })
	lists("Back", func(l *list, i int) { l.Back() })
	lists("PushBack and PopBack", func(l *list, i int) {
		if l.PushBack(1); i%4 != 0 {
			l.PopBack()
		}
	})
	lists("PopBack", func(l *list, i int) { l.PopBack() })
	lists("PushFront", func(l *list, i int) { l.PushFront(1) })
	lists("PopFront", func(l *list, i int) { l.PopFront() })
	lists("PushFront and PopBack", func(l *list, i int) { l.PushFront(1); l.PopBack() })
	other := gost.LinkedListNew[num]()
	lists("Append, to and fro", func(l *list, i int) { other.PushBack(7); other.Append(l); l.Append(&other) })
	lists("Append of a short list", func(l *list, i int) { other.PushBack(7); l.Append(&other) })
	lists("Append to an empty list", func(l *list, i int) { other.Append(l); l.Append(&other) })
	lists("IntoIter and three steps", func(l *list, i int) {
		it := l.IntoIter()
		it.Next()
		it.Next()
		it.Next()
	})

	type vec = gost.Vec[num]
	vecs := each(try, "Vec", vecTo)
	vecs("Len", func(v *vec, i int) { v.Len() })
	vecs("IsEmpty", func(v *vec, i int) { v.IsEmpty() })
	vecs("Capacity", func(v *vec, i int) { v.Capacity() })
	vecs("Get", func(v *vec, i int) { v.Get(at(v.Len(), i)) })
	vecs("GetUnchecked", func(v *vec, i int) { v.GetUnchecked(at(v.Len(), i)) })
	vecs("Set", func(v *vec, i int) { v.Set(at(v.Len(), i), 5) })
	vecs("Swap", func(v *vec, i int) { v.Swap(at(v.Len(), i), at(v.Len(), i+9)) })
	vecs("Pop", func(v *vec, i int) { v.Pop() })
	vecs("Push after Pop", func(v *vec, i int) { v.Pop(); v.Push(3) })

	type deque = gost.VecDeque[num]
	deques := each(try, "VecDeque", dequeTo)
	deques("Len", func(d *deque, i int) { d.Len() })
	deques("Front", func(d *deque, i int) { d.Front() })
	deques("Back", func(d *deque, i int) { d.Back() })
	deques("Get", func(d *deque, i int) { d.Get(at(d.Len(), i)) })
	deques("GetUnchecked", func(d *deque, i int) { d.GetUnchecked(at(d.Len(), i)) })
	deques("Set", func(d *deque, i int) { d.Set(at(d.Len(), i), 5) })
	deques("Swap", func(d *deque, i int) { d.Swap(at(d.Len(), i), at(d.Len(), i+9)) })
	deques("PopFront", func(d *deque, i int) { d.PopFront() })
	deques("PopBack", func(d *deque, i int) { d.PopBack() })
	deques("PushBack after PopFront", func(d *deque, i int) { d.PopFront(); d.PushBack(3) })
	deques("PushFront after PopBack", func(d *deque, i int) { d.PopBack(); d.PushFront(3) })

	type hmap = gost.HashMap[num, num]
	maps := each(try, "HashMap", hmapTo)
	maps("Len", func(m *hmap, i int) { m.Len() })
	maps("IsEmpty", func(m *hmap, i int) { m.IsEmpty() })
	maps("Get", func(m *hmap, i int) { m.Get(num(i)) })
	maps("Get of a missing key", func(m *hmap, i int) { m.Get(num(-1 - i)) })
	maps("ContainsKey", func(m *hmap, i int) { m.ContainsKey(num(i)) })
	maps("Insert of a present key", func(m *hmap, i int) { m.Insert(num(i), 2) })
	maps("Remove and Insert", func(m *hmap, i int) { m.Remove(num(i)); m.Insert(num(-i), 1) })

	type hset = gost.HashSet[num]
	sets := each(try, "HashSet", func(n int) *hset { return hsetTo(0, n) })
	sets("Len", func(m *hset, i int) { m.Len() })
	sets("Get", func(m *hset, i int) { m.Get(num(i)) })
	sets("Contains", func(m *hset, i int) { m.Contains(num(i)) })
	sets("Contains of a missing value", func(m *hset, i int) { m.Contains(num(-1 - i)) })
	sets("Remove and Insert", func(m *hset, i int) { m.Remove(num(i)); m.Insert(num(-i)) })

	type tree = gost.BTreeMap[num, num]
	trees := each(try, "BTreeMap", bmapTo)
	trees("Len", func(m *tree, i int) { m.Len() })
	trees("IsEmpty", func(m *tree, i int) { m.IsEmpty() })
	trees("Get", func(m *tree, i int) { m.Get(num(i)) })
	trees("Get and ContainsKey of a missing key", func(m *tree, i int) {
		m.Get(num(-1 - i))
		m.ContainsKey(num(-1 - i))
	})
	trees("ContainsKey", func(m *tree, i int) { m.ContainsKey(num(i)) })
	trees("Insert of a present key", func(m *tree, i int) { m.Insert(num(i), 2) })
	trees("Remove and Insert", func(m *tree, i int) { m.Remove(num(i)); m.Insert(num(-i), 1) })

	type bset = gost.BTreeSet[num]
	bsets := each(try, "BTreeSet", func(n int) *bset { return bsetTo(0, n) })
	bsets("Len", func(m *bset, i int) { m.Len() })
	bsets("Contains", func(m *bset, i int) { m.Contains(num(i)) })
	bsets("Contains of a missing value", func(m *bset, i int) { m.Contains(num(-1 - i)) })
	bsets("Remove and Insert", func(m *bset, i int) { m.Remove(num(i)); m.Insert(num(-i)) })

	type heap = gost.BinaryHeap[num]
	heaps := each(try, "BinaryHeap", heapTo)
	heaps("Len", func(m *heap, i int) { m.Len() })
	heaps("Push", func(m *heap, i int) { m.Push(num(i)) })
	heaps("Pop", func(m *heap, i int) { m.Pop() })
}

// clearCost drops long lists, which takes the same time as dropping short ones
// (the collector's work aside).
func clearCost(c *mon.Case) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	const lists, long = 16, 250000
	c.Op("clear", lists, long)
	c.Nontrivial()
	best := time.Hour
	const most = 4 * time.Millisecond
	for try := 0; try < 5 && best > most; try++ {
		var all []*gost.LinkedList[num]
		for i := 0; i < lists; i++ {
			all = append(all, listTo(long))
		}
		runtime.GC()
		best = min(best, spent(func() {
			for _, l := range all {
				l.Clear()
			}
		}))
		for _, l := range all {
			c.Check(l.Len() == 0 && bool(l.Front().IsNone()), "a cleared list holds %d elements", l.Len())
		}
	}
	c.Evals(1)
	c.Event("operation timed")
	c.Check(best <= most, "clearing %d lists of %d elements took %v of processor time", lists, long, best)
}

// wholeCost runs an operation that visits every element once on a large
// collection, and twenty times on a small one.
func wholeCost(c *mon.Case) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	short, long := 2000, mon.Pick(c.R, 80000, 100000)
	c.Op("whole", long)
	c.Nontrivial()
	try := func(name string, make func(n int) func()) {
		timed(c, fmt.Sprintf("%s, 20 times with %d elements and once with %d,", name, short, long), func() func() {
			var runs []func()
			for i := 0; i < 20; i++ {
				runs = append(runs, make(short))
			}
			return func() {
				for _, f := range runs {
					f()
				}
			}
		}, func() func() { return make(long) })
	}
	even := func(x num) gost.Bool { return x%2 == 0 }

	iterated := func(name string, it func(n int) gost.Iterator[num]) {
		on := func(what string, f func(i gost.Iterator[num])) {
			try(what+" a "+name, func(n int) func() {
				i := it(n)
				return func() { f(i) }
			})
		}
		on("iterating over", func(i gost.Iterator[num]) {
			for i.Next().IsSome() {
			}
		})
		on("Map on", func(i gost.Iterator[num]) { i.Map(func(x num) num { return x }) })
		on("Filter on", func(i gost.Iterator[num]) { i.Filter(even) })
		on("Fold on", func(i gost.Iterator[num]) { i.Fold(0, func(x, y num) num { return x + y }) })
		on("Rev on", func(i gost.Iterator[num]) { i.Rev() })
		on("CollectToVec on", func(i gost.Iterator[num]) { i.CollectToVec() })
		on("CollectToLinkedList on", func(i gost.Iterator[num]) { i.CollectToLinkedList() })
	}
	iterated("Vec", func(n int) gost.Iterator[num] { return vecTo(n).IntoIter() })
	iterated("VecDeque", func(n int) gost.Iterator[num] { return dequeTo(n).IntoIter() })
	iterated("LinkedList", func(n int) gost.Iterator[num] { return listTo(n).IntoIter() })
	iterated("HashSet", func(n int) gost.Iterator[num] { return hsetTo(0, n).IntoIter() })
	iterated("BTreeSet", func(n int) gost.Iterator[num] { return bsetTo(0, n).IntoIter() })
	iterated("HashMap's keys", func(n int) gost.Iterator[num] { return hmapTo(n).Keys() })
	iterated("HashMap's values", func(n int) gost.Iterator[num] { return hmapTo(n).Values() })
	iterated("BTreeMap's keys", func(n int) gost.Iterator[num] { return bmapTo(n).Keys() })
	iterated("BTreeMap's values", func(n int) gost.Iterator[num] { return bmapTo(n).Values() })

	try("iterators of a HashMap", func(n int) func() {
		m := hmapTo(n)
		return func() { m.Keys(); m.Values(); m.IntoIter() }
	})
	try("iterators of a BTreeMap", func(n int) func() {
		m := bmapTo(n)
		return func() { m.Keys(); m.Values(); m.IntoIter() }
	})
	try("Vec.Clone and Eq", func(n int) func() { a := vecTo(n); return func() { a.Eq(a.Clone()) } })
	try("VecDeque.Clone and Eq", func(n int) func() { a := dequeTo(n); return func() { a.Eq(a.Clone()) } })
	try("LinkedList.Clone and Eq", func(n int) func() { a := listTo(n); return func() { a.Eq(a.Clone()) } })
	try("HashMap.Clone and Eq", func(n int) func() { a := hmapTo(n); return func() { a.Eq(a.Clone()) } })
	try("HashSet.Clone and Eq", func(n int) func() { a := hsetTo(0, n); return func() { a.Eq(a.Clone()) } })
	try("BTreeMap.Eq", func(n int) func() { a, b := bmapTo(n), bmapTo(n); return func() { a.Eq(b) } })
	try("BTreeSet.Clone and Eq", func(n int) func() { a := bsetTo(0, n); return func() { a.Eq(a.Clone()) } })

	try("Vec.Retain", func(n int) func() { a := vecTo(n); return func() { a.Retain(even) } })
	try("Vec.Dedup", func(n int) func() { a := vecTo(n); return func() { a.Dedup() } })
	sames := func(n int) *gost.Vec[num] {
		v := gost.VecNew[num]()
		for i := 0; i < n; i++ {
			v.Push(num(i / 2 % 3 * (i / (n / 4))))
		}
		return &v
	}
	try("Vec.Dedup of pairs and long runs", func(n int) func() { a := sames(n); return func() { a.Dedup() } })
	try("Vec.Retain of nothing", func(n int) func() {
		a := vecTo(n)
		return func() { a.Retain(func(num) gost.Bool { return false }) }
	})
	try("Vec.DedupByKey", func(n int) func() {
		a := vecTo(n)
		return func() { a.DedupByKey(func(x num) any { return x / 3 }) }
	})
	try("Vec.Reverse", func(n int) func() { a := vecTo(n); return func() { a.Reverse() } })
	try("Vec.Fill", func(n int) func() { a := vecTo(n); return func() { a.Fill(1) } })
	try("Vec.Append", func(n int) func() { a, b := vecTo(n), vecTo(n); return func() { a.Append(b) } })
	try("Vec.Contains", func(n int) func() { a := vecTo(n); return func() { a.Contains(-1) } })
	try("VecDeque.Retain", func(n int) func() { a := dequeTo(n); return func() { a.Retain(even) } })
	try("VecDeque.Dedup", func(n int) func() { a := dequeTo(n); return func() { a.Dedup(func(x num) any { return x }) } })
	try("VecDeque.Dedup of pairs and long runs", func(n int) func() {
		d := gost.VecDequeNew[num]()
		for _, x := range sames(n).AsSlice() {
			d.PushBack(x)
		}
		return func() { d.Dedup(func(x num) any { return x }) }
	})
	try("VecDeque.Append", func(n int) func() { a, b := dequeTo(n), dequeTo(n); return func() { a.Append(b) } })
	try("VecDeque.AsSlice", func(n int) func() { a := dequeTo(n); return func() { a.AsSlice() } })
	try("VecDeque.Contains", func(n int) func() { a := dequeTo(n); return func() { a.Contains(-1) } })

	for _, shift := range []int{0, 2, 4} { // sharing all, half, and nothing
		hsets := func(name string, f func(a, b gost.HashSet[num])) {
			try(fmt.Sprintf("HashSet.%s (all but %d quarters shared)", name, shift), func(n int) func() {
				a, b := hsetTo(0, n), hsetTo(n*shift/4, n)
				return func() { f(*a, *b) }
			})
		}
		bsets := func(name string, f func(a, b gost.BTreeSet[num])) {
			try(fmt.Sprintf("BTreeSet.%s (all but %d quarters shared)", name, shift), func(n int) func() {
				a, b := bsetTo(0, n), bsetTo(n*shift/4, n)
				return func() { f(*a, *b) }
			})
		}
		hsets("Union", func(a, b gost.HashSet[num]) { a.Union(b) })
		hsets("Intersection", func(a, b gost.HashSet[num]) { a.Intersection(b) })
		hsets("SymmetricDifference", func(a, b gost.HashSet[num]) { a.SymmetricDifference(b) })
		hsets("IsSubset and IsSuperset", func(a, b gost.HashSet[num]) { a.IsSubset(b); a.IsSuperset(b) })
		hsets("IsDisjoint", func(a, b gost.HashSet[num]) { a.IsDisjoint(b) })
		bsets("Union", func(a, b gost.BTreeSet[num]) { a.Union(b) })
		bsets("Intersection", func(a, b gost.BTreeSet[num]) { a.Intersection(b) })
		bsets("SymmetricDifference", func(a, b gost.BTreeSet[num]) { a.SymmetricDifference(b) })
		bsets("IsSubset and IsSuperset", func(a, b gost.BTreeSet[num]) { a.IsSubset(b); a.IsSuperset(b) })
		bsets("IsDisjoint", func(a, b gost.BTreeSet[num]) { a.IsDisjoint(b) })
	}
	try("HashSetFromSlice", func(n int) func() {
		a := vecTo(n)
		return func() { gost.HashSetFromSlice(a.AsSlice()) }
	})
}

// steadyCost uses collections for long as queues, stacks and caches that hold
// few elements at any time, and then looks at the memory they keep.
func steadyCost(c *mon.Case) {
	type big = [32]int64
	r := c.R
	hold := mon.Pick(r, 2, 7, 50)
	const rounds = 200000
	c.Op("steady", hold)
	c.Nontrivial()
	memory := func() int {
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int(m.HeapAlloc)
	}
	try := func(name string, keep any, push, pop func(i int), capacity func() gost.USize) {
		before := memory()
		n := 0
		for i := 0; i < rounds; i++ {
			if n <= 1 || n < hold && r.P(0.6) { // never empty
				push(i)
				n++
			} else {
				pop(i - n)
				n--
			}
		}
		for ; n < hold; n++ {
			push(rounds + n)
		}
		grown := memory() - before
		runtime.KeepAlive(keep)
		c.Evals(1)
		c.Event("steady use observed")
		c.Check(grown < 12<<20, "%s: holds %d elements of %d bytes, and keeps %d bytes after %d pushes and pops", name, hold, 256, grown, rounds)
		if capacity != nil {
			k := int(capacity())
			c.Check(k <= 1000, "%s: holds at most %d elements, and has a capacity of %d after %d pushes and pops", name, hold, k, rounds)
		}
	}
	var x big
	l := gost.LinkedListNew[big]()
	try("LinkedList as a queue", &l, func(int) { l.PushBack(x) }, func(int) { l.PopFront() }, nil)
	m := gost.LinkedListNew[big]()
	try("LinkedList as a backward queue", &m, func(int) { m.PushFront(x) }, func(int) { m.PopBack() }, nil)
	k := gost.LinkedListNew[big]()
	try("LinkedList as a stack", &k, func(int) { k.PushBack(x) }, func(int) { k.PopBack() }, nil)
	d := gost.VecDequeNew[big]()
	try("VecDeque as a queue", &d, func(int) { d.PushBack(x) }, func(int) { d.PopFront() }, func() gost.USize { return d.Capacity() })
	e := gost.VecDequeNew[big]()
	try("VecDeque as a backward queue", &e, func(int) { e.PushFront(x) }, func(int) { e.PopBack() }, func() gost.USize { return e.Capacity() })
	f := gost.VecDequeNew[big]()
	try("VecDeque as a stack", &f, func(int) { f.PushFront(x) }, func(int) { f.PopFront() }, func() gost.USize { return f.Capacity() })
	fq, fb := gost.VecDequeNew[big](), gost.VecDequeNew[big]()
	try("VecDeque as a queue filled by Append", &fq, func(int) { fb.PushBack(x); fq.Append(&fb) }, func(int) { fq.PopFront() }, func() gost.USize { return fq.Capacity() })
	lq, lb := gost.LinkedListNew[big](), gost.LinkedListNew[big]()
	try("LinkedList as a queue filled by Append", &lq, func(int) { lb.PushBack(x); lq.Append(&lb) }, func(int) { lq.PopFront() }, nil)
	vq, vb := gost.VecNew[big](), gost.VecNew[big]()
	try("Vec as a stack filled by Append", &vq, func(int) { vb.Push(x); vq.Append(&vb) }, func(int) { vq.Pop() }, func() gost.USize { return vq.Capacity() })
	hq, hb := gost.BinaryHeapNew[num](), gost.BinaryHeapNew[num]()
	try("BinaryHeap filled by Append", &hq, func(i int) { hb.Push(num(i)); hq.Append(&hb) }, func(int) { hq.Pop() }, func() gost.USize { return hq.Capacity() })
	v := gost.VecNew[big]()
	try("Vec as a stack", &v, func(int) { v.Push(x) }, func(int) { v.Pop() }, func() gost.USize { return v.Capacity() })
	h := gost.BinaryHeapNew[num]()
	try("BinaryHeap", &h, func(i int) { h.Push(num(i * 7919 % 1000)) }, func(int) { h.Pop() }, func() gost.USize { return h.Capacity() })
	hm := gost.HashMapNew[num, big]()
	try("HashMap", &hm, func(i int) { hm.Insert(num(i), x) }, func(i int) {
		for _, p := range hm.Keys().CollectToVec().AsSlice() {
			hm.Remove(p)
			break
		}
	}, nil)
	bm := gost.BTreeMapNew[num, big]()
	try("BTreeMap as a queue", &bm, func(i int) { bm.Insert(num(i), x) }, func(i int) { bm.Remove(bm.Keys().Next().Unwrap()) }, nil)
}
