//go:build !vals

package main

import (
	"slices"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

func init() {
	mon.Rule("C08", "a case takes two sets (random, nested, disjoint, equal, the same set twice, of very different sizes, built by histories with removals) or, in the enumerated monitor, every pair of subsets of a small universe, and compares every operation with its Boolean definition, the operands afterwards with what they were, and the results' independence of the operands; non-trivial when both sets are non-empty")
	mon.Need("C08", "empty operand", 50)
	mon.Need("C08", "set with itself", 50)
	mon.Need("C08", "multi-node operand", 50)
	mon.Reg("C08", "hash-I32", 3000, 80000, func(c *mon.Case) { algebraRandom(c, kI32, hashOps[gost.I32]()) })
	mon.Reg("C08", "hash-String", 2000, 60000, func(c *mon.Case) { algebraRandom(c, kStr, hashOps[gost.String]()) })
	mon.Reg("C08", "btree-I32", 3000, 80000, func(c *mon.Case) { algebraRandom(c, kI32, treeOps[gost.I32]()) })
	mon.Reg("C08", "btree-String", 2000, 60000, func(c *mon.Case) { algebraRandom(c, kStr, treeOps[gost.String]()) })
	mon.Reg("C08", "hash-enumerated", 32, 64, func(c *mon.Case) { algebraEnum(c, hashOps[gost.I32]()) })
	mon.Reg("C08", "btree-enumerated", 32, 64, func(c *mon.Case) { algebraEnum(c, treeOps[gost.I32]()) })

	mon.Rule("C09", "a case is one interleaving of pushes, pops, appends and clears on two heaps, checked against a multiset model whose maximum is known; non-trivial when at least 3 elements were popped in order")
	mon.Need("C09", "append of a non-empty heap", 200)
	mon.Need("C09", "pop with equal greatest elements", 200)
	mon.Reg("C09", "heap-Item", 5000, 120000, func(c *mon.Case) { heapHistory(c, kItem) })
	mon.Reg("C09", "heap-I32", 5000, 120000, func(c *mon.Case) { heapHistory(c, kI32) })
	mon.Reg("C09", "heap-String", 3000, 80000, func(c *mon.Case) { heapHistory(c, kStr) })
	mon.Reg("C09", "heap-I128", 2000, 60000, func(c *mon.Case) { heapHistory(c, kI128) })
	mon.Reg("C09", "heap-permutations", 8, 9, heapPermutations)
}

// setOps drives one kind of set through closures.
type setOps[T comparable, S any] struct {
	name                           string
	ordered                        bool
	empty                          func() S
	insert                         func(s *S, x T) bool
	remove                         func(s *S, x T) bool
	length                         func(s *S) int
	elems                          func(c *mon.Case, s *S, n int) []T
	contains                       func(s *S, x T) bool
	union, inter, symdiff          func(a, b S) S
	subset, superset, disjoint, eq func(a, b S) bool
}

func hashOps[T comparable]() setOps[T, gost.HashSet[T]] {
	type S = gost.HashSet[T]
	return setOps[T, S]{
		name: "HashSet", empty: gost.HashSetNew[T],
		insert:   func(s *S, x T) bool { return bool(s.Insert(x)) },
		remove:   func(s *S, x T) bool { return bool(s.Remove(x)) },
		length:   func(s *S) int { return int(s.Len()) },
		elems:    func(c *mon.Case, s *S, n int) []T { return drain(c, s.IntoIter(), n) },
		contains: func(s *S, x T) bool { return bool(s.Contains(x)) },
		union:    func(a, b S) S { return a.Union(b) },
		inter:    func(a, b S) S { return a.Intersection(b) },
		symdiff:  func(a, b S) S { return a.SymmetricDifference(b) },
		subset:   func(a, b S) bool { return bool(a.IsSubset(b)) },
		superset: func(a, b S) bool { return bool(a.IsSuperset(b)) },
		disjoint: func(a, b S) bool { return bool(a.IsDisjoint(b)) },
		eq:       func(a, b S) bool { return bool(a.Eq(b)) },
	}
}

func treeOps[T interface {
	comparable
	gost.Ord[T]
}]() setOps[T, gost.BTreeSet[T]] {
	type S = gost.BTreeSet[T]
	return setOps[T, S]{
		name: "BTreeSet", ordered: true, empty: gost.BTreeSetNew[T],
		insert:   func(s *S, x T) bool { return bool(s.Insert(x)) },
		remove:   func(s *S, x T) bool { return bool(s.Remove(x)) },
		length:   func(s *S) int { return int(s.Len()) },
		elems:    func(c *mon.Case, s *S, n int) []T { return drain(c, s.IntoIter(), n) },
		contains: func(s *S, x T) bool { return bool(s.Contains(x)) },
		union:    func(a, b S) S { return a.Union(b) },
		inter:    func(a, b S) S { return a.Intersection(b) },
		symdiff:  func(a, b S) S { return a.SymmetricDifference(b) },
		subset:   func(a, b S) bool { return bool(a.IsSubset(b)) },
		superset: func(a, b S) bool { return bool(a.IsSuperset(b)) },
		disjoint: func(a, b S) bool { return bool(a.IsDisjoint(b)) },
		eq:       func(a, b S) bool { return bool(a.Eq(b)) },
	}
}

func sortedKeys[T comparable](m map[T]bool, cmp func(a, b T) int) []T {
	out := make([]T, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	slices.SortFunc(out, cmp)
	return out
}

func checkSet[T comparable, S any](c *mon.Case, what string, o setOps[T, S], s *S, m map[T]bool, cmp func(a, b T) int) {
	c.Evals(1)
	want := sortedKeys(m, cmp)
	got := o.elems(c, s, len(m))
	if !o.ordered {
		slices.SortFunc(got, cmp)
	}
	sameSeq(c, what, got, want, func(a, b T) bool { return a == b })
	c.Check(o.length(s) == len(m), "%s: Len() is %d, want %d", what, o.length(s), len(m))
	for _, k := range want {
		c.Check(o.contains(s, k), "%s: Contains(%v) is false", what, k)
	}
}

// algebra checks every operation on one pair of sets.
func algebra[T comparable, S any](c *mon.Case, o setOps[T, S], a, b S, ma, mb map[T]bool, cmp func(x, y T) int, extra T) {
	u, in, sd := map[T]bool{}, map[T]bool{}, map[T]bool{}
	sub, dis := true, true
	for k := range ma {
		u[k] = true
		if mb[k] {
			in[k] = true
			dis = false
		} else {
			sd[k] = true
			sub = false
		}
	}
	sup := true
	for k := range mb {
		u[k] = true
		if !ma[k] {
			sd[k] = true
			sup = false
		}
	}
	if len(ma) == 0 || len(mb) == 0 {
		c.Event("empty operand")
	} else {
		c.Nontrivial()
	}
	if o.ordered && (len(ma) > 20 || len(mb) > 20) || !o.ordered && len(u) > 20 {
		c.Event("multi-node operand")
	}
	c.Evals(4)
	c.Check(o.subset(a, b) == sub, "IsSubset is %v, want %v", !sub, sub)
	c.Check(o.superset(a, b) == sup, "IsSuperset is %v, want %v", !sup, sup)
	c.Check(o.disjoint(a, b) == dis, "IsDisjoint is %v, want %v", !dis, dis)
	c.Check(o.eq(a, b) == (sub && sup), "Eq is %v, want %v", !(sub && sup), sub && sup)
	ru, ri, rs := o.union(a, b), o.inter(a, b), o.symdiff(a, b)
	checkSet(c, "Union", o, &ru, u, cmp)
	checkSet(c, "Intersection", o, &ri, in, cmp)
	checkSet(c, "SymmetricDifference", o, &rs, sd, cmp)
	// The results are sets of their own: change them, the operands stay.
	for _, x := range []*S{&ru, &ri, &rs} {
		o.insert(x, extra)
		i := 0
		for k := range ma {
			if i++; i > 3 {
				break
			}
			o.remove(x, k)
		}
		i = 0
		for k := range mb {
			if i++; i > 3 {
				break
			}
			o.remove(x, k)
		}
	}
	checkSet(c, "left operand afterwards", o, &a, ma, cmp)
	checkSet(c, "right operand afterwards", o, &b, mb, cmp)
	// And the other way round: change an operand, the results stay.
	ru, ri, rs = o.union(a, b), o.inter(a, b), o.symdiff(a, b)
	add := o.insert(&a, extra)
	c.Check(add == !ma[extra], "Insert into an operand afterwards returned %v", add)
	rem := false
	for k := range ma {
		if k != extra {
			o.remove(&a, k)
			rem = true
			break
		}
	}
	_ = rem
	checkSet(c, "Union after changing an operand", o, &ru, u, cmp)
	checkSet(c, "Intersection after changing an operand", o, &ri, in, cmp)
	checkSet(c, "SymmetricDifference after changing an operand", o, &rs, sd, cmp)
}

func algebraRandom[T comparable, S any](c *mon.Case, k Kit[T], o setOps[T, S]) {
	r := c.R
	d := mon.Pick(r, 2, 4, 10, 40, 200)
	if c.Big > 0 {
		d = mon.Pick(r, 1, 3) * c.Big
	}
	mk := func(n int, from []T) (S, map[T]bool) {
		s, m := o.empty(), map[T]bool{}
		for i := 0; i < n; i++ {
			var x T
			if len(from) > 0 {
				x = from[r.N(len(from))]
			} else {
				x = k.Gen(r, d)
			}
			c.Op("ins", x)
			o.insert(&s, x)
			m[x] = true
			if r.P(0.2) {
				y := k.Gen(r, d)
				c.Op("del", y)
				o.remove(&s, y)
				delete(m, y)
			}
		}
		return s, m
	}
	size := func() int {
		if c.Big > 0 {
			return mon.Pick(r, c.Big, c.Big, bigSize(c), r.N(20))
		}
		return mon.Pick(r, 0, 1, r.N(6), r.N(30), r.N(150))
	}
	a, ma := mk(size(), nil)
	var b S
	var mb map[T]bool
	rel := mon.Pick(r, "random", "random", "sub", "equal", "self", "disjoint", "super", "one", "almost", "ranges")
	c.Op(rel)
	keys := sortedKeys(ma, k.Cmp)
	where := func(n int) int { return mon.Pick(r, 0, 0, n-1, n-1, n/2, r.N(n)) }
	build := func(kk []T) (S, map[T]bool) {
		s, m := o.empty(), map[T]bool{}
		kk = slices.Clone(kk)
		if r.Bool() {
			mon.Shuffle(r, kk)
		}
		for _, x := range kk {
			c.Op("ins", x)
			o.insert(&s, x)
			m[x] = true
		}
		return s, m
	}
	switch rel {
	case "random":
		b, mb = mk(size(), nil)
	case "sub":
		b, mb = mk(0, nil)
		for _, x := range keys {
			if r.Bool() {
				o.insert(&b, x)
				mb[x] = true
			}
		}
	case "super":
		b, mb = mk(size(), nil)
		for _, x := range keys {
			o.insert(&b, x)
			mb[x] = true
		}
	case "equal":
		b, mb = o.empty(), map[T]bool{}
		kk := slices.Clone(keys)
		mon.Shuffle(r, kk)
		for _, x := range kk {
			o.insert(&b, x)
			mb[x] = true
		}
	case "one": // exactly one common member
		var kk []T
		if len(keys) > 0 {
			kk = append(kk, keys[where(len(keys))])
		}
		for i := size(); i > 0; i-- {
			if x := k.Gen(r, 2*d); !ma[x] {
				kk = append(kk, x)
			}
		}
		b, mb = build(kk)
	case "almost": // equal but for a member or two
		kk := slices.Clone(keys)
		for i := r.In(1, 2); i > 0; i-- {
			if len(kk) > 0 && r.P(0.7) {
				j := where(len(kk))
				kk = slices.Delete(kk, j, j+1)
			}
			if r.P(0.4) {
				kk = append(kk, k.Gen(r, 2*d))
			}
		}
		b, mb = build(kk)
	case "ranges": // stretches of the order, which may touch or overlap a little
		n := len(keys)
		i := r.N(n + 1)
		j := min(n, max(0, i+r.In(-2, 2)))
		if r.Bool() {
			i, j = n-i, n-j
		}
		lo, hi := keys[:i], keys[j:]
		if r.P(0.2) { // one inside the other
			lo, hi = keys, keys[min(i, j):max(i, j)]
		}
		if r.Bool() {
			lo, hi = hi, lo
		}
		a, ma = build(lo)
		b, mb = build(hi)
	case "disjoint":
		b, mb = o.empty(), map[T]bool{}
		for i := size(); i > 0; i-- {
			if x := k.Gen(r, d); !ma[x] {
				o.insert(&b, x)
				mb[x] = true
			}
		}
	case "self":
		c.Event("set with itself")
		c.Check(o.subset(a, a) && o.superset(a, a) && o.eq(a, a), "a set is not a subset, superset and equal of itself")
		c.Check(o.disjoint(a, a) == (len(ma) == 0), "IsDisjoint of a set with itself is %v with %d members", o.disjoint(a, a), len(ma))
		u, i, s := o.union(a, a), o.inter(a, a), o.symdiff(a, a)
		checkSet(c, "Union with itself", o, &u, ma, k.Cmp)
		checkSet(c, "Intersection with itself", o, &i, ma, k.Cmp)
		checkSet(c, "SymmetricDifference with itself", o, &s, map[T]bool{}, k.Cmp)
		return
	}
	algebra(c, o, a, b, ma, mb, k.Cmp, k.Gen(r, d))
}

func algebraEnum[S any](c *mon.Case, o setOps[gost.I32, S]) {
	n := 5
	if c.Tier == "thorough" {
		n = 6
	}
	build := func(bits int) (S, map[gost.I32]bool) {
		s, m := o.empty(), map[gost.I32]bool{}
		for i := 0; i < n; i++ {
			if bits>>i&1 != 0 {
				o.insert(&s, gost.I32(i))
				m[gost.I32(i)] = true
			}
		}
		return s, m
	}
	c.Op("subset", c.Index)
	for y := 0; y < 1<<n; y++ {
		a, ma := build(c.Index)
		b, mb := build(y)
		algebra(c, o, a, b, ma, mb, kI32.Cmp, gost.I32(y%(n+1)))
	}
	c.Enumerated(1 << n)
}

// ------------------------------------------------------------------ heap

type heapT[T gost.Ord[T]] struct {
	h gost.BinaryHeap[T]
	m []T
}

func heapHistory[T interface {
	comparable
	gost.Ord[T]
}](c *mon.Case, k Kit[T]) {
	r := c.R
	d := dom(c)
	mk := func() *heapT[T] {
		switch r.N(4) {
		case 0:
			n := r.N(20)
			c.Op("BinaryHeapWithCapacity", n)
			return &heapT[T]{h: gost.BinaryHeapWithCapacity[T](gost.USize(n))}
		case 1:
			if k.Name != "I128" {
				n := r.N(6)
				c.Op("BinaryHeapWithLen", n)
				return &heapT[T]{h: gost.BinaryHeapWithLen[T](gost.USize(n)), m: make([]T, n)}
			}
		}
		return &heapT[T]{h: gost.BinaryHeapNew[T]()}
	}
	a, b := mk(), mk()
	if c.Big > 0 {
		xs := make([]T, c.Big)
		for i := range xs {
			xs[i] = k.Gen(r, d)
		}
		switch r.N(4) {
		case 0:
			slices.SortStableFunc(xs, k.Cmp)
		case 1:
			slices.SortStableFunc(xs, func(x, y T) int { return -k.Cmp(x, y) })
		}
		c.Op("filled", c.Big)
		for _, x := range xs {
			a.h.Push(x)
		}
		a.m = append(a.m, xs...)
		for i := r.N(2) * r.N(c.Big); i > 0; i-- {
			x := k.Gen(r, d)
			b.h.Push(x)
			b.m = append(b.m, x)
		}
	}
	check := func(x *heapT[T]) {
		c.Evals(1)
		c.Check(int(x.h.Len()) == len(x.m), "Len() is %d, want %d", x.h.Len(), len(x.m))
		c.Check(bool(x.h.IsEmpty()) == (len(x.m) == 0), "IsEmpty() is %v with %d elements", x.h.IsEmpty(), len(x.m))
		if len(x.m) < 40 || r.P(0.1) && (len(x.m) < 300 || r.P(0.05)) {
			sameBag(c, "AsSlice()", x.h.AsSlice(), x.m)
		}
	}
	pops := 0
	pop := func(x *heapT[T]) {
		o := x.h.Pop()
		if len(x.m) == 0 {
			wantNone(c, "Pop()", o)
			return
		}
		c.Check(bool(o.IsSome()), "Pop() is None with %d elements", len(x.m))
		got := o.Unwrap()
		at, ties := -1, 0
		for i, y := range x.m {
			if k.Cmp(y, got) > 0 {
				c.Fail("Pop() gave %v although %v is in the heap: %s", got, y, brief(x.m))
			}
			if k.Cmp(y, got) == 0 {
				ties++
			}
			if k.Same(y, got) {
				at = i
			}
		}
		if at < 0 {
			c.Fail("Pop() gave %v, which is not in the heap: %s", got, brief(x.m))
		}
		if ties > 1 {
			c.Event("pop with equal greatest elements")
		}
		x.m = append(slices.Clone(x.m[:at]), x.m[at+1:]...)
		pops++
	}
	n := steps(c)
	bias := mon.Pick(r, 2, 4, 8)
	mono := r.N(4)
	last := k.Gen(r, d)
	for i := 0; i < n; i++ {
		if r.P(0.04) {
			a, b = b, a
			c.Op("switch")
		}
		op := r.N(6 + bias)
		switch {
		case op >= 6 || op == 5:
			x := k.Gen(r, d)
			if mono == 0 && k.Cmp(x, last) < 0 || mono == 1 && k.Cmp(x, last) > 0 {
				x = last
			}
			last = x
			c.Op("Push", x)
			a.h.Push(x)
			a.m = append(slices.Clone(a.m), x)
		case op < 3:
			c.Op("Pop")
			pop(a)
		case op == 3:
			c.Op("Append", len(b.m))
			if len(b.m) > 0 {
				c.Event("append of a non-empty heap")
			}
			a.h.Append(&b.h)
			a.m = append(slices.Clone(a.m), b.m...)
			b.m = nil
			check(b)
			pop(b)
			for j := r.N(4); j > 0; j-- {
				x := k.Gen(r, d)
				c.Op("other.Push", x)
				b.h.Push(x)
				b.m = append(slices.Clone(b.m), x)
			}
			check(b)
		case op == 4:
			if r.P(0.1) {
				c.Op("Clear")
				a.h.Clear()
				a.m = nil
			} else {
				add := r.N(10)
				c.Op("Reserve", add)
				a.h.Reserve(gost.USize(add))
				c.Check(int(a.h.Capacity()) >= len(a.m)+add, "after Reserve(%d) at length %d the capacity is %d", add, len(a.m), a.h.Capacity())
			}
		}
		check(a)
	}
	// End: drain one, convert the other.
	want := slices.Clone(b.m)
	slices.SortStableFunc(want, k.Cmp)
	if r.Bool() {
		sv := b.h.IntoSortedVec()
		got := sv.AsSlice()
		sameBag(c, "IntoSortedVec()", got, want)
		for i := 1; i < len(got); i++ {
			c.Check(k.Cmp(got[i-1], got[i]) <= 0, "IntoSortedVec(): %v before %v", got[i-1], got[i])
		}
	} else {
		iv := b.h.IntoVec()
		sameBag(c, "IntoVec()", iv.AsSlice(), want)
	}
	for len(a.m) > 0 {
		pop(a)
		check(a)
	}
	pop(a)
	if pops >= 3 {
		c.Nontrivial()
	}
}

// heapPermutations pushes every permutation (with repeats among the values)
// of n elements and drains, popping some of them half-way.
func heapPermutations(c *mon.Case) {
	n := min(c.Index+1, 8)
	if c.Tier != "thorough" {
		n = min(n, 7)
	}
	c.Op("n", n)
	c.Nontrivial()
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	done := 0
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			done++
			h := gost.BinaryHeapNew[Item]()
			var m []Item
			pop := func() {
				o := h.Pop()
				if len(m) == 0 {
					wantNone(c, "Pop()", o)
					return
				}
				best := 0
				for j := range m {
					if m[j].K > m[best].K {
						best = j
					}
				}
				c.Check(bool(o.IsSome()), "Pop() is None with %d elements", len(m))
				got := o.Unwrap()
				c.Check(got.K == m[best].K, "Pop() gave %v, greatest key is %d; pushes %v", got, m[best].K, perm)
				at := slices.Index(m, got)
				c.Check(at >= 0, "Pop() gave %v, which is not in the heap %v", got, m)
				m = slices.Delete(m, at, at+1)
			}
			for j, x := range perm {
				it := Item{int32(x / 2), int32(x)}
				h.Push(it)
				m = append(m, it)
				if j == n/2 {
					pop()
				}
			}
			for len(m) > 0 {
				pop()
			}
			pop()
			c.Evals(1)
			return
		}
		for j := i; j < n; j++ {
			perm[i], perm[j] = perm[j], perm[i]
			rec(i + 1)
			perm[i], perm[j] = perm[j], perm[i]
		}
	}
	rec(0)
	c.Enumerated(done)
}
