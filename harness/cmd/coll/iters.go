//go:build !vals

package main

import (
	"slices"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

func init() {
	mon.Rule("C10", "a case takes an iterator over one collection (every kind; deques with their front anywhere in the ring, maps and sets after removals), consumes part of it, applies a chain of up to four of Map, Filter and Rev with further partial consumption in between, and ends with Next, CollectToVec, CollectToLinkedList or Fold; everything produced and every callback's arguments are compared with the model sequence (as a multiset while a hashed collection leaves the order open), and the collection with what it was; non-trivial when something was left to produce at the end")
	mon.Need("C10", "adapter after partial consumption", 1000)
	mon.Need("C10", "empty remainder", 300)
	mon.Need("C10", "next after exhaustion", 1000)
	mon.Need("C10", "reversed", 1000)
	mon.Reg("C10", "vec-I32", 4000, 100000, func(c *mon.Case) { seqIter(c, kI32, 0, kI32iter) })
	mon.Reg("C10", "vec-String", 2000, 60000, func(c *mon.Case) { seqIter(c, kStr, 0, kStriter) })
	mon.Reg("C10", "deque-I32", 4000, 100000, func(c *mon.Case) { seqIter(c, kI32, 1, kI32iter) })
	mon.Reg("C10", "deque-Item", 2000, 60000, func(c *mon.Case) { seqIter(c, kItem, 1, kItemiter) })
	mon.Reg("C10", "list-I32", 4000, 100000, func(c *mon.Case) { seqIter(c, kI32, 2, kI32iter) })
	mon.Reg("C10", "list-Item", 2000, 60000, func(c *mon.Case) { seqIter(c, kItem, 2, kItemiter) })
	mon.Reg("C10", "hash-map", 4000, 100000, hashMapIter)
	mon.Reg("C10", "hash-set", 3000, 80000, hashSetIter)
	mon.Reg("C10", "btree-map", 4000, 100000, btreeMapIter)
	mon.Reg("C10", "btree-set", 3000, 80000, btreeSetIter)
	mon.Reg("C10", "layouts", 12, 24, iterLayouts)
}

// ik is what driving an iterator needs of its element type.
type ik[T comparable] struct {
	mapf func(x T, p int) T
	keep func(x T, p int) bool
	fold func(a, x T) T
	init T
}

var kI32iter = ik[gost.I32]{
	mapf: func(x gost.I32, p int) gost.I32 { return x*3 + gost.I32(p) },
	keep: func(x gost.I32, p int) bool { return (uint32(x)*2654435761)>>27%4 != uint32(p)%5 },
	fold: func(a, x gost.I32) gost.I32 { return a*31 + x },
	init: 7,
}

var kStriter = ik[gost.String]{
	mapf: func(x gost.String, p int) gost.String { return x + gost.String(rune('a'+p%26)) },
	keep: func(x gost.String, p int) bool { return len(x)%3 != p%4 },
	fold: func(a, x gost.String) gost.String { return a + "|" + x },
	init: "<",
}

var kItemiter = ik[Item]{
	mapf: func(x Item, p int) Item { return Item{x.K + int32(p), x.ID ^ int32(p)} },
	keep: func(x Item, p int) bool { return uint32(x.ID)%5 != uint32(p)%6 },
	fold: func(a, x Item) Item { return Item{a.K*31 + x.K, a.ID*17 + x.ID} },
	init: Item{1, 2},
}

type pairT = gost.Pair[gost.I32, gost.I32]

var kPairiter = ik[pairT]{
	mapf: func(x pairT, p int) pairT { return pairT{Key: x.Key + gost.I32(p), Value: x.Value*3 + 1} },
	keep: func(x pairT, p int) bool { return uint32(x.Value)%4 != uint32(p)%5 },
	fold: func(a, x pairT) pairT { return pairT{Key: a.Key*31 + x.Key, Value: a.Value*17 + x.Value} },
	init: pairT{Key: 3, Value: 5},
}

func toSlice[T any](v gost.Vec[T]) []T { return slices.Clone(v.AsSlice()) }

func listSlice[T any](c *mon.Case, l *gost.LinkedList[T], most int) []T {
	var out []T
	n := int(l.Len())
	c.Check(n <= most+4, "a collected list has Len() %d, from at most %d elements", n, most)
	for i := 0; i < n; i++ {
		o := l.PopFront()
		if bool(o.IsNone()) {
			c.Fail("a collected list has Len() %d but only %d elements", n, i)
		}
		out = append(out, o.Unwrap())
	}
	wantNone(c, "a collected list after its last element", l.PopFront())
	return out
}

func bagHas[T comparable](bag []T, x T) int { return slices.Index(bag, x) }

// produced checks got against the whole remainder.
func produced[T comparable](c *mon.Case, what string, got, rem []T, ordered bool) {
	c.Evals(1)
	if ordered {
		sameSeq(c, what, got, rem, func(a, b T) bool { return a == b })
	} else {
		sameBag(c, what, got, rem)
	}
}

// driveIter consumes one iterator in a random way; rem is what it must produce.
func driveIter[T comparable](c *mon.Case, it gost.Iterator[T], all []T, ordered bool, k ik[T]) {
	r := c.R
	rem := slices.Clone(all)
	type called struct {
		what    string
		log     *[]T
		want    []T
		ordered bool
	}
	var calls []called
	partial := false
	take := func(n int) {
		for i := 0; i < n; i++ {
			o := it.Next()
			c.Evals(1)
			if len(rem) == 0 {
				c.Event("next after exhaustion")
				wantNone(c, "Next() of an exhausted iterator", o)
				continue
			}
			if bool(o.IsNone()) {
				c.Fail("Next() is None with %d elements still to come: %s", len(rem), brief(rem))
			}
			x, at := o.Unwrap(), 0
			if !ordered {
				at = bagHas(rem, x)
				c.Check(at >= 0, "Next() gave %v, not among the %d remaining: %s", x, len(rem), brief(rem))
			} else {
				c.Check(x == rem[0], "Next() gave %v, want %v (then %s)", x, rem[0], brief(rem))
			}
			rem = slices.Delete(rem, at, at+1)
			partial = true
		}
	}
	depth := mon.Pick(r, 0, 1, 1, 1, 2, 2, 3, 4)
	for d := 0; ; d++ {
		n := 0
		switch r.N(4) {
		case 0:
			n = r.N(len(rem) + 1)
		case 1:
			n = r.N(4)
		case 2:
			if r.P(0.3) {
				n = len(rem) + r.N(3)
			}
		}
		c.Op("Next", n)
		take(n)
		if d == depth {
			break
		}
		if partial {
			c.Event("adapter after partial consumption")
		}
		partial = false
		p := r.N(20)
		switch r.N(3) {
		case 0:
			c.Op("Map", p)
			log := new([]T)
			calls = append(calls, called{"the callback of Map", log, slices.Clone(rem), ordered})
			it = it.Map(func(x T) T { *log = append(*log, x); return k.mapf(x, p) })
			for i, x := range rem {
				rem[i] = k.mapf(x, p)
			}
		case 1:
			c.Op("Filter", p)
			log := new([]T)
			calls = append(calls, called{"the callback of Filter", log, slices.Clone(rem), ordered})
			all := r.P(0.1)
			keep := func(x T) bool { return k.keep(x, p) && !all }
			it = it.Filter(func(x T) gost.Bool { *log = append(*log, x); return gost.Bool(keep(x)) })
			rem = slices.DeleteFunc(rem, func(x T) bool { return !keep(x) })
		case 2:
			c.Op("Rev")
			c.Event("reversed")
			it = it.Rev()
			slices.Reverse(rem)
		}
	}
	if len(rem) == 0 {
		c.Event("empty remainder")
	} else {
		c.Nontrivial()
	}
	switch r.N(5) {
	case 0:
		c.Op("drain")
		take(len(rem) + 3)
	case 1:
		c.Op("CollectToVec")
		v := it.CollectToVec()
		c.Check(int(v.Len()) == len(v.AsSlice()), "the collected vector has Len() %d and %d elements", v.Len(), len(v.AsSlice()))
		produced(c, "CollectToVec()", toSlice(v), rem, ordered)
	case 2:
		c.Op("CollectToLinkedList")
		l := it.CollectToLinkedList()
		produced(c, "CollectToLinkedList()", listSlice(c, &l, len(rem)), rem, ordered)
	case 3:
		c.Op("Fold")
		var log []T
		acc := k.init
		got := it.Fold(k.init, func(a, x T) T {
			c.Check(a == acc, "Fold passes accumulator %v, want %v", a, acc)
			log = append(log, x)
			acc = k.fold(a, x)
			return acc
		})
		c.Check(got == acc, "Fold gave %v, want %v", got, acc)
		produced(c, "the elements folded", log, rem, ordered)
	case 4:
		c.Op("CollectToVec-IntoIter")
		v := it.CollectToVec()
		produced(c, "iterating CollectToVec()", drain(c, v.IntoIter(), len(rem)), rem, ordered)
	}
	for _, k := range calls {
		produced(c, "elements passed to "+k.what, *k.log, k.want, k.ordered)
	}
}

func genSeq[T any](c *mon.Case, k Kit[T]) []T {
	d := dom(c)
	xs := make([]T, c.R.Size(60))
	if c.Big > 0 {
		xs = make([]T, c.Big)
	}
	for i := range xs {
		xs[i] = k.Gen(c.R, d)
	}
	c.Op("elements", len(xs))
	return xs
}

// seqIter iterates a vector, a deque or a list, twice, and checks it is intact.
func seqIter[T comparable](c *mon.Case, k Kit[T], kind int, ki ik[T]) {
	xs := genSeq(c, k)
	rounds := c.R.In(1, 2)
	switch kind {
	case 0:
		v := vecOf(xs)
		for ; rounds > 0; rounds-- {
			driveIter(c, v.IntoIter(), xs, true, ki)
			checkVec(c, k, &v, xs)
		}
	case 1:
		v := dequeOf(c, xs)
		for ; rounds > 0; rounds-- {
			driveIter(c, v.IntoIter(), xs, true, ki)
			checkDeque(c, k, &v, xs)
		}
	case 2:
		v := gost.LinkedListNew[T]()
		for _, x := range xs {
			v.PushBack(x)
		}
		for ; rounds > 0; rounds-- {
			driveIter(c, v.IntoIter(), xs, true, ki)
			checkList(c, k, &v, xs)
		}
	}
}

// genMap makes the entries of a map, some of which were overwritten or removed on the way.
func genMap(c *mon.Case, insert func(k, v gost.I32), remove func(k gost.I32)) map[gost.I32]gost.I32 {
	m := map[gost.I32]gost.I32{}
	n := c.R.Size(60)
	if c.R.P(0.05) {
		n = c.R.In(100, 700)
	}
	d := wide(c) * 3
	if n > 100 {
		d = 1000
	}
	if c.Big > 0 {
		n = c.Big
	}
	for i := 0; i < n; i++ {
		k := gost.I32(c.R.N(d) - d/2)
		if c.R.P(0.2) {
			remove(k)
			delete(m, k)
			continue
		}
		v := gost.I32(c.R.N(50))
		insert(k, v)
		m[k] = v
	}
	c.Op("entries", len(m))
	return m
}

func entries(m map[gost.I32]gost.I32) (ks, vs []gost.I32, ps []pairT) {
	for k := range m {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	for _, k := range ks {
		vs = append(vs, m[k])
		ps = append(ps, pairT{Key: k, Value: m[k]})
	}
	return
}

func hashMapIter(c *mon.Case) {
	v := gost.HashMapNew[gost.I32, gost.I32]()
	m := genMap(c, func(k, x gost.I32) { v.Insert(k, x) }, func(k gost.I32) { v.Remove(k) })
	ks, vs, ps := entries(m)
	switch c.R.N(3) {
	case 0:
		driveIter(c, v.IntoIter(), ps, false, kPairiter)
	case 1:
		driveIter(c, v.Keys(), ks, false, kI32iter)
	case 2:
		driveIter(c, v.Values(), vs, false, kI32iter)
	}
	fullHashMap(c, &v, m)
}

func hashSetIter(c *mon.Case) {
	v := gost.HashSetNew[gost.I32]()
	m := genMap(c, func(k, _ gost.I32) { v.Insert(k) }, func(k gost.I32) { v.Remove(k) })
	ks, _, _ := entries(m)
	driveIter(c, v.IntoIter(), ks, false, kI32iter)
	in := map[gost.I32]bool{}
	for _, k := range ks {
		in[k] = true
	}
	fullHashSet(c, &v, in)
}

func btreeMapIter(c *mon.Case) {
	v := gost.BTreeMapNew[gost.I32, gost.I32]()
	m := genMap(c, func(k, x gost.I32) { v.Insert(k, x) }, func(k gost.I32) { v.Remove(k) })
	ks, vs, ps := entries(m)
	switch c.R.N(3) {
	case 0:
		driveIter(c, v.IntoIter(), ps, true, kPairiter)
	case 1:
		driveIter(c, v.Keys(), ks, true, kI32iter)
	case 2:
		driveIter(c, v.Values(), vs, true, kI32iter)
	}
	produced(c, "the map afterwards", drain(c, v.IntoIter(), len(ps)), ps, true)
	c.Check(int(v.Len()) == len(ps), "Len() is %d after iterating, want %d", v.Len(), len(ps))
}

func btreeSetIter(c *mon.Case) {
	v := gost.BTreeSetNew[gost.I32]()
	m := genMap(c, func(k, _ gost.I32) { v.Insert(k) }, func(k gost.I32) { v.Remove(k) })
	ks, _, _ := entries(m)
	driveIter(c, v.IntoIter(), ks, true, kI32iter)
	produced(c, "the set afterwards", drain(c, v.IntoIter(), len(ks)), ks, true)
	c.Check(int(v.Len()) == len(ks), "Len() is %d after iterating, want %d", v.Len(), len(ks))
}

// iterLayouts enumerates, for one length, every number of elements consumed
// before every adapter and terminal, on every sequence and tree collection
// (and every front offset of a deque).
func iterLayouts(c *mon.Case) {
	n := c.Index
	c.Op("length", n)
	c.Nontrivial()
	base := make([]gost.I32, n)
	for i := range base {
		base[i] = gost.I32(i*10 + 1)
	}
	type src struct {
		name string
		it   func() gost.Iterator[gost.I32]
	}
	srcs := []src{
		{"Vec", func() gost.Iterator[gost.I32] { return vecOf(base).IntoIter() }},
		{"LinkedList", func() gost.Iterator[gost.I32] {
			l := gost.LinkedListNew[gost.I32]()
			for _, x := range base {
				l.PushBack(x)
			}
			return l.IntoIter()
		}},
		{"BTreeSet", func() gost.Iterator[gost.I32] {
			s := gost.BTreeSetNew[gost.I32]()
			for _, x := range base {
				s.Insert(x)
			}
			return s.IntoIter()
		}},
		{"BTreeMap.Keys", func() gost.Iterator[gost.I32] {
			s := gost.BTreeMapNew[gost.I32, gost.I32]()
			for _, x := range base {
				s.Insert(x, 0)
			}
			return s.Keys()
		}},
		{"BTreeMap.Values", func() gost.Iterator[gost.I32] {
			s := gost.BTreeMapNew[gost.I32, gost.I32]()
			for _, x := range base {
				s.Insert(x, x)
			}
			return s.Values()
		}},
	}
	for capacity := n; capacity <= n+2; capacity++ {
		for off := 0; off <= capacity; off++ {
			capacity, off := capacity, off
			srcs = append(srcs, src{"VecDeque", func() gost.Iterator[gost.I32] { return makeDeque(capacity, off, base).IntoIter() }})
		}
	}
	count := 0
	for _, s := range srcs {
		for used := 0; used <= n; used++ {
			for op := 0; op < 7; op++ {
				it := s.it()
				for i := 0; i < used; i++ {
					o := it.Next()
					if bool(o.IsNone()) || o.Unwrap() != base[i] {
						c.Fail("%s: Next() number %d is %v, want %v", s.name, i, o, base[i])
					}
				}
				rem := slices.Clone(base[used:])
				var got []gost.I32
				what := ""
				switch op {
				case 0:
					what = "Next"
					got = drain(c, it, len(rem))
				case 1:
					what = "Map"
					for i := range rem {
						rem[i]++
					}
					got = drain(c, it.Map(func(x gost.I32) gost.I32 { return x + 1 }), len(rem))
				case 2:
					what = "Filter"
					rem = slices.DeleteFunc(rem, func(x gost.I32) bool { return x%3 == 0 })
					got = drain(c, it.Filter(func(x gost.I32) gost.Bool { return x%3 != 0 }), len(rem))
				case 3:
					what = "Rev"
					slices.Reverse(rem)
					got = drain(c, it.Rev(), len(rem))
				case 4:
					what = "CollectToVec"
					got = toSlice(it.CollectToVec())
				case 5:
					what = "CollectToLinkedList"
					l := it.CollectToLinkedList()
					got = listSlice(c, &l, len(rem))
				case 6:
					what = "Fold"
					it.Fold(0, func(a, x gost.I32) gost.I32 { got = append(got, x); return x })
				}
				count++
				if !slices.Equal(got, rem) {
					c.Fail("%s of %d elements: %s after %d Next gave %v, want %v", s.name, n, what, used, got, rem)
				}
			}
		}
	}
	c.Evals(count)
	c.Enumerated(count)
}
