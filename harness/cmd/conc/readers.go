package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/myyrakle/gost"

	"gostverif/mon"
)

func init() {
	mon.Rule("M04", "a case is one collection (or a pair of them) used from several threads; non-trivial when it has at least two elements; distinct by kind, content and the sequence of operations each thread drew")
	reg("M04", "shared-readers", 2400, 48000, sharedReaders)
	reg("M04", "writers-on-clones", 1200, 24000, cloneWriters)
	mon.Reg("M04", "writers-on-distinct-instances", 800, 16000, distinctWriters)
	mon.Reg("M04", "values-and-text", 600, 12000, sharedValues)
	for _, k := range []string{"Vec", "VecDeque", "LinkedList", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "BinaryHeap"} {
		mon.Need("M04", "read "+k, 500)
	}
}

type E = gost.I64

// op is one read-only operation; its outcome is rendered by the harness, so
// that the comparison does not depend on the library.
type op struct {
	name string
	run  func() string
}

func opt[T any](o gost.Option[T]) string {
	if bool(o.IsSome()) {
		return fmt.Sprint("some ", o.Unwrap())
	}
	return "none"
}

func drain[T any](it gost.Iterator[T]) []string {
	var out []string
	for i := 0; i < 100000; i++ {
		o := it.Next()
		if !bool(o.IsSome()) {
			return out
		}
		out = append(out, fmt.Sprint(o.Unwrap()))
	}
	panic("an iterator that does not end")
}

func seq(xs []string) string { return strings.Join(xs, " ") }

func bag(xs []string) string {
	sort.Strings(xs)
	return seq(xs)
}

// letters renders a text whose element order is not fixed.
func letters(s gost.String) string {
	b := []byte(s)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return string(b)
}

func elems(c *mon.Case) []E {
	n := c.R.In(0, 40)
	if c.R.P(0.1) {
		n = c.R.In(41, 300)
	}
	span := mon.Pick(c.R, 3, 50, 1000)
	out := make([]E, n)
	for i := range out {
		out[i] = E(c.R.N(span) - span/3)
	}
	if n >= 2 {
		c.Nontrivial()
	}
	return out
}

func cmpDown(a, b E) gost.Ordering { return b.Cmp(a) }

func makeVec(xs []E) gost.Vec[E] {
	v := gost.VecNew[E]()
	for _, x := range xs {
		v.Push(x)
	}
	return v
}

func makeDeque(xs []E, turn int) gost.VecDeque[E] {
	v := gost.VecDequeNew[E]()
	for i := 0; i < turn; i++ { // so that the content wraps around
		v.PushBack(0)
	}
	for i, x := range xs {
		v.PushBack(x)
		if i < turn {
			v.PopFront()
		}
	}
	for int(v.Len()) > len(xs) {
		v.PopFront()
	}
	return v
}

func makeList(xs []E) gost.LinkedList[E] {
	v := gost.LinkedListNew[E]()
	for _, x := range xs {
		v.PushBack(x)
	}
	return v
}

func makeHashMap(xs []E) gost.HashMap[E, gost.String] {
	v := gost.HashMapNew[E, gost.String]()
	for i, x := range xs {
		v.Insert(x, gost.String(fmt.Sprint("v", i)))
	}
	return v
}

func makeHashSet(xs []E) gost.HashSet[E] {
	v := gost.HashSetNew[E]()
	for _, x := range xs {
		v.Insert(x)
	}
	return v
}

func makeTreeMap(xs []E) gost.BTreeMap[E, gost.String] {
	v := gost.BTreeMapNew[E, gost.String]()
	for i, x := range xs {
		v.Insert(x, gost.String(fmt.Sprint("v", i)))
	}
	return v
}

func makeTreeSet(xs []E) gost.BTreeSet[E] {
	v := gost.BTreeSetNew[E]()
	for _, x := range xs {
		v.Insert(x)
	}
	return v
}

func makeHeap(xs []E) gost.BinaryHeap[E] {
	v := gost.BinaryHeapNew[E]()
	for _, x := range xs {
		v.Push(x)
	}
	return v
}

func iterOps[T any](ordered bool, make func() gost.Iterator[T], twice func(T) T, keep func(T) bool) []op {
	show := seq
	if !ordered {
		show = bag
	}
	ops := []op{
		{"iter", func() string { return show(drain(make())) }},
		{"map", func() string { return show(drain(make().Map(twice))) }},
		{"filter", func() string { return show(drain(make().Filter(func(x T) gost.Bool { return gost.Bool(keep(x)) }))) }},
		{"collect vec", func() string {
			v := make().CollectToVec()
			return show(drain(v.IntoIter()))
		}},
		{"collect list", func() string {
			v := make().CollectToLinkedList()
			return show(drain(v.IntoIter()))
		}},
		{"rev", func() string { return show(drain(make().Rev())) }},
	}
	return ops
}

func twice(x E) E       { return x * 2 }
func odd(x E) bool      { return x%2 != 0 }
func add(a, b E) E      { return a + b }
func key(k int) E       { return E(k%40 - 3) }
func yes(b bool) string { return fmt.Sprint(b) }

// subject is a collection to be read: its kind, its read-only operations.
func subject(c *mon.Case, kind string, xs []E, extra int) []op {
	var ops []op
	put := func(name string, f func() string) { ops = append(ops, op{name, f}) }
	ix := gost.USize(extra)
	probe := key(extra)
	if len(xs) > 0 && extra%2 == 0 {
		probe = xs[extra%len(xs)]
	}
	switch kind {
	case "Vec":
		v, w := makeVec(xs), makeVec(xs)
		put("len", func() string { return fmt.Sprint(v.Len(), v.IsEmpty(), v.Capacity() >= v.Len()) })
		put("get", func() string { return opt(v.Get(ix)) })
		put("contains", func() string { return fmt.Sprint(v.Contains(probe)) })
		put("slice", func() string { return fmt.Sprint(v.AsSlice()) })
		put("clone", func() string {
			k := v.Clone()
			k.Push(7)
			k.Set(0, 99)
			return seq(drain(k.IntoIter()))
		})
		put("eq", func() string { return fmt.Sprint(v.Eq(w), w.Eq(v)) })
		put("display", func() string { return string(v.Display()) })
		put("debug", func() string { return string(v.Debug()) })
		put("ref", func() string { return fmt.Sprint(v.AsRef().Len()) })
		put("format", func() string { return string(gost.Format("<{}>", v)) })
		put("fold", func() string { return fmt.Sprint(v.IntoIter().Fold(3, add)) })
		s := append([]E{}, xs...)
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
		sorted := makeVec(s)
		put("search", func() string { return yes(bool(sorted.BinarySearch(probe).IsSome())) })
		ops = append(ops, iterOps(true, func() gost.Iterator[E] { return v.IntoIter() }, twice, odd)...)
	case "VecDeque":
		v, w := makeDeque(xs, extra%7), makeDeque(xs, 0)
		put("len", func() string { return fmt.Sprint(v.Len(), v.IsEmpty(), v.Capacity() >= v.Len()) })
		put("get", func() string { return opt(v.Get(ix)) })
		put("ends", func() string { return opt(v.Front()) + opt(v.Back()) })
		put("contains", func() string { return fmt.Sprint(v.Contains(probe)) })
		put("slice", func() string { return fmt.Sprint(v.AsSlice()) })
		put("clone", func() string {
			k := v.Clone()
			k.PushFront(7)
			k.PushBack(8)
			return seq(drain(k.IntoIter()))
		})
		put("eq", func() string { return fmt.Sprint(v.Eq(w), w.Eq(v)) })
		put("display", func() string { return string(v.Display()) })
		put("format", func() string { return string(gost.Format("{}", v)) })
		put("fold", func() string { return fmt.Sprint(v.IntoIter().Fold(3, add)) })
		ops = append(ops, iterOps(true, func() gost.Iterator[E] { return v.IntoIter() }, twice, odd)...)
	case "LinkedList":
		v, w := makeList(xs), makeList(xs)
		put("len", func() string { return fmt.Sprint(v.Len(), v.IsEmpty()) })
		put("ends", func() string {
			a, b := v.Front(), v.Back()
			if bool(a.IsSome()) {
				return fmt.Sprint(*a.Unwrap(), *b.Unwrap())
			}
			return "none"
		})
		put("clone", func() string {
			k := v.Clone()
			k.PushFront(7)
			k.PopBack()
			return seq(drain(k.IntoIter()))
		})
		put("eq", func() string { return fmt.Sprint(v.Eq(w), w.Eq(v)) })
		put("display", func() string { return string(v.Display()) })
		put("format", func() string { return string(gost.Format("{}", v)) })
		put("fold", func() string { return fmt.Sprint(v.IntoIter().Fold(3, add)) })
		ops = append(ops, iterOps(true, func() gost.Iterator[E] { return v.IntoIter() }, twice, odd)...)
	case "HashMap":
		v, w := makeHashMap(xs), makeHashMap(xs)
		put("len", func() string { return fmt.Sprint(v.Len(), v.IsEmpty()) })
		put("get", func() string { return opt(v.Get(probe)) })
		put("contains", func() string { return fmt.Sprint(v.ContainsKey(probe)) })
		put("map of", func() string { return fmt.Sprint(len(v.AsMap())) })
		put("clone", func() string {
			k := v.Clone()
			k.Insert(12345, "x")
			k.Remove(probe)
			return bag(drain(k.Keys()))
		})
		put("eq", func() string { return fmt.Sprint(v.Eq(w), w.Eq(v)) })
		put("display", func() string { return letters(v.Display()) })
		put("keys", func() string { return bag(drain(v.Keys())) })
		put("values", func() string { return bag(drain(v.Values())) })
		ops = append(ops, iterOps(false, func() gost.Iterator[gost.Pair[E, gost.String]] { return v.IntoIter() },
			func(p gost.Pair[E, gost.String]) gost.Pair[E, gost.String] { return p },
			func(p gost.Pair[E, gost.String]) bool { return len(p.Value) > 2 })...)
	case "HashSet":
		v, w := makeHashSet(xs), makeHashSet(append([]E{1, 2, 3}, xs[len(xs)/2:]...))
		put("len", func() string { return fmt.Sprint(v.Len(), v.IsEmpty()) })
		put("get", func() string { return opt(v.Get(probe)) })
		put("contains", func() string { return fmt.Sprint(v.Contains(probe)) })
		put("slice", func() string { return fmt.Sprint(len(v.AsSlice())) })
		put("algebra", func() string {
			a, b, d := v.Intersection(w), v.Union(w), v.SymmetricDifference(w)
			return bag(drain(a.IntoIter())) + "|" + bag(drain(b.IntoIter())) + "|" + bag(drain(d.IntoIter()))
		})
		put("relations", func() string { return fmt.Sprint(v.IsSubset(w), v.IsSuperset(w), v.IsDisjoint(w)) })
		put("clone", func() string {
			k := v.Clone()
			k.Insert(12345)
			k.Remove(probe)
			return bag(drain(k.IntoIter()))
		})
		put("eq", func() string { return fmt.Sprint(v.Eq(w), v.Eq(v)) })
		put("display", func() string { return letters(v.Display()) })
		ops = append(ops, iterOps(false, func() gost.Iterator[E] { return v.IntoIter() }, twice, odd)...)
	case "BTreeMap":
		v, w := makeTreeMap(xs), makeTreeMap(xs)
		put("len", func() string { return fmt.Sprint(v.Len(), v.IsEmpty()) })
		put("get", func() string { return opt(v.Get(probe)) })
		put("contains", func() string { return fmt.Sprint(v.ContainsKey(probe)) })
		put("eq", func() string { return fmt.Sprint(v.Eq(&w), w.Eq(&v)) })
		put("display", func() string { return string(v.Display()) })
		put("keys", func() string { return seq(drain(v.Keys())) })
		put("values", func() string { return seq(drain(v.Values())) })
		ops = append(ops, iterOps(true, func() gost.Iterator[gost.Pair[E, gost.String]] { return v.IntoIter() },
			func(p gost.Pair[E, gost.String]) gost.Pair[E, gost.String] { return p },
			func(p gost.Pair[E, gost.String]) bool { return len(p.Value) > 2 })...)
	case "BTreeSet":
		v, w := makeTreeSet(xs), makeTreeSet(append([]E{1, 2, 3}, xs[len(xs)/2:]...))
		put("len", func() string { return fmt.Sprint(v.Len(), v.IsEmpty()) })
		put("contains", func() string { return fmt.Sprint(v.Contains(probe)) })
		put("algebra", func() string {
			a, b, d := v.Intersection(w), v.Union(w), v.SymmetricDifference(w)
			return seq(drain(a.IntoIter())) + "|" + seq(drain(b.IntoIter())) + "|" + seq(drain(d.IntoIter()))
		})
		put("relations", func() string { return fmt.Sprint(v.IsSubset(w), v.IsSuperset(w), v.IsDisjoint(w)) })
		put("clone", func() string {
			k := v.Clone()
			k.Insert(12345)
			k.Remove(probe)
			return seq(drain(k.IntoIter()))
		})
		put("eq", func() string { return fmt.Sprint(v.Eq(w), v.Eq(v)) })
		put("display", func() string { return string(v.Display()) })
		ops = append(ops, iterOps(true, func() gost.Iterator[E] { return v.IntoIter() }, twice, odd)...)
	case "BinaryHeap":
		v := makeHeap(xs)
		put("len", func() string { return fmt.Sprint(v.Len(), v.IsEmpty(), v.Capacity() >= v.Len()) })
		put("slice", func() string { return fmt.Sprint(len(v.AsSlice())) })
		put("slice content", func() string {
			var out []string
			for _, x := range v.AsSlice() {
				out = append(out, fmt.Sprint(x))
			}
			return bag(out)
		})
	}
	return ops
}

var kinds = []string{"Vec", "VecDeque", "LinkedList", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "BinaryHeap"}

func sharedReaders(c *mon.Case) {
	kind := kinds[c.Index%len(kinds)]
	xs := elems(c)
	ops := subject(c, kind, xs, c.R.N(30))
	threads, per, jk := c.R.In(2, 8), c.R.In(8, 30), c.R.N(3)
	c.Op("readers", kind, len(xs), fmt.Sprint(xs), threads, per)
	seed := c.R.U64()
	// What each operation answers when nobody else is around. The first use is
	// either here or from several threads at once, so that a value computed and
	// stored on first use is caught too.
	warm := c.R.P(0.3)
	want := make([]string, len(ops))
	if warm {
		for i, o := range ops {
			want[i] = o.run()
		}
	}
	got := make([][]string, threads)
	which := make([][]int, threads)
	gate := make(chan struct{})
	var g mon.Group
	for t := 0; t < threads; t++ {
		g.Go(func() {
			j := newJitter(seed+uint64(t), jk)
			<-gate
			for i := 0; i < per; i++ {
				k := j.r.N(len(ops))
				which[t] = append(which[t], k)
				got[t] = append(got[t], ops[k].run())
				j.here()
			}
		})
	}
	close(gate)
	g.Wait()
	if !warm {
		for i, o := range ops {
			want[i] = o.run()
		}
	}
	for t := range got {
		for i, k := range which[t] {
			c.Check(got[t][i] == want[k], "%s %s: a thread among %d readers saw %q, alone it is %q", kind, ops[k].name, threads, got[t][i], want[k])
		}
	}
	c.Evals(threads * per)
	c.EventN("read "+kind, threads*per)
}

// clone is a collection and the operations a writer makes on its own copy.
func cloneWriters(c *mon.Case) {
	kind := []string{"Vec", "VecDeque", "LinkedList", "HashMap", "HashSet", "BTreeSet", "VecOfVec"}[c.Index%7]
	xs := elems(c)
	if len(xs) == 0 {
		xs = []E{4, 2}
	}
	writers, steps, jk := c.R.In(1, 4), c.R.In(5, 40), c.R.N(3)
	c.Op("clones", kind, fmt.Sprint(xs), writers, steps)
	seed := c.R.U64()
	var read func() string
	var write func(j *jitter) func() // makes a copy and returns one writing step
	switch kind {
	case "Vec":
		v := makeVec(xs)
		read = func() string { return seq(drain(v.IntoIter())) }
		write = func(j *jitter) func() {
			k := v.Clone()
			return func() {
				switch j.r.N(6) {
				case 0:
					k.Push(1)
				case 1:
					k.Pop()
				case 2:
					k.Set(0, E(j.r.N(100)))
				case 3:
					k.Sort()
				case 4:
					k.Reverse()
				default:
					k.Fill(E(j.r.N(100)))
				}
			}
		}
	case "VecDeque":
		v := makeDeque(xs, c.R.N(5))
		read = func() string { return seq(drain(v.IntoIter())) }
		write = func(j *jitter) func() {
			k := v.Clone()
			return func() {
				switch j.r.N(6) {
				case 0:
					k.PushBack(1)
				case 1:
					k.PopFront()
				case 2:
					k.Set(0, E(j.r.N(100)))
				case 3:
					k.Sort()
				case 4:
					k.PushFront(3)
				default:
					k.Fill(E(j.r.N(100)))
				}
			}
		}
	case "LinkedList":
		v := makeList(xs)
		read = func() string { return seq(drain(v.IntoIter())) }
		write = func(j *jitter) func() {
			k := v.Clone()
			return func() {
				switch j.r.N(5) {
				case 0:
					k.PushBack(1)
				case 1:
					k.PopFront()
				case 2:
					if f := k.Front(); bool(f.IsSome()) {
						*f.Unwrap() = E(j.r.N(100))
					}
				case 3:
					if f := k.Back(); bool(f.IsSome()) {
						*f.Unwrap() = E(j.r.N(100))
					}
				default:
					k.PopBack()
				}
			}
		}
	case "HashMap":
		v := makeHashMap(xs)
		read = func() string { return bag(drain(v.IntoIter())) }
		write = func(j *jitter) func() {
			k := v.Clone()
			return func() {
				if j.r.Bool() {
					k.Insert(key(j.r.N(50)), "w")
				} else {
					k.Remove(key(j.r.N(50)))
				}
			}
		}
	case "HashSet":
		v := makeHashSet(xs)
		read = func() string { return bag(drain(v.IntoIter())) }
		write = func(j *jitter) func() {
			k := v.Clone()
			return func() {
				if j.r.Bool() {
					k.Insert(key(j.r.N(50)))
				} else {
					k.Remove(key(j.r.N(50)))
				}
			}
		}
	case "BTreeSet":
		v := makeTreeSet(xs)
		read = func() string { return seq(drain(v.IntoIter())) }
		write = func(j *jitter) func() {
			k := v.Clone()
			return func() {
				if j.r.Bool() {
					k.Insert(key(j.r.N(50)))
				} else {
					k.Remove(key(j.r.N(50)))
				}
			}
		}
	case "VecOfVec":
		v := gost.VecNew[gost.Vec[E]]()
		for i := 0; i < 3; i++ {
			v.Push(makeVec(xs))
		}
		read = func() string {
			s := ""
			for i := gost.USize(0); i < v.Len(); i++ {
				in := v.GetUnchecked(i)
				s += seq(drain(in.IntoIter())) + "|"
			}
			return s
		}
		write = func(j *jitter) func() {
			k := v.Clone()
			return func() {
				i := gost.USize(j.r.N(3))
				in := k.GetUnchecked(i)
				in.Set(0, E(j.r.N(100)))
				in.Sort()
			}
		}
	}
	want := read()
	readers := c.R.In(1, 3)
	var reads atomic.Int64
	gate := make(chan struct{})
	var g mon.Group
	for t := 0; t < writers; t++ {
		g.Go(func() {
			j := newJitter(seed+uint64(t), jk)
			<-gate
			w := write(j)
			for i := 0; i < steps; i++ {
				w()
				j.here()
			}
		})
	}
	for t := 0; t < readers; t++ {
		g.Go(func() {
			j := newJitter(seed+uint64(t)+50, jk)
			<-gate
			for i := 0; i < 15; i++ {
				if got := read(); got != want {
					panic(fmt.Sprintf("%s: a reader of the original saw %q instead of %q while a clone was being written", kind, got, want))
				}
				reads.Add(1)
				j.here()
			}
		})
	}
	close(gate)
	g.Wait()
	c.Check(read() == want, "%s: writing to clones changed the original", kind)
	c.Evals(int(reads.Load()) + 1)
	c.EventN("read while a clone was written", int(reads.Load()))
	c.Nontrivial()
}

// distinctWriters: each thread fills, changes and reads collections of its own;
// nothing may be shared between them behind the scenes.
func distinctWriters(c *mon.Case) {
	threads, n := c.R.In(2, 8), c.R.In(5, 80)
	c.Op("distinct", threads, n)
	seed := c.R.U64()
	var evals atomic.Int64
	gate := make(chan struct{})
	var g mon.Group
	for t := 0; t < threads; t++ {
		g.Go(func() {
			r := mon.NewRand(seed + uint64(t))
			<-gate
			xs := make([]E, n)
			for i := range xs {
				xs[i] = E(r.N(1000)*16 + t) // no value belongs to two threads
			}
			s := append([]E{}, xs...)
			sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
			show := func(v []E) string {
				out := make([]string, len(v))
				for i, x := range v {
					out[i] = fmt.Sprint(x)
				}
				return seq(out)
			}
			uniq := []E{}
			for i, x := range s {
				if i == 0 || x != s[i-1] {
					uniq = append(uniq, x)
				}
			}
			ck := func(what, got, want string) {
				evals.Add(1)
				if got != want {
					panic(fmt.Sprintf("%s used by one thread only holds %q instead of %q", what, got, want))
				}
			}
			v := makeVec(xs)
			v.Sort()
			ck("a Vec", seq(drain(v.IntoIter())), show(s))
			v.Dedup()
			ck("a Vec", seq(drain(v.IntoIter())), show(uniq))
			ck("a rendered Vec", string(gost.Format("{}", v)), string(v.Display()))
			d := makeDeque(xs, 3)
			ck("a VecDeque", seq(drain(d.IntoIter())), show(xs))
			d.SortUnstable()
			ck("a VecDeque", seq(drain(d.IntoIter())), show(s))
			l := makeList(xs)
			l2 := makeList(xs)
			l.Append(&l2)
			ck("a LinkedList", seq(drain(l.IntoIter())), show(append(append([]E{}, xs...), xs...)))
			m := makeHashMap(xs)
			ck("a HashMap", fmt.Sprint(m.Len()), fmt.Sprint(len(uniq)))
			b := makeTreeMap(xs)
			ck("a BTreeMap", seq(drain(b.Keys())), show(uniq))
			bs := makeTreeSet(xs)
			for _, x := range uniq[:len(uniq)/2] {
				bs.Remove(x)
			}
			ck("a BTreeSet", seq(drain(bs.IntoIter())), show(uniq[len(uniq)/2:]))
			h := makeHeap(xs)
			down := []E{}
			for {
				o := h.Pop()
				if !bool(o.IsSome()) {
					break
				}
				down = append(down, o.Unwrap())
			}
			up := append([]E{}, s...)
			for i, j := 0, len(up)-1; i < j; i, j = i+1, j-1 {
				up[i], up[j] = up[j], up[i]
			}
			ck("a BinaryHeap", show(down), show(up))
		})
	}
	close(gate)
	g.Wait()
	c.Evals(int(evals.Load()))
	c.Nontrivial()
}

// sharedValues: numbers, text, options, pairs and durations, from many threads.
func sharedValues(c *mon.Case) {
	w := c.R.Word()
	text := gost.String(strings.Repeat(mon.Pick(c.R, "a,b", "Ä é,", "x", ",,"), c.R.In(0, 9)))
	a, b := gost.I64(int64(w)), gost.I64(int64(c.R.Word()))
	o, n := gost.Some(a), gost.None[gost.I64]()
	r, e := gost.Ok(a), gost.Err[gost.I64](fmt.Errorf("bad %d", w%7))
	p := gost.Pair[gost.I64, gost.String]{Key: a, Value: text}
	dur := gost.DurationNew(gost.U64(w>>20), gost.U32(w%1000000000))
	ops := []op{
		{"text", func() string {
			v := text.Split(",")
			return fmt.Sprint(text.Len(), text.Contains("b"), seq(drain(v.IntoIter())), text.ToUppercase(), text.Replace("a", "bb"), text.Trim())
		}},
		{"chars", func() string { v := text.Chars(); return fmt.Sprint(drain(v.IntoIter())) }},
		{"numbers", func() string { return fmt.Sprint(a.WrappingAdd(b), opt(a.CheckedMul(b)), a.Cmp(b), a.Display()) }},
		{"options", func() string { return fmt.Sprint(opt(o), opt(n), o.Display(), n.Display(), o.Eq(n)) }},
		{"results", func() string { return fmt.Sprint(r.Unwrap(), r.Display(), e.Display(), r.Eq(e)) }},
		{"pairs", func() string { return fmt.Sprint(p.Display(), gost.Format("{} {}", a, text)) }},
		{"durations", func() string { return fmt.Sprint(dur.AsSecs(), dur.SubsecNanos(), dur.SubsecMillis()) }},
	}
	threads, per := c.R.In(2, 8), 20
	c.Op("values", int64(w), string(text), threads)
	seed := c.R.U64()
	want := make([]string, len(ops))
	for i, x := range ops {
		want[i] = x.run()
	}
	gate := make(chan struct{})
	var g mon.Group
	for t := 0; t < threads; t++ {
		g.Go(func() {
			j := mon.NewRand(seed + uint64(t))
			<-gate
			for i := 0; i < per; i++ {
				k := j.N(len(ops))
				if got := ops[k].run(); got != want[k] {
					panic(fmt.Sprintf("%s: a thread among %d saw %q, alone it is %q", ops[k].name, threads, got, want[k]))
				}
			}
		})
	}
	close(gate)
	g.Wait()
	c.Evals(threads * per)
	c.Nontrivial()
}
