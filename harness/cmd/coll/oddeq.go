//go:build vals

package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

func init() {
	mon.Reg("C12", "elements-unequal-to-themselves", 2500, 40000, oddEq)
	mon.Need("C12", "same storage, unequal elements", 1500)
	mon.Need("C12", "equal elements of other bits", 300)
	mon.Reg("C13", "text-at-size-boundary", 700, 9000, longText)
	mon.Need("C13", "text at a power of two", 500)
}

// Fuzzy is an element equal to its neighbours in value, and, when X is 9, to nothing.
type Fuzzy struct{ X int }

func (x Fuzzy) Eq(y Fuzzy) gost.Bool {
	return gost.Bool(x.X/2 == y.X/2 && x.X != 9 && y.X != 9)
}
func (x Fuzzy) Clone() Fuzzy { return x }

// oddEq compares contents whose elements' own equality is not that of their
// bits: NaN and -0, and a user's type that says the same of itself. Contents
// are compared with themselves, their copies, their clones, and others.
func oddEq(c *mon.Case) {
	switch c.Index % 3 {
	case 0:
		oddOf(c, func() gost.F64 {
			return mon.Pick(c.R, gost.F64(math.NaN()), 0, gost.F64(math.Copysign(0, -1)), 1, 1, 0, 0)
		}, func(a, b gost.F64) bool { return float64(a) == float64(b) }, func(a gost.F64) uint64 { return math.Float64bits(float64(a)) })
	case 1:
		oddOf(c, func() gost.F32 {
			return mon.Pick(c.R, gost.F32(math.NaN()), 0, gost.F32(math.Copysign(0, -1)), 1, 1, 0, 0)
		}, func(a, b gost.F32) bool { return float32(a) == float32(b) }, func(a gost.F32) uint64 { return uint64(math.Float32bits(float32(a))) })
	case 2:
		oddOf(c, func() Fuzzy { return Fuzzy{mon.Pick(c.R, 9, 0, 1, 2, 2, 2, 2)} }, func(a, b Fuzzy) bool { return bool(a.Eq(b)) }, func(a Fuzzy) uint64 { return uint64(a.X) })
	}
}

func oddOf[T any](c *mon.Case, gen func() T, eq func(a, b T) bool, bits func(T) uint64) {
	r := c.R
	n := 1 + r.Size(8)
	a := make([]T, n)
	for i := range a {
		a[i] = gen()
	}
	b := append([]T{}, a...)
	for i := range b {
		if r.P(0.15) {
			b[i] = gen()
		}
	}
	c.Op("odd equality", fmt.Sprintf("%T", a), fmt.Sprint(a), fmt.Sprint(b))
	c.Nontrivial()
	same := func(x, y []T) bool {
		for i := range x {
			if !eq(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	aa, ab := same(a, a), same(a, b)
	if !aa {
		c.Event("same storage, unequal elements")
	}
	for i := range a {
		if ab && bits(a[i]) != bits(b[i]) {
			c.Event("equal elements of other bits")
			break
		}
	}
	is := func(what string, want bool, got ...gost.Bool) {
		for i, g := range got {
			c.Evals(1)
			c.Check(bool(g) == want, "%s of %T: Eq (form %d) is %v for %v and %v, whose elements' equality is %v", what, a, i, g, a, b, want)
		}
	}
	v, w := gost.VecNew[T](), gost.VecNew[T]()
	d, e := gost.VecDequeNew[T](), gost.VecDequeNew[T]()
	l, m := gost.LinkedListNew[T](), gost.LinkedListNew[T]()
	h, g := gost.HashMapNew[gost.I32, T](), gost.HashMapNew[gost.I32, T]()
	t, u := gost.BTreeMapNew[gost.I32, T](), gost.BTreeMapNew[gost.I32, T]()
	for i := range a {
		v.Push(a[i])
		w.Push(b[i])
		d.PushBack(a[i])
		e.PushBack(b[i])
		l.PushBack(a[i])
		m.PushBack(b[i])
		h.Insert(gost.I32(i), a[i])
		g.Insert(gost.I32(i), b[i])
		t.Insert(gost.I32(i), a[i])
		u.Insert(gost.I32(i), b[i])
	}
	v2, d2, l2, h2, t2 := v, d, l, h, t // copies of the same storage
	is("Vec", ab, v.Eq(w), w.Eq(v))
	is("Vec", aa, v.Eq(v), v.Eq(v2), v.Eq(v.Clone()), v.Clone().Eq(v))
	is("VecDeque", ab, d.Eq(e), e.Eq(d))
	is("VecDeque", aa, d.Eq(d), d.Eq(d2), d.Eq(d.Clone()), d.Clone().Eq(d))
	is("LinkedList", ab, l.Eq(m), m.Eq(l))
	is("LinkedList", aa, l.Eq(l), l.Eq(l2), l.Eq(l.Clone()), l.Clone().Eq(l))
	is("HashMap", ab, h.Eq(g), g.Eq(h))
	is("HashMap", aa, h.Eq(h), h.Eq(h2), h.Eq(h.Clone()), h.Clone().Eq(h))
	is("BTreeMap", ab, gost.Bool(t.Eq(&u)), gost.Bool(u.Eq(&t)))
	is("BTreeMap", aa, gost.Bool(t.Eq(&t)), gost.Bool(t.Eq(&t2)))
	x, y := gost.Some(v), gost.Some(w)
	is("Option[Vec]", ab, x.Eq(y), y.Eq(x))
	is("Option[Vec]", aa, x.Eq(x), x.Eq(x.Clone()))
	p, q := gost.Ok(v), gost.Ok(w)
	is("Result[Vec]", ab, p.Eq(q), q.Eq(p))
	is("Result[Vec]", aa, p.Eq(p), p.Eq(p.Clone()))
	vv, ww := gost.VecNew[gost.Vec[T]](), gost.VecNew[gost.Vec[T]]()
	vv.Push(v)
	vv.Push(v)
	ww.Push(w)
	ww.Push(v)
	is("Vec[Vec]", ab && aa, vv.Eq(ww), ww.Eq(vv))
	is("Vec[Vec]", aa, vv.Eq(vv), vv.Eq(vv.Clone()))
	ea, eb := eq(a[0], a[0]), eq(a[0], b[0])
	o, k := gost.Some(a[0]), gost.Some(b[0])
	is("Option", eb, o.Eq(k), k.Eq(o))
	is("Option", ea, o.Eq(o), o.Eq(o.Clone()))
	f, s := gost.Ok(a[0]), gost.Ok(b[0])
	is("Result", eb, f.Eq(s), s.Eq(f))
	is("Result", ea, f.Eq(f), f.Eq(f.Clone()))
	i, j := gost.Pair[T, T]{Key: a[0], Value: a[n-1]}, gost.Pair[T, T]{Key: b[0], Value: b[n-1]}
	is("Pair", eb && eq(a[n-1], b[n-1]), i.Eq(j), j.Eq(i))
	is("Pair", ea && eq(a[n-1], a[n-1]), i.Eq(i), i.Eq(i.Clone()))
}

// longText renders collections of texts whose running length meets a power of
// two at an element's end, in an element, or at the very last element.
func longText(c *mon.Case) {
	r := c.R
	kind := c.Index % 8
	open := []string{"Vec[", "VecDeque[", "LinkedList[", "BTreeSet{", "BTreeMap{", "HashMap{", "HashSet{", "Vec["}[kind]
	bound := 1 << mon.Pick(r, 6, 7, 8, 9, 10, 12, 12, 13, 14, 15, 16, 16, 17)
	most := bound + r.In(-3, 3)
	before := r.Size(7) // elements up to the boundary
	after := mon.Pick(r, 0, 0, 1, 2)
	// The text up to the end of element `before` is `most` long.
	var parts []string
	mark := func(i int) string { return string(rune('a'+i)) + ":" }
	width := 0 // of a rendered element without its text
	if kind == 4 || kind == 5 {
		width = 3
	}
	rest := most - len(open)
	for i := 0; i < before && rest > 60; i++ {
		n := r.Size(rest/2) + 2
		parts = append(parts, mark(i)+strings.Repeat(string(rune('a'+i)), n))
		rest -= width + n + 2 + 2
	}
	n := rest - width - 2
	if n < 0 {
		n = 0
	}
	parts = append(parts, mark(len(parts))+strings.Repeat("~", n))
	for i := 0; i < after; i++ {
		parts = append(parts, mark(len(parts))+strings.Repeat("!", r.Size(9)))
	}
	lens := make([]int, len(parts))
	for i := range parts {
		lens[i] = len(parts[i])
	}
	c.Op("long text", open, most, lens)
	c.Nontrivial()
	c.Event("text at a power of two")
	entry := func(i int) string {
		if width > 0 {
			return fmt.Sprintf("%c: %s", '0'+i, parts[i])
		}
		return parts[i]
	}
	all := make([]string, len(parts))
	for i := range all {
		all[i] = entry(i)
	}
	ends := "]"
	if kind >= 3 && kind <= 6 {
		ends = "}"
	}
	want := open + strings.Join(all, ", ") + ends
	is := func(got ...gost.String) {
		for i, g := range got {
			c.Evals(1)
			if kind == 5 || kind == 6 { // in any order
				s := string(g)
				ok := strings.HasPrefix(s, open) && strings.HasSuffix(s, ends) && len(s) == len(want)
				if ok {
					s = ", " + s[len(open):len(s)-1] + ", "
					for _, e := range all {
						ok = ok && strings.Contains(s, ", "+e+", ")
					}
				}
				if !ok {
					c.Fail("a text of %d bytes (elements of %v) renders (form %d) as one of %d bytes, or with other parts", len(want), lens, i, len(g))
				}
				continue
			}
			if string(g) != want {
				at := 0
				for at < len(g) && at < len(want) && g[at] == want[at] {
					at++
				}
				c.Fail("%s a text of %d bytes (elements of %v) renders (form %d) as one of %d bytes; they part at byte %d", open, len(want), lens, i, len(g), at)
			}
		}
	}
	switch kind {
	case 0:
		v := gost.VecNew[gost.String]()
		for _, s := range parts {
			v.Push(gost.String(s))
		}
		is(v.Display(), v.Debug(), gost.Format("{}", v))
	case 1:
		v := gost.VecDequeNew[gost.String]()
		for _, s := range parts {
			v.PushBack(gost.String(s))
		}
		if r.Bool() { // wraps around
			for i := 0; i < r.N(9); i++ {
				v.PushBack(v.PopFront().Unwrap())
			}
			for string(v.GetUnchecked(0)) != parts[0] {
				v.PushBack(v.PopFront().Unwrap())
			}
		}
		is(v.Display(), v.Debug(), gost.Format("{}", v))
	case 2:
		v := gost.LinkedListNew[gost.String]()
		for _, s := range parts {
			v.PushBack(gost.String(s))
		}
		is(v.Display(), v.Debug(), gost.Format("{}", v))
	case 3:
		v := gost.BTreeSetNew[gost.String]()
		for _, s := range parts {
			v.Insert(gost.String(s))
		}
		is(v.Display(), v.Debug(), gost.Format("{}", v))
	case 4:
		v := gost.BTreeMapNew[gost.I32, gost.String]()
		for i, s := range parts {
			v.Insert(gost.I32(i), gost.String(s))
		}
		is(v.Display(), v.Debug(), gost.Format("{}", v))
	case 5:
		v := gost.HashMapNew[gost.I32, gost.String]()
		for i, s := range parts {
			v.Insert(gost.I32(i), gost.String(s))
		}
		is(v.Display(), v.Debug(), gost.Format("{}", v))
	case 6:
		v := gost.HashSetNew[gost.String]()
		for _, s := range parts {
			v.Insert(gost.String(s))
		}
		is(v.Display(), v.Debug(), gost.Format("{}", v))
	case 7: // nested: one part of many elements
		v := gost.VecNew[gost.Option[gost.Vec[gost.String]]]()
		in := gost.VecNew[gost.String]()
		for _, s := range parts {
			in.Push(gost.String(s))
		}
		v.Push(gost.Some(in))
		v.Push(gost.None[gost.Vec[gost.String]]())
		want = "Vec[Some(Vec[" + strings.Join(all, ", ") + "]), None]"
		is(v.Display(), v.Debug(), gost.Format("{}", v))
	}
}
