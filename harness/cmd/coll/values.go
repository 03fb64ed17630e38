//go:build vals

package main

import (
	"math"
	"slices"
	"strings"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

func init() {
	mon.Rule("C11", "a case makes a value of one (possibly nested) type by a random history, clones it, compares the two contents, then makes up to 12 changes to the original, the clone, or parts nested in them, and after each compares the other side with its content before; non-trivial when the content has at least 2 characters of payload")
	mon.Need("C11", "change to the original", 5000)
	mon.Need("C11", "change to the clone", 5000)
	mon.Need("C11", "change to a filled-in value", 2000)
	mon.Need("C11", "value read through a reference", 5000)
	mon.Rule("C12", "a case makes a content and an edited content of one type (or the same content again, by another history with other spare capacity, insertion order, ring offset or tree shape) and compares Eq in both directions with equality of the contents, and both sides' content before and after; non-trivial when neither is empty")
	mon.Need("C12", "equal, by another history", 5000)
	mon.Need("C12", "unequal", 5000)
	mon.Need("C12", "unequal with the same length", 2000)
	mon.Rule("C13", "a case makes a value of one (possibly nested) type with known content, renders it, and matches the text against the bracketed form of the content (entries of hashed collections in any order), also through the library's formatter; non-trivial when the content is not empty")
	mon.Need("C13", "empty", 100)
	mon.Need("C13", "rendered through Format", 500)

	vV := vecVal(vecVal(vI32))
	vP := pairVal(vI32, vStr)
	value(1, vecVal(vI32))
	value(1, vecVal(vStr))
	value(1, vecVal(vItem))
	value(1, vecVal(vI128))
	value(1, vecVal(vU128))
	value(1, vecVal(vF64))
	value(1, vecVal(vBool))
	value(1, vecVal(vU64))
	value(1, vV)
	value(1, vecVal(vV))
	value(1, vecVal(dequeVal(vI32)))
	value(1, vecVal(listVal(vStr)))
	value(1, vecVal(hashMapVal(vI32, vStr)))
	value(1, vecVal(hashSetVal(vI32)))
	value(1, vecVal(treeSetVal(vI32)))
	value(1, vecVal(optVal(vI32)))
	value(1, vecVal(resVal(vStr)))
	value(1, vecVal(vP))
	value(2, dequeVal(vI32))
	value(1, dequeVal(vItem))
	value(1, dequeVal(vecVal(vStr)))
	value(1, dequeVal(dequeVal(vI32)))
	value(1, dequeVal(optVal(vecVal(vI32))))
	value(2, listVal(vI32))
	value(1, listVal(vItem))
	value(1, listVal(listVal(vStr)))
	value(1, listVal(vecVal(vI32)))
	value(2, hashMapVal(vI32, vStr))
	value(1, hashMapVal(vStr, vecVal(vI32)))
	value(1, hashMapVal(vKey, hashMapVal(vI32, dequeVal(vI32))))
	value(1, hashMapVal(vI128, vItem))
	value(1, hashMapVal(vU64, hashSetVal(vStr)))
	value(2, hashSetVal(vI32))
	value(1, hashSetVal(vStr))
	value(1, hashSetVal(vKey))
	value(2, treeSetVal(vI32))
	value(1, treeSetVal(vStr))
	value(1, treeSetVal(vI128))
	value(1, treeSetVal(vItem))
	value(1, treeSetVal(vP))
	value(1, optVal(vI32))
	value(1, optVal(vecVal(vItem)))
	value(1, optVal(optVal(vStr)))
	value(1, optVal(hashMapVal(vStr, vI32)))
	value(1, resVal(vI32))
	value(1, resVal(vecVal(vStr)))
	value(1, resVal(treeSetVal(vI32)))
	value(1, vP)
	value(1, pairVal(vecVal(vI32), hashMapVal(vStr, vI32)))
	value(1, pairVal(pairVal(vI32, vI128), optVal(vStr)))
	value(2, treeMapVal(vI32, vStr))
	value(1, treeMapVal(vStr, vecVal(vI32)))
	value(1, treeMapVal(vItem, vItem))
	value(1, treeMapVal(vI128, optVal(vI32)))
	value(1, treeMapVal(vI32, hashSetVal(vI32)))
	value(1, treeMapVal(vP, dequeVal(vStr)))

	mon.Reg("C11", "scalars", 2000, 20000, cloneScalars)
	mon.Reg("C12", "pair-of-equal-layouts", 12, 20, eqLayouts)
}

func sizeOf(c *mon.Case) int {
	if c.Big > 0 {
		return c.Big
	}
	return mon.Pick(c.R, 2, 4, 8, 12, 12, 20)
}

// erased is a Val without its type, so that the cases compile once.
type erased struct {
	name              string
	gen               func(r *mon.Rand, size int) *M
	text, exact       func(m *M) string
	edit              func(r *mon.Rand, m *M) *M
	show              func(m *M, s string) []int
	make              func(r *mon.Rand, m *M) any
	read, disp, debug func(x any) string
	mut               func(r *mon.Rand, x any) any // the changed value
	clone             func(x any) any
	eq                func(a, b any) bool
	fill              func(c *mon.Case, x any, n int) (get func(i int) any, change func(i int))
	ref               func(x any) (value any, ok bool) // through AsRef
	cloneable, eqAble bool
}

func (v erased) matches(m *M, s string) bool {
	return slices.Contains(v.show(m, s), len(s))
}

func erase[T any](v Val[T]) erased {
	return erased{
		name: v.name, gen: v.gen, text: v.text, exact: v.exact, edit: v.edit, show: v.show,
		make:  func(r *mon.Rand, m *M) any { return v.make(r, m) },
		read:  func(x any) string { return v.read(x.(T)) },
		disp:  func(x any) string { return v.disp(x.(T)) },
		debug: func(x any) string { return v.debug(x.(T)) },
		mut: func(r *mon.Rand, x any) any {
			y := x.(T)
			v.mut(r, &y)
			return y
		},
		clone: func(x any) any { return v.clone(x.(T)) },
		ref: func(x any) (any, bool) {
			if r, ok := x.(interface{ AsRef() *T }); ok {
				return *r.AsRef(), true
			}
			return nil, false
		},
		eq:        func(a, b any) bool { return v.eq(a.(T), b.(T)) },
		cloneable: v.clone != nil,
		eqAble:    v.eq != nil,
		fill: func(c *mon.Case, x any, n int) (func(i int) any, func(i int)) {
			if c.R.Bool() {
				s := gost.VecWithLen[T](gost.USize(n))
				c.Op("Vec.Fill", n, v.name)
				s.Fill(x.(T))
				return func(i int) any { return s.GetUnchecked(gost.USize(i)) },
					func(i int) { v.mut(c.R, &s.AsSlice()[i]) }
			}
			s := gost.VecDequeWithLen[T](gost.USize(n))
			for i := c.R.N(n + 1); i > 0; i-- {
				s.PushBack(s.PopFront().Unwrap())
			}
			c.Op("VecDeque.Fill", n, v.name)
			s.Fill(x.(T))
			return func(i int) any { return s.GetUnchecked(gost.USize(i)) },
				func(i int) {
					e := s.GetUnchecked(gost.USize(i))
					v.mut(c.R, &e)
					s.SetUnchecked(gost.USize(i), e)
				}
		},
	}
}

func value[T any](w int, t Val[T]) {
	v := erase(t)
	if v.cloneable {
		mon.Reg("C11", v.name, 400*w, 12000*w, func(c *mon.Case) { cloneCase(c, v) })
		mon.Reg("C11", "fill:"+v.name, 300*w, 6000*w, func(c *mon.Case) { fillCase(c, v) })
	}
	if v.eqAble {
		mon.Reg("C12", v.name, 500*w, 15000*w, func(c *mon.Case) { eqCase(c, v) })
	}
	mon.Reg("C13", v.name, 200*w, 8000*w, func(c *mon.Case) { dispCase(c, v) })
}

func cloneCase(c *mon.Case, v erased) {
	m := v.gen(c.R, sizeOf(c))
	x := v.make(c.R, m)
	before := v.read(x)
	c.Op(v.name, before)
	c.Check(before == v.exact(m), "harness: %s reads as %s, made as %s", v.name, before, v.exact(m))
	if len(before) > 4 {
		c.Nontrivial()
	}
	y := v.clone(x)
	c.Evals(2)
	c.Check(v.read(y) == before, "the clone of %s is %s", before, v.read(y))
	c.Check(v.read(x) == before, "cloning changed %s to %s", before, v.read(x))
	if v.eqAble {
		c.Check(v.eq(x, y), "a value and its clone are not Eq: %s", before)
	}
	if r, ok := v.ref(x); ok {
		c.Check(v.read(r) == before && v.read(x) == before, "a reference to %s leads to %s and leaves %s", before, v.read(r), v.read(x))
		c.Event("value read through a reference")
	}
	rx, ry := before, before
	for i := c.R.In(1, 12); i > 0; i-- {
		c.Evals(1)
		if c.R.Bool() {
			x = v.mut(c.R, x)
			rx = v.read(x)
			c.Event("change to the original")
			c.Op("change original", rx)
			c.Check(v.read(y) == ry, "changing the original to %s changed the clone from %s to %s", rx, ry, v.read(y))
		} else {
			y = v.mut(c.R, y)
			ry = v.read(y)
			c.Event("change to the clone")
			c.Op("change clone", ry)
			c.Check(v.read(x) == rx, "changing the clone to %s changed the original from %s to %s", ry, rx, v.read(x))
		}
		if c.R.P(0.1) { // a clone of the clone
			z := v.clone(y)
			c.Check(v.read(z) == ry, "the clone of %s is %s", ry, v.read(z))
			if c.R.Bool() {
				x, rx = z, ry
			}
		}
	}
}

// fillCase fills a vector or a deque with a value: every place must hold its
// own clone of it.
func fillCase(c *mon.Case, v erased) {
	m := v.gen(c.R, sizeOf(c))
	x := v.make(c.R, m)
	n := c.R.In(1, 6)
	c.Op("fill", v.exact(m))
	get, change := v.fill(c, x, n)
	was := make([]string, n)
	for i := range was {
		was[i] = v.exact(m)
		c.Check(v.read(get(i)) == was[i], "after Fill with %s place %d holds %s", was[i], i, v.read(get(i)))
	}
	rx := v.exact(m)
	if len(rx) > 4 {
		c.Nontrivial()
	}
	for k := c.R.In(1, 5); k > 0; k-- {
		i := c.R.N(n + 1)
		if i == n {
			x = v.mut(c.R, x)
			rx = v.read(x)
		} else {
			change(i)
			was[i] = v.read(get(i))
		}
		c.Event("change to a filled-in value")
		c.Op("change", i)
		for j := range was {
			c.Check(v.read(get(j)) == was[j], "changing the value in place %d (%d is the original) of a filled sequence changed place %d from %s to %s", i, n, j, was[j], v.read(get(j)))
		}
		c.Check(v.read(x) == rx, "changing the value in place %d of a filled sequence changed the original from %s to %s", i, rx, v.read(x))
		c.Evals(n + 1)
	}
}

func eqCase(c *mon.Case, v erased) {
	m := v.gen(c.R, sizeOf(c))
	n := m
	for i := mon.Pick(c.R, 0, 0, 1, 1, 1, 2); i > 0; i-- {
		n = v.edit(c.R, n)
	}
	x, y := v.make(c.R, m), v.make(c.R, n)
	tx, ty := v.exact(m), v.exact(n)
	c.Op(v.name, tx, ty)
	c.Check(v.read(x) == tx && v.read(y) == ty, "harness: %s reads as %s and %s, made as %s and %s", v.name, v.read(x), v.read(y), tx, ty)
	same := v.text(m) == v.text(n)
	if same {
		c.Event("equal, by another history")
	} else {
		c.Event("unequal")
		if len(m.A) == len(n.A) {
			c.Event("unequal with the same length")
		}
	}
	if len(m.A) > 0 && len(n.A) > 0 {
		c.Nontrivial()
	}
	c.Evals(4)
	c.Check(v.eq(x, y) == same, "Eq is %v for %s and %s", v.eq(x, y), tx, ty)
	c.Check(v.eq(y, x) == same, "Eq is %v for %s and %s", v.eq(y, x), ty, tx)
	c.Check(v.eq(x, x), "%s is not equal to itself", tx)
	c.Check(v.eq(y, y), "%s is not equal to itself", ty)
	c.Check(v.read(x) == tx && v.read(y) == ty, "comparing %s and %s changed them to %s and %s", tx, ty, v.read(x), v.read(y))
}

func dispCase(c *mon.Case, v erased) {
	size := mon.Pick(c.R, 1, 2, 4, 6, 8)
	if !strings.Contains(v.name, "Hash") && c.R.P(0.2) {
		size = 30
	}
	if c.Big > 0 {
		size = c.Big
	}
	m := v.gen(c.R, size)
	x := v.make(c.R, m)
	before := v.read(x)
	c.Op(v.name, before)
	s := v.disp(x)
	if len(m.A) == 0 {
		c.Event("empty")
	} else {
		c.Nontrivial()
	}
	c.Evals(3)
	c.Check(v.matches(m, s), "%s with content %s renders as %q", v.name, before, s)
	d := v.debug(x)
	c.Check(v.matches(m, d), "%s with content %s renders for debugging as %q", v.name, before, d)
	f := string(gost.Format("<{}>", x))
	c.Event("rendered through Format")
	c.Check(len(f) >= 2 && f[0] == '<' && f[len(f)-1] == '>' && v.matches(m, f[1:len(f)-1]), "%s with content %s is formatted by <{}> as %q", v.name, before, f)
	c.Check(v.read(x) == before, "rendering %s changed it to %s", before, v.read(x))
}

// cl checks a scalar's Clone, looked up at run time so that a missing method
// is reported and not a build failure.
func cl[T comparable](c *mon.Case, x T) {
	c.Evals(1)
	k, ok := any(x).(interface{ Clone() T })
	if !ok {
		c.Fail("%T cannot be cloned", x)
	}
	c.Check(k.Clone() == x, "Clone of %T %v is %v", x, x, k.Clone())
	if r, ok := any(x).(interface{ AsRef() *T }); ok {
		p := r.AsRef()
		c.Check(p != nil && *p == x, "AsRef of %T %v leads to another value", x, x)
		*p = *new(T)
		q := r.AsRef()
		c.Check(q != nil && *q == x, "a write through AsRef of %T %v changed the next AsRef", x, x)
		c.Event("value read through a reference")
	}
	v := gost.VecNew[T]()
	v.Push(x)
	c.Check(v.Clone().AsSlice()[0] == x, "a cloned vector of %T %v holds %v", x, x, v.Clone().AsSlice()[0])
}

func cloneScalars(c *mon.Case) {
	c.Nontrivial()
	w := c.R.Word()
	c.Op("word", w)
	cl(c, gost.ISize(w))
	cl(c, gost.I8(w))
	cl(c, gost.I16(w))
	cl(c, gost.I32(w))
	cl(c, gost.I64(w))
	cl(c, gost.USize(w))
	cl(c, gost.U8(w))
	cl(c, gost.U16(w))
	cl(c, gost.U32(w))
	cl(c, gost.U64(w))
	f := math.Float64frombits(w)
	if f != f {
		f = 0.1
	}
	cl(c, gost.F32(f))
	cl(c, gost.F64(f))
	cl(c, gost.Byte(w))
	cl(c, gost.Char(w))
	cl(c, gost.Bool(w&1 == 1))
	cl(c, gost.String(genWord(c.R, 1000)))
	cl(c, gost.Complex64(complex(float32(f), float32(c.R.N(9)))))
	cl(c, gost.Complex128(complex(f, float64(c.R.N(9)))))
	i := gost.I128_FromI64(gost.I64(w)).Mul(gost.I128_FromI64(gost.I64(c.R.Word())))
	cl(c, i)
	u := gost.U128_FromU64(gost.U64(w)).Mul(gost.U128_FromU64(gost.U64(c.R.Word())))
	cl(c, u)
}

// eqLayouts compares deques of equal content at every pair of front offsets,
// and with one element changed at every position.
func eqLayouts(c *mon.Case) {
	n := c.Index
	c.Op("length", n)
	c.Nontrivial()
	base := make([]gost.I32, n)
	for i := range base {
		base[i] = gost.I32(i + 1)
	}
	count := 0
	for capacity := n; capacity <= n+2; capacity++ {
		for o1 := 0; o1 <= capacity; o1++ {
			for o2 := 0; o2 <= capacity; o2++ {
				a := makeDeque(capacity, o1, base)
				b := makeDeque(capacity, o2, base)
				count++
				c.Check(bool(a.Eq(b)), "equal deques of %d elements at offsets %d and %d (capacity %d) are not Eq", n, o1, o2, capacity)
				for i := range base {
					base[i] = -base[i]
					d := makeDeque(capacity, o2, base)
					base[i] = -base[i]
					count++
					c.Check(!bool(a.Eq(d)) && !bool(d.Eq(a)), "deques that differ at %d (offsets %d and %d, capacity %d) are Eq", i, o1, o2, capacity)
				}
			}
		}
	}
	c.Evals(count)
	c.Enumerated(count)
}
