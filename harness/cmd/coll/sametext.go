//go:build vals

package main

import (
	"slices"
	"strings"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

func init() {
	mon.Reg("C12", "same-text-other-content", 2500, 40000, sameText)
	mon.Reg("C12", "alike-elements", 1500, 20000, alike)
	mon.Need("C12", "different contents of the same text", 1500)
	mon.Reg("C13", "elements-of-own-types", 1500, 20000, ownTypes)
}

// cut splits the tokens into n pieces, at random places, each piece its tokens
// joined by sep; some pieces may be empty texts.
func cut(r *mon.Rand, toks []string, n int, sep string) []gost.String {
	at := make([]int, 0, n+1)
	for i := 1; i < n; i++ {
		at = append(at, r.In(1, len(toks)-1))
	}
	slices.Sort(at)
	at = slices.Compact(at)
	at = append(at, len(toks))
	var out []gost.String
	p := 0
	for _, q := range at {
		out = append(out, gost.String(strings.Join(toks[p:q], sep)))
		p = q
	}
	return out
}

// sameText compares contents that differ, but whose elements run together to
// the same text: equality is of the elements.
func sameText(c *mon.Case) {
	r := c.R
	sep := mon.Pick(r, ", ", ", ", "", ": ", "], Vec[", " ")
	toks := make([]string, r.In(2, 7))
	for i := range toks {
		toks[i] = mon.Pick(r, "", "a", "b", "c", "é", "1")
	}
	n := r.In(1, len(toks))
	a := cut(r, toks, n, sep)
	b := cut(r, toks, n, sep)
	same := slices.Equal(a, b)
	c.Op("same text", sep, a, b)
	if !same {
		c.Event("different contents of the same text")
		c.Nontrivial()
	}
	v, w := gost.VecNew[gost.String](), gost.VecNew[gost.String]()
	d, e := gost.VecDequeNew[gost.String](), gost.VecDequeNew[gost.String]()
	l, m := gost.LinkedListNew[gost.String](), gost.LinkedListNew[gost.String]()
	for _, s := range a {
		v.Push(s)
		d.PushBack(s)
		l.PushBack(s)
	}
	for _, s := range b {
		w.Push(s)
		e.PushBack(s)
		m.PushBack(s)
	}
	both := func(what string, x, y, want bool) {
		c.Evals(2)
		c.Check(x == want && y == want, "%s: Eq is %v and, the other way, %v for %q and %q", what, x, y, a, b)
	}
	both("Vec", bool(v.Eq(w)), bool(w.Eq(v)), same)
	both("VecDeque", bool(d.Eq(e)), bool(e.Eq(d)), same)
	both("LinkedList", bool(l.Eq(m)), bool(m.Eq(l)), same)
	vv, ww := gost.VecNew[gost.Vec[gost.String]](), gost.VecNew[gost.Vec[gost.String]]()
	vv.Push(v)
	ww.Push(w)
	both("Vec[Vec]", bool(vv.Eq(ww)), bool(ww.Eq(vv)), same)
	both("Option[Vec]", bool(gost.Some(v).Eq(gost.Some(w))), bool(gost.Some(w).Eq(gost.Some(v))), same)
	both("Result[Vec]", bool(gost.Ok(v).Eq(gost.Ok(w))), bool(gost.Ok(w).Eq(gost.Ok(v))), same)

	h, g := gost.HashSetNew[gost.String](), gost.HashSetNew[gost.String]()
	t, u := gost.BTreeSetNew[gost.String](), gost.BTreeSetNew[gost.String]()
	ha, hb := map[gost.String]bool{}, map[gost.String]bool{}
	for _, s := range a {
		h.Insert(s)
		t.Insert(s)
		ha[s] = true
	}
	for _, s := range b {
		g.Insert(s)
		u.Insert(s)
		hb[s] = true
	}
	sets := len(ha) == len(hb)
	for s := range ha {
		sets = sets && hb[s]
	}
	both("HashSet", bool(h.Eq(g)), bool(g.Eq(h)), sets)
	both("BTreeSet", bool(t.Eq(u)), bool(u.Eq(t)), sets)

	// in pairs: the first two pieces, or the same key with pieces as values
	if len(a) > 1 && len(b) > 1 {
		p := gost.Pair[gost.String, gost.String]{Key: a[0], Value: a[1]}
		q := gost.Pair[gost.String, gost.String]{Key: b[0], Value: b[1]}
		both("Pair", bool(p.Eq(q)), bool(q.Eq(p)), a[0] == b[0] && a[1] == b[1])
		x, y := gost.HashMapNew[gost.String, gost.String](), gost.HashMapNew[gost.String, gost.String]()
		z, k := gost.BTreeMapNew[gost.String, gost.String](), gost.BTreeMapNew[gost.String, gost.String]()
		for i := 0; i+1 < len(a); i += 2 {
			x.Insert(a[i], a[i+1])
			z.Insert(a[i], a[i+1])
		}
		for i := 0; i+1 < len(b); i += 2 {
			y.Insert(b[i], b[i+1])
			k.Insert(b[i], b[i+1])
		}
		im, in := map[gost.String]gost.String{}, map[gost.String]gost.String{}
		for i := 0; i+1 < len(a); i += 2 {
			im[a[i]] = a[i+1]
		}
		for i := 0; i+1 < len(b); i += 2 {
			in[b[i]] = b[i+1]
		}
		eq := len(im) == len(in)
		for key, s := range im {
			o, ok := in[key]
			eq = eq && ok && o == s
		}
		both("HashMap", bool(x.Eq(y)), bool(y.Eq(x)), eq)
		both("BTreeMap", bool(z.Eq(&k)), bool(k.Eq(&z)), eq)
	}
}

// Alike is an element whose text, and whose order, say nothing of its equality.
type Alike struct{ A, B int8 }

func (x Alike) Eq(y Alike) gost.Bool      { return gost.Bool(x.A == y.A) }
func (x Alike) Cmp(y Alike) gost.Ordering { return gost.I32(x.A).Cmp(gost.I32(y.A)) }
func (x Alike) Lt(y Alike) gost.Bool      { return x.A < y.A }
func (x Alike) Lte(y Alike) gost.Bool     { return x.A <= y.A }
func (x Alike) Gt(y Alike) gost.Bool      { return x.A > y.A }
func (x Alike) Gte(y Alike) gost.Bool     { return x.A >= y.A }
func (x Alike) Clone() Alike              { return x }
func (x Alike) Display() gost.String      { return "alike" }
func (x Alike) Debug() gost.String        { return "alike" }
func (x Alike) ToString() gost.String     { return "alike" }

// alike compares sequences of elements that all render alike.
func alike(c *mon.Case) {
	r := c.R
	n := r.Size(8)
	a := make([]Alike, n)
	for i := range a {
		a[i] = Alike{int8(r.N(3)), int8(r.N(9))}
	}
	b := slices.Clone(a)
	for i := range b {
		b[i].B = int8(r.N(9)) // still equal
	}
	if n > 0 && r.P(0.6) {
		i := r.N(n)
		b[i].A = (b[i].A + int8(r.In(1, 2))) % 3
	}
	if n > 1 && r.P(0.3) {
		b[0], b[n-1] = b[n-1], b[0]
	}
	same := slices.EqualFunc(a, b, func(x, y Alike) bool { return x.A == y.A })
	c.Op("alike", a, b)
	if n > 0 {
		c.Nontrivial()
	}
	v, w := gost.VecNew[Alike](), gost.VecNew[Alike]()
	d, e := gost.VecDequeNew[Alike](), gost.VecDequeNew[Alike]()
	l, m := gost.LinkedListNew[Alike](), gost.LinkedListNew[Alike]()
	t, u := gost.BTreeMapNew[gost.I32, Alike](), gost.BTreeMapNew[gost.I32, Alike]()
	h, g := gost.HashMapNew[gost.I32, Alike](), gost.HashMapNew[gost.I32, Alike]()
	for i := range a {
		v.Push(a[i])
		w.Push(b[i])
		d.PushBack(a[i])
		e.PushBack(b[i])
		l.PushBack(a[i])
		m.PushBack(b[i])
		t.Insert(gost.I32(i), a[i])
		u.Insert(gost.I32(i), b[i])
		h.Insert(gost.I32(i), a[i])
		g.Insert(gost.I32(i), b[i])
	}
	both := func(what string, x, y gost.Bool) {
		c.Evals(2)
		c.Check(bool(x) == same && bool(y) == same, "%s of elements that render alike: Eq is %v and, the other way, %v for %v and %v", what, x, y, a, b)
	}
	both("Vec", v.Eq(w), w.Eq(v))
	both("VecDeque", d.Eq(e), e.Eq(d))
	both("LinkedList", l.Eq(m), m.Eq(l))
	both("HashMap", h.Eq(g), g.Eq(h))
	both("BTreeMap", gost.Bool(t.Eq(&u)), gost.Bool(u.Eq(&t)))
	both("Option[Vec]", gost.Some(v).Eq(gost.Some(w)), gost.Some(w).Eq(gost.Some(v)))
	if n > 0 {
		same = a[0].A == b[0].A
		both("Option", gost.Some(a[0]).Eq(gost.Some(b[0])), gost.Some(b[0]).Eq(gost.Some(a[0])))
		both("Result", gost.Ok(a[0]).Eq(gost.Ok(b[0])), gost.Ok(b[0]).Eq(gost.Ok(a[0])))
		p, q := gost.Pair[Alike, gost.I32]{Key: a[0], Value: 1}, gost.Pair[Alike, gost.I32]{Key: b[0], Value: 1}
		both("Pair", p.Eq(q), q.Eq(p))
	}
}

// Types of a user, which can render themselves in one way, or in both.
type (
	ByDisplay  struct{ S string }
	ByToString struct{ S string }
	ByBoth     struct{ S string }
)

func (x ByDisplay) Display() gost.String   { return gost.String("d:" + x.S) }
func (x ByToString) ToString() gost.String { return gost.String("t:" + x.S) }
func (x ByBoth) Display() gost.String      { return gost.String("b:" + x.S) }
func (x ByBoth) ToString() gost.String     { return gost.String("b:" + x.S) }

// ownTypes renders collections and pairs of them.
func ownTypes(c *mon.Case) {
	r := c.R
	a := make([]string, r.Size(6))
	for i := range a {
		a[i] = mon.Pick(r, "", "x", "{}", "{", "%s", "é", ", ", "Pair[", "b:") + string(rune('0'+r.N(10)))
	}
	c.Op("own types", a)
	if len(a) > 0 {
		c.Nontrivial()
	}
	join := func(open, tag, close string) string {
		p := make([]string, len(a))
		for i := range a {
			p[i] = tag + a[i]
		}
		return open + strings.Join(p, ", ") + close
	}
	is := func(what, want string, got ...gost.String) {
		for i, g := range got {
			c.Evals(1)
			c.Check(string(g) == want, "%s (form %d) renders as %q, want %q", what, i, g, want)
		}
	}
	v, w := gost.VecNew[ByDisplay](), gost.VecNew[ByBoth]()
	d, e := gost.VecDequeNew[ByDisplay](), gost.VecDequeNew[ByBoth]()
	l, m := gost.LinkedListNew[ByDisplay](), gost.LinkedListNew[ByBoth]()
	t, u := gost.BTreeMapNew[gost.I32, ByDisplay](), gost.BTreeMapNew[gost.I32, ByBoth]()
	h, g := gost.HashMapNew[gost.I32, ByDisplay](), gost.HashSetNew[ByBoth]()
	var entries []string
	for i, s := range a {
		v.Push(ByDisplay{s})
		w.Push(ByBoth{s})
		d.PushBack(ByDisplay{s})
		e.PushBack(ByBoth{s})
		l.PushBack(ByDisplay{s})
		m.PushBack(ByBoth{s})
		t.Insert(gost.I32(i), ByDisplay{s})
		u.Insert(gost.I32(i), ByBoth{s})
		entries = append(entries, string('0'+rune(i))+": d:"+s)
	}
	if len(a) > 0 {
		h.Insert(0, ByDisplay{a[0]})
		g.Insert(ByBoth{a[0]})
		is("HashMap", "HashMap{0: d:"+a[0]+"}", h.Display(), h.Debug())
		is("HashSet", "HashSet{b:"+a[0]+"}", g.Display(), g.Debug())
	}
	is("Vec", join("Vec[", "d:", "]"), v.Display(), v.Debug(), gost.Format("{}", v))
	is("Vec", join("Vec[", "b:", "]"), w.Display(), w.Debug(), gost.Format("{}", w))
	is("VecDeque", join("VecDeque[", "d:", "]"), d.Display(), d.Debug(), gost.Format("{}", d))
	is("VecDeque", join("VecDeque[", "b:", "]"), e.Display(), e.Debug(), gost.Format("{}", e))
	is("LinkedList", join("LinkedList[", "d:", "]"), l.Display(), l.Debug(), gost.Format("{}", l))
	is("LinkedList", join("LinkedList[", "b:", "]"), m.Display(), m.Debug(), gost.Format("{}", m))
	tree := "BTreeMap{" + strings.Join(entries, ", ") + "}"
	is("BTreeMap", tree, t.Display(), t.Debug())
	is("BTreeMap", strings.ReplaceAll(tree, ": d:", ": b:"), u.Display(), u.Debug())
	if len(a) > 1 {
		x, y := a[0], a[1]
		p := gost.Pair[ByDisplay, ByToString]{Key: ByDisplay{x}, Value: ByToString{y}}
		is("Pair", "Pair[d:"+x+", t:"+y+"]", p.Display(), p.Debug(), p.ToString(), gost.Format("{}", p))
		q := gost.Pair[ByToString, ByDisplay]{Key: ByToString{x}, Value: ByDisplay{y}}
		is("Pair", "Pair[t:"+x+", d:"+y+"]", q.Display(), q.Debug(), q.ToString(), gost.Format("{}", q))
		z := gost.Pair[ByBoth, gost.Pair[gost.String, ByBoth]]{Key: ByBoth{x}, Value: gost.Pair[gost.String, ByBoth]{Key: gost.String(y), Value: ByBoth{x}}}
		is("Pair", "Pair[b:"+x+", Pair["+y+", b:"+x+"]]", z.Display(), z.Debug(), z.ToString(), gost.Format("{}", z))
		is("Option", "Some(d:"+x+")", gost.Some(ByDisplay{x}).Display(), gost.Some(ByDisplay{x}).Debug())
		is("Option", "Some(b:"+x+")", gost.Some(ByBoth{x}).Display(), gost.Some(ByBoth{x}).Debug())
		is("Result", "Ok(d:"+x+")", gost.Ok(ByDisplay{x}).Display(), gost.Ok(ByDisplay{x}).Debug())
		is("Result", "Ok(b:"+x+")", gost.Ok(ByBoth{x}).Display(), gost.Ok(ByBoth{x}).Debug())
	}
}
