package main

import (
	"fmt"
	"math"
	"strings"
	"sync/atomic"

	"github.com/myyrakle/gost"

	"gostverif/mon"
)

func init() {
	reg("M04", "readers-of-many-types", 900, 16000, typedReaders)
	reg("M04", "readers-of-large-collections", 40, 800, largeReaders)
	mon.Reg("M04", "operations-on-own-values", 500, 10000, ownValues)
	mon.Need("M04", "read of another element type", 5000)
	mon.Need("M04", "read of a large collection", 200)
}

func wideI(r *mon.Rand) gost.I128 {
	x := gost.I128_FromI64(gost.I64(r.Word()))
	if r.P(0.8) {
		x = x.Mul(gost.I128_FromI64(gost.I64(r.Word())))
	}
	return x
}

func wideU(r *mon.Rand) gost.U128 {
	x := gost.U128_FromU64(gost.U64(r.Word()))
	if r.P(0.8) {
		x = x.Mul(gost.U128_FromU64(gost.U64(r.Word())))
	}
	return x
}

func float(r *mon.Rand) gost.F64 {
	f := math.Float64frombits(r.Word())
	if f != f || r.Bool() {
		f = float64(r.N(100000)) / 7
	}
	return gost.F64(f)
}

func word(r *mon.Rand) gost.String {
	return gost.String(mon.Pick(r, "", "a", "é, ", "日本", "{}", "long ", "x")) + gost.String(fmt.Sprint(r.N(50)))
}

func inner(r *mon.Rand) gost.Vec[gost.I128] {
	v := gost.VecNew[gost.I128]()
	for i := r.N(4); i > 0; i-- {
		v.Push(wideI(r))
	}
	return v
}

func maybe(r *mon.Rand) gost.Option[gost.U128] {
	if r.P(0.2) {
		return gost.None[gost.U128]()
	}
	return gost.Some(wideU(r))
}

// seqSubject makes one of the three sequences of the given elements, and what
// there is to read of it. probe is an element or not, as it comes.
func seqSubject[T any](kind int, xs []T, probe T, ord bool) []op {
	var ops []op
	put := func(name string, f func() string) { ops = append(ops, op{name, f}) }
	var iter func() gost.Iterator[T]
	switch kind {
	case 0:
		v, w := gost.VecNew[T](), gost.VecNew[T]()
		for _, x := range xs {
			v.Push(x)
			w.Push(x)
		}
		iter = v.IntoIter
		put("display", func() string { return string(v.Display()) + string(v.Debug()) })
		put("format", func() string { return string(gost.Format("<{}|{}>", v, w)) })
		put("eq", func() string { return fmt.Sprint(v.Eq(w), w.Eq(v), v.Eq(v)) })
		put("contains", func() string { return fmt.Sprint(v.Contains(probe)) })
		put("clone", func() string {
			k := v.Clone()
			if ord {
				k.Sort()
			} else {
				k.Reverse()
			}
			k.Fill(probe)
			return string(k.Display())
		})
		put("get", func() string { return opt(v.Get(3)) })
	case 1:
		v, w := gost.VecDequeNew[T](), gost.VecDequeNew[T]()
		for i, x := range xs {
			v.PushBack(x)
			if i%2 == 0 { // turned, with the same content
				v.PushBack(x)
				v.PopBack()
			}
			w.PushBack(x)
		}
		for range xs {
			v.PushBack(v.PopFront().Unwrap())
		}
		iter = v.IntoIter
		put("display", func() string { return string(v.Display()) + string(v.Debug()) })
		put("format", func() string { return string(gost.Format("<{}|{}>", v, w)) })
		put("eq", func() string { return fmt.Sprint(v.Eq(w), w.Eq(v), v.Eq(v)) })
		put("contains", func() string { return fmt.Sprint(v.Contains(probe)) })
		put("clone", func() string {
			k := v.Clone()
			if ord {
				k.SortUnstable()
			}
			k.PushFront(probe)
			return fmt.Sprint(k.Len())
		})
		put("slice", func() string { return fmt.Sprint(len(v.AsSlice())) })
		put("get", func() string { return opt(v.Get(3)) + opt(v.Back()) })
	case 2:
		v, w := gost.LinkedListNew[T](), gost.LinkedListNew[T]()
		for _, x := range xs {
			v.PushBack(x)
			w.PushBack(x)
		}
		iter = v.IntoIter
		put("display", func() string { return string(v.Display()) + string(v.Debug()) })
		put("format", func() string { return string(gost.Format("<{}|{}>", v, w)) })
		put("eq", func() string { return fmt.Sprint(v.Eq(w), w.Eq(v), v.Eq(v)) })
		put("clone", func() string {
			k := v.Clone()
			k.PopBack()
			k.PushFront(probe)
			return string(k.Display())
		})
	}
	put("iter", func() string { return seq(drain(iter())) })
	put("rev", func() string { return seq(drain(iter().Rev())) })
	return ops
}

// together runs the operations from several threads, and alone before or
// after; every thread must see what one sees alone.
func together(c *mon.Case, what string, ops []op, threads, per int) {
	warm := c.R.P(0.3)
	seed := c.R.U64()
	want := make([]string, len(ops))
	alone := func() {
		for i, o := range ops {
			want[i] = o.run()
		}
	}
	if warm {
		alone()
	}
	type saw struct {
		k int
		s string
	}
	got := make([][]saw, threads)
	gate := make(chan struct{})
	var g mon.Group
	for t := 0; t < threads; t++ {
		g.Go(func() {
			r := mon.NewRand(seed + uint64(t))
			<-gate
			for i := 0; i < per; i++ {
				k := r.N(len(ops))
				got[t] = append(got[t], saw{k, ops[k].run()})
			}
		})
	}
	close(gate)
	g.Wait()
	if !warm {
		alone()
	}
	for t := range got {
		for _, s := range got[t] {
			c.Check(s.s == want[s.k], "%s %s: a thread among %d readers saw %.300q, alone it is %.300q", what, ops[s.k].name, threads, s.s, want[s.k])
		}
	}
	c.Evals(threads * per)
	c.Nontrivial()
}

func many[T any](r *mon.Rand, n int, gen func(*mon.Rand) T) []T {
	xs := make([]T, n)
	for i := range xs {
		xs[i] = gen(r)
	}
	return xs
}

func typedReaders(c *mon.Case) {
	r := c.R
	n, kind := r.In(1, 14), r.N(3)
	var ops []op
	what := ""
	switch c.Index % 9 {
	case 0:
		what = "I128"
		ops = seqSubject(kind, many(r, n, wideI), wideI(r), true)
	case 1:
		what = "U128"
		ops = seqSubject(kind, many(r, n, wideU), wideU(r), true)
	case 2:
		what = "F64"
		ops = seqSubject(kind, many(r, n, float), float(r), true)
	case 3:
		what = "String"
		ops = seqSubject(kind, many(r, n, word), word(r), true)
	case 4:
		what = "Vec[I128]"
		ops = seqSubject(kind, many(r, n, inner), inner(r), false)
	case 5:
		what = "Option[U128]"
		ops = seqSubject(kind, many(r, n, maybe), maybe(r), false)
	case 6:
		what = "HashMap[I128,U128]"
		v, w := gost.HashMapNew[gost.I128, gost.U128](), gost.HashMapNew[gost.I128, gost.U128]()
		for i := 0; i < n; i++ {
			k, x := wideI(r), wideU(r)
			v.Insert(k, x)
			w.Insert(k, x)
		}
		ops = []op{
			{"display", func() string { return letters(v.Display()) }},
			{"eq", func() string { return fmt.Sprint(v.Eq(w), w.Eq(v)) }},
			{"clone", func() string {
				k := v.Clone()
				k.Insert(gost.I128_FromI64(1), gost.U128_FromU64(1))
				return letters(k.Display())
			}},
			{"iter", func() string { return bag(drain(v.IntoIter())) }},
			{"values", func() string { return bag(drain(v.Values())) }},
		}
	case 7:
		what = "BTreeMap[U128,F64]"
		v, w := gost.BTreeMapNew[gost.U128, gost.F64](), gost.BTreeMapNew[gost.U128, gost.F64]()
		for i := 0; i < 3*n; i++ {
			k, x := wideU(r), float(r)
			v.Insert(k, x)
			w.Insert(k, x)
		}
		probe := wideU(r)
		ops = []op{
			{"display", func() string { return string(v.Display()) }},
			{"eq", func() string { return fmt.Sprint(v.Eq(&w), w.Eq(&v)) }},
			{"get", func() string { return opt(v.Get(probe)) }},
			{"iter", func() string { return seq(drain(v.IntoIter())) }},
			{"keys", func() string { return seq(drain(v.Keys())) + seq(drain(v.Values())) }},
		}
	case 8:
		what = "BTreeSet[String]"
		v, w := gost.BTreeSetNew[gost.String](), gost.BTreeSetNew[gost.String]()
		for i := 0; i < 3*n; i++ {
			v.Insert(word(r))
			w.Insert(word(r))
		}
		ops = []op{
			{"display", func() string { return string(v.Display()) }},
			{"format", func() string { return string(gost.Format("{} and {}", v, w)) }},
			{"eq", func() string { return fmt.Sprint(v.Eq(w), w.Eq(v)) }},
			{"algebra", func() string {
				a, b := v.Union(w), v.SymmetricDifference(w)
				return string(a.Display() + b.Display())
			}},
			{"iter", func() string { return seq(drain(v.IntoIter())) }},
		}
	}
	threads, per := r.In(2, 8), r.In(6, 20)
	c.Op("readers of", what, kind, n, threads, per)
	together(c, what, ops, threads, per)
	c.EventN("read of another element type", threads*per)
}

func largeReaders(c *mon.Case) {
	kind := kinds[c.Index%len(kinds)]
	n := mon.Pick(c.R, 600, 1030, 2100, 5000)
	xs := make([]E, n)
	for i := range xs {
		xs[i] = E(c.R.N(3 * n))
	}
	ops := subject(c, kind, xs, c.R.N(30))
	threads := c.R.In(2, 6)
	c.Op("large", kind, n, threads)
	together(c, "large "+kind, ops, threads, 5)
	c.EventN("read of a large collection", threads*5)
}

// ownValues: each thread computes with values of its own; what it gets must be
// what it gets alone, whatever the others compute meanwhile.
func ownValues(c *mon.Case) {
	threads, per := c.R.In(2, 8), 12
	c.Op("own values", threads)
	seed := c.R.U64()
	one := func(r *mon.Rand) string {
		a, b := wideI(r), wideI(r)
		u, w := wideU(r), wideU(r)
		f, g := float(r), float(r)
		s := word(r)
		x, y := gost.I64(r.Word()), gost.I64(r.Word())
		var out []any
		add := func(v ...any) { out = append(out, v...) }
		switch r.N(7) {
		case 0:
			add(a.Display(), b.ToString(), a.Mul(b).Display(), a.Add(b).Display(), a.Sub(b).Display(), a.Cmp(b), a.Eq(b), a.Abs().Display(), a.Neg().Display(), a.IsPositive())
		case 1:
			add(u.Display(), w.ToString(), u.Mul(w).Display(), u.Cmp(w), u.Add(w).Display(), u.Sub(w).Display(), u.Eq(w))
		case 2:
			add(f.Display(), g.ToString(), f.Floor(), f.Sqrt(), f.Abs(), gost.F64(3).Powi(r.N(40)), f.Cmp(g))
		case 3:
			h := s + " " + s.Repeat(3)
			p := h.Split(" ")
			add(h.Trim(), h.ToUppercase(), h.Replace("a", "bb"), opt(h.Find("x")), p.Display(), h.Chars().Display())
			v := gost.VecNew[gost.U16]()
			for i := 0; i < 6; i++ {
				v.Push(gost.U16(0x30 + r.N(0x2000)))
			}
			add(gost.StringFromUTF16(v).Unwrap())
		case 4:
			add(gost.Format("{}-{}:{{{}}}", a, s, f), gost.String("12").ParseI64().Unwrap(), x.ToString().ParseI64().Unwrap() == x)
		case 5:
			v := gost.VecNew[gost.I128]()
			for i := r.In(5, 60); i > 0; i-- {
				v.Push(wideI(r))
			}
			k := v.Clone()
			k.Sort()
			k.Dedup()
			h := gost.BinaryHeapNew[gost.I128]()
			for _, e := range v.AsSlice() {
				h.Push(e)
			}
			add(v.Display(), k.Display(), h.IntoSortedVec().Eq(k), v.Eq(k), opt(k.BinarySearch(v.GetUnchecked(0))))
		case 6:
			d := gost.DurationFromNanos(gost.U64(r.Word()))
			o := gost.Some(x)
			add(d.AsNanos().Display(), d.AsMillis().Display(), o.Map(func(z gost.I64) gost.I64 { return z ^ 1 }).Display(), o.Clone().Eq(o),
				gost.Ok(y).Display(), gost.Pair[gost.I128, gost.String]{Key: a, Value: s}.Display(), x.WrappingAdd(y), opt(x.CheckedMul(y)), x.SaturatingMul(y))
		}
		parts := make([]string, len(out))
		for i, v := range out {
			parts[i] = fmt.Sprint(v)
		}
		return strings.Join(parts, " ")
	}
	var evals atomic.Int64
	gate := make(chan struct{})
	got := make([][]string, threads)
	var g mon.Group
	for t := 0; t < threads; t++ {
		g.Go(func() {
			r := mon.NewRand(seed + uint64(t))
			<-gate
			for i := 0; i < per; i++ {
				got[t] = append(got[t], one(r))
				evals.Add(1)
			}
		})
	}
	close(gate)
	g.Wait()
	for t := range got {
		r := mon.NewRand(seed + uint64(t))
		for i := range got[t] {
			alone := one(r)
			c.Check(alone == got[t][i], "step %d of a thread among %d gave %.400q, alone it gives %.400q", i, threads, got[t][i], alone)
		}
	}
	c.Evals(int(evals.Load()))
	c.Nontrivial()
}
