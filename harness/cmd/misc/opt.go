package main

import (
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

// elem describes an element type of options and results.
type elem[T any] struct {
	name string
	gen  func(r *mon.Rand) T
	same func(a, b T) bool
	f    func(x T, p int) T
	test func(x T, p int) bool
}

var eI32 = elem[gost.I32]{
	name: "I32",
	gen:  func(r *mon.Rand) gost.I32 { return mon.Pick(r, 0, 1, -1, math.MaxInt32, gost.I32(r.N(9))) },
	same: func(a, b gost.I32) bool { return a == b },
	f:    func(x gost.I32, p int) gost.I32 { return x*3 + gost.I32(p) },
	test: func(x gost.I32, p int) bool { return (int(x)+p)%2 == 0 },
}

var eStr = elem[gost.String]{
	name: "String",
	gen:  func(r *mon.Rand) gost.String { return mon.Pick[gost.String](r, "", "a", "{}", "né", "long text") },
	same: func(a, b gost.String) bool { return a == b },
	f:    func(x gost.String, p int) gost.String { return x + gost.String(rune('a'+p%26)) },
	test: func(x gost.String, p int) bool { return (len(x)+p)%2 == 0 },
}

// a pointer type: the zero value (nil) is a value like any other
var ePtr = elem[*int]{
	name: "pointer",
	gen: func(r *mon.Rand) *int {
		if r.P(0.4) {
			return nil
		}
		n := r.N(5)
		return &n
	},
	same: func(a, b *int) bool { return a == b },
	f: func(x *int, p int) *int {
		if p%3 == 0 {
			return nil
		}
		return x
	},
	test: func(x *int, p int) bool { return (x == nil) == (p%2 == 0) },
}

var eVec = elem[gost.Vec[gost.I32]]{
	name: "Vec",
	gen: func(r *mon.Rand) gost.Vec[gost.I32] {
		v := gost.VecNew[gost.I32]()
		for i := r.N(4); i > 0; i-- {
			v.Push(gost.I32(r.N(3)))
		}
		return v
	},
	same: func(a, b gost.Vec[gost.I32]) bool { return fmt.Sprint(a.AsSlice()) == fmt.Sprint(b.AsSlice()) },
	f: func(x gost.Vec[gost.I32], p int) gost.Vec[gost.I32] {
		v := gost.VecNew[gost.I32]()
		for _, e := range x.AsSlice() {
			v.Push(e + gost.I32(p))
		}
		return v
	},
	test: func(x gost.Vec[gost.I32], p int) bool { return (int(x.Len())+p)%2 == 0 },
}

func init() {
	mon.Rule("O01", "a case applies every operation of an option, in random order and with random arguments, to present and absent values of one element type, with counting callbacks; each result, call count and the option afterwards is compared with the model; non-trivial always")
	mon.Rule("O02", "a case applies every operation of a result, in random order and with random arguments, to successes and failures of one element type, with counting callbacks; each result, call count and the result value afterwards is compared with the model; non-trivial always")
	mon.Need("O01", "operation on an absent value", 5000)
	mon.Need("O01", "operation on a present value", 5000)
	mon.Need("O02", "operation on a failure", 5000)
	mon.Need("O02", "operation on a success", 5000)
	regOpt(eI32)
	regOpt(eStr)
	regOpt(ePtr)
	regOpt(eVec)
}

func regOpt[T any](e elem[T]) {
	mon.Reg("O01", "option-"+e.name, 8000, 200000, func(c *mon.Case) { optionCase(c, e) })
	mon.Reg("O02", "result-"+e.name, 8000, 200000, func(c *mon.Case) { resultCase(c, e) })
}

// mo is the model of an option.
type mo[T any] struct {
	some bool
	v    T
}

func (m mo[T]) String() string {
	if m.some {
		return fmt.Sprintf("Some(%v)", m.v)
	}
	return "None"
}

// counter counts the calls of one callback.
type counter struct{ n int }

func (k *counter) want(c *mon.Case, op string, n int) {
	c.Check(k.n == n, "%s called its function %d times, want %d", op, k.n, n)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func optionCase[T any](c *mon.Case, e elem[T]) {
	r := c.R
	c.Nontrivial()
	var m mo[T]
	var o gost.Option[T]
	fresh := func() (gost.Option[T], mo[T]) {
		if r.Bool() {
			v := e.gen(r)
			return gost.Some(v), mo[T]{true, v}
		}
		return gost.None[T](), mo[T]{}
	}
	is := func(op string, o gost.Option[T], m mo[T]) {
		c.Check(bool(o.IsSome()) == m.some && bool(o.IsNone()) == !m.some, "%s: IsSome() is %v and IsNone() %v, want %s", op, o.IsSome(), o.IsNone(), m)
		if m.some {
			got := o.Unwrap()
			c.Check(e.same(got, m.v), "%s is Some(%v), want %s", op, got, m)
		}
	}
	eq := func(op string, got, want T) { c.Check(e.same(got, want), "%s is %v, want %v", op, got, want) }
	o, m = fresh()
	steps := r.In(4, 24)
	for i := 0; i < steps; i++ {
		op := r.N(26)
		p := r.N(20)
		x := e.gen(r)
		o2, m2 := fresh()
		k, k2 := &counter{}, &counter{}
		f := func(v T) T { k.n++; eq("the callback's argument", v, m.v); return e.f(v, p) }
		test := func(v T) gost.Bool {
			k.n++
			eq("the predicate's argument", v, m.v)
			return gost.Bool(e.test(v, p))
		}
		mk := func() T { k2.n++; return x }
		before := m.some
		c.Op(fmt.Sprint(op, "/", b2i(m.some), b2i(m2.some)), p)
		if m.some {
			c.Event("operation on a present value")
		} else {
			c.Event("operation on an absent value")
		}
		c.Evals(1)
		name := ""
		kept, keptM := o, m // a copy of the value, which no operation on o may reach
		switch op {
		case 0:
			name = "IsSomeAnd"
			got := bool(o.IsSomeAnd(test))
			c.Check(got == (m.some && e.test(m.v, p)), "IsSomeAnd on %s is %v", m, got)
			k.want(c, name, b2i(before))
		case 1:
			name = "Expect"
			msg := mon.Pick(r, "boom", "", "with {} braces", "né", "100% sure", "%v %d%%")
			var got T
			bad, val := mon.Panics(func() { got = o.Expect(msg) })
			c.Check(bad == !m.some, "Expect on %s: panicked is %v", m, bad)
			if bad {
				c.Check(fmt.Sprint(val) == msg, "Expect(%q) panicked with %q", msg, fmt.Sprint(val))
			} else {
				eq("Expect", got, m.v)
			}
		case 2:
			name = "Unwrap"
			var got T
			bad, _ := mon.Panics(func() { got = o.Unwrap() })
			c.Check(bad == !m.some, "Unwrap on %s: panicked is %v", m, bad)
			if !bad {
				eq("Unwrap", got, m.v)
			}
		case 3:
			name = "UnwrapOr"
			want := x
			if m.some {
				want = m.v
			}
			eq("UnwrapOr", o.UnwrapOr(x), want)
		case 4:
			name = "UnwrapOrElse"
			want := x
			if m.some {
				want = m.v
			}
			eq(name, o.UnwrapOrElse(mk), want)
			k2.want(c, name, b2i(!before))
		case 5:
			name = "Map"
			want := m
			if m.some {
				want.v = e.f(m.v, p)
			}
			is(name, o.Map(f), want)
			k.want(c, name, b2i(before))
		case 6:
			name = "MapOr"
			want := x
			if m.some {
				want = e.f(m.v, p)
			}
			eq(name, o.MapOr(x, f), want)
			k.want(c, name, b2i(before))
		case 7:
			name = "MapOrElse"
			want := x
			if m.some {
				want = e.f(m.v, p)
			}
			eq(name, o.MapOrElse(mk, f), want)
			k.want(c, name, b2i(before))
			k2.want(c, name+" (default)", b2i(!before))
		case 8:
			name = "And"
			var other gost.Option[any]
			if m2.some {
				other = gost.Some[any](gost.I32(p))
			}
			got := o.And(other)
			want := m.some && m2.some
			c.Check(bool(got.IsSome()) == want && bool(got.IsNone()) == !want, "And of %s with Some=%v: IsSome is %v", m, m2.some, got.IsSome())
			if want {
				c.Check(got.Unwrap() == any(gost.I32(p)), "And gave Some(%v), want %d", got.Unwrap(), p)
			}
		case 9:
			name = "AndThen"
			got := o.AndThen(func(v T) gost.Option[any] {
				k.n++
				eq("the argument of AndThen's function", v, m.v)
				if m2.some {
					return gost.Some[any](gost.I32(p))
				}
				return gost.None[any]()
			})
			want := m.some && m2.some
			c.Check(bool(got.IsSome()) == want && bool(got.IsNone()) == !want, "AndThen of %s, to Some=%v: IsSome is %v", m, m2.some, got.IsSome())
			if want {
				c.Check(got.Unwrap() == any(gost.I32(p)), "AndThen gave Some(%v), want %d", got.Unwrap(), p)
			}
			k.want(c, name, b2i(before))
		case 10:
			name = "Filter"
			want := m
			if m.some && !e.test(m.v, p) {
				want = mo[T]{}
			}
			is(name, o.Filter(test), want)
			k.want(c, name, b2i(before))
		case 11:
			name = "Or"
			want := m
			if !m.some {
				want = m2
			}
			is(name, o.Or(o2), want)
			is("Or's argument afterwards", o2, m2)
		case 12:
			name = "OrElse"
			want := m
			if !m.some {
				want = m2
			}
			is(name, o.OrElse(func() gost.Option[T] { k.n++; return o2 }), want)
			k.want(c, name, b2i(!before))
		case 13:
			name = "Xor"
			var want mo[T]
			if m.some && !m2.some {
				want = m
			} else if m2.some && !m.some {
				want = m2
			}
			is(name, o.Xor(o2), want)
			is("Xor's argument afterwards", o2, m2)
		case 14, 15:
			name = "Insert"
			ptr := o.Insert(x)
			m = mo[T]{true, x}
			eq("what Insert's pointer holds", *ptr, x)
			is("an earlier copy of the option", kept, keptM)
			if r.Bool() {
				y := e.gen(r)
				*ptr = y
				m.v = y
			}
		case 16, 17:
			name = "GetOrInsert"
			ptr := o.GetOrInsert(x)
			if !m.some {
				m = mo[T]{true, x}
			}
			eq("what GetOrInsert's pointer holds", *ptr, m.v)
			is("an earlier copy of the option", kept, keptM)
			if r.Bool() {
				y := e.gen(r)
				*ptr = y
				m.v = y
			}
		case 18:
			name = "GetOrInsertWith"
			ptr := o.GetOrInsertWith(mk)
			if !m.some {
				m = mo[T]{true, x}
			}
			k2.want(c, name, b2i(!before))
			eq("what GetOrInsertWith's pointer holds", *ptr, m.v)
			is("an earlier copy of the option", kept, keptM)
			if r.Bool() {
				y := e.gen(r)
				*ptr = y
				m.v = y
			}
		case 19, 20, 21:
			name = "Take"
			is(name, o.Take(), m)
			m = mo[T]{}
			is("an earlier copy of the option", kept, keptM)
		case 22, 23:
			name = "Replace"
			old := o.Replace(x)
			is(name, old, m)
			m = mo[T]{true, x}
			is("an earlier copy of the option", kept, keptM)
			if r.Bool() { // what was returned is the caller's own
				y := e.gen(r)
				old.Insert(y)
				is("the option after its old value was changed", o, m)
			}
		case 24:
			name = "a new option"
			o, m = fresh()
		case 25:
			name = "AsRef"
			is(name, *o.AsRef(), m)
		}
		is("the option after "+name, o, m)
	}
}

// mr is the model of a result.
type mr[T any] struct {
	ok  bool
	v   T
	err error
}

func (m mr[T]) String() string {
	if m.ok {
		return fmt.Sprintf("Ok(%v)", m.v)
	}
	return fmt.Sprintf("Err(%v)", m.err)
}

type codeErr struct{ code int }

func (e codeErr) Error() string { return fmt.Sprint("code ", e.code) }

func resultCase[T any](c *mon.Case, e elem[T]) {
	r := c.R
	c.Nontrivial()
	mkErr := func() error {
		return mon.Pick[error](r, errors.New("bad"), errors.New(""), codeErr{r.N(3)}, fmt.Errorf("wrapped: %w", codeErr{1}))
	}
	fresh := func() (gost.Result[T], mr[T]) {
		if r.Bool() {
			v := e.gen(r)
			return gost.Ok(v), mr[T]{ok: true, v: v}
		}
		err := mkErr()
		return gost.Err[T](err), mr[T]{err: err}
	}
	is := func(op string, x gost.Result[T], m mr[T]) {
		c.Check(bool(x.IsOk()) == m.ok && bool(x.IsErr()) == !m.ok, "%s: IsOk() is %v and IsErr() %v, want %s", op, x.IsOk(), x.IsErr(), m)
		if m.ok {
			got := x.Unwrap()
			c.Check(e.same(got, m.v), "%s is Ok(%v), want %s", op, got, m)
		} else {
			got := x.UnwrapErr()
			c.Check(got == m.err, "%s is Err(%v), want %s", op, got, m)
		}
	}
	eq := func(op string, got, want T) { c.Check(e.same(got, want), "%s is %v, want %v", op, got, want) }
	x, m := fresh()
	for i := r.In(4, 24); i > 0; i-- {
		op := r.N(24)
		p := r.N(20)
		d := e.gen(r)
		x2, m2 := fresh()
		k, k2 := &counter{}, &counter{}
		f := func(v T) T { k.n++; eq("the callback's argument", v, m.v); return e.f(v, p) }
		mk := func() T { k2.n++; return d }
		okN, errN := b2i(m.ok), b2i(!m.ok)
		c.Op(fmt.Sprint(op, "/", okN, b2i(m2.ok)), p)
		if m.ok {
			c.Event("operation on a success")
		} else {
			c.Event("operation on a failure")
		}
		c.Evals(1)
		name := ""
		switch op {
		case 0:
			name = "IsOkAnd"
			got := bool(x.IsOkAnd(func(v T) gost.Bool {
				k.n++
				eq("the predicate's argument", v, m.v)
				return gost.Bool(e.test(v, p))
			}))
			c.Check(got == (m.ok && e.test(m.v, p)), "IsOkAnd on %s is %v", m, got)
			k.want(c, name, okN)
		case 1:
			name = "IsErrAnd"
			yes := r.Bool()
			got := bool(x.IsErrAnd(func(err error) gost.Bool {
				k.n++
				c.Check(err == m.err, "IsErrAnd's predicate got %v, want %v", err, m.err)
				return gost.Bool(yes)
			}))
			c.Check(got == (!m.ok && yes), "IsErrAnd on %s is %v", m, got)
			k.want(c, name, errN)
		case 2:
			name = "Ok"
			got := x.Ok()
			c.Check(bool(got.IsSome()) == m.ok, "Ok() of %s: IsSome is %v", m, got.IsSome())
			if m.ok {
				eq("Ok()", got.Unwrap(), m.v)
			}
		case 3:
			name = "Err"
			got := x.Err()
			c.Check(bool(got.IsSome()) == !m.ok, "Err() of %s: IsSome is %v", m, got.IsSome())
			if !m.ok {
				c.Check(got.Unwrap() == m.err, "Err() is %v, want %v", got.Unwrap(), m.err)
			}
		case 4:
			name = "Map"
			want := m
			if m.ok {
				want.v = e.f(m.v, p)
			}
			is(name, x.Map(f), want)
			k.want(c, name, okN)
		case 5:
			name = "MapOr"
			want := d
			if m.ok {
				want = e.f(m.v, p)
			}
			eq(name, x.MapOr(d, f), want)
			k.want(c, name, okN)
		case 6:
			name = "MapOrElse"
			want := d
			if m.ok {
				want = e.f(m.v, p)
			}
			eq(name, x.MapOrElse(mk, f), want)
			k.want(c, name, okN)
			k2.want(c, name+" (default)", errN)
		case 7:
			name = "MapErr"
			to := mkErr()
			want := m
			if !m.ok {
				want.err = to
			}
			is(name, x.MapErr(func(err error) error {
				k.n++
				c.Check(err == m.err, "MapErr's function got %v, want %v", err, m.err)
				return to
			}), want)
			k.want(c, name, errN)
		case 8:
			name = "Expect"
			msg := mon.Pick(r, "boom", "", "with {} braces", "100% sure", "%v %d%%")
			var got T
			bad, val := mon.Panics(func() { got = x.Expect(msg) })
			c.Check(bad == !m.ok, "Expect on %s: panicked is %v", m, bad)
			if bad {
				c.Check(strings.Contains(fmt.Sprint(val), msg), "Expect(%q) panicked with %q", msg, fmt.Sprint(val))
			} else {
				eq(name, got, m.v)
			}
		case 9:
			name = "Unwrap"
			var got T
			bad, val := mon.Panics(func() { got = x.Unwrap() })
			c.Check(bad == !m.ok, "Unwrap on %s: panicked is %v", m, bad)
			if bad {
				err, isErr := val.(error)
				c.Check(isErr && errors.Is(err, m.err), "Unwrap of %s panicked with %#v, which is not its error", m, val)
			} else {
				eq(name, got, m.v)
			}
		case 10:
			name = "ExpectErr"
			msg := mon.Pick(r, "boom", "", "with {} braces", "100% sure", "%v %d%%")
			var got error
			bad, val := mon.Panics(func() { got = x.ExpectErr(msg) })
			c.Check(bad == m.ok, "ExpectErr on %s: panicked is %v", m, bad)
			if bad {
				c.Check(strings.Contains(fmt.Sprint(val), msg), "ExpectErr(%q) panicked with %q", msg, fmt.Sprint(val))
			} else {
				c.Check(got == m.err, "ExpectErr is %v, want %v", got, m.err)
			}
		case 11:
			name = "UnwrapErr"
			var got error
			bad, _ := mon.Panics(func() { got = x.UnwrapErr() })
			c.Check(bad == m.ok, "UnwrapErr on %s: panicked is %v", m, bad)
			if !bad {
				c.Check(got == m.err, "UnwrapErr is %v, want %v", got, m.err)
			}
		case 12:
			name = "And"
			want := m
			if m.ok {
				want = m2
			}
			is(name, x.And(x2), want)
			is("And's argument afterwards", x2, m2)
		case 13:
			name = "AndThen"
			want := m
			if m.ok {
				want = m2
			}
			is(name, x.AndThen(func(v T) gost.Result[T] {
				k.n++
				eq("the argument of AndThen's function", v, m.v)
				return x2
			}), want)
			k.want(c, name, okN)
		case 14:
			name = "Or"
			want := m
			if !m.ok {
				want = m2
			}
			is(name, x.Or(x2), want)
			is("Or's argument afterwards", x2, m2)
		case 15:
			name = "OrElse"
			want := m
			if !m.ok {
				want = m2
			}
			is(name, x.OrElse(func(err error) gost.Result[T] {
				k.n++
				c.Check(err == m.err, "OrElse's function got %v, want %v", err, m.err)
				return x2
			}), want)
			k.want(c, name, errN)
		case 16:
			name = "UnwrapOr"
			want := d
			if m.ok {
				want = m.v
			}
			eq(name, x.UnwrapOr(d), want)
		case 17:
			name = "UnwrapOrElse"
			want := d
			if m.ok {
				want = m.v
			}
			eq(name, x.UnwrapOrElse(mk), want)
			k2.want(c, name, errN)
		case 18:
			name = "AsRef"
			is(name, *x.AsRef(), m)
		default: // carry a derived result on
			name = "a derived result"
			switch r.N(4) {
			case 0:
				x, m = fresh()
			case 1:
				x = x.Map(f)
				if m.ok {
					m.v = e.f(m.v, p)
				}
			case 2:
				x = x.Or(x2)
				if !m.ok {
					m = m2
				}
			case 3:
				x = x.And(x2)
				if m.ok {
					m = m2
				}
			}
		}
		is("the result after "+name, x, m)
	}
}
