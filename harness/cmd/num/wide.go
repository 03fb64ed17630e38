package main

import (
	"fmt"
	"math/big"
	"unsafe"

	g "github.com/myyrakle/gost"

	"gostverif/mon"
)

type wideT[T any] interface {
	Add(T) T
	Sub(T) T
	Mul(T) T
	Div(T) T
	Rem(T) T
	Shl(T) T
	Shr(T) T
	Cmp(T) g.Ordering
	Eq(T) g.Bool
	ToString() g.String
	Display() g.String
}

// wty binds a 128-bit type; lowFirst says how its two words lie in memory,
// found out by probing, so that no field name is relied on.
type wty[T wideT[T], P assignT[T]] struct {
	*kind
	lowIdx int // index of the low word, -1 when the layout is not two plain words
	fromU  func(uint64) T
}

func (t *wty[T, P]) probe() {
	t.lowIdx = -1
	x := t.fromU(0x0123456789abcdef)
	if unsafe.Sizeof(x) == 16 {
		w := *(*[2]uint64)(unsafe.Pointer(&x))
		for i := range w {
			if w[i] == 0x0123456789abcdef && w[1-i] == 0 {
				t.lowIdx = i
			}
		}
	}
}

func (t *wty[T, P]) from(x *big.Int) T {
	m := new(big.Int).And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), big.NewInt(1)))
	lo := new(big.Int).And(m, u(^uint64(0))).Uint64()
	hi := new(big.Int).Rsh(m, 64).Uint64()
	if t.lowIdx >= 0 {
		var w [2]uint64
		w[t.lowIdx], w[1-t.lowIdx] = lo, hi
		return *(*T)(unsafe.Pointer(&w))
	}
	two32 := t.fromU(1 << 32)
	return t.fromU(hi).Mul(two32).Mul(two32).Add(t.fromU(lo))
}

func (t *wty[T, P]) to(v T) *big.Int {
	if t.lowIdx >= 0 {
		w := *(*[2]uint64)(unsafe.Pointer(&v))
		x := new(big.Int).Lsh(u(w[1-t.lowIdx]), 64)
		return t.wrap(x.Or(x, u(w[t.lowIdx])))
	}
	x, _ := new(big.Int).SetString(string(v.ToString()), 10)
	return x
}

func (t *wty[T, P]) plain(op byte, a, b T) T {
	switch op {
	case '+':
		return a.Add(b)
	case '-':
		return a.Sub(b)
	case '*':
		return a.Mul(b)
	case '/':
		return a.Div(b)
	}
	return a.Rem(b)
}

func (t *wty[T, P]) assign(op byte, a, b T) T {
	p := P(&a)
	switch op {
	case '+':
		p.AddAssign(b)
	case '-':
		p.SubAssign(b)
	case '*':
		p.MulAssign(b)
	case '/':
		p.DivAssign(b)
	default:
		p.RemAssign(b)
	}
	return a
}

func (t *wty[T, P]) arith(c *mon.Case, a, b *big.Int) {
	x, y := t.from(a), t.from(b)
	for i := 0; i < len(opChars); i++ {
		op := opChars[i]
		want := exact(op, a, b)
		if want == nil {
			for k, f := range []func(byte, T, T) T{t.plain, t.assign} {
				var got T
				p, _ := mon.Panics(func() { got = f(op, x, y) })
				c.Check(p, "%s(%v) %s (form %d) zero returned %v instead of panicking", t.name, a, opNames[op], k, t.to(got))
				c.Event("division by zero refused")
				c.Evals(1)
			}
			continue
		}
		w := t.wrap(want)
		for k, f := range []func(byte, T, T) T{t.plain, t.assign} {
			got := t.to(f(op, x, y))
			c.Evals(1)
			if got.Cmp(w) == 0 {
				continue
			}
			what := opNames[op]
			if k == 1 {
				what += "Assign"
			}
			if op == '%' && t.signed && b.Sign() < 0 && got.Cmp(new(big.Int).Neg(w)) == 0 {
				// The recorded sign deviation of the signed 128-bit remainder.
				c.Known("i128-rem-negative-divisor-sign", fmt.Sprintf("I128(%v).%s(%v) = %v, want %v", a, what, b, got, w))
				c.Event("known sign deviation of the signed remainder")
				continue
			}
			c.Fail("%s(%v).%s(%v) = %v, want %v", t.name, a, what, b, got, w)
		}
		if !t.fits(want) {
			c.Event("result outside the range wrapped")
			c.Nontrivial()
		}
	}
	if a.Cmp(u(^uint64(0))) > 0 || b.Cmp(u(^uint64(0))) > 0 {
		c.Nontrivial()
		c.Event("operand wider than 64 bits")
	}
	if s, ok := any(x).(interface {
		Neg() T
		Abs() T
		IsPositive() g.Bool
		IsNegative() g.Bool
	}); ok {
		c.Evals(4)
		if got, w := t.to(s.Neg()), t.wrap(new(big.Int).Neg(a)); got.Cmp(w) != 0 {
			c.Fail("%s(%v).Neg() = %v, want %v", t.name, a, got, w)
		}
		if got, w := t.to(s.Abs()), t.wrap(new(big.Int).Abs(a)); got.Cmp(w) != 0 {
			c.Fail("%s(%v).Abs() = %v, want %v", t.name, a, got, w)
		}
		if bool(s.IsPositive()) != (a.Sign() > 0) {
			c.Fail("%s(%v).IsPositive() = %v", t.name, a, s.IsPositive())
		}
		if bool(s.IsNegative()) != (a.Sign() < 0) {
			c.Fail("%s(%v).IsNegative() = %v", t.name, a, s.IsNegative())
		}
	} else if t.signed {
		c.Fail("%s lacks negation, absolute value or sign tests", t.name)
	}
}

func (t *wty[T, P]) reg(min, max T) {
	t.probe()
	mon.Reg("A05", "arith/"+t.name, 4000, 100000, func(c *mon.Case) {
		for i := 0; i < 20; i++ {
			a, b := t.pair(c.R)
			if c.R.N(4) == 0 { // small divisors of large values
				b = t.wrap(new(big.Int).SetUint64(c.R.Word()))
			}
			c.Op(t.name, a.String(), b.String())
			t.arith(c, a, b)
		}
	})
	mon.Reg("A05", "small/"+t.name, 41, 41, func(c *mon.Case) {
		a := big.NewInt(int64(c.Index - 20))
		c.Op("small values against small values, "+t.name, a.String())
		if !t.signed {
			a.Abs(a)
		}
		for b := int64(-20); b <= 20; b++ {
			if t.signed || b >= 0 {
				t.arith(c, a, big.NewInt(b))
				c.Enumerated(1)
			}
		}
	})
	mon.Reg("A05", "bounds/"+t.name, 1, 1, func(c *mon.Case) {
		c.Op("bounds of " + t.name)
		c.Evals(2)
		c.Check(t.to(min).Cmp(t.min) == 0, "%s_MIN = %v", t.name, t.to(min))
		c.Check(t.to(max).Cmp(t.max) == 0, "%s_MAX = %v", t.name, t.to(max))
	})
	mon.Reg("A05", "construct/"+t.name, 500, 20000, func(c *mon.Case) {
		for i := 0; i < 40; i++ {
			v := c.R.Word()
			c.Op("construct", v)
			c.Evals(2)
			if got := t.to(t.fromU(v)); got.Cmp(u(v)) != 0 {
				c.Fail("%s from the unsigned %d is %v", t.name, v, got)
			}
			if t.signed {
				if got := new(big.Int).SetBytes(nil); true {
					x := any(g.I128_FromI64(g.I64(v))).(T)
					got = t.to(x)
					if got.Cmp(big.NewInt(int64(v))) != 0 {
						c.Fail("I128 from the signed %d is %v", int64(v), got)
					}
				}
				if int64(v) < 0 {
					c.Nontrivial()
				}
			} else if v>>63 == 1 {
				c.Nontrivial()
			}
		}
	})
	mon.Reg("A06", "shift/"+t.name, 1000, 20000, func(c *mon.Case) {
		for i := 0; i < 5; i++ {
			a := t.value(c.R)
			x := t.from(a)
			c.Op(t.name+" shifts", a.String())
			c.Nontrivial()
			for n := uint(0); n < 128; n++ {
				s := t.fromU(uint64(n))
				if got, w := t.to(x.Shl(s)), t.wrap(new(big.Int).Lsh(a, n)); got.Cmp(w) != 0 {
					c.Fail("%s(%v).Shl(%d) = %v, want %v", t.name, a, n, got, w)
				}
				if got, w := t.to(x.Shr(s)), new(big.Int).Rsh(a, n); got.Cmp(w) != 0 {
					c.Fail("%s(%v).Shr(%d) = %v, want %v", t.name, a, n, got, w)
				}
				c.Evals(2)
			}
		}
	})
	mon.Reg("A07", "order/"+t.name, 3000, 60000, func(c *mon.Case) {
		for i := 0; i < 60; i++ {
			a, b := t.pair(c.R)
			if c.R.N(3) == 0 { // equal high words
				b = t.wrap(new(big.Int).Xor(a, u(c.R.Word())))
			}
			c.Op(t.name, a.String(), b.String())
			x, y := t.from(a), t.from(b)
			w := a.Cmp(b)
			c.Evals(4)
			if got := x.Cmp(y); got != wantOrd(w) {
				c.Fail("%s(%v).Cmp(%v) = %v, want %v", t.name, a, b, got, wantOrd(w))
			}
			if got := y.Cmp(x); got != wantOrd(-w) {
				c.Fail("%s(%v).Cmp(%v) = %v, want %v", t.name, b, a, got, wantOrd(-w))
			}
			if got := x.Eq(y); bool(got) != (w == 0) {
				c.Fail("%s(%v).Eq(%v) = %v", t.name, a, b, got)
			}
			if !x.Eq(x) || x.Cmp(x) != g.OrderingEqual {
				c.Fail("%s(%v) is not equal to itself", t.name, a)
			}
			if w == 0 {
				c.Event("equal pair")
			} else {
				c.Nontrivial()
			}
		}
	})
	mon.Reg("A08", "text/"+t.name, 1500, 40000, func(c *mon.Case) {
		for i := 0; i < 20; i++ {
			a := t.value(c.R)
			c.Op(t.name, a.String())
			c.Nontrivial()
			x := t.from(a)
			c.Evals(2)
			if got := x.ToString(); string(got) != a.String() {
				c.Fail("%s(%v).ToString() = %q", t.name, a, got)
			}
			otherForms(c, t.name, x, a.String())
		}
	})
}

func init() {
	(&wty[g.I128, *g.I128]{kind: mkKind("I128", 128, true), fromU: func(v uint64) g.I128 { return g.I128_FromU64(g.U64(v)) }}).reg(g.I128_MIN, g.I128_MAX)
	(&wty[g.U128, *g.U128]{kind: mkKind("U128", 128, false), fromU: func(v uint64) g.U128 { return g.U128_FromU64(g.U64(v)) }}).reg(g.U128_MIN, g.U128_MAX)
	mon.Rule("A05", "a case is 20 operand pairs of a 128-bit type (biased to bounds, carries, sparse and dense words, quotient edges, small divisors; all pairs within -20..20 enumerated) through every plain and in-place operation, negation, absolute value and sign test, or a batch of constructions, against big integers; non-trivial: an operand above 64 bits or a result outside the range")
	mon.Need("A05", "operand wider than 64 bits", 1000)
	mon.Need("A05", "result outside the range wrapped", 1000)
	mon.Need("A05", "division by zero refused", 10)
	mon.Rule("A08", "a case is one 8-bit value or a batch of values of another numeric type rendered and compared with reference numerals (floats: parsed back), or a batch of texts (near-numerals, out-of-range numerals, signs, garbage) given to each parser and compared with a reference grammar; non-trivial: a wide value, or a text that is not a plain small numeral")
	mon.Rule("A09", "a case is a batch of float operands (specials, subnormals, halves and their neighbours, powers of two where fractions end, random bit patterns) through every float function and operator against an exact or 1-ulp reference; non-trivial: always, operands drawn per case")
}
