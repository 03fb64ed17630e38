package main

import (
	"math/big"

	g "github.com/myyrakle/gost"

	"gostverif/mon"
)

// intT is the arithmetic surface every fixed-width integer type offers.
type intT[T any] interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
	Add(T) T
	Sub(T) T
	Mul(T) T
	Div(T) T
	Rem(T) T
	WrappingAdd(T) T
	WrappingSub(T) T
	WrappingMul(T) T
	WrappingDiv(T) T
	CheckedAdd(T) g.Option[T]
	CheckedSub(T) g.Option[T]
	CheckedMul(T) g.Option[T]
	CheckedDiv(T) g.Option[T]
	CheckedRem(T) g.Option[T]
	SaturatingAdd(T) T
	SaturatingSub(T) T
	SaturatingMul(T) T
	SaturatingDiv(T) T
	Pow(g.U32) T
	Shl(T) T
	Shr(T) T
	Cmp(T) g.Ordering
	Eq(T) g.Bool
	ToString() g.String
	Display() g.String
}

type assignT[T any] interface {
	*T
	AddAssign(T)
	SubAssign(T)
	MulAssign(T)
	DivAssign(T)
	RemAssign(T)
}

// kind describes one integer type to the oracles.
type kind struct {
	name     string
	bits     uint
	signed   bool
	min, max *big.Int
}

func mkKind(name string, bits uint, signed bool) *kind {
	k := &kind{name: name, bits: bits, signed: signed}
	one := big.NewInt(1)
	if signed {
		k.max = new(big.Int).Sub(new(big.Int).Lsh(one, bits-1), one)
		k.min = new(big.Int).Neg(new(big.Int).Lsh(one, bits-1))
	} else {
		k.max = new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
		k.min = new(big.Int)
	}
	return k
}

// wrap reduces x to the type's range modulo 2^bits.
func (k *kind) wrap(x *big.Int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), k.bits)
	r := new(big.Int).Mod(x, m)
	if k.signed && r.Cmp(k.max) > 0 {
		r.Sub(r, m)
	}
	return r
}

func (k *kind) fits(x *big.Int) bool { return x.Cmp(k.min) >= 0 && x.Cmp(k.max) <= 0 }

// value draws a boundary-biased value of the type.
func (k *kind) value(r *mon.Rand) *big.Int {
	switch r.N(12) {
	case 0:
		return new(big.Int).Set(k.min)
	case 1:
		return new(big.Int).Set(k.max)
	case 2:
		return k.wrap(new(big.Int).Add(k.min, big.NewInt(int64(r.N(4)))))
	case 3:
		return k.wrap(new(big.Int).Sub(k.max, big.NewInt(int64(r.N(4)))))
	case 4:
		return k.wrap(big.NewInt(int64(r.N(7) - 3)))
	case 5: // around the square root of the bound, where products start to overflow
		s := new(big.Int).Sqrt(k.max)
		s.Add(s, big.NewInt(int64(r.N(5)-2)))
		if k.signed && r.Bool() {
			s.Neg(s)
		}
		return k.wrap(s)
	case 6: // half of the bound
		s := new(big.Int).Rsh(k.max, uint(1+r.N(int(k.bits)-1)))
		s.Add(s, big.NewInt(int64(r.N(5)-2)))
		if k.signed && r.Bool() {
			s.Neg(s)
		}
		return k.wrap(s)
	}
	x := new(big.Int).SetUint64(r.Word())
	if k.bits > 64 {
		x.Lsh(x, 64)
		x.Or(x, new(big.Int).SetUint64(r.Word()))
		if r.N(4) == 0 {
			x.Rsh(x, uint(r.N(128)))
		}
	}
	return k.wrap(x)
}

// pair draws two values, often placed at an overflow edge of each other.
func (k *kind) pair(r *mon.Rand) (a, b *big.Int) {
	a = k.value(r)
	bound := k.max
	if r.Bool() {
		bound = k.min
	}
	d := big.NewInt(int64(r.N(5) - 2))
	switch r.N(8) {
	case 0: // a + b near a bound
		b = new(big.Int).Sub(bound, a)
		b.Add(b, d)
	case 1: // a - b near a bound
		b = new(big.Int).Sub(a, bound)
		b.Add(b, d)
	case 2: // a * b near a bound
		if a.Sign() == 0 {
			b = k.value(r)
		} else {
			b = new(big.Int).Quo(bound, a)
			b.Add(b, d)
		}
	case 3:
		b = new(big.Int).Add(a, d)
	case 4:
		b = new(big.Int).Neg(a)
		b.Add(b, d)
	default:
		b = k.value(r)
	}
	return a, k.wrap(b)
}

// ty binds a library integer type to its description.
type ty[T intT[T], P assignT[T]] struct{ *kind }

func (t ty[T, P]) from(x *big.Int) T {
	if x.Sign() < 0 {
		return T(x.Int64())
	}
	return T(x.Uint64())
}

func (t ty[T, P]) to(v T) *big.Int {
	if t.signed {
		return big.NewInt(int64(v))
	}
	return new(big.Int).SetUint64(uint64(v))
}

type binop[T any] struct {
	name string
	f    func(a, b T) T
}

// exact computes the mathematical result; nil when undefined.
func exact(op byte, a, b *big.Int) *big.Int {
	switch op {
	case '+':
		return new(big.Int).Add(a, b)
	case '-':
		return new(big.Int).Sub(a, b)
	case '*':
		return new(big.Int).Mul(a, b)
	case '/':
		if b.Sign() == 0 {
			return nil
		}
		return new(big.Int).Quo(a, b)
	case '%':
		if b.Sign() == 0 {
			return nil
		}
		return new(big.Int).Rem(a, b)
	}
	panic("op")
}

const opChars = "+-*/%"

var opNames = map[byte]string{'+': "Add", '-': "Sub", '*': "Mul", '/': "Div", '%': "Rem"}

func (t ty[T, P]) plain(op byte, a, b T) T {
	switch op {
	case '+':
		return a.Add(b)
	case '-':
		return a.Sub(b)
	case '*':
		return a.Mul(b)
	case '/':
		return a.Div(b)
	}
	return a.Rem(b)
}

func (t ty[T, P]) assign(op byte, a, b T) T {
	p := P(&a)
	switch op {
	case '+':
		p.AddAssign(b)
	case '-':
		p.SubAssign(b)
	case '*':
		p.MulAssign(b)
	case '/':
		p.DivAssign(b)
	default:
		p.RemAssign(b)
	}
	return a
}

func (t ty[T, P]) wrapping(op byte, a, b T) T {
	switch op {
	case '+':
		return a.WrappingAdd(b)
	case '-':
		return a.WrappingSub(b)
	case '*':
		return a.WrappingMul(b)
	}
	return a.WrappingDiv(b)
}

func (t ty[T, P]) checked(op byte, a, b T) g.Option[T] {
	switch op {
	case '+':
		return a.CheckedAdd(b)
	case '-':
		return a.CheckedSub(b)
	case '*':
		return a.CheckedMul(b)
	case '/':
		return a.CheckedDiv(b)
	}
	return a.CheckedRem(b)
}

func (t ty[T, P]) saturating(op byte, a, b T) T {
	switch op {
	case '+':
		return a.SaturatingAdd(b)
	case '-':
		return a.SaturatingSub(b)
	case '*':
		return a.SaturatingMul(b)
	}
	return a.SaturatingDiv(b)
}

// small exact arithmetic for the hot enumeration is still big.Int: clarity
// of the oracle matters more than speed here.

func (t ty[T, P]) modular(c *mon.Case, a, b *big.Int) {
	x, y := t.from(a), t.from(b)
	for i := 0; i < len(opChars); i++ {
		op := opChars[i]
		want := exact(op, a, b)
		if want == nil {
			for _, form := range []struct {
				n string
				f func(byte, T, T) T
			}{{"", t.plain}, {"Assign", t.assign}, {"Wrapping", t.wrapping}} {
				if form.n == "Wrapping" && op == '%' {
					continue
				}
				var got T
				p, _ := mon.Panics(func() { got = form.f(op, x, y) })
				c.Check(p, "%s %s%s(%v, 0) returned %v instead of panicking", t.name, form.n, opNames[op], a, got)
				c.Event("division by zero refused")
				c.Evals(1)
			}
			continue
		}
		w := t.wrap(want)
		wv := t.from(w)
		if !t.fits(want) {
			c.Event("result outside the range wrapped")
			c.Nontrivial()
		}
		if got := t.plain(op, x, y); got != wv {
			c.Fail("%s(%v).%s(%v) = %v, want %v", t.name, a, opNames[op], b, t.to(got), w)
		}
		if got := t.assign(op, x, y); got != wv {
			c.Fail("%s(%v).%sAssign(%v) left %v, want %v", t.name, a, opNames[op], b, t.to(got), w)
		}
		c.Evals(2)
		if op != '%' {
			if got := t.wrapping(op, x, y); got != wv {
				c.Fail("%s(%v).Wrapping%s(%v) = %v, want %v", t.name, a, opNames[op], b, t.to(got), w)
			}
			c.Evals(1)
		}
	}
	if n, ok := any(x).(interface{ Neg(T) T }); ok {
		if got, w := n.Neg(y), t.wrap(new(big.Int).Neg(a)); t.to(got).Cmp(w) != 0 {
			c.Fail("%s(%v).Neg() = %v, want %v", t.name, a, got, w)
		}
		c.Evals(1)
	}
}

func (t ty[T, P]) checkedMon(c *mon.Case, a, b *big.Int) {
	x, y := t.from(a), t.from(b)
	for i := 0; i < len(opChars); i++ {
		op := opChars[i]
		want := exact(op, a, b)
		// minimum / -1 overflows, and so does the remainder computed with it
		defined := want != nil && t.fits(want)
		if op == '%' && want != nil && !t.fits(new(big.Int).Quo(a, b)) {
			defined = false
		}
		got := t.checked(op, x, y)
		c.Evals(1)
		some := bool(got.IsSome())
		if some == bool(got.IsNone()) {
			c.Fail("%s(%v).Checked%s(%v): IsSome and IsNone agree", t.name, a, opNames[op], b)
		}
		if some != defined {
			c.Fail("%s(%v).Checked%s(%v) is Some=%v, but the exact result %v representable=%v", t.name, a, opNames[op], b, some, want, defined)
		}
		if some {
			if v := got.Unwrap(); v != t.from(want) {
				c.Fail("%s(%v).Checked%s(%v) = Some(%v), want %v", t.name, a, opNames[op], b, t.to(v), want)
			}
			c.Event("some")
		} else {
			c.Event("none:" + opNames[op])
			c.Nontrivial()
		}
	}
}

func (t ty[T, P]) saturatingMon(c *mon.Case, a, b *big.Int) {
	x, y := t.from(a), t.from(b)
	for _, op := range []byte("+-*/") {
		want := exact(op, a, b)
		if want == nil {
			continue
		}
		if want.Cmp(t.max) > 0 {
			want = t.max
			c.Event("clamped to maximum")
			c.Nontrivial()
		} else if want.Cmp(t.min) < 0 {
			want = t.min
			c.Event("clamped to minimum")
			c.Nontrivial()
		}
		got := t.saturating(op, x, y)
		c.Evals(1)
		if got != t.from(want) {
			c.Fail("%s(%v).Saturating%s(%v) = %v, want %v", t.name, a, opNames[op], b, t.to(got), want)
		}
	}
}

func (t ty[T, P]) absMon(c *mon.Case, a, b *big.Int) {
	x, y := t.from(a), t.from(b)
	d := new(big.Int).Abs(new(big.Int).Sub(a, b))
	got := absDiff(any(x), any(y))
	c.Evals(1)
	if got == nil || got.Cmp(d) != 0 {
		c.Fail("%s(%v).AbsDiff(%v) = %v, want %v", t.name, a, b, got, d)
	}
	if !t.fits(d) {
		c.Event("distance beyond the signed range")
		c.Nontrivial()
	}
	if s, ok := any(x).(interface {
		Abs() T
		IsPositive() g.Bool
		IsNegative() g.Bool
	}); ok {
		c.Evals(3)
		if got, w := t.to(s.Abs()), t.wrap(new(big.Int).Abs(a)); got.Cmp(w) != 0 {
			c.Fail("%s(%v).Abs() = %v, want %v", t.name, a, got, w)
		}
		if bool(s.IsPositive()) != (a.Sign() > 0) {
			c.Fail("%s(%v).IsPositive() = %v", t.name, a, s.IsPositive())
		}
		if bool(s.IsNegative()) != (a.Sign() < 0) {
			c.Fail("%s(%v).IsNegative() = %v", t.name, a, s.IsNegative())
		}
	} else if t.signed {
		c.Fail("%s has no sign tests", t.name)
	}
}

func (t ty[T, P]) powMon(c *mon.Case, a *big.Int, e uint32) {
	m := new(big.Int).Lsh(big.NewInt(1), t.bits)
	base := new(big.Int).Mod(a, m)
	w := t.wrap(new(big.Int).Exp(base, big.NewInt(int64(e)), m))
	got := t.to(t.from(a).Pow(g.U32(e)))
	c.Evals(1)
	if got.Cmp(w) != 0 {
		c.Fail("%s(%v).Pow(%d) = %v, want %v", t.name, a, e, got, w)
	}
}

func absDiff(a, b any) *big.Int {
	switch x := a.(type) {
	case g.ISize:
		return u(uint64(x.AbsDiff(b.(g.ISize))))
	case g.I8:
		return u(uint64(x.AbsDiff(b.(g.I8))))
	case g.I16:
		return u(uint64(x.AbsDiff(b.(g.I16))))
	case g.I32:
		return u(uint64(x.AbsDiff(b.(g.I32))))
	case g.I64:
		return u(uint64(x.AbsDiff(b.(g.I64))))
	case g.USize:
		return u(uint64(x.AbsDiff(b.(g.USize))))
	case g.U8:
		return u(uint64(x.AbsDiff(b.(g.U8))))
	case g.U16:
		return u(uint64(x.AbsDiff(b.(g.U16))))
	case g.U32:
		return u(uint64(x.AbsDiff(b.(g.U32))))
	case g.U64:
		return u(uint64(x.AbsDiff(b.(g.U64))))
	}
	return nil
}

func u(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

func (t ty[T, P]) shiftMon(c *mon.Case, a *big.Int, n uint) {
	x, s := t.from(a), T(n)
	if got, w := t.to(x.Shl(s)), t.wrap(new(big.Int).Lsh(a, n)); got.Cmp(w) != 0 {
		c.Fail("%s(%v).Shl(%d) = %v, want %v", t.name, a, n, got, w)
	}
	if got, w := t.to(x.Shr(s)), new(big.Int).Rsh(a, n); got.Cmp(w) != 0 {
		c.Fail("%s(%v).Shr(%d) = %v, want %v", t.name, a, n, got, w)
	}
	c.Evals(2)
	if n > 1 {
		c.Nontrivial()
	}
}

func wantOrd(n int) g.Ordering {
	if n < 0 {
		return g.OrderingLess
	}
	if n > 0 {
		return g.OrderingGreater
	}
	return g.OrderingEqual
}

func (t ty[T, P]) cmpMon(c *mon.Case, a, b *big.Int) {
	x, y := t.from(a), t.from(b)
	w := a.Cmp(b)
	c.Evals(4)
	if got := x.Cmp(y); got != wantOrd(w) {
		c.Fail("%s(%v).Cmp(%v) = %v, want %v", t.name, a, b, got, wantOrd(w))
	}
	if got := y.Cmp(x); got != wantOrd(-w) {
		c.Fail("%s(%v).Cmp(%v) = %v, want %v", t.name, b, a, got, wantOrd(-w))
	}
	if got := x.Eq(y); bool(got) != (w == 0) {
		c.Fail("%s(%v).Eq(%v) = %v", t.name, a, b, got)
	}
	if !x.Eq(x) || x.Cmp(x) != g.OrderingEqual {
		c.Fail("%s(%v) is not equal to itself", t.name, a)
	}
	if w == 0 {
		c.Event("equal pair")
	} else {
		c.Nontrivial()
	}
}

func (t ty[T, P]) textMon(c *mon.Case, a *big.Int) {
	x := t.from(a)
	c.Evals(2)
	if got := x.ToString(); string(got) != a.String() {
		c.Fail("%s(%v).ToString() = %q", t.name, a, got)
	}
	otherForms(c, t.name, x, a.String())
}

// regPairs registers, for one type, an enumeration (8-bit) or a biased sample of pairs.
func regType[T intT[T], P assignT[T]](name string, bits uint, signed bool, min, max T) {
	t := ty[T, P]{mkKind(name, bits, signed)}
	pairs := func(id, what string, f func(c *mon.Case, a, b *big.Int)) {
		if bits == 8 {
			n := 256
			mon.Reg(id, what+"/"+name+"/all-pairs", n, n, func(c *mon.Case) {
				a := new(big.Int).Add(t.min, big.NewInt(int64(c.Index)))
				c.Op("all pairs of "+name, a.String())
				for b := new(big.Int).Set(t.min); b.Cmp(t.max) <= 0; b = new(big.Int).Add(b, big.NewInt(1)) {
					f(c, a, b)
				}
				c.Enumerated(256)
			})
			return
		}
		mon.Reg(id, what+"/"+name, 3000, 60000, func(c *mon.Case) {
			for i := 0; i < 60; i++ {
				a, b := t.pair(c.R)
				c.Op(name, a.String(), b.String())
				f(c, a, b)
			}
		})
	}
	pairs("A01", "modular", t.modular)
	pairs("A02", "checked", t.checkedMon)
	pairs("A03", "saturating", t.saturatingMon)
	pairs("A04", "distance", t.absMon)
	pairs("A07", "order", t.cmpMon)

	mon.Reg("A01", "bounds/"+name, 1, 1, func(c *mon.Case) {
		c.Op(name, t.to(min).String(), t.to(max).String())
		c.Evals(2)
		c.Check(t.to(min).Cmp(t.min) == 0, "%s_MIN = %v, want %v", name, min, t.min)
		c.Check(t.to(max).Cmp(t.max) == 0, "%s_MAX = %v, want %v", name, max, t.max)
	})
	if bits == 8 {
		mon.Reg("A04", "pow/"+name+"/all", 256, 256, func(c *mon.Case) {
			a := new(big.Int).Add(t.min, big.NewInt(int64(c.Index)))
			c.Op("powers of "+name, a.String())
			for e := uint32(0); e < 300; e++ {
				t.powMon(c, a, e)
			}
			c.Enumerated(300)
		})
		mon.Reg("A06", "shift/"+name+"/all", 256, 256, func(c *mon.Case) {
			a := new(big.Int).Add(t.min, big.NewInt(int64(c.Index)))
			c.Op("shifts of "+name, a.String())
			for n := uint(0); n < 8; n++ {
				t.shiftMon(c, a, n)
			}
			c.Enumerated(8)
		})
		mon.Reg("A08", "text/"+name+"/all", 256, 256, func(c *mon.Case) {
			a := new(big.Int).Add(t.min, big.NewInt(int64(c.Index)))
			c.Op("text of "+name, a.String())
			t.textMon(c, a)
			c.Enumerated(1)
		})
		return
	}
	mon.Reg("A04", "pow/"+name, 1000, 30000, func(c *mon.Case) {
		for i := 0; i < 40; i++ {
			a := t.value(c.R)
			var e uint32
			switch c.R.N(4) {
			case 0:
				e = uint32(c.R.N(5))
			case 1, 2:
				e = uint32(c.R.N(130))
			default:
				e = uint32(c.R.Word())
			}
			c.Op(name+"^", a.String(), int(e))
			c.Nontrivial()
			t.powMon(c, a, e)
		}
	})
	mon.Reg("A06", "shift/"+name, 500, 20000, func(c *mon.Case) {
		for i := 0; i < 20; i++ {
			a := t.value(c.R)
			c.Op(name+" shifts", a.String())
			for n := uint(0); n < bits; n++ {
				t.shiftMon(c, a, n)
			}
		}
	})
	mon.Reg("A08", "text/"+name, 1000, 30000, func(c *mon.Case) {
		for i := 0; i < 50; i++ {
			a := t.value(c.R)
			c.Op(name, a.String())
			c.Nontrivial()
			t.textMon(c, a)
		}
	})
}

func init() {
	regType[g.I8]("I8", 8, true, g.I8_MIN, g.I8_MAX)
	regType[g.I16]("I16", 16, true, g.I16_MIN, g.I16_MAX)
	regType[g.I32]("I32", 32, true, g.I32_MIN, g.I32_MAX)
	regType[g.I64]("I64", 64, true, g.I64_MIN, g.I64_MAX)
	regType[g.ISize]("ISize", wordBits, true, g.ISize_MIN, g.ISize_MAX)
	regType[g.U8]("U8", 8, false, g.U8_MIN, g.U8_MAX)
	regType[g.U16]("U16", 16, false, g.U16_MIN, g.U16_MAX)
	regType[g.U32]("U32", 32, false, g.U32_MIN, g.U32_MAX)
	regType[g.U64]("U64", 64, false, g.U64_MIN, g.U64_MAX)
	regType[g.USize]("USize", wordBits, false, g.USize_MIN, g.USize_MAX)

	const dist = "; operands are boundary-biased (bounds, powers of two and neighbours, square-root and quotient edges of the other operand, negatives) and 8-bit types are enumerated; "
	mon.Rule("A01", "a case is one 8-bit operand against all 256 others, or 60 operand pairs of a wider type, each run through every plain, in-place and wrapping operation and compared with big-integer arithmetic"+dist+"non-trivial: some exact result left the type's range")
	mon.Need("A01", "result outside the range wrapped", 1000)
	mon.Need("A01", "division by zero refused", 100)
	mon.Rule("A02", "as A01, for the checked operations"+dist+"non-trivial: some result was not representable")
	for _, op := range opNames {
		mon.Need("A02", "none:"+op, 100)
	}
	mon.Rule("A03", "as A01, for the saturating operations (no division by zero)"+dist+"non-trivial: some result was clamped")
	mon.Need("A03", "clamped to maximum", 1000)
	mon.Need("A03", "clamped to minimum", 1000)
	mon.Rule("A04", "a case is one 8-bit operand against all others and all exponents below 300, or a batch of pairs/powers of a wider type, compared with big-integer arithmetic"+dist+"non-trivial: a distance beyond the signed range, or a power")
	mon.Rule("A06", "a case is one 8-bit value, or 20 wider values (100 operands for 128 bits), with every shift amount below the width, both directions, against big-integer shifts; non-trivial: an amount above one")
	mon.Rule("A07", "a case is one 8-bit value against all others, or a batch of pairs of another ordered type, checking Cmp both ways, Eq, and reflexivity against the reference order"+dist+"non-trivial: an unequal pair")
	mon.Need("A07", "equal pair", 100)
}

const wordBits = 32 << (^uint(0) >> 63)
