package main

import (
	"math"
	"math/big"

	g "github.com/myyrakle/gost"

	"gostverif/mon"
)

// ulps returns how far apart two floats of the given precision are.
func near64(x, y float64, ulps int) bool {
	if x != x || y != y {
		return x != x && y != y
	}
	if x == y {
		return true
	}
	if math.IsInf(x, 0) || math.IsInf(y, 0) {
		// an overflow edge may round either way
		return math.Abs(x) > 1.7e308 && math.Abs(y) > 1.7e308 && math.Signbit(x) == math.Signbit(y)
	}
	d := math.Abs(x - y)
	m := math.Max(math.Abs(x), math.Abs(y))
	return d <= float64(ulps)*math.Max(m*0x1p-52, 5e-324)
}

func near32(x, y float32, ulps int) bool {
	if x != x || y != y {
		return x != x && y != y
	}
	if x == y {
		return true
	}
	if math.IsInf(float64(x), 0) || math.IsInf(float64(y), 0) {
		return math.Abs(float64(x)) > 3.4e38 && math.Abs(float64(y)) > 3.4e38 && math.Signbit(float64(x)) == math.Signbit(float64(y))
	}
	d := math.Abs(float64(x) - float64(y))
	m := math.Max(math.Abs(float64(x)), math.Abs(float64(y)))
	return d <= float64(ulps)*math.Max(m*0x1p-23, 1.5e-45)
}

// exactInt computes floor, ceiling, half-away rounding and truncation from the
// exact rational value; the sign of a zero result is the operand's.
func exactInt(x float64, mode byte) float64 {
	if x != x || math.IsInf(x, 0) || x == 0 {
		return x
	}
	r := new(big.Rat).SetFloat64(x)
	q := new(big.Int).Quo(r.Num(), r.Denom()) // toward zero
	whole := r.IsInt()
	neg := r.Sign() < 0
	switch mode {
	case 'f':
		if !whole && neg {
			q.Sub(q, big.NewInt(1))
		}
	case 'c':
		if !whole && !neg {
			q.Add(q, big.NewInt(1))
		}
	case 'r':
		frac := new(big.Rat).Sub(r, new(big.Rat).SetInt(q))
		if frac.Abs(frac).Cmp(big.NewRat(1, 2)) >= 0 {
			if neg {
				q.Sub(q, big.NewInt(1))
			} else {
				q.Add(q, big.NewInt(1))
			}
		}
	}
	f, _ := new(big.Float).SetInt(q).Float64()
	if f == 0 {
		return math.Copysign(0, x)
	}
	return f
}

func exactSqrt(x float64, prec uint) float64 {
	if x != x || x < 0 {
		return math.NaN()
	}
	if x == 0 || math.IsInf(x, 0) {
		return x
	}
	b := new(big.Float).SetPrec(400).SetFloat64(x)
	b.Sqrt(b)
	if prec == 32 {
		f, _ := b.Float32()
		return float64(f)
	}
	f, _ := b.Float64()
	return f
}

// exactPow is x^n (x > 0) rounded once, to all purposes.
func exactPow(x float64, n int) float64 {
	p := new(big.Float).SetPrec(300).SetInt64(1)
	b := new(big.Float).SetPrec(300).SetFloat64(x)
	for e := max(n, -n); e > 0; e >>= 1 {
		if e&1 == 1 {
			p.Mul(p, b)
		}
		b.Mul(b, b)
	}
	if n < 0 {
		p.Quo(new(big.Float).SetPrec(300).SetInt64(1), p)
	}
	f, _ := p.Float64()
	return f
}

func logRef(x, b float64) float64 { return math.Log(x) / math.Log(b) }

func positive(r *mon.Rand) float64 {
	switch r.N(4) {
	case 0:
		return float64(1 + r.N(1000))
	case 1:
		return math.Ldexp(1, r.N(200)-100)
	case 2:
		return math.Pow(10, float64(r.N(40)-20))
	}
	return math.Abs(f64(r))
}

func init() {
	mon.Reg("A09", "f64", 1500, 60000, func(c *mon.Case) {
		r := c.R
		c.Nontrivial()
		for i := 0; i < 12; i++ {
			x := f64(r)
			X := g.F64(x)
			c.Op("f64", x)
			ex := func(name string, got g.F64, want float64) {
				c.Evals(1)
				if !(sameF64(got, g.F64(want)) || got == 0 && want == 0) {
					c.Fail("F64(%v [%b]).%s() = %v, want %v", x, x, name, got, want)
				}
			}
			ex("Floor", X.Floor(), exactInt(x, 'f'))
			ex("Ceil", X.Ceil(), exactInt(x, 'c'))
			ex("Round", X.Round(), exactInt(x, 'r'))
			ex("Trunc", X.Trunc(), exactInt(x, 't'))
			ex("Abs", X.Abs(), math.Copysign(x, 1))
			ex("Sqrt", X.Sqrt(), exactSqrt(x, 64))
			if !math.IsInf(x, 0) {
				ex("Frac", X.Frac(), x-exactInt(x, 't'))
			}
			nr := func(name string, got g.F64, want float64, arg any) {
				c.Evals(1)
				if !near64(float64(got), want, 16) {
					c.Fail("F64(%v).%s(%v) = %v, want about %v", x, name, arg, got, want)
				}
			}
			if r.Bool() {
				x = positive(r)
				X = g.F64(x)
				c.Op("f64", x)
			}
			nr("Exp", X.Exp(), math.Exp(x), "")
			nr("Exp2", X.Exp2(), math.Exp2(x), "")
			if w := r.N(2200) - 1100; true { // whole exponents are exact
				c.Evals(1)
				if got := float64(g.F64(w).Exp2()); got != math.Ldexp(1, w) {
					c.Fail("F64(%v).Exp2() = %v, want %v", w, got, math.Ldexp(1, w))
				}
			}
			nr("Ln", X.Ln(), math.Log(x), "")
			nr("Log2", X.Log2(), math.Log2(x), "")
			nr("Log10", X.Log10(), math.Log10(x), "")
			b := mon.Pick(r, 2, 10, 3, 0.5, 16, 7.5)
			nr("Log", X.Log(g.F64(b)), logRef(x, b), b)
			n := r.N(41) - 20
			nr("Powi", X.Powi(n), math.Pow(x, float64(n)), n)
			if n = r.N(6001) - 3000; r.P(0.5) { // a long product, against the true value
				b := 1 + (2*float64(r.U64()>>11)/(1<<53)-1)*mon.Pick(r, 0.2, 0.01, 0.001)
				got, want := float64(g.F64(b).Powi(n)), exactPow(b, n)
				c.Evals(1)
				if !near64(got, want, 16+max(n, -n)) {
					c.Fail("F64(%v).Powi(%v) = %v, want about %v", b, n, got, want)
				}
			}
			y := mon.Pick(r, f64(r), float64(r.N(21)-10)/2, 0, 1, 0.5)
			nr("Powf", X.Powf(g.F64(y)), math.Pow(x, y), y)
			a, d := f64(r), f64(r)
			c.Op("op", a, d)
			for _, op := range []byte("+-*/") {
				want := refOp(op, a, d)
				inPlace[g.F64](c, "F64", g.F64(a), g.F64(d), func(o byte) (g.F64, bool) { return g.F64(want), o == op }, sameF64)
			}
		}
	})
	mon.Reg("A09", "f32", 1500, 60000, func(c *mon.Case) {
		r := c.R
		c.Nontrivial()
		for i := 0; i < 12; i++ {
			x := f32(r)
			X := g.F32(x)
			c.Op("f32", x)
			ex := func(name string, got g.F32, want float64) {
				c.Evals(1)
				if !(sameF32(got, g.F32(want)) || got == 0 && want == 0) {
					c.Fail("F32(%v [%b]).%s() = %v, want %v", x, x, name, got, want)
				}
			}
			x64 := float64(x)
			ex("Floor", X.Floor(), exactInt(x64, 'f'))
			ex("Ceil", X.Ceil(), exactInt(x64, 'c'))
			ex("Round", X.Round(), exactInt(x64, 'r'))
			ex("Trunc", X.Trunc(), exactInt(x64, 't'))
			ex("Abs", X.Abs(), math.Copysign(x64, 1))
			ex("Sqrt", X.Sqrt(), exactSqrt(x64, 32))
			if !math.IsInf(x64, 0) {
				ex("Frac", X.Frac(), x64-exactInt(x64, 't'))
			}
			nr := func(name string, got g.F32, want float64, arg any) {
				c.Evals(1)
				if !near32(float32(got), float32(want), 4) {
					c.Fail("F32(%v).%s(%v) = %v, want about %v", x, name, arg, got, float32(want))
				}
			}
			if r.Bool() {
				x = float32(positive(r))
				X = g.F32(x)
				x64 = float64(x)
				c.Op("f32", x)
			}
			nr("Exp", X.Exp(), math.Exp(x64), "")
			nr("Exp2", X.Exp2(), math.Exp2(x64), "")
			nr("Ln", X.Ln(), math.Log(x64), "")
			nr("Log2", X.Log2(), math.Log2(x64), "")
			nr("Log10", X.Log10(), math.Log10(x64), "")
			b := mon.Pick[float32](r, 2, 10, 3, 0.5, 16, 7.5)
			nr("Log", X.Log(g.F32(b)), logRef(x64, float64(b)), b)
			n := r.N(41) - 20
			nr("Powi", X.Powi(n), math.Pow(x64, float64(n)), n)
			y := mon.Pick(r, f32(r), float32(r.N(21)-10)/2, 0, 1, 0.5)
			nr("Powf", X.Powf(g.F32(y)), math.Pow(x64, float64(y)), y)
			a, d := f32(r), f32(r)
			c.Op("op", a, d)
			for _, op := range []byte("+-*/") {
				// one float32 operation is the float64 operation rounded once
				want := float32(arith(op, float64(a), float64(d)))
				inPlace[g.F32](c, "F32", g.F32(a), g.F32(d), func(o byte) (g.F32, bool) { return g.F32(want), o == op }, sameF32)
			}
		}
	})
}

// refOp computes the correctly rounded result from exact values.
func refOp(op byte, a, b float64) float64 {
	special := func(x float64) bool { return x != x || math.IsInf(x, 0) || x == 0 }
	if special(a) || special(b) {
		return arith(op, a, b)
	}
	x, y := new(big.Rat).SetFloat64(a), new(big.Rat).SetFloat64(b)
	switch op {
	case '+':
		x.Add(x, y)
	case '-':
		x.Sub(x, y)
	case '*':
		x.Mul(x, y)
	case '/':
		x.Quo(x, y)
	}
	f, _ := x.Float64()
	if f == 0 {
		return arith(op, a, b)
	}
	return f
}
