package main

import (
	"math"
	"math/cmplx"

	g "github.com/myyrakle/gost"

	"gostverif/mon"
)

type plain4[T any] interface {
	Add(T) T
	Sub(T) T
	Mul(T) T
	Div(T) T
}
type assign4[T any] interface {
	*T
	AddAssign(T)
	SubAssign(T)
	MulAssign(T)
	DivAssign(T)
}

// inPlace checks, for one pair, that the in-place forms leave what the plain
// forms return and that both give the reference result.
func inPlace[T plain4[T], P assign4[T]](c *mon.Case, name string, a, b T, ref func(op byte) (T, bool), same func(x, y T) bool) {
	for _, op := range []byte("+-*/") {
		want, ok := ref(op)
		if !ok {
			continue
		}
		x := a
		p := P(&x)
		var got T
		switch op {
		case '+':
			got = a.Add(b)
			p.AddAssign(b)
		case '-':
			got = a.Sub(b)
			p.SubAssign(b)
		case '*':
			got = a.Mul(b)
			p.MulAssign(b)
		case '/':
			got = a.Div(b)
			p.DivAssign(b)
		}
		c.Evals(2)
		if !same(got, want) {
			c.Fail("%s(%v).%s(%v) = %v, want %v", name, a, opNames[op], b, got, want)
		}
		if !same(x, want) {
			c.Fail("%s(%v).%sAssign(%v) left %v, want %v", name, a, opNames[op], b, x, want)
		}
	}
}

func arith[T ~uint8 | ~int32 | ~float32 | ~float64 | ~complex64 | ~complex128](op byte, a, b T) T {
	switch op {
	case '+':
		return a + b
	case '-':
		return a - b
	case '*':
		return a * b
	}
	return a / b
}

func sameF64(x, y g.F64) bool {
	return math.Float64bits(float64(x)) == math.Float64bits(float64(y)) || x != x && y != y
}
func sameF32(x, y g.F32) bool {
	return math.Float32bits(float32(x)) == math.Float32bits(float32(y)) || x != x && y != y
}

func sameC128(x, y g.Complex128) bool {
	return sameF64(g.F64(real(x)), g.F64(real(y))) && sameF64(g.F64(imag(x)), g.F64(imag(y))) ||
		cmplx.IsNaN(complex128(x)) && cmplx.IsNaN(complex128(y))
}
func sameC64(x, y g.Complex64) bool {
	return sameC128(g.Complex128(x), g.Complex128(y))
}

func f64(r *mon.Rand) float64 {
	switch r.N(12) {
	case 0:
		return mon.Pick(r, 0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64)
	case 1:
		return float64(int64(r.N(41)-20)) / 2
	case 2:
		return float64(int64(r.N(2001)-1000)) / 8
	case 3:
		return math.Float64frombits(r.U64())
	case 4: // around the integers that stop having a fraction
		return math.Ldexp(1, mon.Pick(r, 22, 23, 24, 51, 52, 53, 62, 63, 64)) * mon.Pick(r, 1.0, -1.0) * (1 + float64(r.N(9)-4)*0x1p-52)
	case 5: // just off a half or an integer
		x := float64(r.N(21)-10) / 2
		return math.Nextafter(x, mon.Pick(r, math.Inf(1), math.Inf(-1)))
	case 6: // subnormal
		return math.Float64frombits(r.U64() & (1<<52 - 1))
	case 7:
		return float64(r.U64()>>11) / (1 << 53)
	}
	x := (float64(r.U64()>>11)/(1<<53) - 0.5) * math.Ldexp(1, r.N(120)-50)
	return x
}

func f32(r *mon.Rand) float32 {
	switch r.N(6) {
	case 0:
		return math.Float32frombits(uint32(r.U64()))
	case 1:
		x := float32(r.N(21)-10) / 2
		return math.Nextafter32(x, mon.Pick(r, float32(1e30), float32(-1e30)))
	}
	return float32(f64(r))
}

func init() {
	mon.Reg("A01", "other-types", 800, 30000, func(c *mon.Case) {
		r := c.R
		for i := 0; i < 10; i++ {
			a, b := g.Byte(r.Word()), g.Byte(r.Word())
			c.Op("byte", int(a), int(b))
			inPlace[g.Byte](c, "Byte", a, b, func(op byte) (g.Byte, bool) {
				if op == '/' && b == 0 {
					return 0, false
				}
				return arith(op, a, b), true
			}, func(x, y g.Byte) bool { return x == y })
			d, e := g.Char(r.Word()), g.Char(r.Word())
			c.Op("char", int(d), int(e))
			inPlace[g.Char](c, "Char", d, e, func(op byte) (g.Char, bool) {
				if op == '/' && e == 0 {
					return 0, false
				}
				return arith(op, d, e), true
			}, func(x, y g.Char) bool { return x == y })
			for _, f := range []func(){
				func() { b = 0; _ = a.Div(b) }, func() { x := a; x.DivAssign(0) },
				func() { _ = d.Div(0) }, func() { x := d; x.DivAssign(0) },
			} {
				p, _ := mon.Panics(f)
				c.Evals(1)
				c.Check(p, "dividing a byte or char by zero yielded a value")
			}
			s, t := randText(r), randText(r)
			c.Op("text", s, t)
			x := g.String(s)
			x.AddAssign(g.String(t))
			c.Evals(2)
			c.Check(string(g.String(s).Add(g.String(t))) == s+t, "String(%q).Add(%q) = %q", s, t, g.String(s).Add(g.String(t)))
			c.Check(string(x) == s+t, "String(%q).AddAssign(%q) left %q", s, t, x)
			p, q := g.Complex128(complex(f64(r), f64(r))), g.Complex128(complex(f64(r), f64(r)))
			c.Op("complex", p, q)
			c.Nontrivial()
			inPlace[g.Complex128](c, "Complex128", p, q, func(op byte) (g.Complex128, bool) { return arith(op, p, q), true }, sameC128)
			v, w := g.Complex64(complex(f32(r), f32(r))), g.Complex64(complex(f32(r), f32(r)))
			inPlace[g.Complex64](c, "Complex64", v, w, func(op byte) (g.Complex64, bool) { return arith(op, v, w), true }, sameC64)
		}
	})
	mon.Reg("A01", "float-in-place", 800, 30000, func(c *mon.Case) {
		for i := 0; i < 40; i++ {
			a, b := g.F64(f64(c.R)), g.F64(f64(c.R))
			c.Op("f64", a, b)
			inPlace[g.F64](c, "F64", a, b, func(op byte) (g.F64, bool) { return arith(op, a, b), true }, sameF64)
			x, y := g.F32(f32(c.R)), g.F32(f32(c.R))
			c.Op("f32", x, y)
			inPlace[g.F32](c, "F32", x, y, func(op byte) (g.F32, bool) { return arith(op, x, y), true }, sameF32)
		}
		c.Nontrivial()
	})
}

var textPieces = []string{"", "a", "b", "ab", "aa", "z", " ", "\n", "é", "ß", "日", "本", "😀", "𝄞", "\u200d", "e\u0301", "0", "-", "_", "{}", "\x00", "\xff", "\xe6\x97", "A", "Z"}

func randText(r *mon.Rand) string {
	s := ""
	for n := r.N(7); n > 0; n-- {
		s += mon.Pick(r, textPieces...)
	}
	return s
}
