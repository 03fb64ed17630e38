package main

import (
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	g "github.com/myyrakle/gost"

	"gostverif/mon"
)

type ordEq[T any] interface {
	Cmp(T) g.Ordering
	Eq(T) g.Bool
}

func order[T ordEq[T]](c *mon.Case, name string, a, b T, w int) {
	c.Evals(4)
	if got := a.Cmp(b); got != wantOrd(w) {
		c.Fail("%s(%v).Cmp(%v) = %v, want %v", name, a, b, got, wantOrd(w))
	}
	if got := b.Cmp(a); got != wantOrd(-w) {
		c.Fail("%s(%v).Cmp(%v) = %v, want %v", name, b, a, got, wantOrd(-w))
	}
	if bool(a.Eq(b)) != (w == 0) || bool(b.Eq(a)) != (w == 0) {
		c.Fail("%s(%v).Eq(%v) = %v, but they compare as %d", name, a, b, a.Eq(b), w)
	}
	if !a.Eq(a) || a.Cmp(a) != g.OrderingEqual {
		c.Fail("%s(%v) is not equal to itself", name, a)
	}
	if w == 0 {
		c.Event("equal pair")
	} else {
		c.Nontrivial()
	}
}

func sgn[T int | int64 | float64 | float32 | string | byte | rune](a, b T) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var sciRe = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?(e[+-]?[0-9]+)?$`)

func init() {
	mon.Reg("A07", "order/others", 800, 30000, func(c *mon.Case) {
		r := c.R
		for i := 0; i < 12; i++ {
			s, t := randText(r), randText(r)
			switch r.N(4) {
			case 0:
				t = s
			case 1:
				t = s + t
			}
			c.Op("text", s, t)
			order(c, "String", g.String(s), g.String(t), strings.Compare(s, t))
			p, q := r.Bool(), r.Bool()
			order(c, "Bool", g.Bool(p), g.Bool(q), sgn(b2i(p), b2i(q)))
			d, e := byte(r.Word()), byte(r.Word())
			c.Op("byte", int(d), int(e))
			order(c, "Byte", g.Byte(d), g.Byte(e), sgn(d, e))
			m, n := rune(r.Word()), rune(r.Word())
			c.Op("char", int(m), int(n))
			order(c, "Char", g.Char(m), g.Char(n), sgn(m, n))
			x, y := f64(r), f64(r)
			switch r.N(4) {
			case 0:
				y = x
			case 1:
				y = math.Nextafter(x, 1e300)
			}
			if x == x && y == y {
				c.Op("f64", x, y)
				order(c, "F64", g.F64(x), g.F64(y), sgn(x, y))
			}
			v, w := f32(r), f32(r)
			if r.N(3) == 0 {
				w = v
			}
			if v == v && w == w {
				c.Op("f32", v, w)
				order(c, "F32", g.F32(v), g.F32(w), sgn(v, w))
			}
		}
	})
	mon.Reg("A07", "order/pairs", 800, 30000, func(c *mon.Case) {
		r := c.R
		for i := 0; i < 20; i++ {
			k1, k2 := int64(r.N(5)-2), int64(r.N(5)-2)
			v1, v2 := mon.Pick(r, "", "a", "b", "ab"), mon.Pick(r, "", "a", "b", "ab")
			c.Op("pair", k1, v1, k2, v2)
			w := sgn(k1, k2)
			if w == 0 {
				w = strings.Compare(v1, v2)
				c.Event("pairs with equal first component")
			}
			order(c, "Pair", g.Pair[g.I64, g.String]{Key: g.I64(k1), Value: g.String(v1)}, g.Pair[g.I64, g.String]{Key: g.I64(k2), Value: g.String(v2)}, w)
			type pp = g.Pair[g.I8, g.Pair[g.Bool, g.U16]]
			mk := func() (pp, [3]int) {
				a, b, d := r.N(2), r.N(2), r.N(2)
				return pp{Key: g.I8(a), Value: g.Pair[g.Bool, g.U16]{Key: g.Bool(b == 1), Value: g.U16(d)}}, [3]int{a, b, d}
			}
			p, pk := mk()
			q, qk := mk()
			w = 0
			for i := range pk {
				if w == 0 {
					w = sgn(pk[i], qk[i])
				}
			}
			order(c, "nested Pair", p, q, w)
		}
	})
	mon.Need("A07", "pairs with equal first component", 100)

	mon.Reg("A07", "transitive-sort", 300, 10000, func(c *mon.Case) {
		// Cmp over a shared pool must be a consistent strict weak order.
		r := c.R
		pool := make([]g.String, 12)
		for i := range pool {
			pool[i] = g.String(randText(r))
			c.Op("", string(pool[i]))
		}
		for _, x := range pool {
			for _, y := range pool {
				for _, z := range pool {
					c.Evals(1)
					if x.Cmp(y) != g.OrderingGreater && y.Cmp(z) != g.OrderingGreater && x.Cmp(z) == g.OrderingGreater {
						c.Fail("order of %q, %q, %q is not transitive", x, y, z)
					}
				}
			}
		}
		c.Nontrivial()
	})

	mon.Reg("A08", "text/floats", 1000, 40000, func(c *mon.Case) {
		for i := 0; i < 20; i++ {
			x := f64(c.R)
			c.Op("f64", x)
			c.Nontrivial()
			s := string(g.F64(x).ToString())
			c.Evals(2)
			y, err := strconv.ParseFloat(s, 64)
			if err != nil || !sameF64(g.F64(x), g.F64(y)) {
				c.Fail("F64(%b).ToString() = %q, which reads back as %b (%v)", x, s, y, err)
			}
			if !math.IsInf(x, 0) && x == x && !sciRe.MatchString(s) {
				c.Fail("F64(%b).ToString() = %q is not a decimal numeral", x, s)
			}
			if back := g.String(s).ParseF64(); bool(back.IsErr()) || !sameF64(back.Unwrap(), g.F64(x)) {
				c.Fail("F64(%b) rendered as %q does not parse back", x, s)
			}
			otherForms(c, "F64", g.F64(x), s)
			v := f32(c.R)
			s = string(g.F32(v).ToString())
			c.Op("f32", v)
			z, err := strconv.ParseFloat(s, 32)
			c.Evals(1)
			if err != nil || !sameF32(g.F32(v), g.F32(z)) {
				c.Fail("F32(%b).ToString() = %q, which reads back as %b (%v)", v, s, z, err)
			}
			otherForms(c, "F32", g.F32(v), s)
			p := complex(f64(c.R), f64(c.R))
			s = string(g.Complex128(p).ToString())
			q, err := strconv.ParseComplex(s, 128)
			c.Evals(1)
			if err != nil || !sameF64(g.F64(real(p)), g.F64(real(q))) || !sameF64(g.F64(imag(p)), g.F64(imag(q))) {
				c.Fail("Complex128(%v).ToString() = %q, which reads back as %v (%v)", p, s, q, err)
			}
			otherForms(c, "Complex128", g.Complex128(p), s)
			p64 := complex(f32(c.R), f32(c.R))
			s = string(g.Complex64(p64).ToString())
			q, err = strconv.ParseComplex(s, 64)
			c.Evals(1)
			if err != nil || !sameF32(g.F32(real(p64)), g.F32(real(q))) || !sameF32(g.F32(imag(p64)), g.F32(imag(q))) {
				c.Fail("Complex64(%v).ToString() = %q, which reads back as %v (%v)", p64, s, q, err)
			}
			otherForms(c, "Complex64", g.Complex64(p64), s)
		}
	})
	mon.Reg("A08", "text/others", 256, 256, func(c *mon.Case) {
		b := byte(c.Index)
		c.Op("byte", int(b))
		c.Evals(6)
		c.Enumerated(1)
		if got := string(g.Byte(b).ToString()); got != strconv.Itoa(int(b)) || string(g.Byte(b).Display()) != got {
			c.Fail("Byte(%d) renders as %q", b, got)
		} else {
			otherForms(c, "Byte", g.Byte(b), got)
		}
		for _, v := range []bool{true, false} {
			if got := string(g.Bool(v).ToString()); got != strconv.FormatBool(v) || string(g.Bool(v).Display()) != got {
				c.Fail("Bool(%v) renders as %q", v, got)
			} else {
				otherForms(c, "Bool", g.Bool(v), got)
			}
		}
		s := randText(c.R)
		if string(g.String(s).ToString()) != s || string(g.String(s).Display()) != s {
			c.Fail("String(%q) renders as %q", s, g.String(s).ToString())
		}
		otherForms(c, "String", g.String(s), s)
		ch := g.Char(rune(c.R.N(0x3000)))
		if got := string(ch.ToString()); got != strconv.Itoa(int(ch)) && got != string(rune(ch)) {
			c.Fail("Char(%d) renders as %q, neither its code point nor itself", ch, got)
		}
		otherForms(c, "Char", ch, string(ch.ToString()))
	})

	intRe := regexp.MustCompile(`^[+-]?[0-9]+$`)
	numeral := func(r *mon.Rand) string {
		digits := func(n int) string {
			s := ""
			for ; n > 0; n-- {
				s += string(rune('0' + r.N(10)))
			}
			return s
		}
		sign := mon.Pick(r, "", "", "-", "+", "-", "--", "+-", "- ")
		switch r.N(12) {
		case 0:
			return sign + digits(r.N(4))
		case 1:
			return sign + digits(17+r.N(5))
		case 2: // around the bounds
			x := new(big.Int).SetUint64(mon.Pick(r, uint64(1)<<63, ^uint64(0), 1<<31, 1<<32, 1<<53))
			x.Add(x, big.NewInt(int64(r.N(7)-3)))
			return mon.Pick(r, "", "-", "+") + x.String()
		case 3:
			return sign + strings.Repeat("0", r.N(30)) + digits(1+r.N(18))
		case 4:
			return strconv.FormatInt(int64(r.Word()), 10)
		case 5:
			return strconv.FormatUint(r.Word(), 10)
		case 6:
			return randText(r)
		case 7: // one foreign character in a numeral
			s := digits(1 + r.N(6))
			k := r.N(len(s) + 1)
			return s[:k] + mon.Pick(r, " ", "_", ".", "e", "x", "a", "é", "\x00", "١", ",", "-", "+") + s[k:]
		case 8:
			return mon.Pick(r, "", "+", "-", "0x10", "1e3", "0b1", "0o7", "1_000", "00", "-0", "+0", " 1", "1 ", "\n1", "１", "NaN", "Inf")
		case 9:
			return sign + digits(20+r.N(30))
		}
		return sign + digits(1+r.N(19))
	}
	mon.Reg("A08", "parse/integers", 1500, 60000, func(c *mon.Case) {
		for i := 0; i < 40; i++ {
			s := numeral(c.R)
			c.Op("parse", s)
			var val *big.Int
			if intRe.MatchString(s) {
				val, _ = new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
			}
			c.Evals(2)
			i64 := val != nil && val.IsInt64()
			if r := g.String(s).ParseI64(); bool(r.IsOk()) != i64 || bool(r.IsErr()) == i64 {
				c.Fail("String(%q).ParseI64() ok=%v, but it is a numeral in range: %v", s, r.IsOk(), i64)
			} else if i64 && int64(r.Unwrap()) != val.Int64() {
				c.Fail("String(%q).ParseI64() = %v", s, r.Unwrap())
			}
			u64 := val != nil && val.IsUint64()
			// "-0" is a numeral of zero for some grammars and not for others
			if val != nil && val.Sign() == 0 && s[0] == '-' {
				if r := g.String(s).ParseU64(); bool(r.IsOk()) && r.Unwrap() != 0 {
					c.Fail("String(%q).ParseU64() = %v", s, r.Unwrap())
				}
			} else if r := g.String(s).ParseU64(); bool(r.IsOk()) != u64 || bool(r.IsErr()) == u64 {
				c.Fail("String(%q).ParseU64() ok=%v, but it is a numeral in range: %v", s, r.IsOk(), u64)
			} else if u64 && uint64(r.Unwrap()) != val.Uint64() {
				c.Fail("String(%q).ParseU64() = %v", s, r.Unwrap())
			}
			switch {
			case i64 && u64:
				c.Event("numeral in range of both")
			case i64 || u64:
				c.Event("numeral in range of one")
				c.Nontrivial()
			case val != nil:
				c.Event("numeral out of range")
				c.Nontrivial()
			default:
				c.Event("not a numeral")
				c.Nontrivial()
			}
		}
	})
	mon.Need("A08", "numeral in range of one", 500)
	mon.Need("A08", "numeral out of range", 500)
	mon.Need("A08", "not a numeral", 500)
	mon.Need("A08", "display and debug text", 5000)

	mon.Reg("A08", "parse/floats", 1500, 60000, func(c *mon.Case) {
		r := c.R
		for i := 0; i < 20; i++ {
			var s string
			switch r.N(6) {
			case 0:
				s = numeral(r)
			case 1:
				s = strconv.FormatFloat(f64(r), mon.Pick(r, byte('f'), 'e', 'g'), mon.Pick(r, -1, 0, 3, 17, 30), 64)
			case 2:
				s = numeral(r) + "." + numeral(r)
			case 3:
				s = numeral(r) + mon.Pick(r, "e", "E") + mon.Pick(r, "", "-", "+") + strconv.Itoa(r.N(400))
			default:
				s = strconv.FormatFloat(f64(r), 'g', -1, 64) + mon.Pick(r, "", "", "", " ", "0", "x")
			}
			c.Op("parse", s)
			c.Nontrivial()
			got := g.String(s).ParseF64()
			c.Evals(1)
			// decimal float grammar
			if !floatRe.MatchString(s) {
				if plainNot.MatchString(s) && bool(got.IsOk()) {
					c.Fail("String(%q).ParseF64() = %v, but it is not a number", s, got.Unwrap())
				}
				continue
			}
			want, _ := new(big.Float).SetPrec(5000).SetMode(big.ToNearestEven).SetString(strings.TrimPrefix(s, "+"))
			w, _ := want.Float64()
			if math.IsInf(w, 0) {
				if bool(got.IsOk()) && !math.IsInf(float64(got.Unwrap()), 0) {
					c.Fail("String(%q).ParseF64() = %v", s, got.Unwrap())
				}
				continue
			}
			if bool(got.IsErr()) || float64(got.Unwrap()) != w {
				c.Fail("String(%q).ParseF64() = %v, want %v", s, got.Display(), w)
			}
			c.Event("decimal float parsed")
		}
	})
	mon.Need("A08", "decimal float parsed", 1000)
}

var floatRe = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]{1,3})?$`)

// texts that no reasonable float grammar accepts
var plainNot = regexp.MustCompile(`^$|^[+-]$|[ \n,\x00é]|[+-]{2}|[0-9][+-]|^[a-dz]`)

// otherForms checks the display and the debug text of a value against its
// plain text.
func otherForms(c *mon.Case, name string, x any, text string) {
	c.Evals(2)
	if d, ok := x.(interface{ Display() g.String }); !ok {
		c.Fail("%s has no Display", name)
	} else if got := string(d.Display()); got != text {
		c.Fail("%s displays as %.200q, its text is %.200q", name, got, text)
	}
	if d, ok := x.(interface{ Debug() g.String }); !ok {
		c.Fail("%s has no Debug", name)
	} else if got, want := string(d.Debug()), name+"("+text+")"; got != want {
		c.Fail("%s renders for debugging as %.200q instead of %.200q", name, got, want)
	}
	c.Event("display and debug text")
}
