package main

import (
	"errors"
	"fmt"
	"math"
	"runtime"
	"slices"
	"strings"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

func init() {
	mon.Rule("O03", "a case is one chain of conditions (every truth pattern of chains of up to 8 conditions is enumerated, longer ones sampled); the value, and how often each branch was computed, are compared with the first true one; non-trivial when two conditions are true or the first true one is not the first")
	mon.Reg("O03", "enumerated", 9, 13, ifEnum)
	mon.Reg("O03", "random", 4000, 100000, ifRandom)
	mon.Need("O03", "several true conditions", 200)
	mon.Need("O03", "no true condition", 100)

	mon.Rule("O04", "a case is one assertion (boolean, equal, not equal) or panicking helper on operands of one type, with no message or one with placeholders and as many arguments; whether it panicked and with what text is compared with the operands and the filled-in message; non-trivial when it panicked with a message")
	mon.Need("O04", "panicked with a filled-in message", 1000)
	mon.Need("O04", "returned normally", 1000)
	mon.Reg("O04", "assert", 8000, 200000, assertCase)
	mon.Reg("O04", "assert-I32", 3000, 80000, func(c *mon.Case) { assertEq(c, func() gost.I32 { return gost.I32(c.R.N(3) - 1) }) })
	mon.Reg("O04", "assert-U64", 2000, 60000, func(c *mon.Case) { assertEq(c, func() gost.U64 { return gost.U64(c.R.Word()) >> 60 << 60 }) })
	mon.Reg("O04", "assert-I128", 2000, 60000, func(c *mon.Case) {
		assertEq(c, func() gost.I128 { return gost.I128_FromI64(gost.I64(c.R.N(3) - 1)) })
	})
	mon.Reg("O04", "assert-String", 2000, 60000, func(c *mon.Case) {
		assertEq(c, func() gost.String { return mon.Pick[gost.String](c.R, "", "a", "{}", "}{") })
	})
	mon.Reg("O04", "assert-Bool", 1000, 30000, func(c *mon.Case) { assertEq(c, func() gost.Bool { return gost.Bool(c.R.Bool()) }) })
	mon.Reg("O04", "assert-F64", 1000, 30000, func(c *mon.Case) { assertEq(c, func() gost.F64 { return gost.F64(c.R.N(3)) / 2 }) })
	mon.Need("O04", "equal operands of different text", 200)
	mon.Need("O04", "unequal operands of the same text", 200)
	mon.Reg("O04", "assert-odd-F64", 1500, 40000, func(c *mon.Case) {
		assertJudged(c, func() gost.F64 {
			return gost.F64(mon.Pick(c.R, 0, math.Copysign(0, -1), math.NaN(), math.Inf(1), 1))
		}, func(a, b gost.F64) bool { return float64(a) == float64(b) })
	})
	mon.Reg("O04", "assert-odd-F32", 1500, 40000, func(c *mon.Case) {
		assertJudged(c, func() gost.F32 {
			return gost.F32(mon.Pick(c.R, 0, math.Copysign(0, -1), math.NaN(), math.Inf(-1), 1))
		}, func(a, b gost.F32) bool { return float32(a) == float32(b) })
	})
	mon.Reg("O04", "assert-own-type", 2500, 60000, func(c *mon.Case) {
		assertJudged(c, func() graded { return graded{c.R.N(3), c.R.N(3)} }, func(a, b graded) bool { return a.class == b.class })
	})
	mon.Reg("O04", "assert-odd-Vec", 1500, 40000, func(c *mon.Case) {
		assertJudged(c, func() gost.Vec[gost.F64] {
			v := gost.VecNew[gost.F64]()
			for i := c.R.N(3); i > 0; i-- {
				v.Push(gost.F64(mon.Pick(c.R, 0, math.Copysign(0, -1), math.NaN())))
			}
			return v
		}, func(a, b gost.Vec[gost.F64]) bool {
			return slices.EqualFunc(a.AsSlice(), b.AsSlice(), func(x, y gost.F64) bool { return float64(x) == float64(y) })
		})
	})
	mon.Reg("O04", "assert-odd-Option", 1500, 40000, func(c *mon.Case) {
		assertJudged(c, func() gost.Option[graded] {
			if c.R.P(0.3) {
				return gost.None[graded]()
			}
			return gost.Some(graded{c.R.N(2), c.R.N(3)})
		}, func(a, b gost.Option[graded]) bool {
			if !a.IsSome() || !b.IsSome() {
				return bool(a.IsSome() == b.IsSome())
			}
			return a.Unwrap().class == b.Unwrap().class
		})
	})
	mon.Reg("O04", "assert-odd-Pair", 1000, 30000, func(c *mon.Case) {
		assertJudged(c, func() gost.Pair[graded, gost.F64] {
			return gost.Pair[graded, gost.F64]{Key: graded{c.R.N(2), c.R.N(2)}, Value: gost.F64(mon.Pick(c.R, 0, 1, math.NaN()))}
		}, func(a, b gost.Pair[graded, gost.F64]) bool { return a.Key.class == b.Key.class && a.Value == b.Value })
	})
	mon.Reg("O04", "assert-Vec", 2000, 60000, func(c *mon.Case) {
		assertEq(c, func() gost.Vec[gost.String] {
			v := gost.VecNew[gost.String]()
			for i := c.R.N(3); i > 0; i-- {
				v.Push(mon.Pick[gost.String](c.R, "{}", "b"))
			}
			return v
		})
	})
	mon.Reg("O04", "assert-Option", 2000, 60000, func(c *mon.Case) {
		assertEq(c, func() gost.Option[gost.I32] {
			if c.R.P(0.3) {
				return gost.None[gost.I32]()
			}
			return gost.Some(gost.I32(c.R.N(2)))
		})
	})
	mon.Reg("O04", "helpers", 2000, 60000, panicHelpers)
}

func chain[T comparable](c *mon.Case, conds []bool, val func(i int) T) {
	n := make([]int, len(conds)+1)
	branch := func(i int) func() T { return func() T { n[i]++; return val(i) } }
	want, trues := len(conds), 0
	for i := len(conds) - 1; i >= 0; i-- {
		if conds[i] {
			want = i
			trues++
		}
	}
	if trues > 1 {
		c.Event("several true conditions")
	}
	if trues == 0 {
		c.Event("no true condition")
	}
	if trues > 1 || want != 0 {
		c.Nontrivial()
	}
	x := gost.If(gost.Bool(conds[0]), branch(0))
	for i := 1; i < len(conds); i++ {
		x = x.ElseIf(gost.Bool(conds[i]), branch(i))
	}
	got := x.Else(branch(len(conds)))
	c.Evals(1)
	c.Check(got == val(want), "conditions %v: the chain's value is %v, want that of branch %d, %v", conds, got, want, val(want))
	for i := range n {
		c.Check(n[i] == b2i(i == want), "conditions %v: branch %d was computed %d times (branch %d was selected)", conds, i, n[i], want)
	}
}

func ifEnum(c *mon.Case) {
	n := c.Index + 1
	c.Op("length", n)
	for bits := 0; bits < 1<<n; bits++ {
		conds := make([]bool, n)
		for i := range conds {
			conds[i] = bits>>i&1 == 1
		}
		chain(c, conds, func(i int) gost.I32 { return gost.I32(i * 11) })
	}
	c.Enumerated(1 << n)
}

func ifRandom(c *mon.Case) {
	n := c.R.In(1, 40)
	p := mon.Pick(c.R, 0.02, 0.1, 0.5)
	conds := make([]bool, n)
	for i := range conds {
		conds[i] = c.R.P(p)
	}
	c.Op("conditions", fmt.Sprint(conds))
	bits := c.R.U64()
	nilAt := func(i int) bool { return bits>>(i&63)&1 == 0 }
	switch c.R.N(6) {
	case 3: // no value at all is a value too
		err := errors.New("e")
		chain(c, conds, func(i int) error {
			if nilAt(i) {
				return nil
			}
			return err
		})
	case 4:
		chain(c, conds, func(i int) any {
			if nilAt(i) {
				return nil
			}
			return i
		})
	case 5:
		chain(c, conds, func(i int) bool { return nilAt(i) })
	case 0:
		chain(c, conds, func(i int) gost.String { return gost.String(fmt.Sprint("v", i)) })
	case 1: // branches with equal and zero values
		chain(c, conds, func(i int) gost.I32 { return gost.I32(i % 2) })
	case 2:
		chain(c, conds, func(i int) *int { return nil })
	}
}

// message makes a message with placeholders and its arguments, and what it fills in to.
func message(c *mon.Case) (args []any, want string) {
	r := c.R
	if r.P(0.2) {
		return nil, ""
	}
	var tmpl, text strings.Builder
	tmpl.WriteString("MSG")
	text.WriteString("MSG")
	for i := r.N(4); i > 0; i-- {
		lit := mon.Pick(r, "", "a", " is ", "é ", "%d")
		tmpl.WriteString(lit + "{}")
		a, s := anyArg(r)
		args = append(args, a)
		text.WriteString(lit + s)
	}
	if r.P(0.2) {
		tmpl.WriteString("{{x}}")
		text.WriteString("{x}")
	}
	var msg any = gost.String(tmpl.String())
	if r.Bool() {
		msg = tmpl.String()
	}
	return append([]any{msg}, args...), text.String()
}

func judge(c *mon.Case, what string, holds bool, want string, hasMsg bool, f func()) {
	bad, val := mon.Panics(f)
	c.Evals(1)
	c.Check(bad == !holds, "%s: panicked is %v", what, bad)
	if !bad {
		c.Event("returned normally")
		return
	}
	if err, ok := val.(runtime.Error); ok {
		c.Fail("%s panicked by an accident of its own: %v", what, err)
	}
	if hasMsg {
		c.Nontrivial()
		c.Event("panicked with a filled-in message")
		got := fmt.Sprint(val)
		c.Check(strings.Contains(got, want), "%s panicked with %q, which lacks the message %q", what, got, want)
	}
}

func assertCase(c *mon.Case) {
	holds := c.R.Bool()
	args, want := message(c)
	c.Op("Assert", holds, want)
	judge(c, fmt.Sprintf("Assert(%v, %v)", holds, args), holds, want, len(args) > 0, func() { gost.Assert(gost.Bool(holds), args...) })
}

func assertEq[T gost.Eq[T]](c *mon.Case, gen func() T) {
	a := gen()
	b := a
	if c.R.P(0.6) {
		b = gen()
	}
	same := fmt.Sprint(gost.Format("{}", a)) == fmt.Sprint(gost.Format("{}", b))
	assertPair(c, a, b, same)
}

// graded is an operand whose equality is of its class; its text is that of its grade.
type graded struct{ class, grade int }

func (x graded) Eq(y graded) gost.Bool { return gost.Bool(x.class == y.class) }
func (x graded) Display() gost.String  { return gost.String(fmt.Sprint("grade ", x.grade)) }
func (x graded) Debug() gost.String    { return x.Display() }
func (x graded) ToString() gost.String { return x.Display() }

// assertJudged is assertEq for operands whose text does not tell whether they are equal.
func assertJudged[T gost.Eq[T]](c *mon.Case, gen func() T, eq func(a, b T) bool) {
	a := gen()
	b := a
	if c.R.P(0.7) {
		b = gen()
	}
	text := gost.Format("{}", a) == gost.Format("{}", b)
	same := eq(a, b)
	if same && !text {
		c.Event("equal operands of different text")
	}
	if !same && text {
		c.Event("unequal operands of the same text")
	}
	assertPair(c, a, b, same)
}

func assertPair[T gost.Eq[T]](c *mon.Case, a, b T, same bool) {
	args, want := message(c)
	c.Op("operands", fmt.Sprint(gost.Format("{}", a)), fmt.Sprint(gost.Format("{}", b)), want)
	judge(c, fmt.Sprintf("AssertEq(%v, %v, %v)", a, b, args), same, want, len(args) > 0, func() { gost.AssertEq(a, b, args...) })
	judge(c, fmt.Sprintf("AssertNe(%v, %v, %v)", a, b, args), !same, want, len(args) > 0, func() { gost.AssertNe(a, b, args...) })
}

func panicHelpers(c *mon.Case) {
	args, want := message(c)
	if len(args) > 0 {
		if s, ok := args[0].(string); ok {
			args[0] = gost.String(s)
		}
		judge(c, "Panic", false, want, true, func() { gost.Panic(args[0].(gost.String), args[1:]...) })
	}
	text := mon.Pick[gost.String](c.R, "why", "", "né", "not {} a template")
	c.Op("helpers", string(text), want)
	has := c.R.Bool()
	for _, h := range []struct {
		name string
		f    func(...gost.String)
	}{{"Unimplemented", gost.Unimplemented}, {"Unreachable", gost.Unreachable}, {"Todo", gost.Todo}} {
		if has {
			judge(c, h.name, false, string(text), true, func() { h.f(text) })
		} else {
			judge(c, h.name, false, "", false, func() { h.f() })
		}
	}
}
