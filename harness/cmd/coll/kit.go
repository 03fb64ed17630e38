package main

import (
	"fmt"
	"math"
	"strconv"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

// Item orders and compares by K alone; ID tells equal items apart.
type Item struct {
	K  int32
	ID int32
}

func (a Item) Cmp(b Item) gost.Ordering {
	if a.K < b.K {
		return gost.OrderingLess
	}
	if a.K > b.K {
		return gost.OrderingGreater
	}
	return gost.OrderingEqual
}
func (a Item) Eq(b Item) gost.Bool  { return a.K == b.K }
func (a Item) Clone() Item          { return a }
func (a Item) Display() gost.String { return gost.String(fmt.Sprintf("%d#%d", a.K, a.ID)) }

// Key is a comparable struct, for hashed collections.
type Key struct {
	A int16
	B string
}

func (a Key) Clone() Key           { return a }
func (a Key) Eq(b Key) gost.Bool   { return a == b }
func (a Key) Display() gost.String { return gost.String(fmt.Sprintf("<%d|%s>", a.A, a.B)) }

// Kit is what a monitor needs to know about an element type, independent of
// the library's own comparison, equality and rendering.
type Kit[T any] struct {
	Name string
	Gen  func(r *mon.Rand, dom int) T // one of about dom values
	Same func(a, b T) bool            // identical
	Eq   func(a, b T) bool            // equal by the element's equality
	Cmp  func(a, b T) int
	Str  func(a T) string // display text
}

func cmpNum[N int32 | uint8 | float64 | string | int64](a, b N) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

var kI32 = Kit[gost.I32]{
	Name: "I32",
	Gen: func(r *mon.Rand, dom int) gost.I32 {
		n := r.N(dom)
		switch n {
		case 3:
			return math.MinInt32
		case 4:
			return math.MaxInt32
		}
		return gost.I32(n - dom/2)
	},
	Same: func(a, b gost.I32) bool { return a == b },
	Eq:   func(a, b gost.I32) bool { return a == b },
	Cmp:  func(a, b gost.I32) int { return cmpNum(int32(a), int32(b)) },
	Str:  func(a gost.I32) string { return strconv.Itoa(int(a)) },
}

var kU8 = Kit[gost.U8]{
	Name: "U8",
	Gen:  func(r *mon.Rand, dom int) gost.U8 { return gost.U8(255 - r.N(dom)) },
	Same: func(a, b gost.U8) bool { return a == b },
	Eq:   func(a, b gost.U8) bool { return a == b },
	Cmp:  func(a, b gost.U8) int { return cmpNum(uint8(a), uint8(b)) },
	Str:  func(a gost.U8) string { return strconv.Itoa(int(a)) },
}

func genWord(r *mon.Rand, dom int) string {
	n := r.N(dom)
	if n == 0 {
		return ""
	}
	if n == 1 {
		return "é"
	}
	s := strconv.Itoa(n * 7919 % 100003)
	if n%3 == 0 {
		s = "a" + s
	}
	if n%5 == 0 {
		s += "x"
	}
	return s
}

var kStr = Kit[gost.String]{
	Name: "String",
	Gen:  func(r *mon.Rand, dom int) gost.String { return gost.String(genWord(r, dom)) },
	Same: func(a, b gost.String) bool { return a == b },
	Eq:   func(a, b gost.String) bool { return a == b },
	Cmp:  func(a, b gost.String) int { return cmpNum(string(a), string(b)) },
	Str:  func(a gost.String) string { return string(a) },
}

var kF64 = Kit[gost.F64]{
	Name: "F64",
	Gen:  func(r *mon.Rand, dom int) gost.F64 { return gost.F64(r.N(dom)-dom/2) / 4 },
	Same: func(a, b gost.F64) bool { return a == b },
	Eq:   func(a, b gost.F64) bool { return a == b },
	Cmp:  func(a, b gost.F64) int { return cmpNum(float64(a), float64(b)) },
	Str:  func(a gost.F64) string { return "" },
}

// i128 values are compared by the 64-bit integer they were made from.
var i128val = map[gost.I128]int64{}

func init() {
	for i := int64(-3000); i <= 3000; i++ {
		i128val[gost.I128_FromI64(gost.I64(i))] = i
	}
}

var kI128 = Kit[gost.I128]{
	Name: "I128",
	Gen: func(r *mon.Rand, dom int) gost.I128 {
		if dom > 6000 {
			dom = 6000
		}
		return gost.I128_FromI64(gost.I64(r.N(dom) - dom/2))
	},
	Same: func(a, b gost.I128) bool { return a == b },
	Eq:   func(a, b gost.I128) bool { return a == b },
	Cmp:  func(a, b gost.I128) int { return cmpNum(i128val[a], i128val[b]) },
	Str:  func(a gost.I128) string { return strconv.FormatInt(i128val[a], 10) },
}

var kItem = Kit[Item]{
	Name: "Item",
	Gen: func(r *mon.Rand, dom int) Item {
		return Item{int32(r.N(dom)), int32(r.U64() >> 40)}
	},
	Same: func(a, b Item) bool { return a == b },
	Eq:   func(a, b Item) bool { return a.K == b.K },
	Cmp:  func(a, b Item) int { return cmpNum(a.K, b.K) },
	Str:  func(a Item) string { return fmt.Sprintf("%d#%d", a.K, a.ID) },
}

var kKey = Kit[Key]{
	Name: "Key",
	Gen: func(r *mon.Rand, dom int) Key {
		n := r.N(dom)
		return Key{int16(n % 7), strconv.Itoa(n / 7)}
	},
	Same: func(a, b Key) bool { return a == b },
	Eq:   func(a, b Key) bool { return a == b },
	Str:  func(a Key) string { return fmt.Sprintf("<%d|%s>", a.A, a.B) },
}

// brief renders a sequence only when it is printed.
type briefly[T any] struct{ xs []T }

func brief[T any](xs []T) briefly[T] { return briefly[T]{xs} }

func (b briefly[T]) String() string {
	s := fmt.Sprint(b.xs)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// sameSeq fails unless got and want are the same sequence.
func sameSeq[T any](c *mon.Case, what string, got, want []T, same func(a, b T) bool) {
	if len(got) != len(want) {
		c.Fail("%s: %d elements, want %d: got %s want %s", what, len(got), len(want), brief(got), brief(want))
	}
	for i := range got {
		if !same(got[i], want[i]) {
			c.Fail("%s: element %d is %v, want %v: got %s want %s", what, i, got[i], want[i], brief(got), brief(want))
		}
	}
}

// sameBag fails unless got and want are the same multiset.
func sameBag[T comparable](c *mon.Case, what string, got, want []T) {
	if len(got) != len(want) {
		c.Fail("%s: %d elements, want %d: got %s want %s", what, len(got), len(want), brief(got), brief(want))
	}
	m := make(map[T]int, len(want))
	for _, x := range want {
		m[x]++
	}
	for _, x := range got {
		if m[x] == 0 {
			c.Fail("%s: unexpected element %v: got %s want %s", what, x, brief(got), brief(want))
		}
		m[x]--
	}
}

func wantSome[T any](c *mon.Case, what string, o gost.Option[T], v T, same func(a, b T) bool) {
	if !bool(o.IsSome()) || bool(o.IsNone()) {
		c.Fail("%s is None, want Some(%v)", what, v)
	}
	if got := o.Unwrap(); !same(got, v) {
		c.Fail("%s is Some(%v), want Some(%v)", what, got, v)
	}
}

func wantNone[T any](c *mon.Case, what string, o gost.Option[T]) {
	if !bool(o.IsNone()) || bool(o.IsSome()) {
		c.Fail("%s is Some(%v), want None", what, o.Unwrap())
	}
}

// wantOpt checks an option against a model value and its presence.
func wantOpt[T any](c *mon.Case, what string, o gost.Option[T], v T, present bool, same func(a, b T) bool) {
	if present {
		wantSome(c, what, o, v, same)
	} else {
		wantNone(c, what, o)
	}
}

// dom is how many different values a case draws from.
func dom(c *mon.Case) int {
	if c.Big > 0 {
		return mon.Pick(c.R, 3, 60, c.Big, 3*c.Big)
	}
	return mon.Pick(c.R, 1, 2, 3, 6, 12, 40, 200)
}

// wide is dom for collections of keys: nearly as many as the case is big.
func wide(c *mon.Case) int {
	if c.Big > 0 {
		return 3 * c.Big
	}
	return dom(c)
}

// makeDeque builds a deque of the given capacity whose front was moved by
// off positions, holding xs.
func makeDeque[T any](capacity, off int, xs []T) gost.VecDeque[T] {
	v := gost.VecDequeWithCapacity[T](gost.USize(capacity))
	var zero T
	for i := 0; i < off; i++ {
		v.PushBack(zero)
		v.PopFront()
	}
	for _, x := range xs {
		v.PushBack(x)
	}
	return v
}
