//go:build vals

package main

import (
	"errors"
	"fmt"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

// M is the ideal content of a value: a leaf (N decides equality and order, ID
// identity), a sequence (A), a set (A, without repeats) or a map (A to B).
type M struct {
	N, ID int
	A, B  []*M
}

// Val is what the clone, equality and rendering monitors know about a type:
// how to make a value with given content by some history, and how to read the
// content back through the public API, independent of the library's own
// Clone, Eq and Display.
type Val[T any] struct {
	name  string
	gen   func(r *mon.Rand, size int) *M
	make  func(r *mon.Rand, m *M) T
	text  func(m *M) string // content up to the elements' equality
	exact func(m *M) string // exact content
	read  func(x T) string  // exact content of a real value
	edit  func(r *mon.Rand, m *M) *M
	mut   func(r *mon.Rand, x *T) // changes the value (nearly always)
	cmp   func(a, b *M) int
	clone func(x T) T
	eq    func(a, b T) bool
	disp  func(x T) string
	debug func(x T) string
	show  func(m *M, s string) []int // lengths of prefixes of s that render m
}

func lit(f func(m *M) string) func(m *M, s string) []int {
	return func(m *M, s string) []int {
		if t := f(m); strings.HasPrefix(s, t) {
			return []int{len(t)}
		}
		return nil
	}
}

func leaf[T interface {
	comparable
	Eq(T) gost.Bool
	Display() gost.String
}](name string, dom int, of func(n, id int) T, str func(n, id int) string, identity bool) Val[T] {
	back := map[T]string{}
	id := func(r *mon.Rand) int {
		if identity {
			return r.N(1000)
		}
		return 0
	}
	for n := 0; n < dom && !identity; n++ {
		back[of(n, 0)] = str(n, 0)
	}
	return Val[T]{
		name: name,
		gen:  func(r *mon.Rand, size int) *M { return &M{N: r.N(dom), ID: id(r)} },
		make: func(r *mon.Rand, m *M) T { return of(m.N, m.ID) },
		text: func(m *M) string { return strconv.Itoa(m.N) },
		exact: func(m *M) string {
			return str(m.N, m.ID)
		},
		read: func(x T) string {
			if identity {
				return fmt.Sprint(any(x).(Item).K, "#", any(x).(Item).ID)
			}
			s, ok := back[x]
			if !ok {
				return fmt.Sprintf("<%v, which was never made>", x)
			}
			return s
		},
		edit: func(r *mon.Rand, m *M) *M {
			c := *m
			if identity && r.P(0.3) {
				c.ID = r.N(1000) // still equal
				return &c
			}
			c.N = (m.N + 1 + r.N(dom-1)) % dom
			return &c
		},
		mut:   func(r *mon.Rand, x *T) { *x = of(r.N(dom), id(r)) },
		cmp:   func(a, b *M) int { return a.N - b.N },
		clone: func(x T) T { return any(x).(interface{ Clone() T }).Clone() },
		eq:    func(a, b T) bool { return bool(a.Eq(b)) },
		disp:  func(x T) string { return string(x.Display()) },
		debug: func(x T) string { return string(x.Display()) },
		show:  lit(func(m *M) string { return str(m.N, m.ID) }),
	}
}

var words = func() []string {
	w := []string{"", "a", "ab", "b", ", ", "]", "[", "{}", "{", "}}", ": ", "é", "日本", "Vec[", "None", "\n", "%d", "\\"}
	for i := 0; i < 40; i++ {
		w = append(w, fmt.Sprintf("w%02d", i))
	}
	sort.Strings(w)
	return w
}()

var vI32 = leaf("I32", 60, func(n, _ int) gost.I32 { return gost.I32(n*7 - 200) }, func(n, _ int) string { return strconv.Itoa(n*7 - 200) }, false)
var vU64 = leaf("U64", 40, func(n, _ int) gost.U64 { return gost.U64(n) << 58 >> 1 }, func(n, _ int) string { return strconv.FormatUint(uint64(n)<<58>>1, 10) }, false)
var vStr = leaf("String", len(words), func(n, _ int) gost.String { return gost.String(words[n]) }, func(n, _ int) string { return words[n] }, false)
var vBool = leaf("Bool", 2, func(n, _ int) gost.Bool { return n == 1 }, func(n, _ int) string { return strconv.FormatBool(n == 1) }, false)
var vF64 = leaf("F64", 30, func(n, _ int) gost.F64 { return gost.F64(n) - 15.5 }, func(n, _ int) string { return fmt.Sprint(float64(n) - 15.5) }, false)
var vI128 = leaf("I128", 40, func(n, _ int) gost.I128 { return gost.I128_FromI64(gost.I64(n - 20)) }, func(n, _ int) string { return strconv.Itoa(n - 20) }, false)
var vU128 = leaf("U128", 40, func(n, _ int) gost.U128 { return gost.U128_FromU64(gost.U64(n)) }, func(n, _ int) string { return strconv.Itoa(n) }, false)
var vItem = leaf("Item", 40, func(n, id int) Item { return Item{int32(n), int32(id)} }, func(n, id int) string { return fmt.Sprintf("%d#%d", n, id) }, true)
var vKey = leaf("Key", 40, func(n, _ int) Key { return Key{int16(n / 7), strconv.Itoa(n % 7)} }, func(n, _ int) string { return fmt.Sprintf("<%d|%d>", n/7, n%7) }, false)

func init() {
	vItem.read = func(x Item) string { return fmt.Sprintf("%d#%d", x.K, x.ID) }
}

// ------------------------------------------------------------- composition

func genMany[T any](in Val[T], r *mon.Rand, size int) []*M {
	n := r.Size(size)
	if size >= 90 { // the size itself
		n = size
	}
	out := make([]*M, n)
	for i := range out {
		out[i] = in.gen(r, size/3+1)
	}
	return out
}

func many[T any](f func(m *M) string, open, close string) func(m *M) string {
	return func(m *M) string {
		var b strings.Builder
		b.WriteString(open)
		for i, x := range m.A {
			if i > 0 {
				b.WriteString(" ; ")
			}
			b.WriteString(f(x))
		}
		b.WriteString(close)
		return b.String()
	}
}

func cmpSeq(cmp func(a, b *M) int) func(a, b *M) int {
	return func(a, b *M) int { return slices.CompareFunc(a.A, b.A, cmp) }
}

// editSeq changes a sequence: one element, its order, its length, or nothing.
func editSeq[T any](in Val[T]) func(r *mon.Rand, m *M) *M {
	return func(r *mon.Rand, m *M) *M {
		a := slices.Clone(m.A)
		n := len(a)
		switch r.N(7) {
		case 0:
			if n > 0 {
				i := r.N(n)
				a[i] = in.edit(r, a[i])
			}
		case 1:
			if n > 1 {
				i, j := r.N(n), r.N(n)
				a[i], a[j] = a[j], a[i]
			}
		case 2:
			a = append(a, in.gen(r, 3))
		case 3:
			if n > 0 {
				a = a[:n-1]
			}
		case 4:
			slices.Reverse(a)
		case 5:
			if n > 1 {
				a = append(a[1:], a[0])
			}
		case 6:
			if n > 0 {
				a[n-1] = in.edit(r, a[n-1])
			}
		}
		return &M{A: a}
	}
}

// showSeq matches open e1, e2, ... close.
func showSeq[T any](in Val[T], open, close string) func(m *M, s string) []int {
	return func(m *M, s string) []int {
		if !strings.HasPrefix(s, open) {
			return nil
		}
		at := map[int]bool{len(open): true}
		for i, x := range m.A {
			next := map[int]bool{}
			for p := range at {
				if i > 0 {
					if !strings.HasPrefix(s[p:], ", ") {
						continue
					}
					p += 2
				}
				for _, l := range in.show(x, s[p:]) {
					next[p+l] = true
				}
			}
			at = next
		}
		return closing(at, s, close)
	}
}

func closing(at map[int]bool, s, close string) []int {
	var out []int
	for p := range at {
		if strings.HasPrefix(s[p:], close) {
			out = append(out, p+len(close))
		}
	}
	return out
}

// showBag matches open e1, e2, ... close with the entries in any order.
func showBag(n int, entry func(i int, s string) []int, open, close, s string) []int {
	if !strings.HasPrefix(s, open) {
		return nil
	}
	used := make([]bool, n)
	var out []int
	steps := 0
	var rec func(k, p int)
	rec = func(k, p int) {
		steps++
		if steps > 200000 || len(out) > 0 {
			return
		}
		if k == n {
			if strings.HasPrefix(s[p:], close) {
				out = append(out, p+len(close))
			}
			return
		}
		if k > 0 {
			if !strings.HasPrefix(s[p:], ", ") {
				return
			}
			p += 2
		}
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			for _, l := range entry(i, s[p:]) {
				used[i] = true
				rec(k+1, p+l)
				used[i] = false
			}
		}
	}
	rec(0, len(open))
	return out
}

func readAll[T any](in Val[T], it gost.Iterator[T], most int) []string {
	var out []string
	for {
		o := it.Next()
		if bool(o.IsNone()) {
			return out
		}
		out = append(out, in.read(o.Unwrap()))
		if len(out) > most {
			return append(out, "... more elements than Len()")
		}
	}
}

func joined(open string, parts []string, n int, close string) string {
	s := open + strings.Join(parts, " ; ") + close
	if n != len(parts) {
		s += fmt.Sprintf(" with Len() %d", n)
	}
	return s
}

func vecVal[T any](in Val[T]) Val[gost.Vec[T]] {
	type V = gost.Vec[T]
	return Val[V]{
		name: "Vec[" + in.name + "]",
		gen:  func(r *mon.Rand, size int) *M { return &M{A: genMany(in, r, size)} },
		make: func(r *mon.Rand, m *M) V {
			v := gost.VecNew[T]()
			if r.Bool() {
				v = gost.VecWithCapacity[T](gost.USize(r.N(3 * (len(m.A) + 1))))
			}
			for i, x := range m.A {
				if r.P(0.15) {
					v.Push(in.make(r, in.gen(r, 2)))
					v.Pop()
				}
				if r.P(0.1) {
					v.Insert(gost.USize(i), in.make(r, x))
				} else {
					v.Push(in.make(r, x))
				}
			}
			if r.P(0.2) {
				v.Reserve(gost.USize(r.N(50)))
			}
			return v
		},
		text:  many[T](in.text, "[", "]"),
		exact: many[T](in.exact, "[", "]"),
		read: func(x V) string {
			var p []string
			for _, e := range x.AsSlice() {
				p = append(p, in.read(e))
			}
			return joined("[", p, int(x.Len()), "]")
		},
		edit: editSeq(in),
		mut: func(r *mon.Rand, x *V) {
			n := int(x.Len())
			switch op := r.N(10); {
			case op < 3 && n > 0: // in place, through the shared backing array
				in.mut(r, &x.AsSlice()[r.N(n)])
			case op == 3 && n > 0:
				i := gost.USize(r.N(n))
				e := x.GetUnchecked(i)
				in.mut(r, &e)
				x.SetUnchecked(i, e)
			case op == 4:
				x.Reverse()
			case op == 5 && n > 1:
				x.Swap(0, gost.USize(n-1))
			case op == 6:
				x.Pop()
			case op == 7 && r.P(0.3):
				x.Clear()
			case op == 8:
				x.Insert(0, in.make(r, in.gen(r, 2)))
			default:
				x.Push(in.make(r, in.gen(r, 2)))
			}
		},
		cmp:   cmpSeq(in.cmp),
		clone: func(x V) V { return x.Clone() },
		eq:    func(a, b V) bool { return bool(a.Eq(b)) },
		disp:  func(x V) string { return string(x.Display()) },
		debug: func(x V) string { return string(x.Debug()) },
		show:  showSeq(in, "Vec[", "]"),
	}
}

func dequeVal[T any](in Val[T]) Val[gost.VecDeque[T]] {
	type V = gost.VecDeque[T]
	return Val[V]{
		name: "VecDeque[" + in.name + "]",
		gen:  func(r *mon.Rand, size int) *M { return &M{A: genMany(in, r, size)} },
		make: func(r *mon.Rand, m *M) V {
			v := gost.VecDequeNew[T]()
			if r.Bool() {
				v = gost.VecDequeWithCapacity[T](gost.USize(r.N(3 * (len(m.A) + 1))))
			}
			for i := r.N(12); i > 0 && r.Bool(); i-- { // move the front into the ring
				v.PushBack(in.make(r, in.gen(r, 2)))
				v.PopFront()
			}
			k := r.N(len(m.A) + 1) // grow from the middle outwards
			if r.Bool() {
				k = 0
			}
			i, j := k, k
			for i > 0 || j < len(m.A) {
				if i > 0 && (j == len(m.A) || r.Bool()) {
					i--
					v.PushFront(in.make(r, m.A[i]))
				} else {
					v.PushBack(in.make(r, m.A[j]))
					j++
				}
			}
			return v
		},
		text:  many[T](in.text, "(", ")"),
		exact: many[T](in.exact, "(", ")"),
		read: func(x V) string {
			var p []string
			for i := gost.USize(0); i < x.Len(); i++ {
				o := x.Get(i)
				if bool(o.IsNone()) {
					p = append(p, "nothing")
				} else {
					p = append(p, in.read(o.Unwrap()))
				}
			}
			return joined("(", p, int(x.Len()), ")")
		},
		edit: editSeq(in),
		mut: func(r *mon.Rand, x *V) {
			n := int(x.Len())
			switch op := r.N(10); {
			case op < 4 && n > 0:
				i := gost.USize(r.N(n))
				e := x.Get(i).Unwrap()
				in.mut(r, &e)
				x.Set(i, e)
			case op == 4:
				x.PopFront()
			case op == 5 && n > 1:
				x.Swap(0, gost.USize(n-1))
			case op == 6:
				x.PopBack()
			case op == 7 && r.P(0.3):
				x.Clear()
			case op == 8:
				x.PushFront(in.make(r, in.gen(r, 2)))
			default:
				x.PushBack(in.make(r, in.gen(r, 2)))
			}
		},
		cmp:   cmpSeq(in.cmp),
		clone: cloneDeque[T],
		eq:    func(a, b V) bool { return bool(a.Eq(b)) },
		disp:  func(x V) string { return string(x.Display()) },
		debug: func(x V) string { return string(x.Debug()) },
		show:  showSeq(in, "VecDeque[", "]"),
	}
}

// cloneDeque accepts a Clone that returns the deque or a pointer to it.
func cloneDeque[T any](x gost.VecDeque[T]) gost.VecDeque[T] {
	switch y := any(x).(type) {
	case interface{ Clone() gost.VecDeque[T] }:
		return y.Clone()
	case interface{ Clone() *gost.VecDeque[T] }:
		return *y.Clone()
	}
	panic("VecDeque has no Clone")
}

func listVal[T any](in Val[T]) Val[gost.LinkedList[T]] {
	type V = gost.LinkedList[T]
	return Val[V]{
		name: "LinkedList[" + in.name + "]",
		gen:  func(r *mon.Rand, size int) *M { return &M{A: genMany(in, r, size)} },
		make: func(r *mon.Rand, m *M) V {
			v := gost.LinkedListNew[T]()
			if r.P(0.2) {
				v.PushBack(in.make(r, in.gen(r, 2)))
				v.PopFront()
			}
			k := r.N(len(m.A) + 1)
			i, j := k, k
			for i > 0 || j < len(m.A) {
				if i > 0 && (j == len(m.A) || r.Bool()) {
					i--
					v.PushFront(in.make(r, m.A[i]))
				} else {
					v.PushBack(in.make(r, m.A[j]))
					j++
				}
			}
			return v
		},
		text:  many[T](in.text, "<", ">"),
		exact: many[T](in.exact, "<", ">"),
		read: func(x V) string {
			return joined("<", readAll(in, x.IntoIter(), int(x.Len())+2), int(x.Len()), ">")
		},
		edit: editSeq(in),
		mut: func(r *mon.Rand, x *V) {
			switch op := r.N(8); {
			case op < 3 && x.Len() > 0:
				e := x.PopFront().Unwrap()
				in.mut(r, &e)
				x.PushFront(e)
			case op == 3:
				x.PopFront()
			case op == 4:
				x.PopBack()
			case op == 5 && r.P(0.3):
				x.Clear()
			case op == 6:
				x.PushFront(in.make(r, in.gen(r, 2)))
			default:
				x.PushBack(in.make(r, in.gen(r, 2)))
			}
		},
		cmp:   cmpSeq(in.cmp),
		clone: func(x V) V { return x.Clone() },
		eq:    func(a, b V) bool { return bool(a.Eq(b)) },
		disp:  func(x V) string { return string(x.Display()) },
		debug: func(x V) string { return string(x.Debug()) },
		show:  showSeq(in, "LinkedList[", "]"),
	}
}

// setM removes repeats and sorts.
func setM(a []*M, cmp func(a, b *M) int) []*M {
	a = slices.Clone(a)
	slices.SortStableFunc(a, cmp)
	return slices.CompactFunc(a, func(x, y *M) bool { return cmp(x, y) == 0 })
}

// bigSet is sometimes a size that needs several tree nodes.
func bigSet(r *mon.Rand, size int) int {
	if size >= 12 && r.P(0.1) {
		return 60
	}
	return size
}

func editSet[T any](in Val[T]) func(r *mon.Rand, m *M) *M {
	return func(r *mon.Rand, m *M) *M {
		a := slices.Clone(m.A)
		switch r.N(4) {
		case 0:
			if len(a) > 0 {
				i := r.N(len(a))
				a[i] = in.edit(r, a[i])
			}
		case 1:
			a = append(a, in.gen(r, 3))
		case 2:
			if len(a) > 0 {
				i := r.N(len(a))
				a = slices.Delete(a, i, i+1)
			}
		}
		return &M{A: setM(a, in.cmp)}
	}
}

func order(r *mon.Rand, n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	switch r.N(3) {
	case 0:
		mon.Shuffle(r, o)
	case 1:
		slices.Reverse(o)
	}
	return o
}

func hashSetVal[T comparable](in Val[T]) Val[gost.HashSet[T]] {
	type V = gost.HashSet[T]
	return Val[V]{
		name: "HashSet[" + in.name + "]",
		gen:  func(r *mon.Rand, size int) *M { return &M{A: setM(genMany(in, r, size), in.cmp)} },
		make: func(r *mon.Rand, m *M) V {
			v := gost.HashSetNew[T]()
			has := map[string]bool{}
			for _, x := range m.A {
				has[in.exact(x)] = true
			}
			for i := r.N(6); i > 0; i-- {
				j := in.gen(r, 2)
				if !has[in.exact(j)] {
					v.Insert(in.make(r, j))
					v.Remove(in.make(r, j))
				}
			}
			for _, i := range order(r, len(m.A)) {
				v.Insert(in.make(r, m.A[i]))
			}
			return v
		},
		text:  many[T](in.text, "{", "}"),
		exact: func(m *M) string { return sortedText(m, in.exact, nil, "{", "}") },
		read: func(x V) string {
			p := readAll(in, x.IntoIter(), int(x.Len())+2)
			sort.Strings(p)
			return joined("{", p, int(x.Len()), "}")
		},
		edit: editSet(in),
		mut: func(r *mon.Rand, x *V) {
			it := x.IntoIter()
			switch op := r.N(6); {
			case op < 2 && x.Len() > 0:
				x.Remove(it.Next().Unwrap())
			case op == 2 && r.P(0.3):
				x.Clear()
			default:
				x.Insert(in.make(r, in.gen(r, 2)))
			}
		},
		cmp:   cmpSeq(in.cmp),
		clone: func(x V) V { return x.Clone() },
		eq:    func(a, b V) bool { return bool(a.Eq(b)) },
		disp:  func(x V) string { return string(x.Display()) },
		debug: func(x V) string { return string(x.Debug()) },
		show: func(m *M, s string) []int {
			return showBag(len(m.A), func(i int, s string) []int { return in.show(m.A[i], s) }, "HashSet{", "}", s)
		},
	}
}

func sortedText(m *M, ka, kb func(*M) string, open, close string) string {
	var p []string
	for i, x := range m.A {
		s := ka(x)
		if kb != nil {
			s += " = " + kb(m.B[i])
		}
		p = append(p, s)
	}
	sort.Strings(p)
	return joined(open, p, len(p), close)
}

func treeSetVal[T gost.Ord[T]](in Val[T]) Val[gost.BTreeSet[T]] {
	type V = gost.BTreeSet[T]
	return Val[V]{
		name: "BTreeSet[" + in.name + "]",
		gen: func(r *mon.Rand, size int) *M {
			return &M{A: setM(genMany(in, r, bigSet(r, size)*5/2), in.cmp)}
		},
		make: func(r *mon.Rand, m *M) V {
			v := gost.BTreeSetNew[T]()
			junk := setM(genMany(in, r, 60), in.cmp)
			if r.P(0.6) {
				junk = nil
			}
			for _, j := range junk {
				v.Insert(in.make(r, j))
			}
			for _, i := range order(r, len(junk)) {
				v.Remove(in.make(r, junk[i]))
			}
			for _, i := range order(r, len(m.A)) {
				v.Insert(in.make(r, m.A[i]))
			}
			return v
		},
		text:  many[T](in.text, "{|", "|}"),
		exact: many[T](in.exact, "{|", "|}"),
		read: func(x V) string {
			return joined("{|", readAll(in, x.IntoIter(), int(x.Len())+2), int(x.Len()), "|}")
		},
		edit: editSet(in),
		mut: func(r *mon.Rand, x *V) {
			switch op := r.N(6); {
			case op < 2 && x.Len() > 0:
				it := x.IntoIter()
				for i := r.N(int(x.Len())); i > 0; i-- {
					it.Next()
				}
				x.Remove(it.Next().Unwrap())
			case op == 2 && r.P(0.3):
				x.Clear()
			default:
				x.Insert(in.make(r, in.gen(r, 2)))
			}
		},
		cmp:   cmpSeq(in.cmp),
		clone: func(x V) V { return x.Clone() },
		eq:    func(a, b V) bool { return bool(a.Eq(b)) },
		disp:  func(x V) string { return string(x.Display()) },
		debug: func(x V) string { return string(x.Debug()) },
		show:  showSeq(in, "BTreeSet{", "}"),
	}
}

func genMapM[K, V any](k Val[K], v Val[V], r *mon.Rand, n, size int) *M {
	m := &M{A: setM(genMany(k, r, n), k.cmp)}
	for range m.A {
		m.B = append(m.B, v.gen(r, size/3+1))
	}
	return m
}

func editMap[K, V any](k Val[K], v Val[V]) func(r *mon.Rand, m *M) *M {
	return func(r *mon.Rand, m *M) *M {
		a, b := slices.Clone(m.A), slices.Clone(m.B)
		n := len(a)
		has := func(x *M) bool {
			return slices.ContainsFunc(a, func(y *M) bool { return k.cmp(x, y) == 0 })
		}
		switch r.N(6) {
		case 0, 1:
			if n > 0 {
				i := r.N(n)
				b[i] = v.edit(r, b[i])
			}
		case 2:
			if n > 1 { // same keys and values, differently paired
				i, j := r.N(n), r.N(n)
				b[i], b[j] = b[j], b[i]
			}
		case 3:
			if n > 0 {
				i := r.N(n)
				a, b = slices.Delete(a, i, i+1), slices.Delete(b, i, i+1)
			}
		case 4:
			if n > 0 {
				i := r.N(n)
				if x := k.edit(r, a[i]); !has(x) {
					a[i] = x
				}
			}
		case 5:
			if x := k.gen(r, 3); !has(x) {
				a, b = append(a, x), append(b, v.gen(r, 3))
			}
		}
		// keep the keys sorted
		o := make([]int, len(a))
		for i := range o {
			o[i] = i
		}
		slices.SortFunc(o, func(i, j int) int { return k.cmp(a[i], a[j]) })
		out := &M{}
		for _, i := range o {
			out.A, out.B = append(out.A, a[i]), append(out.B, b[i])
		}
		return out
	}
}

func pairsText(ka, kb func(*M) string, open, close string) func(m *M) string {
	return func(m *M) string {
		var p []string
		for i, x := range m.A {
			p = append(p, ka(x)+" = "+kb(m.B[i]))
		}
		return joined(open, p, len(p), close)
	}
}

// showEntry matches "key: value".
func showEntry[K, V any](k Val[K], v Val[V], a, b *M, s string) []int {
	var out []int
	for _, l := range k.show(a, s) {
		if strings.HasPrefix(s[l:], ": ") {
			for _, n := range v.show(b, s[l+2:]) {
				out = append(out, l+2+n)
			}
		}
	}
	return out
}

func hashMapVal[K comparable, E any](k Val[K], v Val[E]) Val[gost.HashMap[K, E]] {
	type V = gost.HashMap[K, E]
	return Val[V]{
		name: "HashMap[" + k.name + "," + v.name + "]",
		gen:  func(r *mon.Rand, size int) *M { return genMapM(k, v, r, size, size) },
		make: func(r *mon.Rand, m *M) V {
			x := gost.HashMapNew[K, E]()
			has := map[string]bool{}
			for _, e := range m.A {
				has[k.exact(e)] = true
			}
			for i := r.N(6); i > 0; i-- {
				j := k.gen(r, 2)
				x.Insert(k.make(r, j), v.make(r, v.gen(r, 2)))
				if !has[k.exact(j)] {
					x.Remove(k.make(r, j))
				} // otherwise it is overwritten below
			}
			for _, i := range order(r, len(m.A)) {
				x.Insert(k.make(r, m.A[i]), v.make(r, m.B[i]))
			}
			return x
		},
		text:  pairsText(k.text, v.text, "{", "}"),
		exact: func(m *M) string { return sortedText(m, k.exact, v.exact, "{", "}") },
		read: func(x V) string {
			var p []string
			it := x.IntoIter()
			for o := it.Next(); !bool(o.IsNone()) && len(p) < int(x.Len())+2; o = it.Next() {
				e := o.Unwrap()
				p = append(p, k.read(e.Key)+" = "+v.read(e.Value))
			}
			sort.Strings(p)
			return joined("{", p, int(x.Len()), "}")
		},
		edit: editMap(k, v),
		mut: func(r *mon.Rand, x *V) {
			it := x.IntoIter()
			switch op := r.N(7); {
			case op < 2 && x.Len() > 0:
				e := it.Next().Unwrap()
				v.mut(r, &e.Value)
				x.Insert(e.Key, e.Value)
			case op == 2 && x.Len() > 0:
				x.Remove(it.Next().Unwrap().Key)
			case op == 3 && r.P(0.3):
				x.Clear()
			default:
				x.Insert(k.make(r, k.gen(r, 2)), v.make(r, v.gen(r, 2)))
			}
		},
		clone: func(x V) V { return x.Clone() },
		eq:    func(a, b V) bool { return bool(a.Eq(b)) },
		disp:  func(x V) string { return string(x.Display()) },
		debug: func(x V) string { return string(x.Debug()) },
		show: func(m *M, s string) []int {
			return showBag(len(m.A), func(i int, s string) []int { return showEntry(k, v, m.A[i], m.B[i], s) }, "HashMap{", "}", s)
		},
	}
}

func treeMapVal[K gost.Ord[K], E any](k Val[K], v Val[E]) Val[gost.BTreeMap[K, E]] {
	type V = gost.BTreeMap[K, E]
	return Val[V]{
		name: "BTreeMap[" + k.name + "," + v.name + "]",
		gen: func(r *mon.Rand, size int) *M {
			return genMapM(k, v, r, bigSet(r, size)*5/2, size)
		},
		make: func(r *mon.Rand, m *M) V {
			x := gost.BTreeMapNew[K, E]()
			junk := setM(genMany(k, r, 60), k.cmp)
			if r.P(0.6) {
				junk = nil
			}
			for _, j := range junk {
				x.Insert(k.make(r, j), v.make(r, v.gen(r, 2)))
			}
			for _, i := range order(r, len(junk)) {
				x.Remove(k.make(r, junk[i]))
			}
			for _, i := range order(r, len(m.A)) {
				if r.P(0.2) {
					x.Insert(k.make(r, m.A[i]), v.make(r, v.gen(r, 2)))
				}
				x.Insert(k.make(r, m.A[i]), v.make(r, m.B[i]))
			}
			return x
		},
		text:  pairsText(k.text, v.text, "{|", "|}"),
		exact: pairsText(k.exact, v.exact, "{|", "|}"),
		read: func(x V) string {
			var p []string
			it := x.IntoIter()
			for o := it.Next(); !bool(o.IsNone()) && len(p) < int(x.Len())+2; o = it.Next() {
				e := o.Unwrap()
				p = append(p, k.read(e.Key)+" = "+v.read(e.Value))
			}
			return joined("{|", p, int(x.Len()), "|}")
		},
		edit:  editMap(k, v),
		eq:    eqTreeMap[K, E],
		disp:  func(x V) string { return string(x.Display()) },
		debug: func(x V) string { return string(x.Debug()) },
		show: func(m *M, s string) []int {
			const open = "BTreeMap{"
			if !strings.HasPrefix(s, open) {
				return nil
			}
			at := map[int]bool{len(open): true}
			for i := range m.A {
				next := map[int]bool{}
				for p := range at {
					if i > 0 {
						if !strings.HasPrefix(s[p:], ", ") {
							continue
						}
						p += 2
					}
					for _, l := range showEntry(k, v, m.A[i], m.B[i], s[p:]) {
						next[p+l] = true
					}
				}
				at = next
			}
			return closing(at, s, "}")
		},
	}
}

// eqTreeMap calls Eq whether it takes the map or a pointer to it.
func eqTreeMap[K gost.Ord[K], E any](a, b gost.BTreeMap[K, E]) bool {
	switch x := any(a).(type) {
	case interface {
		Eq(*gost.BTreeMap[K, E]) bool
	}:
		return x.Eq(&b)
	case interface {
		Eq(gost.BTreeMap[K, E]) gost.Bool
	}:
		return bool(x.Eq(b))
	}
	panic("BTreeMap has no Eq")
}

func optVal[T any](in Val[T]) Val[gost.Option[T]] {
	type V = gost.Option[T]
	w := func(f func(*M) string) func(m *M) string {
		return func(m *M) string {
			if len(m.A) == 0 {
				return "None"
			}
			return "Some " + f(m.A[0])
		}
	}
	return Val[V]{
		name: "Option[" + in.name + "]",
		gen: func(r *mon.Rand, size int) *M {
			if r.P(0.25) {
				return &M{}
			}
			return &M{A: []*M{in.gen(r, size)}}
		},
		make: func(r *mon.Rand, m *M) V {
			if len(m.A) == 0 {
				if r.Bool() {
					o := gost.Some(in.make(r, in.gen(r, 2)))
					o.Take()
					return o
				}
				return gost.None[T]()
			}
			if r.Bool() {
				o := gost.None[T]()
				o.Insert(in.make(r, m.A[0]))
				return o
			}
			return gost.Some(in.make(r, m.A[0]))
		},
		text: w(in.text), exact: w(in.exact),
		read: func(x V) string {
			if bool(x.IsNone()) {
				return "None"
			}
			return "Some " + in.read(x.Unwrap())
		},
		edit: func(r *mon.Rand, m *M) *M {
			if len(m.A) == 0 {
				return &M{A: []*M{in.gen(r, 3)}}
			}
			if r.P(0.2) {
				return &M{}
			}
			return &M{A: []*M{in.edit(r, m.A[0])}}
		},
		mut: func(r *mon.Rand, x *V) {
			switch {
			case r.P(0.2):
				x.Take()
			case bool(x.IsSome()) && r.Bool():
				in.mut(r, x.GetOrInsert(in.make(r, in.gen(r, 2))))
			default:
				x.Insert(in.make(r, in.gen(r, 2)))
			}
		},
		cmp:   cmpSeq(in.cmp),
		clone: func(x V) V { return x.Clone() },
		eq:    func(a, b V) bool { return bool(a.Eq(b)) },
		disp:  func(x V) string { return string(x.Display()) },
		debug: func(x V) string { return string(x.Debug()) },
		show: func(m *M, s string) []int {
			if len(m.A) == 0 {
				return lit(func(*M) string { return "None" })(m, s)
			}
			return showSeq(in, "Some(", ")")(m, s)
		},
	}
}

var errPool = []error{errors.New("first"), errors.New("first"), errors.New("second {}"), errors.New("")}

func resVal[T any](in Val[T]) Val[gost.Result[T]] {
	type V = gost.Result[T]
	w := func(f func(*M) string) func(m *M) string {
		return func(m *M) string {
			if len(m.A) == 0 {
				return "Err " + strconv.Itoa(m.N)
			}
			return "Ok " + f(m.A[0])
		}
	}
	return Val[V]{
		name: "Result[" + in.name + "]",
		gen: func(r *mon.Rand, size int) *M {
			if r.P(0.25) {
				return &M{N: r.N(len(errPool))}
			}
			return &M{A: []*M{in.gen(r, size)}}
		},
		make: func(r *mon.Rand, m *M) V {
			if len(m.A) == 0 {
				return gost.Err[T](errPool[m.N])
			}
			return gost.Ok(in.make(r, m.A[0]))
		},
		text: w(in.text), exact: w(in.exact),
		read: func(x V) string {
			if bool(x.IsErr()) {
				return "Err " + strconv.Itoa(slices.Index(errPool, x.UnwrapErr()))
			}
			return "Ok " + in.read(x.Unwrap())
		},
		edit: func(r *mon.Rand, m *M) *M {
			if len(m.A) == 0 && r.Bool() {
				return &M{A: []*M{in.gen(r, 3)}}
			}
			if len(m.A) == 0 || r.P(0.2) {
				return &M{N: r.N(len(errPool))}
			}
			return &M{A: []*M{in.edit(r, m.A[0])}}
		},
		mut: func(r *mon.Rand, x *V) {
			if bool(x.IsOk()) && r.P(0.7) {
				v := x.Unwrap()
				in.mut(r, &v)
				*x = gost.Ok(v)
			} else {
				*x = gost.Ok(in.make(r, in.gen(r, 2)))
			}
		},
		cmp:   cmpSeq(in.cmp),
		clone: func(x V) V { return x.Clone() },
		eq:    func(a, b V) bool { return bool(a.Eq(b)) },
		disp:  func(x V) string { return string(x.Display()) },
		debug: func(x V) string { return string(x.Debug()) },
		show: func(m *M, s string) []int {
			if len(m.A) == 0 { // a failure shows its error's text
				t := errPool[m.N].Error()
				return append(lit(func(*M) string { return t })(m, s), lit(func(*M) string { return "Err(" + t + ")" })(m, s)...)
			}
			return showSeq(in, "Ok(", ")")(m, s)
		},
	}
}

func pairVal[K, E any](k Val[K], v Val[E]) Val[gost.Pair[K, E]] {
	type V = gost.Pair[K, E]
	w := func(f, g func(*M) string) func(m *M) string {
		return func(m *M) string { return "(" + f(m.A[0]) + " & " + g(m.A[1]) + ")" }
	}
	return Val[V]{
		name: "Pair[" + k.name + "," + v.name + "]",
		gen:  func(r *mon.Rand, size int) *M { return &M{A: []*M{k.gen(r, size), v.gen(r, size)}} },
		make: func(r *mon.Rand, m *M) V { return V{Key: k.make(r, m.A[0]), Value: v.make(r, m.A[1])} },
		text: w(k.text, v.text), exact: w(k.exact, v.exact),
		read: func(x V) string { return "(" + k.read(x.Key) + " & " + v.read(x.Value) + ")" },
		edit: func(r *mon.Rand, m *M) *M {
			if r.Bool() {
				return &M{A: []*M{k.edit(r, m.A[0]), m.A[1]}}
			}
			return &M{A: []*M{m.A[0], v.edit(r, m.A[1])}}
		},
		mut: func(r *mon.Rand, x *V) {
			if r.Bool() {
				k.mut(r, &x.Key)
			} else {
				v.mut(r, &x.Value)
			}
		},
		cmp: func(a, b *M) int {
			if n := k.cmp(a.A[0], b.A[0]); n != 0 {
				return n
			}
			return v.cmp(a.A[1], b.A[1])
		},
		clone: func(x V) V { return x.Clone() },
		eq:    func(a, b V) bool { return bool(a.Eq(b)) },
		disp:  func(x V) string { return fmt.Sprint(x.Display()) },
		debug: func(x V) string { return fmt.Sprint(x.Debug()) },
		show: func(m *M, s string) []int {
			const open = "Pair["
			if !strings.HasPrefix(s, open) {
				return nil
			}
			var out []int
			for _, l := range k.show(m.A[0], s[len(open):]) {
				p := len(open) + l
				if strings.HasPrefix(s[p:], ", ") {
					for _, l2 := range v.show(m.A[1], s[p+2:]) {
						q := p + 2 + l2
						if strings.HasPrefix(s[q:], "]") {
							out = append(out, q+1)
						}
					}
				}
			}
			return out
		},
	}
}
