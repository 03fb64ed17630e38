//go:build !vals

package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

// Keys whose equality is not that of their texts or of their bytes: the two
// zeros are one key, a key that is not equal to itself is found by no lookup
// and is an entry of its own each time, and values of different types behind
// one interface type are different keys however they look.
func init() {
	mon.Need("C05", "key not equal to itself stored", 100)
	mon.Need("C05", "the other zero looked up", 100)
	mon.Reg("C05", "odd-keys-F64", 800, 20000, func(c *mon.Case) {
		oddHistory(c, func(r *mon.Rand) gost.F64 {
			switch r.N(8) {
			case 0, 1:
				return gost.F64(math.NaN())
			case 2:
				return 0
			case 3:
				return gost.F64(math.Copysign(0, -1))
			case 4:
				return gost.F64(math.Inf(1 - 2*r.N(2)))
			}
			return gost.F64(r.N(6)) / 4
		})
	})
	mon.Reg("C05", "odd-keys-mixed", 800, 20000, func(c *mon.Case) {
		oddHistory(c, func(r *mon.Rand) any {
			n := r.N(4)
			switch r.N(12) {
			case 0:
				return gost.I32(n)
			case 1:
				return gost.I64(n)
			case 2:
				return gost.U8(n)
			case 3:
				return gost.F64(n)
			case 4:
				return gost.String(fmt.Sprint(n))
			case 5:
				return fmt.Sprint(n)
			case 6:
				return gost.Bool(n&1 == 1)
			case 7:
				return gost.F32(math.NaN())
			case 8:
				return nil
			case 9:
				return [2]int{n, n}
			case 10:
				return gost.Char('0' + n)
			}
			return n
		})
	})
	mon.Reg("C05", "odd-keys-array", 400, 10000, func(c *mon.Case) {
		oddHistory(c, func(r *mon.Rand) [2]gost.F32 {
			one := func() gost.F32 {
				switch r.N(6) {
				case 0:
					return gost.F32(math.NaN())
				case 1:
					return gost.F32(math.Copysign(0, -1))
				}
				return gost.F32(r.N(2))
			}
			return [2]gost.F32{one(), one()}
		})
	})
}

type oddEntry[K any] struct {
	k K
	v gost.I32
}

func oddText(k any) string { return fmt.Sprintf("%T %#v", k, k) }

func oddBag(c *mon.Case, what string, got, want []string) {
	sort.Strings(got)
	sort.Strings(want)
	if len(got) != len(want) {
		c.Fail("%s gave %d elements, want %d: %v, want %v", what, len(got), len(want), got, want)
	}
	for i := range got {
		c.Check(got[i] == want[i], "%s: %v, want %v", what, got, want)
	}
}

func oddHistory[K comparable](c *mon.Case, gen func(*mon.Rand) K) {
	r := c.R
	v := gost.HashMapNew[K, gost.I32]()
	if r.Bool() {
		v = gost.HashMapWithCapacity[K, gost.I32](gost.USize(r.N(40)))
	}
	s := gost.HashSetNew[K]()
	var m []oddEntry[K]
	find := func(k K) int {
		for i := range m {
			if m[i].k == k {
				return i
			}
		}
		return -1
	}
	strange := func() (n int) {
		for i := range m {
			if m[i].k != m[i].k {
				n++
			}
		}
		return n
	}
	check := func() {
		n := gost.USize(len(m))
		c.Evals(1)
		c.Check(v.Len() == n, "the map's Len() is %d, want %d", v.Len(), n)
		c.Check(s.Len() == n, "the set's Len() is %d, want %d", s.Len(), n)
		c.Check(bool(v.IsEmpty()) == (n == 0) && bool(s.IsEmpty()) == (n == 0), "IsEmpty() is %v and %v with %d entries", v.IsEmpty(), s.IsEmpty(), n)
		k := gen(r)
		i := find(k)
		got := v.Get(k)
		c.Check(bool(got.IsSome()) == (i >= 0), "Get(%s) is there: %v, want %v", oddText(k), got.IsSome(), i >= 0)
		if i >= 0 {
			c.Check(got.Unwrap() == m[i].v, "Get(%s) is %v, want %v", oddText(k), got.Unwrap(), m[i].v)
			if oddText(m[i].k) != oddText(k) {
				c.Event("the other zero looked up")
			}
		}
		c.Check(bool(v.ContainsKey(k)) == (i >= 0), "ContainsKey(%s) is %v", oddText(k), v.ContainsKey(k))
		c.Check(bool(s.Contains(k)) == (i >= 0), "Contains(%s) is %v", oddText(k), s.Contains(k))
	}
	all := func() {
		var vals, got []string
		for _, x := range m {
			vals = append(vals, fmt.Sprint(x.v))
		}
		for _, x := range drain(c, v.Values(), len(m)) {
			got = append(got, fmt.Sprint(x))
		}
		oddBag(c, "Values()", got, vals)
		left := append([]oddEntry[K](nil), m...)
		take := func(what string, k K, value *gost.I32) {
			for i := range left {
				same := left[i].k == k || left[i].k != left[i].k && k != k && oddText(left[i].k) == oddText(k)
				if same && (value == nil || *value == left[i].v) {
					left = append(left[:i], left[i+1:]...)
					return
				}
			}
			c.Fail("%s gave %s, which is not there or was given already", what, oddText(k))
		}
		for _, p := range drain(c, v.IntoIter(), len(m)) {
			take("IntoIter()", p.Key, &p.Value)
		}
		c.Check(len(left) == 0, "IntoIter() left out %v", left)
		left = append(left[:0], m...)
		for _, k := range drain(c, v.Keys(), len(m)) {
			take("Keys()", k, nil)
		}
		c.Check(len(left) == 0, "Keys() left out %v", left)
		left = append(left[:0], m...)
		for _, k := range drain(c, s.IntoIter(), len(m)) {
			take("the set's IntoIter()", k, nil)
		}
		c.Check(len(left) == 0, "the set's IntoIter() left out %v", left)
		left = append(left[:0], m...)
		for _, k := range s.AsSlice() {
			take("AsSlice()", k, nil)
		}
		c.Check(len(left) == 0, "AsSlice() left out %v", left)
		c.Evals(5)
	}
	for step, n := 0, 10+r.N(60); step < n; step++ {
		k := gen(r)
		i := find(k)
		switch r.N(10) {
		default:
			x := gost.I32(step)
			c.Op("Insert", oddText(k), x)
			old := v.Insert(k, x)
			fresh := s.Insert(k)
			c.Check(bool(old.IsSome()) == (i >= 0), "Insert(%s) found an old value: %v, want %v", oddText(k), old.IsSome(), i >= 0)
			c.Check(bool(fresh) == (i < 0), "the set's Insert(%s) is %v, want %v", oddText(k), fresh, i < 0)
			if i >= 0 {
				c.Check(old.Unwrap() == m[i].v, "Insert(%s) gave the old value %v, want %v", oddText(k), old.Unwrap(), m[i].v)
				m[i].v = x
				c.Nontrivial()
			} else {
				m = append(m, oddEntry[K]{k, x})
			}
			if k != k {
				c.Event("key not equal to itself stored")
				c.Nontrivial()
			}
		case 6, 7:
			c.Op("Remove", oddText(k))
			old := v.Remove(k)
			gone := s.Remove(k)
			c.Check(bool(old.IsSome()) == (i >= 0), "Remove(%s) found a value: %v, want %v", oddText(k), old.IsSome(), i >= 0)
			c.Check(bool(gone) == (i >= 0), "the set's Remove(%s) is %v, want %v", oddText(k), gone, i >= 0)
			if i >= 0 {
				c.Check(old.Unwrap() == m[i].v, "Remove(%s) gave %v, want %v", oddText(k), old.Unwrap(), m[i].v)
				m = append(m[:i:i], m[i+1:]...)
			}
		case 8:
			// Deleting key by key, which leaves keys not equal to themselves
			// behind, is a legitimate way to clear.
			if r.P(0.3) && strange() == 0 {
				c.Op("Clear")
				v.Clear()
				s.Clear()
				m = nil
				all()
			}
		case 9:
			all()
		}
		check()
	}
	all()
}
