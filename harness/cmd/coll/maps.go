//go:build !vals

package main

import (
	"slices"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

func init() {
	mon.Rule("C05", "a case is one history on a hash map or hash set over a key domain from one hot key to hundreds, checked against a Go map after every operation; non-trivial when a present key was overwritten or removed")
	mon.Need("C05", "overwrite", 500)
	mon.Need("C05", "removal of a present key", 500)
	mon.Reg("C05", "map-I32-String", 5000, 120000, func(c *mon.Case) { hashMapHistory(c, kI32, kStr) })
	mon.Reg("C05", "map-String-Item", 3000, 80000, func(c *mon.Case) { hashMapHistory(c, kStr, kItem) })
	mon.Reg("C05", "map-Key-I32", 3000, 80000, func(c *mon.Case) { hashMapHistory(c, kKey, kI32) })
	mon.Reg("C05", "map-I128-U8", 2000, 60000, func(c *mon.Case) { hashMapHistory(c, kI128, kU8) })
	mon.Reg("C05", "map-I32-I32", 4000, 100000, func(c *mon.Case) { hashMapHistory(c, kI32, kI32) })
	mon.Reg("C05", "map-String-String", 3000, 80000, func(c *mon.Case) { hashMapHistory(c, kStr, kStr) })
	mon.Reg("C05", "set-I32", 4000, 100000, func(c *mon.Case) { hashSetHistory(c, kI32) })
	mon.Reg("C05", "set-String", 3000, 80000, func(c *mon.Case) { hashSetHistory(c, kStr) })
	mon.Reg("C05", "set-Key", 2000, 60000, func(c *mon.Case) { hashSetHistory(c, kKey) })

	mon.Rule("C06", "a case is one history on an ordered map (phases of growing, shrinking, churning and draining, with ascending, descending, random or hot keys) checked against a sorted model: return value, length and lookup after every operation, full traversal of entries, keys and values at checkpoints; non-trivial when the map held more than one node's worth of entries")
	mon.Need("C06", "map grew past 150 entries", 100)
	mon.Need("C06", "map grew past 1000 entries", 20)
	mon.Need("C06", "large map drained to empty", 50)
	mon.Need("C06", "overwrite of an equal but distinct key", 100)
	mon.Reg("C06", "btree-I32", 1500, 40000, func(c *mon.Case) { btreeHistory(c, kI32, kStr, false) })
	mon.Reg("C06", "btree-Item", 1200, 30000, func(c *mon.Case) { btreeHistory(c, kItem, kI32, false) })
	mon.Reg("C06", "btree-String", 800, 20000, func(c *mon.Case) { btreeHistory(c, kStr, kItem, false) })
	mon.Reg("C06", "btree-I128", 500, 15000, func(c *mon.Case) { btreeHistory(c, kI128, kU8, false) })
	mon.Reg("C06", "btree-I32-I32", 500, 15000, func(c *mon.Case) { btreeHistory(c, kI32, kI32, false) })
	mon.Reg("C06", "btree-fill-and-remove-one", 120, 400, btreeRemoveEach)
	mon.Reg("C06", "btree-short-exhaustive", 8, 9, btreeShort)

	mon.Rule("C07", "a case is one history on an ordered set, with the same phases and checks as for the ordered map; non-trivial when the set held more than one node's worth of members")
	mon.Need("C07", "set grew past 150 members", 100)
	mon.Need("C07", "large set drained to empty", 50)
	mon.Need("C07", "traversal of an empty set", 100)
	mon.Reg("C07", "set-I32", 1500, 40000, func(c *mon.Case) { btreeHistory(c, kI32, kStr, true) })
	mon.Reg("C07", "set-Item", 1000, 30000, func(c *mon.Case) { btreeHistory(c, kItem, kI32, true) })
	mon.Reg("C07", "set-String", 800, 20000, func(c *mon.Case) { btreeHistory(c, kStr, kItem, true) })
	mon.Reg("C07", "set-I128", 400, 12000, func(c *mon.Case) { btreeHistory(c, kI128, kU8, true) })
}

func checkHashMap[K, V comparable](c *mon.Case, v *gost.HashMap[K, V], m map[K]V, probe []K) {
	c.Evals(1)
	c.Check(int(v.Len()) == len(m), "Len() is %d, want %d", v.Len(), len(m))
	c.Check(bool(v.IsEmpty()) == (len(m) == 0), "IsEmpty() is %v with %d entries", v.IsEmpty(), len(m))
	for _, k := range probe {
		want, ok := m[k]
		got := v.Get(k)
		if bool(got.IsSome()) != ok || ok && got.Unwrap() != want {
			c.Fail("Get(%v) is %v, want %v (present %v)", k, got, want, ok)
		}
		c.Check(bool(v.ContainsKey(k)) == ok, "ContainsKey(%v) is %v", k, v.ContainsKey(k))
	}
}

func fullHashMap[K, V comparable](c *mon.Case, v *gost.HashMap[K, V], m map[K]V) {
	var keys []K
	var vals []V
	var ents []gost.Pair[K, V]
	for k, x := range m {
		keys = append(keys, k)
		vals = append(vals, x)
		ents = append(ents, gost.Pair[K, V]{Key: k, Value: x})
	}
	sameBag(c, "Keys()", drain(c, v.Keys(), len(m)), keys)
	sameBag(c, "Values()", drain(c, v.Values(), len(m)), vals)
	sameBag(c, "IntoIter()", drain(c, v.IntoIter(), len(m)), ents)
	var raw []gost.Pair[K, V]
	for k, x := range v.AsMap() {
		raw = append(raw, gost.Pair[K, V]{Key: k, Value: x})
	}
	sameBag(c, "AsMap()", raw, ents)
	c.Evals(4)
}

// drain takes every element of an iterator, and refuses to take many more than expected.
func drain[T any](c *mon.Case, it gost.Iterator[T], expect int) []T {
	out := make([]T, 0, expect)
	for {
		o := it.Next()
		if bool(o.IsNone()) {
			break
		}
		out = append(out, o.Unwrap())
		if len(out) > 2*expect+100 {
			c.Fail("iterator gave %d elements and goes on, %d expected", len(out), expect)
		}
	}
	wantNone(c, "Next() after the end", it.Next())
	return out
}

// someValue is a value to store under k: any, the one already there, the zero
// value, or the key itself where the types allow it.
func someValue[K, V any](r *mon.Rand, kv Kit[V], k K, old V) V {
	switch r.N(8) {
	case 0:
		return old
	case 1:
		var zero V
		return zero
	case 2:
		if x, ok := any(k).(V); ok {
			return x
		}
	case 3:
		return kv.Gen(r, 50)
	}
	return kv.Gen(r, 1000)
}

func hashMapHistory[K, V comparable](c *mon.Case, kk Kit[K], kv Kit[V]) {
	r := c.R
	d := wide(c)
	var v gost.HashMap[K, V]
	if r.Bool() {
		v = gost.HashMapNew[K, V]()
	} else {
		n := r.N(50)
		c.Op("HashMapWithCapacity", n)
		v = gost.HashMapWithCapacity[K, V](gost.USize(n))
	}
	m := map[K]V{}
	for len(m) < c.Big {
		k, x := kk.Gen(r, d), kv.Gen(r, d)
		old, had := m[k]
		wantOpt(c, "Insert", v.Insert(k, x), old, had, kv.Same)
		m[k] = x
		c.Check(int(v.Len()) == len(m), "Len() is %d after inserting %d keys", v.Len(), len(m))
	}
	if c.Big > 0 {
		c.Op("filled", c.Big)
		fullHashMap(c, &v, m)
	}
	n := steps(c)
	var recent []K
	for i := 0; i < n; i++ {
		k := kk.Gen(r, d)
		old, had := m[k]
		switch r.N(10) {
		case 0, 1, 2, 3, 4:
			x := someValue(r, kv, k, old)
			c.Op("Insert", k, x)
			wantOpt(c, "Insert", v.Insert(k, x), old, had, kv.Same)
			m[k] = x
			if had {
				c.Event("overwrite")
				c.Nontrivial()
			}
		case 5, 6, 7:
			c.Op("Remove", k)
			wantOpt(c, "Remove", v.Remove(k), old, had, kv.Same)
			delete(m, k)
			if had {
				c.Event("removal of a present key")
				c.Nontrivial()
			}
		case 8:
			if r.P(0.1) {
				c.Op("Clear")
				v.Clear()
				m = map[K]V{}
			}
		case 9:
			fullHashMap(c, &v, m)
		}
		recent = append(recent, k)
		if len(recent) > 6 {
			recent = recent[1:]
		}
		checkHashMap(c, &v, m, append(recent, kk.Gen(r, d)))
	}
	fullHashMap(c, &v, m)
	all := []K{}
	for k := range m {
		all = append(all, k)
	}
	checkHashMap(c, &v, m, all)
	if c.Big > 0 { // and empty it
		for _, k := range all {
			wantSome(c, "Remove", v.Remove(k), m[k], kv.Same)
			delete(m, k)
			c.Check(int(v.Len()) == len(m), "Len() is %d with %d keys left", v.Len(), len(m))
		}
		fullHashMap(c, &v, m)
	}
}

func fullHashSet[K comparable](c *mon.Case, v *gost.HashSet[K], m map[K]bool) {
	var keys []K
	for k := range m {
		keys = append(keys, k)
	}
	sameBag(c, "IntoIter()", drain(c, v.IntoIter(), len(m)), keys)
	sameBag(c, "AsSlice()", v.AsSlice(), keys)
	for _, k := range keys {
		c.Check(bool(v.Contains(k)), "Contains(%v) is false for a member", k)
	}
	c.Evals(2)
}

func hashSetHistory[K comparable](c *mon.Case, kk Kit[K]) {
	r := c.R
	d := wide(c)
	m := map[K]bool{}
	var v gost.HashSet[K]
	switch r.N(3) {
	case 0:
		v = gost.HashSetNew[K]()
	case 1:
		v = gost.HashSetWithCapacity[K](gost.USize(r.N(50)))
	case 2:
		var xs []K
		for i := r.N(12) + c.Big; i > 0; i-- {
			k := kk.Gen(r, d)
			xs = append(xs, k)
			m[k] = true
		}
		c.Op("HashSetFromSlice", brief(xs))
		v = gost.HashSetFromSlice(xs)
	}
	for len(m) < c.Big {
		k := kk.Gen(r, d)
		c.Check(bool(v.Insert(k)) == !m[k], "Insert(%v) is %v, but it was present: %v", k, m[k], m[k])
		m[k] = true
		c.Check(int(v.Len()) == len(m), "Len() is %d after inserting %d members", v.Len(), len(m))
	}
	if c.Big > 0 {
		c.Op("filled", len(m))
		fullHashSet(c, &v, m)
	}
	n := steps(c)
	for i := 0; i < n; i++ {
		k := kk.Gen(r, d)
		had := m[k]
		switch r.N(10) {
		case 0, 1, 2, 3, 4:
			c.Op("Insert", k)
			got := bool(v.Insert(k))
			c.Check(got == !had, "Insert(%v) is %v, but it was present: %v", k, got, had)
			m[k] = true
			if had {
				c.Event("overwrite")
				c.Nontrivial()
			}
		case 5, 6, 7:
			c.Op("Remove", k)
			got := bool(v.Remove(k))
			c.Check(got == had, "Remove(%v) is %v, but it was present: %v", k, got, had)
			delete(m, k)
			if had {
				c.Event("removal of a present key")
				c.Nontrivial()
			}
		case 8:
			if r.P(0.1) {
				c.Op("Clear")
				v.Clear()
				m = map[K]bool{}
			}
		case 9:
			fullHashSet(c, &v, m)
		}
		c.Evals(1)
		c.Check(int(v.Len()) == len(m), "Len() is %d, want %d", v.Len(), len(m))
		c.Check(bool(v.IsEmpty()) == (len(m) == 0), "IsEmpty() is %v with %d members", v.IsEmpty(), len(m))
		for _, p := range []K{k, kk.Gen(r, d)} {
			c.Check(bool(v.Contains(p)) == m[p], "Contains(%v) is %v", p, v.Contains(p))
			wantOpt(c, "Get", v.Get(p), p, m[p], kk.Same)
		}
	}
	fullHashSet(c, &v, m)
}

// ------------------------------------------------------------------ ordered

// ordered is the model: entries sorted by key.
type ordered[K, V any] struct {
	ks  []K
	vs  []V
	cmp func(a, b K) int
}

func (o *ordered[K, V]) find(k K) (int, bool) { return slices.BinarySearchFunc(o.ks, k, o.cmp) }

func (o *ordered[K, V]) insert(k K, v V) (old V, had bool) {
	i, ok := o.find(k)
	if ok { // the key already there stays
		old, o.vs[i] = o.vs[i], v
		return old, true
	}
	o.ks = slices.Insert(o.ks, i, k)
	o.vs = slices.Insert(o.vs, i, v)
	return old, false
}

func (o *ordered[K, V]) remove(k K) (old V, had bool) {
	i, ok := o.find(k)
	if !ok {
		return old, false
	}
	old = o.vs[i]
	o.ks = slices.Delete(o.ks, i, i+1)
	o.vs = slices.Delete(o.vs, i, i+1)
	return old, true
}

// tree is the subject: an ordered map, or an ordered set (values ignored).
type tree[K gost.Ord[K], V any] struct {
	set bool
	m   gost.BTreeMap[K, V]
	s   gost.BTreeSet[K]
}

func (t *tree[K, V]) length() (int, bool) {
	if t.set {
		return int(t.s.Len()), bool(t.s.IsEmpty())
	}
	return int(t.m.Len()), bool(t.m.IsEmpty())
}

func checkTree[K gost.Ord[K], V any](c *mon.Case, t *tree[K, V], o *ordered[K, V], kk Kit[K], kv Kit[V], full bool, probes ...K) {
	c.Evals(1)
	n, empty := t.length()
	c.Check(n == len(o.ks), "Len() is %d, want %d", n, len(o.ks))
	c.Check(empty == (len(o.ks) == 0), "IsEmpty() is %v with %d entries", empty, len(o.ks))
	for _, p := range probes {
		i, had := o.find(p)
		if t.set {
			c.Check(bool(t.s.Contains(p)) == had, "Contains(%v) is %v", p, t.s.Contains(p))
			continue
		}
		c.Check(bool(t.m.ContainsKey(p)) == had, "ContainsKey(%v) is %v", p, t.m.ContainsKey(p))
		var want V
		if had {
			want = o.vs[i]
		}
		got := t.m.Get(p)
		if bool(got.IsSome()) != had || had && !kv.Same(got.Unwrap(), want) {
			c.Fail("Get(%v) is %v, want %v (present %v)", p, got, want, had)
		}
	}
	if !full {
		return
	}
	c.Evals(3)
	if t.set {
		if len(o.ks) == 0 {
			c.Event("traversal of an empty set")
		}
		sameSeq(c, "IntoIter()", drain(c, t.s.IntoIter(), len(o.ks)), o.ks, kk.Same)
		for _, k := range o.ks {
			c.Check(bool(t.s.Contains(k)), "Contains(%v) is false for a member", k)
		}
		return
	}
	sameSeq(c, "Keys()", drain(c, t.m.Keys(), len(o.ks)), o.ks, kk.Same)
	sameSeq(c, "Values()", drain(c, t.m.Values(), len(o.ks)), o.vs, kv.Same)
	ents := drain(c, t.m.IntoIter(), len(o.ks))
	c.Check(len(ents) == len(o.ks), "IntoIter() gave %d entries, want %d", len(ents), len(o.ks))
	for i, e := range ents {
		c.Check(kk.Same(e.Key, o.ks[i]) && kv.Same(e.Value, o.vs[i]), "IntoIter() entry %d is %v, want %v=%v", i, e, o.ks[i], o.vs[i])
	}
	for i, k := range o.ks {
		got := t.m.Get(k)
		if bool(got.IsNone()) || !kv.Same(got.Unwrap(), o.vs[i]) {
			c.Fail("Get(%v) is %v, want %v", k, got, o.vs[i])
		}
	}
}

func (t *tree[K, V]) insert(c *mon.Case, o *ordered[K, V], k K, v V, kv Kit[V]) {
	old, had := o.insert(k, v)
	if t.set {
		got := bool(t.s.Insert(k))
		c.Check(got == !had, "Insert(%v) is %v, but it was present: %v", k, got, had)
		return
	}
	got := t.m.Insert(k, v)
	if bool(got.IsSome()) != had || had && !kv.Same(got.Unwrap(), old) {
		c.Fail("Insert(%v) returned %v, want %v (present %v)", k, got, old, had)
	}
}

func (t *tree[K, V]) remove(c *mon.Case, o *ordered[K, V], k K, kv Kit[V]) {
	old, had := o.remove(k)
	if t.set {
		got := bool(t.s.Remove(k))
		c.Check(got == had, "Remove(%v) is %v, but it was present: %v", k, got, had)
		return
	}
	got := t.m.Remove(k)
	if bool(got.IsSome()) != had || had && !kv.Same(got.Unwrap(), old) {
		c.Fail("Remove(%v) returned %v, want %v (present %v)", k, got, old, had)
	}
}

func btreeHistory[K gost.Ord[K], V any](c *mon.Case, kk Kit[K], kv Kit[V], set bool) {
	r := c.R
	t := &tree[K, V]{set: set, m: gost.BTreeMapNew[K, V](), s: gost.BTreeSetNew[K]()}
	o := &ordered[K, V]{cmp: kk.Cmp}
	d := mon.Pick(r, 3, 12, 25, 60, 200, 600, 3000)
	if r.P(0.2) {
		d = 1 << r.In(2, 12)
	}
	most := 3000
	if c.Big > 0 {
		d = 3 * c.Big
		most = d
	}
	// All keys there are, in order, for the monotone orders.
	var line []K
	for i := 0; i < 3*d && len(line) < most; i++ {
		k := kk.Gen(r, d)
		if j, ok := slices.BinarySearchFunc(line, k, kk.Cmp); !ok {
			line = slices.Insert(line, j, k)
		}
	}
	what := "map"
	member := "entries"
	if set {
		what, member = "set", "members"
	}
	name := what + " grew past 150 " + member
	name1000 := what + " grew past 1000 " + member
	drained := "large " + what + " drained to empty"
	big, peak, distinctKey := false, 0, 0
	phases := r.In(1, 5)
	budget := mon.Pick(r, 40, 200, 800, 3000)
	if c.Tier == "thorough" && r.P(0.1) {
		budget = 12000
	}
	checkTree(c, t, o, kk, kv, true)
	if c.Big > 0 { // many entries to begin with
		budget = c.Big
		up := mon.Pick(r, 0, 1, 2)
		c.Op("fill", up)
		n := min(c.Big, len(line))
		mix := slices.Clone(line)
		mon.Shuffle(r, mix)
		for i := 0; i < n; i++ {
			k := mix[i]
			if up == 1 {
				k = line[i]
			} else if up == 2 {
				k = line[len(line)-1-i]
			}
			t.insert(c, o, k, kv.Gen(r, 1000), kv)
		}
		checkTree(c, t, o, kk, kv, true)
		peak = len(o.ks)
	}
	for ph := 0; ph < phases; ph++ {
		kind := mon.Pick(r, "grow", "grow", "shrink", "churn", "drain", "clear")
		if ph == 0 {
			kind = "grow"
		}
		order := mon.Pick(r, "random", "asc", "desc", "hot", "ends")
		n := r.In(1, budget)
		if kind == "drain" {
			n = len(o.ks)
		}
		if kind == "clear" {
			if r.P(0.7) {
				continue
			}
			n = 0
			c.Op("Clear")
			if set {
				t.s.Clear()
			} else {
				t.m.Clear()
			}
			o.ks, o.vs = nil, nil
			checkTree(c, t, o, kk, kv, true)
		}
		c.Op(kind, order, n)
		pos := r.N(len(line))
		often := mon.Pick(r, 3, 10, 40)
		if c.Big > 1000 {
			often = min(often, 8)
		}
		every := 1 + n/often
		for i := 0; i < n; i++ {
			var k K
			switch order {
			case "random":
				k = kk.Gen(r, d)
			case "asc":
				k = line[pos%len(line)]
				pos++
			case "desc":
				k = line[(len(line)-1)-pos%len(line)]
				pos++
			case "hot":
				k = line[(pos+r.N(1+min(20, len(line)/2)))%len(line)]
				if r.P(0.02) {
					pos = r.N(len(line))
				}
			case "ends":
				k = line[0]
				if len(o.ks) > 0 {
					k = o.ks[0]
					if r.Bool() {
						k = o.ks[len(o.ks)-1]
					}
				}
				if r.Bool() {
					k = line[r.N(len(line))]
				}
			}
			ins := false
			switch kind {
			case "grow":
				ins = r.P(0.95)
			case "shrink":
				ins = r.P(0.15)
			case "churn":
				ins = r.Bool()
			case "drain":
				switch order {
				case "asc":
					k = o.ks[0]
				case "desc":
					k = o.ks[len(o.ks)-1]
				default:
					k = o.ks[r.N(len(o.ks))]
				}
			}
			if ins {
				var old V
				if j, ok := o.find(k); ok {
					old = o.vs[j]
					if !kk.Same(o.ks[j], k) {
						distinctKey++
					}
				}
				v := someValue(r, kv, k, old)
				c.Op("Insert", kk.Str(k))
				t.insert(c, o, k, v, kv)
			} else {
				c.Op("Remove", kk.Str(k))
				t.remove(c, o, k, kv)
			}
			peak = max(peak, len(o.ks))
			checkTree(c, t, o, kk, kv, i%every == every-1 || len(o.ks) < 30 && r.P(0.3), k, kk.Gen(r, d))
		}
		if len(o.ks) > 150 {
			big = true
		}
		checkTree(c, t, o, kk, kv, true)
		if len(o.ks) == 0 && big {
			c.Event(drained)
			big = false
		}
	}
	if peak > 11 {
		c.Nontrivial()
	}
	if peak > 150 {
		c.Event(name)
	}
	if peak > 1000 {
		c.Event(name1000)
	}
	if !set {
		c.EventN("overwrite of an equal but distinct key", distinctKey)
	}
}

// btreeRemoveEach: for one size, build the map in several orders and remove
// each key in turn from a fresh copy, then drain the rest.
func btreeRemoveEach(c *mon.Case) {
	n := c.Index + 1
	c.Op("size", n)
	if n > 11 {
		c.Nontrivial()
	}
	orders := map[string][]int{}
	asc := make([]int, n)
	for i := range asc {
		asc[i] = i
	}
	desc := slices.Clone(asc)
	slices.Reverse(desc)
	mixed := slices.Clone(asc)
	mon.Shuffle(c.R, mixed)
	inout := make([]int, 0, n)
	for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
		inout = append(inout, i)
		if i != j {
			inout = append(inout, j)
		}
	}
	orders["asc"], orders["desc"], orders["mixed"], orders["inout"] = asc, desc, mixed, inout
	done := 0
	for _, name := range []string{"asc", "desc", "mixed", "inout"} {
		step := 1 + n/60
		for at := c.R.N(step); at < n; at += step {
			t := &tree[gost.I32, gost.I32]{m: gost.BTreeMapNew[gost.I32, gost.I32]()}
			o := &ordered[gost.I32, gost.I32]{cmp: kI32.Cmp}
			for _, x := range orders[name] {
				t.insert(c, o, gost.I32(x), gost.I32(x*3), kI32)
			}
			t.remove(c, o, gost.I32(at), kI32)
			checkTree(c, t, o, kI32, kI32, true, gost.I32(at))
			// drain in alternating directions
			for i := 0; len(o.ks) > 0; i++ {
				k := o.ks[0]
				switch (at + i/7) % 3 {
				case 1:
					k = o.ks[len(o.ks)-1]
				case 2:
					k = o.ks[len(o.ks)/2]
				}
				t.remove(c, o, k, kI32)
				if i%16 == 0 {
					checkTree(c, t, o, kI32, kI32, true)
				}
			}
			checkTree(c, t, o, kI32, kI32, true)
			done++
		}
	}
	c.Enumerated(done)
}

// btreeShort enumerates every permutation of up to n keys as insertion order
// and every single removal after it.
func btreeShort(c *mon.Case) {
	n := c.Index + 1
	if n > 7 && c.Tier != "thorough" {
		n = 7
	}
	c.Op("keys", n)
	c.Nontrivial()
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	done := 0
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			for rm := -1; rm <= n; rm++ {
				if rm > 0 && n > 6 && rm%3 != 0 {
					continue
				}
				t := &tree[gost.I32, gost.I32]{m: gost.BTreeMapNew[gost.I32, gost.I32]()}
				o := &ordered[gost.I32, gost.I32]{cmp: kI32.Cmp}
				for _, x := range perm {
					t.insert(c, o, gost.I32(x), gost.I32(x), kI32)
				}
				t.remove(c, o, gost.I32(rm), kI32)
				checkTree(c, t, o, kI32, kI32, true, gost.I32(rm))
				done++
			}
			return
		}
		for j := i; j < n; j++ {
			perm[i], perm[j] = perm[j], perm[i]
			rec(i + 1)
			perm[i], perm[j] = perm[j], perm[i]
		}
	}
	rec(0)
	c.Enumerated(done)
}
