package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"

	. "gostverif/fsmon"
	"gostverif/mon"
)

func init() {
	mon.RegSerial("P02", "side-by-side", 36, 400, beside)
	mon.Need("P02", "calls side by side", 1000)
	mon.Need("P02", "large call among others", 300)
}

// beside runs calls of several threads at once, small and large, some of them
// refused, and looks afterwards at what is held and at the settings: a call
// that changes one for its duration and puts back what it found leaves another
// call's value behind, depending on who ends first.
func beside(c *mon.Case) {
	Unprivileged()
	d := Scratch(c)
	defer Remove(c, d)
	feed, done := input()
	defer done()
	n := c.R.In(2, 8)
	rounds := c.R.In(4, 16)
	c.Op("side by side", n, rounds)
	lists := make([][]call, n)
	for t := range lists {
		dir := filepath.Join(d, fmt.Sprint(t))
		Must(os.Mkdir(dir, 0o755))
		lists[t] = append(calls(dir, feed), largeCalls(dir)...)
	}
	before := current()
	threads := runtime.NumGoroutine()
	var g mon.Group
	seeds := make([]uint64, n)
	for t := range seeds {
		seeds[t] = c.R.U64()
	}
	large := make([]int, n)
	for t := range lists {
		t := t
		g.Go(func() {
			r := mon.NewRand(seeds[t])
			for i := 0; i < rounds; i++ {
				f := mon.Pick(r, lists[t]...)
				if r.P(0.4) {
					k := len(lists[t]) - 1 - r.N(5)
					f = lists[t][k]
					large[t]++
				}
				f.run(i)
			}
		})
	}
	g.Wait()
	c.EventN("calls side by side", n*rounds)
	for _, k := range large {
		c.EventN("large call among others", k)
	}
	now := eventually(threads, 20*time.Second)
	c.Evals(3)
	c.Check(now <= threads, "%d calls in each of %d threads left %d threads running", rounds, n, now-threads)
	left := held(d)
	c.Check(len(left) == 0, "%d calls in each of %d threads left a %s", rounds, n, strings.Join(left, ", "))
	sameSettings(c, before, fmt.Sprintf("%d calls in each of %d threads at once", rounds, n))
	c.Nontrivial()
}

// largeCalls are the last five of a list.
func largeCalls(d string) []call {
	file := gost.String(filepath.Join(d, "large"))
	other := gost.String(filepath.Join(d, "large2"))
	data := BytesOf([]byte(strings.Repeat("0123456789abcdef", 1<<16)))
	size := func(i int) int { return 1<<12 + (i*2654435761)%(len(data)-1<<12) }
	gost.Write(file, data)
	return []call{
		{"large Write", func(i int) { gost.Write(other, data[:size(i)]) }},
		{"large Read", func(i int) { gost.Read(file); gost.ReadToString(file) }},
		{"large Copy", func(i int) { gost.Copy(file, other) }},
		{"large awaited Write", func(i int) { gokio.Write(other, data[:size(i)]).Await(); gokio.Read(file).Await() }},
		{"large text and collections", func(i int) {
			v := gost.VecNew[gost.I32]()
			h := gost.HashMapNew[gost.I32, gost.I32]()
			b := gost.BTreeMapNew[gost.I32, gost.I32]()
			q := gost.VecDequeNew[gost.I32]()
			for k := 0; k < 2000; k++ {
				x := gost.I32((k * 7919) % 2003)
				v.Push(x)
				h.Insert(x, x)
				b.Insert(x, x)
				q.PushFront(x)
			}
			v.Sort()
			v.SortUnstable()
			v.Clone().Display()
			h.Display()
			b.Display()
			q.Sort()
			s := gost.String(strings.Repeat("text é ", 3000))
			s.ToUppercase()
			s.Replace("text", "t")
			s.Chars()
			s.Split(" ")
			gost.Format(s[:6000]+"{}", s)
		}},
	}
}
