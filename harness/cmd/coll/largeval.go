//go:build vals

package main

import (
	"strconv"
	"strings"

	"github.com/myyrakle/gost"
	"gostverif/mon"
)

func init() {
	n := leaf("I32", 20000, func(n, _ int) gost.I32 { return gost.I32(n*7 - 200) }, func(n, _ int) string { return strconv.Itoa(n*7 - 200) }, false)
	s := leaf("String", 20000, func(n, _ int) gost.String { return gost.String("k" + strconv.Itoa(n)) }, func(n, _ int) string { return "k" + strconv.Itoa(n) }, false)
	largeValue(vecVal(n))
	largeValue(vecVal(vItem))
	largeValue(vecVal(vecVal(n)))
	largeValue(vecVal(pairVal(n, s)))
	largeValue(dequeVal(n))
	largeValue(dequeVal(vecVal(n)))
	largeValue(listVal(n))
	largeValue(listVal(vecVal(n)))
	largeValue(hashMapVal(n, s))
	largeValue(hashMapVal(s, vecVal(n)))
	largeValue(hashSetVal(n))
	largeValue(treeSetVal(n))
	largeValue(treeMapVal(n, s))
	largeValue(treeMapVal(n, dequeVal(n)))
}

// largeValue registers the clone, equality and rendering of large values.
func largeValue[T any](t Val[T]) {
	v := erase(t)
	most, disp := 1<<20, 1<<20
	nested := strings.Count(v.name, "[") > 1
	if nested {
		most, disp = 260, 260
	}
	if strings.Contains(v.name, "Hash") && !nested {
		most, disp = 2100, 520
	}
	if v.cloneable {
		large("C11", v.name, 120, 900, min(most, 5000), func(c *mon.Case) { cloneCase(c, v) })
		large("C11", "fill-"+v.name, 60, 300, min(most, 1100), func(c *mon.Case) { fillCase(c, v) })
	}
	if v.eqAble {
		large("C12", v.name, 160, 1500, most, func(c *mon.Case) { eqCase(c, v) })
	}
	large("C13", v.name, 60, 600, min(disp, 5000), func(c *mon.Case) { dispCase(c, v) })
}
