//go:build !vals

package main

import (
	"github.com/myyrakle/gost"
	"gostverif/mon"
)

func init() {
	const any = 1 << 20
	large("C01", "vec-I32", 250, 9000, any, func(c *mon.Case) { vecHistory(c, kI32) })
	large("C01", "vec-Item", 250, 6000, any, func(c *mon.Case) { vecHistory(c, kItem) })
	large("C02", "sort-Item", 250, 9000, any, func(c *mon.Case) { sortCase(c, kItem) })
	large("C02", "sort-I32", 250, 9000, any, func(c *mon.Case) { sortCase(c, kI32) })
	large("C02", "search-Item", 250, 9000, any, func(c *mon.Case) { searchCase(c, kItem) })
	large("C02", "dedup-Item", 250, 9000, any, func(c *mon.Case) { dedupCase(c, kItem) })
	large("C03", "deque-I32", 250, 9000, any, func(c *mon.Case) { dequeHistory(c, kI32) })
	large("C03", "deque-Item", 250, 6000, any, func(c *mon.Case) { dequeHistory(c, kItem) })
	large("C04", "list-I32", 250, 6000, 5000, func(c *mon.Case) { listHistory(c, kI32) })
	large("C05", "map-I32-I32", 250, 9000, any, func(c *mon.Case) { hashMapHistory(c, kI32, kI32) })
	large("C05", "map-Item-Item", 250, 3000, any, func(c *mon.Case) { hashMapHistory(c, kItem, kItem) })
	large("C05", "set-I32", 250, 9000, any, func(c *mon.Case) { hashSetHistory(c, kI32) })
	large("C06", "btree-I32", 60, 600, any, func(c *mon.Case) { btreeHistory(c, kI32, kI32, false) })
	large("C07", "btree-I32", 60, 600, any, func(c *mon.Case) { btreeHistory(c, kI32, kI32, true) })
	large("C08", "hash-I32", 200, 4500, any, func(c *mon.Case) { algebraRandom(c, kI32, hashOps[gost.I32]()) })
	large("C08", "btree-I32", 200, 4500, any, func(c *mon.Case) { algebraRandom(c, kI32, treeOps[gost.I32]()) })
	large("C09", "heap-I32", 200, 3000, 5000, func(c *mon.Case) { heapHistory(c, kI32) })
	large("C09", "heap-Item", 200, 2400, 5000, func(c *mon.Case) { heapHistory(c, kItem) })
	large("C10", "vec", 200, 3000, 5000, func(c *mon.Case) { seqIter(c, kI32, 0, kI32iter) })
	large("C10", "deque", 200, 3000, 5000, func(c *mon.Case) { seqIter(c, kI32, 1, kI32iter) })
	large("C10", "list", 200, 3000, 5000, func(c *mon.Case) { seqIter(c, kI32, 2, kI32iter) })
	large("C10", "hash-map", 200, 2400, 2100, hashMapIter)
	large("C10", "hash-set", 200, 2400, 2100, hashSetIter)
	large("C10", "btree-map", 200, 2400, 5000, btreeMapIter)
	large("C10", "btree-set", 200, 2400, 5000, btreeSetIter)
}
