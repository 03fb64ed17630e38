package main

import (
	. "gostverif/fsmon"
	"gostverif/mon"
)

func init() {
	const rule = "a case is one history of operations; non-trivial when at least four operations succeeded and one was refused (or, in single-purpose monitors, when its fault or content was really presented)"
	mon.Rule("D01", rule)
	mon.Rule("D02", rule)
	mon.Reg("D01", "contents-history", 3000, 60000, func(c *mon.Case) { HistoryOf(c, Direct, true) })
	mon.Reg("D02", "tree-history", 5000, 100000, func(c *mon.Case) { HistoryOf(c, Direct, false) })
	mon.RegSerial("D01", "relative-contents-history", 500, 8000, func(c *mon.Case) { RelativeHistoryOf(c, Direct, true) })
	mon.RegSerial("D02", "relative-tree-history", 700, 12000, func(c *mon.Case) { RelativeHistoryOf(c, Direct, false) })
	for _, id := range []string{"D01", "D02"} {
		mon.Need(id, "history of relative paths, from inside", 50)
		mon.Need(id, "history of relative paths, from outside", 50)
		mon.Need(id, "path that ends in a slash or dots", 200)
	}
	for _, k := range []string{"ok:Write", "refused:Write", "ok:Read", "refused:Read", "ok:ReadToString", "refused:ReadToString", "ok:Copy", "refused:Copy", "copied over an existing file", "read an empty file"} {
		mon.Need("D01", k, 20)
	}
	for _, k := range []string{"ok:CreateDir", "refused:CreateDir", "ok:RemoveDir", "refused:RemoveDir", "ok:RemoveFile", "refused:RemoveFile", "ok:Rename", "refused:Rename", "ok:ReadDir", "refused:ReadDir", "listed a symlink", "listed a directory", "listed a file", "listed a special file", "listed an empty directory"} {
		mon.Need("D02", k, 20)
	}
}
