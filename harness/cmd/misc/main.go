// Command misc monitors options, results, control flow, assertions, text,
// formatting and durations (O01..O04, S01, S02, F01, T01).
package main

import "gostverif/mon"

func main() { mon.Main() }
