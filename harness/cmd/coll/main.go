// Command coll monitors the collections (C01..C13) against ideal models.
package main

import "gostverif/mon"

func main() { mon.Main() }
