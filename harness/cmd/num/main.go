// Monitors for the numeric types (properties A01 to A09).
package main

import "gostverif/mon"

func main() { mon.Main() }
