package main

import "gostverif/mon"

// bigSize is near one of the sizes at which implementations change their ways.
func bigSize(c *mon.Case) int {
	r := c.R
	n := mon.Pick(r, 100, 128, 200, 256, 300, 500, 512, 1000, 1024, 2000, 2048, 4096)
	if r.P(0.12) {
		n = mon.Pick(r, 5000, 8192, 10000, 16384)
	}
	if c.Tier == "thorough" && r.P(0.01) {
		n = mon.Pick(r, 32768, 50000, 65536)
	}
	return n + r.In(-3, 6)
}

// large registers a monitor whose cases work on collections of hundreds to
// tens of thousands of elements (at most the given number).
func large(id, name string, quick, thorough, most int, run func(c *mon.Case)) {
	mon.Need(id, "large collection", 50)
	mon.Reg(id, "large-"+name, quick, thorough, func(c *mon.Case) {
		c.Big = bigSize(c)
		for c.Big > most {
			c.Big = bigSize(c)
		}
		c.Op("large", c.Big)
		c.Event("large collection")
		run(c)
	})
}
