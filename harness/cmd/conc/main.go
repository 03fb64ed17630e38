// Command conc monitors locks, threads, asynchronous tasks, concurrent reading,
// console input and output, and sleeping (M01..M04, F02, T02). It is built with
// the race detector.
package main

import (
	"os"
	"runtime"
	"time"

	"gostverif/mon"
)

func main() {
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "print-child":
			printChild(os.Args[2])
			return
		case "read-child":
			readChild(os.Args[2])
			return
		}
	}
	mon.Main()
}

// reg registers a monitor twice: with its cases side by side on all
// processors, and alone on one, two or three.
func reg(id, name string, quick, thorough int, run func(c *mon.Case)) {
	mon.Reg(id, name, quick, thorough, run)
	mon.RegSerial(id, name+"/few-processors", max(quick/16, 8), max(thorough/16, 8), func(c *mon.Case) {
		procs := mon.Pick(c.R, 1, 1, 2, 3)
		c.Op("processors", procs)
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
		run(c)
	})
}

// jitter is a private source of delays for one goroutine: a schedule disturber.
type jitter struct {
	r    *mon.Rand
	kind int
	spin int
}

func newJitter(seed uint64, kind int) *jitter { return &jitter{r: mon.NewRand(seed), kind: kind} }

// here may let other goroutines run at this point.
func (j *jitter) here() {
	switch j.kind {
	case 0:
	case 1:
		if j.r.N(3) == 0 {
			runtime.Gosched()
		}
	case 2:
		if j.r.N(8) == 0 {
			time.Sleep(time.Duration(j.r.N(30)) * time.Microsecond)
		} else if j.r.N(2) == 0 {
			runtime.Gosched()
		}
	case 3:
		n := j.r.N(200)
		for i := 0; i < n; i++ {
			j.spin++
		}
	}
}
