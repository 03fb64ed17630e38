// Package mon is the monitoring framework: it runs the real library under
// generated workloads, case by case, while each case's oracle watches for a
// violation, and records what was actually observed.
package mon

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Monitor is one workload with its oracle.
type Monitor struct {
	Name     string
	Quick    int  // cases in the quick tier
	Thorough int  // cases in the thorough tier
	Serial   bool // one case at a time (the case itself uses the machine)
	Run      func(c *Case)
}

type property struct {
	id       string
	rule     string
	monitors []*Monitor
	needs    map[string]int
}

var props = map[string]*property{}

func prop(id string) *property {
	p := props[id]
	if p == nil {
		p = &property{id: id, needs: map[string]int{}}
		props[id] = p
	}
	return p
}

// Rule describes how cases of the property are made and what makes one non-trivial.
func Rule(id, text string) { prop(id).rule = text }

// Need states that a run is only conclusive when the named event was seen at least n times.
func Need(id, event string, n int) { prop(id).needs[event] = n }

// Reg adds a monitor to a property.
func Reg(id, name string, quick, thorough int, run func(c *Case)) *Monitor {
	m := &Monitor{Name: name, Quick: quick, Thorough: thorough, Run: run}
	p := prop(id)
	p.monitors = append(p.monitors, m)
	return m
}

// RegSerial adds a monitor whose cases run alone.
func RegSerial(id, name string, quick, thorough int, run func(c *Case)) {
	Reg(id, name, quick, thorough, run).Serial = true
}

// depth multiplies the case counts of a property's random monitors, in the
// quick and in the thorough tier, to use the time the tier has.
var depth = map[string][2]int{
	"A01": {6, 10}, "A02": {8, 12}, "A03": {8, 12}, "A04": {8, 12}, "A05": {3, 6}, "A06": {10, 10}, "A07": {6, 10}, "A08": {6, 10}, "A09": {40, 60},
	"C01": {30, 60}, "C02": {8, 12}, "C03": {30, 60}, "C04": {30, 60}, "C05": {10, 20}, "C08": {20, 25}, "C09": {15, 25}, "C10": {15, 20},
	"C11": {8, 10}, "C12": {8, 10}, "C13": {20, 20},
	"O01": {20, 30}, "O02": {15, 20}, "O03": {50, 60}, "O04": {40, 50}, "S01": {40, 60}, "S02": {40, 60}, "F01": {40, 60}, "T01": {8, 10},
	"M01": {4, 3}, "M02": {5, 4}, "M03": {2, 2}, "M04": {2, 2},
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// distinctCap bounds the memory the count of distinct cases takes; a worker
// that reaches it counts no further ones.
const distinctCap = 3 << 20

type violation struct{ msg string }

type worker struct {
	slot      int
	evals     int64
	enum      int64
	events    map[string]int64
	distinct  map[uint64]struct{}
	known     map[string]string
	longest   time.Duration // of the cases run
	longestOf string
	startT    atomic.Int64 // watchdog tick at case start, 0 when idle
	cur       atomic.Pointer[Case]
}

// Case is one execution: its random source, what it did, and its verdict.
type Case struct {
	Prop, Monitor string
	Index         int
	Tier          string
	R             *Rand
	Dir           string // scratch directory root of the run
	Big           int    // size of the large structures of this case, 0 for small ones
	w             *worker
	m             *Monitor
	tracing       bool
	trace         []string
	h             uint64
	nontrivial    bool
	opCount       int
	mu            sync.Mutex
}

// Fail ends the case with a violation.
func (c *Case) Fail(format string, args ...any) {
	panic(violation{fmt.Sprintf(format, args...)})
}

// Check fails the case when ok is false.
func (c *Case) Check(ok bool, format string, args ...any) {
	if !ok {
		panic(violation{fmt.Sprintf(format, args...)})
	}
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	return h ^ (h >> 32)
}

func hashStr(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Op records one observed step of the case (for the distinct-case count, and
// in full in the trace when the case is replayed or sampled).
func (c *Case) Op(name string, args ...any) {
	c.opCount++
	h := mix(c.h, hashStr(name))
	for _, a := range args {
		switch x := a.(type) {
		case int:
			h = mix(h, uint64(x))
		case uint64:
			h = mix(h, x)
		case int64:
			h = mix(h, uint64(x))
		case string:
			h = mix(h, hashStr(x))
		case bool:
			if x {
				h = mix(h, 1)
			} else {
				h = mix(h, 2)
			}
		case float64:
			h = mix(h, uint64(int64(x*1e6)))
		default:
			h = mix(h, hashStr(fmt.Sprint(x)))
		}
	}
	c.h = h
	if c.tracing && len(c.trace) < 20000 {
		if len(args) == 0 {
			c.trace = append(c.trace, name)
		} else {
			s := fmt.Sprint(args...)
			if len(args) > 1 {
				parts := make([]string, len(args))
				for i, a := range args {
					parts[i] = fmt.Sprint(a)
				}
				s = strings.Join(parts, ",")
			}
			c.trace = append(c.trace, name+"("+s+")")
		}
	}
}

// Tracing reports whether the full trace of this case is being kept.
func (c *Case) Tracing() bool { return c.tracing }

// Nontrivial marks the case as non-trivial by the property's rule.
func (c *Case) Nontrivial() { c.nontrivial = true }

// Evals counts n oracle evaluations.
func (c *Case) Evals(n int) { c.w.evals += int64(n) }

// Enumerated counts n distinct evaluations that are distinct by construction.
func (c *Case) Enumerated(n int) { c.w.enum += int64(n) }

// Event counts an observed event.
func (c *Case) Event(name string) { c.w.events[name]++ }

// EventN counts n observed events.
func (c *Case) EventN(name string, n int) { c.w.events[name] += int64(n) }

// State records a distinct observed state (an interleaving, an outcome).
func (c *Case) State(h uint64) {
	if len(c.w.distinct) < distinctCap {
		c.w.distinct[mix(h, hashStr(c.Monitor))] = struct{}{}
	}
}

// Known reports a deviation that may be listed as a known finding: listed, it
// is recorded and the case goes on; unlisted, it is a violation.
func (c *Case) Known(key, what string) {
	if _, ok := knownFindings[c.Prop+" "+key]; ok {
		if _, seen := c.w.known[key]; !seen {
			c.w.known[key] = what
		}
		return
	}
	c.Fail("%s [%s]", what, key)
}

// ---------------------------------------------------------------- results

type Violation struct {
	Monitor string   `json:"monitor"`
	Case    int      `json:"case"`
	Seed    uint64   `json:"seed"`
	Message string   `json:"message"`
	Trace   []string `json:"trace,omitempty"`
	Stack   string   `json:"stack,omitempty"`
}

type result struct {
	Property   string            `json:"property"`
	Tier       string            `json:"tier"`
	Seed       uint64            `json:"seed"`
	Rule       string            `json:"rule"`
	Evals      int64             `json:"evaluations"`
	Distinct   int64             `json:"distinct"`
	Enumerated int64             `json:"enumerated"`
	Events     map[string]int64  `json:"events"`
	Monitors   map[string]any    `json:"monitors"`
	Samples    []string          `json:"samples"`
	Violations []Violation       `json:"violations"`
	Known      map[string]string `json:"known"`
	Missing    []string          `json:"missing"`
	Longest    string            `json:"longest_case"`
}

var (
	knownFindings = map[string]string{}
	resultPath    string
	journal       *os.File
	seed          uint64
	ticks         atomic.Int64
	resMu         sync.Mutex
	res           result
)

func caseSeed(prop, mon string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, prop, mon, i)
	x := h.Sum64()
	return splitmix(&x)
}

func writeResult() {
	b, err := json.Marshal(&res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(resultPath, b, 0o644); err != nil {
		panic(err)
	}
}

const hangTicks = 450 // 90 s of watchdog time (200 ms ticks)
const heapLimit = 6 << 30

// runCase executes one case and returns a violation, if any.
func runCase(w *worker, p *property, m *Monitor, i int, tracing bool, scratch string) (v *Violation, c *Case) {
	c = &Case{Prop: p.id, Monitor: m.Name, Index: i, Tier: res.Tier, R: NewRand(caseSeed(p.id, m.Name, i)), w: w, m: m, tracing: tracing, Dir: scratch, h: hashStr(m.Name)}
	if journal != nil {
		line := fmt.Sprintf("%-40s %12d\n", m.Name, i)
		journal.WriteAt([]byte(line), int64(w.slot*len(line)))
	}
	w.cur.Store(c)
	w.startT.Store(ticks.Load() + 1)
	defer w.startT.Store(0)
	defer func() {
		if r := recover(); r != nil {
			v = &Violation{Monitor: m.Name, Case: i, Seed: seed}
			if x, ok := r.(violation); ok {
				v.Message = x.msg
			} else {
				v.Message = fmt.Sprintf("unexpected panic: %v", r)
				v.Stack = string(debug.Stack())
			}
			v.Trace = c.trace
		}
	}()
	begun := time.Now()
	m.Run(c)
	if d := time.Since(begun); d > w.longest {
		w.longest, w.longestOf = d, fmt.Sprintf("%s %d", m.Name, i)
	}
	return nil, c
}

func isolate(f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	<-done
}

func watchdog(ws []*worker) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		t := ticks.Add(1)
		metrics.Read(sample)
		heap := sample[0].Value.Uint64()
		var oldest *worker
		var oldT int64
		for _, w := range ws {
			s := w.startT.Load()
			if s != 0 && (oldest == nil || s < oldT) {
				oldest, oldT = w, s
			}
		}
		if oldest == nil {
			continue
		}
		msg := ""
		if t-oldT > hangTicks {
			msg = fmt.Sprintf("did not terminate: case still running after %d s", (t-oldT)/5)
		} else if heap > heapLimit {
			msg = fmt.Sprintf("unbounded memory use: heap at %d MB", heap>>20)
		}
		if msg == "" {
			continue
		}
		c := oldest.cur.Load()
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		resMu.Lock()
		res.Violations = append(res.Violations, Violation{Monitor: c.Monitor, Case: c.Index, Seed: seed, Message: msg, Stack: string(buf[:n])})
		writeResult()
		os.Exit(3)
	}
}

// Main is the entry point of a worker binary.
func Main() {
	var id, tier, only, known, scratch string
	var caseNo int
	var scale float64
	flag.StringVar(&id, "prop", "", "property")
	flag.StringVar(&tier, "tier", "quick", "quick or thorough")
	flag.Uint64Var(&seed, "seed", 1, "seed")
	flag.StringVar(&resultPath, "out", "", "result file")
	flag.StringVar(&only, "monitor", "", "run only this monitor")
	flag.IntVar(&caseNo, "case", -1, "run only this case")
	flag.StringVar(&known, "known", "", "known-findings file")
	flag.StringVar(&scratch, "scratch", "", "scratch directory")
	flag.Float64Var(&scale, "scale", 1, "multiplies case counts")
	jpath := flag.String("journal", "", "journal file")
	list := flag.Bool("list", false, "list monitors")
	flag.Parse()
	if *list {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			for _, m := range props[k].monitors {
				fmt.Println(k, m.Name, m.Quick, m.Thorough)
			}
		}
		return
	}
	debug.SetMaxStack(128 << 20)
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		os.Exit(4)
	}
	loadKnown(known)
	if *jpath != "" {
		var err error
		if journal, err = os.Create(*jpath); err != nil {
			panic(err)
		}
	}
	nw := runtime.NumCPU()
	ws := make([]*worker, nw)
	for i := range ws {
		ws[i] = &worker{slot: i, events: map[string]int64{}, distinct: map[uint64]struct{}{}, known: map[string]string{}}
	}
	res = result{Property: id, Tier: tier, Seed: seed, Rule: p.rule, Events: map[string]int64{}, Monitors: map[string]any{}, Known: map[string]string{}, Violations: []Violation{}, Missing: []string{}}
	go watchdog(ws)

	if caseNo >= 0 {
		for _, m := range p.monitors {
			if m.Name == only {
				isolate(func() {
					v, c := runCase(ws[0], p, m, caseNo, true, scratch)
					fmt.Println("trace:")
					for _, s := range c.traceOf(v) {
						fmt.Println("  " + s)
					}
					if v != nil {
						fmt.Println("violation:", v.Message)
						fmt.Println(v.Stack)
						res.Violations = append(res.Violations, *v)
					} else {
						fmt.Println("no violation in this case")
					}
				})
				resMu.Lock()
				if resultPath != "" {
					writeResult()
				}
				return
			}
		}
		fmt.Fprintln(os.Stderr, "no such monitor:", only)
		os.Exit(4)
	}

	for _, m := range p.monitors {
		if only != "" && m.Name != only {
			continue
		}
		n := m.Quick
		if tier == "thorough" {
			n = m.Thorough
		}
		// Enumerating monitors take their case's number for their input, and
		// have at most 256 cases.
		if d, ok := depth[id]; ok && m.Quick > 256 {
			n *= d[b2i(tier == "thorough")]
		}
		n = int(float64(n) * scale)
		if n < 1 {
			n = 1
		}
		var before, after int64
		for _, w := range ws {
			before += w.evals
		}
		start := time.Now()
		var next, bad, ran atomic.Int64
		k := nw
		if m.Serial {
			k = 1
		}
		var wg sync.WaitGroup
		for _, w := range ws[:k] {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(next.Add(1)) - 1
					if i >= n || bad.Load() >= 2 {
						return
					}
					var v *Violation
					var c *Case
					// A case has its own goroutine, so that Goexit or a locked
					// thread in it cannot end the worker.
					isolate(func() { v, c = runCase(w, p, m, i, i < 2, scratch) })
					ran.Add(1)
					if c == nil {
						v = &Violation{Monitor: m.Name, Case: i, Seed: seed, Message: "the case ended its goroutine"}
					}
					if v == nil {
						if c.nontrivial {
							if len(w.distinct) < distinctCap {
								w.distinct[c.h] = struct{}{}
							}
						}
						if i < 2 && len(c.trace) > 0 {
							s := m.Name + ": " + strings.Join(c.trace, " ")
							if len(s) > 700 {
								s = s[:700] + "..."
							}
							resMu.Lock()
							if len(res.Samples) < 24 {
								res.Samples = append(res.Samples, s)
							}
							resMu.Unlock()
						}
						continue
					}
					bad.Add(1)
					if !m.Serial && i >= 2 { // run it again to record the trace
						var v2 *Violation
						isolate(func() { v2, _ = runCase(w, p, m, i, true, scratch) })
						if v2 != nil {
							v = v2
						}
					}
					resMu.Lock()
					res.Violations = append(res.Violations, *v)
					resMu.Unlock()
				}
			}()
		}
		wg.Wait()
		for _, w := range ws {
			after += w.evals
		}
		if after == before && bad.Load() == 0 {
			res.Missing = append(res.Missing, "monitor "+m.Name+" evaluated nothing")
		}
		res.Monitors[m.Name] = map[string]any{"cases": ran.Load(), "evaluations": after - before, "wall_s": float64(int(time.Since(start).Seconds()*1000)) / 1000}
	}
	resMu.Lock()
	all := map[uint64]struct{}{}
	longest := time.Duration(0)
	for _, w := range ws {
		res.Evals += w.evals
		if w.longest > longest {
			longest = w.longest
			res.Longest = fmt.Sprintf("%s: %.1f s", w.longestOf, longest.Seconds())
		}
		res.Enumerated += w.enum
		for k, v := range w.events {
			res.Events[k] += v
		}
		for k := range w.distinct {
			all[k] = struct{}{}
		}
		for k, v := range w.known {
			res.Known[k] = v
		}
	}
	res.Distinct = int64(len(all)) + res.Enumerated
	if only == "" {
		for e, n := range p.needs {
			if res.Events[e] < int64(n) {
				res.Missing = append(res.Missing, fmt.Sprintf("event %q seen %d times, need %d", e, res.Events[e], n))
			}
		}
	}
	sort.Strings(res.Missing)
	sort.Strings(res.Samples)
	writeResult()
	if len(res.Violations) > 0 {
		os.Exit(3)
	}
}

func (c *Case) traceOf(v *Violation) []string {
	if c != nil {
		return c.trace
	}
	if v != nil {
		return v.Trace
	}
	return nil
}

// loadKnown reads lines "known: property=<id> key=<key> <what fails>"; every
// other line is a comment or a record of a repaired defect.
func loadKnown(path string) {
	if path == "" {
		return
	}
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "known: ")
		if !ok {
			continue
		}
		f := strings.SplitN(rest, " ", 3)
		if len(f) < 3 {
			continue
		}
		knownFindings[strings.TrimPrefix(f[0], "property=")+" "+strings.TrimPrefix(f[1], "key=")] = f[2]
	}
}

// Panics runs f and reports whether it panicked, and with what.
func Panics(f func()) (panicked bool, val any) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(violation); ok {
				panic(x)
			}
			panicked, val = true, r
		}
	}()
	f()
	return false, nil
}

// Group runs goroutines whose violations and panics are carried back to the case.
type Group struct {
	wg  sync.WaitGroup
	mu  sync.Mutex
	err any
	stk string
}

func (g *Group) Go(f func()) {
	g.wg.Add(1)
	go func() {
		defer g.wg.Done()
		defer func() {
			if r := recover(); r != nil {
				g.mu.Lock()
				if g.err == nil {
					g.err = r
					g.stk = string(debug.Stack())
				}
				g.mu.Unlock()
			}
		}()
		f()
	}()
}

// Wait waits for all goroutines and re-raises the first panic.
func (g *Group) Wait() {
	g.wg.Wait()
	if g.err != nil {
		if v, ok := g.err.(violation); ok {
			panic(v)
		}
		panic(fmt.Sprintf("%v\n%s", g.err, g.stk))
	}
}

// Mix hashes a sequence of words.
func Mix(xs ...uint64) uint64 {
	h := uint64(0x12345)
	for _, x := range xs {
		h = mix(h, x)
	}
	return h
}

// HashString hashes text.
func HashString(s string) uint64 { return hashStr(s) }
