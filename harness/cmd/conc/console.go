package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/myyrakle/gost"

	"gostverif/mon"
)

func init() {
	mon.Rule("F02", "a case is one child process whose console is a real pipe; non-trivial when several threads printed, or when the input had several lines or arrived in pieces; distinct by parameters and the observed order of lines")
	mon.Reg("F02", "lines-from-many-threads", 120, 3000, printThreads)
	mon.Reg("F02", "exact-output", 120, 3000, printExact)
	mon.Reg("F02", "read-lines", 240, 6000, readLines)
	mon.Reg("F02", "read-lines-from-many-threads", 80, 2000, readThreads)
	mon.Need("F02", "line printed among other threads", 500)
	mon.Need("F02", "line of more than a pipe buffer", 5)
	mon.Need("F02", "line read", 200)
	mon.Need("F02", "line that ends in CR LF", 50)
	mon.Need("F02", "line read in pieces", 50)
	mon.Need("F02", "line waited for the handle's lock", 50)
	mon.Need("F02", "line read among threads with handles of their own", 200)
}

// child runs this binary again with the given console.
func child(c *mon.Case, mode string, arg any, stdin func(io.WriteCloser), stdout func(io.Reader)) []byte {
	b, err := json.Marshal(arg)
	if err != nil {
		panic(err)
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe, mode, string(b))
	var side bytes.Buffer
	cmd.Stderr = &side
	or, ow, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	defer or.Close()
	cmd.Stdout = ow
	var iw io.WriteCloser
	if stdin != nil {
		if iw, err = cmd.StdinPipe(); err != nil {
			panic(err)
		}
	}
	if err := cmd.Start(); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	ow.Close()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); stdout(or) }()
	if stdin != nil {
		wg.Add(1)
		go func() { defer wg.Done(); stdin(iw) }()
	}
	timer := time.AfterFunc(40*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	late := !timer.Stop()
	wg.Wait()
	c.Check(!late, "%s: the child did not end within 40 s", mode)
	if err != nil {
		e := side.String()
		if len(e) > 1500 {
			e = e[:1500]
		}
		c.Fail("%s: the child ended with %v: %s", mode, err, e)
	}
	return side.Bytes()
}

type printJob struct {
	Threads, Lines int
	Seed           uint64
	Kind           int
	Long           int // one line in this many is longer than a pipe takes
	Script         []printOp
}

type printOp struct {
	Line bool
	Fmt  string
	Args []string
}

// lineOf is line i of thread t: a mark, and a body that depends on both.
func lineOf(job printJob, t, i int) (format string, args []any, want string) {
	r := mon.NewRand(job.Seed + uint64(t)*1000 + uint64(i))
	n := r.N(60)
	if job.Long > 0 && r.N(job.Long) == 0 {
		n = 5000 + r.N(90000)
	}
	body := string(rune('A' + t))
	switch r.N(5) { // long lines of words, and of wide characters
	case 0:
		body += " "
	case 1:
		body += "é漢 "
	case 2:
		body = "    \t" + body
	}
	body = strings.Repeat(body, n)
	k := r.N(3)
	if n > 4000 {
		k = 0 // as an argument: a long template is slow to scan
	}
	switch k {
	case 0:
		return "{}:{}:{}", []any{gost.I64(t), gost.I64(i), gost.String(body)}, fmt.Sprintf("%d:%d:%s", t, i, body)
	case 1:
		return fmt.Sprintf("%d:%d:%s", t, i, body), nil, fmt.Sprintf("%d:%d:%s", t, i, body)
	default:
		return "{}:" + fmt.Sprint(i) + ":" + body, []any{gost.U8(t)}, fmt.Sprintf("%d:%d:%s", t, i, body)
	}
}

func printChild(arg string) {
	var job printJob
	if err := json.Unmarshal([]byte(arg), &job); err != nil {
		panic(err)
	}
	for _, p := range job.Script {
		args := []any{}
		for _, a := range p.Args {
			args = append(args, gost.String(a))
		}
		if p.Line {
			gost.Println(gost.String(p.Fmt), args...)
		} else {
			gost.Print(gost.String(p.Fmt), args...)
		}
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for t := 0; t < job.Threads; t++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			j := newJitter(job.Seed+uint64(t), job.Kind)
			<-gate
			for i := 0; i < job.Lines; i++ {
				f, a, _ := lineOf(job, t, i)
				gost.Println(gost.String(f), a...)
				j.here()
			}
		}()
	}
	close(gate)
	wg.Wait()
}

// drainSlowly reads everything, in pieces and with pauses when slow.
func drainSlowly(r io.Reader, slow bool, into *bytes.Buffer) {
	if !slow {
		io.Copy(into, r)
		return
	}
	buf := make([]byte, 3000)
	for i := 0; ; i++ {
		n, err := r.Read(buf)
		into.Write(buf[:n])
		if err != nil {
			return
		}
		if i < 200 {
			time.Sleep(50 * time.Microsecond)
		}
	}
}

func printThreads(c *mon.Case) {
	job := printJob{Threads: c.R.In(2, 8), Lines: c.R.In(10, 120), Seed: c.R.U64(), Kind: c.R.N(4), Long: mon.Pick(c.R, 0, 0, 20)}
	slow := c.R.Bool()
	c.Op("print", job.Threads, job.Lines, job.Kind, job.Long, slow)
	var out bytes.Buffer
	child(c, "print-child", job, nil, func(r io.Reader) { drainSlowly(r, slow, &out) })
	text := out.String()
	c.Check(strings.HasSuffix(text, "\n"), "the output of %d threads does not end with a newline", job.Threads)
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	next := make([]int, job.Threads)
	h, switches, last := uint64(0), 0, -1
	for k, l := range lines {
		var t, i int
		var rest string
		n, _ := fmt.Sscanf(l, "%d:%d:", &t, &i)
		c.Check(n == 2 && t >= 0 && t < job.Threads, "output line %d is not a whole line of any thread: %.120q", k, l)
		c.Check(i == next[t], "output line %d is thread %d's line %d, but its line %d is due", k, t, i, next[t])
		_, _, want := lineOf(job, t, i)
		c.Check(l == want, "output line %d is %.120q, thread %d printed %.120q", k, l, t, want)
		next[t]++
		if t != last {
			switches++
		}
		last = t
		h = mon.Mix(h, uint64(t))
		if len(l) > 4096 {
			c.Event("line of more than a pipe buffer")
		}
		_ = rest
	}
	for t, n := range next {
		c.Check(n == job.Lines, "thread %d printed %d lines, %d came out", t, job.Lines, n)
	}
	c.Evals(len(lines))
	c.EventN("line printed among other threads", len(lines))
	c.EventN("switch between threads", switches)
	c.State(h)
	c.Op("order", h)
	c.Nontrivial()
}

func printExact(c *mon.Case) {
	n := c.R.In(1, 30)
	job := printJob{Seed: c.R.U64()}
	var want strings.Builder
	for i := 0; i < n; i++ {
		p := printOp{Line: c.R.Bool()}
		for k := c.R.N(5); k > 0; k-- {
			switch c.R.N(5) {
			case 0:
				p.Fmt += "{}"
				a := mon.Pick(c.R, "", "x", "two words", "a\nb", "{}", "{{", "Größe", "%d %s", "\t")
				p.Args = append(p.Args, a)
				want.WriteString(a)
			case 1:
				p.Fmt += "{{}}"
				want.WriteString("{}")
			default:
				a := mon.Pick(c.R, " ", "abc", "%d%%", "\n", "é", "\\n", strings.Repeat("long ", c.R.N(2000)))
				p.Fmt += a
				want.WriteString(a)
			}
		}
		if p.Line {
			want.WriteString("\n")
		}
		c.Op("print", p.Line, p.Fmt)
		job.Script = append(job.Script, p)
	}
	var out bytes.Buffer
	child(c, "print-child", job, nil, func(r io.Reader) { drainSlowly(r, false, &out) })
	got, w := out.String(), want.String()
	k := 0
	for k < len(got) && k < len(w) && got[k] == w[k] {
		k++
	}
	if got != w {
		lo := max(0, k-30)
		c.Fail("%d print calls wrote %d bytes instead of %d; first difference at %d: %.80q instead of %.80q", n, len(got), len(w), k, got[lo:], w[lo:])
	}
	c.Evals(n)
	c.EventN("print call checked", n)
	c.Nontrivial()
}

// ------------------------------------------------------------------ input

type readJob struct {
	Calls   []readCall
	Threads int
	Per     int
	Own     bool // each thread reads through a handle of its own
	Hold    int  // so often, a call waits for the handle's lock to be released
}

type readCall struct {
	Prior string // what the buffer holds already
	Which int    // which Stdin value reads
}

type readReply struct {
	Bufs [][]byte // the buffers, in order of the calls
	Held []int    // the calls that went on with the lock held
	By   [][][]byte
}

func readChild(arg string) {
	var job readJob
	if err := json.Unmarshal([]byte(arg), &job); err != nil {
		panic(err)
	}
	var rep readReply
	ins := make([]gost.Stdin, 3)
	for i, k := range job.Calls {
		buf := gost.String(k.Prior)
		if job.Hold > 0 && i%job.Hold == 0 {
			lock := ins[k.Which].Lock()
			lock.TryLock() // it is held now, whether Lock locked it or not
			done := make(chan bool)
			go func() {
				ins[k.Which].ReadLine(&buf)
				close(done)
			}()
			select {
			case <-done:
				rep.Held = append(rep.Held, i)
			case <-time.After(3 * time.Millisecond):
			}
			lock.Unlock()
			<-done
		} else {
			ins[k.Which].ReadLine(&buf)
		}
		rep.Bufs = append(rep.Bufs, []byte(buf))
	}
	if job.Threads > 0 {
		rep.By = make([][][]byte, job.Threads)
		own := make([]gost.Stdin, job.Threads)
		var wg sync.WaitGroup
		for t := 0; t < job.Threads; t++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				in := &ins[0]
				if job.Own {
					in = &own[t]
				}
				for i := 0; i < job.Per; i++ {
					var buf gost.String
					in.ReadLine(&buf)
					rep.By[t] = append(rep.By[t], []byte(buf))
				}
			}()
		}
		wg.Wait()
	}
	b, err := json.Marshal(rep)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(b)
}

// feed sends data in pieces.
func feed(c *mon.Case, data []byte, pieces bool, seed uint64) func(io.WriteCloser) {
	return func(w io.WriteCloser) {
		defer w.Close()
		if !pieces {
			w.Write(data)
			return
		}
		r := mon.NewRand(seed)
		for k := 0; len(data) > 0; k++ {
			n := 1 + r.N(9)
			if k > 60 {
				n = 1 + r.N(4000)
			}
			n = min(n, len(data))
			if _, err := w.Write(data[:n]); err != nil {
				return
			}
			data = data[n:]
			if r.N(3) == 0 {
				time.Sleep(100 * time.Microsecond)
			}
		}
	}
}

func randomLine(c *mon.Case) string {
	switch c.R.N(12) {
	case 0:
		return ""
	case 1:
		return " "
	case 2:
		return "  leading and trailing  "
	case 3:
		return "several words on one line"
	case 4:
		return "tab\tand \x00 and \x1b"
	case 5:
		return "Größe \U0001F600 漢字"
	case 6:
		return "\xff\xfe broken \xc3"
	case 7:
		return strings.Repeat("0123456789 ", c.R.In(300, 3000))
	case 8:
		n := mon.Pick(c.R, 1023, 1024, 4095, 4096, 4097, 8192, 16385, 32769, 65536)
		if c.R.P(0.1) {
			n = mon.Pick(c.R, 65537, 70001, 131073, 200000)
		}
		return strings.Repeat("x", n-1) + "y"
	case 9:
		return mon.Pick(c.R, "{} %d \\n", "carriage\rreturn", "\ufeffmark", "\v\f\u2028 not line ends \u0085")
	default:
		return fmt.Sprintf("word%d", c.R.N(1000))
	}
}

func readLines(c *mon.Case) {
	n := c.R.In(1, 12)
	if c.R.P(0.05) {
		n = c.R.In(200, 900)
	}
	var data []byte
	var lines []string
	openEnd := c.R.P(0.4) // the last line has no newline
	for i := 0; i < n; i++ {
		l := randomLine(c)
		if c.R.P(0.15) && !(openEnd && i == n-1) {
			// The terminator may be a carriage return and a newline; what is
			// before it belongs to the line.
			l += mon.Pick(c.R, "", "\r", "\r\r", "\t", " \r", "\r \r")
			data = append(data, l+"\r\n"...)
			lines = append(lines, l)
			c.Event("line that ends in CR LF")
			continue
		}
		lines = append(lines, l)
		data = append(data, l...)
		data = append(data, '\n')
	}
	if openEnd {
		data = data[:len(data)-1]
		if lines[n-1] == "" {
			lines, n = lines[:n-1], n-1
		}
	}
	extra := c.R.N(3) // calls after the end of input
	pieces := c.R.P(0.6)
	var job readJob
	for i := 0; i < n+extra; i++ {
		job.Calls = append(job.Calls, readCall{Prior: mon.Pick(c.R, "", "", "prior ", "Größe\n"), Which: mon.Pick(c.R, 0, 0, 1, 2)})
	}
	job.Hold = mon.Pick(c.R, 0, 1, 2, 5)
	if n > 100 {
		job.Hold *= 50
	}
	c.Op("read", n, extra, pieces, openEnd, job.Hold, mon.HashString(string(data)))
	var out bytes.Buffer
	child(c, "read-child", job, feed(c, data, pieces, c.R.U64()), func(r io.Reader) { io.Copy(&out, r) })
	var rep readReply
	if err := json.Unmarshal(out.Bytes(), &rep); err != nil {
		c.Fail("harness: %v in %.200q", err, out.String())
	}
	c.Check(len(rep.Bufs) == n+extra, "%d calls, %d answers", n+extra, len(rep.Bufs))
	c.Check(len(rep.Held) == 0, "calls %v of %d read a line while the lock of their handle was held", rep.Held, n+extra)
	if job.Hold > 0 {
		c.EventN("line waited for the handle's lock", (n+extra+job.Hold-1)/job.Hold)
	}
	for i, b := range rep.Bufs {
		want := job.Calls[i].Prior
		what := "after the end of input"
		if i < n {
			want += lines[i]
			what = fmt.Sprintf("line %d of %d (pieces: %v)", i+1, n, pieces)
			c.Event("line read")
			if pieces {
				c.Event("line read in pieces")
			}
		}
		got := string(b)
		if got != want {
			c.Fail("reading %s with %q in the buffer left %d bytes %.120q instead of %d bytes %.120q", what, job.Calls[i].Prior, len(got), got, len(want), want)
		}
		c.Evals(1)
	}
	if n > 1 || pieces {
		c.Nontrivial()
	}
}

// readThreads: threads that share one input each get whole lines, every line
// goes to exactly one of them, and each gets its lines in input order.
func readThreads(c *mon.Case) {
	job := readJob{Threads: c.R.In(2, 6), Per: c.R.In(3, 25), Own: c.R.Bool()}
	n := job.Threads * job.Per
	var data []byte
	lines := make([]string, n)
	at := map[string]int{}
	for i := range lines {
		lines[i] = fmt.Sprintf("%d of %d %s", i, n, strings.Repeat("y ", c.R.N(40)))
		at[lines[i]] = i
		data = append(data, lines[i]...)
		data = append(data, '\n')
	}
	pieces := c.R.Bool()
	c.Op("read", job.Threads, job.Per, job.Own, pieces)
	var out bytes.Buffer
	child(c, "read-child", job, feed(c, data, pieces, c.R.U64()), func(r io.Reader) { io.Copy(&out, r) })
	var rep readReply
	if err := json.Unmarshal(out.Bytes(), &rep); err != nil {
		c.Fail("harness: %v in %.200q", err, out.String())
	}
	seen := make([]bool, n)
	h := uint64(0)
	owner := make([]int, n)
	for t, ls := range rep.By {
		last := -1
		for _, b := range ls {
			i, ok := at[string(b)]
			c.Check(ok, "thread %d (own handles: %v) read %.120q, which is no line of the input", t, job.Own, string(b))
			c.Check(!seen[i], "line %d was read twice", i)
			c.Check(i > last, "thread %d read line %d after line %d", t, i, last)
			seen[i], last, owner[i] = true, i, t
			c.Evals(1)
			c.Event("line read")
			if job.Own {
				c.Event("line read among threads with handles of their own")
			}
		}
	}
	for i, s := range seen {
		c.Check(s, "line %d was lost", i)
		h = mon.Mix(h, uint64(owner[i]))
	}
	c.State(h)
	c.Op("order", h)
	c.Nontrivial()
}
