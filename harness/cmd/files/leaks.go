package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf16"

	"github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"
	. "gostverif/fsmon"
	"gostverif/mon"
)

// P02: what the library keeps after a call: nothing. Descriptors and mappings
// are looked up in /proc, threads counted by the runtime, memory measured after
// collection, and the settings of the process compared.

func init() {
	mon.Rule("P02", "a case runs a history of file operations with their faults, or thousands of calls of one kind, and looks at what the process holds and at its settings before and after; non-trivial when at least twenty calls succeeded or failed as intended; distinct by history")
	mon.RegSerial("P02", "descriptors", 150, 2400, descriptors)
	mon.RegSerial("P02", "threads", 10, 100, threadsLeft)
	mon.RegSerial("P02", "memory", 2, 40, memoryKept)
	mon.Need("P02", "looked for descriptors after a success", 1000)
	mon.Need("P02", "looked for descriptors after a failure", 500)
	mon.Need("P02", "used a pipe", 100)
	mon.Need("P02", "used a long path", 100)
	mon.Need("P02", "threads counted", 60)
	mon.Need("P02", "memory measured", 20)
	mon.Need("P02", "settings compared", 60)
}

// held lists what the process holds open or mapped below a directory, and
// open descriptors of devices.
func held(dir string) []string {
	var out []string
	fds, err := os.ReadDir("/proc/self/fd")
	Must(err)
	for _, f := range fds {
		to, err := os.Readlink("/proc/self/fd/" + f.Name())
		if err == nil && (strings.HasPrefix(to, dir) || to == "/dev/full") {
			out = append(out, "descriptor of "+strings.TrimPrefix(to, dir))
		}
	}
	maps, err := os.ReadFile("/proc/self/maps")
	Must(err)
	for _, l := range strings.Split(string(maps), "\n") {
		if i := strings.Index(l, dir); i >= 0 {
			out = append(out, "mapping of "+l[i+len(dir):])
		}
	}
	return out
}

type settings struct {
	cwd, env, mask, signals string
	in, out, err            *os.File
	procs                   int
	gc                      uint64
	files, size             syscall.Rlimit
	timezone                *time.Location
}

func current() settings {
	s := settings{in: os.Stdin, out: os.Stdout, err: os.Stderr, procs: runtime.GOMAXPROCS(0), timezone: time.Local}
	s.cwd, _ = os.Getwd()
	s.env = strings.Join(os.Environ(), "\x00")
	status, err := os.ReadFile("/proc/self/status")
	Must(err)
	for _, l := range strings.Split(string(status), "\n") {
		if strings.HasPrefix(l, "Umask:") {
			s.mask = l
		}
		if strings.HasPrefix(l, "SigIgn:") {
			s.signals = l
		}
	}
	gc := []metrics.Sample{{Name: "/gc/gogc:percent"}}
	metrics.Read(gc)
	s.gc = gc[0].Value.Uint64()
	Must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &s.files))
	Must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &s.size))
	return s
}

func sameSettings(c *mon.Case, before settings, what string) {
	after := current()
	c.Evals(1)
	c.Event("settings compared")
	if after != before {
		a, b, changed := reflect.ValueOf(after), reflect.ValueOf(before), ""
		for i := 0; i < a.NumField(); i++ {
			if x, y := fmt.Sprint(a.Field(i)), fmt.Sprint(b.Field(i)); x != y {
				changed += fmt.Sprintf(" %s from %q to %q", a.Type().Field(i).Name, y, x)
			}
		}
		c.Fail("%s changed settings of the process:%s", what, changed)
	}
}

// eventually waits for the number of goroutines to come down.
func eventually(most int, wait time.Duration) int {
	n := 0
	for end := time.Now().Add(wait); time.Now().Before(end); time.Sleep(200 * time.Microsecond) {
		if n = runtime.NumGoroutine(); n <= most {
			break
		}
	}
	return n
}

func isPipe(p string) bool {
	fi, err := os.Stat(p)
	return err == nil && fi.Mode()&os.ModeNamedPipe != 0
}

// open keeps a pipe open meanwhile, so that opening either end of it does not
// wait; for a reader it provides one message and the end.
func open(pipe string, reader bool) func() {
	if !reader {
		var fd int
		var err error
		Outside(func() { // a copy onto it may have changed its permission bits
			fd, err = syscall.Open(pipe, syscall.O_RDWR|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
		})
		if err != nil {
			return func() {}
		}
		stop, stopped := make(chan struct{}), make(chan struct{})
		go func() { // takes what is written
			defer close(stopped)
			for buf := make([]byte, 1<<16); ; {
				if n, _ := syscall.Read(fd, buf); n > 0 {
					continue
				}
				select {
				case <-stop:
					return
				case <-time.After(50 * time.Microsecond):
				}
			}
		}()
		return func() { close(stop); <-stopped; syscall.Close(fd) }
	}
	sent := make(chan struct{})
	go func() {
		defer close(sent)
		if fd, err := syscall.Open(pipe, syscall.O_WRONLY|syscall.O_CLOEXEC, 0); err == nil {
			syscall.Write(fd, []byte("message"))
			syscall.Close(fd)
		}
	}()
	return func() {
		// Releases the sender, should nobody have read.
		var fd int
		var err error
		Outside(func() { fd, err = syscall.Open(pipe, syscall.O_RDONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0) })
		<-sent
		if err == nil {
			syscall.Close(fd)
		}
	}
}

// descriptors runs file operations, most of them refused for one reason or
// another, and looks after each for what it left open. Nothing is collected
// meanwhile, so that no finalizer closes what an operation forgot.
func descriptors(c *mon.Case) {
	Unprivileged()
	d := Scratch(c)
	defer Remove(c, d)
	r := c.R
	threads := runtime.NumGoroutine()
	runtime.GC()
	gc := debug.SetGCPercent(-1)
	before := current()
	restore := sync.OnceFunc(func() { debug.SetGCPercent(gc) })
	defer restore()
	p := func(name string) string { return filepath.Join(d, name) }
	Must(WriteRaw(p("file"), Content(c, 2000), 0o644))
	Must(WriteRaw(p("large"), Fill(c, 300000), 0o644))
	Must(WriteRaw(p("empty"), nil, 0o644))
	Must(WriteRaw(p("unreadable"), []byte("x"), 0o000))
	Must(WriteRaw(p("readonly"), []byte("x"), 0o444))
	Must(WriteRaw(p("writeonly"), []byte("x"), 0o222))
	Must(os.Mkdir(p("dir"), 0o755))
	Must(WriteRaw(p("dir/inner"), []byte("y"), 0o644))
	Must(os.Mkdir(p("locked"), 0o000))
	Must(os.Mkdir(p("frozen"), 0o555))
	Must(os.Symlink("file", p("link")))
	Must(os.Symlink("nowhere", p("dangling")))
	Must(os.Symlink("loop", p("loop")))
	Must(os.Symlink("dir", p("dirlink")))
	Must(os.Link(p("file"), p("second")))
	Must(syscall.Mkfifo(p("pipe"), 0o666))
	long := ""
	for len(p(long)) < 2200+r.N(1500) {
		long = filepath.Join(long, strings.Repeat("w", 200))
		Must(syscall.Mkdir(p(long), 0o755))
	}
	Must(WriteRaw(p(long+"/file"), []byte("long"), 0o644))
	names := []string{"pipe", "pipe", long, long + "/file", long + "/file", long + "/new", "file", "file", "large", "empty", "unreadable", "readonly", "writeonly", "dir", "dir/inner", "locked", "locked/x", "frozen", "frozen/x", "link", "dangling", "loop", "dirlink", "dirlink/inner", "second", "new", "new", "new2", "missing/x", "file/x", strings.Repeat("n", 300)}
	path := func() string {
		if r.P(0.04) {
			return "/dev/full"
		}
		return p(mon.Pick(r, names...))
	}
	for i := 0; i < 60; i++ {
		a, b := path(), path()
		op := mon.Pick(r, "Write", "Read", "ReadToString", "Copy", "Copy", "ReadDir", "CreateDir", "RemoveDir", "RemoveFile", "Rename")
		if a == "/dev/full" && op != "Write" && op != "Copy" {
			a = p("file") // reading it does not end
		}
		if op == "Copy" && a == "/dev/full" {
			a, b = p("large"), "/dev/full"
		}
		if op == "Rename" && b == "/dev/full" {
			b = p("new")
		}
		from, to := isPipe(a), isPipe(b)
		if op == "ReadDir" && from {
			a, from = d, false // opening it waits for a writer
		}
		feeding := from || op == "Copy" && to
		feed := func() {}
		switch {
		case from:
			feed = open(a, strings.HasPrefix(op, "Read"))
		case feeding:
			feed = open(b, false)
		}
		ok := false
		switch op {
		case "Write":
			ok = Direct.Write(a, BytesOf(Content(c, 3000)))
		case "Read":
			_, ok = Direct.Read(a)
		case "ReadToString":
			_, ok = Direct.ReadToString(a)
		case "Copy":
			ok = Direct.Copy(a, b)
		case "ReadDir":
			_, ok = Direct.ReadDir(a)
		case "CreateDir":
			ok = Direct.CreateDir(a)
		case "RemoveDir":
			ok = Direct.RemoveDir(a)
		case "RemoveFile":
			ok = Direct.RemoveFile(a)
		default:
			ok = Direct.Rename(a, b)
		}
		feed()
		if feeding {
			c.Event("used a pipe")
		}
		if len(a) > 2000 {
			c.Event("used a long path")
		}
		a, b = strings.TrimPrefix(a, d), strings.TrimPrefix(b, d)
		c.Op(op, a, b, ok)
		left := held(d)
		c.Evals(1)
		if ok {
			c.Event("looked for descriptors after a success")
		} else {
			c.Event("looked for descriptors after a failure")
		}
		c.Check(len(left) == 0, "after %s %s %s (success: %v) the process holds a %s", op, Short(a), Short(b), ok, strings.Join(left, ", "))
		sameSettings(c, before, op)
	}
	restore()
	c.Nontrivial()
	n := eventually(threads, 20*time.Second)
	c.Check(n <= threads, "60 file operations left %d threads running", n-threads)
}

type call struct {
	name string
	run  func(i int)
}

// calls are operations of every part of the library that are repeatable without
// end. Those that need files use the directory, and those that read lines the
// standard input.
func calls(d string, input func()) []call {
	file := gost.String(filepath.Join(d, "file"))
	other := gost.String(filepath.Join(d, "other"))
	gone := gost.String(filepath.Join(d, "gone"))
	data := BytesOf([]byte(strings.Repeat("0123456789", 50)))
	text := func(i int) gost.String { return gost.String(fmt.Sprintf("%d-%s", i, strings.Repeat("text ", 40))) }
	m := gost.MutexNew(0)
	var in gost.Stdin
	return []call{
		{"Write", func(i int) { gost.Write(file, data) }},
		{"Read", func(i int) { gost.Read(file) }},
		{"ReadToString", func(i int) { gost.ReadToString(file) }},
		{"Read of a missing file", func(i int) { gost.Read(gone + text(i)[:10]) }},
		{"Copy", func(i int) { gost.Copy(file, other) }},
		{"Rename", func(i int) { gost.Rename(other, other+"2"); gost.Rename(other+"2", other) }},
		{"CreateDir and RemoveDir", func(i int) { gost.CreateDir(gone); gost.RemoveDir(gone) }},
		{"ReadDir", func(i int) { gost.ReadDir(gost.String(d)) }},
		{"awaited Read", func(i int) { gokio.Read(file).Await() }},
		{"awaited Write", func(i int) { gokio.Write(other, data).Await() }},
		{"awaited Copy", func(i int) { gokio.Copy(file, other).Await() }},
		{"awaited task", func(i int) { gokio.Spawn(func() gost.String { return text(i) }).Await() }},
		{"task nobody awaits", func(i int) { gokio.Spawn(func() gost.String { return text(i) }) }},
		{"joined thread", func(i int) { h := gost.Spawn(func() {}); h.Join() }},
		{"thread nobody joins", func(i int) { gost.Spawn(func() {}) }},
		{"Sleep", func(i int) { gost.Sleep(gost.DurationFromNanos(gost.U64(i % 100))) }},
		{"Mutex", func(i int) { *m.Lock()++; m.Unlock() }},
		{"Mutex refused", func(i int) { m.Lock(); m.TryLock(); m.Unlock() }},
		{"new Mutex", func(i int) { m := gost.MutexNew(text(i)); m.Lock(); m.Unlock() }},
		{"Format", func(i int) { gost.Format(text(i)+"{} {}", gost.I32(i), text(i)) }},
		{"ReadLine", func(i int) { input(); var s gost.String; in.ReadLine(&s) }},
		{"parsing", func(i int) { gost.String(fmt.Sprint(i)).ParseI64(); text(i).ParseU64(); gost.String("1.5").ParseF64() }},
		{"text", func(i int) {
			t := text(i)
			t.Split(" ")
			t.Replace("text", "t")
			t.ToUppercase()
			t.Chars()
			t.Contains("x")
			t.Clone()
			t.IntoBytes()
			t.Repeat(2)
			t.Trim()
		}},
		{"wide text", func(i int) {
			v := gost.VecNew[gost.U16]()
			for _, u := range utf16.Encode([]rune(string(text(i)))) {
				v.Push(gost.U16(u))
			}
			gost.StringFromUTF16(v)
		}},
		{"collections", func(i int) {
			v := gost.VecNew[gost.String]()
			v.Push(text(i))
			v.Push(text(i + 1))
			v.Sort()
			v.Clone().Display()
			v.Contains(text(i))
			h := gost.HashMapNew[gost.String, gost.Vec[gost.String]]()
			h.Insert(text(i), v)
			h.Display()
			b := gost.BTreeMapNew[gost.String, gost.I32]()
			b.Insert(text(i), 1)
			b.Remove(text(i))
			l := gost.LinkedListNew[gost.String]()
			l.PushBack(text(i))
			l.Clone().Display()
		}},
		{"numbers", func(i int) {
			a := gost.I128{}
			_ = a
			gost.I64(i).CheckedMul(5)
			gost.I64(i).ToString()
			gost.F64(i).Display()
			gost.U8(i).Debug()
		}},
		{"options", func(i int) {
			o := gost.Some(text(i))
			o.Map(func(s gost.String) gost.String { return s + "x" })
			o.Take()
			e := gost.Err[gost.String](fmt.Errorf("error %d", i))
			e.UnwrapOr(text(i))
			e.Display()
		}},
		{"panic", func(i int) {
			defer func() { recover() }()
			gost.None[gost.String]().Expect(string(text(i)))
		}},
	}
}

// input replaces the standard input by a pipe, and returns what feeds it a line.
func input() (feed, done func()) {
	r, w, err := os.Pipe()
	Must(err)
	old := os.Stdin
	os.Stdin = r
	line := []byte(strings.Repeat("line ", 30) + "\n")
	return func() { w.Write(line) }, func() { os.Stdin = old; r.Close(); w.Close() }
}

func threadsLeft(c *mon.Case) {
	Unprivileged()
	d := Scratch(c)
	defer Remove(c, d)
	n := c.R.In(50, 300)
	c.Op("threads", n)
	feed, done := input()
	defer done()
	for _, f := range calls(d, feed) {
		before := current()
		threads := runtime.NumGoroutine()
		for i := 0; i < n; i++ {
			f.run(i)
		}
		now := eventually(threads, 20*time.Second)
		c.Evals(1)
		c.Event("threads counted")
		c.Check(now <= threads, "%d times %s left %d threads running", n, f.name, now-threads)
		sameSettings(c, before, f.name)
	}
	c.Nontrivial()
}

func memoryKept(c *mon.Case) {
	Unprivileged()
	d := Scratch(c)
	defer Remove(c, d)
	const n = 12000
	c.Op("memory", n)
	feed, done := input()
	defer done()
	memory := func() int {
		runtime.GC()
		runtime.GC() // pools are emptied by the second
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int(m.HeapAlloc)
	}
	list := calls(d, feed)
	for k := 0; k < 14; k++ {
		f := list[(k+c.Index*14)%len(list)]
		times := n
		if strings.Contains(f.name, "Copy") || strings.Contains(f.name, "Dir") || strings.Contains(f.name, "Rename") || f.name == "ReadLine" {
			times = n / 4
		}
		threads := runtime.NumGoroutine()
		for i := 0; i < 100; i++ {
			f.run(i)
		}
		eventually(threads, time.Second)
		before := memory()
		for i := 0; i < times; i++ {
			f.run(i)
			if i%64 == 0 {
				eventually(threads+20, 20*time.Millisecond)
			}
		}
		eventually(threads, 20*time.Second)
		grown := memory() - before
		c.Evals(1)
		c.Event("memory measured")
		c.Check(grown < 400000, "%d times %s left %d bytes of memory in use", times, f.name, grown)
	}
	c.Nontrivial()
}
