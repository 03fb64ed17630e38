package fsmon

import (
	"errors"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/myyrakle/gost"

	"gostverif/mon"
)

func BytesOf(b []byte) []gost.Byte {
	out := make([]gost.Byte, len(b))
	for i, x := range b {
		out[i] = gost.Byte(x)
	}
	return out
}

func StringOf(b []gost.Byte) string {
	out := make([]byte, len(b))
	for i, x := range b {
		out[i] = byte(x)
	}
	return string(out)
}

// okOf calls one operation and reports whether it reported success.
func OkOf[T any](r gost.Result[T]) bool {
	ok, err := bool(r.IsOk()), bool(r.IsErr())
	if ok == err {
		panic("a result that is both or neither success and error")
	}
	return ok
}

// Sut is the set of operations under test (synchronous or asynchronous).
type Sut struct {
	Elsewhere    bool // the operations run on other threads than the caller's
	CreateDir    func(string) bool
	RemoveDir    func(string) bool
	RemoveFile   func(string) bool
	Rename       func(a, b string) bool
	Copy         func(a, b string) bool
	Write        func(string, []gost.Byte) bool
	Read         func(string) (string, bool)
	ReadToString func(string) (string, bool)
	ReadDir      func(string) ([]gost.DirEntry, bool)
}

// Direct is the synchronous operations.
var Direct = Sut{
	CreateDir:  func(p string) bool { return OkOf(gost.CreateDir(gost.String(p))) },
	RemoveDir:  func(p string) bool { return OkOf(gost.RemoveDir(gost.String(p))) },
	RemoveFile: func(p string) bool { return OkOf(gost.RemoveFile(gost.String(p))) },
	Rename:     func(a, b string) bool { return OkOf(gost.Rename(gost.String(a), gost.String(b))) },
	Copy:       func(a, b string) bool { return OkOf(gost.Copy(gost.String(a), gost.String(b))) },
	Write:      func(p string, d []gost.Byte) bool { return OkOf(gost.Write(gost.String(p), d)) },
	Read: func(p string) (string, bool) {
		r := gost.Read(gost.String(p))
		if !OkOf(r) {
			return "", false
		}
		return StringOf(r.Unwrap()), true
	},
	ReadToString: func(p string) (string, bool) {
		r := gost.ReadToString(gost.String(p))
		if !OkOf(r) {
			return "", false
		}
		return string(r.Unwrap()), true
	},
	ReadDir: func(p string) ([]gost.DirEntry, bool) {
		r := gost.ReadDir(gost.String(p))
		if !OkOf(r) {
			return nil, false
		}
		v := r.Unwrap()
		n := int(v.Len())
		out := make([]gost.DirEntry, n)
		for i := range out {
			out[i] = v.GetUnchecked(gost.USize(i))
		}
		return out, true
	},
}

// Relative makes the working directory one in or next to the tree, and has the
// operations name what is in the tree from there. The working directory is the
// process's, so nothing else may run.
func Relative(c *mon.Case, s Sut, root, below string) (Sut, func()) {
	from, err := os.Getwd()
	Must(err)
	there := mon.Pick(c.R, root, root, filepath.Dir(root), Scratch(c), below, below)
	Outside(func() { Must(os.Chdir(there)) })
	dot := c.R.Bool()
	where := "outside"
	if strings.HasPrefix(there+"/", root+"/") {
		where = "inside"
	}
	c.Op("relative", strings.TrimPrefix(there, root), dot)
	c.Event("history of relative paths, from " + where)
	name := func(p string) string {
		if !strings.HasPrefix(p, root) {
			return p
		}
		// The working directory may have been moved, removed or closed off.
		way := ""
		here, err := os.Getwd()
		if err == nil {
			way, err = filepath.Rel(here, root)
		}
		var fi syscall.Stat_t
		if err != nil || syscall.Stat(way, &fi) != nil {
			Outside(func() { Must(os.Chdir(root)) })
			way = "."
			c.Event("working directory lost")
		}
		rest := p[len(root):]
		if way == "." && rest != "" && !dot {
			if rest = strings.TrimLeft(rest, "/"); rest != "" {
				return rest
			}
		}
		return way + rest
	}
	return Sut{
		Elsewhere:    s.Elsewhere,
		CreateDir:    func(p string) bool { return s.CreateDir(name(p)) },
		RemoveDir:    func(p string) bool { return s.RemoveDir(name(p)) },
		RemoveFile:   func(p string) bool { return s.RemoveFile(name(p)) },
		Rename:       func(a, b string) bool { return s.Rename(name(a), name(b)) },
		Copy:         func(a, b string) bool { return s.Copy(name(a), name(b)) },
		Write:        func(p string, d []gost.Byte) bool { return s.Write(name(p), d) },
		Read:         func(p string) (string, bool) { return s.Read(name(p)) },
		ReadToString: func(p string) (string, bool) { return s.ReadToString(name(p)) },
		ReadDir:      func(p string) ([]gost.DirEntry, bool) { return s.ReadDir(name(p)) },
	}, func() { Must(os.Chdir(from)) }
}

// rig is one history: the tree under test (a) and its twin (b), which plain
// system calls keep in the state the operations should have produced.
type rig struct {
	c       *mon.Case
	s       Sut
	a, b    string
	bound   bool // permission bits bind the acting user
	names   []string
	ok, bad int
}

func newRig(c *mon.Case, s Sut) *rig {
	g := &rig{c: c, s: s}
	if !s.Elsewhere {
		g.bound = Unprivileged()
	}
	g.a, g.b = Scratch(c), Scratch(c)
	pool := []string{"a", "b", "c", "d.txt", "e", ".hidden", "Größe", "with space", "new\nline", "\xff\xfe", "-r", "*", strings.Repeat("n", 255), "a~", "..x", "%d{}"}
	mon.Shuffle(c.R, pool)
	g.names = append([]string{}, pool[:c.R.In(2, 5)]...)
	return g
}

func (g *rig) done() {
	Remove(g.c, g.a)
	Remove(g.c, g.b)
}

// rel draws a relative path: mostly one that exists.
func (g *rig) rel() string {
	c := g.c
	if c.R.P(0.6) {
		var all []string
		for k := range Snapshot(g.a) {
			all = append(all, k)
		}
		if len(all) > 0 {
			sort.Strings(all)
			p := mon.Pick(c.R, all...)
			if c.R.P(0.25) && len(p) < 600 {
				p = filepath.Join(p, mon.Pick(c.R, g.names...))
			}
			return p
		}
	}
	p := mon.Pick(c.R, g.names...)
	if c.R.P(0.2) {
		p = filepath.Join(p, mon.Pick(c.R, g.names...))
	}
	return p
}

// spell writes the paths of p in both trees, rarely in a roundabout way.
func (g *rig) spell(p string) (string, string) {
	A, B := filepath.Join(g.a, p), filepath.Join(g.b, p)
	if g.c.R.P(0.06) {
		end := mon.Pick(g.c.R, "/", "/", "//", "/.", "/..")
		g.c.Event("path that ends in a slash or dots")
		if p != "" || end != "/.." {
			return A + end, B + end
		}
	}
	if p == "" || !g.c.R.P(0.14) {
		return A, B
	}
	mid := mon.Pick(g.c.R, "/./", "//", "/././/")
	if g.c.R.Bool() { // down into a directory and back
		var dirs []string
		for k, v := range Snapshot(g.a) {
			if v.kind == "dir" && !strings.Contains(k, "/") {
				dirs = append(dirs, k)
			}
			// Up from a link is up from where it leads.
			if v.kind == "symlink" && len(k) < 400 {
				Outside(func() {
					if fi, err := os.Stat(filepath.Join(g.a, k)); err == nil && fi.IsDir() {
						dirs = append(dirs, k)
					}
				})
			}
		}
		if len(dirs) > 0 {
			sort.Strings(dirs)
			mid = "/" + mon.Pick(g.c.R, dirs...) + "/../"
		}
	}
	g.c.Event("roundabout path")
	return g.a + mid + p, g.b + mid + p
}

// odd draws, rarely, a path that can name nothing.
func (g *rig) odd() (string, bool) {
	if !g.c.R.P(0.03) {
		return "", false
	}
	return mon.Pick(g.c.R, "", "x\x00y", strings.Repeat("L", 300)), true
}

// blocks reports whether opening the path could block (a pipe).
func (g *rig) blocks(p string) bool {
	b := false
	Outside(func() {
		fi, err := os.Stat(p)
		b = err == nil && fi.Mode()&os.ModeNamedPipe != 0
	})
	return b
}

func (g *rig) outcome(op string, ok bool) {
	if ok {
		g.ok++
		g.c.Event("ok:" + op)
	} else {
		g.bad++
		g.c.Event("refused:" + op)
	}
}

// agree fails when the outcome is not the one due.
func (g *rig) agree(op string, args string, got bool, want error) {
	g.outcome(op, got)
	g.c.Evals(1)
	if got && want != nil {
		g.c.Fail("%s(%s) reported success, but it has to be refused: %v", op, args, want)
	}
	if !got && want == nil {
		g.c.Fail("%s(%s) reported an error, but it has to succeed", op, args)
	}
}

// same compares the tree under test with its twin.
func (g *rig) same(op, args string) {
	g.c.Evals(1)
	if d := Diff(Snapshot(g.a), Snapshot(g.b)); len(d) > 0 {
		if len(d) > 4 {
			d = d[:4]
		}
		g.c.Fail("after %s(%s) the tree is not what it has to be (actual vs expected): %s", op, args, strings.Join(d, "; "))
	}
}

func (g *rig) step(contents bool) {
	c := g.c
	p := g.rel()
	A, B := g.spell(p)
	if x, yes := g.odd(); yes {
		p, A, B = x, x, x
		if len(x) > 250 {
			A, B = filepath.Join(g.a, x), filepath.Join(g.b, x)
		}
	}
	k := c.R.N(100)
	var op string
	if contents {
		switch {
		case k < 30:
			op = "Write"
		case k < 45:
			op = "Read"
		case k < 55:
			op = "ReadToString"
		case k < 80:
			op = "Copy"
		case k < 86:
			op = "setup"
		case k < 92:
			op = "chmod"
		case k < 95:
			op = "RemoveFile"
		default:
			op = "Rename"
		}
	} else {
		switch {
		case k < 22:
			op = "CreateDir"
		case k < 34:
			op = "RemoveDir"
		case k < 46:
			op = "RemoveFile"
		case k < 64:
			op = "Rename"
		case k < 78:
			op = "ReadDir"
		case k < 92:
			op = "setup"
		case k < 97:
			op = "chmod"
		default:
			op = "Write"
		}
	}
	switch op {
	case "setup":
		g.setup(p, A, B, contents)
	case "chmod":
		if !g.bound {
			return
		}
		mode := os.FileMode(mon.Pick(c.R, 0o777, 0o755, 0o700, 0o555, 0o500, 0o333, 0o300, 0o666, 0o644, 0o600, 0o444, 0o400, 0o200, 0o000, 0o640, 0o751))
		c.Op("chmod", p, int(mode))
		Outside(func() { // not following a link out of the twin
			if fi, err := os.Lstat(A); err == nil && fi.Mode()&os.ModeSymlink == 0 {
				Must(os.Chmod(A, mode))
				Must(os.Chmod(B, mode))
			}
		})
	case "CreateDir":
		c.Op(op, p)
		got := g.s.CreateDir(A)
		g.agree(op, p, got, syscall.Mkdir(B, 0o777))
		g.same(op, p)
	case "RemoveDir":
		c.Op(op, p)
		got := g.s.RemoveDir(A)
		g.agree(op, p, got, syscall.Rmdir(B))
		g.same(op, p)
	case "RemoveFile":
		c.Op(op, p)
		got := g.s.RemoveFile(A)
		g.agree(op, p, got, syscall.Unlink(B))
		g.same(op, p)
	case "Rename":
		q := g.rel()
		if c.R.P(0.05) {
			q = p
		}
		A2, B2 := g.spell(q)
		if x, yes := g.odd(); yes && len(x) < 250 {
			q, A2, B2 = x, x, x
		}
		c.Op(op, p, q, A != filepath.Clean(A), A2 != filepath.Clean(A2))
		// Whether an empty directory may be replaced, or anything renamed to
		// itself, is the platform's choice: either outcome is right if told truly.
		free := false
		Outside(func() {
			f1, e1 := os.Lstat(B)
			f2, e2 := os.Lstat(B2)
			free = e1 == nil && e2 == nil && (os.SameFile(f1, f2) || f1.IsDir() && f2.IsDir())
		})
		got := g.s.Rename(A, A2)
		if free && !got {
			g.outcome(op, got)
		} else {
			g.agree(op, p+","+q, got, syscall.Rename(B, B2))
		}
		g.same(op, p+","+q)
	case "ReadDir":
		c.Op(op, p)
		g.list(p, A)
		g.same(op, p)
	case "Write":
		if g.blocks(A) {
			return
		}
		data := Content(c, 100000)
		if now, err := ReadRaw(B); err == nil && c.R.P(0.5) {
			data = Near(c, now)
			c.Event("wrote something close to the present content")
		}
		c.Op(op, p, len(data), mon.HashString(string(data)))
		arg := BytesOf(data)
		before := snapshotPerm(B)
		free := writeOnly(B)
		got := g.s.Write(A, arg)
		if free && !got {
			g.outcome(op, got)
		} else {
			g.agree(op, p, got, WriteRaw(B, data, 0o666))
		}
		c.Check(StringOf(arg) == string(data), "Write(%s) changed the bytes it was given", p)
		if got {
			c.Event("wrote")
			if before == nil { // the mode of a new file is not part of the property
				g.adoptMode(A, B)
			}
		}
		g.same(op, p)
	case "Read", "ReadToString":
		if g.blocks(A) {
			return
		}
		c.Op(op, p)
		f := g.s.Read
		if op == "ReadToString" {
			f = g.s.ReadToString
		}
		text, got := f(A)
		want, err := ReadRaw(B)
		g.agree(op, p, got, err)
		if got {
			c.Check(text == string(want), "%s(%s) returned %s, the file holds %s", op, p, Short(text), Short(string(want)))
			if text == "" {
				c.Event("read an empty file")
			}
		}
		g.same(op, p)
	case "Copy":
		q := g.rel()
		if c.R.P(0.05) {
			q = p
		}
		A2, B2 := g.spell(q)
		if g.blocks(A) || g.blocks(A2) {
			return
		}
		c.Op(op, p, q)
		g.copy(p, q, A, A2, B, B2)
	}
}

// writeOnly reports whether the path is a file the acting user may write but
// not read. Opening it for both is refused, opening it for writing is not, so
// either outcome of a write is right if told truly.
func writeOnly(p string) bool {
	if fd, err := syscall.Open(p, syscall.O_WRONLY|syscall.O_CLOEXEC|syscall.O_NONBLOCK, 0); err == nil {
		syscall.Close(fd)
		fd, err = syscall.Open(p, syscall.O_RDWR|syscall.O_CLOEXEC|syscall.O_NONBLOCK, 0)
		if err == nil {
			syscall.Close(fd)
		}
		return err != nil
	}
	return false
}

func snapshotPerm(p string) *os.FileMode {
	var m *os.FileMode
	Outside(func() {
		if fi, err := os.Stat(p); err == nil {
			x := fi.Mode()
			m = &x
		}
	})
	return m
}

func (g *rig) adoptMode(A, B string) {
	Outside(func() {
		fa, e1 := os.Stat(A)
		fb, e2 := os.Stat(B)
		if e1 == nil && e2 == nil && fb.Mode().IsRegular() {
			Must(os.Chmod(B, fa.Mode().Perm()))
		}
	})
}

var errSame = errors.New("source and destination are one file")

// copyRaw is what Copy has to do, by plain system calls.
func copyRaw(from, to string) error {
	data, err := ReadRaw(from)
	if err != nil {
		return err
	}
	var st, dt syscall.Stat_t
	if err := syscall.Stat(from, &st); err != nil {
		return err
	}
	if syscall.Stat(to, &dt) == nil && st.Ino == dt.Ino && st.Dev == dt.Dev {
		return errSame
	}
	if err := WriteRaw(to, data, 0o600); err != nil {
		return err
	}
	return syscall.Chmod(to, st.Mode&0o777)
}

func (g *rig) copy(p, q, A, A2, B, B2 string) {
	c := g.c
	args := p + "," + q
	existed := snapshotPerm(B2) != nil
	free := writeOnly(B2)
	got := g.s.Copy(A, A2)
	if free && !got {
		g.outcome("Copy", got)
		g.same("Copy", args)
		return
	}
	err := copyRaw(B, B2)
	if err == errSame {
		// Nothing to do: success and refusal are both true if nothing changed.
		g.outcome("Copy", got)
		c.Event("copied onto itself")
		g.same("Copy", args)
		return
	}
	g.agree("Copy", args, got, err)
	g.same("Copy", args)
	if !got {
		return
	}
	if existed {
		c.Event("copied over an existing file")
	}
	Outside(func() {
		f1, e1 := os.Stat(A)
		f2, e2 := os.Stat(A2)
		Must(e1)
		Must(e2)
		c.Check(!os.SameFile(f1, f2), "Copy(%s) made the two names one file, not an independent copy", args)
	})
	if c.R.P(0.5) && !g.blocks(A) { // writing to one must leave the other
		pp, X, Y := p, A, B
		if c.R.Bool() {
			pp, X, Y = q, A2, B2
		}
		data := Content(c, 5000)
		c.Op("Write", pp, len(data))
		free := writeOnly(Y)
		if got := g.s.Write(X, BytesOf(data)); got || !free {
			g.agree("Write", pp, got, WriteRaw(Y, data, 0o666))
		}
		g.same("Write to one side of a copy", args)
	}
}

// dirs lists the directories below another one.
func (g *rig) dirs() []string {
	var out []string
	for k, v := range Snapshot(g.a) {
		if v.kind == "dir" && strings.Contains(k, "/") && len(k) < 400 {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// setup puts something into both trees by plain system calls.
func (g *rig) setup(p, A, B string, contents bool) {
	c := g.c
	if p == "" || strings.ContainsRune(p, 0) {
		return
	}
	kind := c.R.N(6)
	if !contents && c.R.P(0.15) {
		kind = 6
	}
	data := Content(c, 5000)
	target := mon.Pick(c.R, g.names...)
	if kind == 0 && c.R.P(0.4) {
		target += "/" + mon.Pick(c.R, g.names...)
		if dirs := g.dirs(); c.R.P(0.7) && !strings.Contains(p, "/") && len(dirs) > 0 {
			target = mon.Pick(c.R, dirs...)
		}
	}
	c.Op("setup", p, kind)
	both := func(f func(string) error) { // applied to both or to neither
		if e := f(A); e == nil {
			Must(f(B))
		}
	}
	switch kind {
	case 0:
		both(func(x string) error { return syscall.Symlink(target, x) })
	case 6: // a second name
		old := g.rel()
		both(func(x string) error {
			root := g.a
			if strings.HasPrefix(x, g.b) {
				root = g.b
			}
			return syscall.Link(filepath.Join(root, old), x)
		})
	case 1:
		both(func(x string) error { return syscall.Mkfifo(x, 0o644) })
	case 2:
		both(func(x string) error { return syscall.Mknod(x, syscall.S_IFSOCK|0o644, 0) })
	case 3:
		both(func(x string) error { return syscall.Mkdir(x, 0o755) })
	default:
		if _, err := os.Lstat(A); err != nil {
			both(func(x string) error { return WriteRaw(x, data, 0o644) })
		}
	}
}

// list checks one directory listing against the raw directory.
func (g *rig) list(p, A string) {
	// Opening a pipe may wait for its writer: that is no answer, not a wrong one.
	if fi, err := os.Stat(A); err == nil && fi.Mode()&os.ModeNamedPipe != 0 {
		return
	}
	es, got := g.s.ReadDir(A)
	raw, err := RawNames(A)
	g.agree("ReadDir", p, got, err)
	if got {
		CheckListing(g.c, p, A, es, raw)
	}
}

// rawNames reads the entry names of a directory as the acting user.
func RawNames(p string) ([]string, error) {
	fd, err := syscall.Open(p, syscall.O_RDONLY|syscall.O_DIRECTORY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	defer syscall.Close(fd)
	var names []string
	buf := make([]byte, 1<<15)
	for {
		n, err := syscall.ReadDirent(fd, buf)
		if err != nil {
			return nil, err
		}
		if n <= 0 {
			return names, nil
		}
		_, _, names = syscall.ParseDirent(buf[:n], -1, names)
	}
}

func CheckListing(c *mon.Case, p, A string, es []gost.DirEntry, raw []string) {
	c.Evals(1 + len(es))
	if len(raw) == 0 {
		c.Event("listed an empty directory")
	}
	want := map[string]bool{}
	for _, n := range raw {
		want[n] = true
	}
	seen := map[string]bool{}
	for _, e := range es {
		n := string(e.FileName)
		c.Check(want[n], "ReadDir(%s) names %q, which is not in the directory (it holds %d entries, %d were listed)", p, n, len(raw), len(es))
		c.Check(!seen[n], "ReadDir(%s) names %q twice", p, n)
		seen[n] = true
		Outside(func() {
			fi, err := os.Lstat(A + "/" + n)
			Must(err)
			k := kindOf(fi.Mode())
			d, f, s := bool(e.FileType.IsDir()), bool(e.FileType.IsFile()), bool(e.FileType.IsSymlink())
			c.Check(d == (k == "dir") && f == (k == "file") && s == (k == "symlink"),
				"ReadDir(%s) entry %q is a %s, reported dir=%v file=%v symlink=%v", p, n, k, d, f, s)
			pi, err := os.Lstat(string(e.Path))
			c.Check(err == nil, "ReadDir(%s) entry %q has path %q, which does not lead to it: %v", p, n, string(e.Path), err)
			c.Check(os.SameFile(fi, pi), "ReadDir(%s) entry %q has path %q, which leads to something else", p, n, string(e.Path))
			c.Event("listed a " + map[string]string{"dir": "directory", "file": "file", "symlink": "symlink", "other": "special file"}[k])
		})
	}
	for _, n := range raw {
		c.Check(seen[n], "ReadDir(%s) misses %q", p, n)
	}
}

func HistoryOf(c *mon.Case, s Sut, contents bool) {
	history(newRig(c, s), contents)
}

// RelativeHistoryOf is a history of operations on relative paths.
func RelativeHistoryOf(c *mon.Case, s Sut, contents bool) {
	g := newRig(c, s)
	var back func()
	// The name of the working directory begins like another one.
	below := g.names[0] + "w"
	if len(below) > 255 {
		below = "w"
	}
	for _, root := range []string{g.a, g.b} {
		Must(os.Mkdir(filepath.Join(root, below), 0o755))
	}
	g.s, back = Relative(c, s, g.a, filepath.Join(g.a, below))
	defer back()
	history(g, contents)
}

func history(g *rig, contents bool) {
	c := g.c
	defer g.done()
	if g.bound {
		c.Event("permission bits bind")
	}
	for i, n := 0, c.R.In(12, 40); i < n; i++ {
		g.step(contents)
	}
	if g.ok >= 4 && g.bad >= 1 {
		c.Nontrivial()
	}
}
