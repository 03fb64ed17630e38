package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/myyrakle/gost"

	. "gostverif/fsmon"
	"gostverif/mon"
)

func init() {
	mon.Reg("D01", "pipes", 200, 2000, pipes)
	mon.Reg("D01", "system-files", 12, 40, systemFiles)
	mon.Reg("D01", "size-limit", 160, 1600, sizeLimit)
	mon.Reg("D01", "large-files", 40, 400, largeFiles)
	mon.RegSerial("D01", "huge-file", 1, 3, hugeFile)
	mon.Reg("D01", "copy-modes", 256, 4096, copyModes)
	mon.Reg("D02", "large-directory", 8, 60, largeDirectory)
	mon.Reg("D02", "system-directory", 2, 4, systemDirectory)
	mon.Reg("D02", "deep-tree", 40, 400, deepTree)
	mon.Need("D01", "read a pipe delivered in pieces", 20)
	mon.Need("D01", "read a file whose size is not known beforehand", 5)
	mon.Need("D01", "write cut short by the size limit", 10)
	mon.Need("D01", "copy cut short by the size limit", 10)
	mon.Need("D01", "copied permission bits", 20)
	mon.Need("D02", "listed a large directory", 4)
}

func readBoth(c *mon.Case, p string, str bool) (string, bool) {
	if str {
		return Direct.ReadToString(p)
	}
	return Direct.Read(p)
}

// pipes: the content arrives in pieces, and no size is known in advance.
func pipes(c *mon.Case) {
	Unprivileged()
	d := Scratch(c)
	defer Remove(c, d)
	p := filepath.Join(d, "pipe")
	Must(syscall.Mkfifo(p, 0o666))
	n := mon.Pick(c.R, 0, 1, 100, 4096, 5000, 65536, 70000, 200000)
	data := Fill(c, n)
	cuts := c.R.In(1, 6)
	pause := c.R.Bool()
	str := c.R.Bool()
	c.Op("pipe", n, cuts, pause, str)
	sent := make(chan struct{})
	go func() {
		defer close(sent)
		// Blocks until the reader opens its side; a reader that never comes is
		// released below.
		fd, err := syscall.Open(p, syscall.O_WRONLY|syscall.O_CLOEXEC, 0)
		if err != nil {
			return
		}
		defer syscall.Close(fd)
		rest := data
		for i := 0; len(rest) > 0; i++ {
			k := len(data)/cuts + 1
			if k > len(rest) {
				k = len(rest)
			}
			m, err := syscall.Write(fd, rest[:k])
			if err == syscall.EINTR {
				continue
			}
			if err != nil {
				return // the reader closed early; the comparison reports it
			}
			rest = rest[m:]
			if pause {
				time.Sleep(2 * time.Millisecond)
			}
		}
	}()
	got, ok := readBoth(c, p, str)
	if fd, err := syscall.Open(p, syscall.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
		defer syscall.Close(fd)
		select {
		case <-sent:
		case <-time.After(100 * time.Millisecond):
		}
	}
	c.Evals(1)
	c.Check(ok, "reading a pipe that delivers %d bytes in %d pieces reported an error", n, cuts)
	c.Check(got == string(data), "reading a pipe that delivers %d bytes in %d pieces returned %d bytes, %s", n, cuts, len(got), Short(got))
	if n > 1 && cuts > 1 {
		c.Event("read a pipe delivered in pieces")
	}
	c.Nontrivial()
}

// systemFiles: files whose reported size is not their content's.
func systemFiles(c *mon.Case) {
	bound := Unprivileged()
	for _, p := range []string{"/proc/version", "/proc/self/cmdline", "/proc/cpuinfo", "/proc/filesystems", "/proc/sys/kernel/ostype", "/proc/sys/kernel/osrelease", "/sys/kernel/mm/transparent_hugepage/enabled", "/sys/devices/system/cpu/online", "/sys/devices/system/cpu/possible", "/dev/null", "/etc/passwd", "/proc/self/status/x", "/proc/nonexistent", "/proc", "/", "/dev"} {
		for _, str := range []bool{false, true} {
			a, err := ReadRaw(p)
			got, ok := readBoth(c, p, str)
			b, err2 := ReadRaw(p)
			if (err == nil) != (err2 == nil) || string(a) != string(b) {
				continue // it changed meanwhile
			}
			c.Op("read", p, str)
			c.Evals(1)
			if err != nil {
				c.Check(!ok, "reading %s has to be refused (%v), but reported success", p, err)
				continue
			}
			c.Check(ok, "reading %s reported an error", p)
			c.Check(got == string(a), "reading %s returned %s, the file holds %s", p, Short(got), Short(string(a)))
			if strings.HasPrefix(p, "/proc") || strings.HasPrefix(p, "/sys") {
				c.Event("read a file whose size is not known beforehand")
			}
			c.Nontrivial()
		}
	}
	if !bound {
		return // as root nothing outside the scratch directory is written to
	}
	d := Scratch(c)
	defer Remove(c, d)
	src := filepath.Join(d, "src")
	data := Fill(c, c.R.In(1, 9000))
	Must(WriteRaw(src, data, 0o644))
	c.Op("full", len(data))
	if fi, err := os.Stat("/dev/full"); err == nil && fi.Mode()&os.ModeCharDevice != 0 {
		c.Evals(2)
		c.Check(!Direct.Write("/dev/full", BytesOf(data)), "writing %d bytes to a full device reported success", len(data))
		c.Check(!Direct.Copy(src, "/dev/full"), "copying %d bytes to a full device reported success", len(data))
		c.Event("wrote to a full device")
	}
}

// sizeLimit runs a child whose files cannot grow past a limit, so that a write
// or copy is cut short in its middle.
func sizeLimit(c *mon.Case) {
	bound := Unprivileged()
	d := Scratch(c)
	defer Remove(c, d)
	limit := mon.Pick(c.R, 0, 1, 100, 4096, 10000, 65536)
	size := mon.Pick(c.R, limit, limit+1, limit+100, limit/2, limit*3+7)
	old := mon.Pick(c.R, -1, 0, 50, limit+10)
	op := mon.Pick(c.R, "write", "copy")
	data := Fill(c, size)
	src, dst := filepath.Join(d, "src"), filepath.Join(d, "dst")
	Outside(func() {
		Must(os.WriteFile(src, data, 0o644))
		if old >= 0 {
			Must(os.WriteFile(dst, make([]byte, old), 0o644))
		}
		if bound {
			Must(os.Chown(src, 65534, 65534))
			if old >= 0 {
				Must(os.Chown(dst, 65534, 65534))
			}
		}
	})
	c.Op("limit", limit, size, old, op)
	var out []byte
	Outside(func() {
		exe, err := os.Executable()
		Must(err)
		cmd := exec.Command(exe, "limited-child", fmt.Sprint(limit), op, src, dst)
		cmd.Stderr = os.Stderr
		out, err = cmd.Output()
		if err != nil {
			panic(fmt.Sprintf("the child died: %v %s", err, out))
		}
	})
	var ans struct{ Ok bool }
	Must(json.Unmarshal(out, &ans))
	c.Evals(1)
	got, err := os.ReadFile(dst)
	if ans.Ok {
		c.Check(err == nil && string(got) == string(data), "%s of %d bytes under a size limit of %d reported success, but the file holds %d bytes (%v)", op, size, limit, len(got), err)
	}
	if size == limit && op == "copy" {
		// The kernel may refuse to look past the limit for the end of the source.
	} else if size <= limit {
		c.Check(ans.Ok, "%s of %d bytes under a size limit of %d reported an error", op, size, limit)
	} else {
		c.Check(!ans.Ok, "%s of %d bytes under a size limit of %d reported success", op, size, limit)
		c.Event(op + " cut short by the size limit")
	}
	c.Nontrivial()
}

func limitedChild(args []string) {
	Unprivileged()
	var n uint64
	fmt.Sscan(args[0], &n)
	var data []byte
	var err error
	if args[1] == "write" {
		data, err = os.ReadFile(args[2])
		Must(err)
	}
	Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}))
	ok := false
	if args[1] == "write" {
		ok = Direct.Write(args[3], BytesOf(data))
	} else {
		ok = Direct.Copy(args[2], args[3])
	}
	fmt.Printf(`{"Ok": %v}`, ok)
}

// largeFiles: megabytes of binary content through write, copy and both reads.
func largeFiles(c *mon.Case) {
	Unprivileged()
	d := Scratch(c)
	defer Remove(c, d)
	n := mon.Pick(c.R, 1, 1, 1, 2, 3, 5)<<c.R.In(13, 20) + mon.Pick(c.R, 0, 0, 1, -1, 123)
	data := Fill(c, n)
	a, b := filepath.Join(d, "a"), filepath.Join(d, "b")
	c.Op("large", n)
	c.Check(Direct.Write(a, BytesOf(data)), "writing %d bytes reported an error", n)
	raw, err := ReadRaw(a)
	Must(err)
	c.Check(string(raw) == string(data), "after writing %d bytes the file holds %d bytes, %s", n, len(raw), Short(string(raw)))
	c.Check(Direct.Copy(a, b), "copying %d bytes reported an error", n)
	for i, p := range []string{a, b} {
		for _, str := range []bool{false, true} {
			got, ok := readBoth(c, p, str)
			c.Evals(1)
			c.Check(ok, "reading %d bytes reported an error", n)
			c.Check(got == string(data), "reading %d bytes returned %d bytes, %s (file %d)", n, len(got), Short(got), i)
		}
	}
	c.Nontrivial()
}

// hugeFile: a file past the gigabyte a single read can deliver.
func hugeFile(c *mon.Case) {
	Unprivileged()
	d := Scratch(c)
	defer Remove(c, d)
	n := int64(1<<30) + 5
	if c.Tier != "thorough" {
		n = 48<<20 + 5 // past every buffer, not past the memory of a small machine
	}
	p, q := filepath.Join(d, "huge"), filepath.Join(d, "copy")
	f, err := os.Create(p)
	Must(err)
	_, err = f.Write([]byte("begin"))
	Must(err)
	Must(f.Truncate(n))
	_, err = f.WriteAt([]byte("end"), n-3)
	Must(err)
	Must(f.Close())
	c.Op("huge", n)
	c.Check(Direct.Copy(p, q), "copying %d bytes reported an error", n)
	got, ok := Direct.ReadToString(q)
	c.Evals(1)
	c.Check(ok, "reading %d bytes reported an error", n)
	c.Check(int64(len(got)) == n && got[:5] == "begin" && got[n-3:] == "end", "reading back a copy of %d bytes returned %d bytes", n, len(got))
	r := gost.Read(gost.String(p))
	c.Check(OkOf(r), "reading %d bytes reported an error", n)
	v := r.Unwrap()
	c.Evals(1)
	c.Check(int64(len(v)) == n && v[0] == 'b' && v[n-1] == 'd', "reading %d bytes returned %d bytes", n, len(v))
	c.Nontrivial()
}

// copyModes: every owner mode of the source, onto absent and existing files.
func copyModes(c *mon.Case) {
	bound := Unprivileged()
	d := Scratch(c)
	defer Remove(c, d)
	mode := os.FileMode(c.Index*2+c.R.N(2)) & 0o777
	exist := c.R.Bool()
	data := Content(c, 9000)
	src, dst := filepath.Join(d, "src"), filepath.Join(d, "dst")
	Must(WriteRaw(src, data, 0o644))
	Must(os.Chmod(src, mode))
	om := os.FileMode(mon.Pick(c.R, 0o644, 0o600, 0o777, 0o666, 0o755))
	if exist {
		Must(WriteRaw(dst, Content(c, 20000), 0o644))
		Must(os.Chmod(dst, om))
	}
	c.Op("copy", int(mode), exist, int(om), len(data))
	ok := Direct.Copy(src, dst)
	c.Evals(1)
	if bound && mode&0o400 == 0 {
		c.Check(!ok, "copying a file of mode %o, which cannot be read, reported success", mode)
		if exist {
			fi, err := os.Stat(dst)
			c.Check(err == nil && fi.Mode().Perm() == om, "a refused copy changed its destination")
		} else {
			_, err := os.Lstat(dst)
			c.Check(err != nil, "a refused copy left a destination behind")
		}
		return
	}
	c.Check(ok, "copying a file of mode %o reported an error", mode)
	fi, err := os.Stat(dst)
	c.Check(err == nil && fi.Mode().Perm() == mode, "copying a file of mode %o made one of mode %o (existed: %v with %o)", mode, fi.Mode().Perm(), exist, om)
	Outside(func() {
		got, err := os.ReadFile(dst)
		if os.Geteuid() == 0 || mode&0o400 != 0 {
			Must(err)
			c.Check(string(got) == string(data), "copying %d bytes over a longer file left %d bytes", len(data), len(got))
		}
	})
	c.Event("copied permission bits")
	c.Nontrivial()
}

// largeDirectory: a listing longer than one directory read.
func largeDirectory(c *mon.Case) {
	Unprivileged()
	d := Scratch(c)
	defer Remove(c, d)
	n := mon.Pick(c.R, 100, 1000, 1025, 2500)
	for i := 0; i < n; i++ {
		p := filepath.Join(d, fmt.Sprintf("%s%d", strings.Repeat("k", i%90), i))
		switch i % 17 {
		case 3:
			Must(syscall.Mkdir(p, 0o755))
		case 7:
			Must(syscall.Symlink("nowhere", p))
		case 11:
			Must(syscall.Mkfifo(p, 0o600))
		default:
			Must(WriteRaw(p, nil, 0o600))
		}
	}
	c.Op("listing", n)
	before := Snapshot(d)
	es, ok := Direct.ReadDir(d)
	c.Check(ok, "listing a directory of %d entries reported an error", n)
	raw, err := RawNames(d)
	Must(err)
	CheckListing(c, "large", d, es, raw)
	c.Check(len(Diff(before, Snapshot(d))) == 0, "listing a directory changed it")
	c.Event("listed a large directory")
	c.Nontrivial()
}

// systemDirectory: a listing with device nodes in it.
func systemDirectory(c *mon.Case) {
	Unprivileged()
	for _, p := range []string{"/dev", "/"} {
		a, err := RawNames(p)
		es, ok := Direct.ReadDir(p)
		b, err2 := RawNames(p)
		if err != nil || err2 != nil || strings.Join(a, "/") != strings.Join(b, "/") {
			continue
		}
		c.Op("listing", p)
		c.Check(ok, "listing %s reported an error", p)
		CheckListing(c, p, p, es, a)
		c.Nontrivial()
	}
	c.Evals(1)
}

// deepTree: building, moving and taking down a nested tree, by relative and
// absolute paths that pass through links, dots and doubled slashes.
func deepTree(c *mon.Case) {
	Unprivileged()
	d := Scratch(c)
	defer Remove(c, d)
	depth := c.R.In(3, 12)
	p := d
	var dirs []string
	for i := 0; i < depth; i++ {
		p = filepath.Join(p, fmt.Sprintf("l%d", i))
		dirs = append(dirs, p)
		q := p
		switch c.R.N(4) {
		case 0:
			q = filepath.Dir(p) + "//" + filepath.Base(p)
		case 1:
			q = filepath.Dir(p) + "/./" + filepath.Base(p)
		case 2:
			if i > 0 {
				q = filepath.Dir(p) + "/../" + filepath.Base(filepath.Dir(p)) + "/" + filepath.Base(p)
			}
		}
		c.Op("mkdir", q[len(d):])
		c.Check(Direct.CreateDir(q), "creating the directory at depth %d reported an error", i)
		fi, err := os.Lstat(p)
		c.Check(err == nil && fi.IsDir(), "after creating the directory at depth %d it is not there", i)
		c.Check(!Direct.CreateDir(q), "creating an existing directory reported success")
		c.Evals(2)
	}
	k := c.R.N(depth - 1)
	c.Op("remove non-empty", k)
	before := Snapshot(d)
	c.Check(!Direct.RemoveDir(dirs[k]), "removing a non-empty directory reported success")
	c.Check(!Direct.RemoveFile(dirs[k]), "removing a directory as a file reported success")
	c.Check(!Direct.RemoveFile(dirs[depth-1]), "removing an empty directory as a file reported success")
	c.Check(!Direct.Rename(dirs[k], filepath.Join(dirs[depth-1], "x")), "renaming a directory into itself reported success")
	c.Check(len(Diff(before, Snapshot(d))) == 0, "refused operations changed the tree: %v", Diff(before, Snapshot(d)))
	c.Evals(5)
	to := filepath.Join(d, "moved")
	c.Op("rename", k)
	c.Check(Direct.Rename(dirs[k], to), "renaming a directory reported an error")
	want := map[string]Node{}
	pre, _ := filepath.Rel(d, dirs[k])
	for r, n := range before {
		if r == pre || strings.HasPrefix(r, pre+"/") {
			r = "moved" + r[len(pre):]
		}
		want[r] = n
	}
	c.Check(len(Diff(Snapshot(d), want)) == 0, "renaming a directory did not move its tree: %v", Diff(Snapshot(d), want))
	c.Evals(1)
	for i := depth - 1; i >= 0; i-- {
		q := dirs[i]
		if i >= k {
			q = to + dirs[i][len(dirs[k]):]
		}
		c.Check(Direct.RemoveDir(q), "removing the empty directory at depth %d reported an error", i)
		_, err := os.Lstat(q)
		c.Check(os.IsNotExist(err), "after removing the directory at depth %d it is still there", i)
		c.Evals(1)
	}
	c.Check(len(Snapshot(d)) == 0, "the tree is not empty after removing everything")
	c.Nontrivial()
}
