package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	. "gostverif/fsmon"
	"gostverif/mon"
)

func init() {
	mon.Reg("D02", "paths-over-links", 60, 1200, pathsOverLinks)
	mon.Reg("D02", "long-paths", 120, 2400, longPaths)
	mon.Need("D02", "listed a directory above a link's target", 40)
	mon.Need("D02", "path of the greatest length", 4)
	mon.Need("D02", "path that is too long", 8)
}

// pathsOverLinks: from a link to a directory, ".." leads to the directory that
// holds its target, not to the one that holds the link.
func pathsOverLinks(c *mon.Case) {
	Unprivileged()
	d := Scratch(c)
	defer Remove(c, d)
	depth := c.R.In(1, 4)
	at := d
	for i := 0; i < depth; i++ {
		at = filepath.Join(at, mon.Pick(c.R, "x", "y", "z"))
		Must(os.Mkdir(at, 0o755))
	}
	target := filepath.Join(at, "target")
	Must(os.Mkdir(target, 0o755))
	to, err := filepath.Rel(d, target)
	Must(err)
	if c.R.Bool() {
		to = target
	}
	Must(os.Symlink(to, filepath.Join(d, "link")))
	n := c.R.In(1, 5)
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("f%d", i)
		Must(WriteRaw(filepath.Join(at, name), []byte(name), 0o644))
		if c.R.P(0.6) { // a namesake beside the link
			Must(os.Mkdir(filepath.Join(d, name), 0o755))
		}
	}
	up := d + "/link/.." + mon.Pick(c.R, "", "/", "/.", "/target/..", "/../"+filepath.Base(at))
	c.Op("above the target of a link", depth, up[len(d):], n)
	before := Snapshot(d)
	es, ok := Direct.ReadDir(up)
	raw, err := RawNames(up)
	Must(err)
	c.Check(ok, "listing %s reported an error", up[len(d):])
	CheckListing(c, up[len(d):], up, es, raw)
	c.Event("listed a directory above a link's target")
	c.Check(len(Diff(before, Snapshot(d))) == 0, "listing a directory changed it")
	// The same with the other operations.
	f := up + "/f0"
	got, ok := Direct.ReadToString(f)
	c.Check(ok && got == "f0", "reading %s returned %s (success: %v)", f[len(d):], Short(got), ok)
	c.Check(Direct.Copy(f, up+"/copied"), "copying %s reported an error", f[len(d):])
	c.Check(Direct.CreateDir(up+"/made"), "creating a directory in %s reported an error", up[len(d):])
	c.Check(Direct.Rename(up+"/made", up+"/renamed"), "renaming in %s reported an error", up[len(d):])
	c.Check(Direct.RemoveFile(f), "removing %s reported an error", f[len(d):])
	pre, err := filepath.Rel(d, at)
	Must(err)
	before[pre+"/copied"] = before[pre+"/f0"]
	delete(before, pre+"/f0")
	after := Snapshot(d)
	before[pre+"/renamed"] = after[pre+"/renamed"]
	c.Check(len(Diff(after, before)) == 0, "operations in %s did something else than named: %v", up[len(d):], Diff(after, before))
	c.Check(Direct.RemoveDir(up+"/renamed"), "removing a directory in %s reported an error", up[len(d):])
	c.Evals(8)
	c.Nontrivial()
}

// longPaths: paths up to the system's limit work, longer ones are refused.
func longPaths(c *mon.Case) {
	Unprivileged()
	d := Scratch(c)
	defer Remove(c, d)
	const limit = 4095
	total := mon.Pick(c.R, limit, limit, limit-1, limit+1, limit+1, limit+2, 1023, 1024, 1025, 2047, 2048, 2049, 3000+c.R.N(1000), 4200, 9000)
	// A chain of directories, with room for a last name.
	p := d
	for total-len(p) > 252 && len(p) < limit-300 {
		p += "/" + strings.Repeat(mon.Pick(c.R, "a", "b"), 200)
		Must(syscall.Mkdir(p, 0o755))
	}
	fits := total <= limit
	name := func(k string) string {
		n := total - len(p) - 1
		if n > 255 {
			return p + "/" + strings.Repeat("./", (n-10)/2) + k + strings.Repeat("z", n-(n-10)/2*2-1)
		}
		return p + "/" + k + strings.Repeat("z", n-1)
	}
	c.Op("paths of length", total, len(p))
	data := Content(c, 3000)
	file, copied, dir, moved := name("f"), name("c"), name("d"), name("m")
	c.Check(len(file) == total, "harness: length")
	before := Snapshot(d)
	near := p + "/near"
	Must(WriteRaw(near, data, 0o644))
	outcome := func(ok bool, op string) bool {
		c.Evals(1)
		c.Check(ok == fits, "%s with a path of %d bytes: success reported %v, due %v", op, total, ok, fits)
		return ok
	}
	if outcome(Direct.Write(file, BytesOf(data)), "Write") {
		b, err := ReadRaw(file)
		Must(err)
		c.Check(string(b) == string(data), "a file with a path of %d bytes holds %s, written was %s", total, Short(string(b)), Short(string(data)))
	}
	for _, str := range []bool{false, true} {
		got, ok := readBoth(c, file, str)
		if outcome(ok, "reading") {
			c.Check(got == string(data), "reading a path of %d bytes returned %s, the file holds %s", total, Short(got), Short(string(data)))
		}
	}
	outcome(Direct.Copy(near, copied), "Copy to it")
	if outcome(Direct.Copy(file, near), "Copy from it") {
		b, err := ReadRaw(near)
		Must(err)
		c.Check(string(b) == string(data), "a copy from a path of %d bytes holds something else", total)
	}
	outcome(Direct.CreateDir(dir), "CreateDir")
	if es, ok := Direct.ReadDir(dir); outcome(ok, "ReadDir") {
		c.Check(len(es) == 0, "an empty directory with a path of %d bytes was listed with %d entries", total, len(es))
	}
	outcome(Direct.Rename(file, moved), "Rename")
	outcome(Direct.RemoveFile(moved), "RemoveFile")
	outcome(Direct.RemoveFile(copied), "RemoveFile")
	outcome(Direct.RemoveDir(dir), "RemoveDir")
	Must(syscall.Unlink(near))
	c.Check(len(Diff(before, Snapshot(d))) == 0, "operations with paths of %d bytes left something: %v", total, Diff(before, Snapshot(d)))
	if total == limit {
		c.Event("path of the greatest length")
	}
	if !fits {
		c.Event("path that is too long")
	}
	c.Nontrivial()
}
