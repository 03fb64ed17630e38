package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"

	"gostverif/fsmon"
	"gostverif/mon"
)

func init() {
	mon.Reg("M03", "async-file-contents", 600, 12000, func(c *mon.Case) { fsmon.HistoryOf(c, async, true) })
	mon.Reg("M03", "async-file-tree", 900, 18000, func(c *mon.Case) { fsmon.HistoryOf(c, async, false) })
	mon.Reg("M03", "async-files-side-by-side", 180, 3600, asyncParallel)
	for _, k := range []string{"CreateDir", "RemoveDir", "RemoveFile", "Rename", "ReadDir", "Write", "Read", "ReadToString", "Copy"} {
		mon.Need("M03", "ok:"+k, 5)
		mon.Need("M03", "refused:"+k, 5)
	}
}

// wait awaits a result twice: the second must be the first.
func wait[T any](f gost.Future[gost.Result[T]]) gost.Result[T] {
	r := f.Await()
	s := f.Await()
	if r.IsOk() != s.IsOk() || r.IsErr() != s.IsErr() {
		panic(fmt.Sprintf("two awaits of one operation differ: ok=%v, then ok=%v", r.IsOk(), s.IsOk()))
	}
	return r
}

func str(s string) gost.String { return gost.String(s) }

var async = fsmon.Sut{
	Elsewhere:  true,
	CreateDir:  func(p string) bool { return fsmon.OkOf(wait(gokio.CreateDir(str(p)))) },
	RemoveDir:  func(p string) bool { return fsmon.OkOf(wait(gokio.RemoveDir(str(p)))) },
	RemoveFile: func(p string) bool { return fsmon.OkOf(wait(gokio.RemoveFile(str(p)))) },
	Rename:     func(a, b string) bool { return fsmon.OkOf(wait(gokio.Rename(str(a), str(b)))) },
	Copy:       func(a, b string) bool { return fsmon.OkOf(wait(gokio.Copy(str(a), str(b)))) },
	Write:      func(p string, d []gost.Byte) bool { return fsmon.OkOf(wait(gokio.Write(str(p), d))) },
	Read: func(p string) (string, bool) {
		r := wait(gokio.Read(str(p)))
		if !fsmon.OkOf(r) {
			return "", false
		}
		return fsmon.StringOf(r.Unwrap()), true
	},
	ReadToString: func(p string) (string, bool) {
		r := wait(gokio.ReadToString(str(p)))
		if !fsmon.OkOf(r) {
			return "", false
		}
		return string(r.Unwrap()), true
	},
	ReadDir: func(p string) ([]gost.DirEntry, bool) {
		r := wait(gokio.ReadDir(str(p)))
		if !fsmon.OkOf(r) {
			return nil, false
		}
		v := r.Unwrap()
		out := make([]gost.DirEntry, int(v.Len()))
		for i := range out {
			out[i] = v.GetUnchecked(gost.USize(i))
		}
		return out, true
	},
}

// asyncParallel: operations on different files in flight together.
func asyncParallel(c *mon.Case) {
	d := fsmon.Scratch(c)
	defer fsmon.Remove(c, d)
	n := c.R.In(2, 20)
	c.Op("files", n)
	data := make([][]byte, n)
	path := make([]string, n)
	for i := range data {
		data[i] = fsmon.Content(c, 20000)
		path[i] = filepath.Join(d, fmt.Sprintf("f%d", i))
	}
	all := func(what string, start func(i int) gost.Future[gost.Result[any]]) {
		fs := make([]gost.Future[gost.Result[any]], n)
		for i := range fs {
			fs[i] = start(i)
		}
		for _, i := range perm(c, n) {
			c.Check(fsmon.OkOf(wait(fs[i])), "asynchronous %s number %d reported an error", what, i)
		}
		c.Evals(n)
	}
	check := func(what, suffix string) {
		for i := range path {
			b, err := os.ReadFile(path[i] + suffix)
			c.Check(err == nil && string(b) == string(data[i]), "after awaiting asynchronous %s, file %d holds %d bytes instead of %d (%v)", what, i, len(b), len(data[i]), err)
		}
		c.Evals(n)
	}
	all("write", func(i int) gost.Future[gost.Result[any]] { return gokio.Write(str(path[i]), fsmon.BytesOf(data[i])) })
	check("write", "")
	all("copy", func(i int) gost.Future[gost.Result[any]] { return gokio.Copy(str(path[i]), str(path[i]+".c")) })
	check("copy", ".c")
	all("rename", func(i int) gost.Future[gost.Result[any]] { return gokio.Rename(str(path[i]), str(path[i]+".r")) })
	check("rename", ".r")
	reads := make([]gost.Future[gost.Result[[]gost.Byte]], n)
	texts := make([]gost.Future[gost.Result[gost.String]], n)
	for i := range reads {
		reads[i] = gokio.Read(str(path[i] + ".r"))
		texts[i] = gokio.ReadToString(str(path[i] + ".c"))
	}
	var g mon.Group
	for t := 0; t < 2; t++ {
		g.Go(func() {
			for i := range reads {
				a, b := wait(reads[i]), wait(texts[i])
				if !fsmon.OkOf(a) || fsmon.StringOf(a.Unwrap()) != string(data[i]) {
					panic(fmt.Sprintf("asynchronous read of file %d returned something else than its %d bytes", i, len(data[i])))
				}
				if !fsmon.OkOf(b) || string(b.Unwrap()) != string(data[i]) {
					panic(fmt.Sprintf("asynchronous text read of file %d returned something else than its %d bytes", i, len(data[i])))
				}
			}
		})
	}
	g.Wait()
	c.Evals(4 * n)
	all("file removal", func(i int) gost.Future[gost.Result[any]] { return gokio.RemoveFile(str(path[i] + ".r")) })
	all("file removal", func(i int) gost.Future[gost.Result[any]] { return gokio.RemoveFile(str(path[i] + ".c")) })
	all("directory creation", func(i int) gost.Future[gost.Result[any]] { return gokio.CreateDir(str(path[i])) })
	es, err := os.ReadDir(d)
	fsmon.Must(err)
	c.Check(len(es) == n, "after creating %d directories there are %d entries", n, len(es))
	all("directory removal", func(i int) gost.Future[gost.Result[any]] { return gokio.RemoveDir(str(path[i])) })
	es, err = os.ReadDir(d)
	fsmon.Must(err)
	c.Check(len(es) == 0, "after removing everything there are %d entries", len(es))
	c.Nontrivial()
}

func perm(c *mon.Case, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	mon.Shuffle(c.R, p)
	return p
}
