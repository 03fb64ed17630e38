package fsmon

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"

	"gostverif/mon"
)

// unprivileged makes the calling goroutine's thread act on files as "nobody"
// for the rest of the goroutine's life. It reports whether that took effect:
// then permission bits bind, and no path outside the scratch directory can be
// changed by an escaped call.
func Unprivileged() bool {
	runtime.LockOSThread() // never unlocked: the thread ends with the case
	const nobody = 65534
	syscall.RawSyscall(syscall.SYS_SETFSGID, nobody, 0, 0)
	syscall.RawSyscall(syscall.SYS_SETFSUID, nobody, 0, 0)
	if os.Geteuid() != 0 {
		return false // already confined; but then nothing can look past permission bits
	}
	now, _, _ := syscall.RawSyscall(syscall.SYS_SETFSUID, ^uintptr(0), 0, 0)
	return now == nobody
}

// outside runs f on a thread that kept the process's own identity.
func Outside(f func()) {
	done := make(chan any)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	if r := <-done; r != nil {
		panic(r)
	}
}

var dirNo atomic.Int64

// scratch makes a new directory owned by the acting user.
func Scratch(c *mon.Case) string {
	d := filepath.Join(c.Dir, fmt.Sprintf("d%d", dirNo.Add(1)))
	Outside(func() {
		Must(os.Mkdir(d, 0o777))
		Must(os.Chmod(d, 0o777))
	})
	return d
}

// remove deletes a scratch directory, whatever its permission bits.
func Remove(c *mon.Case, d string) {
	if !strings.HasPrefix(d, c.Dir+"/d") {
		panic("not a scratch directory: " + d)
	}
	Outside(func() {
		if os.Geteuid() != 0 {
			filepath.WalkDir(d, func(p string, e os.DirEntry, err error) error {
				if err == nil && e.IsDir() {
					os.Chmod(p, 0o777)
				}
				return nil
			})
		}
		os.RemoveAll(d)
	})
}

func Must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

type Node struct {
	kind string // file, dir, symlink, other
	perm os.FileMode
	data string // content or link target
}

func kindOf(m os.FileMode) string {
	switch {
	case m.IsDir():
		return "dir"
	case m&os.ModeSymlink != 0:
		return "symlink"
	case m.IsRegular():
		return "file"
	}
	return "other"
}

// snapshot reads the whole tree below root, by relative path.
func Snapshot(root string) map[string]Node {
	out := map[string]Node{}
	Outside(func() {
		var walk func(rel string)
		walk = func(rel string) {
			es, err := os.ReadDir(filepath.Join(root, rel))
			Must(err)
			for _, e := range es {
				r := filepath.Join(rel, e.Name())
				full := filepath.Join(root, r)
				fi, err := os.Lstat(full)
				Must(err)
				n := Node{kind: kindOf(fi.Mode()), perm: fi.Mode().Perm()}
				switch n.kind {
				case "file":
					b, err := os.ReadFile(full)
					Must(err)
					n.data = string(b)
				case "symlink":
					n.data, err = os.Readlink(full)
					Must(err)
					n.perm = 0
				}
				out[r] = n
				if n.kind == "dir" {
					walk(r)
				}
			}
		}
		walk("")
	})
	return out
}

func Short(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q...(%d bytes, hash %x)", s[:24], len(s), mon.HashString(s))
	}
	return fmt.Sprintf("%q", s)
}

// diff lists the differences between two snapshots.
func Diff(a, b map[string]Node) []string {
	var out []string
	for k, x := range a {
		y, ok := b[k]
		if !ok {
			out = append(out, fmt.Sprintf("%s: %q %s only in the first", k, x.kind, Short(x.data)))
		} else if x != y {
			out = append(out, fmt.Sprintf("%s: %s %o %s vs %s %o %s", k, x.kind, x.perm, Short(x.data), y.kind, y.perm, Short(y.data)))
		}
	}
	for k, y := range b {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("%s: %q %s only in the second", k, y.kind, Short(y.data)))
		}
	}
	sort.Strings(out)
	return out
}

// readRaw reads a file by plain system calls.
func ReadRaw(p string) ([]byte, error) {
	fd, err := syscall.Open(p, syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	defer syscall.Close(fd)
	var out []byte
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(fd, buf)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return nil, err
		}
		if n == 0 {
			return out, nil
		}
		out = append(out, buf[:n]...)
	}
}

// writeRaw replaces a file's content by plain system calls.
func WriteRaw(p string, data []byte, perm uint32) error {
	fd, err := syscall.Open(p, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC|syscall.O_CLOEXEC, perm)
	if err != nil {
		return err
	}
	defer syscall.Close(fd)
	for len(data) > 0 {
		n, err := syscall.Write(fd, data)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return err
		}
		if n == 0 {
			return io.ErrShortWrite
		}
		data = data[n:]
	}
	return nil
}

// content draws file content: empty, tiny, around buffer sizes, binary.
func Content(c *mon.Case, limit int) []byte {
	var n int
	switch c.R.N(10) {
	case 0:
		n = 0
	case 1:
		n = 1
	case 2, 3, 4, 5:
		n = c.R.In(2, 40)
	case 6:
		n = mon.Pick(c.R, 511, 512, 513, 1023, 1024, 1025)
	case 7:
		n = mon.Pick(c.R, 4095, 4096, 4097, 8191, 8192, 8193)
	case 8:
		n = mon.Pick(c.R, 32767, 32768, 32769, 65535, 65536, 65537)
	default:
		n = c.R.In(41, 3000)
	}
	if n > limit {
		n = limit
	}
	return Fill(c, n)
}

// Near draws content close to what the file holds now: equal, one byte
// changed, cut short, continued, or with a part swapped.
func Near(c *mon.Case, now []byte) []byte {
	out := append([]byte{}, now...)
	switch n := len(now); c.R.N(6) {
	case 0:
	case 1, 2:
		if n > 0 {
			out[mon.Pick(c.R, 0, n/2, n-1, c.R.N(n))] ^= byte(1 + c.R.N(255))
		}
	case 3:
		out = out[:c.R.N(n+1)]
	case 4:
		out = append(out, Fill(c, c.R.In(1, 40))...)
	case 5:
		if n > 1 {
			i, j := c.R.N(n), c.R.N(n)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func Fill(c *mon.Case, n int) []byte {
	b := make([]byte, n)
	defer func() { // marks that a program may be tempted to interpret
		switch c.R.N(12) {
		case 0:
			copy(b, "\xef\xbb\xbf")
		case 1:
			copy(b, "\xff\xfe")
		case 2:
			copy(b, "#!/bin/sh\n")
		case 3:
			copy(b[n-n/2:], strings.Repeat(mon.Pick(c.R, "\n", "\r\n", "\x00", " ", "\x1a"), n/2))
		case 4:
			copy(b, "PK\x03\x04")
		case 5:
			copy(b, "\x1f\x8b\x08")
		}
	}()
	switch c.R.N(4) {
	case 0: // text
		const al = "abc \n\r\tÄ€\U0001F600xyz\n"
		for i := range b {
			b[i] = al[(i*7+int(c.R.U64()&3))%len(al)]
		}
	case 1: // zeros, with a mark at the end
		if n > 0 && c.R.Bool() {
			b[n-1] = 1
		}
	default: // binary
		var x uint64
		for i := range b {
			if i&7 == 0 {
				x = c.R.U64()
			}
			b[i] = byte(x >> (8 * (uint(i) & 7)))
		}
	}
	return b
}
