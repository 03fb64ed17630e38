// Command files monitors the file and directory operations (D01, D02) inside a
// scratch directory, on threads that act as an unprivileged user.
package main

import (
	"os"
	"os/signal"
	"syscall"

	"gostverif/mon"
)

func main() {
	// SIGXFSZ becomes the EFBIG error of the write, as the size-limit child needs.
	signal.Ignore(syscall.SIGXFSZ)
	syscall.Umask(0o022)
	if len(os.Args) > 1 && os.Args[1] == "limited-child" {
		limitedChild(os.Args[2:])
		return
	}
	mon.Main()
}
