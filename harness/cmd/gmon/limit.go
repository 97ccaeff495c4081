package main

import (
	"os/signal"
	"syscall"

	"github.com/mmcloughlin/trunnel/verif/report"
)

// setLimit limits the size of files that this process writes; negative lifts
// the limit.
func setLimit(n int64) {
	signal.Ignore(syscall.SIGXFSZ)
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		report.Fatal("%v", err)
	}
	l.Cur = l.Max
	if n >= 0 {
		l.Cur = uint64(n)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		report.Fatal("%v", err)
	}
}
