package harness

import "syscall"

func setUmask(m int) { syscall.Umask(m) }
