package main

import (
	"fmt"
	"io"
	"os"
	"syscall"
	"unsafe"
)

// openTTY makes a pseudo terminal that passes output unchanged. After the
// program was started and done called, wait returns what was written.
func openTTY() (tty *os.File, done func(), wait func() []byte) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	must(err)
	ioctl := func(f *os.File, req uintptr, arg unsafe.Pointer) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg)); e != 0 {
			die("ioctl: %v", e)
		}
	}
	var n, unlock int32
	ioctl(m, 0x80045430, unsafe.Pointer(&n))      // TIOCGPTN
	ioctl(m, 0x40045431, unsafe.Pointer(&unlock)) // TIOCSPTLCK
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	must(err)
	var t syscall.Termios
	ioctl(s, syscall.TCGETS, unsafe.Pointer(&t))
	t.Oflag &^= syscall.OPOST
	t.Lflag &^= syscall.ECHO
	ioctl(s, syscall.TCSETS, unsafe.Pointer(&t))
	out := make(chan []byte, 1)
	go func() {
		b, _ := io.ReadAll(m)
		m.Close()
		out <- b
	}()
	return s, func() { s.Close() }, func() []byte { return <-out }
}
