package main

import (
	"os"
	"strconv"
	"syscall"
	"unsafe"
)

//go:uintptrescapes
func ioctl(fd int, req, arg uintptr) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), req, arg); e != 0 {
		return e
	}
	return nil
}

// openPty opens a pseudo terminal. The slave's descriptor is a blocking one
// that the runtime poller does not manage, like an inherited terminal's.
func openPty(t *T) (master int, slave *os.File) {
	master, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		t.Inconclusive("ptmx: %v", err)
	}
	t.Cleanup(func() {
		if master >= 0 {
			syscall.Close(master)
		}
	})
	var n uint32
	if err := ioctl(master, syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); err != nil {
		t.Inconclusive("ptn: %v", err)
	}
	var lock int32
	if err := ioctl(master, syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&lock))); err != nil {
		t.Inconclusive("unlockpt: %v", err)
	}
	name := "/dev/pts/" + strconv.Itoa(int(n))
	fd, err := syscall.Open(name, syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		t.Inconclusive("%s: %v", name, err)
	}
	slave = os.NewFile(uintptr(fd), name)
	t.Cleanup(func() { slave.Close() })
	return master, slave
}

func getTermios(fd int) (tio syscall.Termios, err error) {
	err = ioctl(fd, syscall.TCGETS, uintptr(unsafe.Pointer(&tio)))
	return
}

func setTermios(fd int, tio syscall.Termios) error {
	return ioctl(fd, syscall.TCSETS, uintptr(unsafe.Pointer(&tio)))
}

func setWinsize(fd int, w, h int) error {
	ws := [4]uint16{uint16(h), uint16(w)}
	return ioctl(fd, syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws)))
}

func winsize(fd int) (w, h int) {
	var ws [4]uint16
	ioctl(fd, syscall.TIOCGWINSZ, uintptr(unsafe.Pointer(&ws)))
	return int(ws[1]), int(ws[0])
}

// inQueue returns how many bytes can be read.
func inQueue(fd int) int {
	var n int32
	ioctl(fd, 0x541B, uintptr(unsafe.Pointer(&n))) // FIONREAD
	return int(n)
}

func getFlags(fd int) int {
	r, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_GETFL, 0)
	if e != 0 {
		return -1
	}
	return int(r)
}

func setFlags(fd int, flags int) error {
	if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_SETFL, uintptr(flags)); e != 0 {
		return e
	}
	return nil
}

// rawTermios is a terminal that passes everything through.
func rawTermios(tio syscall.Termios) syscall.Termios {
	tio.Iflag = 0
	tio.Oflag &^= syscall.OPOST
	tio.Lflag &^= syscall.ECHO | syscall.ICANON | syscall.ISIG | syscall.IEXTEN
	tio.Cc[syscall.VMIN] = 1
	tio.Cc[syscall.VTIME] = 0
	return tio
}

type pollFd struct {
	fd      int32
	events  int16
	revents int16
}

func poll(p []pollFd, ms int) int {
	n, _, e := syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&p[0])), uintptr(len(p)), uintptr(ms))
	if e != 0 {
		return -1
	}
	return int(n)
}
