package main

import (
	"image"
	"os"
	"os/signal"
	"sort"
	"syscall"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

// rawPipe is a pipe whose descriptors start out in blocking mode, as a
// terminal's do, and so are not managed by the runtime poller.
func rawPipe(t *T) (r, w *os.File) {
	var fds [2]int
	if err := syscall.Pipe2(fds[:], syscall.O_CLOEXEC); err != nil {
		t.Inconclusive("pipe: %v", err)
	}
	r, w = os.NewFile(uintptr(fds[0]), "r"), os.NewFile(uintptr(fds[1]), "w")
	t.Cleanup(func() { r.Close(); w.Close() })
	if t.large { // room for what is written before any of it is read
		const setPipeSize = 1031
		if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fds[1]), setPipeSize, 1<<18); e != 0 {
			t.Inconclusive("pipe size: %v", e)
		}
	}
	return r, w
}

// curState is the observable part of a cursor.
type curState struct {
	x, y    int
	attr    ansi.SGRAttr
	visible bool
}

func curOf(c anansi.Cursor) curState { return curState{c.X, c.Y, c.Attr, c.Visible} }

func sameScreen(a, b anansi.Screen) string {
	if a.Rect != b.Rect {
		return "sizes differ"
	}
	if curOf(a.Cursor) != curOf(b.Cursor) {
		return "cursors differ: " + a.Cursor.String() + " vs " + b.Cursor.String()
	}
	for y := a.Rect.Min.Y; y < a.Rect.Max.Y; y++ {
		for x := a.Rect.Min.X; x < a.Rect.Max.X; x++ {
			i, _ := a.CellOffset(ansi.Pt(x, y))
			if a.Rune[i] != b.Rune[i] || a.Attr[i] != b.Attr[i] {
				return "cells differ at " + ansi.Pt(x, y).String() + ": " +
					string(a.Rune[i]) + " " + a.Attr[i].String() + " vs " + string(b.Rune[i]) + " " + b.Attr[i].String()
			}
		}
	}
	return ""
}

func imgPt(x, y int) image.Point { return image.Pt(x, y) }

func sortStrings(ss []string) { sort.Strings(ss) }

func notifyIO(c chan os.Signal)   { signal.Notify(c, syscall.SIGIO) }
func stopNotify(c chan os.Signal) { signal.Stop(c) }

// large makes a workload use large sizes, see size.
func large(run func(t *T)) func(t *T) {
	return func(t *T) {
		t.large = true
		run(t)
	}
}

// size returns a width and height of up to the given ones, or, in a large
// workload, ones around and above what real terminals have.
func (t *T) size(wlo, whi, hlo, hhi int) (w, h int) {
	if !t.large {
		return t.R(wlo, whi), t.R(hlo, hhi)
	}
	big := func(hi int) int {
		if t.Bool() {
			return min([]int{79, 80, 81, 99, 100, 101, 127, 128, 129, 131, 132, 133, 255, 256, 257, 511, 512, 513}[t.N(18)], hi)
		}
		return t.R(60, hi)
	}
	switch t.N(6) {
	case 0, 1:
		return big(1200), t.R(1, 4)
	case 2, 3:
		return t.R(1, 4), big(1200)
	case 4:
		return big(300), big(60)
	default:
		return big(150), big(260)
	}
}
