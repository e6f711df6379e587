package main

import (
	"errors"
	"fmt"
	"image"
	"os"
	"strings"
	"syscall"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:    "C11",
		Level: "fault_enumeration",
		Rule:  "screen flushes go to a writer that cuts them short at chosen bytes with would-block and hard errors; the bytes it accepted are interpreted by the reference terminal and the bytes it was offered compared with those still owed; non-trivial by (operations, cut positions, errors)",
		Assumptions: []string{
			"after a hard error the virtual screen is reset (documented), so what is shown next is what was drawn since",
			"cells hold single-width graphic runes",
		},
		Subs: []Sub{
			{Name: "everycut", Quick: 4000, Thorough: 150000, Run: c11EveryCut},
			{Name: "history", Quick: 60000, Thorough: 2500000, Run: c11History},
			{Name: "large-history", Quick: 400, Thorough: 20000, Run: large(c11History)},
			{Name: "session", Quick: 2000, Thorough: 60000, Run: c11Session},
			{Name: "fds", Quick: 300, Thorough: 6000, Run: c11FDs},
		},
	})
}

// faultWriter accepts some bytes of each write, then fails as told.
type faultWriter struct {
	m      *rterm
	accept int   // -1: everything
	err    error // returned once accept is exceeded
	offers []string
	took   int
}

func (f *faultWriter) Write(p []byte) (int, error) {
	f.offers = append(f.offers, string(p))
	if f.accept < 0 || len(p) <= f.accept {
		if f.accept >= 0 {
			f.accept -= len(p)
		}
		f.m.Write(p)
		f.took += len(p)
		return len(p), nil
	}
	n := f.accept
	f.accept = 0
	f.m.Write(p[:n])
	f.took += n
	return n, f.err
}

var errHard = errors.New("hard error")

func wouldBlock(r *Rng) error {
	switch r.N(3) {
	case 0:
		return syscall.EWOULDBLOCK
	case 1:
		return &os.PathError{Op: "write", Path: "/dev/tty", Err: syscall.EAGAIN}
	default:
		return &os.SyscallError{Syscall: "write", Err: syscall.EWOULDBLOCK}
	}
}

func hardError(r *Rng) error {
	switch r.N(3) {
	case 0:
		return errHard
	case 1:
		return &os.PathError{Op: "write", Path: "/dev/tty", Err: syscall.EIO}
	default:
		return syscall.EPIPE
	}
}

// c11Mon is the monitor shared by all C11 workloads.
type c11Mon struct {
	t       *T
	sc      *anansi.ScreenDiffer
	m       *rterm
	owed    string // bytes assembled but not yet accepted
	snapG   anansi.Grid
	snapU   anansi.Cursor
	fresh   bool // a hard error happened: the next update has to repaint everything
	fromErr int
}

// flush does one WriteTo, accepting n bytes (-1 all) before failing with err.
func (c *c11Mon) flush(n int, err error, what string) (done bool) {
	t := c.t
	curG, curU := copyGrid(c.sc.Grid), c.sc.UserCursor
	fw := &faultWriter{m: c.m, accept: n, err: err}
	got, gotErr := c.sc.WriteTo(fw)
	offered := strings.Join(fw.offers, "")
	t.Logf("%s: offered %q, took %d, returned %d, %v", what, offered, fw.took, got, gotErr)
	if int(got) != fw.took {
		t.Fail("%s: %d bytes were accepted, flush returned %d", what, fw.took, got)
	}
	failed := len(offered) > fw.took
	if failed != (gotErr != nil) || failed && gotErr != err {
		t.Fail("%s: the writer failed with %v, flush with %v", what, err, gotErr)
	}
	resumed := c.owed != ""
	if resumed && !strings.HasPrefix(offered, c.owed) {
		t.Fail("%s: %q were not yet accepted, continued with %q", what, c.owed, offered)
	}
	if !resumed || len(offered) > len(c.owed) {
		c.snapG, c.snapU = curG, curU
		if c.fresh && len(offered) > 0 && c.sc.Rect.Dx() > 0 && !strings.Contains(offered, "\x1b[2J") {
			t.Fail("%s: after a failed write, the next update is not a full one: %q", what, offered)
		}
	}
	t.Count("flushes", 1)
	switch {
	case !failed:
		c.owed = ""
		if c.fresh {
			// what the failed write left unfinished may have been shown as
			// garbage, before the full update cleared the screen
			c.m.scrolled = 0
		}
		c.fresh = false
		checkShown(t, c.m, c.snapG, c.snapU, what)
		if resumed {
			t.Count("resumed_to_end", 1)
		}
		return true
	case errors.Is(err, syscall.EWOULDBLOCK):
		c.owed = offered[fw.took:]
		t.Count("would_blocks", 1)
	default:
		c.owed = ""
		c.fresh = true
		t.Count("hard_errors", 1)
		for i := range c.sc.Rune {
			if c.sc.Rune[i] != 0 || c.sc.Attr[i] != 0 {
				t.Fail("%s: cell %d still holds %q %v after a failed write", what, i, c.sc.Rune[i], c.sc.Attr[i])
			}
		}
		if c.sc.UserCursor != (anansi.Cursor{}) {
			t.Fail("%s: the user cursor is still %v after a failed write", what, c.sc.UserCursor)
		}
	}
	return false
}

// compose does one update through a buffer that takes over what is pending.
func (c *c11Mon) compose(what string) {
	t := c.t
	var buf anansi.Buffer
	n, err := c.sc.WriteTo(&buf)
	b := buf.Bytes()
	t.Logf("%s: composed %q, returned %d, %v", what, b, n, err)
	if int(n) != len(b) || err != nil {
		t.Fail("%s: composed %d bytes, returned %d, %v", what, len(b), n, err)
	}
	if !strings.HasPrefix(string(b), c.owed) {
		t.Fail("%s: %q were not yet accepted, composed %q", what, c.owed, b)
	}
	c.m.Write(b)
	c.owed = ""
	if c.fresh {
		c.m.scrolled = 0
	}
	c.fresh = false
	c.snapG, c.snapU = copyGrid(c.sc.Grid), c.sc.UserCursor
	checkShown(t, c.m, c.snapG, c.snapU, what)
	t.Count("composed", 1)
}

func newC11(t *T, w, h int) *c11Mon {
	c := &c11Mon{t: t, m: newRterm(w, h), sc: &anansi.ScreenDiffer{}}
	c.m.noBCE = t.P(1, 3)
	c.m.garbage(t.Rng)
	c.sc.Resize(image.Pt(w, h))
	return c
}

// c11EveryCut cuts one update at each of its byte positions in turn.
func c11EveryCut(t *T) {
	seed := t.U64()
	build := func(rng *Rng) (*c11Mon, int, int, []ansi.SGRAttr) {
		save := t.Rng
		t.Rng = rng
		defer func() { t.Rng = save }()
		w, h := t.R(1, 6), t.R(1, 4)
		c := newC11(t, w, h)
		pal := genPal(t.Rng)
		for k := t.N(3); k > 0; k-- {
			drawOps(t, c.sc, w, h, pal)
			c.flush(-1, nil, "before")
		}
		drawOps(t, c.sc, w, h, pal)
		return c, w, h, pal
	}
	hard := t.Idx%2 == 1
	key := ""
	for cut := 0; cut < 400; cut++ {
		rng := &Rng{seed}
		c, w, h, pal := build(rng)
		save := t.Rng
		t.Rng = rng
		err := wouldBlock(rng)
		if hard {
			err = hardError(rng)
		}
		done := c.flush(cut, err, fmt.Sprintf("cut at %d", cut))
		if !done {
			// draw more, then carry on
			for k := 0; k < 4; k++ {
				key += drawOps(t, c.sc, w, h, pal)
				if c.flush(-1, nil, "after") && c.snapEq() {
					break
				}
			}
			c.flush(-1, nil, "last")
			if !c.snapEq() {
				t.Fail("cut at %d: a completed flush with nothing owed did not show the current screen", cut)
			}
			t.Count("cuts", 1)
		}
		t.Rng = save
		if done {
			t.Distinct(fmt.Sprint(seed, cut, hard))
			break
		}
		t.Distinct(fmt.Sprint(seed, cut, hard))
	}
}

// snapEq tells whether the last assembled frame is the current one.
func (c *c11Mon) snapEq() bool {
	for i := range c.sc.Rune {
		if i >= len(c.snapG.Rune) || looksOf(c.sc.Grid, i) != looksOf(c.snapG, i) {
			return false
		}
	}
	return true
}

func c11History(t *T) {
	w, h := t.size(1, 10, 1, 6)
	c := newC11(t, w, h)
	pal := genPal(t.Rng)
	kinds := fmt.Sprint(w, "x", h)
	for n := t.R(3, 16); n > 0; n-- {
		k := drawOps(t, c.sc, w, h, pal)
		switch t.N(14) {
		case 0:
			part := t.Pick("", "", "\x1b", "\x1b[3", "\x1b]0;x", "\xe2\x96")
			c.sc.WriteString(part)
			c.sc.Clear()
			if k += "C"; part != "" {
				if c.sc.WriteString("A"); c.sc.Rune[0] != 'A' {
					t.Fail("%q, Clear and A leave %q", part, c.sc.Rune[0])
				}
				k += "p"
			}
		case 1:
			c.sc.Invalidate()
			k += "I"
		case 2:
			if c.owed == "" {
				w, h = t.size(1, 10, 1, 6)
				c.m.resize(w, h)
				c.sc.Resize(image.Pt(w, h))
				k += "R"
			}
		case 3:
			c.sc.Reset()
			k += "Z"
		case 4:
			c.compose(k)
			kinds += "/" + k + "B"
			continue
		}
		cut := -1
		var err error
		if t.P(1, 2) {
			cut = t.N(60)
			if t.large && t.P(1, 2) {
				cut = t.N(1 << uint(t.R(6, 17)))
			}
			if t.P(1, 3) {
				cut = t.N(8)
			}
			if t.P(2, 3) {
				err = wouldBlock(t.Rng)
				k += "w"
			} else {
				err = hardError(t.Rng)
				k += "h"
			}
		}
		c.flush(cut, err, k)
		kinds += "/" + k + fmt.Sprint(cut)
	}
	for k := 0; k < 2; k++ {
		if !c.flush(-1, nil, "at end") {
			t.Fail("an unhindered flush did not complete")
		}
	}
	checkShown(t, c.m, c.sc.Grid, c.sc.UserCursor, "at end")
	t.Sample("%s", kinds)
	t.Distinct(kinds)
}

// c11Session: a screen attached to a terminal, that is left and entered again,
// changes its size, and is told to start over, with output pending or failed.
func c11Session(t *T) {
	w, h := t.R(1, 10), t.R(1, 6)
	tty := newTTYMon(t, w, h)
	var ts anansi.TermScreen
	c := &c11Mon{t: t, m: tty.rd, sc: &ts.ScreenDiffer}
	c.m.noBCE = t.P(1, 3)
	any := func() { // something else used the terminal
		c.m.garbage(t.Rng)
		c.m.cur, c.m.vis = rendOf(genAttrAny(t.Rng)), t.Bool()
	}
	any()
	pal := genPal(t.Rng)
	kinds := fmt.Sprint(w, "x", h)
	see := func() {
		tty.see()
		c.m.scrolled = 0
	}
	left := func(when string) {
		pending := c.owed != ""
		see()
		if c.m.cur != rend0 || !c.m.vis || !c.m.idle() {
			t.Fail("%s after %s: the terminal is left with %+v, cursor shown %v, in a sequence %v (output pending before %v)", when, kinds, c.m.cur, c.m.vis, !c.m.idle(), pending)
		}
		c.owed, c.fresh = "", true
		t.Count("left", 1)
	}
	term := anansi.NewTerm(tty.in, tty.out)
	term.AddContext(&ts)
	err := term.RunWith(func(term *anansi.Term) error {
		c.fresh = true
		for n := t.R(2, 12); n > 0; n-- {
			see()
			k := drawOps(t, c.sc, w, h, pal)
			what := kinds + "/" + k
			switch t.N(9) {
			case 0: // whatever happened to its display
				for i := range c.m.cells {
					if c.owed == "" && t.Bool() {
						c.m.cells[i] = rcell{genCellRune(t.Rng), rendOf(genAttrAny(t.Rng))}
					}
				}
				if t.Bool() && c.owed == "" {
					w, h = t.R(1, 10), t.R(1, 6)
					c.m.resize(w, h)
					if err := setWinsize(tty.master, w, h); err != nil {
						t.Inconclusive("winsize: %v", err)
					}
				}
				if err := ts.SizeToTerm(term); err != nil {
					t.Fail("SizeToTerm: %v", err)
				}
				if sz := c.sc.Bounds().Size(); sz.X != w || sz.Y != h {
					t.Fail("%s: screen is %v on a %dx%d terminal", what, sz, w, h)
				}
				k += "S"
				if c.owed != "" {
					c.flush(-1, nil, what+"S")
				}
				drawOps(t, c.sc, w, h, pal)
				c.flush(-1, nil, what+"S")
			case 1:
				err := term.RunWithout(func(term *anansi.Term) error {
					left("suspended")
					any()
					return nil
				})
				if err != nil {
					t.Fail("%s: RunWithout: %v", what, err)
				}
				k += "X"
			case 2, 3:
				if err := term.Flush(&ts); err != nil {
					t.Fail("%s: flush: %v", what, err)
				}
				pending := c.owed != ""
				g, u := copyGrid(c.sc.Grid), c.sc.UserCursor
				if pending {
					g, u = c.snapG, c.snapU
				}
				see()
				checkShown(t, c.m, g, u, what)
				c.snapG, c.snapU = g, u
				c.owed, c.fresh = "", false
				k += "F"
			case 4:
				c.compose(what)
				k += "B"
			default:
				cut, err := t.N(60), wouldBlock(t.Rng)
				if t.P(1, 3) {
					err = hardError(t.Rng)
				}
				c.flush(cut, err, what)
				k += fmt.Sprint(cut)
			}
			kinds += "/" + k
		}
		return nil
	})
	if err != nil {
		t.Fail("%s: %v", kinds, err)
	}
	left("at end")
	t.Sample("%s", kinds)
	t.Distinct(kinds)
}

// c11FDs: the same over a real non-blocking pipe that fills up.
func c11FDs(t *T) {
	r, w := rawPipe(t)
	fd := int(w.Fd())
	if err := syscall.SetNonblock(fd, true); err != nil {
		t.Inconclusive("nonblock: %v", err)
	}
	if err := syscall.SetNonblock(int(r.Fd()), true); err != nil {
		t.Inconclusive("nonblock: %v", err)
	}
	// smallest possible pipe, mostly filled
	const setPipeSize = 1031
	syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), setPipeSize, 4096)
	fill := 4096 - t.N(900)
	if n, err := syscall.Write(fd, make([]byte, fill)); err != nil || n != fill {
		t.Inconclusive("filling: %d %v", n, err)
	}
	sw, sh := t.R(10, 60), t.R(5, 20)
	var sc anansi.ScreenDiffer
	sc.Resize(image.Pt(sw, sh))
	m := newRterm(sw, sh)
	pal := genPal(t.Rng)
	draw := func() {
		for i := range sc.Rune {
			if t.P(1, 3) {
				sc.Rune[i], sc.Attr[i] = genCellRune(t.Rng), pal[t.N(len(pal))]
			}
		}
	}
	buf := make([]byte, 5000)
	read := func(max int) {
		for max > 0 {
			k := max
			if k > len(buf) {
				k = len(buf)
			}
			n, err := syscall.Read(int(r.Fd()), buf[:k])
			if n <= 0 || err != nil {
				return
			}
			max -= n
			b := buf[:n]
			if fill > 0 {
				if fill >= n {
					fill -= n
					continue
				}
				b = b[fill:]
				fill = 0
			}
			m.Write(b)
		}
	}
	fw := fdWriter(fd)
	blocks := 0
	draw()
	want, uc := copyGrid(sc.Grid), sc.UserCursor
	for k := 0; k < 200; k++ {
		_, err := sc.WriteTo(fw)
		if err == nil {
			break
		}
		if !errors.Is(err, syscall.EAGAIN) {
			t.Fail("flush: %v", err)
		}
		blocks++
		draw() // later changes have to wait
		read(t.R(1, 3000))
		if k == 199 {
			t.Fail("flush did not complete after %d retries", k)
		}
	}
	read(1 << 20)
	checkShown(t, m, want, uc, fmt.Sprintf("after %d would-blocks", blocks))
	read(1 << 20)
	for {
		_, err := sc.WriteTo(fw)
		read(1 << 20)
		if err == nil {
			break
		}
	}
	checkShown(t, m, sc.Grid, sc.UserCursor, "last")
	t.Count("real_would_blocks", blocks)
	t.Distinct(fmt.Sprint(sw, sh, blocks, fill))
}

type fdWriter int

func (w fdWriter) Write(p []byte) (n int, err error) {
	for n < len(p) {
		m, err := syscall.Write(int(w), p[n:])
		if m > 0 {
			n += m
		}
		if err != nil {
			return n, &os.PathError{Op: "write", Path: "pipe", Err: err}
		}
	}
	return n, nil
}
