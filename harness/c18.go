package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"image"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:    "C18",
		Level: "fault_enumeration",
		Rule:  "random programs of runs, suspensions, setting changes, drawing, failures and panics on a real pseudo terminal: its termios and file flags are read back at every boundary and compared with what they were, and the bytes seen on its master side are interpreted by the reference terminal; the terminal is taken away and given back, settings that failed being asked for again; separately, real processes are stopped and continued; non-trivial by (initial settings, program, failures)",
		Assumptions: []string{
			"Linux pseudo terminals; the hardware control flags (CS8, parity) are fixed by the kernel there",
			"nothing but the program under test and its suspended stand-in changes the terminal's settings",
		},
		Subs: []Sub{
			{Name: "sessions", Quick: 9000, Thorough: 500000, Run: c18Session},
			{Name: "notty", Quick: 600, Thorough: 20000, Run: c18NoTTY},
			{Name: "stopped", Quick: 40, Thorough: 2000, Run: c18Stopped},
			{Name: "opened", Quick: 120, Thorough: 4000, Run: c18Opened},
			{Name: "dead-output", Quick: 300, Thorough: 10000, Run: c18DeadOutput},
			{Name: "slow", Quick: 1500, Thorough: 20000, Run: c18Slow},
			{Name: "gone", Quick: 600, Thorough: 20000, Run: c18Gone},
			{Name: "back", Quick: 600, Thorough: 20000, Run: c18Back},
		},
	})
	helpers["suspender"] = c18Suspender
	helpers["opener"] = c18Opener
}

// ttyMon watches a pseudo terminal from both of its sides.
type ttyMon struct {
	t      *T
	master int
	in     *os.File // handed to the terminal under test
	out    *os.File
	mark   int // the harness' own descriptor, for markers
	rd     *rterm
	marks  int
	buf    []byte
}

func newTTYMon(t *T, w, h int) *ttyMon {
	m := &ttyMon{t: t, rd: newRterm(w, h)}
	master, slave := openPty(t)
	m.master, m.in, m.out = master, slave, slave
	name := slave.Name()
	fd, err := syscall.Open(name, syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		t.Inconclusive("%s: %v", name, err)
	}
	m.mark = fd
	t.Cleanup(func() { syscall.Close(fd) })
	switch t.N(3) {
	case 0: // as inherited by a shell's child: one file description
		d, err := syscall.Dup(int(slave.Fd()))
		if err != nil {
			t.Inconclusive("dup: %v", err)
		}
		m.out = os.NewFile(uintptr(d), name)
		t.Cleanup(func() { m.out.Close() })
	case 1: // separately opened
		d, err := syscall.Open(name, syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
		if err != nil {
			t.Inconclusive("open: %v", err)
		}
		m.out = os.NewFile(uintptr(d), name)
		t.Cleanup(func() { m.out.Close() })
	}
	if err := setWinsize(master, w, h); err != nil {
		t.Inconclusive("winsize: %v", err)
	}
	return m
}

// collect returns everything written to the terminal so far.
func (m *ttyMon) collect() []byte {
	m.marks++
	mark := []byte(fmt.Sprintf("\x1e<%d>\x1e", m.marks))
	if _, err := syscall.Write(m.mark, mark); err != nil {
		m.t.Inconclusive("marker: %v", err)
	}
	var tmp [8192]byte
	for {
		if i := bytes.Index(m.buf, mark); i >= 0 {
			got := append([]byte(nil), m.buf[:i]...)
			m.buf = append(m.buf[:0], m.buf[i+len(mark):]...)
			return got
		}
		n, err := syscall.Read(m.master, tmp[:])
		if err == syscall.EINTR {
			continue
		}
		if err != nil || n <= 0 {
			m.t.Inconclusive("master read: %d, %v", n, err)
		}
		m.buf = append(m.buf, tmp[:n]...)
	}
}

// see interprets the output so far, returning sequences other than screen drawing.
func (m *ttyMon) see() (odd []string) {
	b := m.collect()
	if m.t != nil {
		m.t.Logf("  terminal got %q", b)
		m.t.Count("bytes_interpreted", len(b))
	}
	m.rd.Write(b)
	odd = m.rd.odd
	m.rd.odd = nil
	return odd
}

func (m *ttyMon) termios() syscall.Termios {
	tio, err := getTermios(m.mark)
	if err != nil {
		m.t.Inconclusive("termios: %v", err)
	}
	return tio
}

// heldTermios is what a held terminal's settings should be.
func heldTermios(tio syscall.Termios, raw, echo bool) syscall.Termios {
	if raw {
		// no break/parity/8th bit/flow control/CR handling, no output
		// processing, no line editing, signals, or extended processing
		tio.Iflag &^= syscall.BRKINT | syscall.ICRNL | syscall.INPCK | syscall.ISTRIP | syscall.IXON
		tio.Oflag &^= syscall.OPOST
		tio.Cflag = tio.Cflag&^(syscall.CSIZE|syscall.PARENB) | syscall.CS8
		tio.Lflag &^= syscall.ICANON | syscall.IEXTEN | syscall.ISIG
		tio.Cc[syscall.VMIN], tio.Cc[syscall.VTIME] = 1, 0
	}
	tio.Lflag &^= syscall.ECHO
	if echo {
		tio.Lflag |= syscall.ECHO
	}
	return tio
}

func termiosDiff(got, want syscall.Termios) string {
	if got == want {
		return ""
	}
	return fmt.Sprintf("i:%x/%x o:%x/%x c:%x/%x l:%x/%x cc:%v/%v (got/expected)", got.Iflag, want.Iflag, got.Oflag, want.Oflag,
		got.Cflag, want.Cflag, got.Lflag, want.Lflag, got.Cc, want.Cc)
}

func genTermios(r *Rng, tio syscall.Termios) syscall.Termios {
	flip := func(v *uint32, bits ...uint32) {
		for _, b := range bits {
			switch r.N(4) {
			case 0:
				*v |= b
			case 1:
				*v &^= b
			}
		}
	}
	flip(&tio.Iflag, syscall.BRKINT, syscall.ICRNL, syscall.INPCK, syscall.ISTRIP, syscall.IXON, syscall.IGNBRK, syscall.IXANY, syscall.INLCR, syscall.IUTF8, syscall.PARMRK)
	flip(&tio.Oflag, syscall.OPOST, syscall.ONLCR)
	flip(&tio.Lflag, syscall.ECHO, syscall.ECHO, syscall.ECHOE, syscall.ECHOK, syscall.ECHONL, syscall.ICANON, syscall.ISIG, syscall.IEXTEN, syscall.NOFLSH, syscall.ECHOCTL)
	if r.Bool() {
		tio.Cc[syscall.VMIN], tio.Cc[syscall.VTIME] = byte(r.N(5)), byte(r.N(9))
	}
	if r.P(1, 3) {
		tio.Cc[syscall.VINTR] = byte(1 + r.N(31))
	}
	return tio
}

const settable = syscall.O_NONBLOCK | syscall.O_ASYNC | syscall.O_APPEND

// failCtx fails some of its calls.
type failCtx struct {
	enters, exits       int
	failEnter, failExit int
}

var (
	errFailEnter = errors.New("planned enter failure")
	errFailExit  = errors.New("planned exit failure")
	errPlanned   = errors.New("planned failure")
)

func (fc *failCtx) Enter(*anansi.Term) error {
	if fc.enters++; fc.enters == fc.failEnter {
		return errFailEnter
	}
	return nil
}
func (fc *failCtx) Exit(*anansi.Term) error {
	if fc.exits++; fc.exits == fc.failExit {
		return errFailExit
	}
	return nil
}

type c18Mon struct {
	*ttyMon
	term   *anansi.Term
	fc     *failCtx
	screen *anansi.TermScreen

	raw, echo, echoSet bool
	sets, resets       []string
	prior              syscall.Termios
	priorIn, priorOut  int // flags
	desc               string
	drawn              bool
	dirty              bool // others wrote to the terminal, while released
}

func (m *c18Mon) note(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	m.t.Logf("%s", s)
	m.desc += s + ";"
}

// before records the state that must be restored later.
func (m *c18Mon) before(touched bool) {
	m.prior = m.termios()
	if !touched {
		m.priorIn = getFlags(int(m.in.Fd()))
	}
	m.priorOut = getFlags(int(m.out.Fd()))
}

func (m *c18Mon) wantEcho() bool {
	if m.echoSet {
		return m.echo
	}
	return !m.raw
}

func (m *c18Mon) held(what string) {
	if d := termiosDiff(m.termios(), heldTermios(m.prior, m.raw, m.wantEcho())); d != "" {
		m.t.Fail("%s: raw %v, echo %v requested (explicitly: %v), but terminal settings are %s", what, m.raw, m.wantEcho(), m.echoSet, d)
	}
	m.t.Count("held_states_checked", 1)
}

func (m *c18Mon) entered(what string, odd []string) {
	m.dirty = false
	if got, want := strings.Join(odd, " "), strings.Join(m.sets, " "); got != want {
		m.t.Fail("%s: entering wrote modes %s, expected %s", what, got, want)
	}
}

// released is the heart of the property.
func (m *c18Mon) released(what string, clean bool) {
	odd := m.see()
	if clean { // entered, hence modes set
		var want []string
		for i := len(m.resets) - 1; i >= 0; i-- {
			want = append(want, m.resets[i])
		}
		if got, want := strings.Join(odd, " "), strings.Join(want, " "); got != want {
			m.t.Fail("%s: leaving wrote modes %s, expected %s", what, got, want)
		}
	}
	if d := termiosDiff(m.termios(), m.prior); d != "" {
		m.t.Fail("%s: terminal settings not restored: %s", what, d)
	}
	if f := getFlags(int(m.in.Fd())); f != m.priorIn {
		m.t.Fail("%s: input file flags are %#x, were %#x", what, f, m.priorIn)
	}
	if f := getFlags(int(m.out.Fd())); f != m.priorOut {
		m.t.Fail("%s: output file flags are %#x, were %#x", what, f, m.priorOut)
	}
	if m.screen != nil && !m.dirty {
		if !m.rd.vis {
			m.t.Fail("%s: the cursor was left hidden", what)
		}
		if m.rd.cur != rend0 {
			m.t.Fail("%s: attributes were left as %+v", what, m.rd.cur)
		}
	}
	if !m.rd.idle() {
		m.t.Fail("%s: output ended within a sequence %q", what, m.rd.pbuf)
	}
	m.t.Count("released_states_checked", 1)
}

func (m *c18Mon) change() {
	if m.t.Bool() {
		v := m.t.Bool()
		m.note("raw=%v", v)
		m.raw = v
		if err := m.term.SetRaw(v); err != nil {
			m.t.Fail("SetRaw: %v", err)
		}
	} else {
		v := m.t.Bool()
		m.note("echo=%v", v)
		m.echo, m.echoSet = v, true
		if err := m.term.SetEcho(v); err != nil {
			m.t.Fail("SetEcho: %v", err)
		}
	}
}

func (m *c18Mon) draw(what string) {
	sz := m.screen.Bounds().Size()
	if want := image.Pt(m.rd.x1, m.rd.y1); sz != want {
		m.t.Fail("%s: screen has size %v, terminal %v", what, sz, want)
	}
	drawOps(m.t, &m.screen.ScreenDiffer, sz.X, sz.Y, []ansi.SGRAttr{0, ansi.SGRRed.FG(), ansi.SGRBlue.BG(), ansi.SGRAttrBold})
	want, uc := copyGrid(m.screen.Grid), m.screen.UserCursor
	if err := m.term.Flush(m.screen); err != nil {
		m.t.Fail("%s: flush: %v", what, err)
	}
	if odd := m.see(); len(odd) > 0 {
		m.t.Fail("%s: drawing wrote %v", what, odd)
	}
	m.rd.scrolled = 0
	checkShown(m.t, m.rd, want, uc, what)
	m.drawn = true
	m.t.Count("frames_checked", 1)
}

// program runs under a held terminal.
func (m *c18Mon) program(depth int) error {
	t := m.t
	for n := t.N(5); n > 0; n-- {
		switch t.N(9) {
		case 0, 1:
			m.change()
			m.held("after a change")
		case 2, 3:
			if m.screen != nil {
				m.note("draw")
				m.draw("while held")
			}
		case 4:
			m.note("read")
			if n, err := m.term.ReadAny(); n != 0 || err != nil && err != io.EOF { // VMIN=0 looks like an end
				t.Fail("ReadAny on an idle terminal: %d, %v", n, err)
			}
		case 5:
			if t.P(1, 3) {
				if t.Bool() {
					m.note("error")
					return errPlanned
				}
				m.note("panic")
				panic(sigPanic("planned"))
			}
			m.note("notify")
			ch := make(chan os.Signal, 1)
			if t.P(1, 3) {
				ch = nil
			}
			if err := m.term.Notify(ch); err != nil {
				t.Fail("Notify: %v", err)
			}
			m.held("after notify")
		case 6:
			m.note("with(")
			ran := false
			if err := m.term.RunWith(func(*anansi.Term) error { ran = true; m.held("nested run"); return m.program(depth - 1) }); err != nil {
				return err
			}
			if !ran {
				t.Fail("nested run did nothing")
			}
			m.note(")")
			m.held("after nested run")
		case 7, 8:
			if depth <= 0 {
				continue
			}
			m.note("without(")
			m.see()
			err := m.term.RunWithout(func(*anansi.Term) error { return m.without(depth - 1) })
			if err != nil {
				return err
			}
			m.note(")")
			m.entered("resumed", m.see())
			m.held("resumed")
			if m.screen != nil && m.drawn {
				m.draw("resumed")
			}
		}
	}
	m.see() // only the releasing output comes next
	return nil
}

// without runs while the terminal is released to others.
func (m *c18Mon) without(depth int) error {
	t := m.t
	m.released("suspended", m.fc.failEnter == 0 || m.fc.enters != m.fc.failEnter)
	for n := t.N(4); n > 0; n-- {
		switch t.N(7) {
		case 0:
			m.note("stty")
			if err := setTermios(m.mark, genTermios(t.Rng, m.termios())); err != nil {
				t.Inconclusive("stty: %v", err)
			}
		case 1:
			m.note("scribble")
			s := t.Pick("\x1b[31;1mhello", "\x1b[?25l", "\x1b[3;2Hworld\x1b[7m", "a\r\nb\r\n", "\x1b[2J\x1b[H\x1b[44m$ ")
			if _, err := syscall.Write(m.mark, []byte(s)); err != nil {
				t.Inconclusive("scribble: %v", err)
			}
			m.see()
			m.dirty = true
		case 2:
			m.change()
			if d := termiosDiff(m.termios(), m.prior); d != "" && !strings.Contains(m.desc, "stty") {
				t.Fail("changing settings while released changed the terminal: %s", d)
			}
		case 3:
			f := getFlags(int(m.in.Fd()))
			nf := f&^syscall.O_NONBLOCK | []int{0, syscall.O_NONBLOCK}[t.N(2)]
			m.note("flags %#x", nf)
			if err := setFlags(int(m.in.Fd()), nf); err != nil {
				t.Inconclusive("flags: %v", err)
			}
		case 4:
			w, h := t.R(1, 24), t.R(1, 9)
			m.note("resize %dx%d", w, h)
			if err := setWinsize(m.master, w, h); err != nil {
				t.Inconclusive("winsize: %v", err)
			}
			m.rd.resize(w, h)
		case 5:
			if t.P(1, 5) {
				m.note("error")
				m.before(false)
				return errPlanned
			}
		case 6:
			if depth > 0 {
				m.note("with(")
				if err := m.enter(depth - 1); err != nil {
					m.released("nested run failed", false)
					m.before(false)
					return err
				}
				m.note(")")
				m.released("nested run", true)
			}
		}
	}
	m.see()
	m.before(false)
	return nil
}

// enter runs a program under the terminal, from released to released.
func (m *c18Mon) enter(depth int) error {
	m.before(strings.Contains(m.desc, "pre-notify") && m.fc.enters == 0)
	ran := false
	err := m.term.RunWith(func(*anansi.Term) error {
		ran = true
		m.entered("entered", m.see())
		m.held("entered")
		return m.program(depth)
	})
	if err == nil && !ran {
		m.t.Fail("RunWith returned without running anything")
	}
	return err
}

func c18Session(t *T) {
	w, h := t.R(1, 24), t.R(1, 9)
	m := &c18Mon{ttyMon: newTTYMon(t, w, h), fc: &failCtx{}}
	if t.Bool() {
		if err := setTermios(m.mark, genTermios(t.Rng, m.termios())); err != nil {
			t.Inconclusive("stty: %v", err)
		}
	}
	for _, f := range []*os.File{m.in, m.out} {
		fl := getFlags(int(f.Fd()))
		if t.P(1, 3) {
			fl |= []int{syscall.O_NONBLOCK, syscall.O_APPEND, syscall.O_NONBLOCK | syscall.O_APPEND}[t.N(3)]
		}
		if err := setFlags(int(f.Fd()), fl); err != nil {
			t.Inconclusive("flags: %v", err)
		}
	}
	m.note("i:%#x o:%#x l:%#x f:%#x,%#x", m.termios().Iflag, m.termios().Oflag, m.termios().Lflag, getFlags(int(m.in.Fd())), getFlags(int(m.out.Fd())))
	m.term = anansi.NewTerm(m.in, m.out)
	addFail := func() {
		if t.P(1, 3) {
			if t.Bool() {
				m.fc.failEnter = t.R(1, 4)
			} else {
				m.fc.failExit = t.R(1, 4)
			}
		}
		m.note("fail(%d,%d)", m.fc.failEnter, m.fc.failExit)
		m.term.AddContext(m.fc)
	}
	useScreen, failFirst := t.P(2, 3), t.Bool()
	if failFirst {
		addFail()
	}
	if useScreen {
		m.note("screen")
		m.screen = &anansi.TermScreen{}
		m.term.AddContext(m.screen)
	}
	if !failFirst {
		addFail()
	}
	modes := []ansi.Mode{ansi.ModeAlternateScreen, ansi.ModeMouseSgrExt, ansi.ModeMouseBtnEvent, ansi.ModeMouseAnyEvent, ansi.ModeBracketedPaste, ansi.ModeMouseFocusEvent, ansi.ModeMouseX10}
	for n := t.N(5); n > 0; n-- {
		switch t.N(5) {
		case 0:
			s := ansi.SoftReset
			m.term.AddModeSeq(s)
			m.sets = append(m.sets, fmt.Sprintf("%q", "\x1b[!p"))
			m.resets = append(m.resets, fmt.Sprintf("%q", "\x1b[!p"))
			m.note("softreset")
		case 1:
			a, b := []byte{byte('1' + t.N(9))}, []byte{byte('1' + t.N(9))}
			if t.P(1, 6) {
				a = bytes.Repeat(a, t.R(20, 300))
			}
			if t.P(1, 6) {
				b = bytes.Repeat(b, t.R(20, 300))
			}
			m.term.AddModePair(ansi.CSI('z').With(a...), ansi.CSI('y').With(b...))
			m.sets = append(m.sets, fmt.Sprintf("%q", fmt.Sprintf("\x1b[%sz", a)))
			m.resets = append(m.resets, fmt.Sprintf("%q", fmt.Sprintf("\x1b[%sy", b)))
			m.note("pair")
		default:
			var ms []ansi.Mode
			for k := t.R(1, 3); k > 0; k-- {
				mode := modes[t.N(len(modes))]
				ms = append(ms, mode)
				q := ""
				if mode&ansi.ModePrivate != 0 {
					q = "?"
				}
				m.sets = append(m.sets, fmt.Sprintf("%q", fmt.Sprintf("\x1b[%s%dh", q, mode&^ansi.ModePrivate)))
				m.resets = append(m.resets, fmt.Sprintf("%q", fmt.Sprintf("\x1b[%s%dl", q, mode&^ansi.ModePrivate)))
			}
			m.term.AddMode(ms...)
			m.note("modes %v", ms)
		}
	}
	for n := t.N(3); n > 0; n-- {
		m.change()
	}
	if t.P(1, 4) {
		m.note("pre-notify")
		m.priorIn = getFlags(int(m.in.Fd()))
		if err := m.term.Notify(make(chan os.Signal, 1)); err != nil {
			t.Fail("Notify: %v", err)
		}
	}
	touched := strings.Contains(m.desc, "pre-notify")
	for n := t.R(1, 3); n > 0; n-- {
		if touched && m.fc.enters == 0 {
			// output may share the description that is already changed
			out := m.priorIn
			if of := getFlags(int(m.out.Fd())); of&syscall.O_ASYNC == 0 {
				out = of
			}
			m.prior = m.termios()
			c18Run(m, 3, out)
		} else {
			c18Run(m, 3, -1)
		}
	}
	t.Sample("%s", m.desc)
	t.Distinct(m.desc)
}

// c18Run runs a program from outside, however it ends.
func c18Run(m *c18Mon, depth int, priorOut int) {
	t := m.t
	m.note("run(")
	enters, exits := m.fc.enters, m.fc.exits
	var err error
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(sigPanic); !ok {
					panic(e)
				}
				err = errPlanned
			}
		}()
		if priorOut >= 0 {
			in := m.priorIn
			err = m.enterWith(depth, in, priorOut)
		} else {
			err = m.enter(depth)
		}
	}()
	m.note(")=%v", err)
	m.released("after the run", false)
	planned := err == nil || err == errPlanned || err == errFailEnter || err == errFailExit
	if !planned {
		t.Fail("run failed unexpectedly: %v", err)
	}
	if err == nil {
		if f := m.fc.failEnter; f > enters && f <= m.fc.enters {
			t.Fail("a context failed to enter, yet no error was returned")
		}
		if f := m.fc.failExit; f > exits && f <= m.fc.exits {
			t.Fail("a context failed to exit, yet no error was returned")
		}
	}
}

func (m *c18Mon) enterWith(depth, in, out int) error {
	m.priorIn, m.priorOut = in, out
	return m.term.RunWith(func(*anansi.Term) error {
		m.entered("entered", m.see())
		m.held("entered")
		return m.program(depth)
	})
}

// c18NoTTY: entering fails on something that is not a terminal, and changes nothing.
func c18NoTTY(t *T) {
	r, w := rawPipe(t)
	defer r.Close()
	defer w.Close()
	in, out := r, w
	desc := "pipe"
	if t.Bool() {
		master, slave := openPty(t)
		_ = master
		if t.Bool() {
			in, desc = slave, "tty->pipe"
		} else {
			out, desc = slave, "pipe->tty"
		}
	}
	fi, fo := getFlags(int(in.Fd())), getFlags(int(out.Fd()))
	if t.P(1, 3) {
		fi |= syscall.O_NONBLOCK
		setFlags(int(in.Fd()), fi)
		fi, fo = getFlags(int(in.Fd())), getFlags(int(out.Fd()))
	}
	term := anansi.NewTerm(in, out)
	raw := t.Bool()
	_ = term.SetRaw(raw)
	var screen anansi.TermScreen
	if t.Bool() {
		term.AddContext(&screen)
	}
	tty := out != w
	var tio syscall.Termios
	if tty {
		tio, _ = getTermios(int(out.Fd()))
	}
	ran := false
	err := term.RunWith(func(term *anansi.Term) error {
		ran = true
		if t.Bool() {
			_, _ = term.ReadAny()
		}
		return nil
	})
	if ran != tty || (err == nil) != tty {
		t.Fail("%s: output terminal %v, but ran %v, error %v", desc, tty, ran, err)
	}
	if term.IsTerminal() || anansi.IsTerminal(out) != tty {
		t.Fail("%s: IsTerminal %v, output %v", desc, term.IsTerminal(), anansi.IsTerminal(out))
	}
	if sz, err := term.Size(); err == nil && !tty {
		t.Fail("%s: there is no terminal, but it is sized %v", desc, sz)
	}
	if tty {
		if now, _ := getTermios(int(out.Fd())); now != tio {
			t.Fail("%s: settings not restored", desc)
		}
	}
	if gi, g := getFlags(int(in.Fd())), getFlags(int(out.Fd())); gi != fi || g != fo {
		t.Fail("%s: flags are %#x, %#x; were %#x, %#x", desc, gi, g, fi, fo)
	}
	t.Count("released_states_checked", 1)
	t.Distinct(fmt.Sprint(desc, raw, fi, ran))
}

// c18Suspender is a process that suspends itself when told to, on a terminal
// given as its standard input and output.
func c18Suspender(args []string) {
	log := bufio.NewWriter(os.NewFile(3, "log"))
	say := func(f string, a ...interface{}) { fmt.Fprintf(log, f+"\n", a...); log.Flush() }
	halt := anansi.Notify(syscall.SIGTERM)
	term := anansi.NewTerm(os.Stdin, os.Stdout, &halt)
	var screen anansi.TermScreen
	term.AddContext(&screen)
	_ = term.SetRaw(true)
	term.AddMode(ansi.ModeAlternateScreen)
	nap := len(args) > 0 && args[0] == "busy"
	if nap { // slow reaction to signals: keep all threads busy
		for i := 0; i < 4; i++ {
			go func() {
				for {
				}
			}()
		}
	}
	if signal.Ignored(syscall.SIGTSTP) {
		say("ignored")
		return
	}
	err := term.RunWith(func(term *anansi.Term) error {
		say("up")
		for {
			if err := halt.AsErr(); err != nil {
				return err
			}
			if n, err := term.ReadAny(); err != nil {
				return err
			} else if n == 0 {
				time.Sleep(200 * time.Microsecond)
				continue
			}
			for e, _, ok := term.Decode(); ok; e, _, ok = term.Decode() {
				switch e {
				case 'z':
					if err := term.Suspend(); err != nil {
						say("suspend error %v", err)
						return err
					}
					say("resumed")
				case 'd':
					screen.Clear()
					screen.To(ansi.Pt(1, 1))
					screen.WriteString("drawn")
					screen.UserCursor = anansi.Cursor{}
					if err := term.Flush(&screen); err != nil {
						say("flush error %v", err)
					}
					say("drew")
				case 'e':
					return errors.New("told to fail")
				case 'q':
					return nil
				case 'p':
					defer func() { recover(); say("panicked") }()
					panic("told to panic")
				}
			}
		}
	})
	say("done %v", err)
}

func c18Stopped(t *T) {
	m := newTTYMon(t, 20, 4)
	tio := genTermios(t.Rng, m.termios())
	if err := setTermios(m.mark, tio); err != nil {
		t.Inconclusive("stty: %v", err)
	}
	tio = m.termios()
	fi, fo := getFlags(int(m.in.Fd())), getFlags(int(m.out.Fd()))
	pr, pw, err := os.Pipe()
	if err != nil {
		t.Inconclusive("pipe: %v", err)
	}
	defer pr.Close()
	self, _ := os.Executable()
	how := t.Pick("idle", "idle", "busy")
	cmd := exec.Command(self, "-helper", "suspender", how)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = m.in, m.out, os.Stderr
	cmd.ExtraFiles = []*os.File{pw}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	if err := cmd.Start(); err != nil {
		t.Inconclusive("start: %v", err)
	}
	pw.Close()
	pid := cmd.Process.Pid
	reaped := false
	t.Cleanup(func() {
		if !reaped {
			syscall.Kill(-pid, syscall.SIGCONT)
			syscall.Kill(-pid, syscall.SIGKILL)
			cmd.Wait()
		}
	})
	lines := make(chan string, 16)
	go func() {
		defer close(lines)
		sc := bufio.NewScanner(pr)
		for sc.Scan() {
			lines <- sc.Text()
		}
	}()
	expect := func(want string) string {
		for tries := 0; ; tries++ {
			select {
			case l, ok := <-lines:
				if l == "ignored" {
					t.Inconclusive("stop signals are ignored here")
				}
				if !ok || !strings.HasPrefix(l, want) {
					t.Fail("process said %q (running %v), expected %q", l, ok, want)
				}
				return l
			case <-time.After(20 * time.Second):
				t.Fail("process did not get to %q within 20s", want)
			}
		}
	}
	restored := func(what string) {
		if d := termiosDiff(m.termios(), tio); d != "" {
			t.Fail("%s: terminal settings not restored: %s", what, d)
		}
		if gi, g := getFlags(int(m.in.Fd())), getFlags(int(m.out.Fd())); gi != fi || g != fo {
			t.Fail("%s: flags are %#x, %#x; were %#x, %#x", what, gi, g, fi, fo)
		}
		m.see()
		if !m.rd.vis || m.rd.cur != rend0 {
			t.Fail("%s: cursor visible %v, attributes %+v", what, m.rd.vis, m.rd.cur)
		}
		t.Count("released_states_checked", 1)
	}
	key := func(c byte) {
		if _, err := syscall.Write(m.master, []byte{c}); err != nil {
			t.Inconclusive("key: %v", err)
		}
	}
	held := func(what string) {
		if d := termiosDiff(m.termios(), heldTermios(tio, true, false)); d != "" {
			t.Fail("%s: not raw: %s", what, d)
		}
	}
	desc := how
	expect("up")
	held("started")
	for n := t.N(4); n > 0; n-- {
		if t.Bool() {
			desc += " draw"
			key('d')
			expect("drew")
			m.see()
			for i, r := range "drawn" {
				if c := m.rd.at(i+1, 1); c.r != r {
					t.Fail("drawn cell %d shows %q", i, c.r)
				}
			}
		}
		key('z')
		desc += " stop"
		var ws syscall.WaitStatus
		for deadline := time.Now().Add(20 * time.Second); ; {
			p, err := syscall.Wait4(pid, &ws, syscall.WUNTRACED|syscall.WNOHANG, nil)
			if err != nil && err != syscall.EINTR {
				t.Fail("wait: %v", err)
			}
			if p == pid {
				break
			}
			if time.Now().After(deadline) {
				t.Fail("process did not stop within 20s of being told to suspend")
			}
			time.Sleep(100 * time.Microsecond)
		}
		if !ws.Stopped() {
			t.Fail("process ended (%v) rather than stop", ws)
		}
		restored("stopped")
		if t.Bool() {
			desc += " scribble"
			syscall.Write(m.mark, []byte("\x1b[41mother\x1b[?25l"))
			m.see()
		}
		if err := syscall.Kill(-pid, syscall.SIGCONT); err != nil {
			t.Inconclusive("cont: %v", err)
		}
		expect("resumed")
		held("resumed")
		m.see()
		t.Count("real_suspensions", 1)
	}
	end := t.Pick("q", "e", "term", "p")
	desc += " " + end
	if end == "term" {
		syscall.Kill(pid, syscall.SIGTERM)
	} else {
		key(end[0])
	}
	if end == "p" {
		expect("panicked")
	}
	l := expect("done")
	restored("ended by " + end)
	if want := map[string]string{"q": "<nil>", "e": "told to fail", "term": "signal terminated", "p": "<nil>"}[end]; !strings.Contains(l, want) {
		t.Fail("ended with %q, expected %q", l, want)
	}
	cmd.Wait()
	reaped = true
	t.Sample("%s", desc)
	t.Distinct(fmt.Sprint(desc, tio))
}

// c18DeadOutput: output that cannot be written to is reported, and what can be restored is.
func c18DeadOutput(t *T) {
	m := newTTYMon(t, 20, 4)
	if err := setTermios(m.mark, genTermios(t.Rng, m.termios())); err != nil {
		t.Inconclusive("stty: %v", err)
	}
	tio, fi := m.termios(), getFlags(int(m.in.Fd()))
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		t.Inconclusive("%v", err)
	}
	defer full.Close()
	term := anansi.NewTerm(m.in, m.out)
	var screen anansi.TermScreen
	desc := ""
	if t.Bool() {
		term.AddContext(&screen)
		desc += "screen "
	}
	if t.P(3, 4) {
		_ = term.SetRaw(true)
		desc += "raw "
	}
	term.AddMode(ansi.ModeAlternateScreen, ansi.ModeMouseSgrExt)
	when := t.N(3)
	if when == 0 {
		term.Output.File = full
	}
	ran := false
	within := errors.New("within")
	var ret error
	if t.P(1, 4) {
		ret = within
	}
	err = term.RunWith(func(term *anansi.Term) error {
		ran = true
		if term.ReadAny(); when == 1 {
			term.Output.File = full
		}
		return ret
	})
	desc += fmt.Sprint(when, ret)
	t.Logf("%s: %v", desc, err)
	switch when {
	case 0:
		if ran || err == nil {
			t.Fail("%s: modes cannot be set, yet the run was started (%v) and returned %v", desc, ran, err)
		}
	case 1:
		if err == nil || ret != nil && !strings.Contains(err.Error(), "within") {
			t.Fail("%s: modes cannot be reset and the program failed with %v, yet the run returned %v", desc, ret, err)
		}
	default:
		if err != ret {
			t.Fail("%s: returned %v, expected %v", desc, err, ret)
		}
	}
	if d := termiosDiff(m.termios(), tio); d != "" {
		t.Fail("%s: terminal settings not restored: %s", desc, d)
	}
	if f := getFlags(int(m.in.Fd())); f != fi {
		t.Fail("%s: input flags are %#x, were %#x", desc, f, fi)
	}
	t.Distinct(desc + fmt.Sprint(tio))
}

// c18Opener opens the standard terminal, and uses it.
func c18Opener(args []string) {
	log := bufio.NewWriter(os.NewFile(3, "log"))
	say := func(f string, a ...interface{}) { fmt.Fprintf(log, f+"\n", a...); log.Flush() }
	term, err := anansi.OpenTerm()
	if err != nil {
		say("failed %v", err)
		return
	}
	var screen anansi.TermScreen
	term.AddContext(&screen)
	_ = term.SetRaw(true)
	term.AddMode(ansi.ModeAlternateScreen)
	err = term.RunWith(func(term *anansi.Term) error {
		say("up")
		for {
			if _, err := term.ReadMore(); err != nil {
				return err
			}
			for e, _, ok := term.Decode(); ok; e, _, ok = term.Decode() {
				if e == 'q' {
					return nil
				}
				screen.Clear()
				screen.WriteString(fmt.Sprintf("got %c", rune(e)))
				if err := term.Flush(&screen); err != nil {
					return err
				}
				say("drew")
			}
		}
	})
	say("done %v", err)
}

// c18Opened: a process finds its terminal wherever its standard files lead to.
func c18Opened(t *T) {
	m := newTTYMon(t, 20, 4)
	tio := genTermios(t.Rng, m.termios())
	if err := setTermios(m.mark, tio); err != nil {
		t.Inconclusive("stty: %v", err)
	}
	tio = m.termios()
	fi, fo := getFlags(int(m.in.Fd())), getFlags(int(m.out.Fd()))
	pr, pw, err := os.Pipe()
	if err != nil {
		t.Inconclusive("pipe: %v", err)
	}
	defer pr.Close()
	dir := t.TempDir()
	self, _ := os.Executable()
	cmd := exec.Command(self, "-helper", "opener")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = m.in, m.out, os.Stderr
	cmd.ExtraFiles = []*os.File{pw, m.in}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	ctty := t.P(5, 6)
	desc := fmt.Sprint(ctty)
	if ctty {
		cmd.SysProcAttr.Setctty = true
		cmd.SysProcAttr.Ctty = 4
	}
	redirected := t.N(4)
	var inFile, outFile *os.File
	if redirected&1 != 0 {
		if inFile, err = os.OpenFile(filepath.Join(dir, "in"), os.O_CREATE|os.O_RDWR, 0600); err != nil {
			t.Inconclusive("%v", err)
		}
		defer inFile.Close()
		inFile.WriteString("xxq")
		inFile.Seek(0, 0)
		cmd.Stdin = inFile
		desc += " <file"
		if t.P(1, 3) {
			null, err := os.Open("/dev/null")
			if err != nil {
				t.Inconclusive("%v", err)
			}
			defer null.Close()
			cmd.Stdin = null
			desc += " <null"
		}
	}
	if redirected&2 != 0 {
		if outFile, err = os.Create(filepath.Join(dir, "out")); err != nil {
			t.Inconclusive("%v", err)
		}
		defer outFile.Close()
		cmd.Stdout = outFile
		desc += " >file"
	}
	if err := cmd.Start(); err != nil {
		t.Inconclusive("start: %v", err)
	}
	pw.Close()
	reaped := false
	t.Cleanup(func() {
		if !reaped {
			cmd.Process.Kill()
			cmd.Wait()
		}
	})
	lines := make(chan string, 16)
	go func() {
		defer close(lines)
		sc := bufio.NewScanner(pr)
		for sc.Scan() {
			lines <- sc.Text()
		}
	}()
	next := func() string {
		select {
		case l := <-lines:
			return l
		case <-time.After(20 * time.Second):
			return "nothing within 20s"
		}
	}
	key := func(c byte) {
		if _, err := syscall.Write(m.master, []byte{c}); err != nil {
			t.Inconclusive("key: %v", err)
		}
	}
	untouched := func() {
		if inFile != nil {
			if at, _ := inFile.Seek(0, 1); at != 0 {
				t.Fail("%s: %d bytes of redirected input were read", desc, at)
			}
		}
		if outFile != nil {
			if st, err := outFile.Stat(); err != nil || st.Size() != 0 {
				t.Fail("%s: %d bytes were written to redirected output (%v)", desc, st.Size(), err)
			}
		}
	}
	l := next()
	if !ctty && redirected != 0 {
		if !strings.HasPrefix(l, "failed") {
			t.Fail("%s: without a terminal to use, the process says %q", desc, l)
		}
		cmd.Wait()
		reaped = true
		untouched()
		if d := termiosDiff(m.termios(), tio); d != "" {
			t.Fail("%s: terminal settings changed: %s", desc, d)
		}
		t.Distinct(fmt.Sprint(desc, tio))
		return
	}
	if l != "up" {
		t.Fail("%s: process says %q, expected it to run", desc, l)
	}
	if d := termiosDiff(m.termios(), heldTermios(tio, true, false)); d != "" {
		t.Fail("%s: not raw: %s", desc, d)
	}
	for n := t.R(1, 3); n > 0; n-- {
		c := byte('a' + t.N(16))
		key(c)
		if l := next(); l != "drew" {
			t.Fail("%s: process says %q after a key", desc, l)
		}
		m.see()
		for i, r := range "got " + string(rune(c)) {
			if r == ' ' {
				continue
			}
			if got := m.rd.at(i+1, 1); got.r != r {
				t.Fail("%s: cell %d shows %q, expected %q", desc, i, got.r, r)
			}
		}
		t.Count("keys_answered", 1)
	}
	key('q')
	if l := next(); l != "done <nil>" {
		t.Fail("%s: process says %q, expected it to be done", desc, l)
	}
	cmd.Wait()
	reaped = true
	untouched()
	if d := termiosDiff(m.termios(), tio); d != "" {
		t.Fail("%s: terminal settings not restored: %s", desc, d)
	}
	if gi, g := getFlags(int(m.in.Fd())), getFlags(int(m.out.Fd())); gi != fi || g != fo {
		t.Fail("%s: flags are %#x, %#x; were %#x, %#x", desc, gi, g, fi, fo)
	}
	m.see()
	if !m.rd.vis || m.rd.cur != rend0 {
		t.Fail("%s: cursor visible %v, attributes %+v", desc, m.rd.vis, m.rd.cur)
	}
	t.Sample("%s", desc)
	t.Distinct(fmt.Sprint(desc, tio))
}

// c18Slow: a terminal that takes its time to accept output still gets all of
// what holding and releasing it write.
func c18Slow(t *T) {
	m := newTTYMon(t, 20, 4)
	if err := setTermios(m.mark, rawTermios(m.termios())); err != nil {
		t.Inconclusive("stty: %v", err)
	}
	if t.P(1, 6) { // whose output is non-blocking all along
		setFlags(int(m.out.Fd()), getFlags(int(m.out.Fd()))|syscall.O_NONBLOCK)
	}
	tio, fi, fo := m.termios(), getFlags(int(m.in.Fd())), getFlags(int(m.out.Fd()))
	term := anansi.NewTerm(m.in, m.out)
	desc := ""
	var screen anansi.TermScreen
	useScreen := t.P(1, 3)
	if useScreen {
		term.AddContext(&screen)
		desc += "screen "
	}
	if t.Bool() {
		_ = term.SetRaw(true)
		desc += "raw "
	}
	var set, reset []string
	for k := t.R(1, 5); k > 0; k-- {
		mode := []ansi.Mode{ansi.ModeAlternateScreen, ansi.ModeMouseSgrExt, ansi.ModeMouseBtnEvent, ansi.ModeBracketedPaste}[t.N(4)]
		term.AddMode(mode)
		set = append(set, fmt.Sprintf("%q", fmt.Sprintf("\x1b[?%dh", mode&^ansi.ModePrivate)))
		reset = append([]string{fmt.Sprintf("%q", fmt.Sprintf("\x1b[?%dl", mode&^ansi.ModePrivate))}, reset...)
	}
	if t.P(1, 3) {
		long := bytes.Repeat([]byte{'7'}, t.R(100, 4000))
		term.AddModePair(ansi.CSI('z').With(long...), ansi.CSI('y').With(long...))
		set = append(set, fmt.Sprintf("%q", fmt.Sprintf("\x1b[%sz", long)))
		reset = append([]string{fmt.Sprintf("%q", fmt.Sprintf("\x1b[%sy", long))}, reset...)
		desc += fmt.Sprint("long", len(long), " ")
	}
	var want []string

	// the terminal takes all output at its pace, except while it is stalled
	var lock sync.Mutex
	var got []byte
	pace, paused := 8192, time.Time{}
	read := func(most int) int { // with lock held
		tmp := make([]byte, most)
		n, err := syscall.Read(m.master, tmp)
		if n <= 0 || err != nil {
			return 0
		}
		got = append(got, tmp[:n]...)
		return n
	}
	setFlags(m.master, getFlags(m.master)|syscall.O_NONBLOCK)
	stop, stopped := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(stopped)
		for {
			lock.Lock()
			n := 0
			if !time.Now().Before(paused) {
				n = read(pace)
			}
			slow := n == 0 || pace < 300
			lock.Unlock()
			select {
			case <-stop:
				return
			default:
			}
			if slow {
				time.Sleep(20 * time.Microsecond)
			}
		}
	}()
	defer func() {
		select {
		case <-stop:
		default:
			close(stop)
			<-stopped
		}
	}()
	// stall the terminal, but for a little room, to go on after some time
	stall := func(after time.Duration) (done func()) {
		lock.Lock()
		defer lock.Unlock()
		setFlags(m.mark, getFlags(m.mark)|syscall.O_NONBLOCK)
		fill := bytes.Repeat([]byte("x"), 4096)
		for len(fill) > 0 {
			n, err := syscall.Write(m.mark, fill)
			if err == syscall.EAGAIN || n <= 0 {
				fill = fill[:len(fill)/2]
			}
		}
		setFlags(m.mark, getFlags(m.mark)&^syscall.O_NONBLOCK)
		if t.P(3, 4) {
			read(t.R(1, 300))
		}
		pace, paused = t.R(20, 5000), time.Now().Add(after)
		t.Count("stalls", 1)
		return func() {
			lock.Lock()
			defer lock.Unlock()
			pace, paused = 8192, time.Time{}
		}
	}
	delay := func() time.Duration { return time.Duration(t.N(3000)) * time.Microsecond }
	in := func(err error, what string) {
		if err != nil {
			t.Fail("%s: %s a slow terminal failed: %v", desc, what, err)
		}
	}
	done := func() {}
	if t.P(1, 3) {
		desc += "stall at enter; "
		done = stall(delay())
	}
	want = append(want, set...)
	err := term.RunWith(func(term *anansi.Term) error {
		done()
		done = func() {}
		for k := t.R(1, 4); k > 0; k-- {
			switch t.N(4) {
			case 0, 1:
				desc += "read; "
				if _, err := term.ReadAny(); err != nil && err != io.EOF {
					return err
				}
			case 2:
				if !useScreen {
					continue
				}
				desc += "draw; "
				done := stall(delay())
				screen.To(ansi.Pt(t.R(1, 21), t.R(1, 5)))
				screen.WriteSGR(ansi.SGRRed.FG())
				screen.WriteString("o")
				err := term.Flush(&screen)
				done()
				in(err, "drawing on")
			case 3:
				desc += "suspend"
				done := func() {}
				if t.Bool() {
					desc += " stalled"
					done = stall(delay())
				}
				want = append(want, reset...)
				err := term.RunWithout(func(term *anansi.Term) error {
					done()
					if t.Bool() {
						desc += " then stalled"
						done = stall(delay())
					} else {
						done = func() {}
					}
					return nil
				})
				done()
				want = append(want, set...)
				desc += "; "
				in(err, "suspending under")
			}
		}
		if t.P(4, 5) {
			desc += "stall at exit; "
			done = stall(delay())
		}
		return nil
	})
	done()
	want = append(want, reset...)
	t.Logf("%s", desc)
	in(err, "running on")
	end := []byte("\x1e<end>\x1e")
	if _, err := syscall.Write(m.mark, end); err != nil {
		t.Inconclusive("marker: %v", err)
	}
	for all := false; !all; time.Sleep(20 * time.Microsecond) {
		lock.Lock()
		all = bytes.HasSuffix(got, end)
		lock.Unlock()
	}
	close(stop)
	<-stopped
	b := got[:len(got)-len(end)]
	m.rd.Write(b)
	if g, w := strings.Join(m.rd.odd, " "), strings.Join(want, " "); g != w {
		t.Fail("%s: a slow terminal got modes %s, expected %s", desc, clip(g), clip(w))
	}
	if !m.rd.idle() {
		t.Fail("%s: output ended within a sequence %q", desc, m.rd.pbuf)
	}
	if useScreen && (!m.rd.vis || m.rd.cur != rend0) {
		t.Fail("%s: the cursor was left hidden (%v) or with attributes %+v", desc, !m.rd.vis, m.rd.cur)
	}
	if d := termiosDiff(m.termios(), tio); d != "" {
		t.Fail("%s: terminal settings not restored: %s", desc, d)
	}
	if f, o := getFlags(int(m.in.Fd())), getFlags(int(m.out.Fd())); f != fi || o != fo {
		t.Fail("%s: flags are %#x and %#x, were %#x and %#x", desc, f, o, fi, fo)
	}
	t.Count("bytes_interpreted", len(b))
	t.Distinct(desc)
}

// c18Gone takes the terminal away during a run: whatever then cannot be set
// must be reported.
func c18Gone(t *T) {
	m := newTTYMon(t, 20, 4)
	term := anansi.NewTerm(m.in, m.out)
	raw, echo := t.Bool(), t.Bool()
	must := func(what string, err error) {
		if err != nil {
			t.Fail("%s: %v", what, err)
		}
	}
	must("SetRaw", term.SetRaw(raw))
	must("SetEcho", term.SetEcho(echo))
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		t.Inconclusive("%v", err)
	}
	defer null.Close()
	within := errors.New("within")
	var ret error
	if t.Bool() {
		ret = within
	}
	desc := fmt.Sprintf("raw=%v echo=%v return=%v", raw, echo, ret)
	gone, told := false, false
	err = term.RunWith(func(term *anansi.Term) error {
		for k := t.R(1, 6); k > 0; k-- {
			if !gone && (t.P(1, 3) || k == 1) {
				if err := syscall.Dup3(int(null.Fd()), int(m.out.Fd()), syscall.O_CLOEXEC); err != nil {
					t.Inconclusive("dup3: %v", err)
				}
				gone = true
				desc += " gone"
			}
			var err error
			failed, what := gone, ""
			switch t.N(3) {
			case 0:
				if err, what = term.SetRaw(!raw), "SetRaw"; err == nil {
					raw = !raw
				}
			case 1:
				if err, what = term.SetEcho(!echo), "SetEcho"; err == nil {
					echo = !echo
				}
			default:
				if gone {
					called := false
					err = term.RunWithout(func(*anansi.Term) error { called = true; return nil })
					if called {
						t.Fail("%s: a terminal that cannot be let go of was lent out", desc)
					}
					what = "RunWithout"
				} else {
					err, what = term.RunWithout(func(*anansi.Term) error { return nil }), "RunWithout"
				}
			}
			desc += " " + what
			if failed != (err != nil) {
				t.Fail("%s: the terminal is gone: %v, the result is %v", desc, gone, err)
			}
			t.Count("settings_tried", 1)
			if told = what == "RunWithout" && gone; told {
				break
			}
		}
		return ret
	})
	if err == nil && !told {
		t.Fail("%s: the settings of the terminal cannot be restored, the run returns no error", desc)
	}
	if ret != nil && !strings.Contains(err.Error(), "within") {
		t.Fail("%s: the program failed, the run returns %v", desc, err)
	}
	t.Distinct(desc)
}

// c18Back takes the terminal away for some calls, and then gives it back (or
// gives an other one, between runs): settings asked for again must then be made.
func c18Back(t *T) {
	m := newTTYMon(t, 20, 4)
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		t.Inconclusive("%v", err)
	}
	defer null.Close()
	tty, err := syscall.Dup(int(m.out.Fd()))
	if err != nil {
		t.Inconclusive("%v", err)
	}
	defer syscall.Close(tty)
	put := func(fd int) {
		if err := syscall.Dup3(fd, int(m.out.Fd()), syscall.O_CLOEXEC); err != nil {
			t.Inconclusive("dup3: %v", err)
		}
	}
	term := anansi.NewTerm(m.in, m.out)
	if t.P(1, 4) {
		term.Input.File = nil
	}
	orig := m.termios()
	raw, echo, setEcho := false, false, false
	desc := ""
	check := func() {
		if raw2, echo2 := c18RawEcho(m.termios()); raw2 != raw || echo2 != (!raw && !setEcho || setEcho && echo) {
			t.Fail("%s: the terminal is raw %v and echoes %v, asked for raw %v and echo %v (%v)", desc, raw2, echo2, raw, echo, setEcho)
		}
	}
	set := func(held bool) {
		ask := t.Bool()
		name, call := "SetRaw", term.SetRaw
		if t.Bool() {
			name, call = "SetEcho", term.SetEcho
		}
		if held && t.Bool() {
			put(int(null.Fd()))
			for n := t.R(1, 2); n > 0; n-- {
				change := name == "SetRaw" && ask != raw || name == "SetEcho" && (!setEcho || ask != echo)
				err := call(ask)
				desc += fmt.Sprintf(" gone:%s(%v)", name, ask)
				if change != (err != nil) {
					t.Fail("%s: the terminal is gone, setting it returns %v", desc, err)
				}
			}
			put(tty)
			t.Count("settings_failed", 1)
			if t.P(1, 3) {
				ask = !ask
			}
		}
		desc += fmt.Sprintf(" %s(%v)", name, ask)
		if err := call(ask); err != nil {
			t.Fail("%s: %v", desc, err)
		}
		if name == "SetRaw" {
			raw = ask
		} else {
			setEcho, echo = true, ask
		}
		if held {
			check()
		}
	}
	for runs := t.R(1, 4); runs > 0; runs-- {
		if t.P(1, 4) { // a run that cannot have its terminal
			desc += " {no terminal}"
			at := false
			prior := term.Output.File
			if at = t.Bool(); at {
				term.Output.File = null
			} else {
				put(int(null.Fd()))
			}
			err := term.RunWith(func(*anansi.Term) error { at = false; return nil })
			if err == nil {
				t.Fail("%s: a run on no terminal returned no error", desc)
			}
			if term.Output.File = prior; !at {
				put(tty)
			}
			t.Count("runs_failed", 1)
		}
		if t.Bool() {
			set(false)
		}
		desc += " {"
		err := term.RunWith(func(term *anansi.Term) error {
			check()
			for k := t.N(6); k > 0; k-- {
				if t.P(1, 4) {
					if err := term.RunWithout(func(*anansi.Term) error {
						if d := termiosDiff(m.termios(), orig); d != "" {
							t.Fail("%s: terminal settings not restored: %s", desc, d)
						}
						if t.Bool() {
							set(false)
						}
						return nil
					}); err != nil {
						t.Fail("%s: RunWithout: %v", desc, err)
					}
					check()
					continue
				}
				set(true)
			}
			return nil
		})
		if desc += " }"; err != nil {
			t.Fail("%s: %v", desc, err)
		}
		if d := termiosDiff(m.termios(), orig); d != "" {
			t.Fail("%s: terminal settings not restored: %s", desc, d)
		}
	}
	t.Distinct(desc)
}

// c18RawEcho reads back what SetRaw and SetEcho control.
func c18RawEcho(tio syscall.Termios) (raw, echo bool) {
	return tio.Lflag&(syscall.ICANON|syscall.ISIG|syscall.IEXTEN) == 0 && tio.Oflag&syscall.OPOST == 0,
		tio.Lflag&syscall.ECHO != 0
}
