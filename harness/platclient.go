package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"os/signal"
	"strings"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
)

// platclient is a process that runs a client under the platform on the
// terminal at its standard input and output, reporting every frame it is given
// on descriptor 3.

func init() { helpers["platclient"] = platClientMain }

const (
	keySync    = '☃' // show the whole drawing in the report
	keyQuit    = '☠' // fail with an error
	keySuspend = '☾'
	keyStall   = '☕' // be slow
	keyLog     = '☊' // write to the log
	keyEOF     = '☈' // end with io.EOF
)

var errPlatQuit = errors.New("told to quit")

type platConfig struct {
	FPS       int
	Log       string
	Telemetry string
	Timing    bool
	Counter   bool // draw a frame counter
	Quiet     bool // report only frames that have events or an other size
	Dir       string
}

type platFrame struct {
	N      int      `json:"n"`
	Run    int      `json:"run"`
	Ev     []string `json:"ev,omitempty"`
	W      int      `json:"w"`
	H      int      `json:"h"`
	Redraw bool     `json:"redraw,omitempty"`
	Before uint64   `json:"before"`
	After  uint64   `json:"after"`
	Screen uint64   `json:"screen"`
	Dt     int64    `json:"dt"`
	Err    string   `json:"err,omitempty"`

	Rune []rune         `json:"rune,omitempty"`
	Attr []ansi.SGRAttr `json:"attr,omitempty"`
	CX   int            `json:"cx,omitempty"`
	CY   int            `json:"cy,omitempty"`
	Vis  bool           `json:"vis,omitempty"`

	Msg string `json:"msg,omitempty"` // not a frame
}

// PlatInner is nested client state.
type PlatInner struct {
	On    bool
	Label string
	Pos   [3]int
	Ptr   *int
}

// PlatClient is a client whose drawing and state are functions of its input only.
type PlatClient struct {
	Hash   uint64
	Frames int
	Runes  map[string]int
	Last   []string
	Flags  [4]bool
	On     bool
	Inner  PlatInner
	Text   string
	When   time.Time

	h *platHost
}

type platHost struct {
	cfg    platConfig
	report func(platFrame)
	ret    error
	n      int
	run    int
	prior  time.Time
	lw     int
	lh     int
	logs   int
	frozen bool // leave the state alone
}

func (c *PlatClient) digest() uint64 {
	j, err := json.Marshal(c) // maps in key order
	if err != nil {
		panic(err)
	}
	return hash64(string(j))
}

// step is the client's deterministic reaction to its input.
func (c *PlatClient) step(evs []string) {
	for _, s := range evs {
		c.Hash = hash64(fmt.Sprint(c.Hash), s)
		switch c.Hash % 9 {
		case 0:
			c.On = !c.On
		case 1:
			if c.Runes == nil || len(c.Runes) > 6 {
				c.Runes = map[string]int{}
			}
			c.Runes[s]++
		case 2:
			c.Last = append(c.Last, s)
			if len(c.Last) > 4 {
				c.Last = nil
			}
		case 3:
			c.Flags[c.Hash>>8%4] = !c.Flags[c.Hash>>8%4]
		case 4:
			c.Inner.On = !c.Inner.On
			c.Inner.Label += s
			if len(c.Inner.Label) > 12 {
				c.Inner.Label = ""
			}
		case 5:
			c.Inner.Pos[c.Hash>>8%3] = int(c.Hash >> 16 % 3)
		case 6:
			if c.Inner.Ptr == nil {
				n := 1 + int(c.Hash>>16%5)
				c.Inner.Ptr = &n
			} else {
				*c.Inner.Ptr = 1 + int(c.Hash>>16%3) // gob drops pointers to zero
			}
		case 7:
			c.Text += s
			if len(c.Text) > 20 {
				c.Text = ""
			}
		case 8:
			if c.When.IsZero() {
				c.When = time.Unix(int64(c.Hash>>40), 0).UTC()
			} else {
				c.When = time.Time{}
			}
		}
	}
	c.Frames++
}

// draw fills a part of the screen as told by the state.
func (c *PlatClient) draw(s *anansi.TermScreen, counter int, seed uint64) {
	r := &Rng{seed}
	sz := s.Bounds().Size()
	if sz.X > 0 && sz.Y > 0 {
		for i := sz.X * sz.Y / 3; i > 0; i-- {
			s.To(ansi.Pt(1+r.N(sz.X), 1+r.N(sz.Y)))
			s.WriteSGR(ansi.SGRAttrClear | ansi.SGRAttr(r.N(3)) | []ansi.SGRAttr{0, ansi.SGRRed.FG(), ansi.SGRBlue.BG(), ansi.SGRCube38.FG()}[r.N(4)])
			s.WriteRune(rune('!' + r.N(90)))
		}
		if counter > 0 {
			s.To(ansi.Pt(1, 1))
			s.WriteSGR(ansi.SGRAttrClear)
			s.WriteRune(counterRune(counter))
		}
		s.UserCursor.Point = ansi.Pt(1+r.N(sz.X), 1+r.N(sz.Y))
		s.UserCursor.Visible = r.Bool()
	}
}

func counterRune(n int) rune { return rune(0x2801 + n%200) }

func (c *PlatClient) Update(ctx *platform.Context) error {
	h := c.h
	h.n++
	f := platFrame{N: h.n, Run: h.run, Before: c.digest(), Redraw: ctx.Redraw}
	for _, q := range readQueue(ctx.Input) {
		if !q.gone {
			f.Ev = append(f.Ev, evText(q))
		}
	}
	sz := ctx.Output.Bounds().Size()
	f.W, f.H = sz.X, sz.Y
	if ctx.Err != nil {
		f.Err = ctx.Err.Error()
	}
	if !h.prior.IsZero() {
		f.Dt = int64(ctx.Platform.Time.Sub(h.prior))
	}
	h.prior = ctx.Platform.Time
	if !h.frozen {
		c.step(f.Ev)
	}
	f.After = c.digest()
	counter := 0
	if h.cfg.Counter {
		counter = h.n
	}
	c.draw(ctx.Output, counter, c.Hash)
	f.Screen = screenDigest(ctx.Output, h.cfg.Counter)
	err := h.ret
	suspend := false
	for _, s := range f.Ev {
		switch s {
		case "r" + string(keySync):
			g := ctx.Output.Grid
			f.Rune, f.Attr = g.Rune, g.Attr
			f.CX, f.CY, f.Vis = ctx.Output.UserCursor.X, ctx.Output.UserCursor.Y, ctx.Output.UserCursor.Visible
		case "r" + string(keyQuit):
			err = errPlatQuit
		case "r" + string(keyEOF):
			err = io.EOF
		case "r" + string(keySuspend):
			suspend = true
		case "r" + string(keyStall):
			time.Sleep(3 * time.Millisecond)
		case "r" + string(keyLog):
			h.logs++
			log.Printf("client line %d", h.logs)
		}
	}
	if !h.cfg.Quiet || len(f.Ev) > 0 || f.Redraw || f.W != h.lw || f.H != h.lh || f.Err != "" {
		h.report(f)
	}
	h.lw, h.lh = f.W, f.H
	if suspend {
		h.report(platFrame{Msg: "suspending"})
		if serr := ctx.Suspend(); serr != nil {
			return serr
		}
		h.report(platFrame{Msg: "resumed"})
	}
	return err
}

func screenDigest(s *anansi.TermScreen, counter bool) uint64 {
	var sb strings.Builder
	for i := range s.Grid.Rune {
		if i == 0 && counter {
			continue
		}
		fmt.Fprintf(&sb, "%c%x,", s.Grid.Rune[i], uint64(s.Grid.Attr[i]))
	}
	fmt.Fprintf(&sb, "%v %v", s.UserCursor.Point, s.UserCursor.Visible)
	return hash64(sb.String())
}

// evText tells an event in a form the parent's model has too.
func evText(q qev) string {
	if q.kind == platform.EventRune && q.id < 0x110000 && q.arg == "" && !q.loose {
		return "r" + string(rune(q.id))
	}
	return q.String()
}

func platClientMain(args []string) {
	h := &platHost{}
	if err := json.Unmarshal([]byte(args[0]), &h.cfg); err != nil {
		panic(err)
	}
	w := os.NewFile(3, "report")
	syscall.CloseOnExec(3)
	out := json.NewEncoder(w)
	h.report = func(f platFrame) { out.Encode(f) }
	if signal.Ignored(syscall.SIGTSTP) {
		h.report(platFrame{Msg: "ignored"})
		return
	}
	if h.cfg.Dir != "" {
		if err := os.Chdir(h.cfg.Dir); err != nil {
			panic(err)
		}
	}
	c := &PlatClient{h: h}
	err := platform.Run(os.Stdin, os.Stdout, func(p *platform.Platform) error {
		h.report(platFrame{Msg: "up"})
		for {
			h.run++
			err := p.Run(c)
			if !platform.IsReplayDone(err) {
				return err
			}
			h.report(platFrame{Msg: "replay", Run: h.run})
		}
	}, platform.FrameRate(h.cfg.FPS), platform.Config{LogFileName: h.cfg.Log, TelemetryLogFileName: h.cfg.Telemetry, LogTiming: h.cfg.Timing})
	msg := fmt.Sprintf("done %v", err)
	for i := 0; i < 3; i++ {
		log.Printf("afterwards %d", i)
	}
	h.report(platFrame{Msg: msg})
}

// platSession is a running platclient, seen from its terminal.
type platSession struct {
	t      *T
	m      *ttyMon
	cfg    platConfig
	cmd    *exec.Cmd
	pid    int
	reaped bool
	died   bool // by a signal
	late   bool // signals may come after the platform stopped to handle them
	pr     *os.File
	lines  chan platFrame
	closed chan struct{}

	base   syscall.Termios
	fi, fo int
	w, h   int
	raw    bool // passes everything also while not held

	frames  []platFrame  // reported so far
	dropped map[int]bool // frames that suspended
	braces  []rune       // counters seen on the terminal
	bytes   int
	tail    []byte // unfinished rune
	odd     []string
	all     *bytes.Buffer // everything, if not nil
}

func startPlat(t *T, cfg platConfig, w, h int, raw bool, early []byte) *platSession {
	s := &platSession{t: t, cfg: cfg, w: w, h: h, raw: raw, dropped: map[int]bool{}}
	s.m = newTTYMon(t, w, h)
	if raw {
		if err := setTermios(s.m.mark, rawTermios(s.m.termios())); err != nil {
			t.Inconclusive("stty: %v", err)
		}
	}
	s.base = s.m.termios()
	s.fi, s.fo = getFlags(int(s.m.in.Fd())), getFlags(int(s.m.out.Fd()))
	pr, pw, err := os.Pipe()
	if err != nil {
		t.Inconclusive("pipe: %v", err)
	}
	s.pr = pr
	t.Cleanup(func() { pr.Close() })
	if len(early) > 0 {
		s.input(early)
	}
	j, _ := json.Marshal(cfg)
	self, _ := os.Executable()
	s.cmd = exec.Command(self, "-helper", "platclient", string(j))
	var errOut capBuf
	s.cmd.Stdin, s.cmd.Stdout, s.cmd.Stderr = s.m.in, s.m.out, &errOut
	s.cmd.ExtraFiles = []*os.File{pw}
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	s.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all")
	if err := s.cmd.Start(); err != nil {
		t.Inconclusive("start: %v", err)
	}
	pw.Close()
	s.pid = s.cmd.Process.Pid
	t.Cleanup(func() {
		if !s.reaped {
			syscall.Kill(-s.pid, syscall.SIGCONT)
			syscall.Kill(-s.pid, syscall.SIGKILL)
			s.cmd.Wait()
		}
		if e := errOut.String(); e != "" {
			t.Logf("client's stderr: %s", e)
		}
	})
	s.lines = make(chan platFrame, 4096)
	go func() {
		defer close(s.lines)
		dec := json.NewDecoder(bufio.NewReaderSize(pr, 1<<16))
		for {
			var f platFrame
			if dec.Decode(&f) != nil {
				return
			}
			s.lines <- f
		}
	}()
	return s
}

type capBuf struct{ b []byte }

func (c *capBuf) Write(p []byte) (int, error) {
	if len(c.b) < 20000 {
		c.b = append(c.b, p...)
	}
	return len(p), nil
}
func (c *capBuf) String() string { return string(c.b) }

func (s *platSession) input(p []byte) {
	for len(p) > 0 {
		n, err := syscall.Write(s.m.master, p)
		if err != nil {
			if err == syscall.EINTR {
				continue
			}
			s.t.Inconclusive("master write: %v", err)
		}
		p = p[n:]
	}
}

// watch reads what the terminal was sent so far.
func (s *platSession) watch() {
	var tmp [16384]byte
	for {
		pfd := [1]pollFd{{fd: int32(s.m.master), events: 1}}
		if n := poll(pfd[:], 0); n <= 0 || pfd[0].revents&1 == 0 {
			return
		}
		n, err := syscall.Read(s.m.master, tmp[:])
		if n <= 0 || err != nil {
			return
		}
		s.t.Count("terminal_bytes", n)
		b := tmp[:n]
		if s.all != nil {
			s.all.Write(b)
		}
		for _, r := range string(append(s.tail, b...)) {
			if r > 0x2800 && r <= 0x2800+201 {
				s.braces = append(s.braces, r)
			}
		}
		s.tail = nil
		for i := len(b) - 1; i >= 0 && i >= len(b)-3; i-- {
			if b[i] >= 0xC0 { // a rune that may continue in the next read
				if b[i] >= 0xE0 && i > len(b)-3 {
					s.tail = append([]byte(nil), b[i:]...)
				}
				break
			}
		}
		s.m.rd.Write(b)
		s.odd = append(s.odd, s.m.rd.odd...)
		s.m.rd.odd = nil
	}
}

// next returns the next report, watching the terminal meanwhile.
func (s *platSession) next(d time.Duration) (f platFrame, ok bool) {
	deadline := time.Now().Add(d)
	for {
		s.watch()
		select {
		case f, ok = <-s.lines:
			if ok && f.Msg == "" {
				if f.Dt < 0 {
					s.t.Fail("frame %d of run %d is %v before the one before it", f.N, f.Run, -time.Duration(f.Dt))
				}
				s.frames = append(s.frames, f)
				s.t.Count("frames", 1)
			}
			return f, ok
		case <-time.After(500 * time.Microsecond):
		}
		if time.Now().After(deadline) {
			return f, false
		}
	}
}

// until reads reports until one satisfies.
func (s *platSession) until(what string, d time.Duration, is func(f platFrame) bool) platFrame {
	deadline := time.Now().Add(d)
	for {
		f, ok := s.next(time.Until(deadline))
		if f.Msg == "ignored" {
			s.t.Inconclusive("stop signals are ignored here")
		}
		if !ok {
			for i := 0; i < 100 && !s.ended(); i++ {
				time.Sleep(time.Duration(i) * 100 * time.Microsecond)
			}
			if s.reaped && s.late && s.died && strings.HasPrefix(what, "end") {
				return platFrame{Msg: "done killed"}
			}
			if s.reaped {
				s.t.Fail("the client's process ended before %s: %v", what, s.cmd.ProcessState)
			}
			s.t.Fail("no %s within %v", what, d)
		}
		if is(f) {
			return f
		}
		if strings.HasPrefix(f.Msg, "done") && !strings.HasPrefix(what, "end") {
			s.t.Fail("the client ended (%s) before %s", f.Msg, what)
		}
	}
}

func (s *platSession) ended() bool {
	var ws syscall.WaitStatus
	if s.reaped {
		return true
	}
	p, err := syscall.Wait4(s.pid, &ws, syscall.WNOHANG, nil)
	if err == nil && p == s.pid {
		s.reaped, s.died = true, ws.Signaled()
		s.t.Logf("process status %v signaled %v", ws.ExitStatus(), ws.Signaled())
		s.cmd.Wait()
		return true
	}
	return false
}

func (s *platSession) msg(what string) platFrame {
	return s.until(what, 30*time.Second, func(f platFrame) bool { return strings.HasPrefix(f.Msg, what) })
}

// sync sends the sync key, and compares the drawing of the frame which gets it
// with what the terminal then shows.
func (s *platSession) sync() {
	// the signal of a resize may be noticed later than input
	if n := len(s.frames); n > 0 && (s.frames[n-1].W != s.w || s.frames[n-1].H != s.h) {
		s.until("frame of the terminal's size", 20*time.Second, func(f platFrame) bool { return f.W == s.w && f.H == s.h })
	}
	s.input([]byte(string(keySync)))
	f := s.until("frame with the sync key", 30*time.Second, func(f platFrame) bool { return f.Rune != nil || hasEv(f, keySync) })
	if f.W != s.w || f.H != s.h {
		s.t.Fail("frame %d is %dx%d, the terminal is %dx%d", f.N, f.W, f.H, s.w, s.h)
	}
	deadline := time.Now().Add(20 * time.Second)
	for {
		s.watch()
		d := s.shows(f)
		if d == "" {
			break
		}
		if time.Now().After(deadline) {
			s.t.Fail("20 s after frame %d, the terminal does not show it: %s", f.N, d)
		}
		time.Sleep(200 * time.Microsecond)
	}
	s.t.Count("screens_compared", 1)
}

func hasEv(f platFrame, r rune) bool {
	for _, e := range f.Ev {
		if e == "r"+string(r) {
			return true
		}
	}
	return false
}

func (s *platSession) shows(f platFrame) string {
	rd := s.m.rd
	for i := range f.Rune {
		x, y := i%f.W+1, i/f.W+1
		if i == 0 && s.cfg.Counter {
			continue
		}
		want := rcell{f.Rune[i], rendOf(f.Attr[i])}
		if want.r == 0 {
			want.r = ' '
		}
		if got := *rd.at(x, y); got != want {
			return fmt.Sprintf("cell %d,%d shows %q %+v, expected %q %+v", x, y, got.r, got.a, want.r, want.a)
		}
	}
	if rd.vis != f.Vis {
		return fmt.Sprintf("cursor visible: %v, expected %v", rd.vis, f.Vis)
	}
	if f.Vis && (rd.x != f.CX || rd.y != f.CY) {
		return fmt.Sprintf("cursor at %d,%d, expected %d,%d", rd.x, rd.y, f.CX, f.CY)
	}
	return ""
}

func (s *platSession) resize(w, h int) {
	s.watch()
	s.w, s.h = w, h
	if err := setWinsize(s.m.master, w, h); err != nil {
		s.t.Inconclusive("winsize: %v", err)
	}
	s.m.rd.resize(w, h)
	syscall.Kill(s.pid, syscall.SIGWINCH)
	s.t.Count("resizes", 1)
}

// restored checks that the terminal is as it was before.
func (s *platSession) restored(what string) {
	if d := termiosDiff(s.m.termios(), s.base); d != "" {
		s.t.Fail("%s: terminal settings not restored: %s", what, d)
	}
	if gi, g := getFlags(int(s.m.in.Fd())), getFlags(int(s.m.out.Fd())); gi != s.fi || g != s.fo {
		s.t.Fail("%s: flags are %#x, %#x; were %#x, %#x", what, gi, g, s.fi, s.fo)
	}
	s.watch()
	if !s.m.rd.vis || s.m.rd.cur != rend0 {
		s.t.Fail("%s: cursor visible %v, attributes %+v", what, s.m.rd.vis, s.m.rd.cur)
	}
	on := map[string]bool{}
	for _, q := range s.odd {
		q = strings.Trim(q, `"`)
		if strings.HasPrefix(q, `\x1b[?`) {
			for _, m := range strings.Split(q[6:len(q)-1], ";") {
				on[m] = strings.HasSuffix(q, "h")
			}
		}
	}
	for m, set := range on {
		if set {
			s.t.Fail("%s: terminal mode %s is still set", what, m)
		}
	}
	s.t.Count("released_states_checked", 1)
}

func (s *platSession) held(what string) {
	if d := termiosDiff(s.m.termios(), heldTermios(s.base, true, false)); d != "" {
		s.t.Fail("%s: not raw: %s", what, d)
	}
}

// stopped waits until the process is stopped.
func (s *platSession) stopped() {
	var ws syscall.WaitStatus
	for deadline := time.Now().Add(20 * time.Second); ; {
		p, err := syscall.Wait4(s.pid, &ws, syscall.WUNTRACED|syscall.WNOHANG, nil)
		if err != nil && err != syscall.EINTR {
			s.t.Fail("wait: %v", err)
		}
		if p == s.pid {
			break
		}
		if time.Now().After(deadline) {
			s.t.Fail("process did not stop within 20s of being told to suspend")
		}
		s.watch()
		time.Sleep(100 * time.Microsecond)
	}
	if !ws.Stopped() {
		s.reaped = true
		s.t.Fail("process ended (%v) rather than stop", ws)
	}
}

// end waits for the process to end by itself.
func (s *platSession) end() string {
	f := s.until("end", 30*time.Second, func(f platFrame) bool { return strings.HasPrefix(f.Msg, "done") })
	if s.reaped {
		s.watch()
		return strings.TrimPrefix(f.Msg, "done ")
	}
	done := make(chan error, 1)
	go func() { done <- s.cmd.Wait() }()
	for deadline := time.Now().Add(30 * time.Second); ; {
		s.watch()
		select {
		case err := <-done:
			s.reaped = true
			if ws, ok := s.cmd.ProcessState.Sys().(syscall.WaitStatus); s.late && ok && ws.Signaled() {
				err = nil
			}
			if err != nil {
				s.t.Fail("the process ended with %v", err)
			}
			s.watch()
			return strings.TrimPrefix(f.Msg, "done ")
		case <-time.After(time.Millisecond):
		}
		if time.Now().After(deadline) {
			s.t.Fail("the process did not end within 30s of its client's end")
		}
	}
}
