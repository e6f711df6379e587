package main

import (
	"bytes"
	"fmt"
	"image"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/jcorbin/anansi/x/platform"
)

func init() {
	register(&Prop{
		ID:   "C22",
		Rule: "a real process runs a drawing client under the platform on a pseudo terminal, while input arrives in pieces at any moment (before it starts, between and within frames, while suspended), its terminal is resized, it is suspended and continued, and ended by its client, by signals, or by the terminal going away; every frame the client was given is reported and compared with an independent decoding of what was sent, every frame's drawing is looked for in the bytes its terminal got, and the shown screen is compared cell by cell at synchronisation points; frame times are compared from frame to frame, in sessions and over random ticks; platforms run under their terminal several times, input and resizes being due in each; under the race detector; non-trivial by (schedule, frames seen)",
		Assumptions: []string{
			"input is not cut right behind an ESC (or an ESC and intermediates), where the remainder's arrival time decides what it means",
			"Ctrl-K, Ctrl-L and Ctrl-R are the platform's own and not passed on",
		},
		Subs: []Sub{
			{Name: "session", Quick: 600, Thorough: 20000, Run: c22Session, Wall: 200 * time.Second},
			{Name: "end", Quick: 400, Thorough: 12000, Run: c22End, Wall: 200 * time.Second},
			{Name: "steps", Quick: 4000, Thorough: 150000, Run: c22Steps},
			{Name: "times", Quick: 60, Thorough: 2000, Run: c22Times},
			{Name: "again", Quick: 60, Thorough: 2000, Run: c22Again, Serial: true},
		},
	})
}

// platInput makes input whose meaning does not depend on arrival times other
// than at the returned places where it may be cut.
func platInput(t *T, n int, own bool) (p []byte, cuts []int, evs []string) {
	for n > 0 {
		tok := genEventToken(t)
		q := append(append([]byte(nil), p...), tok...)
		want, held := refDecode(q, false)
		ok := len(held) == 0 && !exoticInESC([]byte(tok))
		for _, e := range classifyAll(want) {
			if e.loose {
				ok = false
			}
			if own && e.kind == platform.EventRune && (e.id == '\x0b' || e.id == '\x0c' || e.id == '\x12') {
				ok = false
			}
		}
		if ok {
			p = q
			n--
		}
	}
	want, _ := refDecode(p, false)
	for _, e := range classifyAll(want) {
		evs = append(evs, evText(e))
	}
	for i := 1; i < len(p); i++ {
		_, held := refDecode(p[:i], false)
		if len(held) > 0 && (held[0] == 0x1B && len(bytes.TrimLeft(held[1:], " !\"#$%&'()*+,-./\x7f")) == 0) {
			continue
		}
		cuts = append(cuts, i)
	}
	return p, cuts, evs
}

// feed sends input in pieces.
func (s *platSession) feed(p []byte, cuts []int) {
	at := 0
	mode := s.t.N(4)
	for _, c := range append(cuts, len(p)) {
		if c < len(p) && (mode == 0 || mode < 3 && !s.t.P(1, 4) || mode == 3 && s.t.P(1, 6)) {
			continue
		}
		s.input(p[at:c])
		at = c
		switch s.t.N(5) {
		case 0:
			time.Sleep(time.Duration(s.t.N(3000)) * time.Microsecond)
			s.watch()
		case 1:
			time.Sleep(time.Duration(s.t.N(200)) * time.Microsecond)
		}
	}
	s.t.Count("input_bytes", len(p))
}

func (s *platSession) checkEvents(want []string) {
	var got []string
	for _, f := range s.frames {
		got = append(got, f.Ev...)
	}
	if d := diffStrings(want, got); d != "" {
		s.t.Fail("the client's events are not those sent: %s", d)
	}
	s.t.Count("events", len(got))
	n := 0
	for i, f := range s.frames {
		if i > 0 && (f.N <= n || !s.cfg.Quiet && f.N != n+1) {
			s.t.Fail("frame %d reported after frame %d", f.N, n)
		}
		n = f.N
		if (i == 0 || f.W != s.frames[i-1].W || f.H != s.frames[i-1].H) && !f.Redraw {
			s.t.Fail("frame %d is the first one of size %dx%d, but not told to redraw", f.N, f.W, f.H)
		}
		if i > 0 && f.Before != s.frames[i-1].After && !s.cfg.Quiet {
			s.t.Fail("frame %d does not start in the state that the frame before ended in", f.N)
		}
	}
}

func diffStrings(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(want) || i >= len(got) || want[i] != got[i] {
			lo := i - 2
			if lo < 0 {
				lo = 0
			}
			return fmt.Sprintf("%d expected, %d seen; from %d: expected %q, seen %q", len(want), len(got), lo, cut(want, lo), cut(got, lo))
		}
	}
	return ""
}

func cut(ss []string, i int) []string {
	if i >= len(ss) {
		return nil
	}
	ss = ss[i:]
	if len(ss) > 8 {
		ss = ss[:8]
	}
	return ss
}

// every frame's drawing was sent before the next one's
func (s *platSession) checkCounters(lastFlushed int) {
	if !s.cfg.Counter {
		return
	}
	n := 0
	for _, r := range s.braces {
		// full redraws repeat nothing: a frame is flushed once
		n++
		for s.dropped[n] { // suspending discards the drawing
			n++
		}
		if want := counterRune(n); r != want {
			s.t.Fail("the terminal was sent the drawing of frame %d (mod 200) where that of frame %d was due (%d seen)", (int(r)-0x2801+200)%200, n, len(s.braces))
		}
	}
	if n < lastFlushed {
		s.t.Fail("the terminal was sent the drawings of %d frames, at least %d were due", n, lastFlushed)
	}
	s.t.Count("drawings_seen", n)
}

func c22Session(t *T) {
	raw := t.P(2, 3)
	cfg := platConfig{FPS: []int{2000, 1000, 500, 240}[t.N(4)], Counter: t.P(2, 3), Quiet: t.Bool()}
	dir := t.TempDir()
	logging := t.Bool()
	if logging {
		cfg.Log = filepath.Join(dir, "log")
	}
	if t.P(1, 3) {
		cfg.Timing = true
		cfg.Telemetry = filepath.Join(dir, "telemetry")
	}
	var want []string
	var early []byte
	if raw && t.Bool() {
		p, _, evs := platInput(t, t.R(1, 6), true)
		early, want = p, evs
	}
	desc := fmt.Sprintf("fps=%d early=%v ", cfg.FPS, len(early) > 0)
	s := startPlat(t, cfg, t.R(1, 40), t.R(1, 10), raw, early)
	s.msg("up")
	s.held("started")
	if len(early) > 0 {
		// seen without anything else arriving
		s.until("early input", 20*time.Second, func(f platFrame) bool { return len(f.Ev) > 0 })
	}
	if len(s.frames) == 0 {
		s.until("first frame", 20*time.Second, func(f platFrame) bool { return f.N > 0 })
	}
	logs := 0
	for n := t.R(1, 8); n > 0; n-- {
		switch t.N(9) {
		case 0, 1, 2, 3:
			p, cuts, evs := platInput(t, t.R(1, 40), true)
			t.Logf("input %q", p)
			s.feed(p, cuts)
			want = append(want, evs...)
			desc += "i"
		case 4:
			w, h := t.R(1, 40), t.R(1, 10)
			t.Logf("resize %dx%d", w, h)
			s.resize(w, h)
			desc += "r"
			if l := s.frames[len(s.frames)-1]; t.Bool() && (l.W != w || l.H != h) { // honoured without any input
				s.until("frame of the new size", 20*time.Second, func(f platFrame) bool { return f.W == w && f.H == h })
			}
		case 5:
			s.input([]byte(string(keyStall)))
			want = append(want, "r"+string(keyStall))
			desc += "s"
		case 6:
			k := t.R(1, 3)
			for ; k > 0; k-- {
				s.input([]byte(string(keyLog)))
				want = append(want, "r"+string(keyLog))
				logs++
			}
			desc += "l"
		case 7:
			desc += "z"
			t.Logf("suspend")
			s.input([]byte(string(keySuspend)))
			want = append(want, "r"+string(keySuspend))
			s.msg("suspending")
			s.dropped[s.frames[len(s.frames)-1].N] = true
			s.stopped()
			s.restored("stopped")
			if t.Bool() {
				syscall.Write(s.m.mark, []byte("\x1b[41mother\x1b[?25l"))
				s.watch()
			}
			if t.Bool() {
				w, h := t.R(1, 40), t.R(1, 10)
				s.w, s.h = w, h
				setWinsize(s.m.master, w, h)
				s.m.rd.resize(w, h)
			}
			var evs []string
			if raw && t.Bool() {
				var p []byte
				p, _, evs = platInput(t, t.R(1, 6), true)
				s.input(p)
				want = append(want, evs...)
				desc += "i"
			}
			if err := syscall.Kill(-s.pid, syscall.SIGCONT); err != nil {
				t.Inconclusive("cont: %v", err)
			}
			s.msg("resumed")
			s.held("resumed")
			if len(evs) > 0 {
				s.until("input that came while stopped", 20*time.Second, func(f platFrame) bool { return len(f.Ev) > 0 })
			}
			t.Count("suspensions", 1)
		case 8:
			// the platform's own keys
			s.input([]byte("\x0c"))
			if t.Bool() {
				n := s.frames[len(s.frames)-1].N
				s.until("redrawing frame", 20*time.Second, func(f platFrame) bool { return f.N > n && f.Redraw })
			}
			desc += "L"
		}
		if t.P(1, 2) {
			s.sync()
			want = append(want, "r"+string(keySync))
			desc += "."
		}
	}
	s.sync()
	want = append(want, "r"+string(keySync))
	flushed := s.frames[len(s.frames)-1].N
	how := t.N(3)
	wantErr := ""
	switch how {
	case 0:
		s.input([]byte(string(keyQuit)))
		want = append(want, "r"+string(keyQuit))
		wantErr = "told to quit"
	case 1:
		s.input([]byte(string(keyEOF)))
		want = append(want, "r"+string(keyEOF))
		wantErr = "EOF"
	case 2:
		sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP}[t.N(3)]
		syscall.Kill(s.pid, sig)
		wantErr = "signal " + sig.String()
	}
	if got := s.end(); got != wantErr {
		t.Fail("ended with %q, expected %q", got, wantErr)
	}
	s.restored("ended")
	s.checkEvents(want)
	s.checkCounters(flushed)
	if logging {
		b, err := os.ReadFile(cfg.Log)
		if err != nil {
			t.Fail("log: %v", err)
		}
		var lines, wantLines []string
		for _, l := range strings.Split(string(b), "\n") {
			if i := strings.Index(l, "client line"); i >= 0 {
				lines = append(lines, l[i:])
			} else if i := strings.Index(l, "afterwards"); i >= 0 {
				lines = append(lines, l[i:])
			}
		}
		for i := 1; i <= logs; i++ {
			wantLines = append(wantLines, fmt.Sprintf("client line %d", i))
		}
		for i := 0; i < 3; i++ {
			wantLines = append(wantLines, fmt.Sprintf("afterwards %d", i))
		}
		if d := diffStrings(wantLines, lines); d != "" {
			t.Fail("log file: %s", d)
		}
		t.Count("log_lines", len(lines))
	}
	t.Distinct(fmt.Sprint(desc, how, len(s.frames)))
	t.Sample("%s: %d reported frames, %d events, %d drawings", desc, len(s.frames), len(want), len(s.braces))
}

// the ends of sessions, at any moment
func c22End(t *T) {
	cfg := platConfig{FPS: []int{2000, 1000, 60}[t.N(3)], Counter: t.Bool()}
	s := startPlat(t, cfg, t.R(1, 20), t.R(1, 6), t.Bool(), nil)
	s.msg("up")
	var want []string
	if t.Bool() {
		p, cuts, evs := platInput(t, t.R(1, 10), true)
		s.feed(p, cuts)
		want = evs
	}
	how := t.N(5)
	t.Logf("way to end: %d", how)
	wantErr := ""
	exact := true
	time.Sleep(time.Duration(t.N(4000)) * time.Microsecond)
	switch how {
	case 0, 1:
		sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP}[t.N(3)]
		k := t.R(1, 3)
		s.late = k > 1
		for ; k > 0; k-- {
			syscall.Kill(s.pid, sig)
		}
		wantErr, exact = "signal "+sig.String(), false // input may still be on its way
	case 2:
		s.input([]byte(string(keyQuit)))
		want = append(want, "r"+string(keyQuit))
		wantErr = "told to quit"
	case 3:
		// both at once: either may come first
		s.late = true
		s.input([]byte(string(keyQuit)))
		syscall.Kill(s.pid, syscall.SIGTERM)
		wantErr, exact = "told to quit|signal terminated", false
	case 4:
		// the terminal goes away
		s.watch()
		fd, err := syscall.Open("/dev/null", syscall.O_RDWR|syscall.O_CLOEXEC, 0)
		if err != nil {
			t.Inconclusive("null: %v", err)
		}
		syscall.Dup3(fd, s.m.master, syscall.O_CLOEXEC)
		syscall.Close(fd)
		// it need not notice before it has something to write, or is told as
		// the terminal's foreground job would be
		if !cfg.Counter || t.Bool() {
			s.late = true
			syscall.Kill(s.pid, syscall.SIGHUP)
		}
		got := s.end()
		if got == "<nil>" {
			t.Fail("the terminal went away, but the loop ended without an error")
		}
		t.Count("hangups", 1)
		t.Distinct(fmt.Sprint("hangup ", got, len(s.frames)))
		return
	}
	got := s.end()
	ok := false
	for _, w := range strings.Split(wantErr, "|") {
		ok = ok || got == w
	}
	if got == "killed" {
		t.Count("killed_after_release", 1)
		ok = true
	}
	if !ok {
		t.Fail("ended with %q, expected %q", got, wantErr)
	}
	s.restored("ended")
	if exact {
		s.checkEvents(want)
	}
	t.Distinct(fmt.Sprint(how, got, len(s.frames), len(want)))
	t.Sample("%d -> %s after %d frames", how, got, len(s.frames))
}

// steps runs single frames in this process over a pipe.
func c22Steps(t *T) {
	r, w := rawPipe(t)
	out, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		t.Inconclusive("%v", err)
	}
	defer out.Close()
	p, err := platform.New(r, out, platform.Config{}, platform.FrameRate(t.R(1, 100)))
	if err != nil {
		t.Fail("new: %v", err)
	}
	var want, got []string
	frames, keep := 0, 0
	var cerr error
	client := platform.ClientFunc(func(ctx *platform.Context) error {
		frames++
		for i, q := range readQueue(ctx.Input) {
			if q.gone {
				continue
			}
			got = append(got, evText(q))
			if keep%3 == 0 {
				ctx.Input.Type[i] = platform.EventNone
			}
			keep++
		}
		return cerr
	})
	var pend []byte
	for n := t.R(1, 12); n > 0; n-- {
		if len(pend) == 0 && t.P(2, 3) {
			in, cuts, evs := platInput(t, t.R(1, 12), true)
			want = append(want, evs...)
			at := 0
			for _, c := range append(cuts, len(in)) {
				if c == len(in) || t.P(1, 5) {
					w.Write(in[at:c])
					at = c
					if t.P(1, 3) {
						before := frames
						if err := p.Run(client); err != nil {
							t.Fail("run: %v", err)
						}
						if frames != before+1 {
							t.Fail("%d frames, rather than one", frames-before)
						}
					}
				}
			}
		}
		if t.P(1, 6) {
			cerr = errPlanned
		}
		if err := p.Run(client); err != cerr {
			t.Fail("run returned %v, the client %v", err, cerr)
		}
		cerr = nil
		if d := diffStrings(want, got); d != "" {
			t.Fail("the client's events are not those sent: %s", d)
		}
	}
	if t.Bool() { // the last input comes together with the end
		in, _, evs := platInput(t, t.R(1, 12), true)
		w.Write(in)
		want = append(want, evs...)
	}
	w.Close()
	if err := p.Run(client); err == nil || err.Error() != "EOF" {
		t.Fail("at the end of input, run returned %v", err)
	}
	if d := diffStrings(want, got); d != "" {
		t.Fail("the client's events are not those sent: %s", d)
	}
	t.Count("events", len(got))
	t.Distinct(strings.Join(got, " "))
}

// c22Times: every frame has a time between the end of the frame before it and
// its own beginning, or at least one due since the beginning of the one before.
func c22Times(t *T) {
	m := newTTYMon(t, 10, 3)
	drained(t, m)
	fps := t.R(20, 400)
	p, err := platform.New(m.in, m.out, platform.Config{}, platform.FrameRate(fps))
	if err != nil {
		t.Fail("new: %v", err)
	}
	pause := func(max int) {
		if t.P(1, 2) {
			time.Sleep(time.Duration(t.N(max*1000)) * time.Microsecond)
		}
	}
	var (
		begun  = time.Now()
		prior  time.Time // of the last frame
		hist   []string
		frames int
	)
	runs := t.R(1, 3)
	for enter := t.R(1, 2); enter > 0; enter-- {
		err = p.RunWith(func(p *platform.Platform) error {
			for run := 0; run < runs; run++ {
				pause(100)
				first := true
				n := t.R(1, 6)
				at := time.Now()
				if err := p.Run(platform.ClientFunc(func(ctx *platform.Context) error {
					now := time.Now()
					got, last := ctx.Platform.Time, p.LastTime
					hist = append(hist, fmt.Sprint(got.Sub(begun)))
					switch {
					case got.After(now):
						t.Fail("a frame of %v has a time %v ahead", hist, got.Sub(now))
					case first && got.Before(at):
						t.Fail("the first frame of a run has a time %v before its start: %v", at.Sub(got), hist)
					case got.Before(prior):
						t.Fail("a frame is %v before the one before it: %v", prior.Sub(got), hist)
					case !first && !last.Equal(prior):
						t.Fail("the last frame's time is %v, but it was at %v", last.Sub(begun), prior.Sub(begun))
					case !ctx.Time.Equal(got):
						t.Fail("the client is given a time %v off", ctx.Time.Sub(got))
					case !first && now.Sub(got) > time.Second/time.Duration(fps)+soon:
						t.Fail("a frame is given a time %v ago", now.Sub(got))
					}
					prior, first = got, false
					frames++
					pause(40)
					if n--; n == 0 {
						return errPlanned
					}
					return nil
				})); err != errPlanned {
					return fmt.Errorf("run ended with %v", err)
				}
			}
			return nil
		})
		if err != nil {
			t.Fail("%v", err)
		}
		pause(50)
	}
	t.Count("timed_frames", frames)
	t.Distinct(fmt.Sprint(fps, frames, runs))
}

// c22Again runs a platform under its terminal several times, with input and
// resizes in each.
func c22Again(t *T) {
	w, h := t.R(5, 40), t.R(2, 20)
	m := newTTYMon(t, w, h)
	drained(t, m)
	p, err := platform.New(m.in, m.out, platform.Config{}, platform.FrameRate(t.R(60, 400)))
	if err != nil {
		t.Fail("new: %v", err)
	}
	var want, got []string
	desc := ""
	send := func() {
		for k := t.R(1, 5); k > 0; k-- {
			r := 'a' + rune(t.N(26))
			want = append(want, string(r))
			if _, err := syscall.Write(m.master, []byte(string(r))); err != nil {
				t.Inconclusive("write: %v", err)
			}
		}
		desc += " input"
	}
	for enter := t.R(2, 3); enter > 0; enter-- {
		desc += " enter"
		err = p.RunWith(func(p *platform.Platform) error {
			for run := t.R(1, 2); run > 0; run-- {
				desc += " run"
				if t.P(1, 3) {
					send()
				}
				steps := t.R(1, 4)
				var waiting time.Time
				if err := p.Run(platform.ClientFunc(func(ctx *platform.Context) error {
					for _, q := range readQueue(ctx.Input) {
						if !q.gone && q.kind == platform.EventRune {
							got = append(got, string(rune(q.id)))
						}
					}
					ctx.Input.Clear()
					if g, wn := strings.Join(got, ""), strings.Join(want, ""); g != wn && !strings.HasPrefix(wn, g) {
						t.Fail("%s: the client saw %q of %q", desc, g, wn)
					}
					sz := ctx.Output.Bounds().Size()
					if len(got) < len(want) || sz != image.Pt(w, h) {
						if waiting.IsZero() {
							waiting = time.Now()
						} else if time.Since(waiting) > soon {
							t.Fail("%s: %v later, the client saw %q of %q, and a size of %v, of %dx%d", desc, soon, got, want, sz, w, h)
						}
						return nil
					}
					waiting = time.Time{}
					if steps--; steps < 0 {
						return errPlanned
					}
					if t.P(1, 4) {
						w, h = t.R(5, 40), t.R(2, 20)
						desc += fmt.Sprintf(" %dx%d", w, h)
						if err := setWinsize(m.master, w, h); err != nil {
							t.Inconclusive("winsize: %v", err)
						}
						syscall.Kill(syscall.Getpid(), syscall.SIGWINCH)
					} else {
						send()
					}
					return nil
				})); err != errPlanned {
					return fmt.Errorf("run ended with %v", err)
				}
			}
			return nil
		})
		if err != nil {
			t.Fail("%s: %v", desc, err)
		}
	}
	t.Count("inputs_seen", len(got))
	t.Distinct(desc)
}
