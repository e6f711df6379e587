package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"os"
	"reflect"
	"strings"
	"syscall"
	"time"

	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
)

func init() {
	register(&Prop{
		ID:   "C23",
		Rule: "a client whose state (zero and non-zero scalars, arrays, slices, maps, pointers, nested values) and drawing are functions of its input is recorded, frame by frame in process and in real sessions on a pseudo terminal with input in pieces, resizes and redraws, and then replayed several times while other input and resizes arrive; each replayed frame (input, size, redraw, state before and after, screen) is compared with the recorded one; recordings are damaged (unknown and invalid messages, truncation, other state) and replayed; clients that cannot be encoded are not recorded; non-trivial by recorded history",
		Assumptions: []string{
			"the client's state is what gob encodes of it",
			"no input is pending undecoded when recording starts, and it contains no APC strings",
			"the time given to the client is not compared: replays use the time of reading, rather than that of the frame",
			"input given while a replay is paused goes to the client, which is not compared",
		},
		Subs: []Sub{
			{Name: "steps", Quick: 1500, Thorough: 60000, Run: c23Steps, Serial: true},
			{Name: "errors", Quick: 400, Thorough: 20000, Run: c23Errors, Serial: true},
			{Name: "damaged", Quick: 300, Thorough: 15000, Run: c23Damaged, Serial: true},
			{Name: "unsaved", Quick: 200, Thorough: 10000, Run: c23Unsaved, Serial: true},
			{Name: "session", Quick: 250, Thorough: 10000, Run: c23Session, Wall: 200 * time.Second},
		},
	})
}

func diffFrames(want, got []platFrame) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(want) || i >= len(got) {
			return fmt.Sprintf("%d frames recorded, %d replayed", len(want), len(got))
		}
		a, b := want[i], got[i]
		what := ""
		switch {
		case fmt.Sprint(a.Ev) != fmt.Sprint(b.Ev):
			what = "input"
		case a.W != b.W || a.H != b.H:
			what = "size"
		case a.Before != b.Before:
			what = "state before"
		case a.After != b.After:
			what = "state after"
		case a.Screen != b.Screen:
			what = "screen"
		case a.Redraw != b.Redraw:
			what = "redraw"
		}
		if what != "" {
			return fmt.Sprintf("frame %d of %d: %s differs: recorded %s, replayed %s", i, len(want), what, a, b)
		}
	}
	return ""
}

func (f platFrame) String() string {
	return fmt.Sprintf("{%q %dx%d redraw=%v state %x..%x screen %x}", f.Ev, f.W, f.H, f.Redraw, f.Before, f.After, f.Screen)
}

// c23Steps records and replays single frames in this process.
func c23Steps(t *T) {
	if err := os.Chdir(t.TempDir()); err != nil { // recordings go to the working directory
		t.Inconclusive("chdir: %v", err)
	}
	t.Cleanup(func() { os.Chdir("/") })
	w, h := t.R(1, 30), t.R(1, 8)
	m := newTTYMon(t, w, h)
	drained(t, m)
	p, err := platform.New(m.in, m.out, platform.Config{})
	if err != nil {
		t.Fail("new: %v", err)
	}
	// platform state, which the hidden HUD leaves alone
	lv := unexported(t, &p.HUD, reflect.TypeOf((*platform.LogView)(nil))).Interface().(*platform.LogView)
	scramble := func() {
		p.Paused = t.Bool()
		p.TelemetryState = platform.TelemetryState{TimingEnabled: t.Bool(), StallDataEnabled: t.Bool()}
		p.HUD.HUDState = platform.HUDState{
			Mouse:      platform.Mouse{State: ansi.MouseState(t.N(256)), Point: ansi.Pt(t.R(1, 9), t.R(1, 9))},
			TimeDetail: t.Bool(), ProfDetail: t.Bool(), FPSControl: t.Bool(), FPSDetail: t.Bool(),
			SelectAttr: ansi.SGRAttr(t.U64()), ButtonAttr: ansi.SGRAttr(t.U64() >> uint(t.N(64))),
			Active: platform.UIID(t.N(5) - 1),
		}
		p.HUD.EdLin.State = platform.EditLineState(t.N(4))
		for i := t.N(6); i > 0; i-- {
			p.HUD.EdLin.Buf = append(p.HUD.EdLin.Buf, byte('a'+t.N(26)))
		}
		p.HUD.EdLin.Cur, p.HUD.EdLin.View = t.N(4), t.N(4)
		lv.LogViewState = platform.LogViewState{ViewLines: t.N(12), Expanded: t.Bool(), Line: t.N(9) - 2}
		p.LastTime = time.Unix(int64(t.N(1<<30)), int64(t.N(1e9)))
	}
	var frames []platFrame
	var snaps []string
	c := &PlatClient{h: &platHost{report: func(f platFrame) {
		if f.Msg == "" {
			frames = append(frames, f)
			snap := fmt.Sprintf("%v %+v %+v %+v", p.Paused, p.TelemetryState, p.HUD.HUDState, lv.LogViewState)
			if len(snaps) == 0 {
				snap += " " + p.LastTime.UTC().String()
			}
			snaps = append(snaps, snap)
		}
	}}}
	send := func(b []byte) {
		if len(b) == 0 {
			return
		}
		had := inQueue(m.mark)
		for at := b; len(at) > 0; {
			n, err := syscall.Write(m.master, at)
			if err != nil {
				t.Inconclusive("write: %v", err)
			}
			at = at[n:]
		}
		for deadline := time.Now().Add(5 * time.Second); inQueue(m.mark) < had+len(b); {
			if time.Now().After(deadline) {
				t.Inconclusive("input does not arrive")
			}
		}
	}
	// one frame at a time; except where the platform itself ends a run
	ends := false
	live := func() error {
		c.h.ret = errNextFrame
		if ends {
			c.h.ret = nil
		}
		err := p.Run(c)
		if err == errNextFrame {
			err = nil
		}
		return err
	}
	update := func(junk string) error {
		ctx := p.Context()
		ctx.Input.Clear()
		ctx.Input.DecodeBytes([]byte(junk))
		ctx.Update()
		if ctx.Err == errNextFrame {
			return nil
		}
		return ctx.Err
	}
	// a few frames from a random part of some input
	var in []byte
	var cuts []int
	at := 0
	more := func() []byte {
		if at >= len(in) {
			in, cuts, _ = platInput(t, t.R(1, 12), true)
			at = 0
		}
		ends := []int{len(in)}
		for _, c := range cuts {
			if c > at {
				ends = append(ends, c)
			}
		}
		end := ends[t.N(len(ends))]
		if t.P(1, 3) {
			end = len(in)
		}
		b := in[at:end]
		at = end
		return b
	}
	frame := func() {
		switch t.N(6) {
		case 0:
		case 1:
			w, h := t.R(1, 30), t.R(1, 8)
			if err := setWinsize(m.master, w, h); err != nil {
				t.Inconclusive("winsize: %v", err)
			}
			send(append([]byte("\x0c"), more()...))
		case 2:
			send([]byte("\x0c"))
		default:
			send(more())
		}
		if err := live(); err != nil {
			t.Fail("frame: %v", err)
		}
	}
	desc := ""
	err = p.RunWith(func(*platform.Platform) error {
		for round := t.R(1, 2); round > 0; round-- {
			for n := t.R(0, 4); n > 0; n-- {
				frame()
			}
			// nothing may be pending
			if at < len(in) {
				send(in[at:])
				at = len(in)
			}
			start := []byte("\x12")
			if t.Bool() {
				b, _, _ := platInput(t, t.R(1, 3), true)
				start = append(b, start...)
				if t.Bool() {
					b, _, _ := platInput(t, t.R(1, 3), true)
					start = append(start, b...)
				}
			}
			send(start)
			p.HUD.EdLin.Buf = nil
			scramble()
			if err := live(); err != nil {
				t.Fail("frame: %v", err)
			}
			snaps = nil
			if _, err := os.Stat("auto.rec"); err != nil {
				t.Inconclusive("no recording is made: %v", err)
			}
			from := len(frames)
			prior := frames[from-1]
			for n := t.R(0, 12); n > 0; n-- {
				frame()
			}
			end := []byte("\x12")
			if t.Bool() {
				b, _, _ := platInput(t, t.R(1, 3), true)
				if at < len(in) {
					b = append(in[at:len(in):len(in)], b...)
					at = len(in)
				}
				end = append(b, end...)
			}
			if at < len(in) {
				end = append(in[at:len(in):len(in)], end...)
				at = len(in)
			}
			send(end)
			ends = true
			err := live()
			if ends = false; !platform.IsReplayDone(err) {
				t.Fail("ending a recording returned %v", err)
			}
			rec, recSnaps := append([]platFrame(nil), frames[from:]...), snaps
			if rec[0].Before != prior.After {
				t.Fail("live frames are not consecutive")
			}
			t.Logf("recorded %v", rec)
			for k := t.R(1, 3); k > 0; k-- {
				frames, snaps = nil, nil
				if t.Bool() {
					scramble()
				}
				switch t.N(3) { // whatever the client is up to by then
				case 0:
					*c = PlatClient{h: c.h}
				case 1:
					evs := []string{}
					for i := t.N(30); i > 0; i-- {
						evs = append(evs, fmt.Sprint(t.N(1000)))
					}
					c.step(evs)
				}
				if t.P(1, 4) {
					setWinsize(m.master, t.R(1, 30), t.R(1, 8))
				}
				if t.P(1, 4) {
					send([]byte("xyz"))
				}
				err := live()
				pausing, paused := t.P(1, 3), false
				for n := 0; err == nil; n++ {
					if n > len(rec)+3 {
						t.Fail("the replay goes on after %d frames: %v", n, cutFrames(frames))
					}
					junk := ""
					if t.P(1, 8) {
						junk = []string{"other-input\x1b[A", ".", "..", "  ", "x.y", ". . "}[t.N(6)]
					}
					if pausing && t.P(1, 3) || paused {
						if junk = t.Pick("", ".", "..", " ", " .", "  ", ". .", "  ."); t.P(1, 3) {
							junk += "y\x1b[B"
						}
					}
					if strings.Count(junk, " ")%2 == 1 {
						paused = !paused
						desc += "p"
					}
					c.h.frozen = paused && strings.Count(junk, ".")%2 == 0
					k := len(frames)
					err = update(junk)
					if c.h.frozen { // shows the same frame again
						c.h.frozen = false
						if len(frames) == k && k == len(rec) && platform.IsReplayDone(err) {
							break // does not stay at the last frame
						}
						if err != nil || len(frames) != k+1 {
							t.Fail("paused replay: %d frames more, %v", len(frames)-k, err)
						}
						if was, is := frames[k-1], frames[k]; was.W != is.W || was.H != is.H || is.Before != was.After || is.After != was.After || is.Screen != was.Screen {
							t.Fail("paused at %s, the replay shows %s", was, is)
						}
						frames, snaps = frames[:k], snaps[:k]
						t.Count("frames_paused", 1)
						n--
					}
				}
				if !platform.IsReplayDone(err) {
					t.Fail("the replay ended with %v", err)
				}
				if d := diffFrames(rec, frames); d != "" {
					t.Fail("%s", d)
				}
				for i := range snaps {
					if snaps[i] != recSnaps[i] {
						t.Fail("frame %d of %d: platform state was %s, is %s when replayed", i, len(rec), recSnaps[i], snaps[i])
					}
				}
				t.Count("frames_replayed", len(frames))
			}
			t.Count("frames_recorded", len(rec))
			desc += fmt.Sprint(rec[0].Before, len(rec), " ")
			// and stop it
			frames, snaps = nil, nil
			if err := live(); err != nil {
				t.Fail("replaying again: %v", err)
			}
			if len(frames) != 1 || diffFrames(rec[:1], frames) != "" {
				t.Fail("replayed again, %v", frames)
			}
			if err := update("\x03"); err != nil {
				t.Fail("stopping the replay: %v", err)
			}
			var sz [2]int
			sz[0], sz[1] = winsize(m.mark)
			got := p.Context().Output.Bounds().Size()
			if got.X != sz[0] || got.Y != sz[1] || !frames[1].Redraw {
				t.Fail("after stopping a replay, the client draws %v on a %v terminal (redraw %v)", got, sz, frames[1].Redraw)
			}
			in, at = nil, 0
			for inQueue(m.mark) > 0 { // left over from during the replay
				if err := live(); err != nil {
					t.Fail("frame: %v", err)
				}
			}
		}
		return nil
	})
	if err != nil {
		t.Fail("session ended with %v", err)
	}
	t.Distinct(desc)
}

func cutFrames(fs []platFrame) []platFrame {
	if len(fs) > 6 {
		return fs[len(fs)-6:]
	}
	return fs
}

// c23Session records and replays in a real session.
func c23Session(t *T) {
	cfg := platConfig{FPS: []int{2000, 1000, 500, 240}[t.N(4)], Dir: t.TempDir()}
	s := startPlat(t, cfg, t.R(1, 30), t.R(1, 8), true, nil)
	s.msg("up")
	s.held("started")
	input := func(n int) (evs []string) {
		p, cuts, evs := platInput(t, n, true)
		s.feed(p, cuts)
		return evs
	}
	desc := ""
	for round := t.R(1, 2); round > 0; round-- {
		if t.Bool() {
			input(t.R(1, 10))
		}
		s.sync()
		os.Remove(cfg.Dir + "/auto.rec")
		s.input([]byte("\x12"))
		for deadline := time.Now().Add(20 * time.Second); ; s.watch() { // so that nothing is pending then
			if _, err := os.Stat(cfg.Dir + "/auto.rec"); err == nil {
				break
			}
			if time.Now().After(deadline) {
				t.Fail("no recording is made within 20s")
			}
			time.Sleep(100 * time.Microsecond)
		}
		desc += "("
		var sent []string
		for n := t.R(0, 6); n > 0; n-- {
			switch t.N(6) {
			case 0, 1, 2:
				sent = append(sent, input(t.R(1, 20))...)
				desc += "i"
			case 3:
				s.resize(t.R(1, 30), t.R(1, 8))
				desc += "r"
			case 4:
				s.input([]byte("\x0c"))
				desc += "L"
			case 5:
				time.Sleep(time.Duration(t.N(6000)) * time.Microsecond)
				s.watch()
				desc += "-"
			}
			if t.P(1, 3) {
				s.sync()
				sent = append(sent, "r"+string(keySync))
			}
		}
		if t.Bool() {
			sent = append(sent, input(t.R(1, 4))...)
		}
		s.input([]byte("\x12"))
		s.msg("replay")
		live := s.frames
		s.frames = nil
		var runs [][]platFrame
		for k := t.R(1, 3); k > 0; k-- {
			// other input during the replay
			if t.Bool() {
				s.input([]byte("other\x1b[Bé"))
			}
			if t.P(1, 3) {
				w, h := t.R(1, 30), t.R(1, 8)
				s.resize(w, h)
			}
			s.msg("replay")
			runs = append(runs, s.frames)
			s.frames = nil
		}
		n := len(runs[0])
		if n == 0 || n >= len(live) {
			t.Fail("%d frames replayed of a session of %d frames", n, len(live))
		}
		rec := live[len(live)-n:]
		for _, run := range runs {
			if d := diffFrames(rec, run); d != "" {
				t.Fail("%s", d)
			}
			t.Count("frames_replayed", n)
		}
		if rec[0].Before != live[len(live)-n-1].After {
			t.Fail("recorded frames do not follow those before")
		}
		var got []string
		for _, f := range rec {
			got = append(got, f.Ev...)
		}
		if d := diffStrings(sent, got); d != "" {
			t.Fail("replayed events: %s", d)
		}
		t.Count("events_replayed", len(got))
		t.Count("frames_recorded", n)
		t.Count("recordings", 1)
		desc += fmt.Sprint(len(sent), ")")
		// stop it, in the middle or while it starts over
		time.Sleep(time.Duration(t.N(3000)) * time.Microsecond)
		s.input([]byte("\x03"))
		for tries := 0; ; tries++ {
			s.input([]byte(string(keyLog))) // dropped when read together with the Ctrl-C
			n := len(s.frames)
			for until := time.Now().Add(20 * time.Millisecond << uint(tries)); time.Now().Before(until); {
				s.next(time.Millisecond)
			}
			seen := false
			for ; n < len(s.frames); n++ {
				seen = seen || hasEv(s.frames[n], keyLog)
			}
			if seen {
				break
			}
			if tries > 9 {
				t.Fail("Ctrl-C does not stop the replay")
			}
		}
		s.frames = nil
		s.sync()
	}
	s.input([]byte(string(keyQuit)))
	if got := s.end(); got != errPlatQuit.Error() {
		t.Fail("ended with %q", got)
	}
	s.restored("ended")
	t.Distinct(desc)
	t.Sample("%s", desc)
}

// c23Errors records and replays frames during which reading input failed.
func c23Errors(t *T) {
	dir := t.TempDir()
	if err := os.Chdir(dir); err != nil { // recordings go to the working directory
		t.Inconclusive("chdir: %v", err)
	}
	t.Cleanup(func() { os.Chdir("/") })
	if err := syscall.Mkfifo(dir+"/in", 0o600); err != nil {
		t.Inconclusive("mkfifo: %v", err)
	}
	open := func(flag int) int {
		fd, err := syscall.Open(dir+"/in", flag|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
		if err == nil {
			err = syscall.SetNonblock(fd, false)
		}
		if err != nil {
			t.Inconclusive("open: %v", err)
		}
		return fd
	}
	in := os.NewFile(uintptr(open(syscall.O_RDONLY)), "in")
	t.Cleanup(func() { in.Close() })
	w := open(syscall.O_WRONLY)
	t.Cleanup(func() { syscall.Close(w) })
	m := newTTYMon(t, t.R(1, 30), t.R(1, 8))
	drained(t, m)
	p, err := platform.New(in, m.out, platform.Config{})
	if err != nil {
		t.Fail("new: %v", err)
	}
	var frames []platFrame
	ret := errNextFrame
	c := &PlatClient{}
	c.h = &platHost{report: func(f platFrame) {
		if f.Msg == "" {
			f.Err = ""
			frames = append(frames, f)
		}
		c.h.ret = ret
	}}
	live := func() string {
		c.h.ret = ret
		return fmt.Sprint(p.Run(c))
	}
	send := func(b string) {
		if _, err := syscall.Write(w, []byte(b)); err != nil {
			t.Inconclusive("write: %v", err)
		}
	}
	next := fmt.Sprint(errNextFrame)
	desc := ""
	err = p.RunWith(func(*platform.Platform) error {
		for n := t.R(1, 3); n > 0; n-- {
			b, _, _ := platInput(t, t.R(1, 4), true)
			send(string(b))
			if err := live(); err != next {
				t.Fail("frame: %v", err)
			}
		}
		send("\x12")
		if err := live(); err != next {
			t.Fail("frame: %v", err)
		}
		if _, err := os.Stat("auto.rec"); err != nil {
			t.Inconclusive("no recording is made: %v", err)
		}
		from := len(frames)
		var errs []string
		for n := t.R(1, 8); n > 0; n-- {
			b, _, _ := platInput(t, t.R(1, 6), true)
			if t.P(1, 6) {
				b = nil
			}
			eof := t.P(1, 3)
			if eof && t.P(1, 3) && len(b) > 1 { // in the middle of something
				b = b[:t.R(1, len(b)-1)]
			}
			send(string(b))
			want := next
			if eof {
				syscall.Close(w)
				want = "EOF"
				desc += "!"
			}
			if err := live(); err != want {
				t.Fail("frame after %q returned %v, want %v", b, err, want)
			}
			errs = append(errs, want)
			if eof {
				w = open(syscall.O_WRONLY)
				t.Count("failing_frames", 1)
			}
			desc += fmt.Sprint(len(b), ",")
		}
		send("\x12")
		ret = nil
		if err := live(); err != "replay done" {
			t.Fail("ending a recording returned %v", err)
		}
		ret = errNextFrame
		errs = append(errs, next)
		rec := append([]platFrame(nil), frames[from:]...)
		for k := t.R(1, 2); k > 0; k-- {
			frames = nil
			var got []string
			err := live()
			for n := 0; err != "replay done"; n++ {
				if n > len(rec) {
					t.Fail("the replay goes on after %d frames: %v", n, cutFrames(frames))
				}
				got = append(got, err)
				ctx := p.Context()
				ctx.Input.Clear()
				c.h.ret = ret
				ctx.Update()
				err = fmt.Sprint(ctx.Err)
			}
			if d := diffFrames(rec, frames); d != "" {
				t.Fail("%s", d)
			}
			if d := diffStrings(errs, got); d != "" {
				t.Fail("recorded frames returned %q, replayed ones %q: %s", errs, got, d)
			}
			t.Count("frames_replayed", len(frames))
		}
		t.Count("frames_recorded", len(rec))
		return nil
	})
	if err != nil {
		t.Fail("session ended with %v", err)
	}
	t.Distinct(desc)
}

// c23Damaged: what happens to a recording before it is replayed either does not
// matter to the replay, or makes it fail with an error, before the client gets
// to see anything of it.
func c23Damaged(t *T) {
	if err := os.Chdir(t.TempDir()); err != nil { // where recordings are made
		t.Inconclusive("chdir: %v", err)
	}
	t.Cleanup(func() { os.Chdir("/") })
	in, w := rawPipe(t)
	m := newTTYMon(t, t.R(1, 30), t.R(1, 8))
	drained(t, m)
	p, err := platform.New(in, m.out, platform.Config{})
	if err != nil {
		t.Fail("new: %v", err)
	}
	var frames []platFrame
	ret := errNextFrame
	var meanwhile func()
	c := &PlatClient{}
	c.h = &platHost{report: func(f platFrame) {
		if f.Msg == "" {
			f.Err = ""
			frames = append(frames, f)
			if meanwhile != nil {
				meanwhile()
				meanwhile = nil
			}
		}
		c.h.ret = ret
	}}
	live := func() string {
		c.h.ret = ret
		return fmt.Sprint(p.Run(c))
	}
	send := func(b string) {
		if _, err := syscall.Write(int(w.Fd()), []byte(b)); err != nil {
			t.Inconclusive("write: %v", err)
		}
	}
	next := fmt.Sprint(errNextFrame)
	desc := ""
	harmless := false
	damage := func() {
		b, err := os.ReadFile("auto.rec")
		if err != nil || len(b) < 8 {
			t.Inconclusive("no recording is made: %v", err)
		}
		size := int(binary.BigEndian.Uint64(b))
		if size <= 0 || size > len(b)-8 {
			t.Fail("%d bytes of state in a recording of %d", size, len(b))
		}
		head, rest := b[:8+size:8+size], b[8+size:]
		switch t.N(6) {
		case 0, 1: // messages nobody knows
			harmless = true
			var q string
			for n := t.R(1, 4); n > 0; n-- {
				q += "\x1b_" + t.Pick("resize:", "resize:,", "resize:12", "resize:x,y", "resize:5;6", "resize:7,", "resize:,9", "resize:99999999999999999999,1", "hello", "a:b", "resize", "Resize:3,4", "=,", " ") + "\x1b\\"
			}
			desc = fmt.Sprintf("messages %q", q)
			if i := bytes.Index(rest, []byte("\x1b\\")); i >= 0 && bytes.HasPrefix(rest, []byte("\x1b_resize:")) && t.Bool() {
				// behind the size recorded
				head, rest = append(head, rest[:i+2]...), rest[i+2:]
			}
			b = append(append(head, q...), rest...)
		case 2: // cut within the state
			n := t.N(8 + size)
			desc = fmt.Sprint("cut ", n, " of ", size)
			b = b[:n]
		case 3: // the end of the state is missing
			n := t.R(1, size)
			desc = fmt.Sprint("missing ", n, " of ", size)
			b = append(append([]byte(nil), head[:8+size-n]...), rest...)
			binary.BigEndian.PutUint64(b, uint64(size-n))
		case 4: // other state
			var q bytes.Buffer
			q.Write(make([]byte, 8))
			enc := gob.NewEncoder(&q)
			n := t.N(3)
			desc = fmt.Sprint("other state ", n)
			for ; n > 0; n-- {
				_ = enc.Encode([]string{"not", "a", "state"})
			}
			b = append(q.Bytes(), rest...)
			binary.BigEndian.PutUint64(b, uint64(q.Len()-8))
		case 5: // no size
			n := []uint64{1 << 63, 1<<64 - 1, 0}[t.N(3)]
			desc = fmt.Sprint("size ", n)
			binary.BigEndian.PutUint64(b, n)
		}
		if err := os.WriteFile("auto.rec", b, 0o600); err != nil {
			t.Inconclusive("%v", err)
		}
	}
	err = p.RunWith(func(*platform.Platform) error {
		send("\x12")
		if err := live(); err != next {
			t.Fail("frame: %v", err)
		}
		from := len(frames)
		for n := t.R(1, 5); n > 0; n-- {
			b, _, _ := platInput(t, t.R(0, 5), true)
			send(string(b))
			if err := live(); err != next {
				t.Fail("frame: %v", err)
			}
		}
		send("\x12")
		meanwhile = damage
		ret = nil
		ended := live()
		ret = errNextFrame
		rec := append([]platFrame(nil), frames[from:]...)
		frames = nil
		if ended != "replay done" {
			if harmless || ended == next || ended == "<nil>" {
				t.Fail("%s: ending the recording returned %v", desc, ended)
			}
			t.Count("refused_to_load", 1)
			return nil
		}
		err := live()
		if !harmless {
			if err == next || err == "<nil>" || err == "replay done" || len(frames) > 0 {
				t.Fail("%s: replaying it returned %q, the client saw %v", desc, err, cutFrames(frames))
			}
			t.Count("refused_to_replay", 1)
			return nil
		}
		for n := 0; err != "replay done"; n++ {
			if err != next || n > len(rec) {
				t.Fail("%s: after %d frames, replaying returned %q, frames %v", desc, n, err, cutFrames(frames))
			}
			ctx := p.Context()
			ctx.Input.Clear()
			c.h.ret = ret
			ctx.Update()
			err = fmt.Sprint(ctx.Err)
		}
		if d := diffFrames(rec, frames); d != "" {
			t.Fail("%s: %s", desc, d)
		}
		t.Count("replayed_anyway", 1)
		return nil
	})
	if err != nil {
		t.Fail("session ended with %v", err)
	}
	t.Distinct(desc)
}

// UnsavedClient cannot be encoded, having nothing exported.
type UnsavedClient struct {
	update func(*platform.Context) error
}

// Update does what the case has it do.
func (c *UnsavedClient) Update(ctx *platform.Context) error { return c.update(ctx) }

// c23Unsaved: a session whose state cannot be saved is not recorded, and goes on.
func c23Unsaved(t *T) {
	if err := os.Chdir(t.TempDir()); err != nil {
		t.Inconclusive("chdir: %v", err)
	}
	t.Cleanup(func() { os.Chdir("/") })
	m := newTTYMon(t, t.R(1, 90), t.R(1, 30))
	drained(t, m)
	p, err := platform.New(m.in, m.out, platform.Config{})
	if err != nil {
		t.Fail("new: %v", err)
	}
	var seen string
	update := func(ctx *platform.Context) error {
		seen = ""
		for _, q := range readQueue(ctx.Input) {
			if !q.gone {
				seen += evText(q)
			}
		}
		return errNextFrame
	}
	var cl platform.Client = &UnsavedClient{update: update}
	desc, files := "state", 0
	if t.Bool() { // there cannot be a file
		cl = platform.ClientFunc(update)
		desc, files = "file", 1
		if err := os.Mkdir("auto.rec", 0755); err != nil {
			t.Inconclusive("mkdir: %v", err)
		}
	}
	logged := func() string {
		b, _ := platform.Logs.Contents()
		return string(b)
	}
	err = p.RunWith(func(p *platform.Platform) error {
		if err := p.Run(cl); err != errNextFrame {
			t.Fail("first frame: %v", err)
		}
		for n := t.R(2, 8); n > 0; n-- {
			b, _, evs := platInput(t, t.N(3), true)
			in := string(b)
			toggle := t.Bool()
			if toggle {
				in = "\x12" + in
			}
			desc += fmt.Sprintf(" %q", in)
			p.Time = p.Time.Add(time.Duration(t.R(1, 1<<30)))
			before := logged()
			ctx := p.Context()
			ctx.Input.Clear()
			ctx.Input.DecodeBytes([]byte(in))
			if ctx.Update(); ctx.Err != errNextFrame {
				t.Fail("%s: the frame returned %v", desc, ctx.Err)
			}
			if want := strings.Join(evs, ""); seen != want {
				t.Fail("%s: the client saw %s, expected %s", desc, seen, want)
			}
			if fs, _ := os.ReadDir("."); toggle && len(fs) > files {
				t.Fail("%s: the client cannot be encoded, yet there is a file %q", desc, fs[0].Name())
			}
			if toggle {
				if l := logged(); len(l) <= len(before) || files > 0 && !strings.Contains(l[len(before):], "auto.rec") {
					t.Fail("%s: not recorded, the log only says %q", desc, strings.TrimPrefix(l, before))
				}
				t.Count("recordings_refused", 1)
			}
		}
		return nil
	})
	if err != nil {
		t.Fail("%s: ended with %v", desc, err)
	}
	t.Distinct(desc)
}
