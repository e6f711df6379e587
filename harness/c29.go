package main

import (
	"errors"
	"fmt"
	"image"
	"io"
	"log"
	"os"
	"reflect"
	"runtime/pprof"
	"strings"
	"syscall"
	"time"
	"unicode"

	"github.com/jcorbin/anansi/x/platform"
)

func init() {
	register(&Prop{
		ID:   "C29",
		Rule: "frames of a platform on a pseudo terminal with its HUD in random states, under random input that aims at what the HUD shows, resizes (from 0x0 up), logs, profiling, recording and replay; watched for crashes and hangs; the client marks every cell, so that each cell's owner is known: only rows that the HUD may cover differ from the client's drawing, nothing of it is moved, erased or drawn on when hidden; what is flushed is rendered by a terminal of the same size and compared; shown controls are pressed, and a log view is scrolled over a growing log against a model of its lines; non-trivial by shown widgets, size and input",
		Assumptions: []string{
			"file names typed into the HUD stay within the working directory",
		},
		Subs: []Sub{
			{Name: "frames", Quick: 700, Thorough: 40000, Run: c29Frames, Serial: true, Wall: 300 * time.Second},
			{Name: "rows", Quick: 400, Thorough: 20000, Run: c29Rows, Serial: true},
			{Name: "controls", Quick: 300, Thorough: 10000, Run: c29Controls, Serial: true},
			{Name: "logs", Quick: 300, Thorough: 10000, Run: c29Logs, Serial: true},
		},
	})
}

const c29Mark = 0xAC00

func isMark(r rune) bool { return r >= c29Mark && r < 0xD7A4 }

// HUDClient has no state of its own.
type HUDClient struct {
	N      int
	update func(*platform.Context) error
}

// Update does what the case has it do.
func (c *HUDClient) Update(ctx *platform.Context) error { return c.update(ctx) }

func c29Frames(t *T) {
	if err := os.Chdir(t.TempDir()); err != nil { // the HUD creates files
		t.Inconclusive("chdir: %v", err)
	}
	t.Cleanup(func() { os.Chdir("/") })
	size := func() (w, h int) {
		switch t.N(8) {
		case 0:
			return t.R(0, 3), t.R(0, 3)
		case 1:
			return t.R(1, 200), t.R(1, 3)
		case 2:
			return t.R(1, 20), t.R(1, 60)
		case 3, 4:
			return t.R(60, 130), t.R(15, 50)
		}
		return t.R(1, 90), t.R(1, 30)
	}
	w, h := size()
	m := newTTYMon(t, w, h)
	drained(t, m)
	p, err := platform.New(m.in, m.out, platform.Config{})
	if err != nil {
		t.Fail("new: %v", err)
	}
	lv := unexported(t, &p.HUD, reflect.TypeOf((*platform.LogView)(nil))).Interface().(*platform.LogView)

	var drawn []rune // what the client drew
	var dw, dh int
	var clientCalls int
	var ret error
	cl := &HUDClient{update: func(ctx *platform.Context) error {
		clientCalls++
		out := ctx.Output
		sz := out.Bounds().Size()
		dw, dh = sz.X, sz.Y
		drawn = make([]rune, len(out.Grid.Rune))
		for i := range drawn {
			drawn[i] = c29Mark + rune(i)
			out.Grid.Rune[i] = drawn[i]
			out.Grid.Attr[i] = 0
		}
		return ret
	}}
	desc := ""
	shape := func() string {
		s := p.HUD.HUDState
		return fmt.Sprintf("vis=%v time=%v prof=%v fps=%v/%v active=%d logs=%v", s.Visible, s.TimeDetail, s.ProfDetail, s.FPSDetail, s.FPSControl, s.Active, lv.Expanded)
	}
	plain := func() bool {
		s := p.HUD.HUDState
		return !(s.TimeDetail || s.ProfDetail || s.FPSDetail || lv.Expanded)
	}
	term := newRterm(w, h)
	check := func(was platform.HUDState, wasPlain bool) {
		out := p.Context().Output
		g := out.Grid
		if len(g.Rune) != len(drawn) {
			t.Fail("the screen has %d cells, the client drew %d", len(g.Rune), len(drawn))
		}
		over := 0
		for i, r := range g.Rune {
			if r == drawn[i] {
				continue
			}
			over++
			x, y := i%dw+1, i/dw+1
			if r == 'X' { // the recorded mouse
				if _, err := os.Stat("auto.rec"); err == nil {
					continue
				}
			}
			switch {
			case !p.HUD.Visible:
				t.Fail("hidden, the HUD drew %q at %d,%d", r, x, y)
			case r == 0:
				t.Fail("the HUD erased %d,%d of %dx%d", x, y, dw, dh)
			case isMark(r):
				t.Fail("the HUD moved what the client drew to %d,%d of %dx%d", x, y, dw, dh)
			case dw > 60 && x < dw-45 && y > 1 && y < dh-max(10, lv.ViewLines):
				t.Fail("the HUD drew %q at %d,%d of %dx%d, outside of its columns", r, x, y, dw, dh)
			case wasPlain && plain() && y != 1 && y != dh:
				t.Fail("without any details, the HUD drew %q at %d,%d of %dx%d", r, x, y, dw, dh)
			}
		}
		t.Count("cells_of_hud", over)
	}
	input := func() string {
		var sb strings.Builder
		for n := t.N(4); n > 0; n-- {
			what := t.N(12)
			if p.HUD.Active != 0 && t.P(2, 3) {
				what = []int{0, 6, 6, 7, 7, 7, 8, 9}[t.N(8)]
			}
			switch what {
			case 0, 1, 2, 3, 4, 5:
				// somewhere
				x, y := t.R(1, dw+2), t.R(1, dh+2)
				g := p.Context().Output.Grid
				if len(g.Rune) == dw*dh && dw > 0 {
					for tries := 0; tries < 60; tries++ { // preferably where the HUD is
						i := t.N(len(g.Rune))
						if t.Bool() { // at the right
							i = i/dw*dw + dw - 1 - t.N(min(dw, 30))
						}
						if !isMark(g.Rune[i]) {
							x, y = i%dw+1, i/dw+1
							break
						}
					}
				}
				b := []int{0, 0, 0, 0, 64, 65, 1, 2, 35}[t.N(9)]
				fin := "M"
				if t.P(1, 8) {
					fin = "m"
				}
				for k := 1 + t.N(12)/11*t.N(9); k > 0; k-- {
					fmt.Fprintf(&sb, "\x1b[<%d;%d;%d%s", b, x, y, fin)
				}
			case 6:
				for k := t.R(1, 30); k > 0; k-- {
					sb.WriteRune([]rune("abcé世_-x")[t.N(8)])
				}
			case 7:
				for k := t.R(1, 6); k > 0; k-- {
					sb.WriteString([]string{"\x1b[D", "\x1b[C", "\x7f", "\x1b[A", "\x1b[B"}[t.N(5)])
				}
			case 8:
				sb.WriteString([]string{"\r", "\r", "\x1b", "\x1b[Z"}[t.N(4)])
			case 9:
				if t.P(1, 3) {
					sb.WriteString("\x12")
				}
			case 10:
				if t.P(1, 3) {
					sb.WriteString("\x0b")
				}
			case 11:
				sb.WriteString([]string{" ", ".", "\x0c", "\x03"}[t.N(4)])
			}
		}
		return sb.String()
	}
	line := func() string {
		switch t.N(7) {
		case 4:
			return "\x1b[31mred\x1b[0m \x1b[2J\x1b[5;5Hthere\ttab\x00" + strings.Repeat("\r\v", t.N(5))
		case 5:
			return "cut\xe2\x80 \xff" + strings.Repeat("\x1b[", t.N(3))
		case 0:
			return strings.Repeat("long ", t.R(1, 60))
		case 1:
			return "été 世界 " + strings.Repeat("é", t.R(0, 150))
		case 2:
			return ""
		case 3:
			return fmt.Sprintf("two\nlines %d", t.N(100))
		}
		return fmt.Sprintf("line %d", t.N(1000))
	}
	run := func(in string) error { // a frame of the platform's own
		for at := []byte(in); len(at) > 0; {
			n, err := syscall.Write(m.master, at)
			if err != nil {
				t.Inconclusive("write: %v", err)
			}
			at = at[n:]
		}
		return p.Run(cl)
	}
	frame := func(in string, whole bool) error {
		was, wasPlain, calls := p.HUD.HUDState, plain(), clientCalls
		var err error
		if ret = nil; whole {
			ret = errNextFrame
			err = run(in)
			term = nil // it was flushed
		} else {
			ctx := p.Context()
			ctx.Input.Clear()
			ctx.Input.DecodeBytes([]byte(in))
			ctx.Update()
			err = ctx.Err
		}
		if err == errNextFrame {
			err = nil
		}
		if clientCalls != calls+1 {
			if err == nil {
				t.Fail("the client got %d frames instead of 1", clientCalls-calls)
			}
			return err
		}
		check(was, wasPlain)
		if whole {
			return err
		}
		out := p.Context().Output
		if term == nil || term.x1 != dw || term.y1 != dh {
			term = newRterm(dw, dh)
			out.Invalidate()
		}
		var sb strings.Builder
		if _, err := out.WriteTo(&sb); err != nil {
			t.Fail("output: %v", err)
		}
		if dw > 0 && dh > 0 {
			term.Write([]byte(sb.String()))
			for i, r := range out.Grid.Rune {
				if got := term.at(i%dw+1, i/dw+1).r; got != r {
					t.Fail("the terminal shows %q at %d,%d of %dx%d, expected %q", got, i%dw+1, i/dw+1, dw, dh, r)
				}
			}
		}
		return err
	}
	if t.Bool() {
		io.Copy(io.Discard, &platform.Logs)
	}
	err = p.RunWith(func(p *platform.Platform) error {
		if err := frame("", true); err != nil {
			t.Fail("first frame: %v", err)
		}
		p.HUD.Visible = t.P(9, 10)
		p.HUD.TimeDetail, p.HUD.ProfDetail, p.HUD.FPSDetail, p.HUD.FPSControl = t.Bool(), t.Bool(), t.Bool(), t.Bool()
		if t.P(1, 3) {
			p.HUD.TimeDetail, p.HUD.ProfDetail, p.HUD.FPSDetail = false, false, false
		}
		lv.Expanded = t.Bool()
		if t.P(1, 3) { // editing or selecting
			p.HUD.Active = platform.UIID(t.R(1, 6))
			n := t.N(20)
			for i := 0; i < n; i++ {
				p.HUD.EdLin.Buf = append(p.HUD.EdLin.Buf, string([]rune("abé世")[t.N(4)])...)
			}
			p.HUD.EdLin.Cur, p.HUD.EdLin.View = t.R(0, n), t.R(0, n)
		}
		if t.P(1, 4) {
			lv.ViewLines = t.R(0, 30)
		}
		if t.P(1, 6) {
			p.SetTimingEnabled(true)
			p.SetStallTracking(t.Bool())
		}
		whole := false
		for n := t.R(3, 25); n > 0; n-- {
			if t.P(1, 8) {
				w, h = size()
				if err := setWinsize(m.master, w, h); err != nil {
					t.Inconclusive("winsize: %v", err)
				}
				p.Context().Output.Invalidate()
				p.Context().Output.Resize(image.Pt(w, h))
			}
			if t.P(1, 3) {
				for k := t.R(1, 4); k > 0; k-- {
					log.Print(line())
				}
			}
			if t.P(1, 20) {
				io.Copy(io.Discard, &platform.Logs)
			}
			in := input()
			t.Logf("%dx%d %s %q", w, h, shape(), in)
			was := shape()
			err := frame(in, whole || t.P(1, 6))
			whole = false
			t.Count("frames", 1)
			if now := shape(); now != was {
				t.Count("hud_changes", 1)
			}
			desc += fmt.Sprintf("%dx%d %s;", w, h, shape())
			switch {
			case err == nil:
			case platform.IsReplayDone(err):
				whole = true // that loads it
				t.Count("replays", 1)
			default:
				return err
			}
		}
		return nil
	})
	if err != nil && !errors.Is(err, syscall.EAGAIN) {
		t.Fail("ended with %v", err)
	}
	files, _ := os.ReadDir(".")
	t.Count("files_created", len(files))
	t.Distinct(desc)
	t.Sample("%s", desc)
}

// c29Controls presses shown controls, each of which has only its own effect.
func c29Controls(t *T) {
	if err := os.Chdir(t.TempDir()); err != nil {
		t.Inconclusive("chdir: %v", err)
	}
	t.Cleanup(func() { os.Chdir("/") })
	w, h := t.R(75, 150), t.R(40, 60)
	m := newTTYMon(t, w, h)
	drained(t, m)
	p, err := platform.New(m.in, m.out, platform.Config{})
	if err != nil {
		t.Fail("new: %v", err)
	}
	lv := unexported(t, &p.HUD, reflect.TypeOf((*platform.LogView)(nil))).Interface().(*platform.LogView)
	var seen []string // events given to the client
	cl := &HUDClient{}
	var at time.Time
	cl.update = func(ctx *platform.Context) error {
		seen, at = nil, ctx.Time
		for _, q := range readQueue(ctx.Input) {
			if !q.gone {
				seen = append(seen, evText(q))
			}
		}
		return errNextFrame
	}
	flags := func() map[string]bool {
		s := p.HUD.HUDState
		return map[string]bool{
			"visible": s.Visible, "time": s.TimeDetail, "prof": s.ProfDetail, "fps": s.FPSDetail, "fpscontrol": s.FPSControl,
			"paused": p.Paused, "timing": p.Telemetry.TimingEnabled, "stalls": p.Telemetry.StallDataEnabled,
			"logtiming": p.Telemetry.LogTiming, "logstalls": p.Telemetry.LogStallData, "logs": lv.Expanded,
		}
	}
	frame := func(in string) {
		paused, last := p.Paused, at
		p.Time = p.Time.Add(time.Duration(t.R(1, 1<<30)))
		ctx := p.Context()
		ctx.Input.Clear()
		ctx.Input.DecodeBytes([]byte(in))
		if ctx.Update(); ctx.Err != errNextFrame {
			t.Fail("frame: %v", ctx.Err)
		}
		if paused && p.Paused && !at.Equal(last) {
			t.Fail("paused at %v, the client is updated at %v", last, at)
		} else if !paused && !p.Paused && !at.Equal(p.Time) {
			t.Fail("the client is updated at %v, the time is %v", at, p.Time)
		}
		var sb strings.Builder
		ctx.Output.WriteTo(&sb)
	}
	// shown text, and where
	find := func(s string) (x, y int, ok bool) {
		g := p.Context().Output.Grid
		rs := []rune(s)
		for i := 0; i+len(rs) <= len(g.Rune); i++ {
			j := 0
			for j < len(rs) && (g.Rune[i+j] == rs[j] || g.Rune[i+j] == 0 && rs[j] == ' ') {
				j++
			}
			if j == len(rs) {
				return i%w + 1, i/w + 1, true
			}
		}
		return 0, 0, false
	}
	controls := []struct {
		flag  string
		texts []string
		off   int // of the control from the text
	}{
		{"fps", []string{"FPS:"}, 0},
		{"time", nil, 0}, // ends the first row
		{"prof", []string{"⊙ FPS"}, 0},
		{"prof", []string{"# Profiling Control:"}, 3},
		{"fpscontrol", []string{"# Frame Control:"}, 3},
		{"timing", []string{"# Frame Timing:"}, 3},
		{"stalls", []string{"# Output Stalls:"}, 3},
		{"paused", []string{"Pause ", "Resume "}, 1},
		{"logtiming", []string{"Log Timing [ "}, 15},
		{"logstalls", []string{"Log Stalls [ "}, 15},
		{"logs", []string{"latest log line", "Logs ("}, 2},
	}
	if t.Bool() {
		io.Copy(io.Discard, &platform.Logs)
	}
	err = p.RunWith(func(p *platform.Platform) error {
		if err := p.Run(cl); err != errNextFrame {
			t.Fail("first frame: %v", err)
		}
		n := 12 - t.N(3)*t.N(6)
		for i := 0; i < n; i++ {
			log.Printf("log %d%s", i, strings.Repeat("…long", t.N(40)/39*t.N(40)))
		}
		log.Print("latest log line")
		frame("\x0b")
		if !p.HUD.Visible {
			t.Fail("Ctrl-K does not show the HUD")
		}
		pressed := ""
		for k := t.R(2, 12); k > 0; k-- {
			if t.P(1, 4) {
				p.HUD.TimeDetail = !p.HUD.TimeDetail
				p.HUD.Active = 0 // as any press outside does
			}
			frame("") // shows the controls
			if t.P(1, 10) {
				was := flags()
				frame("\x0b")
				if was["visible"] == flags()["visible"] {
					t.Fail("Ctrl-K does not toggle the HUD")
				}
				if p.HUD.Visible = true; len(seen) > 0 {
					t.Fail("the client saw Ctrl-K: %v", seen)
				}
				frame("")
			}
			if s := fmt.Sprintf("(%d,%d)", w, h); p.HUD.Visible && !strings.Contains(string(p.Context().Output.Grid.Rune[:w]), s) {
				t.Fail("%q is not shown in the first row: %q", s, string(p.Context().Output.Grid.Rune[:w]))
			}
			t.Logf("%s pressed %s", rowsOf(p.Context().Output.Grid.Rune, w), pressed)
			if x, y, ok := find("PProf "); ok && p.HUD.ProfDetail && y+12 < h-10 && t.Bool() {
				// choose a further profile
				frame(fmt.Sprintf("\x1b[<0;%d;%dM", x+7, y))
				frame("")
				var names []string
				for _, prof := range pprof.Profiles() {
					if _, _, have := find(prof.Name() + " profiler"); !have {
						names = append(names, prof.Name())
					}
				}
				for i, name := range names {
					if nx, ny, ok := find(name + " "); !ok || ny != y+i || nx < x {
						t.Logf("%s", rowsOf(p.Context().Output.Grid.Rune, w))
						t.Fail("profile %q is shown at %d,%d (%v), expected in row %d", name, nx, ny, ok, y+i)
					}
				}
				i := t.R(-1, len(names))
				was := flags()
				frame(fmt.Sprintf("\x1b[<0;%d;%dM", x+8, y+i))
				if !reflect.DeepEqual(flags(), was) && i >= 0 && i < len(names) {
					t.Fail("choosing a profile changes %v to %v", was, flags())
				}
				frame("")
				for j, name := range names {
					if _, _, shown := find(name + " profiler"); shown != (i == j) && p.HUD.ProfDetail {
						t.Fail("pressed row %d of profiles %v: %s profiler shown: %v", i, names, name, shown)
					}
				}
				pressed += fmt.Sprint("pprof", i, " ")
				t.Count("profiles_chosen", 1)
				continue
			}
			c := controls[t.N(len(controls))]
			x, y, ok := 0, 0, false
			for i, s := range c.texts {
				if c.flag == "logs" && i == 0 == lv.Expanded {
					continue
				}
				if x, y, ok = find(s); ok {
					break
				}
			}
			if c.flag == "time" {
				row := p.Context().Output.Grid.Rune[:w]
				x, y, ok = len(strings.TrimRightFunc(string(row), func(r rune) bool { return r == 0 || r == ' ' })), 1, true
				x = len([]rune(string(row)[:x])) - t.N(8)
			}
			logRow := h
			if _, y, ok := find("Logs ("); ok != lv.Expanded {
				t.Fail("logs expanded: %v; header shown: %v", lv.Expanded, ok)
			} else if ok {
				logRow = y
			}
			lines := logLines()
			rows := h - logRow
			if !lv.Expanded {
				rows = 1
			} else if rows != min(10, len(lines)) {
				t.Fail("expanded, %d rows of log are shown of %d lines", rows, len(lines))
			}
			for i := 1; i <= rows; i++ {
				want, y := lines[len(lines)-i], h-i+1
				if rs := []rune(want); len(rs) > w {
					want = string(rs[:w-1]) + "…"
				}
				if got := strings.TrimRight(string(p.Context().Output.Grid.Rune[(y-1)*w:y*w]), "\x00"); got != want {
					t.Fail("row %d of %d shows %q, expected log line %q", y, h, got, want)
				}
			}
			if !ok || y >= logRow && c.flag != "logs" {
				continue // not shown, or under the log
			}
			switch at := (y-1)*w + x + c.off - 2; c.flag {
			case "paused", "logtiming", "logstalls": // shown as they are
				want := map[string]bool{"Pause": false, "Resume": true, "false": false, "true": true}
				shown := strings.TrimLeft(string(p.Context().Output.Grid.Rune[at:at+8]), " [\x00")
				shown = strings.TrimFunc(shown[:strings.IndexAny(shown+" ", " ]\x00")], unicode.IsSpace)
				if val, ok := want[shown]; !ok || val != flags()[c.flag] {
					t.Fail("%s is %v, shown as %q", c.flag, flags()[c.flag], shown)
				}
			}
			times := 1 + t.N(4)/3
			in := strings.Repeat(fmt.Sprintf("\x1b[<0;%d;%dM\x1b[<0;%d;%dm", x+c.off, y, x+c.off, y), times)
			was := flags()
			frame(in)
			now := flags()
			for name := range was {
				want := was[name]
				if name == c.flag && times%2 == 1 {
					want = !want
				}
				if now[name] != want {
					t.Fail("%d presses at %d,%d of %dx%d, where %q (%s) is shown, make %s %v", times, x+c.off, y, w, h, c.texts, c.flag, name, now[name])
				}
			}
			if len(seen) != 2*times {
				t.Fail("the client got %v of %q", seen, in)
			}
			pressed += c.flag + " "
			t.Count("controls_pressed", 1)
		}
		t.Distinct(fmt.Sprint(w, h, n, pressed))
		return nil
	})
	if err != nil {
		t.Fail("ended with %v", err)
	}
}

func logLines() (lines []string) {
	b, eols := platform.Logs.Contents()
	off := 0
	for _, eol := range eols {
		lines = append(lines, string(b[off:eol]))
		off = eol + 1
	}
	return lines
}

func rowsOf(rs []rune, w int) string {
	var sb strings.Builder
	for i := 0; i < len(rs); i += w {
		if s := strings.TrimRight(strings.Map(func(r rune) rune {
			if r == 0 {
				return ' '
			}
			return r
		}, string(rs[i:i+w])), " "); s != "" {
			fmt.Fprintf(&sb, "%3d %s\n", i/w+1, s)
		}
	}
	return sb.String()
}

// c29Rows: which rows the HUD covers does not depend on how much of them fits.
func c29Rows(t *T) {
	if err := os.Chdir(t.TempDir()); err != nil {
		t.Inconclusive("chdir: %v", err)
	}
	t.Cleanup(func() { os.Chdir("/") })
	h := t.R(2, 60)
	m := newTTYMon(t, 140, h)
	drained(t, m)
	p, err := platform.New(m.in, m.out, platform.Config{})
	if err != nil {
		t.Fail("new: %v", err)
	}
	lv := unexported(t, &p.HUD, reflect.TypeOf((*platform.LogView)(nil))).Interface().(*platform.LogView)
	var drawn []rune
	cl := &HUDClient{update: func(ctx *platform.Context) error {
		out := ctx.Output
		drawn = make([]rune, len(out.Grid.Rune))
		for i := range drawn {
			drawn[i] = c29Mark + rune(i)
			out.Grid.Rune[i] = drawn[i]
		}
		return errNextFrame
	}}
	if t.Bool() {
		io.Copy(io.Discard, &platform.Logs)
	}
	rows := func(w int) map[int]bool {
		if err := setWinsize(m.master, w, h); err != nil {
			t.Inconclusive("winsize: %v", err)
		}
		out := p.Context().Output
		out.Resize(image.Pt(w, h))
		ctx := p.Context()
		ctx.Input.Clear()
		if ctx.Update(); ctx.Err != errNextFrame {
			t.Fail("frame: %v", ctx.Err)
		}
		var sb strings.Builder
		out.WriteTo(&sb)
		if sz := out.Bounds().Size(); sz.X != w || sz.Y != h || len(drawn) != w*h {
			t.Fail("drew on %v, expected %dx%d", sz, w, h)
		}
		set := map[int]bool{}
		for i, r := range out.Grid.Rune {
			if r != drawn[i] {
				set[i/w+1] = true
			}
		}
		return set
	}
	desc := ""
	err = p.RunWith(func(p *platform.Platform) error {
		if err := p.Run(cl); err != errNextFrame {
			t.Fail("first frame: %v", err)
		}
		for k := t.R(1, 5); k > 0; k-- {
			p.HUD.Visible = true
			p.HUD.TimeDetail, p.HUD.ProfDetail, p.HUD.FPSDetail, p.HUD.FPSControl = t.Bool(), t.Bool(), t.Bool(), t.Bool()
			if t.P(1, 3) {
				p.HUD.TimeDetail, p.HUD.ProfDetail, p.HUD.FPSDetail = false, false, false
				switch t.N(4) {
				case 0:
					p.HUD.TimeDetail = true
				case 1:
					p.HUD.ProfDetail = true
				case 2:
					p.HUD.FPSDetail = true
				}
			}
			lv.Expanded = t.P(1, 3)
			p.Telemetry.TimingEnabled, p.Telemetry.StallDataEnabled = t.Bool(), t.Bool()
			for n := t.N(4); n > 0; n-- {
				log.Printf("line %d", n)
			}
			wide := rows(140)
			w := t.R(1, 70)
			if t.Bool() {
				w = t.R(1, 25)
			}
			got := rows(w)
			for y := range rows(140) {
				wide[y] = true
			}
			for y := range got {
				if !wide[y] {
					t.Fail("%d columns wide, the HUD covers row %d of %d, other than in 140 columns (%d rows): %+v", w, y, h, len(wide), p.HUD.HUDState)
				}
			}
			t.Count("layouts_compared", 1)
			desc += fmt.Sprint(w, h, len(got), len(wide), ";")
		}
		return nil
	})
	if err != nil {
		t.Fail("ended with %v", err)
	}
	t.Distinct(desc)
}

// c29Logs scrolls a log viewer of the client's own through a log that grows.
func c29Logs(t *T) {
	w, h := t.R(30, 100), t.R(4, 40)
	m := newTTYMon(t, w, h)
	drained(t, m)
	p, err := platform.New(m.in, m.out, platform.Config{})
	if err != nil {
		t.Fail("new: %v", err)
	}
	var sink platform.LogSink
	lv := platform.NewLogView(&sink)
	view := 10
	if t.Bool() {
		view = t.R(1, 20)
		lv.ViewLines = view
	}
	cl := &HUDClient{update: func(ctx *platform.Context) error {
		if err := lv.Update(ctx); err != nil {
			t.Fail("log view: %v", err)
		}
		return errNextFrame
	}}
	n, expanded := 0, false
	follow := true // shows the last lines, whatever is added
	s := 1         // first line shown
	text := func(i int) string { return fmt.Sprintf("line %d%s", i, strings.Repeat(".", i*7%11)) }
	rows := func() int { // for lines
		if expanded {
			return h - max(1, h-min(view, n))
		}
		return 1
	}
	added := func(k int) {
		for ; k > 0; k-- {
			n++
			fmt.Fprintln(&sink, text(n))
		}
	}
	frame := func(in string) []string {
		p.Time = p.Time.Add(time.Duration(t.R(1, 1<<20)))
		ctx := p.Context()
		ctx.Input.Clear()
		ctx.Input.DecodeBytes([]byte(in))
		if ctx.Update(); ctx.Err != errNextFrame {
			t.Fail("frame: %v", ctx.Err)
		}
		got := make([]string, h)
		for i := range got {
			got[i] = string(ctx.Output.Grid.Rune[i*w : (i+1)*w])
		}
		var sb strings.Builder
		ctx.Output.WriteTo(&sb)
		for i := range got {
			got[i] = strings.TrimRight(strings.Replace(got[i], "\x00", " ", -1), " ")
		}
		return got
	}
	// judge what is shown, and take the first line shown from it where that
	// is not fully given
	judge := func(what string, got []string, lo, hi int) {
		v := min(rows(), n)
		at := h - 1 // of the first line
		if n > 0 && expanded {
			at = h - rows()
			var e, all int
			if at > 0 {
				if c, _ := fmt.Sscanf(got[at-1], "Logs (%d-%d/%d):", &s, &e, &all); c != 3 || all != n {
					t.Fail("%s: row %d should have the header for %d lines: %q", what, at, n, got)
				}
				if e-s+1 != v {
					t.Fail("%s: lines %d to %d of %d are shown, there is room for %d", what, s, e, n, rows())
				}
			}
		} else if n > 0 {
			if c, _ := fmt.Sscanf(got[at], "line %d", &s); c != 1 {
				t.Fail("%s: no line is shown: %q", what, got)
			}
		}
		for y, row := range got {
			want := ""
			if i := y - at; n > 0 && i >= 0 && i < v {
				want = text(s + i)
			} else if n > 0 && expanded && i == -1 {
				continue
			}
			if row != want {
				t.Fail("%s: row %d is %q, expected %q (%d lines from %d, of %d)", what, y+1, row, want, v, s, n)
			}
		}
		if n > 0 && (s < lo || s > hi) {
			t.Fail("%s: shows the lines from %d of %d, expected one of %d to %d", what, s, n, lo, hi)
		}
	}
	last := func() int { return max(1, n-rows()+1) }
	err = p.RunWith(func(p *platform.Platform) error {
		if err := p.Run(cl); err != errNextFrame {
			t.Fail("first frame: %v", err)
		}
		if t.P(3, 4) {
			added(t.R(1, 60))
		}
		judge("first", frame(""), last(), last())
		moved := 0
		for k := t.R(4, 20); k > 0; k-- {
			switch t.N(6) {
			case 0:
				added(t.R(1, 5))
				if follow {
					judge("after further lines", frame(""), last(), last())
				} else {
					lo := s
					judge("scrolled, after further lines", frame(""), min(lo, last()), lo)
				}
			case 1: // press the header
				y := h
				if expanded {
					y = h - rows()
				}
				was := s
				in := fmt.Sprintf("\x1b[<0;%d;%dM", t.R(1, w-2), y)
				expanded = !expanded
				got := frame(in)
				if lv.Expanded != expanded {
					t.Fail("a press on row %d (of %d, %d lines): expanded is %v", y, h, n, lv.Expanded)
				}
				if follow {
					judge("toggled", got, last(), last())
				} else {
					judge("scrolled and toggled", got, min(was, last()), was)
				}
			case 2: // a press elsewhere
				if y := h - 1; !expanded {
					in := fmt.Sprintf("\x1b[<0;%d;%dM\x1b[<64;%d;%dM", t.R(1, w-2), y, t.R(1, w-2), y)
					judge("pressed and scrolled elsewhere", frame(in), s, s)
				} else if rows() > 1 {
					in := fmt.Sprintf("\x1b[<0;%d;%dM", t.R(1, w-2), h)
					judge("pressed a line", frame(in), s, s)
				}
			default: // scroll
				up, down := 0, 0
				in := ""
				top, bias := h, t.R(0, 8)
				if expanded {
					top = h - rows()
				}
				for j := t.R(1, 1+t.N(30)); j > 0; j-- {
					x, y := t.R(1, w-2), t.R(top, h)
					if t.P(bias, 8) {
						up++
						in += fmt.Sprintf("\x1b[<64;%d;%dM", x, y)
					} else {
						down++
						in += fmt.Sprintf("\x1b[<65;%d;%dM", x, y)
					}
				}
				got, was, d := frame(in), s, down-up
				what := fmt.Sprintf("scrolled by %d from %d (follow=%v)", d, was, follow)
				switch {
				case n == 0 || d == 0:
					judge(what, got, was, was)
				case d < 0 && follow:
					judge(what, got, max(1, min(last(), n+d)), max(1, min(last(), n+d)))
					follow = n+d >= n
				case d < 0:
					judge(what, got, max(1, was+d), max(1, was+d))
				case follow:
					judge(what, got, last(), last())
				default:
					judge(what, got, min(last(), was+d), min(last(), was+d))
					follow = was+d >= n
				}
				if s != was {
					moved++
				}
			}
		}
		t.Count("scrolled", moved)
		return nil
	})
	if err != nil {
		t.Fail("ended with %v", err)
	}
	desc := fmt.Sprintf("%dx%d view %d, %d lines, expanded=%v follow=%v from %d", w, h, view, n, expanded, follow, s)
	t.Distinct(desc)
	t.Sample("%s", desc)
}
