package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"image"
	"log"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
)

func init() {
	register(&Prop{
		ID:   "C32",
		Rule: "the built programs run on pseudo terminals of random and changing sizes under random input, suspensions and ends; what their terminals show is compared with independently computed pictures, and termios, modes, exit statuses and standard error are read at every boundary, and outputs that cannot be written given; non-trivial by (program, arguments, sizes, steps, end)",
		Assumptions: []string{
			"commands given to interact end by themselves, and print lines that fit the screen",
			"Linux pseudo terminals; the user looks at the screen whenever the program is between frames",
		},
		Subs: []Sub{
			{Name: "demo", Quick: 60, Thorough: 2500, Run: c32Demo},
			{Name: "interact", Quick: 100, Thorough: 4000, Run: c32Interact},
			{Name: "lolwut-i", Quick: 60, Thorough: 2500, Run: c32LolwutI},
			{Name: "hostile", Quick: 150, Thorough: 6000, Run: c32Hostile},
			{Name: "notty", Quick: 60, Thorough: 1000, Run: c32NoTTY},
			{Name: "mustrun", Quick: 150, Thorough: 5000, Run: c32MustRun},
			{Name: "lolwut", Quick: 250, Thorough: 10000, Run: c32Lolwut},
			{Name: "palette", Quick: 24, Thorough: 24, Run: c32Palette},
		},
	})
	helpers["mustrun"] = mustRunMain
}

func (t *T) pickInt(ns ...int) int { return ns[t.N(len(ns))] }

func cmdPath(t *T, name string) string {
	exe, err := os.Executable()
	if err != nil {
		t.Inconclusive("%v", err)
	}
	return filepath.Join(filepath.Dir(exe), "cmd", name)
}

// prog is a program running on a terminal.
type prog struct {
	*platSession
	name string
	err  capBuf
	dir  string
	was  bool // up before
}

func startProg(t *T, w, h int, raw bool, name string, args ...string) *prog {
	path := name
	if !filepath.IsAbs(path) {
		path = cmdPath(t, name)
	}
	p := &prog{platSession: &platSession{t: t, w: w, h: h, raw: raw}, name: name, dir: t.TempDir()}
	p.m = newTTYMon(t, w, h)
	if raw {
		if err := setTermios(p.m.mark, rawTermios(p.m.termios())); err != nil {
			t.Inconclusive("stty: %v", err)
		}
	} else if err := setTermios(p.m.mark, genTermios(t.Rng, p.m.termios())); err != nil {
		t.Inconclusive("stty: %v", err)
	}
	p.base = p.m.termios()
	p.fi, p.fo = getFlags(int(p.m.in.Fd())), getFlags(int(p.m.out.Fd()))
	p.cmd = exec.Command(path, args...)
	p.cmd.Dir = p.dir
	p.cmd.Stdin, p.cmd.Stdout, p.cmd.Stderr = p.m.in, p.m.out, &p.err
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all", "TERM="+t.Pick("xterm", "xterm-256color", "linux"))
	if err := p.cmd.Start(); err != nil {
		t.Inconclusive("start: %v", err)
	}
	p.pid = p.cmd.Process.Pid
	t.Cleanup(func() {
		if !p.reaped {
			syscall.Kill(-p.pid, syscall.SIGCONT)
			syscall.Kill(-p.pid, syscall.SIGKILL)
			p.cmd.Wait()
		}
		if e := p.err.String(); e != "" {
			t.Logf("stderr: %s", e)
		}
	})
	t.Count("programs run", 1)
	return p
}

// sees waits until the terminal shows what bad has nothing against.
func (p *prog) sees(what string, bad func() string) {
	d := ""
	for deadline := time.Now().Add(20 * time.Second); ; {
		p.watch()
		if d = bad(); d == "" {
			break
		}
		if p.ended() {
			p.t.Fail("%s ended by itself before %s; it said %q", p.name, what, p.err.b)
		}
		if time.Now().After(deadline) {
			p.t.Logf("%d bytes of input not read; flags %#x %#x", inQueue(p.m.mark), getFlags(int(p.m.in.Fd())), getFlags(int(p.m.out.Fd())))
			p.t.Fail("%s does not get to %s in 20 s: %s\nterminal: %v", p.name, what, d, p.m.rd)
		}
		time.Sleep(300 * time.Microsecond)
	}
	p.t.Count("screens_checked", 1)
}

// up waits until the program holds its terminal.
func (p *prog) up() {
	want := heldTermios(p.base, true, false)
	p.sees("being up", func() string {
		if p.m.rd.vis && !p.was { // signals are handled from the first frame on
			return "cursor is still visible"
		}
		return termiosDiff(p.m.termios(), want)
	})
	p.was = true
}

// suspends stops and continues the program.
func (p *prog) suspends(t *T) {
	p.input([]byte{0x1a})
	p.stopped()
	t.Logf("stopped")
	p.restored(p.name + " suspended")
	t.Count("suspensions", 1)
	if t.Bool() { // something else runs meanwhile, and clears the screen
		p.m.rd.Write([]byte("\x1b[2J\x1b[H"))
	}
	if t.P(1, 3) {
		p.w, p.h = p.w+t.R(-1, 3), p.h+t.R(0, 3)
		if p.w < 1 {
			p.w = 1
		}
		setWinsize(p.m.master, p.w, p.h)
		p.m.rd.resize(p.w, p.h)
		syscall.Kill(p.pid, syscall.SIGWINCH)
	}
	p.odd = nil
	if err := syscall.Kill(p.pid, syscall.SIGCONT); err != nil {
		t.Inconclusive("cont: %v", err)
	}
	p.up()
	t.Logf("resumed")
}

// atOnce has the program find all of the input there at one time.
func (p *prog) atOnce(in string) {
	q := inQueue(p.m.mark)
	for deadline := time.Now().Add(5 * time.Second); q > 0 && time.Now().Before(deadline); q = inQueue(p.m.mark) {
		p.watch()
		time.Sleep(100 * time.Microsecond)
	}
	syscall.Kill(p.pid, syscall.SIGSTOP)
	p.stopped()
	p.input([]byte(in))
	for deadline := time.Now().Add(2 * time.Second); inQueue(p.m.mark) < len(in) && time.Now().Before(deadline); {
		time.Sleep(50 * time.Microsecond)
	}
	syscall.Kill(p.pid, syscall.SIGCONT)
}

// wait waits for the end, returning the exit status.
func (p *prog) wait(why string) int {
	done := make(chan error, 1)
	go func() { done <- p.cmd.Wait() }()
	for deadline := time.Now().Add(20 * time.Second); ; {
		p.watch()
		select {
		case <-done:
			p.reaped = true
			p.watch()
			ws := p.cmd.ProcessState.Sys().(syscall.WaitStatus)
			p.t.Logf("%s: %v, stderr %q", why, p.cmd.ProcessState, p.err.b)
			if ws.Signaled() {
				p.t.Fail("%s was killed by %v after %s", p.name, ws.Signal(), why)
			}
			if bytes.Contains(p.err.b, []byte("panic:")) || bytes.Contains(p.err.b, []byte("fatal error:")) || bytes.Contains(p.err.b, []byte("goroutine 1")) {
				p.t.Fail("%s crashed after %s: %s", p.name, why, p.err.b)
			}
			p.t.Count("ends", 1)
			return ws.ExitStatus()
		default:
		}
		if time.Now().After(deadline) {
			st, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", p.pid))
			p.t.Logf("process: %s; %d bytes of input not read", st, inQueue(p.m.mark))
			syscall.Kill(p.pid, syscall.SIGQUIT)
			for i := 0; i < 50; i++ {
				p.watch()
				time.Sleep(5 * time.Millisecond)
			}
			p.t.Fail("%s is still running 20 s after %s; %s", p.name, why, p.err.b)
		}
		time.Sleep(200 * time.Microsecond)
	}
}

var sigText = map[syscall.Signal]string{syscall.SIGTERM: "terminated", syscall.SIGINT: "interrupt", syscall.SIGHUP: "hangup"}

// ends has the program end in a random way, and judges how it did.
func (p *prog) ends(t *T, replay bool) string {
	why := t.Pick("Ctrl-C", "Ctrl-C", "SIGTERM", "SIGINT", "SIGHUP")
	if replay && why == "Ctrl-C" { // would only end a replay
		why = "SIGINT"
	}
	if why == "Ctrl-C" {
		if t.Bool() {
			p.input([]byte{3})
		} else { // among other keys
			in := t.Pick("\x03", "\x1a\x03", "\x03\x03", "x\x03y", "\x1b[A\x03", "\x03\x1a", "\x03\x1b[B\x03")
			why = fmt.Sprintf("%q", in)
			p.atOnce(in)
		}
		ec := p.wait(why)
		if ec != 0 && (p.name != "lolwut" || !bytes.Contains(p.err.b, []byte("interrupt"))) {
			t.Fail("%s ended with status %d after %s, saying %q", p.name, ec, why, p.err.b)
		}
	} else {
		sig := map[string]syscall.Signal{"SIGTERM": syscall.SIGTERM, "SIGINT": syscall.SIGINT, "SIGHUP": syscall.SIGHUP}[why]
		syscall.Kill(p.pid, sig)
		ec := p.wait(why)
		if ec == 0 {
			t.Fail("%s ended with status 0 after %s", p.name, why)
		}
		if !strings.Contains(p.err.String(), sigText[sig]) {
			t.Fail("%s ended by %s does not say so: %q", p.name, why, p.err.b)
		}
	}
	p.restored(p.name + " ended")
	return why
}

// noise is input that programs which do not care about it ignore.
func (p *prog) noise(t *T) string {
	var sb strings.Builder
	for n := t.R(1, 12); n > 0; n-- {
		tok := genToken(t.Rng, t.P(1, 4))
		if t.P(1, 4) {
			tok = fmt.Sprintf("\x1b[<%d;%d;%d%s", t.pickInt(0, 1, 2, 32, 35), t.R(1, p.w+2), t.R(1, p.h+2), t.Pick("M", "m"))
		}
		sb.WriteString(tok)
	}
	s := sb.String()
	for _, c := range []string{"\x03", "\x1a", "\x12", "\x0b"} { // end, suspend, record, HUD
		s = strings.ReplaceAll(s, c, "_")
	}
	// nor through a CSI, DCS… that swallows what follows
	p.t.Logf("noise %q", s)
	return s + "\x18\x1b\\"
}

// demo fills the terminal with a gradient; every 16th line sweeps.
func c32DemoBad(p *prog) string {
	rd := p.m.rd
	if rd.x1 != p.w || rd.y1 != p.h || !rd.idle() {
		return "unfinished output"
	}
	for y := 1; y <= p.h; y++ {
		for x := 1; x <= p.w; x++ {
			got := rd.at(x, y)
			if y%16 != 0 {
				want := rcell{' ', rend{0, -1, 1<<24 | int64(rgb24(0, uint8(x), uint8(y)))}}
				if *got != want {
					return fmt.Sprintf("cell %d,%d is %q %+v, expected %+v", x, y, got.r, got.a, want)
				}
				continue
			}
			// the sweep counts along the lines, from some time
			var red uint8
			if got.a.bg>>24 == 1 {
				red = uint8(redOf(got.a.bg))
			}
			want := rcell{got.r, rend{0, -1, 1<<24 | int64(rgb24(red, uint8(x), uint8(y)))}}
			if *got != want || got.r < '0' || got.r > '9' {
				return fmt.Sprintf("sweep cell %d,%d is %q %+v", x, y, got.r, got.a)
			}
			px, py := x-1, y
			if x == 1 {
				px, py = p.w, y-16
			}
			if py < 1 {
				continue
			}
			prev := rd.at(px, py)
			if uint8(redOf(prev.a.bg))+1 != red || (prev.r-'0'+1)%10 != got.r-'0' {
				return fmt.Sprintf("sweep cell %d,%d is %q %+v after %q %+v", x, y, got.r, got.a, prev.r, prev.a)
			}
		}
	}
	if rd.vis {
		return "cursor is visible"
	}
	return ""
}

func rgb24(r, g, b uint8) uint32 {
	a := rendOf(ansi.RGB(r, g, b).BG())
	return uint32(a.bg &^ (1 << 24))
}

var red24 = func() (m int64) {
	return rendOf(ansi.RGB(0xff, 0, 0).BG()).bg &^ (1 << 24)
}()

func redOf(bg int64) int64 {
	m := bg & red24
	for s := red24; s&1 == 0; s >>= 1 {
		m >>= 1
	}
	return m
}

// c32Size is a terminal size, at times an odd one.
func c32Size(t *T) (w, h int) {
	switch t.N(6) {
	case 0:
		return t.R(1, 4), t.R(1, 4)
	case 1:
		return t.R(1, 120), t.R(1, 3)
	case 2:
		return t.R(1, 3), t.R(1, 50)
	}
	return t.R(10, 90), t.R(5, 40)
}

func c32Demo(t *T) {
	w, h := c32Size(t)
	desc := fmt.Sprintf("%dx%d", w, h)
	p := startProg(t, w, h, t.Bool(), "demo")
	p.up()
	shown := func() { p.sees("showing its gradient", func() string { return c32DemoBad(p) }) }
	for n := t.R(1, 6); n > 0; n-- {
		switch t.N(4) {
		case 0:
			shown()
		case 1:
			p.input([]byte(p.noise(t)))
			desc += " noise"
		case 2:
			w, h := c32Size(t)
			if t.P(1, 3) {
				w = p.w
			}
			p.resize(w, h)
			desc += fmt.Sprintf(" %dx%d", w, h)
		case 3:
			p.suspends(t)
			desc += fmt.Sprintf(" suspend %dx%d", p.w, p.h)
		}
	}
	shown()
	rec := t.P(1, 3)
	if rec { // a recording is replayed over and over
		for _, in := range []string{"\x12", "some", "input", "\x12", ""} {
			p.input([]byte(in))
			time.Sleep(time.Duration(t.R(0, 40)) * time.Millisecond)
		}
		desc += " record"
	}
	desc += " " + p.ends(t, rec)
	t.Distinct(desc)
	t.Sample(desc)
}

type dotMap struct {
	w, h int
	on   []bool
}

// schotter is the picture of rows of ever more disturbed squares.
func schotter(w, h, perRow, perCol, side, pad int, off float64) dotMap {
	dots := dotMap{w, h, make([]bool, w*h)}
	rng := rand.New(rand.NewSource(0))
	for y := 0; y < perCol; y++ {
		for x := 0; x < perRow; x++ {
			c := image.Pt(x*side+side/2+pad, y*side+side/2+pad)
			angle := off
			if y > 0 {
				var r [3]float64
				for i := range r {
					r[i] = rng.Float64() / float64(perCol) * float64(y)
				}
				for i := range r {
					if rng.Intn(2) == 1 {
						r[i] = -r[i]
					}
				}
				angle += r[0]
				c.X += int(r[1] * float64(side) / 3)
				c.Y += int(r[2] * float64(side) / 3)
			}
			radius := math.Round(float64(side) / math.Sqrt2)
			var corner [4]image.Point
			k := math.Pi/4 + angle
			for i := range corner {
				corner[i] = c.Add(image.Pt(int(math.Round(math.Sin(k)*radius)), int(math.Round(math.Cos(k)*radius))))
				k += math.Pi / 2
			}
			for i := range corner {
				line(corner[i], corner[(i+1)%4], func(p image.Point) {
					if p.X >= 0 && p.X < w && p.Y >= 0 && p.Y < h {
						dots.on[p.Y*w+p.X] = true
					}
				})
			}
		}
	}
	return dots
}

// line is Bresenham's.
func line(a, b image.Point, set func(image.Point)) {
	dx, dy, sx, sy := b.X-a.X, b.Y-a.Y, 1, 1
	if dx <= 0 {
		dx, sx = -dx, -1
	}
	if dy <= 0 {
		dy, sy = -dy, -1
	}
	e := dx - dy
	for set(a); a != b; set(a) {
		e2 := 2 * e
		if e2 > -dy {
			e -= dy
			a.X += sx
		}
		if e2 < dx {
			e += dx
			a.Y += sy
		}
	}
}

func brailleAt(dots dotMap, x, y int) (r rune) {
	r = 0x2800
	for dy, row := range [4][2]rune{{0x01, 0x08}, {0x02, 0x10}, {0x04, 0x20}, {0x40, 0x80}} {
		for dx, bit := range row {
			if x, y := x*2+dx, y*4+dy; x < dots.w && y < dots.h && dots.on[y*dots.w+x] {
				r |= bit
			}
		}
	}
	return r
}

func c32LolwutI(t *T) {
	var w, h int
	size := func() (int, int) {
		if t.P(1, 4) {
			return c32Size(t)
		}
		return t.R(3, 60), t.R(2, 24)
	}
	w, h = size()
	desc := fmt.Sprintf("%dx%d", w, h)
	p := startProg(t, w, h, t.Bool(), "lolwut", "-i")
	p.up()
	side := 20
	frame := 0 // at least
	start := time.Now()
	var offs []float64
	for off, n := 0.0, 0; n < 5000; n++ {
		offs = append(offs, off)
		if off += 0.01; off > math.Pi {
			off -= math.Pi
		}
	}
	bad := func(dots dotMap) string {
		rd := p.m.rd
		for y := 1; y <= p.h; y++ {
			for x := 1; x <= p.w; x++ {
				want := rcell{brailleAt(dots, x-1, y-1), rend0}
				got := *rd.at(x, y)
				if want.r == 0x2800 && got.r == ' ' {
					got.r = want.r
				}
				if got != want {
					return fmt.Sprintf("cell %d,%d is %q %+v, expected %q", x, y, got.r, got.a, want.r)
				}
			}
		}
		return ""
	}
	shown := func() {
		pad := 0
		if p.w > 2 {
			pad = 2
		}
		perRow := ((p.w-pad)*2 + side - 1) / side
		perCol := ((p.h-pad)*4 + side - 1) / side
		t.Logf("%s", desc)
		cache := map[int]dotMap{}
		p.sees("showing its squares", func() (d string) {
			if !p.m.rd.idle() {
				return "unfinished output"
			}
			if p.m.rd.vis {
				return "cursor is visible"
			}
			// its frames so far, at a rate of 60 Hz
			to := 60 + int(time.Since(start).Seconds()*75)
			first := ""
			for i := frame; i < to && i < len(offs); i++ {
				dots, ok := cache[i]
				if !ok {
					dots = schotter(p.w*2, p.h*4, perRow, perCol, side, pad, offs[i])
					cache[i] = dots
				}
				if d = bad(dots); d == "" {
					frame = i
					return ""
				}
				if first == "" {
					first = d
				}
			}
			return fmt.Sprintf("not at any angle from %v (there: %s), side %d", offs[frame], first, side)
		})
	}
	for n := t.R(1, 6); n > 0; n-- {
		switch t.N(5) {
		case 0:
			shown()
		case 1:
			p.input([]byte(p.noise(t)))
			desc += " noise"
		case 2:
			w, h := size()
			switch t.N(4) {
			case 0:
				w = p.w
			case 1:
				h = p.h
			}
			p.resize(w, h)
			desc += fmt.Sprintf(" %dx%d", w, h)
		case 3:
			p.suspends(t)
			desc += fmt.Sprintf(" suspend %dx%d", p.w, p.h)
		case 4:
			if shown(); p.w < 4 || p.h < 4 { // and so of that size, if there is anything to see
				continue
			}
			d := t.R(1, 5)
			b := 65
			if t.P(1, 8) && p.w*p.h < 600 { // as far as it goes
				d, b = -side-t.N(30), 64
				side = 1
			} else if t.Bool() && side-d > 3 {
				d, b = -d, 64
				side += d
			} else {
				side += d
			}
			var in string
			for i := 0; i < d || i < -d; i++ {
				in += fmt.Sprintf("\x1b[<%d;%d;%dM", b, t.R(1, p.w), t.R(1, p.h))
			}
			t.Logf("zoom %q", in)
			p.input([]byte(in))
			desc += fmt.Sprintf(" side %d", side)
			shown() // so that it gets them at that size
		}
	}
	shown()
	desc += " " + p.ends(t, false)
	t.Distinct(desc)
	t.Sample(desc)
}

// c32Interact enters values for the variables of a command.
func c32Interact(t *T) {
	w, h := t.R(60, 120), t.R(10, 40)
	type tcase struct {
		args []string // as given to interact
		out  func(val []string) (status string, lines []string)
		vals func() string
	}
	word := func() string {
		var sb strings.Builder
		for n := t.R(0, 9); n > 0; n-- {
			switch t.N(8) {
			case 0:
				sb.WriteString(t.Pick("é", "≡", "│", "ß", "Ж", "€"))
			case 1:
				sb.WriteString(t.Pick("$", "\\", "=", "-", "%", "'", ";"))
			case 2:
				sb.WriteString(" x")
			default:
				sb.WriteByte("abcdefghijklmnopqrstuvwxyz0123456789"[t.N(36)])
			}
		}
		return "v" + sb.String()
	}
	free := true // which values can be entered
	name := func() string { return t.Pick("$a", "$count", "$x1", "$", "$$", "$UPPER") }
	ok := "status: exit status 0"
	var c tcase
	switch t.N(6) {
	case 0: // nothing to enter
		lines := []string{word(), word()}
		c = tcase{args: append([]string{"printf", `%s\r\n`}, lines...), out: func([]string) (string, []string) { return ok, lines }}
	case 1:
		c = tcase{args: []string{"printf", `<%s>\r\n`, name()}, vals: word,
			out: func(v []string) (string, []string) { return ok, []string{"<" + v[0] + ">"} }}
	case 2:
		lit := "\\$" + word()
		c = tcase{args: []string{"printf", `%s,%s,%s,%s\r\n`, name(), lit, "x$y", name()}, vals: word,
			out: func(v []string) (string, []string) { return ok, []string{v[0] + "," + lit[1:] + ",x$y," + v[1]} }}
	case 3: // the command itself
		free = false
		c = tcase{args: []string{"$cmd", "-n", "hey"}, vals: func() string { return "echo" }, out: func(v []string) (string, []string) { return ok, []string{"hey"} }}
	case 4:
		free = false
		code := t.R(1, 9)
		c = tcase{args: []string{"sh", "-c", "$script"}, vals: func() string { return fmt.Sprintf("echo %d;exit %d", code*7, code) },
			out: func([]string) (string, []string) {
				return fmt.Sprintf("status: exit status %d", code), []string{fmt.Sprintf("error: exit status %d", code), fmt.Sprint(code * 7)}
			}}
	case 5:
		c = tcase{args: []string{"/no/such/command", name()}, vals: word, out: func([]string) (string, []string) {
			return "status: ", []string{"error: fork/exec /no/such/command: no such file or directory"}
		}}
	}
	p := startProg(t, w, h, t.Bool(), "interact", c.args...)
	p.up()
	desc := fmt.Sprintf("%q", c.args)
	vals := map[int]string{} // by argument
	vars := []int{}
	for i, a := range c.args {
		if strings.HasPrefix(a, "$") {
			vars = append(vars, i)
		}
	}
	cmdline := func() (s string, at []int) {
		var sb strings.Builder
		n := 0
		put := func(s string) {
			sb.WriteString(s)
			n += len([]rune(s))
		}
		for i, a := range c.args {
			if i > 0 {
				put(" ")
			}
			at = append(at, n+1)
			put(strings.TrimPrefix(a, "\\"))
			if v := vals[i]; v != "" {
				put("=" + v)
			}
		}
		return sb.String(), at
	}
	row := func(y int) string {
		var sb strings.Builder
		for x := 1; x <= p.w; x++ {
			sb.WriteRune(p.m.rd.at(x, y).r)
		}
		return strings.TrimRight(sb.String(), " ")
	}
	hud := 0
	isLog := func(r string) bool { return len(r) > 20 && r[:2] == "20" && r[4] == '/' && r[7] == '/' } // of the HUD
	shown := func() {
		want, _ := cmdline()
		if len([]rune(want)) >= p.w {
			p.sees("being up", func() string { return "" })
			return // truncated or wrapped somehow
		}
		p.sees(fmt.Sprintf("showing %q", want), func() string {
			if !p.m.rd.idle() {
				return "unfinished output"
			}
			if r := row(1 + hud); r != want {
				return fmt.Sprintf("first row is %q, expected %q", r, want)
			}
			status, lines := "Define variables to run", []string{}
			if len(vals) == len(vars) {
				var v []string
				for _, i := range vars {
					v = append(v, vals[i])
				}
				status, lines = c.out(v)
			}
			if r := row(2 + hud); !strings.HasPrefix(r, strings.TrimRight(status, " ")) || status != "status: " && r != status {
				return fmt.Sprintf("second row is %q, expected %q", r, status)
			}
			for i, l := range lines {
				if i+4+hud > p.h {
					break
				}
				if r := row(3 + i + hud); r != l && !(hud == 1 && isLog(r)) {
					return fmt.Sprintf("row %d is %q, expected %q", 3+i, r, l)
				}
			}
			for y := 3 + len(lines) + hud; y <= p.h; y++ {
				if r := row(y); r != "" && !(hud == 1 && isLog(r)) {
					return fmt.Sprintf("row %d is %q, expected empty", y, r)
				}
			}
			return ""
		})
		t.Count("command_outputs_checked", 1)
	}
	shown()
	for n := t.R(2, 8); n > 0; n-- {
		switch k := t.N(8); {
		case k == 0:
			w, h := t.R(60, 120), t.R(10, 40)
			p.resize(w, h)
			desc += fmt.Sprintf(" %dx%d", w, h)
		case k == 1:
			p.suspends(t)
			desc += " suspend"
		case k == 2:
			p.input([]byte{0x0b})
			hud ^= 1
			desc += " HUD"
		case len(vars) > 0:
			line, at := cmdline()
			if len([]rune(line)) >= p.w {
				continue
			}
			shown()
			i := vars[t.N(len(vars))]
			for _, j := range vars { // rather one without a value
				if vals[j] == "" && t.Bool() {
					i = j
				}
			}
			click := fmt.Sprintf("\x1b[<0;%d;%dM\x1b[<0;%d;%dm", at[i]+t.N(len(c.args[i])), 1+hud, at[i], 1+hud)
			if t.P(1, 6) { // twice is not at all
				p.atOnce(click + click)
				desc += " twice"
				p.sees("ignoring it", func() string { return "" })
				shown()
				continue
			}
			p.input([]byte(click))
			was := vals[i]
			p.sees("editing", func() string {
				if !p.m.rd.vis || p.m.rd.y != 1+hud || p.m.rd.x < at[i] || p.m.rd.x > at[i]+len(c.args[i]) {
					return fmt.Sprintf("cursor %v at %d,%d", p.m.rd.vis, p.m.rd.x, p.m.rd.y)
				}
				return ""
			})
			typed := func(in string) {
				for len(in) > 0 {
					k := t.R(1, len(in))
					if t.Bool() {
						k = len(in)
					}
					for k < len(in) && (in[k]&0xC0 == 0x80 || strings.Contains("\x1b[CD", in[k-1:k])) {
						k++ // escapes are typed at once
					}
					p.input([]byte(in[:k]))
					in = in[k:]
					time.Sleep(time.Duration(t.N(3)) * time.Millisecond)
				}
			}
			wasLen := len([]rune(was))
			switch k := t.N(10); {
			case k == 0: // never mind
				p.input([]byte(click))
				desc += " nevermind"
			case k == 1: // nor then
				typed(t.Pick("", "zz", "\x1b[Cy", "\x7f") + "\x1b")
				desc += " cancel"
			case k == 2: // it stays what it was
				typed(strings.Repeat("\x1b[C", wasLen) + strings.Repeat("\x7f", wasLen) + "\r")
				desc += " empty"
			case k <= 5 && was != "" && free: // some more of it
				at := t.N(wasLen + 1)
				v := t.Pick("q", "é", "00")
				typed(strings.Repeat("\x1b[C", at) + v + "\r")
				vals[i] = string([]rune(was)[:at]) + v + string([]rune(was)[at:])
				desc += fmt.Sprintf(" %s:=%q", c.args[i], vals[i])
			default:
				v := c.vals()
				in := strings.Repeat("\x1b[C", wasLen) + strings.Repeat("\x7f", wasLen) + v
				if t.P(1, 3) { // with some correction
					in += "zz\x1b[D\x7f\x1b[C\x7f"
				}
				typed(in + "\r")
				vals[i] = v
				desc += fmt.Sprintf(" %s=%q", c.args[i], v)
			}
			p.sees("having edited", func() string {
				if p.m.rd.vis {
					return "cursor is visible"
				}
				return ""
			})
		}
		shown()
	}
	desc += " " + p.ends(t, false)
	t.Distinct(desc)
	t.Sample(desc)
}

// c32Hostile only looks for programs to survive and end well.
func c32Hostile(t *T) {
	args := [][]string{{"demo"}, {"interact"}, {"interact", "echo", "$x"}, {"interact", "$"}, {"interact", ""}, {"interact", "echo", strings.Repeat("long ", 30), "$y"}, {"interact", "seq", "200"},
		{"interact", "printf", `\033[5;5Hx\033[2J\033[31m\n\n\033[A`}, {"lolwut", "-i"}, {"lolwut", "-i", "3", "100", "100"}}[t.N(10)]
	w, h := c32Size(t)
	desc := fmt.Sprintf("%q %dx%d", args, w, h)
	p := startProg(t, w, h, t.Bool(), args[0], args[1:]...)
	if len(args) == 1 && args[0] == "interact" { // nothing to run
		if ec := p.wait("being given no command"); ec == 0 || len(p.err.b) == 0 {
			t.Fail("interact without a command ended with status %d, saying %q", ec, p.err.b)
		}
		p.restored("interact ended")
		t.Distinct(desc)
		return
	}
	p.up()
	rec := t.Bool() // a recorded suspension is replayed too
	for n := t.R(2, 12); n > 0; n-- {
		switch k := t.N(6); {
		default:
			s := p.noise(t)
			if rec && t.P(1, 4) {
				s += "\x12"
			} else if t.P(1, 3) {
				s += t.Pick("\x0b", "\x0c", "\r", "\x7f", "\x1b[D", "\x1b[C", "text")
			}
			p.input([]byte(s))
		case k == 0:
			w, h := c32Size(t)
			if t.P(1, 8) {
				w, h = t.R(0, 2), t.R(0, 2)
			}
			if w == 0 || h == 0 { // not judged what it shows
				setWinsize(p.m.master, w, h)
				syscall.Kill(p.pid, syscall.SIGWINCH)
				time.Sleep(20 * time.Millisecond)
				w, h = c32Size(t)
			}
			p.resize(w, h)
			desc += fmt.Sprintf(" %dx%d", w, h)
		case k == 1 && !rec:
			p.suspends(t)
			desc += " suspend"
		case k == 2: // click about
			p.input([]byte(fmt.Sprintf("\x1b[<0;%d;%dM", t.R(1, p.w+2), t.R(1, 3))))
		}
		if t.Bool() {
			time.Sleep(time.Duration(t.N(20)) * time.Millisecond)
			p.watch()
		}
		if p.ended() {
			t.Fail("%s ended by itself; it said %q", p.name, p.err.b)
		}
	}
	desc += " " + p.ends(t, rec)
	t.Distinct(desc)
	t.Sample(desc)
}

// runTo runs a program off any terminal.
func runTo(t *T, stdin *os.File, name string, args ...string) (out, errOut []byte, ec int) {
	path := name
	if !filepath.IsAbs(path) {
		path = cmdPath(t, name)
	}
	cmd := exec.Command(path, args...)
	var o, e bytes.Buffer
	cmd.Dir = t.TempDir()
	cmd.Stdout, cmd.Stderr = &o, &e
	if stdin != nil {
		cmd.Stdin = stdin
	}
	if err := cmd.Start(); err != nil {
		t.Inconclusive("%v", err)
	}
	kill := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !kill.Stop() {
		t.Fail("%s %q did not end in 20 s", name, args)
	}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		t.Inconclusive("%v", err)
	}
	t.Logf("%s %q: %v, stderr %q", filepath.Base(name), args, cmd.ProcessState, e.Bytes())
	if bytes.Contains(e.Bytes(), []byte("panic:")) || bytes.Contains(e.Bytes(), []byte("fatal error:")) {
		t.Fail("%s %q crashed: %s", name, args, e.Bytes())
	}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		t.Fail("%s %q was killed: %v", name, args, ws.Signal())
	}
	t.Count("programs run", 1)
	return o.Bytes(), e.Bytes(), ws.ExitStatus()
}

// c32NoTTY: not on a terminal, programs say so.
func c32NoTTY(t *T) {
	args := [][]string{{"demo"}, {"interact", "echo", "$x"}, {"interact", "true"}, {"lolwut", "-i"}}[t.N(4)]
	var in *os.File
	how := t.Pick("null", "pipe", "file")
	switch how {
	case "pipe":
		r, w := rawPipe(t)
		defer w.Close()
		in = r
	case "file":
		f, err := os.Create(filepath.Join(t.TempDir(), "in"))
		if err != nil {
			t.Inconclusive("%v", err)
		}
		defer f.Close()
		in = f
	}
	_, e, ec := runTo(t, in, args[0], args[1:]...)
	if ec == 0 {
		t.Fail("%q ended with status 0 without any terminal", args)
	}
	if len(e) == 0 {
		t.Fail("%q ended with status %d without saying why", args, ec)
	}
	t.Distinct(fmt.Sprintf("%q %s", args, how))
}

// mustRun is how a program under MustRun ends.
type mustRun struct {
	How  string // anansi or platform
	Err  string // none if empty
	Code *int   // of an ExitError
	Late bool   // after some frames
}

type codeError struct {
	s string
	n int
}

func (ce codeError) Error() string { return ce.s }
func (ce codeError) ExitCode() int { return ce.n }

func mustRunMain(args []string) {
	var m mustRun
	if err := json.Unmarshal([]byte(args[0]), &m); err != nil {
		panic(err)
	}
	var err error
	if m.Err != "" {
		err = errors.New(m.Err)
		if m.Code != nil {
			err = codeError{m.Err, *m.Code}
		}
	}
	n := 0
	frames := func(p *platform.Platform) error {
		if !m.Late {
			return err
		}
		return p.Run(platform.ClientFunc(func(ctx *platform.Context) error {
			ctx.Output.Clear()
			ctx.Output.To(ansi.Pt(1, 1))
			ctx.Output.WriteString("running")
			ctx.Output.UserCursor.Visible = true
			if n++; n < 4 {
				return nil
			}
			if err == nil {
				return errNextFrame
			}
			return err
		}))
	}
	switch m.How {
	case "anansi":
		log.SetOutput(os.Stderr) // the platform package, linked into this program, redirects it
		anansi.MustRun(anansi.NewTerm(os.Stdin, os.Stdout).RunWith(func(*anansi.Term) error { return err }))
	case "platform":
		platform.MustRun(os.Stdin, os.Stdout, func(p *platform.Platform) error {
			if err := frames(p); err != errNextFrame {
				return err
			}
			return nil
		}, platform.Config{})
	}
	os.Stdout.WriteString("went on\n")
	os.Exit(77)
}

func c32MustRun(t *T) {
	m := mustRun{How: t.Pick("anansi", "platform", "platform"), Late: t.Bool()}
	if t.P(4, 5) {
		m.Err = fmt.Sprintf("bad thing %d", t.N(1000))
		if t.Bool() {
			n := t.pickInt(0, 1, 2, 3, 42, 127, 255)
			m.Code = &n
		}
	}
	self, err := os.Executable()
	if err != nil {
		t.Inconclusive("%v", err)
	}
	j, _ := json.Marshal(m)
	p := startProg(t, t.R(10, 60), t.R(3, 20), t.Bool(), self, "-helper", "mustrun", string(j))
	p.name = "the program"
	ec := p.wait("returning " + string(j))
	p.restored("ended")
	want := 77 // MustRun returned
	if m.Err != "" {
		want = 1
		if m.Code != nil && *m.Code != 0 {
			want = *m.Code
		}
		if n := strings.Count(p.err.String(), m.Err); n == 0 {
			t.Fail("%s: standard error is %q", j, p.err.b)
		}
	} else if len(p.err.b) > 0 {
		t.Fail("%s: standard error is %q", j, p.err.b)
	}
	if ec != want {
		t.Fail("%s: exit status %d, expected %d", j, ec, want)
	}
	t.Distinct(fmt.Sprintf("%s", j))
	t.Sample(string(j))
}

// c32Lolwut compares the picture printed.
func c32Lolwut(t *T) {
	vals := []int{60, 8, 12}
	mins := 1
	var args []string
	invalid := ""
	for i, max := range []int{100, 20, 30} {
		if t.P(1, 8) {
			break
		}
		n := t.R(1, max)
		switch t.N(8) {
		case 0:
			n = t.R(1, 5)
		case 1:
			n = t.R(-3, 2)
		case 2:
			if t.P(1, 4) {
				if invalid != "" {
					args = append(args, "2")
					continue
				}
				invalid = t.Pick("x", "1.5", "12a", "0x10", " 3", "99999999999999999999")
				args = append(args, invalid)
				continue
			}
		case 3:
			if t.P(1, 4) {
				n = t.R(100, 400)
			}
		}
		vals[i] = n
		if n < mins {
			vals[i] = mins
		}
		args = append(args, fmt.Sprint(n))
	}
	if len(args) > 0 && strings.HasPrefix(args[0], "-") {
		args = append([]string{"--"}, args...)
	}
	desc := fmt.Sprintf("%q", args)
	if t.P(1, 20) && len(args) > 2 && args[0] != "--" { // arguments past these
		args = append(args, "more")
	}
	out, e, ec := runTo(t, nil, "lolwut", args...)
	t.Distinct(desc)
	t.Sample(desc)
	if invalid != "" {
		if ec == 0 || !bytes.Contains(e, []byte(invalid)) {
			t.Fail("lolwut %q ended with status %d, saying %q", args, ec, e)
		}
		return
	}
	if ec != 0 {
		t.Fail("lolwut %q ended with status %d, saying %q", args, ec, e)
	}
	w, pad := vals[0]*2, 0
	if w > 4 {
		pad = 2
	}
	side := (w - 2*pad) / vals[1]
	h := side*vals[2] + 2*pad
	dots := schotter(w, h, vals[1], vals[2], side, pad, 0)
	var want bytes.Buffer
	for y := 0; y < h; y += 4 {
		for x := 0; x < w; x += 2 {
			want.WriteRune(brailleAt(dots, x/2, y/4))
		}
		want.WriteByte('\n')
	}
	got := strings.ReplaceAll(string(out), "\r\n", "\n")
	if h == 0 && got == "\n" {
		got = ""
	}
	if got != want.String() {
		t.Fail("lolwut %q printed\n%s\nexpected\n%s", args, got, want.Bytes())
	}
	if len(out) > 0 && t.P(1, 3) {
		if _, e, ec := runTo(t, nil, "/bin/sh", append([]string{"-c", `exec "$0" "$@" >/dev/full`, cmdPath(t, "lolwut")}, args...)...); ec == 0 {
			t.Fail("lolwut %q could not write its picture, and ended with status 0, saying %q", args, e)
		}
		t.Count("full_outputs", 1)
	}
	t.Count("pictures_compared", 1)
	t.Count("dots_compared", w*h)
}

// c32Palette compares the table printed.
func c32Palette(t *T) {
	models := map[string]ansi.ColorModel{"id": ansi.ColorModelID, "3": ansi.Palette3, "4": ansi.Palette4, "8": ansi.Palette8, "24": ansi.ColorModel24, "canon": ansi.SGRColorCanon}
	names := []string{"id", "3", "4", "8", "24", "canon", "", "bogus"}
	name := names[t.Idx%len(names)]
	themes := t.Idx/len(names)%2 == 1
	var args []string
	if name != "" {
		args = append(args, t.Pick("-model=", "--model=")+name)
	}
	if themes {
		args = append(args, "-themes")
	}
	out, e, ec := runTo(t, nil, "palette", args...)
	t.Distinct(fmt.Sprintf("%q", args))
	if name == "bogus" {
		if ec == 0 || !bytes.Contains(e, []byte("no such color model")) {
			t.Fail("palette %q ended with status %d, saying %q", args, ec, e)
		}
		return
	}
	if ec != 0 {
		t.Fail("palette %q ended with status %d, saying %q", args, ec, e)
	}
	if name == "" {
		name = "id"
	}
	model := models[name]
	type pal struct {
		name   string
		lo, hi int
		p      ansi.Palette
	}
	pals := []pal{{"Palette3", 0, 8, ansi.Palette3}, {"Palette4", 8, 16, ansi.Palette4}}
	if themes {
		for _, th := range []pal{
			{"VGAPalette", 0, 0, ansi.Palette(ansi.VGAPalette)}, {"CMDPalette", 0, 0, ansi.Palette(ansi.CMDPalette)},
			{"TermnialAppPalette", 0, 0, ansi.Palette(ansi.TermnialAppPalette)}, {"PuTTYPalette", 0, 0, ansi.Palette(ansi.PuTTYPalette)},
			{"MIRCPalette", 0, 0, ansi.Palette(ansi.MIRCPalette)}, {"XTermPalette", 0, 0, ansi.Palette(ansi.XTermPalette)},
			{"XPalette", 0, 0, ansi.Palette(ansi.XPalette)}, {"UbuntuPalette", 0, 0, ansi.Palette(ansi.UbuntuPalette)}} {
			th.hi = len(th.p)
			pals = append(pals, th)
		}
	}
	pals = append(pals, pal{"Palette8", 16, 256, ansi.Palette8})
	lines := strings.Split(strings.TrimSuffix(string(out), "\n"), "\n")
	line := func() string {
		if len(lines) == 0 {
			return "the end"
		}
		l := lines[0]
		lines = lines[1:]
		return l
	}
	if l := line(); !strings.Contains(l, fmt.Sprintf("%q", name)) {
		t.Fail("palette %q starts with %q", args, l)
	}
	for i, p := range pals {
		if i > 0 {
			if l := line(); l != "" {
				t.Fail("palette %q prints %q before %s", args, l, p.name)
			}
		}
		if l := line(); !strings.HasPrefix(l, p.name) || !strings.HasSuffix(l, ":") {
			t.Fail("palette %q prints %q, expected %s", args, l, p.name)
		}
		for k := p.lo; k < p.hi; k++ {
			c := model.Convert(p.p[k])
			l := line()
			// the samples, as a terminal shows them
			rd := newRterm(200, 1)
			rd.Write([]byte(l))
			if len(rd.odd) > 0 {
				t.Fail("palette %q prints %q for %s %d", args, l, p.name, k)
			}
			text := ""
			at := strings.Index(rd.String(), "[ fg ][ bg ]") - strings.Index(rd.String(), `"`) // its column
			for x := 1; x <= 200; x++ {
				cell := rd.at(x, 1)
				text += string(cell.r)
				var want ansi.SGRAttr
				switch {
				case x >= at && x < at+6:
					want = c.FG()
				case x >= at+6 && x < at+12:
					want = c.BG()
				}
				if k := rendOf(want); cell.a != k {
					t.Fail("palette %q prints %q for %s %d: column %d is %+v, expected %+v", args, l, p.name, k, x, cell.a, k)
				}
			}
			fs := strings.Fields(text)
			want := fmt.Sprintf("%d [ fg ][ bg ] fg_ctl:%q bg_ctl:%q", k, c.FG().ControlString(), c.BG().ControlString())
			if got := strings.Join(fs, " "); got != want {
				t.Fail("palette %q prints %q for %s %d, expected %q", args, got, p.name, k, want)
			}
			t.Count("colors_compared", 1)
		}
	}
	if len(lines) > 0 {
		t.Fail("palette %q prints %q at its end", args, lines)
	}
	if _, e, ec := runTo(t, nil, "/bin/sh", append([]string{"-c", `exec "$0" "$@" >/dev/full`, cmdPath(t, "palette")}, args...)...); ec == 0 {
		t.Fail("palette %q could not write its table, and ended with status 0, saying %q", args, e)
	}
	t.Count("full_outputs", 1)
}
