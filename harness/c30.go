package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
	"unsafe"

	"syscall"

	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:          "C30",
		Rule:        "a random stream is piped in random chunks, each read before the next is written, through the built command; non-trivial by (command, element classes, kinds of unfinished element the chunks were cut in)",
		Assumptions: []string{"invalid UTF-8 means the same as U+FFFD, except in a stream without any escape sequence, which must come out byte for byte; 7-bit and UTF-8 forms of C1 controls mean the same; a cancelled sequence means nothing", "of a stream with a stray ESC (interrupted by another, or by an invalid byte) only independence of the chunking is checked"},
		Subs: []Sub{
			{Name: "to24bit", Quick: 6000, Thorough: 200000, Run: c30To24bit},
			{Name: "sgr", Quick: 3000, Thorough: 100000, Run: c30SGR},
			{Name: "text", Quick: 1500, Thorough: 40000, Run: c30Text},
			{Name: "decode", Quick: 6000, Thorough: 200000, Run: func(t *T) { c30Decode(t, false) }},
			{Name: "strip", Quick: 2000, Thorough: 60000, Run: func(t *T) { c30Decode(t, true) }},
			{Name: "failing", Quick: 300, Thorough: 10000, Run: c30Failing},
			{Name: "interactive", Quick: 600, Thorough: 8000, Run: c30Interactive},
		},
	})
}

// pipeThrough runs a command on p, which it reads chunk by chunk.
func pipeThrough(t *T, name string, cs [][]byte, args ...string) (out, errOut []byte) {
	exe, err := os.Executable()
	if err != nil {
		t.Inconclusive("%v", err)
	}
	r, w := rawPipe(t)
	or, ow := rawPipe(t)
	cmd := exec.Command(filepath.Join(filepath.Dir(exe), "cmd", name), args...)
	var ebuf bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = r, ow, &ebuf
	if err := cmd.Start(); err != nil {
		t.Inconclusive("%v", err)
	}
	r.Close()
	ow.Close()
	read := make(chan []byte, 1)
	go func() {
		b, _ := io.ReadAll(or)
		read <- b
	}()
	kill := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
	defer kill.Stop()
	for _, c := range cs {
		if _, err := w.Write(c); err != nil {
			w.Close()
			cmd.Wait()
			t.Fail("%s stopped reading its input: %v; it said %q", name, err, ebuf.Bytes())
		}
		for spins := 0; pending(w) > 0; spins++ {
			if spins > 20 {
				time.Sleep(50 * time.Microsecond)
			}
			if spins > 200000 {
				break // found out below
			}
		}
	}
	w.Close()
	out = <-read
	err = cmd.Wait()
	if !kill.Stop() {
		t.Fail("%s did not finish within 20 s of the end of its input", name)
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		t.Fail("%s failed: %v; it said %q", name, err, ebuf.Bytes())
	} else if err != nil {
		t.Inconclusive("%v", err)
	}
	t.Count("commands run", 1)
	t.Count("chunks", len(cs))
	return out, ebuf.Bytes()
}

// pending is the number of bytes in the pipe.
func pending(f *os.File) int {
	var n int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), 0x541B /* FIONREAD */, uintptr(unsafe.Pointer(&n))); e != 0 {
		return 0
	}
	return int(n)
}

// c30Stream is a random stream, at times larger than a read.
func c30Stream(t *T) []byte {
	for {
		n := t.R(1, 14)
		if t.P(1, 40) {
			n = t.R(500, 3000)
		}
		var p []byte
		hostile := t.Bool() && n < 100
		long := t.P(1, 60) // something long: an image, or clipboard contents
		for i := 0; i < n; i++ {
			switch t.N(6) {
			case 0:
				p = append(p, genSGR(t)...)
			case 1:
				if t.P(1, 6) { // a private use rune that is also an escape identifier
					p = append(p, string(rune(0xEF00+t.N(0x100)))...)
				}
			default:
				p = append(p, genToken(t.Rng, hostile)...)
			}
			if long && t.P(1, n-i) {
				long = false
				p = append(p, t.Pick("\x1bP", "\x1b]", "\u009d", "\x1b[", "text")...)
				p = append(p, bytes.Repeat([]byte("0;12"), t.R(500, 6000))...)
				p = append(p, t.Pick("\x1b\\", "\u009c", "m", "h")...)
			}
		}
		if !exoticInESC(p) && len(p) > 0 {
			return p
		}
	}
}

func genSGR(t *T) string {
	var ps []string
	for n := t.N(5); n >= 0; n-- {
		switch t.N(14) {
		case 0, 1:
			ps = append(ps, fmt.Sprint(30+t.N(8)))
		case 2, 3:
			ps = append(ps, fmt.Sprint(40+t.N(8)))
		case 4:
			ps = append(ps, fmt.Sprint(90+t.N(8)))
		case 5:
			ps = append(ps, fmt.Sprint(100+t.N(8)))
		case 6, 7:
			ps = append(ps, fmt.Sprintf("%d;5;%d", 38+10*t.N(2), t.N(256)))
		case 8:
			ps = append(ps, fmt.Sprintf("%d;2;%d;%d;%d", 38+10*t.N(2), t.N(256), t.N(256), t.N(256)))
		case 9, 10, 11:
			ps = append(ps, fmt.Sprint(t.N(10)))
		case 12:
			ps = append(ps, t.Pick("22", "24", "25", "27", "39", "49", "", "", "0", "21"))
		default:
			ps = append(ps, t.Pick("38;5;256", "38;2;1;2", "48;5", "38", "4:3", "38:5:12", "58;5;3", "031", "1000", "37 ", "?31", ">4;31", "10", "98", "48;7;31"))
		}
	}
	return "\x1b[" + strings.Join(ps, ";") + "m"
}

// escapePUA moves private use runes that double as escape identifiers out of
// the way of the reference decoder.
func escapePUA(p []byte) []byte {
	q := append([]byte(nil), p...)
	for i := 0; i+2 < len(q); i++ {
		if q[i] == 0xEE && 0xBC <= q[i+1] && q[i+1] <= 0xBF && q[i+2]&0xC0 == 0x80 {
			q[i] = 0xEF
			q[i+1] -= 0x1C // U+F8xx
		}
	}
	return q
}

func plainSGR(a string) bool { return strings.Trim(a, "0123456789:;") == "" }

// c30Rendition is what SGR parameters do, with legacy colours as 24-bit ones;
// legacy is set if there were any.
func c30Rendition(a string) (ops string, legacy bool) {
	var keep []string // since the last clear, except colours
	fg, bg := "", ""
	ps := strings.Split(a, ";")
	num := func(s string, max int) (int, bool) {
		if s == "" {
			return 0, true
		}
		n, err := strconv.Atoi(s)
		return n, err == nil && n >= 0 && n <= max
	}
	rgb := func(c int) string {
		r, g, b := ansi.SGRColor(c).RGB()
		legacy = true
		return fmt.Sprintf("%d,%d,%d", r, g, b)
	}
	for i := 0; i < len(ps); i++ {
		n, ok := num(ps[i], 1<<20)
		switch {
		case !ok:
			keep = append(keep, ps[i])
		case n == 0:
			keep, fg, bg = []string{"clear"}, "", ""
		case 30 <= n && n <= 37:
			fg = rgb(n - 30)
		case 40 <= n && n <= 47:
			bg = rgb(n - 40)
		case 90 <= n && n <= 97:
			fg = rgb(n - 90 + 8)
		case 100 <= n && n <= 107:
			bg = rgb(n - 100 + 8)
		case n == 38 || n == 48:
			set := &fg
			if n == 48 {
				set = &bg
			}
			if i+2 < len(ps) && ps[i+1] == "5" {
				if c, ok := num(ps[i+2], 255); ok && ps[i+2] != "" {
					*set = rgb(c)
					i += 2
					continue
				}
			}
			if i+4 < len(ps) && ps[i+1] == "2" {
				r, ok1 := num(ps[i+2], 255)
				g, ok2 := num(ps[i+3], 255)
				b, ok3 := num(ps[i+4], 255)
				if ok1 && ok2 && ok3 && ps[i+2] != "" && ps[i+3] != "" && ps[i+4] != "" {
					*set = fmt.Sprintf("%d,%d,%d", r, g, b)
					i += 4
					continue
				}
			}
			// malformed: a terminal may skip what follows, or not
			return "?" + strings.Join(ps, ";"), legacy
		case n == 39:
			fg = "default"
		case n == 49:
			bg = "default"
		default:
			keep = append(keep, ps[i])
		}
	}
	return fmt.Sprint(keep, " fg:", fg, " bg:", bg), legacy
}

func malformedSGR(a string) bool {
	ops, _ := c30Rendition(a)
	return strings.HasPrefix(ops, "?")
}

// decodable: without parameters that the library does not know
func knownSGR(a string) bool {
	for _, p := range strings.Split(a, ";") {
		switch p {
		case "22", "24", "25", "27", "39", "49", "21", "9", "10", "1000", "98", "58", "7":
			return false
		}
	}
	_, _, err := ansi.DecodeSGR([]byte(a))
	return err == nil
}

func c30To24bit(t *T) { c30Check24(t, c30Stream(t)) }

func c30SGR(t *T) {
	var p []byte
	for n := t.R(1, 12); n > 0; n-- {
		p = append(p, genSGR(t)...)
		if t.Bool() {
			p = append(p, 'x')
		}
	}
	c30Check24(t, p)
}

func c30Check24(t *T, p []byte) {
	cs := c30Chunks(t, p)
	t.Logf("stream %.3000q in %d chunks %.3000q", p, len(cs), cs)
	out, errOut := pipeThrough(t, "to24bit", cs)
	if len(errOut) > 0 {
		t.Fail("said %q", errOut)
	}
	if t.P(1, 4) {
		cs2 := c30Chunks(t, p)
		if out2, _ := pipeThrough(t, "to24bit", cs2); !bytes.Equal(out, out2) {
			t.Fail("output depends on chunking: %s\n with chunks %.2000q", firstDiff(string(out), string(out2)), cs2)
		}
		t.Count("chunkings compared", 1)
	}
	sure, held := refDecode(escapePUA(p), false)
	for _, e := range sure {
		if e.id == 0x1B {
			return // a stray ESC, which may turn what follows it into something else
		}
	}
	want, _ := refDecode(escapePUA(p), true)
	got, _ := refDecode(escapePUA(out), true)
	tail := 0 // of an unfinished control string, which may not need conversion
	if len(held) > 0 {
		e, _ := refDecode(held, true)
		tail = len(e)
	}
	for i := 0; i < len(want) && i < len(got); i++ {
		w, g := want[i], got[i]
		if w == g && (w.id != ansi.SGR || !plainSGR(w.arg)) {
			continue
		}
		if w.id != ansi.SGR || g.id != ansi.SGR || !plainSGR(w.arg) {
			t.Fail("item %d of %d: %v became %v\n out: %.2000q", i, len(want), w, g, out)
		}
		if malformedSGR(w.arg) {
			t.Count("malformed renditions", 1)
			if malformedSGR(g.arg) || w == g {
				continue
			}
		}
		wr, _ := c30Rendition(w.arg)
		gr, legacy := c30Rendition(g.arg)
		if wr != gr {
			t.Fail("item %d: rendition %q became %q: it should mean %s, but means %s", i, w.arg, g.arg, wr, gr)
		}
		if legacy && knownSGR(w.arg) && i < len(want)-tail {
			t.Fail("item %d: rendition %q became %q, which is not 24-bit", i, w.arg, g.arg)
		}
		t.Count("renditions", 1)
	}
	if len(want) != len(got) {
		t.Fail("%d items became %d\n in:  %.2000q\n out: %.2000q", len(want), len(got), p, out)
	}
	t.Count("items", len(want))
	t.Distinct(kindsOf(p, cs))
	t.Sample("%.200q -> %.200q", cs, out)
}

// c30Chunks keeps the number of chunks of large streams down.
func c30Chunks(t *T, p []byte) (out [][]byte) {
	if len(p) < 300 {
		return chunks(t.Rng, p)
	}
	for len(p) > 0 {
		n := t.R(1, 9000)
		if t.P(1, 3) {
			n = t.R(4080, 4110)
		}
		if n > len(p) {
			n = len(p)
		}
		out = append(out, p[:n])
		p = p[n:]
	}
	return out
}

// c30Text: without any escape sequence, the bytes are what must not change.
// c30Failing: output that cannot be written, or input that cannot be read, is not passed over.
func c30Failing(t *T) {
	exe, err := os.Executable()
	if err != nil {
		t.Inconclusive("%v", err)
	}
	name := t.Pick("to24bit", "decode")
	var args []string
	if name == "decode" && t.Bool() {
		args = []string{"-strip"}
	}
	p := c30Stream(t)
	if t.Bool() {
		p = []byte("some text"[:t.R(1, 9)])
	}
	cs := c30Chunks(t, p)
	run := func(stdin, stdout *os.File, what string) {
		cmd := exec.Command(filepath.Join(filepath.Dir(exe), "cmd", name), args...)
		var ebuf bytes.Buffer
		cmd.Stdin, cmd.Stdout, cmd.Stderr = stdin, stdout, &ebuf
		if err := cmd.Start(); err != nil {
			t.Inconclusive("%v", err)
		}
		kill := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
		defer kill.Stop()
		err := cmd.Wait()
		if !kill.Stop() {
			t.Fail("%s did not finish within 20 s %s", name, what)
		}
		var ee *exec.ExitError
		if err != nil && !errors.As(err, &ee) {
			t.Inconclusive("%v", err)
		}
		if err == nil {
			t.Fail("%s %q succeeded %s", name, args, what)
		}
		if ee.ExitCode() < 0 || ebuf.Len() == 0 {
			t.Fail("%s %q ended with %v %s, and said %q", name, args, err, what, ebuf.Bytes())
		}
		t.Count("failures_reported", 1)
	}
	if t.P(1, 4) {
		dir, err := os.Open("/")
		if err != nil {
			t.Inconclusive("%v", err)
		}
		defer dir.Close()
		null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
		if err != nil {
			t.Inconclusive("%v", err)
		}
		defer null.Close()
		run(dir, null, "reading a directory")
		t.Distinct("dir " + name)
		return
	}
	out, _ := pipeThrough(t, name, cs, args...)
	if len(out) == 0 {
		return // there is nothing that could fail
	}
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		t.Inconclusive("%v", err)
	}
	defer full.Close()
	r, w := rawPipe(t)
	go func() {
		defer w.Close()
		for _, c := range cs {
			if _, err := w.Write(c); err != nil {
				return
			}
		}
	}()
	run(r, full, fmt.Sprintf("writing %d bytes to a full device", len(out)))
	t.Distinct(fmt.Sprint(name, args, len(out)))
}

func c30Text(t *T) {
	var p []byte
	for n := t.R(1, 30); n > 0; n-- {
		switch t.N(5) {
		case 0:
			p = append(p, byte(0x80+t.N(0x80)))
		case 1:
			p = append(p, wideRunes[t.N(len(wideRunes))]...)
		case 2:
			p = append(p, string(rune(0xEF00+t.N(0x100)))...)
		case 3:
			p = append(p, t.Bytes(t.R(1, 3))...)
		default:
			p = append(p, "some text\r\n"[:t.R(1, 11)]...)
		}
	}
	for i := 0; i < len(p); i++ {
		if p[i] == 0x1B || p[i] == 0xC2 && i+1 < len(p) && 0x80 <= p[i+1] && p[i+1] <= 0x9F {
			p[i] = '.'
		}
	}
	cs := chunks(t.Rng, p)
	t.Logf("text %q in chunks %q", p, cs)
	out, _ := pipeThrough(t, "to24bit", cs)
	if !bytes.Equal(out, p) {
		t.Fail("text changed\n from %q\n to   %q", p, out)
	}
	t.Distinct(fmt.Sprint(len(cs), utf8.Valid(p), kindsOf(p, cs)))
}

func c30Decode(t *T, strip bool) {
	p := c30Stream(t)
	cs := c30Chunks(t, p)
	t.Logf("stream %.3000q in %d chunks %.3000q", p, len(cs), cs)
	var args []string
	if strip {
		args = []string{"-strip"}
	}
	out, errOut := pipeThrough(t, "decode", cs, args...)
	evs, held := refDecode(escapePUA(p), false)
	var want bytes.Buffer
	for _, e := range evs {
		ctl := e.id.IsEscape()
		switch e.id {
		case 0x90, 0x9D, 0x9E, 0x9F:
			ctl = true
		}
		switch attr, _, err := ansi.DecodeSGR([]byte(e.arg)); {
		case !ctl:
			want.WriteRune(rune(e.id))
		case strip:
		case e.id == ansi.SGR && err == nil:
			fmt.Fprintf(&want, "[ansi:SGR %v]", attr)
		case e.id == ansi.SGR:
			fmt.Fprintf(&want, "[ansi:SGR ERR:%v %q]", err, e.arg)
		case e.arg != "":
			fmt.Fprintf(&want, "[ansi:%v %q]", e.id, e.arg)
		default:
			fmt.Fprintf(&want, "[ansi:%v]", e.id)
		}
	}
	// NOTE private use runes inside string arguments are quoted, so compare
	// with them moved in their quoted form too
	got := quotedPUA(string(escapePUA(out)))
	if got != want.String() {
		t.Fail("reported %s\n want %.2000q\n got  %.2000q", firstDiff(want.String(), got), want.String(), got)
	}
	// what is left unfinished is reported apart
	const mark = "undecoded trailer content: "
	i := bytes.Index(errOut, []byte(mark))
	if len(held) == 0 {
		if len(errOut) > 0 {
			t.Fail("said %q", errOut)
		}
	} else if i < 0 {
		t.Fail("unfinished %q was not reported: %q", held, errOut)
	} else if s, err := strconv.Unquote(strings.TrimSpace(string(errOut[i+len(mark):]))); err != nil {
		t.Fail("unfinished %q was not reported as such: %q: %v", held, errOut, err)
	} else {
		a, _ := refDecode(held, true)
		b, _ := refDecode(escapePUA([]byte(s)), true)
		if d := diffEvs(a, b); d != "" {
			t.Fail("unfinished %q was reported as %q: %s", held, s, d)
		}
	}
	t.Count("items", len(evs))
	t.Distinct(kindsOf(p, cs))
	t.Sample("%.200q -> %.200q", cs, out)
}

var modeSeqs = regexp.MustCompile("\x1b\\[\\?[0-9;]*[hl]")

// escAtEnd tells of what may not be held until more arrives, since it may be
// the key: an ESC, with what may only continue it or is let through.
func escAtEnd(b []byte) bool {
	for i := len(b) - 1; i >= 0; i-- {
		if c := b[i]; c == 0x1b {
			return true
		} else if c == 0x18 || c == 0x1a || c >= 0x30 && c < 0x7f {
			return false
		}
	}
	return false
}

// c30Interactive: the decoding filter on a terminal.
func c30Interactive(t *T) {
	raw, mouse, alt := t.P(3, 4), t.P(1, 3), t.P(1, 3)
	var args []string
	for _, a := range []struct {
		on   bool
		name string
	}{{raw, "-raw"}, {mouse, "-mouse"}, {alt, "-alt"}} {
		if a.on {
			args = append(args, a.name)
		}
	}
	p := startProg(t, t.R(1, 40), t.R(1, 10), true, "decode", args...)
	p.all = &bytes.Buffer{}
	held := heldTermios(p.base, raw, !raw)
	up := func() {
		p.sees("holding the terminal", func() string { return termiosDiff(p.m.termios(), held) })
		p.sees("setting its modes", func() string {
			on := map[string]bool{}
			for _, q := range p.odd {
				if q = strings.Trim(q, `"`); strings.HasPrefix(q, `\x1b[?`) {
					for _, m := range strings.Split(q[6:len(q)-1], ";") {
						on[m] = strings.HasSuffix(q, "h")
					}
				}
			}
			for m, want := range map[string]bool{"1006": mouse, "1002": mouse, "1003": mouse, "1049": alt} {
				if on[m] != want {
					return fmt.Sprintf("mode %s is %v", m, on[m])
				}
			}
			return ""
		})
	}
	up()
	var in, want []byte
	desc := fmt.Sprint(args)
	settle := func() {
		p.sees("reporting everything", func() string {
			got := modeSeqs.ReplaceAll(p.all.Bytes(), nil)
			if string(got) == string(want) {
				return ""
			}
			return firstDiff(string(want), string(got))
		})
		t.Count("reports_compared", 1)
	}
	prior, done := ansi.Escape(0), false
	handle := func(e ev) {
		want = append(want, fmt.Sprintf("%U %v", e.id, e.id)...)
		if e.arg != "" {
			want = append(want, fmt.Sprintf(" %q", e.arg)...)
		}
		twice := e.id == prior
		hint := func(color, what string) {
			want = append(want, fmt.Sprintf(" \x1b[%sm<press Ctrl-%s>\x1b[0m", color, what)...)
		}
		switch e.id {
		case ansi.CSI('M'), ansi.CSI('m'):
			if st, pt, err := ansi.DecodeXtermExtendedMouse(e.id, []byte(e.arg)); err != nil {
				want = append(want, fmt.Sprintf(" mouse-err:%v", err)...)
			} else {
				want = append(want, fmt.Sprintf(" mouse-%v@%v", st, pt)...)
			}
		case 0x03:
			if twice {
				done = true
				return
			}
			hint("91", "C again to quit")
		case 0x0C:
			if twice {
				want = append(want, "\x1b[2J\x1b[H"...)
			} else {
				hint("93", "L again to quit")
			}
		case 0x1A:
			if twice {
				p.stopped()
				p.restored("decode suspended")
				settle()
				t.Count("suspensions", 1)
				p.odd = nil
				if err := syscall.Kill(p.pid, syscall.SIGCONT); err != nil {
					t.Inconclusive("cont: %v", err)
				}
				up()
				desc += " suspended"
			} else {
				hint("92", "Z again to suspend")
			}
		}
		prior = e.id
		want = append(want, "\r\n"...)
	}
	n := 0
	input := func(b []byte) {
		t.Logf("input %q", b)
		in = append(in, b...)
		if bytes.IndexByte(b, 0x1b) >= 0 && len(b) > 1 {
			p.atOnce(string(b))
		} else {
			p.input(b)
		}
		evs, _ := refDecode(in, false)
		for ; n < len(evs) && !done; n++ {
			handle(evs[n])
		}
		t.Count("items", len(evs))
	}
	if raw {
		input([]byte("x"))
		settle() // signals are handled from now on
	} else {
		p.input([]byte("x")) // and be echoed anywhere
		p.sees("reporting input", func() string {
			if b := p.all.String(); !strings.Contains(b, "U+0078 'x'\r\n") || !strings.HasSuffix(b, "\n") && !strings.HasSuffix(b, "\nx") {
				return fmt.Sprintf("%q", b)
			}
			return ""
		})
		p.all.Reset()
		prior = 'x'
	}
	for k := t.R(1, 8); k > 0 && !done; k-- {
		op := t.N(12)
		if !raw && op > 3 {
			op = t.N(4)
		}
		switch op {
		case 0, 1:
			settle()
			desc += " SIGINT"
			t.Logf("interrupt")
			syscall.Kill(p.pid, syscall.SIGINT)
			handle(ev{id: 0x03})
			if !done {
				settle()
			}
		case 2, 3:
			settle()
			p.w, p.h = t.R(1, 40), t.R(1, 10)
			if err := setWinsize(p.m.master, p.w, p.h); err != nil {
				t.Inconclusive("winsize: %v", err)
			}
			p.m.rd.resize(p.w, p.h)
			syscall.Kill(p.pid, syscall.SIGWINCH)
			want = append(want, fmt.Sprintf("[ resize size:(%d,%d) ]", p.w, p.h)...)
			settle()
			desc += " resize"
		case 4:
			settle()
			b := t.Pick("\x0c\x0c", "\x0c\x0c\x0c", "\x1a\x1a", "\x1a", "\x0cx\x0c", "\x1a\x0c\x1a", "\x03\x0c\x03")
			desc += fmt.Sprintf(" %q", b)
			if prior == 0x1a && b == "\x1a\x1a" { // each suspends
				input([]byte(b[:1]))
				b = b[1:]
			}
			input([]byte(b))
		case 5:
			b := fmt.Sprintf("\x1b[<%d;%d;%d%s", t.N(300), t.R(0, 300), t.R(0, 300), t.Pick("M", "m"))
			input([]byte(b))
			desc += " mouse"
		default:
			b := c30Stream(t)
			if len(b) > 1200 || bytes.ContainsAny(b, "\x03\x1a") || string(escapePUA(b)) != string(b) || exoticInESC(append(in[:len(in):len(in)], b...)) {
				continue
			}
			b = append(b, t.Pick("y", "\x1b[A", "é")...) // an ESC alone would be the key
			var cs [][]byte
			var c []byte
			for i, next := range chunks(t.Rng, b) {
				cs = append(cs, next)
				if c = append(c, next...); escAtEnd(c) {
					continue
				}
				input(c)
				if c = nil; i%7 == 6 || t.P(1, 3) {
					settle()
				}
			}
			desc += " " + kindsOf(b, cs)
		}
	}
	if !done {
		settle()
	}
	why, status := "", 1
	switch t.N(5) {
	case 0, 1:
		why = "goodbye"
		for !done {
			if raw && t.Bool() {
				input([]byte{3})
			} else {
				syscall.Kill(p.pid, syscall.SIGINT)
				handle(ev{id: 0x03})
			}
			if !done {
				settle()
			}
		}
	default:
		if why = "goodbye"; !done {
			sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGHUP}[t.N(2)]
			why = sigText[sig]
			status = 256 - int(sig)
			syscall.Kill(p.pid, sig)
		}
	}
	desc += " " + why
	if ec := p.wait(why); ec != status || !strings.Contains(p.err.String(), why) {
		t.Fail("decode ended with status %d, saying %q; expected %d, %q", ec, p.err.b, status, why)
	}
	settle()
	p.restored("decode ended")
	t.Sample("%s", desc)
	t.Distinct(desc)
}

func quotedPUA(s string) string {
	for i := 0; ; {
		j := strings.Index(s[i:], `\uef`)
		if j < 0 {
			return s
		}
		i += j
		if i+6 <= len(s) {
			if n, err := strconv.ParseUint(s[i+2:i+6], 16, 32); err == nil {
				q := escapePUA([]byte(string(rune(n))))
				r, _ := utf8.DecodeRune(q)
				s = s[:i] + fmt.Sprintf(`\u%04x`, r) + s[i+6:]
			}
		}
		i += 4
	}
}

func firstDiff(a, b string) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	lo := n - 20
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := n + 40
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("differs at byte %d: want ..%q got ..%q", n, cut(a), cut(b))
}
