package main

import (
	"fmt"
	"strings"

	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
)

func init() {
	register(&Prop{
		ID:   "C08",
		Rule: "all 256 state codes with both finals and random positions, directly and as events from a byte stream; malformed reports made by dropping, adding or corrupting arguments; non-trivial by (code, final, position) or the malformed argument",
		Assumptions: []string{
			"positions run from 1 to 2^31-1",
		},
		Subs: []Sub{
			{Name: "decode", Quick: 60000, Thorough: 3000000, Run: c08Decode},
			{Name: "malformed", Quick: 60000, Thorough: 2000000, Run: c08Malformed},
			{Name: "classify", Quick: 256, Thorough: 256, Run: c08Classify},
			{Name: "event", Quick: 20000, Thorough: 500000, Run: c08Event},
		},
	})
}

func c08Decode(t *T) {
	code := t.Idx % 256
	rel := t.Idx/256%2 == 1
	x, y := t.R(1, 1<<uint(t.R(1, 30))), t.R(1, 1<<uint(t.R(1, 30)))
	fin := byte('M')
	want := ansi.MouseState(code)
	if rel {
		fin = 'm'
		want |= 128
	}
	stream := fmt.Sprintf("\x1b[<%d;%d;%d%c", code, x, y, fin)
	e, a, n := ansi.DecodeEscape([]byte(stream + "tail"))
	if e != ansi.CSI(fin) || n != len(stream) {
		t.Fail("%q decodes as %v %q", stream, e, a)
	}
	ms, p, err := ansi.DecodeXtermExtendedMouse(e, a)
	if err != nil || ms != want || p != ansi.Pt(x, y) {
		t.Fail("%q decodes as state %d (%v) at %v, %v; want %d at (%d,%d)", stream, uint8(ms), ms, p, err, uint8(want), x, y)
	}
	if string(a) != fmt.Sprintf("<%d;%d;%d", code, x, y) {
		t.Fail("decoding changed the argument: %q", a)
	}
	t.Sample("%q %v", stream, ms)
	t.Distinct(fmt.Sprint(code, rel, x, y))
}

func c08Malformed(t *T) {
	num := func() string { return fmt.Sprint(t.R(1, 300)) }
	code := fmt.Sprint(t.N(256))
	var arg string
	switch t.N(11) {
	case 0:
		arg = "<" + fmt.Sprint(256+t.N(1<<uint(t.R(1, 40)))) + ";" + num() + ";" + num()
	case 1:
		arg = "<-" + fmt.Sprint(t.R(1, 300)) + ";" + num() + ";" + num()
	case 2:
		arg = "<" + code + ";" + num()
	case 3:
		arg = "<" + code
	case 4:
		arg = "<"
	case 5:
		arg = "<" + code + ";" + num() + ";" + num() + ";" + num()
	case 6:
		arg = "<" + code + ";" + num() + ";" + num() + t.Pick(";", "x", " ", ":1", "?", "<")
	case 7: // one argument missing
		f := []string{code, num(), num()}
		f[t.N(3)] = ""
		arg = "<" + strings.Join(f, ";")
	case 8:
		f := []string{code, num(), num()}
		f[t.N(3)] += t.Pick("x", ":", "?", " ", "<")
		arg = "<" + strings.Join(f, ";")
	case 9: // separators other than ';'
		arg = "<" + code + t.Pick(";", " ", "+", "-", ":", ",") + num() + t.Pick(";", "+", "-", ":") + num()
		if strings.Count(arg, ";") == 2 {
			arg = "<"
		}
	case 10:
		f := []string{code, num(), num()}
		f[t.R(1, 2)] = "99999999999" + num()
		arg = "<" + strings.Join(f, ";")
	}
	for _, c := range "Mm" {
		ms, p, err := ansi.DecodeXtermExtendedMouse(ansi.CSI(byte(c)), []byte(arg))
		if err == nil {
			t.Fail("malformed %q %c decodes as %v at %v without error", arg, c, ms, p)
		}
		if ms != 0 || p != ansi.ZP {
			t.Fail("malformed %q %c leaves state %v at %v besides the error", arg, c, ms, p)
		}
		if err.Error() == "" {
			t.Fail("empty error")
		}
		var es platform.Events
		es.DecodeBytes([]byte("\x1b[" + arg + string(c)))
		for id, k := range es.Type {
			if k == platform.EventMouse {
				t.Fail("malformed report %q %c became mouse event %v", arg, c, es.Mouse(id))
			}
		}
	}
	// not a mouse report at all
	for _, id := range []ansi.Escape{ansi.CSI('A'), ansi.CSI('M'), ansi.CSI('m')} {
		a := "1;2;3"
		if id == ansi.CSI('A') {
			a = "<1;2;3"
		}
		if ms, p, _ := ansi.DecodeXtermExtendedMouse(id, []byte(a)); ms != 0 || p != ansi.ZP {
			t.Fail("%v %q decodes as a mouse report: %v %v", id, a, ms, p)
		}
	}
	t.Distinct(arg)
}

// c08Classify: all states exhaustively.
func c08Classify(t *T) {
	n := t.Idx
	ms := ansi.MouseState(n)
	low, wheel, motion, release := n&3, n&64 != 0, n&32 != 0, n&128 != 0
	id := map[int]uint8{0: 1, 1: 2, 2: 3, 3: 0}[low]
	name := []string{"", "left", "middle", "right"}[id]
	if wheel {
		id = uint8(4 + low)
		name = []string{"wheelUp", "wheelDown", "thirdWheel", "fourthWheel"}[low]
	}
	if got := ms.ButtonID(); got != id {
		t.Fail("state %d has button %d, want %d", n, got, id)
	}
	if got := ms.ButtonName(); got != name && !(wheel && low >= 2 && got != "" && got != "left" && got != "middle" && got != "right" && got != "wheelUp" && got != "wheelDown") {
		t.Fail("state %d has button name %q, want %q", n, got, name)
	}
	if ms.IsMotion() != motion {
		t.Fail("state %d motion=%v", n, ms.IsMotion())
	}
	if ms.IsRelease() != release {
		t.Fail("state %d release=%v", n, ms.IsRelease())
	}
	pid, press := ms.IsPress()
	if press != (!motion && !release) || press && pid != id || !press && pid != 0 {
		t.Fail("state %d press=%v,%d", n, press, pid)
	}
	if drag := ms.IsDrag(); drag != (motion && !release && id != 0) {
		t.Fail("state %d drag=%v", n, drag)
	}
	if got := ms.Modifier(); int(got) != n&28 {
		t.Fail("state %d modifiers %d", n, got)
	}
	mn := ms.ModifierName()
	for bit, w := range map[int]string{4: "shift", 8: "meta", 16: "ctrl"} {
		if strings.Contains(mn, w) != (n&bit != 0) {
			t.Fail("state %d modifier name %q", n, mn)
		}
	}
	s := ms.String()
	if mn != "" && !strings.HasPrefix(s, mn+"+") || mn == "" && strings.Contains(s, "shift") {
		t.Fail("state %d description %q lacks its modifiers %q", n, s, mn)
	}
	body := strings.TrimPrefix(s, mn+"+")
	if name != "" && !strings.Contains(body, ms.ButtonName()) {
		t.Fail("state %d description %q does not name its button %q", n, s, name)
	}
	if strings.Contains(body, "release") != release || release == false && strings.Contains(body, "drag") != ms.IsDrag() {
		t.Fail("state %d description %q does not match release=%v drag=%v", n, s, release, ms.IsDrag())
	}
	if motion && !strings.Contains(body, "motion") && !strings.Contains(body, "drag") {
		t.Fail("state %d description %q does not tell its motion", n, s)
	}
	t.Distinct(fmt.Sprint(n))
}

func c08Event(t *T) {
	var stream []byte
	type rep struct {
		s ansi.MouseState
		p ansi.Point
	}
	var want []rep
	for n := t.R(1, 8); n > 0; n-- {
		if t.P(1, 3) {
			stream = append(stream, t.Pick("a", "\x1b[A", "世", "\x1bOP", "\r")...)
			continue
		}
		code, x, y, f := t.N(256), t.R(1, 400), t.R(1, 400), "Mm"[t.N(2)]
		stream = append(stream, fmt.Sprintf("\x1b[<%d;%d;%d%c", code, x, y, f)...)
		r := rep{ansi.MouseState(code), ansi.Pt(x, y)}
		if f == 'm' {
			r.s |= ansi.MouseRelease
		}
		want = append(want, r)
	}
	var es platform.Events
	es.DecodeBytes(append([]byte(nil), stream...))
	var got []rep
	for id, k := range es.Type {
		if k == platform.EventMouse {
			m := es.Mouse(id)
			got = append(got, rep{m.State, m.Point})
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fail("stream %q has mouse events %v, want %v", stream, got, want)
	}
	t.Count("mouse_events", len(got))
	t.Distinct(string(stream))
}
