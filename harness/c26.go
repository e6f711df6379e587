package main

import (
	"fmt"
	"unicode"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
)

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "batches of typed characters, editing keys, cursor keys with counts, ignored controls, sequences and mouse reports given to an edit line in boxes of every width on a screen with prior content; text, state, consumed events, drawn cells and cursor compared with a slice of runes and an index; non-trivial by (box width, text length, cursor, keys)",
		Assumptions: []string{
			"text is made of single-width characters, and the box lies within the screen",
			"an empty box shows nothing; only the text is checked then",
		},
		Subs: []Sub{
			{Name: "edit", Quick: 30000, Thorough: 1500000, Run: c26Edit},
			{Name: "large-edit", Quick: 800, Thorough: 40000, Run: large(c26Edit)},
			{Name: "short", Quick: 7776, Thorough: 46656, Run: c26Short},
		},
	})
}

// lineModel is a text buffer with a cursor.
type lineModel struct {
	text  []rune
	cur   int
	state platform.EditLineState
}

// key applies one key, reporting whether it is one the editor understands.
func (m *lineModel) key(q qev) bool {
	if m.state != platform.EditLineReady {
		return false
	}
	switch q.kind {
	case platform.EventRune:
		switch r := rune(q.id); {
		case unicode.IsGraphic(r):
			m.text = append(m.text[:m.cur:m.cur], append([]rune{r}, m.text[m.cur:]...)...)
			m.cur++
		case r == '\r':
			m.state = platform.EditLineDone
		case r == 0x1B:
			m.state = platform.EditLineCanceled
		case r == 0x7F:
			if m.cur > 0 {
				m.text = append(m.text[:m.cur-1:m.cur-1], m.text[m.cur:]...)
				m.cur--
			}
		default:
			return false
		}
		return true
	case platform.EventEscape:
		dir := 0
		switch q.id {
		case ansi.CSI('A'), ansi.CSI('B'):
		case ansi.CSI('C'):
			dir = 1
		case ansi.CSI('D'):
			dir = -1
		default:
			return false
		}
		n := 1
		if q.arg != "" {
			fmt.Sscan(q.arg, &n)
		}
		m.cur += dir * n
		if m.cur < 0 {
			m.cur = 0
		}
		if m.cur > len(m.text) {
			m.cur = len(m.text)
		}
		return true
	}
	return false
}

type lineCase struct {
	t     *T
	m     lineModel
	edl   platform.EditLine
	ts    anansi.TermScreen
	es    platform.Events
	lastX ansi.Point
}

func (lc *lineCase) update(in string, box ansi.Rectangle, marks func(x, y int) rune) {
	t := lc.t
	ts := &lc.ts
	ts.Reset()
	for y := 1; y <= ts.Bounds().Dy(); y++ {
		for x := 1; x <= ts.Bounds().Dx(); x++ {
			i, _ := ts.CellOffset(ansi.Pt(x, y))
			ts.Grid.Rune[i] = marks(x, y)
		}
	}
	evs, _ := refDecode([]byte(in), true)
	qs := classifyAll(evs)
	es := &lc.es
	es.Clear()
	es.DecodeBytes([]byte(in))
	active := lc.m.state == platform.EditLineReady
	for i, q := range qs {
		qs[i].gone = lc.m.key(q)
	}
	lc.edl.Box = box
	t.Logf("%v update %q -> %q cursor %d state %d", box, in, string(lc.m.text), lc.m.cur, lc.m.state)
	lc.edl.Update(&platform.Context{Input: es, Output: ts})
	if lc.edl.State != lc.m.state {
		t.Fail("after %q the state is %d, want %d", in, lc.edl.State, lc.m.state)
	}
	if lc.edl.Active() != (lc.m.state == platform.EditLineReady) || lc.edl.Done() != (lc.m.state == platform.EditLineDone) || lc.edl.Canceled() != (lc.m.state == platform.EditLineCanceled) {
		t.Fail("state %d reported active=%v done=%v canceled=%v", lc.edl.State, lc.edl.Active(), lc.edl.Done(), lc.edl.Canceled())
	}
	if string(lc.edl.Buf) != string(lc.m.text) {
		t.Fail("after %q the text is %q, want %q", in, lc.edl.Buf, string(lc.m.text))
	}
	if lc.edl.Cur != lc.m.cur {
		t.Fail("after %q the cursor is at %d of %q, want %d", in, lc.edl.Cur, lc.edl.Buf, lc.m.cur)
	}
	if d := sameQueue(qs, es); d != "" {
		t.Fail("events left after %q: %s", in, d)
	}
	t.Count("keys", len(qs))

	w := box.Dx()
	shown := active && lc.m.state == platform.EditLineReady && w > 0
	view := 0
	if shown {
		uc := ts.UserCursor
		if !uc.Visible || uc.Y != box.Min.Y || uc.X < box.Min.X || uc.X >= box.Max.X {
			t.Fail("with %d of %q in %v the cursor is shown at %v (visible %v)", lc.m.cur, string(lc.m.text), box, uc.Point, uc.Visible)
		}
		view = lc.m.cur - (uc.X - box.Min.X)
		if view < 0 {
			t.Fail("with %d of %q in %v the cursor is shown at %v", lc.m.cur, string(lc.m.text), box, uc.Point)
		}
		if view > 0 && len(lc.m.text) < w {
			t.Fail("%q fits into %v but is shown from %d", string(lc.m.text), box, view)
		}
	}
	for y := 1; y <= ts.Bounds().Dy(); y++ {
		for x := 1; x <= ts.Bounds().Dx(); x++ {
			i, _ := ts.CellOffset(ansi.Pt(x, y))
			r := ts.Grid.Rune[i]
			want := marks(x, y)
			if shown && y == box.Min.Y && box.Min.X <= x && x < box.Max.X {
				if k := view + x - box.Min.X; k < len(lc.m.text) {
					want = lc.m.text[k]
				} else {
					continue // the rest of the box is the editor's
				}
			} else if w <= 0 && y == box.Min.Y {
				continue
			}
			if r != want {
				t.Fail("with %d of %q in %v (shown from %d) cell %d,%d shows %q, want %q", lc.m.cur, string(lc.m.text), box, view, x, y, r, want)
			}
		}
	}
}

func genKeys(t *T) string {
	switch t.N(14) {
	case 0, 1, 2, 3:
		return string(rune('a' + t.N(26)))
	case 4:
		return t.Pick("é", "ß", "Ж", "→", "¥", " ", "☃", "\uFFFD")
	case 5, 6:
		return "\x7f"
	case 7:
		return t.Pick("\x1b[D", "\x1b[C", "\x1b[D", "\x1b[C", "\x1b[A", "\x1b[B")
	case 8:
		return fmt.Sprintf("\x1b[%d%c", t.R(1, 12), "CD"[t.N(2)])
	case 9:
		return t.Pick("\x1b[99D", "\x1b[99C", "\x1b[2147483647C", "\x1b[2147483647D", "\x1b[007D")
	case 10:
		return t.Pick("\x01", "\t", "\n", "\x08", "\x00", "\x0c")
	case 11:
		return t.Pick("\x1b[H", "\x1b[3~", "\x1bOP", "\x1b[<0;3;4M", "\x1b[<0;3;4m", "\x1b]0;x\x1b\\")
	default:
		s := ""
		for k := t.R(1, 12); k > 0; k-- {
			s += string(rune('a' + t.N(26)))
		}
		return s
	}
}

func c26Edit(t *T) {
	lc := &lineCase{t: t}
	W, H := t.size(1, 24, 1, 4)
	H = min(H, 8)
	lc.ts.Resize(imgPt(W, H))
	boxOf := func() ansi.Rectangle {
		x := t.R(1, W)
		y := t.R(1, H)
		w := t.R(0, W-x+1)
		if t.P(3, 4) && w == 0 {
			w = 1
		}
		return ansi.Rect(x, y, x+w, y+1)
	}
	box := boxOf()
	mk := func(x, y int) rune { return rune('A' + (x*7+y*3)%26) }
	if t.Bool() {
		mk = func(x, y int) rune { return 0 }
	}
	key := ""
	for k := t.R(1, 15); k > 0; k-- {
		if t.P(1, 12) {
			box = boxOf()
		}
		in := ""
		n := t.R(0, 4)
		if t.large && t.P(1, 2) {
			n = t.R(5, 300)
		}
		for j := n; j > 0; j-- {
			in += genKeys(t)
		}
		if t.P(1, 20) {
			in += t.Pick("\r", "\x1b", "\r\r", "\rx", "\r\x7f", "\x1b ")
			if t.Bool() {
				in += genKeys(t)
			}
		}
		if exoticInESC([]byte(in)) {
			continue
		}
		lc.update(in, box, mk)
		key += fmt.Sprint(box.Dx(), len(lc.m.text), lc.m.cur, lc.m.state, ";")
		if lc.m.state != platform.EditLineReady && t.P(2, 3) {
			lc.edl.Reset()
			lc.m = lineModel{}
			if lc.edl.Cur != 0 || len(lc.edl.Buf) != 0 || !lc.edl.Active() {
				t.Fail("Reset leaves %q %d", lc.edl.Buf, lc.edl.Cur)
			}
		}
	}
	t.Sample("%s", key)
	t.Distinct(key)
}

// c26Short: every sequence of a few key kinds, one key per update, in boxes
// of widths 1 to 6.
func c26Short(t *T) {
	keys := []string{"a", "é", "\x7f", "\x1b[D", "\x1b[C", "bcd"}
	lc := &lineCase{t: t}
	lc.ts.Resize(imgPt(9, 3))
	n := t.Idx
	w := n%6 + 1
	n /= 6
	depth := 4
	if t.Thorough {
		depth = 5
	}
	mk := func(x, y int) rune { return '.' }
	s := ""
	lc.update("xyz", ansi.Rect(2, 2, 2+w, 3), mk)
	for k := 0; k < depth; k++ {
		in := keys[n%6]
		n /= 6
		s += in + " "
		lc.update(in, ansi.Rect(2, 2, 2+w, 3), mk)
	}
	t.Distinct(fmt.Sprint(w, s))
}
