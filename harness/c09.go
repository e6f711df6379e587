package main

import (
	"fmt"
	"image"
	"strconv"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:   "C09",
		Rule: "a random history of output elements is written to a virtual screen and to an independent terminal model, cells and cursor are compared after every element; non-trivial by (size, element kinds, sub-screen)",
		Assumptions: []string{
			"the documented subset wraps as soon as the last column is written, has no background colour erase, and all graphic runes take one column",
			"cell contents right after a resize are not specified (documented TODO)",
			"control strings end with ST (ECMA-48); the BEL ending of OSC is an xterm extension the decoder does not know",
		},
		Subs: []Sub{
			{Name: "history", Quick: 300000, Thorough: 3000000, Run: c09History},
			{Name: "scroll", Quick: 200, Thorough: 2000, Run: c09Scroll},
			{Name: "large", Quick: 400, Thorough: 40000, Run: large(c09History)},
			{Name: "tiny", Quick: 60000, Thorough: 500000, Run: c09Tiny},
		},
	})
}

// librScrolls tells whether the screen under test scrolls on a linefeed in its bottom row.
func librScrolls() bool {
	var vs anansi.VirtualScreen
	vs.Resize(image.Pt(3, 2))
	vs.WriteString("\x1b[2;1Hx\n")
	i, _ := vs.CellOffset(ansi.Pt(1, 1))
	return vs.Rune[i] == 'x'
}

// outTok makes one complete output element; kind names it.
func outTok(r *Rng, w, h int) (s, kind string) {
	num := func(hi int) string {
		switch r.N(12) {
		case 0:
			return ""
		case 1:
			return "0"
		case 2:
			return "00" + strconv.Itoa(r.N(hi+2))
		case 3:
			return strconv.Itoa(hi + r.N(40))
		case 4:
			return strconv.Itoa(r.N(1 << 31))
		default:
			return strconv.Itoa(r.N(hi + 2))
		}
	}
	switch r.N(26) {
	case 0, 1, 2, 3, 4, 5:
		for n := r.R(1, 6); n > 0; n-- {
			s += string(genCellRune(r))
		}
		return s, "t"
	case 6:
		for n := r.R(1, w+2); n > 0; n-- {
			s += string(rune('a' + r.N(26)))
		}
		return s, "l"
	case 7:
		return "\r", "r"
	case 8:
		return "\n", "n"
	case 9:
		return "\r\n", "N"
	case 10, 11, 12:
		s = num(w)
		if r.P(1, 8) {
			s += ";" + num(9)
		}
		return "\x1b[" + s + string("ABCD"[r.N(4)]), "m"
	case 13, 14, 15:
		switch r.N(6) {
		case 0:
			s = num(h)
		case 1:
			s = ";" + num(w)
		default:
			s = num(h) + ";" + num(w)
		}
		return "\x1b[" + s + "H", "p"
	case 16, 17:
		return "\x1b[" + r.Pick("", "0", "1", "2", "0", "1") + "J", "J"
	case 18, 19:
		return "\x1b[" + r.Pick("", "0", "1", "2", "0", "1") + "K", "K"
	case 20, 21:
		return "\x1b[" + genSGRCodes(r) + "m", "a"
	case 22:
		return r.Pick("\x1b[?25h", "\x1b[?25l", "\x1b[?7;25h", "\x1b[?25;12l"), "v"
	case 23: // malformed
		return r.Pick("\x1b[3J", "\x1b[?2J", "\x1b[22J", "\x1b[3K", "\x1b[?1K", "\x1b[!A", "\x1b[?3B", "\x1b[<1C", "\x1b[2 D", "\x1b[?1;1H", "\x1b[1;!H", "\x1b[2;2 H",
			"\x1b[38;5m", "\x1b[999m", "\x1b[?1m", "\x1b[38;2;1;2m", "\x1b[1;999;31m", "\x1b[48;7;1m", "\x1b[25h", "\x1b[25l", "\x1b[>25h", "\x1b[?h", "\x1b[>4;1m"), "x"
	case 24: // unsupported
		return r.Pick("\x1b[s", "\x1b[u", "\x1b[2L", "\x1b[1M", "\x1b[2P", "\x1b[3@", "\x1b[2X", "\x1b[6n", "\x1b[c", "\x1b[?1049h", "\x1b[?1006;1003l", "\x1b7", "\x1b8", "\x1b(B", "\x1b)0",
			"\x1b]2;x\x1b\\", "\x1bPq\r\nabc\x1b\\", "\x1b_a\nb\x1b\\", "\x1b^hi\x1b\\", "\x1b=", "\x1bc", "\x1b[5G", "\x1b[3d", "\x1b[2E", "\x1b[2F", "\x1b[2S", "\x1b[1;2r"), "u"
	default: // controls without effect in the subset
		return r.Pick("\a", "\b", "\t", "\v", "\f", "\x0e", "\x0f", "\x00", "\u200b", "\u00ad"), "c"
	}
}

// c09State compares a screen with the model.
func c09State(t *T, sc *anansi.Screen, m *rterm, what string) {
	x, y := sc.Cursor.X, sc.Cursor.Y
	if sc.Cursor.Point == ansi.ZP {
		x, y = m.x0, m.y0
	}
	if x != m.x || y != m.y {
		t.Fail("after %s: cursor at %d,%d, a terminal has it at %d,%d (bounds %v)", what, x, y, m.x, m.y, sc.Bounds())
	}
	if got := rendOf(sc.Cursor.Attr); got != m.cur {
		t.Fail("after %s: cursor attribute %v, a terminal has %+v", what, sc.Cursor.Attr, m.cur)
	}
	if sc.Cursor.Visible != m.vis {
		t.Fail("after %s: cursor visible=%v, a terminal has %v", what, sc.Cursor.Visible, m.vis)
	}
	if d := m.showing2(sc.Grid.Full()); d != "" {
		t.Fail("after %s: %s (bounds %v)", what, d, sc.Bounds())
	}
}

// showing2 compares all cells, even those outside of the model's bounds.
func (t *rterm) showing2(g anansi.Grid) string {
	if len(g.Rune) != len(t.cells) || len(g.Attr) != len(t.cells) {
		return fmt.Sprintf("grid has %d/%d cells, expected %d", len(g.Rune), len(g.Attr), len(t.cells))
	}
	for i := range g.Rune {
		want := rcell{g.Rune[i], rendOf(g.Attr[i])}
		if want.r == 0 {
			want.r = ' '
		}
		if t.cells[i] != want {
			return fmt.Sprintf("cell %d,%d is %q %+v, a terminal has %q %+v", i%t.w+1, i/t.w+1, want.r, want.a, t.cells[i].r, t.cells[i].a)
		}
	}
	return ""
}

func (t *rterm) adopt(g anansi.Grid) {
	for i := range g.Rune {
		r := g.Rune[i]
		if r == 0 {
			r = ' '
		}
		t.cells[i] = rcell{r, rendOf(g.Attr[i])}
	}
}

func c09Model(w, h int) *rterm {
	m := newRterm(w, h)
	m.immediate, m.noBCE, m.noScroll = true, true, !librScrolls()
	m.vis = false
	return m
}

func c09History(t *T) {
	w, h := t.size(1, 12, 1, 7)
	if t.P(1, 6) {
		w, h = t.R(1, 3), t.R(1, 3)
	}
	c09Run(t, w, h, t.R(1, 40))
}

func c09Tiny(t *T) { c09Run(t, 1+t.Idx%3, 1+t.Idx/3%3, t.R(1, 12)) }

func c09Run(t *T, w, h, n int) {
	var vs anansi.VirtualScreen
	vs.Resize(image.Pt(w, h))
	m := c09Model(w, h)
	kinds := fmt.Sprint(w, "x", h, ":")
	var full anansi.Screen // set while writing to a sub-screen
	for ; n > 0; n-- {
		what := ""
		switch k := t.N(30); {
		case k == 0: // place the cursor
			pt := ansi.Point{Point: image.Pt(t.N(w+4)-1, t.N(h+4)-1)}
			vs.To(pt)
			m.x, m.y = m.clampX(pt.X), m.clampY(pt.Y)
			what = fmt.Sprintf("To(%v)", pt)
			kinds += "T"
		case k == 1:
			a := genAttrAny(t.Rng)
			vs.WriteSGR(a)
			m.cur = rendOf(a)
			what = fmt.Sprintf("WriteSGR(%v)", a)
			kinds += "A"
		case k == 2 && t.P(1, 2): // clear
			vs.Clear()
			for y := m.y0; y <= m.y1; y++ {
				for x := m.x0; x <= m.x1; x++ {
					*m.at(x, y) = blankCell
				}
			}
			m.x, m.y, m.cur, m.vis = m.x0, m.y0, rend0, false
			what = "Clear()"
			kinds += "C"
		case k == 3 && t.P(1, 2) && full.Rune == nil: // resize
			w, h = t.size(1, 12, 1, 7)
			old := vs.Cursor
			changed := vs.Resize(image.Pt(w, h))
			if changed != (w != m.x1 || h != m.y1) {
				t.Fail("resize from %dx%d to %dx%d reported %v", m.x1, m.y1, w, h, changed)
			}
			if vs.Rect != ansi.Rect(1, 1, w+1, h+1) || vs.Stride != w {
				t.Fail("resized to %dx%d, bounds are %v, stride %d", w, h, vs.Rect, vs.Stride)
			}
			if changed {
				mm := c09Model(w, h)
				mm.cur, mm.vis = m.cur, m.vis
				if old.Point.In(vs.Bounds()) {
					mm.x, mm.y = old.X, old.Y
				}
				m = mm
				m.adopt(vs.Grid)
			}
			what = fmt.Sprintf("Resize(%d,%d)", w, h)
			kinds += "R"
		case k == 4 && t.P(1, 2): // enter or leave a sub-screen
			if full.Rune != nil {
				cur := vs.Cursor
				vs.Screen = vs.Screen.Full()
				if vs.Rect != full.Rect {
					t.Fail("full screen of a sub-screen has bounds %v, expected %v", vs.Rect, full.Rect)
				}
				vs.Cursor = cur
				full = anansi.Screen{}
				m.x0, m.y0, m.x1, m.y1 = 1, 1, w, h
				if vs.Cursor.Point == ansi.ZP {
					m.x, m.y = 1, 1
				}
				what = "Full()"
				kinds += "<"
			} else {
				full = vs.Screen
				at := ansi.Pt(t.R(1, w), t.R(1, h))
				sz := image.Pt(t.R(1, w+2), t.R(1, h+2))
				switch t.N(3) {
				case 0:
					vs.Screen = vs.Screen.SubRect(ansi.Rectangle{Min: at, Max: at.Add(sz)})
				case 1:
					sz = image.Pt(w, h)
					vs.Screen = vs.Screen.SubAt(at)
				default:
					at = ansi.Pt(1, 1)
					vs.Screen = vs.Screen.SubSize(sz)
				}
				m.x0, m.y0 = at.X, at.Y
				m.x1, m.y1 = clampi(at.X+sz.X-1, 1, w), clampi(at.Y+sz.Y-1, 1, h)
				if want := ansi.Rect(m.x0, m.y0, m.x1+1, m.y1+1); vs.Rect != want {
					t.Fail("sub-screen at %v size %v of %dx%d has bounds %v, expected %v", at, sz, w, h, vs.Rect, want)
				}
				m.x, m.y = m.clampX(full.Cursor.X), m.clampY(full.Cursor.Y)
				what = fmt.Sprintf("SubRect(%v)", vs.Rect)
				kinds += ">"
			}
		default:
			s, kd := outTok(t.Rng, w, h)
			writeChunk(t, &vs, []byte(s))
			m.Write([]byte(s))
			if !m.idle() {
				t.Inconclusive("model left %q unfinished", m.pbuf)
			}
			what = fmt.Sprintf("writing %q", s)
			kinds += kd
			t.Count("elements", 1)
		}
		t.Logf("%s -> %v", what, vs.Cursor)
		c09State(t, &vs.Screen, m, what)
		t.Count("states", 1)
	}
	t.Sample("%s -> %s", kinds, m)
	t.Distinct(kinds)
}

// c09Scroll decides what a linefeed on the bottom row does.
func c09Scroll(t *T) {
	w, h := t.size(2, 9, 1, 5)
	var vs anansi.VirtualScreen
	vs.Resize(image.Pt(w, h))
	m, keep := c09Model(w, h), c09Model(w, h)
	m.noScroll, keep.noScroll = false, true
	s := ""
	for y := 1; y <= h; y++ {
		s += fmt.Sprintf("\x1b[%d;%dH%s", y, t.R(1, w-1), string(rune('a'+t.N(26))))
	}
	s += fmt.Sprintf("\x1b[%d;1H\n", h)
	vs.WriteString(s)
	m.Write([]byte(s))
	keep.Write([]byte(s))
	t.Distinct(fmt.Sprint(w, h))
	if d := m.showing2(vs.Grid); d != "" {
		if keep.showing2(vs.Grid) == "" && vs.Cursor.Point == ansi.Pt(1, h) {
			t.FailKey("linefeed-on-bottom-row-does-not-scroll", "%dx%d: a linefeed on the bottom row left all rows where they were", w, h)
		}
		t.Fail("%dx%d after %q: %s", w, h, s, d)
	}
	t.Count("scrolled", 1)
}
