package main

import (
	"bytes"
	"fmt"
	"image"
	"io"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:   "C10",
		Rule: "a history of frames is drawn on a real ScreenDiffer, every flush's bytes are interpreted by an independent xterm-like terminal whose cells and cursor are compared with the virtual screen; non-trivial by (size, operations per frame)",
		Assumptions: []string{
			"cells hold single-width graphic runes (double-width and control runes are documented TODOs)",
			"the terminal starts with default attributes; its content, cursor position and visibility are arbitrary",
		},
		Subs: []Sub{
			{Name: "frames", Quick: 150000, Thorough: 2500000, Run: c10Frames},
			{Name: "tiny", Quick: 30000, Thorough: 800000, Run: c10Tiny},
			{Name: "pairs", Quick: 100000, Thorough: 1500000, Run: c10Pairs},
			{Name: "update", Quick: 30000, Thorough: 1000000, Run: c10Update},
			{Name: "styled", Quick: 30000, Thorough: 1000000, Run: c10Styled},
			{Name: "large", Quick: 200, Thorough: 20000, Run: large(c10Frames)},
			{Name: "large-pairs", Quick: 200, Thorough: 20000, Run: large(c10Pairs)},
			{Name: "large-update", Quick: 100, Thorough: 10000, Run: large(c10Update)},
			{Name: "large-styled", Quick: 100, Thorough: 10000, Run: large(c10Styled)},
		},
	})
}

// onlyWriter hides everything but Write.
type onlyWriter struct{ w io.Writer }

func (o onlyWriter) Write(p []byte) (int, error) { return o.w.Write(p) }

// garbage fills the terminal with leftovers.
func (t *rterm) garbage(r *Rng) {
	for i := range t.cells {
		if r.P(2, 3) {
			t.cells[i] = rcell{genCellRune(r), rendOf(genAttrAny(r))}
		}
	}
	t.x, t.y = r.R(1, t.x1), r.R(1, t.y1)
	t.pend = t.x == t.x1 && r.Bool()
}

// drawOps changes a screen differ's virtual screen in a random way.
func drawOps(t *T, sc *anansi.ScreenDiffer, w, h int, pal []ansi.SGRAttr) (what string) {
	attr := func() ansi.SGRAttr {
		if t.P(1, 3) {
			return 0
		}
		return pal[t.N(len(pal))]
	}
	for n := t.N(4); n >= 0; n-- {
		switch t.N(14) {
		case 0: // nothing
		case 1:
			sc.Clear()
			what += "C"
			if t.large && t.P(2, 3) { // fill it
				for i := range sc.Rune {
					sc.Rune[i], sc.Attr[i] = genCellRune(t.Rng), attr()
				}
				what += "F"
			}
		case 2, 3: // edit cells
			for k := t.R(1, 5); k > 0; k-- {
				i := t.N(w * h)
				switch t.N(5) {
				case 0:
					sc.Rune[i], sc.Attr[i] = 0, 0
				case 1:
					sc.Rune[i], sc.Attr[i] = ' ', attr()
				case 2:
					sc.Rune[i], sc.Attr[i] = 0, attr()
				case 3:
					sc.Attr[i] = attr()
				default:
					sc.Rune[i], sc.Attr[i] = genCellRune(t.Rng), attr()
				}
			}
			what += "e"
		case 4: // a column
			x := t.R(1, w)
			for y := 1; y <= h; y++ {
				if i, ok := sc.CellOffset(ansi.Pt(x, y)); ok && t.P(3, 4) {
					sc.Rune[i], sc.Attr[i] = genCellRune(t.Rng), attr()
				}
			}
			what += "c"
		case 5: // the last column, or just the corner
			y0 := t.R(1, h)
			for y := y0; y <= h; y++ {
				if i, ok := sc.CellOffset(ansi.Pt(w, y)); ok {
					sc.Rune[i], sc.Attr[i] = genCellRune(t.Rng), attr()
				}
			}
			what += "r"
		case 6, 7: // text through the emulation
			sc.To(ansi.Pt(t.R(1, w), t.R(1, h)))
			for k := t.R(1, 4); k > 0; k-- {
				s, _ := outTok(t.Rng, w, h)
				sc.WriteString(s)
			}
			what += "t"
		case 8:
			sc.To(ansi.Pt(t.R(1, w), t.R(1, h)))
			sc.WriteSGR(attr())
			for k := t.R(1, 5); k > 0; k-- {
				sc.WriteRune(genCellRune(t.Rng))
			}
			what += "s"
		case 9: // draw another grid into a part
			var g anansi.Grid
			g.Resize(image.Pt(t.R(1, w), t.R(1, h)))
			for i := range g.Rune {
				g.Rune[i], g.Attr[i] = genCellRune(t.Rng), attr()
			}
			anansi.DrawGrid(sc.Grid.SubAt(ansi.Pt(t.R(1, w), t.R(1, h))), g)
			what += "g"
		case 10: // an unfinished sequence or rune
			sc.WriteString(t.Pick("\x1b", "\x1b[", "\x1b[3", "\xe2\x94", "\x1b]0;x", "\x1b[38;5;"))
			what += "p"
		case 11: // scroll the content up or down
			if h > 1 {
				up, down := sc.Grid.SubAt(ansi.Pt(1, 2)), sc.Grid.SubSize(image.Pt(w, h-1))
				if t.Bool() {
					up, down = down, up
				}
				anansi.DrawGrid(up, down)
				what += "S"
			}
		case 12: // user cursor
			sc.UserCursor.Point = ansi.Pt(t.R(1, w), t.R(1, h))
			sc.UserCursor.Visible = t.P(4, 5)
			sc.UserCursor.Attr = attr()
			if t.P(1, 6) {
				sc.UserCursor.Point = ansi.ZP
			}
			what += "u"
		case 13:
			sc.UserCursor.Visible = !sc.UserCursor.Visible
			what += "v"
		}
	}
	return what
}

func genPal(r *Rng) (pal []ansi.SGRAttr) {
	for n := r.R(1, 4); n > 0; n-- {
		a := genAttrAny(r)
		if len(pal) > 0 && r.Bool() {
			a = mutateAttr(r, pal[0])
		}
		if r.P(1, 12) {
			a |= ansi.SGRAttrClear
		}
		pal = append(pal, a)
	}
	return pal
}

// checkShown is the oracle of C10 and C11: the terminal shows the screen and user cursor.
func checkShown(t *T, m *rterm, g anansi.Grid, uc anansi.Cursor, what string) {
	if !m.idle() {
		t.Fail("%s: output ended within a sequence: %q", what, m.pbuf)
	}
	if len(m.odd) > 0 {
		t.Fail("%s: the terminal was sent something it does not understand: %s", what, m.odd)
	}
	if m.scrolled > 0 {
		t.Fail("%s: the terminal was made to scroll", what)
	}
	if d := m.showing(g); d != "" {
		t.Fail("%s: %s\n terminal %s", what, d, m)
	}
	if uc.Visible && uc.Point.Valid() {
		if !m.vis {
			t.Fail("%s: user cursor is not shown", what)
		}
		x, y := m.clampX(uc.X), m.clampY(uc.Y)
		if m.x != x || m.y != y || m.pend {
			t.Fail("%s: cursor shown at %d,%d (pending wrap %v), expected at %d,%d", what, m.x, m.y, m.pend, x, y)
		}
		if m.cur != rendOf(uc.Attr) {
			t.Fail("%s: cursor shown with %+v, expected %v", what, m.cur, uc.Attr)
		}
	} else if m.vis {
		t.Fail("%s: cursor is shown, expected it hidden", what)
	}
}

func copyGrid(g anansi.Grid) anansi.Grid {
	g.Rune = append([]rune(nil), g.Rune...)
	g.Attr = append([]ansi.SGRAttr(nil), g.Attr...)
	return g
}

// blankOf normalises a cell to what it looks like.
func looksOf(g anansi.Grid, i int) rcell {
	c := rcell{g.Rune[i], rendOf(g.Attr[i])}
	if c.r == 0 {
		c.r = ' '
	}
	return c
}

func c10Frames(t *T) {
	w, h := t.size(1, 14, 1, 8)
	c10Run(t, w, h, t.R(1, 12))
}

func c10Tiny(t *T) { c10Run(t, 1+t.Idx%3, 1+t.Idx/3%3, t.R(1, 10)) }

func c10Run(t *T, w, h, frames int) {
	var sc anansi.ScreenDiffer
	m := newRterm(w, h)
	m.noBCE = t.P(1, 3)
	m.vis = t.Bool()
	m.garbage(t.Rng)
	sc.Resize(image.Pt(w, h))
	pal := genPal(t.Rng)
	kinds := fmt.Sprint(w, "x", h)
	var last anansi.Grid
	full := true // no update has been flushed since the last resize or invalidation
	for ; frames > 0; frames-- {
		what := "/"
		switch t.N(12) {
		case 0:
			w, h = t.size(1, 14, 1, 8)
			changed := m.x1 != w || m.y1 != h
			m.resize(w, h)
			if changed {
				full = true
				if t.Bool() {
					m.garbage(t.Rng) // reflowed in some way
				}
			}
			sc.Resize(image.Pt(w, h))
			what += "R"
		case 1: // something else wrote to the terminal
			sc.Invalidate()
			m.garbage(t.Rng)
			full = true
			what += "I"
		case 2:
			sc.Reset()
			what += "Z"
		}
		what += drawOps(t, &sc, w, h, pal)
		if t.P(1, 8) {
			sc.UserCursor.Point = ansi.Pt(t.R(1, w+2), t.R(1, h+2))
		}
		kinds += what
		want, uc := copyGrid(sc.Grid), sc.UserCursor
		same, changed := !full, 0
		if !full {
			for i := range want.Rune {
				if looksOf(want, i) != looksOf(last, i) || want.Attr[i] != last.Attr[i] {
					same = false
					changed++
				}
			}
		}
		wrote, erases := m.wrote, m.erases
		var out bytes.Buffer
		var n int64
		var err error
		if t.P(1, 4) {
			var buf anansi.Buffer
			n, err = sc.WriteTo(&buf)
			out.Write(buf.Bytes())
		} else {
			n, err = sc.WriteTo(onlyWriter{&out})
		}
		t.Logf("%s: flush %q, user cursor %v", what, out.Bytes(), uc)
		if err != nil || int(n) != out.Len() {
			t.Fail("flush of %d bytes returned %d, %v", out.Len(), n, err)
		}
		m.shown = 0
		vis := m.vis
		m.Write(out.Bytes())
		checkShown(t, m, want, uc, "frame "+what)
		if vis && m.shown == 0 && m.vis && m.wrote > wrote {
			t.Fail("cells were painted with the cursor visible: %q", out.Bytes())
		}
		if same && (m.wrote != wrote || m.erases != erases) {
			t.Fail("nothing changed, yet %d cells were painted and %d erases done: %q", m.wrote-wrote, m.erases-erases, out.Bytes())
		}
		if !full && (m.wrote-wrote > changed || m.erases != erases) {
			t.Fail("%d cells changed, yet %d cells were painted and %d erases done: %q", changed, m.wrote-wrote, m.erases-erases, out.Bytes())
		}
		for i := range want.Rune {
			if sc.Rune[i] != want.Rune[i] || sc.Attr[i] != want.Attr[i] {
				t.Fail("flushing changed the virtual screen at cell %d", i)
			}
		}
		last, full = want, false
		t.Count("frames", 1)
		t.Count("cells_painted", m.wrote-wrote)
		t.Count("relative_or_absolute_moves", m.moves)
		m.moves = 0
	}
	t.Sample("%s -> %s", kinds, m)
	t.Distinct(kinds)
}

// c10Pairs: every combination of last painted cell and next painted cell matters
// for cursor motion, with the user cursor between.
func c10Pairs(t *T) {
	w, h := t.size(1, 6, 1, 5)
	var sc anansi.ScreenDiffer
	sc.Resize(image.Pt(w, h))
	m := newRterm(w, h)
	key := ""
	for k := 0; k < 6; k++ {
		for n := t.R(1, 2); n > 0; n-- {
			i := t.N(w * h)
			sc.Rune[i] = rune('a' + t.N(26))
			key += fmt.Sprint(i, ",")
		}
		if t.P(1, 3) {
			sc.UserCursor = anansi.Cursor{Point: ansi.Pt(t.R(1, w), t.R(1, h)), Visible: true}
			key += fmt.Sprint("@", sc.UserCursor.Point)
		}
		want, uc := copyGrid(sc.Grid), sc.UserCursor
		var out bytes.Buffer
		sc.WriteTo(onlyWriter{&out})
		t.Logf("%q", out.Bytes())
		m.Write(out.Bytes())
		checkShown(t, m, want, uc, "frame "+key)
		t.Count("frames", 1)
	}
	t.Distinct(fmt.Sprint(w, "x", h, key))
}

// c10Update: Screen.Update with the caller keeping the prior screen.
func c10Update(t *T) {
	w, h := t.size(1, 10, 1, 6)
	m := newRterm(w, h)
	m.noBCE = t.Bool()
	m.garbage(t.Rng)
	var prior anansi.Screen
	pal := genPal(t.Rng)
	kinds := fmt.Sprint(w, "x", h)
	var sc anansi.ScreenDiffer
	sc.Resize(image.Pt(w, h))
	for k := t.R(1, 8); k > 0; k-- {
		if t.P(1, 10) {
			if t.Bool() {
				w, h = h, w // the same number of cells
			} else {
				w, h = t.size(1, 10, 1, 6)
			}
			changed := w != m.x1 || h != m.y1
			sc.Resize(image.Pt(w, h))
			m.resize(w, h)
			if changed && t.Bool() {
				m.garbage(t.Rng) // reflowed in some way
			}
			if t.Bool() {
				prior.Resize(image.ZP)
			} else {
				prior.Cursor.Point = ansi.ZP // but its size tells
			}
		}
		kinds += "/" + drawOps(t, &sc, w, h, pal)
		next := anansi.Screen{Grid: copyGrid(sc.Grid), Cursor: sc.UserCursor}
		var out bytes.Buffer
		var w io.Writer = &out
		if t.Bool() {
			w = onlyWriter{&out}
		}
		n, now, err := next.Update(w, prior)
		if err != nil || n != out.Len() {
			t.Fail("update of %d bytes returned %d, %v", out.Len(), n, err)
		}
		t.Logf("%q", out.Bytes())
		m.Write(out.Bytes())
		checkShown(t, m, next.Grid, next.Cursor, "update "+kinds)
		if d := m.showing(now.Grid); d != "" {
			t.Fail("the state returned by an update differs from the terminal: %s", d)
		}
		if c := now.Cursor; c.Point.Valid() && (c.X != m.x || c.Y != m.y || m.pend) {
			t.Fail("the cursor returned by an update is %v, the terminal has it at %d,%d (pending wrap %v)", c, m.x, m.y, m.pend)
		}
		prior = now
		t.Count("updates", 1)
	}
	t.Distinct(kinds)
}

// c10Styled: a grid written with styles looks like the styles' results.
func c10Styled(t *T) {
	w, h := t.size(1, 8, 1, 5)
	m := newRterm(w, h)
	var prior anansi.Screen // the grid last written, with the same styles
	var styles []anansi.Style
	names := ""
	at := genAttrAny(t.Rng)
	for k := t.pickInt(0, 1, 1, 2, 3); k > 0; k-- {
		switch t.N(5) {
		case 0:
			styles, names = append(styles, anansi.FillRuneStyle('.')), names+" fill ."
		case 1:
			styles, names = append(styles, anansi.FillRuneStyle(' ')), names+" fill space"
		case 2:
			styles, names = append(styles, anansi.AttrStyle(at)), names+" attr"
		case 3:
			styles, names = append(styles, anansi.ZeroRuneStyle("x "[t.N(2)])), names+" zero"
		case 4:
			styles, names = append(styles, anansi.DefaultRuneStyle('d')), names+" default"
		}
	}
	for k := t.R(1, 4); k > 0; k-- {
		var g anansi.Grid
		g.Resize(image.Pt(w, h))
		for i := range g.Rune {
			if t.P(3, 4) {
				g.Rune[i] = []rune{'x', 'y', 'z', ' '}[t.N(4)]
				if t.Bool() {
					g.Attr[i] = genAttrAny(t.Rng)
				}
			}
		}
		want := copyGrid(g)
		for i := range want.Rune {
			pt := ansi.Pt(i%w+1, i/w+1)
			for _, s := range styles {
				want.Rune[i], want.Attr[i] = s.Style(pt, 0, want.Rune[i], 0, want.Attr[i])
			}
		}
		var out bytes.Buffer
		n, now, err := anansi.WriteGrid(&out, g, prior, styles...)
		if err != nil || n != out.Len() {
			t.Fail("write of %d bytes returned %d, %v", out.Len(), n, err)
		}
		t.Logf("styles %s: %q", names, out.Bytes())
		m.Write(out.Bytes())
		if d := m.showing(want); d != "" {
			t.Fail("grid written with styles %s over %v: %s\n terminal %s", names, prior.Rect, d, m)
		}
		if m.scrolled > 0 || len(m.odd) > 0 || !m.idle() {
			t.Fail("grid written with styles %s: scrolled %d, not understood %s, unfinished %q", names, m.scrolled, m.odd, m.pbuf)
		}
		if c := now.Cursor; c.Point.Valid() && (c.X != m.x || c.Y != m.y || m.pend) {
			t.Fail("the cursor returned by WriteGrid is %v, the terminal has it at %d,%d (pending wrap %v)", c, m.x, m.y, m.pend)
		}
		prior.Cursor = now.Cursor
		if len(styles) == 0 && t.P(3, 4) { // a differential write takes the prior content as is
			prior.Grid = g
		} else {
			prior.Grid = anansi.Grid{}
		}
		t.Distinct(fmt.Sprint(w, "x", h, names, string(g.Rune)))
		t.Count("grids", 1)
	}
}
