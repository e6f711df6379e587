package main

import (
	"fmt"
	"image"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

// rcell is one cell of the reference terminal; a blank cell has rune ' '.
type rcell struct {
	r rune
	a rend
}

var blankCell = rcell{' ', rend0}

// rterm is the reference terminal: an independent interpreter of output bytes
// that behaves like xterm (pending wrap in the last column, scrolling, erasing
// with the background colour) or, with its knobs set, like the library's own
// documented emulation subset.
type rterm struct {
	x0, y0, x1, y1 int // inclusive bounds, 1-based
	w              int // of the cell array
	cells          []rcell
	x, y           int
	pend           bool
	cur            rend
	vis            bool

	immediate bool // wraps right after writing the last column
	noScroll  bool // a linefeed on the bottom row does nothing
	noBCE     bool // erases to default attributes

	pbuf     []byte // unfinished sequence or rune
	wrote    int    // cells written
	erases   int
	scrolled int
	shown    int // times the cursor was shown
	moves    int
	odd      []string // sequences not understood
}

func newRterm(w, h int) *rterm {
	t := &rterm{x0: 1, y0: 1, x1: w, y1: h, w: w, x: 1, y: 1, cur: rend0, vis: true}
	t.cells = make([]rcell, w*h)
	for i := range t.cells {
		t.cells[i] = blankCell
	}
	return t
}

// resize changes the size like a terminal emulator: content anchored top-left
// is kept where it fits.
func (t *rterm) resize(w, h int) {
	nc := make([]rcell, w*h)
	for i := range nc {
		nc[i] = blankCell
	}
	for y := 1; y <= h && y <= t.y1; y++ {
		for x := 1; x <= w && x <= t.x1; x++ {
			nc[(y-1)*w+x-1] = *t.at(x, y)
		}
	}
	t.cells, t.w, t.x1, t.y1 = nc, w, w, h
	t.x, t.y = t.clampX(t.x), t.clampY(t.y)
	t.pend = false
}

func (t *rterm) at(x, y int) *rcell { return &t.cells[(y-1)*t.w+x-1] }
func clampi(v, lo, hi int) int {
	if v > hi {
		v = hi
	}
	if v < lo {
		v = lo
	}
	return v
}
func (t *rterm) clampX(x int) int { return clampi(x, t.x0, t.x1) }
func (t *rterm) clampY(y int) int { return clampi(y, t.y0, t.y1) }

func (t *rterm) erased() rcell {
	c := blankCell
	if !t.noBCE {
		c.a.bg = t.cur.bg
	}
	return c
}

func (t *rterm) lf() {
	if t.y < t.y1 {
		t.y++
		return
	}
	if t.noScroll {
		return
	}
	t.scrolled++
	for y := t.y0; y < t.y1; y++ {
		for x := t.x0; x <= t.x1; x++ {
			*t.at(x, y) = *t.at(x, y+1)
		}
	}
	for x := t.x0; x <= t.x1; x++ {
		*t.at(x, t.y1) = t.erased()
	}
}

func (t *rterm) put(r rune) {
	if t.pend {
		t.pend = false
		t.x = t.x0
		t.lf()
	}
	*t.at(t.x, t.y) = rcell{r, t.cur}
	t.wrote++
	switch {
	case t.x < t.x1:
		t.x++
	case t.immediate:
		t.x = t.x0
		t.lf()
	default:
		t.pend = true
	}
}

// nums parses a parameter list; false if it has anything but numbers.
func nums(arg string, min int) ([]int, bool) {
	ns := make([]int, 0, 4)
	for _, s := range strings.Split(arg, ";") {
		n := 0
		if s != "" {
			if strings.Trim(s, "0123456789") != "" {
				return nil, false
			}
			var err error
			if n, err = strconv.Atoi(s); err != nil || n > 1<<32-1 {
				return nil, false
			}
		}
		ns = append(ns, n)
	}
	for len(ns) < min {
		ns = append(ns, 0)
	}
	return ns, true
}

func or1(n int) int {
	if n == 0 {
		return 1
	}
	return n
}

func (t *rterm) csi(fin byte, arg string) bool {
	switch fin {
	case 'A', 'B', 'C', 'D', 'H':
		ns, ok := nums(arg, 2)
		if !ok {
			return false
		}
		t.moves++
		t.pend = false
		switch n := or1(ns[0]); fin {
		case 'A':
			t.y = t.clampY(t.y - n)
		case 'B':
			t.y = t.clampY(t.y + n)
		case 'C':
			t.x = t.clampX(t.x + n)
		case 'D':
			t.x = t.clampX(t.x - n)
		case 'H':
			t.y, t.x = t.clampY(n), t.clampX(or1(ns[1]))
		}
	case 'J', 'K':
		lx, ly, hx, hy := t.x0, t.y0, t.x1, t.y1
		if fin == 'K' {
			ly, hy = t.y, t.y
		}
		switch arg {
		case "", "0":
			lx, ly = t.x, t.y
		case "1":
			hx, hy = t.x, t.y
		case "2":
		default:
			return false
		}
		t.erases++
		for y := ly; y <= hy; y++ {
			for x := t.x0; x <= t.x1; x++ {
				if (y > ly || x >= lx) && (y < hy || x <= hx) {
					*t.at(x, y) = t.erased()
				}
			}
		}
	case 'm':
		c := t.cur
		if !c.apply(arg) {
			return false
		}
		t.cur = c
	case 'h', 'l':
		if !strings.HasPrefix(arg, "?") {
			return false
		}
		ns, ok := nums(arg[1:], 1)
		if !ok {
			return false
		}
		known := true
		for _, n := range ns {
			if n == 25 {
				t.vis = fin == 'h'
				if t.vis {
					t.shown++
				}
			} else {
				known = false
			}
		}
		return known
	default:
		return false
	}
	return true
}

// Write interprets output; unfinished sequences are kept for the next write.
func (t *rterm) Write(p []byte) (int, error) {
	t.pbuf = append(t.pbuf, p...)
	b := t.pbuf
	for len(b) > 0 {
		n := t.step(b)
		if n == 0 {
			break
		}
		b = b[n:]
	}
	t.pbuf = append(t.pbuf[:0], b...)
	return len(p), nil
}

// idle tells whether the terminal is not in the middle of a sequence.
func (t *rterm) idle() bool { return len(t.pbuf) == 0 }

func (t *rterm) step(b []byte) int {
	switch c := b[0]; {
	case c == 0x1B:
		return t.esc(b)
	case c == '\r':
		t.x, t.pend = t.x0, false
		return 1
	case c == '\n':
		t.lf()
		return 1
	case c < 0x20 || c == 0x7F:
		t.odd = append(t.odd, fmt.Sprintf("%q", c))
		return 1
	}
	if !utf8.FullRune(b) {
		// an ESC (or anything else) following an unfinished rune cuts it
		return 0
	}
	r, n := utf8.DecodeRune(b)
	if unicode.IsGraphic(r) {
		t.put(r)
	} else {
		t.odd = append(t.odd, fmt.Sprintf("%q", r))
	}
	return n
}

func (t *rterm) esc(b []byte) int {
	if len(b) < 2 {
		return 0
	}
	switch b[1] {
	case '[':
		for i := 2; i < len(b); i++ {
			switch c := b[i]; {
			case c == 0x1B: // cancelled
				return i
			case c == 0x18 || c == 0x1A:
				return i + 1
			case 0x40 <= c && c <= 0x7E:
				if !t.csi(c, string(b[2:i])) {
					t.odd = append(t.odd, fmt.Sprintf("%q", b[:i+1]))
				}
				return i + 1
			}
		}
		return 0
	case 'P', ']', '^', '_', 'X':
		for i := 2; i < len(b); i++ {
			switch {
			case b[i] == 0x07 && b[1] == ']':
				return i + 1
			case b[i] == 0x1B && i+1 < len(b):
				if b[i+1] == '\\' {
					return i + 2
				}
				return i
			case b[i] == 0x18 || b[i] == 0x1A:
				return i + 1
			}
		}
		return 0
	case 0x1B:
		return 1
	}
	i := 1
	for i < len(b) && 0x20 <= b[i] && b[i] <= 0x2F {
		i++
	}
	if i >= len(b) {
		return 0
	}
	if b[i] == 0x1B {
		return i
	}
	t.odd = append(t.odd, fmt.Sprintf("%q", b[:i+1]))
	return i + 1
}

// showing compares what the terminal shows with a grid's cells.
func (t *rterm) showing(g anansi.Grid) string {
	if sz := g.Rect.Size(); sz != image.Pt(t.x1, t.y1) {
		return fmt.Sprintf("sizes differ: terminal %dx%d, grid %v", t.x1, t.y1, sz)
	}
	for y := 1; y <= t.y1; y++ {
		for x := 1; x <= t.x1; x++ {
			i, ok := g.CellOffset(ansi.Pt(x, y))
			if !ok {
				return fmt.Sprintf("grid has no cell at %d,%d", x, y)
			}
			want := rcell{g.Rune[i], rendOf(g.Attr[i])}
			if want.r == 0 {
				want.r = ' '
			}
			if got := *t.at(x, y); got != want {
				return fmt.Sprintf("cell %d,%d shows %q %+v, expected %q %+v", x, y, got.r, got.a, want.r, want.a)
			}
		}
	}
	return ""
}

func (t *rterm) String() string {
	var sb strings.Builder
	for y := 1; y <= t.y1; y++ {
		for x := 1; x <= t.x1; x++ {
			sb.WriteRune(t.at(x, y).r)
		}
		sb.WriteByte('|')
	}
	return fmt.Sprintf("@%d,%d pend=%v %+v vis=%v %q", t.x, t.y, t.pend, t.cur, t.vis, sb.String())
}

// genCellRune makes a single-width graphic rune.
func genCellRune(r *Rng) rune {
	switch r.N(10) {
	case 0:
		return ' '
	case 1:
		return rune(0x2800 + r.N(256))
	case 2:
		return []rune{'é', '≡', '│', '…', 'ß', 'Ж', 0x1D54F, 0xFFFD}[r.N(8)]
	default:
		return rune(0x21 + r.N(94))
	}
}
