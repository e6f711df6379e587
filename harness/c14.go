package main

import (
	"fmt"
	"image"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:   "C14",
		Rule: "random histories of region operations on real grids are mirrored cell by cell onto plain two-dimensional arrays, all cells of all grids are compared after every operation, and every style call is recorded; non-trivial by operation history",
		Assumptions: []string{
			"cell contents after resizing a whole grid are not specified (documented TODO), and regions taken before it are stale",
		},
		Subs: []Sub{
			{Name: "history", Quick: 80000, Thorough: 3000000, Run: c14History},
			{Name: "draw", Quick: 60000, Thorough: 3000000, Run: c14Draw},
			{Name: "subs", Quick: 60000, Thorough: 2000000, Run: c14Subs},
			{Name: "eq", Quick: 40000, Thorough: 1500000, Run: c14Eq},
			{Name: "large-history", Quick: 100, Thorough: 10000, Run: large(c14History)},
			{Name: "large-draw", Quick: 100, Thorough: 10000, Run: large(c14Draw)},
			{Name: "large-subs", Quick: 100, Thorough: 10000, Run: large(c14Subs)},
			{Name: "large-eq", Quick: 100, Thorough: 10000, Run: large(c14Eq)},
			{Name: "tiny", Quick: 20736, Thorough: 20736 * 4, Run: c14Tiny},
		},
	})
}

type mcell struct {
	r rune
	a ansi.SGRAttr
}

// mgrid is a whole grid and its model.
type mgrid struct {
	name  string
	g     anansi.Grid
	w, h  int
	cells []mcell
}

// mregion is a region of one, in 0-based half-open model coordinates.
type mregion struct {
	of             *mgrid
	g              anansi.Grid
	x0, y0, x1, y1 int
	gone           bool // the zero grid
}

func (r *mregion) dx() int     { return max(0, r.x1-r.x0) }
func (r *mregion) dy() int     { return max(0, r.y1-r.y0) }
func (r *mregion) empty() bool { return r.gone || r.dx() == 0 || r.dy() == 0 }
func (r *mregion) String() string {
	return fmt.Sprintf("%s[%d,%d %d,%d]", r.of.name, r.x0, r.y0, r.x1, r.y1)
}
func (r *mregion) at(x, y int) *mcell { return &r.of.cells[(r.y0+y)*r.of.w+r.x0+x] }

func (m *mgrid) whole() *mregion { return &mregion{of: m, g: m.g, x1: m.w, y1: m.h} }

// check compares all cells.
func (m *mgrid) check(t *T, what string) {
	if sz := m.g.Bounds().Size(); sz.X != m.w || sz.Y != m.h {
		t.Fail("%s: grid %s has size %v, expected %dx%d", what, m.name, sz, m.w, m.h)
	}
	for y := 0; y < m.h; y++ {
		for x := 0; x < m.w; x++ {
			i, ok := m.g.CellOffset(ansi.Pt(x+1, y+1))
			if !ok {
				t.Fail("%s: grid %s has no cell at %d,%d", what, m.name, x+1, y+1)
			}
			want := m.cells[y*m.w+x]
			if got := (mcell{m.g.Rune[i], m.g.Attr[i]}); got != want {
				t.Fail("%s: grid %s cell %d,%d is %q %v, expected %q %v", what, m.name, x+1, y+1, got.r, got.a, want.r, want.a)
			}
		}
	}
	t.Count("cells_compared", m.w*m.h)
}

// checkRegion compares a region's own bounds and cell lookup.
func (r *mregion) check(t *T, what string) {
	b := r.g.Bounds()
	if r.empty() {
		if !b.Empty() {
			t.Fail("%s: %v should be empty, has bounds %v", what, r, b)
		}
		if _, ok := r.g.CellOffset(b.Min); ok {
			t.Fail("%s: empty %v has a cell", what, r)
		}
		return
	}
	if want := (image.Rect(r.x0+1, r.y0+1, r.x1+1, r.y1+1)); b.Min.Point != want.Min || b.Max.Point != want.Max {
		t.Fail("%s: %v has bounds %v", what, r, b)
	}
	for _, d := range [][2]int{{0, 0}, {r.dx() - 1, r.dy() - 1}, {-1, 0}, {0, -1}, {r.dx(), 0}, {0, r.dy()}, {r.dx(), r.dy()}, {t.N(r.dx()), t.N(r.dy())}} {
		pt := ansi.Point{Point: image.Pt(r.x0+1+d[0], r.y0+1+d[1])}
		in := d[0] >= 0 && d[1] >= 0 && d[0] < r.dx() && d[1] < r.dy()
		i, ok := r.g.CellOffset(pt)
		if ok != in {
			t.Fail("%s: %v says %v for a cell at %v", what, r, ok, pt)
		}
		if ok {
			if c := r.at(d[0], d[1]); r.g.Rune[i] != c.r || r.g.Attr[i] != c.a {
				t.Fail("%s: %v at %v is %q %v, expected %q %v", what, r, pt, r.g.Rune[i], r.g.Attr[i], c.r, c.a)
			}
		}
	}
}

func newMgrid(t *T, name string, w, h int, pal []ansi.SGRAttr) *mgrid {
	if w*h == 0 {
		w, h = 0, 0
	}
	m := &mgrid{name: name, w: w, h: h}
	m.g.Resize(image.Pt(w, h))
	m.refill(t, pal)
	return m
}

// refill sets all cells, through the grid's public fields.
func (m *mgrid) refill(t *T, pal []ansi.SGRAttr) {
	m.cells = make([]mcell, m.w*m.h)
	for y := 0; y < m.h; y++ {
		for x := 0; x < m.w; x++ {
			i, ok := m.g.CellOffset(ansi.Pt(x+1, y+1))
			if !ok {
				t.Fail("grid %s of size %dx%d has no cell at %d,%d", m.name, m.w, m.h, x+1, y+1)
			}
			var c mcell
			if !t.P(1, 4) {
				c.r = rune(0x4e00 + t.N(2000))
			}
			if t.P(1, 6) {
				c.r = ' '
			}
			if t.P(2, 3) {
				c.a = pal[t.N(len(pal))]
			}
			m.g.Rune[i], m.g.Attr[i] = c.r, c.a
			m.cells[y*m.w+x] = c
		}
	}
}

// sub takes a sub-region by one of the three ways.
func (r *mregion) sub(t *T) *mregion {
	s := &mregion{of: r.of}
	x0, y0 := r.x0+t.N(r.dx()+2), r.y0+t.N(r.dy()+2)
	if t.P(1, 12) {
		x0, y0 = r.x0-t.N(3), r.y0-t.N(3)
	}
	if t.P(1, 4) {
		x0, y0 = r.x0, r.y0
	}
	x1, y1 := x0+t.N(r.dx()+3), y0+t.N(r.dy()+3)
	if t.P(1, 10) {
		x1, y1 = x0+t.R(-2, 4), y0+t.R(-2, 4)
	}
	pt := func(x, y int) ansi.Point { return ansi.Point{Point: image.Pt(x+1, y+1)} }
	switch t.N(4) {
	case 0:
		x1, y1 = r.x1, r.y1
		s.g = r.g.SubAt(pt(x0, y0))
	case 1:
		x1, y1 = r.x0+x1-x0, r.y0+y1-y0
		x0, y0 = r.x0, r.y0
		s.g = r.g.SubSize(image.Pt(x1-x0, y1-y0))
	default:
		s.g = r.g.SubRect(ansi.Rectangle{Min: pt(x0, y0), Max: pt(x1, y1)})
	}
	if x0 < r.x0 || x0 >= r.x1 || y0 < r.y0 || y0 >= r.y1 || r.empty() {
		s.gone = true
	}
	s.x0, s.y0, s.x1, s.y1 = x0, y0, min(x1, r.x1), min(y1, r.y1)
	return s
}

// draw mirrors DrawGrid onto the model, checking the style's calls.
func c14DoDraw(t *T, dst, src *mregion, pal []ansi.SGRAttr) string {
	var styles []anansi.Style
	var fns []styleFn
	name := ""
	for n := t.N(4); n > 0; n-- {
		s, f, nm := genStyle(t.Rng, pal)
		if nm != "noop" || t.P(1, 3) {
			styles, fns, name = append(styles, s), append(fns, f), name+" "+nm
		}
	}
	opaque := true
	for _, s := range styles {
		if s != nil && fmt.Sprintf("%T", s) != fmt.Sprintf("%T", anansi.NoopStyle) {
			opaque = false
		}
	}
	w, h := min(dst.dx(), src.dx()), min(dst.dy(), src.dy())
	if dst.empty() || src.empty() {
		w, h = 0, 0
	}
	// record calls, in front of the others
	calls := map[[2]int]int{}
	type call struct {
		p     ansi.Point
		pr, r rune
		pa, a ansi.SGRAttr
	}
	var got []call
	if record := t.P(1, 2); record {
		styles = append([]anansi.Style{anansi.StyleFunc(func(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
			if (p != ansi.Point{}) {
				got = append(got, call{p, pr, r, pa, a})
			}
			return r, a
		})}, styles...)
		opaque = false
		defer func() {
			for k, n := range calls {
				if n != 0 {
					t.Fail("draw %v to %v: style called %d times more than needed for cell %v", src, dst, -n, k)
				}
			}
		}()
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				calls[[2]int{x, y}] = 1
			}
		}
	}
	what := fmt.Sprintf("draw %v to %v with%s", src, dst, name)
	t.Logf("%s", what)
	// all cells as of before
	out := make([]mcell, w*h)
	set := make([]bool, w*h)
	before := map[[2]int]call{}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			d, s := *dst.at(x, y), *src.at(x, y)
			c := cellIn{p: ansi.Pt(dst.x0+x+1, dst.y0+y+1), pr: d.r, r: s.r, pa: d.a, a: s.a}
			before[[2]int{x, y}] = call{c.p, c.pr, c.r, c.pa, c.a}
			r, a := applyAll(fns, c)
			out[y*w+x] = mcell{r, a}
			set[y*w+x] = opaque || r != 0
		}
	}
	anansi.DrawGrid(dst.g, src.g, styles...)
	for _, c := range got {
		k := [2]int{c.p.X - 1 - dst.x0, c.p.Y - 1 - dst.y0}
		if _, ok := before[k]; !ok {
			t.Fail("%s: style called for %v, which is not drawn", what, c.p)
		}
		if before[k] != c {
			t.Fail("%s: style called with %+v, expected %+v", what, c, before[k])
		}
		calls[k]--
		t.Count("style_calls", 1)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if set[y*w+x] {
				*dst.at(x, y) = out[y*w+x]
			}
		}
	}
	return what
}

func c14History(t *T) {
	pal := attrPalette(t.Rng)
	var grids []*mgrid
	var regs []*mregion
	for n := t.R(1, 2); n > 0; n-- {
		w, h := t.size(0, 9, 0, 7)
		m := newMgrid(t, fmt.Sprint("g", n), w, h, pal)
		grids = append(grids, m)
		regs = append(regs, m.whole())
	}
	check := func(what string) {
		for _, m := range grids {
			m.check(t, what)
		}
	}
	check("new")
	key := ""
	for n := t.R(2, 20); n > 0; n-- {
		r := regs[t.N(len(regs))]
		what := ""
		switch t.N(12) {
		case 0, 1, 2, 3:
			s := r.sub(t)
			what = fmt.Sprintf("sub of %v: %v", r, s)
			s.check(t, what)
			if !s.gone {
				full := s.g.Full()
				if full.Bounds() != s.of.g.Bounds() && s.of.w*s.of.h > 0 {
					t.Fail("%s: full region is %v, expected %v", what, full.Bounds(), s.of.g.Bounds())
				}
				if s.of.w*s.of.h > 0 {
					regs = append(regs, &mregion{of: s.of, g: full, x1: s.of.w, y1: s.of.h})
				}
			}
			regs = append(regs, s)
			key += "s"
		case 4:
			what = fmt.Sprintf("clear %v", r)
			t.Logf("%s", what)
			r.g.Clear()
			if !r.empty() {
				for y := 0; y < r.dy(); y++ {
					for x := 0; x < r.dx(); x++ {
						*r.at(x, y) = mcell{}
					}
				}
			}
			key += "c"
		case 5, 6, 7, 8:
			what = c14DoDraw(t, r, regs[t.N(len(regs))], pal)
			key += "d"
		case 9:
			// resize
			w, h := t.size(-1, 10, -1, 8)
			if r.empty() {
				continue
			}
			whole := r.dx() == r.of.w && r.dy() == r.of.h
			what = fmt.Sprintf("resize %v to %dx%d", r, w, h)
			t.Logf("%s", what)
			if w <= 0 || h <= 0 {
				w, h = 0, 0
			}
			if whole {
				m := r.of
				change := w != m.w || h != m.h
				if got := m.g.Resize(image.Pt(w, h)); got != change {
					t.Fail("%s returned %v", what, got)
				}
				if !change {
					break
				}
				held := map[mcell]bool{{}: true}
				for _, c := range m.cells {
					held[c] = true
				}
				for i, r := range m.g.Rune { // nothing that was replaced or cut off comes back
					if c := (mcell{r, m.g.Attr[i]}); !held[c] {
						t.Fail("%s: has %q %v, which grid %s did not have before", what, c.r, c.a, m.name)
					}
				}
				m.w, m.h = w, h
				m.refill(t, pal)
				keep := regs[:0]
				for _, o := range regs {
					if o.of != m {
						keep = append(keep, o)
					}
				}
				regs = append(keep, m.whole())
			} else {
				s := &mregion{of: r.of, g: r.g, x0: r.x0, y0: r.y0}
				s.x1, s.y1 = min(r.x0+w, r.of.w), min(r.y0+h, r.of.h)
				change := s.dx() != r.dx() || s.dy() != r.dy()
				if got := s.g.Resize(image.Pt(w, h)); got != change {
					t.Fail("%s returned %v", what, got)
				}
				s.check(t, what)
				regs = append(regs, s)
			}
			key += "r"
		default:
			// set a cell through a region
			if r.empty() {
				continue
			}
			x, y := t.N(r.dx()), t.N(r.dy())
			i, ok := r.g.CellOffset(ansi.Pt(r.x0+x+1, r.y0+y+1))
			if !ok {
				t.Fail("%v has no cell %d,%d", r, x, y)
			}
			c := mcell{rune('a' + t.N(26)), pal[t.N(len(pal))]}
			r.g.Rune[i], r.g.Attr[i] = c.r, c.a
			*r.at(x, y) = c
			key += "w"
		}
		check(what)
		if len(regs) > 0 {
			regs[t.N(len(regs))].check(t, what)
		}
	}
	t.Distinct(fmt.Sprint(hash64(fmt.Sprint(t.Idx)), key))
	t.Sample("%s", key)
}

// c14Draw does single draws between (often overlapping) regions.
func c14Draw(t *T) {
	pal := attrPalette(t.Rng)
	w, h := t.size(1, 12, 1, 8)
	m := newMgrid(t, "a", w, h, pal)
	o := m
	if t.P(1, 3) {
		w, h = t.size(1, 12, 1, 8)
		o = newMgrid(t, "b", w, h, pal)
	}
	dst, src := m.whole(), o.whole()
	for k := t.N(3); k > 0; k-- {
		dst = dst.sub(t)
	}
	for k := t.N(3); k > 0; k-- {
		src = src.sub(t)
	}
	what := c14DoDraw(t, dst, src, pal)
	m.check(t, what)
	o.check(t, what)
	t.Distinct(what)
}

// c14Subs nests regions.
func c14Subs(t *T) {
	pal := attrPalette(t.Rng)
	w, h := t.size(1, 12, 1, 8)
	m := newMgrid(t, "a", w, h, pal)
	r := m.whole()
	key := fmt.Sprint(m.w, m.h)
	for k := t.R(1, 5); k > 0; k-- {
		r = r.sub(t)
		key += r.String()
		r.check(t, key)
		if r.gone {
			break
		}
		if f := r.g.Full(); f.Bounds() != m.g.Bounds() || !f.Eq(m.g, ' ') || !m.g.Eq(f, ' ') {
			t.Fail("%s: full region %v is not the original grid", key, f.Bounds())
		}
	}
	// clearing what is left touches nothing else
	r.g.Clear()
	if !r.empty() {
		for y := 0; y < r.dy(); y++ {
			for x := 0; x < r.dx(); x++ {
				*r.at(x, y) = mcell{}
			}
		}
	}
	m.check(t, "clear "+key)
	t.Distinct(key)
}

// c14Eq compares regions.
func c14Eq(t *T) {
	pal := attrPalette(t.Rng)[:3]
	w, h := t.size(1, 7, 1, 6)
	m := newMgrid(t, "a", w, h, pal)
	w, h = t.size(1, 7, 1, 6)
	n := newMgrid(t, "b", w, h, pal)
	a, b := m.whole(), n.whole()
	for k := t.N(2); k > 0; k-- {
		a = a.sub(t)
	}
	for k := t.N(2); k > 0; k-- {
		b = b.sub(t)
	}
	if t.P(3, 4) && !a.empty() && !b.empty() {
		// make them the same, then maybe differ in one cell or size
		w, h := min(a.dx(), b.dx()), min(a.dy(), b.dy())
		if t.P(5, 6) {
			a = &mregion{of: m, g: a.g.SubSize(image.Pt(w, h)), x0: a.x0, y0: a.y0, x1: a.x0 + w, y1: a.y0 + h}
			b = &mregion{of: n, g: b.g.SubSize(image.Pt(w, h)), x0: b.x0, y0: b.y0, x1: b.x0 + w, y1: b.y0 + h}
		}
		put := func(r *mregion, x, y int, c mcell) {
			i, _ := r.g.CellOffset(ansi.Pt(r.x0+x+1, r.y0+y+1))
			r.g.Rune[i], r.g.Attr[i] = c.r, c.a
			*r.at(x, y) = c
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				put(b, x, y, *a.at(x, y))
			}
		}
		if t.Bool() {
			x, y := t.N(w), t.N(h)
			c := *a.at(x, y)
			switch t.N(4) {
			case 0:
				c.r = 'Q'
			case 1:
				c.a ^= ansi.SGRAttrBold
			case 2:
				c.r = 0
			default:
				c.r = ' '
			}
			put(b, x, y, c)
		}
	}
	zero := []rune{0, ' ', 'z'}[t.N(3)]
	want := a.dx() == b.dx() && a.dy() == b.dy()
	if a.gone || b.gone {
		want = a.empty() && b.empty() && a.g.Bounds().Size() == b.g.Bounds().Size()
	}
	if want && !a.empty() {
		for y := 0; y < a.dy(); y++ {
			for x := 0; x < a.dx(); x++ {
				c, d := *a.at(x, y), *b.at(x, y)
				if c.r == 0 {
					c.r = zero
				}
				if d.r == 0 {
					d.r = zero
				}
				want = want && c == d
			}
		}
	}
	if got := a.g.Eq(b.g, zero); got != want && !(a.empty() && b.empty()) {
		t.Fail("%v == %v is %v, expected %v", a, b, got, want)
	}
	if a.g.Eq(b.g, zero) != b.g.Eq(a.g, zero) {
		t.Fail("%v == %v depends on the order", a, b)
	}
	m.check(t, "eq")
	n.check(t, "eq")
	t.Count(fmt.Sprintf("equal_%v", want), 1)
	t.Distinct(fmt.Sprint(t.Idx, a, b))
}

// c14Tiny draws between all pairs of regions of a 3x3 grid.
func c14Tiny(t *T) {
	pal := attrPalette(t.Rng)
	m := newMgrid(t, "a", 3, 3, pal)
	i := t.Idx % 20736
	pick := func() *mregion {
		x0 := i % 3
		i /= 3
		y0 := i % 3
		i /= 3
		x1 := x0 + i%4
		i /= 4
		y1 := y0 + i%4
		i /= 4
		return &mregion{of: m, g: m.g.SubRect(ansi.Rectangle{Min: ansi.Pt(x0+1, y0+1), Max: ansi.Pt(x1+1, y1+1)}), x0: x0, y0: y0, x1: min(x1, 3), y1: min(y1, 3)}
	}
	dst, src := pick(), pick()
	dst.check(t, "dst")
	what := c14DoDraw(t, dst, src, pal)
	m.check(t, what)
	t.Distinct(fmt.Sprint(t.Idx % 20736))
}
