package main

import (
	"bytes"
	"fmt"
	"image"
	"reflect"
	"strings"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:   "C15",
		Rule: "random bitmaps and sub-bitmaps are mirrored onto plain two-dimensional arrays; bits, runes, rendered text (interpreted by the reference terminal) and drawn grids are compared with dots computed bit by bit; non-trivial by (size, sub-bitmap, contents)",
		Assumptions: []string{
			"text is rendered onto a terminal with default attributes, in its first column",
			"braille blocks are anchored at points within the bitmap, or entirely outside of it",
		},
		Subs: []Sub{
			{Name: "bits", Quick: 60000, Thorough: 2500000, Run: c15Bits},
			{Name: "parse", Quick: 60000, Thorough: 2500000, Run: c15Parse},
			{Name: "write", Quick: 60000, Thorough: 2500000, Run: c15Write},
			{Name: "draw", Quick: 60000, Thorough: 2500000, Run: c15Draw},
			{Name: "large-bits", Quick: 60, Thorough: 6000, Run: large(c15Bits)},
			{Name: "large-parse", Quick: 60, Thorough: 6000, Run: large(c15Parse)},
			{Name: "large-write", Quick: 60, Thorough: 6000, Run: large(c15Write)},
			{Name: "large-draw", Quick: 60, Thorough: 6000, Run: large(c15Draw)},
			{Name: "blocks", Quick: 256 * 8, Thorough: 256 * 8 * 40, Run: c15Blocks},
		},
	})
}

// mbitmap is a (sub-)bitmap and its model: bits of the whole by absolute point.
type mbitmap struct {
	b    anansi.Bitmap
	r    image.Rectangle
	bits map[image.Point]bool // all of the underlying bits
	desc string
}

func (m *mbitmap) get(p image.Point) bool { return p.In(m.r) && m.bits[p] }

var dots = [4][2]rune{{0x01, 0x08}, {0x02, 0x10}, {0x04, 0x20}, {0x40, 0x80}}

func (m *mbitmap) rune(p image.Point) rune {
	r := rune(0x2800)
	for y := 0; y < 4; y++ {
		for x := 0; x < 2; x++ {
			if m.get(p.Add(image.Pt(x, y))) {
				r |= dots[y][x]
			}
		}
	}
	return r
}

func (m *mbitmap) size() image.Point {
	if m.r.Empty() {
		return image.Pt((m.r.Dx()+1)/2, (m.r.Dy()+3)/4)
	}
	return image.Pt((m.r.Dx()+1)/2, (m.r.Dy()+3)/4)
}

func (m *mbitmap) sub(t *T) *mbitmap {
	s := &mbitmap{bits: m.bits}
	r := m.r
	min := image.Pt(r.Min.X+t.N(r.Dx()+1), r.Min.Y+t.N(r.Dy()+1))
	if t.P(1, 4) {
		min = r.Min
	}
	max := min.Add(image.Pt(t.N(r.Dx()+3), t.N(r.Dy()+3)))
	if t.P(1, 10) {
		max = min.Add(image.Pt(t.R(-2, 3), t.R(-2, 3)))
	}
	switch t.N(3) {
	case 0:
		max = r.Max
		s.b = m.b.SubAt(min)
	case 1:
		max = r.Min.Add(max.Sub(min))
		min = r.Min
		s.b = m.b.SubSize(max.Sub(min))
	default:
		s.b = m.b.SubRect(image.Rectangle{Min: min, Max: max})
	}
	if !min.In(r) {
		s.r = image.Rectangle{}
		s.bits = map[image.Point]bool{}
	} else {
		s.r = image.Rectangle{Min: min, Max: max}
		if s.r.Max.X > r.Max.X {
			s.r.Max.X = r.Max.X
		}
		if s.r.Max.Y > r.Max.Y {
			s.r.Max.Y = r.Max.Y
		}
		if s.r.Dx() < 0 || s.r.Dy() < 0 {
			s.r.Max = s.r.Min
		}
	}
	s.desc = fmt.Sprintf("%s%v", m.desc, s.r)
	if s.b.Rect != s.r && !(s.b.Rect.Empty() && s.r.Empty()) {
		t.Fail("sub-bitmap %s has bounds %v", s.desc, s.b.Rect)
	}
	return s
}

func (m *mbitmap) check(t *T, what string) {
	for y := m.r.Min.Y - 2; y < m.r.Max.Y+2; y++ {
		for x := m.r.Min.X - 2; x < m.r.Max.X+2; x++ {
			p := image.Pt(x, y)
			if got := m.b.Get(p); got != m.get(p) {
				t.Fail("%s: %s bit %v is %v, expected %v", what, m.desc, p, got, !got)
			}
		}
	}
	t.Count("bits_compared", m.r.Dx()*m.r.Dy())
}

// genBitmap makes a bitmap by one of the ways there are.
func genBitmap(t *T) *mbitmap {
	m := &mbitmap{bits: map[image.Point]bool{}}
	w, h := t.size(0, 9, 0, 11)
	dens := t.R(1, 4)
	bit := func() bool { return t.N(4) < dens }
	switch t.N(4) {
	case 0: // load, maybe with a part of the last row missing
		stride := w
		n := w * h
		if n > 0 {
			n -= t.N(min(n, stride))
		}
		data := make([]bool, n, n+t.N(8))
		// what lies behind the data is none of it
		for i := range data[:cap(data)] {
			data[:cap(data)][i] = true
		}
		for i := range data {
			data[i] = bit()
			if data[i] {
				m.bits[image.Pt(i%stride, i/stride)] = true
			}
		}
		tail := append([]bool(nil), data[n:cap(data)]...)
		m.b.Load(stride, data)
		for i, b := range data[n:cap(data)] {
			if b != tail[i] {
				t.Fail("loading %d bits wrote behind them", n)
			}
		}
		if n == 0 {
			h = 0
		}
		m.r = image.Rect(0, 0, w, h)
		m.desc = fmt.Sprintf("load %dx%d(%d)", w, h, n)
	case 1: // parse
		lines, rows := make([]string, h), make([][]bool, h)
		for y := range lines {
			for x := 0; x < w; x++ {
				b := bit()
				rows[y] = append(rows[y], b)
				if b {
					lines[y] += "#"
					m.bits[image.Pt(x, y)] = true
				} else {
					lines[y] += t.Pick(".", " ", "é", "x")
				}
			}
		}
		stride, data, err := anansi.ParseBitmap("#", lines...)
		if err != nil {
			t.Fail("parse %q: %v", lines, err)
		}
		if h > 0 && stride != w || len(data) != w*h {
			t.Fail("parse %q: stride %d, %d bits", lines, stride, len(data))
		}
		m.b.Load(stride, data)
		if w*h == 0 {
			w, h = stride, 0
		}
		m.r = image.Rect(0, 0, w, h)
		m.desc = fmt.Sprintf("parse %dx%d", w, h)
	default: // resize and set
		if t.Bool() {
			m.b.Resize(image.Pt(t.N(5), t.N(5)))
		}
		m.b.Resize(image.Pt(w, h))
		m.r = image.Rect(0, 0, w, h)
		m.desc = fmt.Sprintf("set %dx%d", w, h)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				if m.b.Get(image.Pt(x, y)) {
					t.Fail("bit %d,%d is set after resize", x, y)
				}
				if bit() {
					m.b.Set(image.Pt(x, y), true)
					m.bits[image.Pt(x, y)] = true
				}
			}
		}
	}
	if m.b.Rect != m.r && !(m.b.Rect.Empty() && m.r.Empty()) {
		t.Fail("%s: bounds %v, expected %v", m.desc, m.b.Rect, m.r)
	}
	m.r = m.b.Rect
	return m
}

func c15Bits(t *T) {
	m := genBitmap(t)
	all := []*mbitmap{m}
	m.check(t, "new")
	key := m.desc
	for n := t.N(4); n > 0; n-- {
		s := all[t.N(len(all))].sub(t)
		s.check(t, "sub")
		if !s.r.Empty() {
			all = append(all, s)
		}
		key += s.desc
	}
	for n := t.N(12); n > 0; n-- {
		s := all[t.N(len(all))]
		p := image.Pt(t.R(s.r.Min.X-2, s.r.Max.X+1), t.R(s.r.Min.Y-2, s.r.Max.Y+1))
		v := t.Bool()
		s.b.Set(p, v)
		if p.In(s.r) {
			s.bits[p] = v
		}
		for _, o := range all {
			o.check(t, fmt.Sprintf("set %v of %s to %v", p, s.desc, v))
		}
		key += fmt.Sprint(p, v)
	}
	for _, s := range all {
		if got := s.b.RuneSize(); got != s.size() {
			t.Fail("%s: size in runes %v, expected %v", s.desc, got, s.size())
		}
		for y := s.r.Min.Y; y < s.r.Max.Y+1; y++ {
			for x := s.r.Min.X; x < s.r.Max.X+1; x++ {
				p := image.Pt(x, y)
				if got := s.b.Rune(p); got != s.rune(p) {
					t.Fail("%s: rune at %v is %c (%X), expected %c (%X)", s.desc, p, got, got, s.rune(p), s.rune(p))
				}
			}
		}
		t.Count("bitmaps", 1)
	}
	t.Sample("%s", key)
	t.Distinct(key)
}

// c15Blocks checks all 256 dot patterns at several offsets and cuts.
func c15Blocks(t *T) {
	pat, at := t.Idx%256, t.Idx/256%8
	ox, oy := at%3, at/3
	w, h := ox+2+t.N(3), oy+4+t.N(3)
	data := make([]bool, w*h)
	m := &mbitmap{r: image.Rect(0, 0, w, h), bits: map[image.Point]bool{}, desc: "block"}
	k := 0
	for x := 0; x < 2; x++ {
		for y := 0; y < 4; y++ {
			if pat>>k&1 != 0 {
				data[(oy+y)*w+ox+x] = true
				m.bits[image.Pt(ox+x, oy+y)] = true
			}
			k++
		}
	}
	m.b.Load(w, data)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if got := m.b.Rune(image.Pt(x, y)); got != m.rune(image.Pt(x, y)) {
				t.Fail("pattern %02x: rune at %d,%d is %c, expected %c", pat, x, y, got, m.rune(image.Pt(x, y)))
			}
		}
	}
	t.Distinct(fmt.Sprint(pat, at, w, h))
}

func c15Parse(t *T) {
	runes := []rune{'#', 'x', ' ', '.', 'é', '●', '○', 0x1D54F, '1', '0'}
	set := string(runes[t.N(len(runes))])
	if t.Bool() {
		set += string(runes[t.N(len(runes))])
	}
	n := len([]rune(set))
	w, h := t.size(1, 7, 0, 6)
	var lines []string
	var want []bool
	for y := 0; y < h; y++ {
		line := ""
		for x := 0; x < w; x++ {
			cell := set
			if t.Bool() {
				cell = ""
				for i := 0; i < n; i++ {
					cell += string(runes[t.N(len(runes))])
				}
			}
			line += cell
			want = append(want, cell == set)
		}
		lines = append(lines, line)
	}
	fail := ""
	switch t.N(8) {
	case 0:
		set, fail = t.Pick("", "abc", "éàü"), "set"
	case 1:
		if n == 2 && h > 0 {
			i := t.N(h)
			lines[i] += "x"
			fail = "odd"
		}
	case 2:
		if h > 1 {
			i := t.N(h)
			lines[i] += strings.Repeat("x", n)
			fail = "uneven"
		}
	}
	stride, data, err := anansi.ParseBitmap(set, lines...)
	t.Logf("parse %q %q: %d %v %v", set, lines, stride, data, err)
	func() {
		defer func() {
			if e := recover(); (e != nil) != (err != nil) {
				t.Fail("parse %q %q: error %v, but MustParseBitmap panics with %v", set, lines, err, e)
			}
		}()
		if s, d := anansi.MustParseBitmap(set, lines...); s != stride || !reflect.DeepEqual(d, data) {
			t.Fail("parse %q %q: %d %v, but MustParseBitmap gives %d %v", set, lines, stride, data, s, d)
		}
	}()
	if fail != "" {
		if err == nil {
			t.Fail("parsed %q %q without error (%s)", set, lines, fail)
		}
		t.Count("rejected", 1)
		t.Distinct(fmt.Sprint(set, lines))
		return
	}
	if err != nil {
		t.Fail("parse %q %q: %v", set, lines, err)
	}
	if len(data) != len(want) || h > 0 && stride != w {
		t.Fail("parse %q %q: stride %d, %d bits", set, lines, stride, len(data))
	}
	for i := range want {
		if data[i] != want[i] {
			t.Fail("parse %q %q: bit %d is %v", set, lines, i, data[i])
		}
	}
	t.Distinct(fmt.Sprint(set, lines))
	t.Count("parsed", 1)
}

func c15Subs(t *T) *mbitmap {
	m := genBitmap(t)
	for n := t.N(3); n > 0; n-- {
		m = m.sub(t)
	}
	return m
}

func c15Styles(t *T, pal []ansi.SGRAttr) (styles []anansi.Style, fns []styleFn, name string) {
	for n := t.N(4); n > 0; n-- {
		s, f, nm := genStyle(t.Rng, pal)
		styles, fns, name = append(styles, s), append(fns, f), name+" "+nm
	}
	return
}

func c15Write(t *T) {
	m := c15Subs(t)
	pal := attrPalette(t.Rng)
	for i := range pal {
		pal[i] &^= ansi.SGRAttrClear
	}
	styles, fns, name := c15Styles(t, pal)
	var b bytes.Buffer
	var n int
	var err error
	switch t.N(3) {
	case 0:
		n, err = anansi.WriteBitmap(&b, m.b, styles...)
	case 1:
		n, err = anansi.WriteBitmap(onlyWriter{&b}, m.b, styles...)
	default:
		var ab anansi.Buffer
		n, err = anansi.WriteBitmap(&ab, m.b, styles...)
		ab.WriteTo(&b)
	}
	out := b.String()
	t.Logf("write %s with%s: %q", m.desc, name, out)
	if err != nil || n != len(out) {
		t.Fail("write %s returned %d, %v after %d bytes", m.desc, n, err, len(out))
	}
	sz := m.size()
	if m.r.Empty() {
		sz = image.Pt(sz.X, sz.Y)
	}
	if sz != m.b.RuneSize() {
		t.Fail("%s: size in runes %v, expected %v", m.desc, m.b.RuneSize(), sz)
	}
	if got := strings.Count(out, "\n"); sz.Y > 0 && got != sz.Y-1 || sz.Y == 0 && out != "" {
		t.Fail("write %s: %d line breaks for %d rows", m.desc, got, sz.Y)
	}
	if len(styles) == 0 {
		// just the braille
		var rows []string
		for y := 0; y < sz.Y; y++ {
			row := ""
			for x := 0; x < sz.X; x++ {
				row += string(m.rune(m.r.Min.Add(image.Pt(2*x, 4*y))))
			}
			rows = append(rows, row)
		}
		if want := strings.Join(rows, "\r\n"); out != want {
			t.Fail("write %s: %q, expected %q", m.desc, out, want)
		}
	}
	tw, th := sz.X+1, max(sz.Y, 1)
	term := newRterm(tw, th)
	term.Write([]byte(out))
	if len(term.odd) > 0 || term.scrolled > 0 || !term.idle() {
		t.Fail("write %s: terminal saw %q, scrolled %d", m.desc, term.odd, term.scrolled)
	}
	for y := 1; y <= th; y++ {
		for x := 1; x <= tw; x++ {
			want := blankCell
			if x <= sz.X && y <= sz.Y {
				r, a := applyAll(fns, cellIn{p: ansi.Pt(x, y), r: m.rune(m.r.Min.Add(image.Pt(2*(x-1), 4*(y-1))))})
				if r == 0 {
					r, a = ' ', 0
				}
				want = rcell{r, rendOf(a)}
			}
			if got := *term.at(x, y); got != want {
				t.Fail("write %s with%s: cell %d,%d shows %q %+v, expected %q %+v", m.desc, name, x, y, got.r, got.a, want.r, want.a)
			}
		}
	}
	m.check(t, "write")
	t.Count("runes_rendered", sz.X*sz.Y)
	t.Distinct(m.desc + name + out)
}

func c15Draw(t *T) {
	m := c15Subs(t)
	pal := attrPalette(t.Rng)
	w, h := t.size(1, 9, 1, 6)
	mg := newMgrid(t, "g", w, h, pal)
	dst := mg.whole()
	for n := t.N(3); n > 0; n-- {
		dst = dst.sub(t)
	}
	styles, fns, name := c15Styles(t, pal)
	what := fmt.Sprintf("draw %s to %v with%s", m.desc, dst, name)
	t.Logf("%s", what)
	sz := m.size()
	if !dst.empty() {
		for y := 0; y < min(sz.Y, dst.dy()); y++ {
			for x := 0; x < min(sz.X, dst.dx()); x++ {
				d := dst.at(x, y)
				c := cellIn{p: ansi.Pt(dst.x0+x+1, dst.y0+y+1), pr: d.r, pa: d.a, a: d.a, r: m.rune(m.r.Min.Add(image.Pt(2*x, 4*y)))}
				if r, a := applyAll(fns, c); r != 0 {
					*d = mcell{r, a}
				}
			}
		}
	}
	anansi.DrawBitmap(dst.g, m.b, styles...)
	mg.check(t, what)
	m.check(t, what)
	t.Distinct(what + fmt.Sprint(m.bits))
	t.Count("drawn", 1)
}
