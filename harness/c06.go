package main

import (
	"fmt"
	"image/color"

	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:   "C06",
		Rule: "all palette indices, random and near-palette 24-bit colours, against the standard palettes, colour themes and random palettes of any size; random stacks of models; non-trivial by (palette, colour)",
		Assumptions: []string{
			"distance is Euclidean in RGB, as documented; any entry at minimal distance is accepted",
			"colour theme entries 0-15 are data, not behaviour, and are not checked",
		},
		Subs: []Sub{
			{Name: "index", Quick: 256, Thorough: 256, Run: c06Index},
			{Name: "nearest", Quick: 60000, Thorough: 3000000, Run: c06Nearest},
			{Name: "rgb", Quick: 100000, Thorough: 16777216, Run: c06RGB},
			{Name: "models", Quick: 60000, Thorough: 2000000, Run: c06Models},
		},
	})
}

// stdRGB is the standard xterm definition of the 256 colours.
func stdRGB(i int) (r, g, b uint8) {
	switch {
	case i < 16:
		t := [16][3]uint8{{0, 0, 0}, {128, 0, 0}, {0, 128, 0}, {128, 128, 0}, {0, 0, 128}, {128, 0, 128}, {0, 128, 128}, {192, 192, 192},
			{128, 128, 128}, {255, 0, 0}, {0, 255, 0}, {255, 255, 0}, {0, 0, 255}, {255, 0, 255}, {0, 255, 255}, {255, 255, 255}}[i]
		return t[0], t[1], t[2]
	case i < 232:
		i -= 16
		lv := [6]uint8{0, 95, 135, 175, 215, 255}
		return lv[i/36], lv[i/6%6], lv[i%6]
	default:
		v := uint8(8 + 10*(i-232))
		return v, v, v
	}
}

func c06Index(t *T) {
	i := t.Idx
	c := ansi.SGRColor(i)
	r, g, b := stdRGB(i)
	want := ansi.RGB(r, g, b)
	if got := c.To24Bit(); got != want {
		t.Fail("colour %d as 24-bit is %v, standard is %v", i, got, want)
	}
	if got := want.To24Bit(); got != want {
		t.Fail("24-bit conversion changed %v to %v", want, got)
	}
	if gr, gg, gb := c.RGB(); gr != r || gg != g || gb != b {
		t.Fail("colour %d has components %d,%d,%d", i, gr, gg, gb)
	}
	if got := ansi.ColorModel24.Convert(c); got != want {
		t.Fail("24-bit model makes %v of %v", got, c)
	}
	if got := ansi.ColorModelID.Convert(c); got != c {
		t.Fail("identity model makes %v of %v", got, c)
	}
	if got := ansi.SGRColorCanon.Convert(want); got == want || got.To24Bit() != want {
		t.Fail("canonical alias of %v is %v (%v)", want, got, got.To24Bit())
	}
	if len(ansi.Palette3) != 8 || len(ansi.Palette4) != 16 || len(ansi.Palette8) != 256 ||
		len(ansi.Palette3Colors) != 8 || len(ansi.Palette4Colors) != 16 || len(ansi.Palette8Colors) != 256 {
		t.Fail("palette sizes changed")
	}
	for _, p := range []ansi.Palette{ansi.Palette3, ansi.Palette4, ansi.Palette8} {
		if i < len(p) {
			if p[i] != c {
				t.Fail("entry %d of the %d-colour palette is %v", i, len(p), p[i])
			}
			if got := p.Convert(c); got.To24Bit() != want {
				t.Fail("%d-colour palette maps its own %v to %v", len(p), c, got)
			}
		}
	}
	for _, p := range []ansi.Palette{ansi.Palette3Colors, ansi.Palette4Colors, ansi.Palette8Colors} {
		if i < len(p) && p[i] != want {
			t.Fail("definition %d of the %d-colour palette is %v, want %v", i, len(p), p[i], want)
		}
	}
	for n, th := range themes {
		if got := th.Convert(want); got != want {
			t.Fail("theme %s changed the 24-bit %v to %v", n, want, got)
		}
		got := th.Convert(c)
		if i >= len(th) && got.To24Bit() != want {
			t.Fail("theme %s makes %v of %v beyond its entries", n, got, c)
		} else if i < len(th) && got != th[i] {
			t.Fail("theme %s makes %v of its own entry %d %v", n, got, i, th[i])
		}
	}
	t.Distinct(fmt.Sprint(i))
}

var themes = map[string]ansi.ColorTheme{
	"vga": ansi.VGAPalette, "cmd": ansi.CMDPalette, "term": ansi.TermnialAppPalette, "putty": ansi.PuTTYPalette,
	"mirc": ansi.MIRCPalette, "xterm": ansi.XTermPalette, "x": ansi.XPalette, "ubuntu": ansi.UbuntuPalette,
}

func dist(a, b ansi.SGRColor) int {
	ar, ag, ab := a.RGB()
	br, bg, bb := b.RGB()
	dr, dg, db := int(ar)-int(br), int(ag)-int(bg), int(ab)-int(bb)
	return dr*dr + dg*dg + db*db
}

func genNear(r *Rng, p ansi.Palette) ansi.SGRColor {
	switch r.N(4) {
	case 0:
		return genColor(r)
	case 1: // near an entry
		cr, cg, cb := p[r.N(len(p))].RGB()
		j := func(v uint8) uint8 {
			n := int(v) + r.R(-3, 3)
			if n < 0 {
				n = 0
			} else if n > 255 {
				n = 255
			}
			return uint8(n)
		}
		return ansi.RGB(j(cr), j(cg), j(cb))
	case 2: // between two entries
		ar, ag, ab := p[r.N(len(p))].RGB()
		br, bg, bb := p[r.N(len(p))].RGB()
		m := func(x, y uint8) uint8 { return uint8((int(x) + int(y) + r.N(2)) / 2) }
		return ansi.RGB(m(ar, br), m(ag, bg), m(ab, bb))
	default:
		return ansi.RGB(r.Byte(), r.Byte(), r.Byte())
	}
}

func c06Nearest(t *T) {
	var p ansi.Palette
	name := ""
	switch t.N(5) {
	case 0:
		p, name = ansi.Palette3, "3"
	case 1:
		p, name = ansi.Palette4, "4"
	case 2:
		p, name = ansi.Palette8, "8"
	case 3:
		p, name = ansi.Palette8Colors[:t.R(1, 256)], "prefix"
	default:
		n := t.R(1, 40)
		if t.P(1, 20) {
			n = t.R(100, 1200)
		}
		for ; n > 0; n-- {
			p = append(p, genColor(t.Rng))
		}
		name = "random"
	}
	c := genNear(t.Rng, p)
	saved := append(ansi.Palette(nil), p...)
	i := p.Index(c)
	if i < 0 || i >= len(p) {
		t.Fail("index %d in a palette of %d", i, len(p))
	}
	got := p.Convert(c)
	if got != p[i] {
		t.Fail("conversion %v differs from entry %d %v", got, i, p[i])
	}
	best := -1
	for j, q := range p {
		if best < 0 || dist(q, c) < dist(p[best], c) {
			best = j
		}
	}
	if dist(got, c) != dist(p[best], c) {
		t.Fail("palette %s (%d): %v converts to %v at distance² %d, but entry %d %v is at %d", name, len(p), c, got, dist(got, c), best, p[best], dist(p[best], c))
	}
	for j := range p {
		if p[j] != saved[j] {
			t.Fail("conversion changed palette entry %d", j)
		}
	}
	t.Sample("%s/%d %v -> %v", name, len(p), c, got)
	t.Distinct(fmt.Sprint(name, uint32(c)))
	var none ansi.Palette
	if got := none.Convert(c); got != ansi.SGRBlack {
		t.Fail("empty palette makes %v", got)
	}
}

func c06RGB(t *T) {
	var r, g, b uint8
	if t.Thorough {
		r, g, b = uint8(t.Idx), uint8(t.Idx>>8), uint8(t.Idx>>16)
	} else {
		r, g, b = t.Byte(), t.Byte(), t.Byte()
	}
	c := ansi.RGB(r, g, b)
	if gr, gg, gb := c.RGB(); gr != r || gg != g || gb != b {
		t.Fail("RGB(%d,%d,%d) has components %d,%d,%d", r, g, b, gr, gg, gb)
	}
	if c.To24Bit() != c {
		t.Fail("24-bit conversion is not idempotent on %v", c)
	}
	w := color.RGBA{r, g, b, 255}
	r0, g0, b0, a0 := w.RGBA()
	if r1, g1, b1, a1 := c.RGBA(); r1 != r0 || g1 != g0 || b1 != b0 || a1 != a0 {
		t.Fail("%v as image colour is %x,%x,%x,%x", c, r1, g1, b1, a1)
	}
	if x := color.RGBAModel.Convert(c).(color.RGBA); x != w {
		t.Fail("%v through the image model is %v", c, x)
	}
	if x := ansi.RGBA(w.RGBA()); x != c {
		t.Fail("%v from the image model is %v", c, x)
	}
	over := func(v uint32) uint32 {
		if t.P(1, 4) {
			return []uint32{0, 0xff, 0x100, 0xfeff, 0xff00, 0xffff, 0x10000, 0x10001, 1<<32 - 1}[t.N(9)]
		}
		return v + uint32(t.N(2))*uint32(t.N(1<<20))
	}
	or, og, ob := over(r0), over(g0), over(b0)
	clip := func(v uint32) uint8 {
		if v > 0xffff {
			return 255
		}
		return uint8(v >> 8)
	}
	if x, want := ansi.RGBA(or, og, ob, 0), ansi.RGB(clip(or), clip(og), clip(ob)); x != want {
		t.Fail("RGBA(%x,%x,%x) = %v, want %v", or, og, ob, x, want)
	}
	for _, a := range []ansi.SGRAttr{c.FG(), c.FG() | ansi.SGRWhite.BG(), c.FG() | c.BG()} {
		if fc, ok := a.FG(); !ok || fc != c {
			t.Fail("foreground of %v reads as %v", a, fc)
		}
	}
	if bc, ok := (c.BG() | ansi.SGRAttrMask | ansi.SGRCube108.FG()).BG(); !ok || bc != c {
		t.Fail("background %v reads as %v", c, bc)
	}
	t.Distinct(fmt.Sprint(uint32(c)))
}

// tagModel is a model whose composition order is visible.
func tagModel(k uint32) ansi.ColorModel {
	return ansi.ColorModelFunc(func(c ansi.SGRColor) ansi.SGRColor {
		return ansi.SGRColor((uint32(c)*31 + k) & 0xffffff)
	})
}

func c06Models(t *T) {
	type comp struct {
		m    ansi.ColorModel
		tags []uint32
	}
	eval := func(tags []uint32, c ansi.SGRColor) ansi.SGRColor {
		for _, k := range tags {
			c = ansi.SGRColor((uint32(c)*31 + k) & 0xffffff)
		}
		return c
	}
	var pool []comp
	d := ""
	for n := t.R(2, 12); n > 0; n-- {
		if len(pool) == 0 || t.P(1, 3) {
			k := uint32(t.N(1 << 20))
			pool = append(pool, comp{tagModel(k), []uint32{k}})
			d += "b"
		} else {
			var ms []ansi.ColorModel
			var tags []uint32
			for k := t.R(1, 4); k > 0; k-- {
				if t.P(1, 8) {
					ms = append(ms, nil)
					continue
				}
				i := t.N(len(pool))
				ms = append(ms, pool[i].m)
				tags = append(tags, pool[i].tags...)
				d += fmt.Sprint(i, ",")
			}
			m := ansi.ColorModels(ms...)
			if len(tags) == 0 {
				if m != nil && m != ansi.ColorModel(nil) {
					t.Fail("combining no models makes %v", m)
				}
				continue
			}
			pool = append(pool, comp{m, tags})
			d += "|"
		}
		c := ansi.SGRColor(t.N(1 << 24))
		for i, p := range pool {
			if got, want := p.m.Convert(c), eval(p.tags, c); got != want {
				t.Fail("model %d of %s (stack of %d) makes %x of %x, its parts in order make %x", i, d, len(p.tags), uint32(got), uint32(c), uint32(want))
			}
		}
	}
	mp := ansi.SGRColorMap{}
	for n := t.N(6); n > 0; n-- {
		mp[genColor(t.Rng)] = genColor(t.Rng)
	}
	c := genColor(t.Rng)
	want := c
	if v, ok := mp[c]; ok {
		want = v
	}
	if got := mp.Convert(c); got != want {
		t.Fail("map makes %v of %v", got, c)
	}
	for k, v := range mp {
		if mp.Convert(k) != v {
			t.Fail("map makes %v of its key %v", mp.Convert(k), k)
		}
	}
	if m := ansi.ColorModels(); m != nil {
		t.Fail("combining nothing makes %v", m)
	}
	t.Distinct(d)
}
