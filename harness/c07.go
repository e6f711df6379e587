package main

import (
	"fmt"
	"image"

	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:   "C07",
		Rule: "pairs of rectangles and points over a small coordinate range (so that touching, nested, crossing, empty and inverted ones abound) and a large one, each operation compared with image/rectangle arithmetic shifted by the origin; non-trivial by the pair",
		Assumptions: []string{
			"empty results are compared as sets of points (any empty rectangle equals any other), as both packages define equality",
		},
		Subs: []Sub{
			{Name: "exhaustive", Quick: 5 * 5 * 5 * 5, Thorough: 5 * 5 * 5 * 5, Run: c07Exhaustive},
			{Name: "rect", Quick: 300000, Thorough: 8000000, Run: c07Rect},
			{Name: "valid", Quick: 60000, Thorough: 1000000, Run: c07Valid},
		},
	})
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

func genIRect(r *Rng, hi int) image.Rectangle {
	return image.Rectangle{Min: image.Pt(r.N(hi), r.N(hi)), Max: image.Pt(r.N(hi), r.N(hi))}
}

// raw conversions of the monitor's own
func toA(r image.Rectangle) (a ansi.Rectangle) {
	a.Min.X, a.Min.Y, a.Max.X, a.Max.Y = r.Min.X+1, r.Min.Y+1, r.Max.X+1, r.Max.Y+1
	return a
}
func toAP(p image.Point) (a ansi.Point) { a.X, a.Y = p.X+1, p.Y+1; return a }
func toI(a ansi.Rectangle) image.Rectangle {
	return image.Rectangle{Min: image.Pt(a.Min.X-1, a.Min.Y-1), Max: image.Pt(a.Max.X-1, a.Max.Y-1)}
}

func c07Pair(t *T, r, s image.Rectangle, q, v image.Point) {
	ar, as, aq := toA(r), toA(s), toAP(q)
	exact := func(what string, got ansi.Rectangle, want image.Rectangle) {
		if toI(got) != want {
			t.Fail("%s of %v, %v, %v is %v (as image %v), image arithmetic gives %v", what, ar, as, v, got, toI(got), want)
		}
	}
	same := func(what string, got ansi.Rectangle, want image.Rectangle) {
		if !toI(got).Eq(want) {
			t.Fail("%s of %v, %v, %v is %v (as image %v), image arithmetic gives %v", what, ar, as, v, got, toI(got), want)
		}
	}
	flag := func(what string, got, want bool) {
		if got != want {
			t.Fail("%s of %v, %v, %v is %v, image arithmetic gives %v", what, ar, as, aq, got, want)
		}
	}
	if got := ansi.RectFromImage(r); got != ar {
		t.Fail("conversion of %v is %v", r, got)
	}
	if got := ar.ToImage(); got != r {
		t.Fail("conversion of %v back to image is %v, want %v", ar, got, r)
	}
	if got := ansi.PtFromImage(q); got != aq {
		t.Fail("conversion of point %v is %v", q, got)
	}
	if got := aq.ToImage(); got != q {
		t.Fail("conversion of point %v back to image is %v", aq, got)
	}
	exact("translation", ar.Add(v), r.Add(v))
	exact("inverse translation", ar.Sub(v), r.Sub(v))
	exact("canonical form", ar.Canon(), r.Canon())
	same("intersection", ar.Intersect(as), r.Intersect(s))
	same("union", ar.Union(as), r.Union(s))
	if x := ar.Intersect(as); x.Empty() && x.Size() != image.ZP {
		t.Fail("empty intersection of %v and %v has size %v", ar, as, x.Size())
	}
	flag("emptiness", ar.Empty(), r.Empty())
	flag("equality", ar.Eq(as), r.Eq(s))
	flag("overlap", ar.Overlaps(as), r.Overlaps(s))
	flag("containment", ar.In(as), r.In(s))
	flag("point containment", aq.In(ar), q.In(r))
	flag("point equality", aq.Eq(ar.Min), q.Eq(r.Min))
	flag("point equality with itself", aq.Eq(toAP(q)), true)
	if ar.Dx() != r.Dx() || ar.Dy() != r.Dy() || ar.Size() != r.Size() {
		t.Fail("size of %v is %v (%d,%d), want %v", ar, ar.Size(), ar.Dx(), ar.Dy(), r.Size())
	}
	if got := aq.Add(v); got != toAP(q.Add(v)) {
		t.Fail("%v plus %v is %v", aq, v, got)
	}
	if got := aq.Sub(v); got != toAP(q.Sub(v)) {
		t.Fail("%v minus %v is %v", aq, v, got)
	}
	if got := aq.Diff(ar.Min); got != q.Sub(r.Min) {
		t.Fail("%v less %v is %v", aq, ar.Min, got)
	}
	if got := ar.Min.Add(aq.Diff(ar.Min)); got != aq {
		t.Fail("difference does not add back: %v", got)
	}
	for n := -3; n <= 3; n++ {
		if r.Min.X >= 0 && r.Max.X >= 0 && r.Min.Y >= 0 && r.Max.Y >= 0 {
			got, want := ar.Inset(n), r.Inset(n)
			if toI(got) != want {
				t.Fail("inset by %d of %v is %v, image arithmetic gives %v", n, ar, got, want)
			}
		}
	}
	if k := t.R(-3, 5); true {
		if m := aq.Mul(k); m.X != aq.X*k || m.Y != aq.Y*k {
			t.Fail("%v times %d is %v", aq, k, m)
		}
		if k != 0 {
			if m := aq.Div(k); m.X != aq.X/k || m.Y != aq.Y/k {
				t.Fail("%v over %d is %v", aq, k, m)
			}
		}
	}
	if s, want := ar.String(), fmt.Sprintf("(%d,%d)-(%d,%d)", ar.Min.X, ar.Min.Y, ar.Max.X, ar.Max.Y); s != want {
		t.Fail("rectangle prints as %s, want %s", s, want)
	}
}

func c07Exhaustive(t *T) {
	i := t.Idx
	r := image.Rectangle{Min: image.Pt(i%5, i/5%5), Max: image.Pt(i/25%5, i/125%5)}
	for j := 0; j < 625; j++ {
		s := image.Rectangle{Min: image.Pt(j%5, j/5%5), Max: image.Pt(j/25%5, j/125%5)}
		c07Pair(t, r, s, image.Pt(j%5, j/5%5), image.Pt(j%3-1, j/3%3-1))
	}
	t.Count("pairs", 625)
	t.Distinct(fmt.Sprint(r))
}

func c07Rect(t *T) {
	hi := 9
	switch t.N(4) {
	case 0:
		hi = 30
	case 1:
		hi = 1 << 20
	}
	r, s := genIRect(t.Rng, hi), genIRect(t.Rng, hi)
	if t.Bool() {
		r, s = r.Canon(), s.Canon()
	}
	if t.P(1, 6) {
		s = r
	}
	c07Pair(t, r, s, image.Pt(t.N(hi), t.N(hi)), image.Pt(t.R(-hi, hi), t.R(-hi, hi)))
	t.Count("pairs", 1)
	t.Sample("%v %v", r, s)
	t.Distinct(fmt.Sprint(r, s))
}

// c07Valid: construction and conversion reject exactly the invalid coordinates.
func c07Valid(t *T) {
	c := func() int {
		switch t.N(8) {
		case 0:
			return t.R(-3, 0)
		case 1:
			return -t.N(1 << 30)
		}
		return t.R(1, 6)
	}
	x0, y0, x1, y1 := c(), c(), c(), c()
	okp := x0 >= 1 && y0 >= 1
	ok := okp && x1 >= 1 && y1 >= 1
	var p ansi.Point
	if got := !panics(func() { p = ansi.Pt(x0, y0) }); got != okp {
		t.Fail("Pt(%d,%d) accepted=%v", x0, y0, got)
	} else if got && (p.X != x0 || p.Y != y0) {
		t.Fail("Pt(%d,%d) = %v", x0, y0, p)
	}
	var raw ansi.Point
	raw.X, raw.Y = x0, y0
	if raw.Valid() != okp {
		t.Fail("%v Valid()=%v", raw, raw.Valid())
	}
	if got := !panics(func() { raw.ToImage() }); got != okp {
		t.Fail("%v.ToImage() accepted=%v", raw, got)
	}
	if got := !panics(func() { ansi.PtFromImage(image.Pt(x0-1, y0-1)) }); got != okp {
		t.Fail("PtFromImage(%d,%d) accepted=%v", x0-1, y0-1, got)
	}
	var r ansi.Rectangle
	if got := !panics(func() { r = ansi.Rect(x0, y0, x1, y1) }); got != ok {
		t.Fail("Rect(%d,%d,%d,%d) accepted=%v", x0, y0, x1, y1, got)
	} else if got && toI(r) != image.Rect(x0-1, y0-1, x1-1, y1-1) {
		t.Fail("Rect(%d,%d,%d,%d) = %v", x0, y0, x1, y1, r)
	}
	var rr ansi.Rectangle
	rr.Min.X, rr.Min.Y, rr.Max.X, rr.Max.Y = x0, y0, x1, y1
	if got := !panics(func() { rr.ToImage() }); got != ok {
		t.Fail("%v.ToImage() accepted=%v", rr, got)
	}
	if got := !panics(func() { ansi.RectFromImage(toI(rr)) }); got != ok {
		t.Fail("RectFromImage(%v) accepted=%v", toI(rr), got)
	}
	if ansi.ZP.Valid() || !ansi.ZR.Empty() {
		t.Fail("zero values")
	}
	t.Distinct(fmt.Sprint(x0, y0, x1, y1))
}
