package main

import (
	"fmt"
	"strings"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:   "C16",
		Rule: "trees of style combinations are built with the library and, independently, as lists of plain functions; both are applied to all of a set of cells and results and calls are compared; non-trivial by combination tree",
		Assumptions: []string{
			"styles combined are non-nil",
		},
		Subs: []Sub{
			{Name: "builtin", Quick: 120000, Thorough: 6000000, Run: c16Builtin},
			{Name: "trees", Quick: 60000, Thorough: 3000000, Run: c16Trees},
			{Name: "sharing", Quick: 40000, Thorough: 2000000, Run: c16Sharing},
		},
	})
}

// cellIn is everything a style gets to see.
type cellIn struct {
	p     ansi.Point
	pr, r rune
	pa, a ansi.SGRAttr
}

type styleFn func(c cellIn) (rune, ansi.SGRAttr)

var styleRunes = []rune{0, 0, ' ', 0x2800, 'x', 'y', 0x28FF, '≡'}

func genCellIn(r *Rng, pal []ansi.SGRAttr) (c cellIn) {
	c.p = ansi.Pt(r.R(1, 20), r.R(1, 20))
	c.pr, c.r = styleRunes[r.N(len(styleRunes))], styleRunes[r.N(len(styleRunes))]
	if r.Bool() {
		c.pa = pal[r.N(len(pal))]
	}
	if r.Bool() {
		c.a = pal[r.N(len(pal))]
	}
	if r.P(1, 10) {
		c = cellIn{} // the documented probe
	}
	return c
}

// attrPalette has attributes with and without each of their parts.
func attrPalette(r *Rng) (pal []ansi.SGRAttr) {
	for i := 0; i < 8; i++ {
		var a ansi.SGRAttr
		if i&1 != 0 {
			a |= genColor(r).FG()
		}
		if i&2 != 0 {
			a |= genColor(r).BG()
		}
		if i&4 != 0 {
			a |= attrFlags[r.N(len(attrFlags))]
		}
		pal = append(pal, a)
	}
	return append(pal, genAttrAny(r), ansi.RGB(0, 0, 0).FG(), ansi.RGB(0, 0, 0).BG(), ansi.SGRBlack.FG(), ansi.SGRBlack.BG())
}

func hasFG(a ansi.SGRAttr) bool { _, set := a.FG(); return set }
func hasBG(a ansi.SGRAttr) bool { _, set := a.BG(); return set }

// keepBG and keepFG are the transparency rules, by attribute parts.
func keepBG(pa, a ansi.SGRAttr) ansi.SGRAttr {
	if c, set := pa.BG(); set && !hasBG(a) {
		a |= c.BG()
	}
	return a
}
func keepFG(pa, a ansi.SGRAttr) ansi.SGRAttr {
	if hasFG(a) {
		return a
	}
	for _, f := range append(attrFlags[:len(attrFlags):len(attrFlags)], ansi.SGRAttrConceal) {
		if a&f != 0 {
			return a
		}
	}
	if c, set := pa.FG(); set {
		a |= c.FG()
	}
	for _, f := range append(attrFlags[:len(attrFlags):len(attrFlags)], ansi.SGRAttrConceal) {
		a |= pa & f
	}
	return a
}

// genStyle makes a leaf style, its meaning, and its name.
func genStyle(r *Rng, pal []ansi.SGRAttr) (anansi.Style, styleFn, string) {
	ru := styleRunes[r.R(2, len(styleRunes)-1)]
	at := pal[r.N(len(pal))]
	switch r.N(12) {
	case 0:
		return anansi.NoopStyle, func(c cellIn) (rune, ansi.SGRAttr) { return c.r, c.a }, "noop"
	case 1:
		return anansi.ZeroRuneStyle(ru), func(c cellIn) (rune, ansi.SGRAttr) {
			if c.r == ru {
				return 0, 0
			}
			return c.r, c.a
		}, fmt.Sprintf("zero%q", ru)
	case 2:
		return anansi.TransparentBrailleRunes, func(c cellIn) (rune, ansi.SGRAttr) {
			if c.r == 0x2800 {
				return 0, 0
			}
			return c.r, c.a
		}, "tbraille"
	case 3:
		return anansi.FillRuneStyle(ru), func(c cellIn) (rune, ansi.SGRAttr) {
			if c.r == 0 {
				return ru, c.a
			}
			return c.r, c.a
		}, fmt.Sprintf("fill%q", ru)
	case 4:
		return anansi.DefaultRuneStyle(ru), func(c cellIn) (rune, ansi.SGRAttr) {
			if c.r == 0 && c.a != 0 {
				return ru, c.a
			}
			return c.r, c.a
		}, fmt.Sprintf("default%q", ru)
	case 5:
		return anansi.AttrStyle(at), func(c cellIn) (rune, ansi.SGRAttr) {
			if c.r != 0 {
				return c.r, at
			}
			return c.r, c.a
		}, fmt.Sprintf("attr(%v)", at)
	case 6:
		return anansi.TransparentRunes, func(c cellIn) (rune, ansi.SGRAttr) {
			if c.r == 0 {
				return c.pr, c.a
			}
			return c.r, c.a
		}, "trune"
	case 7:
		return anansi.TransparentAttrBG, func(c cellIn) (rune, ansi.SGRAttr) { return c.r, keepBG(c.pa, c.a) }, "tbg"
	case 8:
		return anansi.TransparentAttrFG, func(c cellIn) (rune, ansi.SGRAttr) { return c.r, keepFG(c.pa, c.a) }, "tfg"
	case 9:
		return anansi.TransparentAttrBGFG, func(c cellIn) (rune, ansi.SGRAttr) {
			return c.r, keepFG(c.pa, keepBG(c.pa, c.a))
		}, "tbgfg"
	default:
		// something order dependent, of all arguments
		k := r.N(1 << 20)
		f := func(c cellIn) (rune, ansi.SGRAttr) {
			h := hash64(fmt.Sprint(k, c))
			return styleRunes[h%uint64(len(styleRunes))], pal[h>>20%uint64(len(pal))]
		}
		return anansi.StyleFunc(func(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
			return f(cellIn{p, pr, r, pa, a})
		}), f, fmt.Sprintf("f%d", k)
	}
}

func applyAll(fs []styleFn, c cellIn) (rune, ansi.SGRAttr) {
	for _, f := range fs {
		c.r, c.a = f(c)
	}
	return c.r, c.a
}

func checkStyle(t *T, s anansi.Style, fs []styleFn, what string, pal []ansi.SGRAttr, n int) {
	for ; n > 0; n-- {
		c := genCellIn(t.Rng, pal)
		gr, ga := s.Style(c.p, c.pr, c.r, c.pa, c.a)
		wr, wa := applyAll(fs, c)
		if gr != wr || ga != wa {
			t.Fail("%s styled %+v as %q %v, expected %q %v", what, c, gr, ga, wr, wa)
		}
		t.Count("cells_styled", 1)
	}
}

func c16Builtin(t *T) {
	pal := attrPalette(t.Rng)
	s, f, name := genStyle(t.Rng, pal)
	checkStyle(t, s, []styleFn{f}, name, pal, 30)
	if t.P(1, 4) {
		// a lone style, and no style at all
		checkStyle(t, anansi.Styles(s), []styleFn{f}, "Styles("+name+")", pal, 10)
		checkStyle(t, anansi.Styles(), nil, "Styles()", pal, 4)
	}
	t.Distinct(name)
}

// styleTree builds a nested combination and its flat meaning.
func styleTree(r *Rng, pal []ansi.SGRAttr, depth int) (anansi.Style, []styleFn, string) {
	if depth == 0 || r.P(1, 3) {
		s, f, name := genStyle(r, pal)
		return s, []styleFn{f}, name
	}
	var ss []anansi.Style
	var fs []styleFn
	var names []string
	for n := r.N(5); n > 0; n-- {
		s, f, name := styleTree(r, pal, depth-1)
		ss, fs, names = append(ss, s), append(fs, f...), append(names, name)
	}
	return anansi.Styles(ss...), fs, "(" + strings.Join(names, " ") + ")"
}

func c16Trees(t *T) {
	pal := attrPalette(t.Rng)
	s, fs, name := styleTree(t.Rng, pal, 4)
	if s == nil {
		t.Fail("combination %s is nil", name)
	}
	checkStyle(t, s, fs, name, pal, 30)
	t.Sample("%s", name)
	t.Distinct(name)
}

// c16Sharing builds many combinations from shared parts, and checks all of
// them once all are built.
func c16Sharing(t *T) {
	pal := attrPalette(t.Rng)
	type entry struct {
		s    anansi.Style
		fs   []styleFn
		name string
	}
	var pool []entry
	for n := t.R(1, 5); n > 0; n-- {
		s, f, name := genStyle(t.Rng, pal)
		pool = append(pool, entry{s, []styleFn{f}, name})
	}
	args := make([]anansi.Style, 0, 8)
	for n := t.R(2, 12); n > 0; n-- {
		args = args[:0]
		var e entry
		for k := t.N(5); k > 0; k-- {
			o := pool[t.N(len(pool))]
			if t.Bool() {
				o = pool[len(pool)-1-t.N(min(len(pool), 3))]
			}
			args = append(args, o.s)
			e.fs = append(e.fs[:len(e.fs):len(e.fs)], o.fs...)
			e.name += " " + o.name
		}
		if len(e.fs) > 300 {
			continue
		}
		keep := append([]anansi.Style(nil), args...)
		e.s = anansi.Styles(args...)
		for i := range keep {
			if fmt.Sprintf("%T", keep[i]) != fmt.Sprintf("%T", args[i]) {
				t.Fail("combining changed argument %d from %T to %T", i, keep[i], args[i])
			}
		}
		// the argument list is the caller's
		for i := range args[:cap(args)] {
			args[:cap(args)][i] = anansi.FillRuneStyle('!')
		}
		e.name = "(" + e.name + ")"
		if len(e.name) > 300 {
			e.name = e.name[:300] + fmt.Sprint(hash64(e.name))
		}
		pool = append(pool, e)
	}
	key := ""
	for _, e := range pool {
		checkStyle(t, e.s, e.fs, e.name, pal, 5)
		key += e.name
	}
	t.Distinct(fmt.Sprint(hash64(key)))
	t.Count("combinations", len(pool))
}
