package main

import "github.com/jcorbin/anansi/ansi"

var attrFlags = []ansi.SGRAttr{
	ansi.SGRAttrBold, ansi.SGRAttrDim, ansi.SGRAttrItalic, ansi.SGRAttrUnderscore, ansi.SGRAttrNegative,
}

func genColor(r *Rng) ansi.SGRColor {
	switch r.N(4) {
	case 0:
		return ansi.SGRColor(r.N(8))
	case 1:
		return ansi.SGRColor(8 + r.N(8))
	case 2:
		return ansi.SGRColor(16 + r.N(240))
	default:
		if r.P(1, 4) {
			return ansi.RGB(uint8(r.N(2)*255), uint8(r.N(2)*255), uint8(r.N(2)*255))
		}
		return ansi.RGB(r.Byte(), r.Byte(), r.Byte())
	}
}

// genAttr makes an attribute without the explicit clear bit.
func genAttr(r *Rng) (a ansi.SGRAttr) {
	for _, f := range attrFlags {
		if r.P(1, 4) {
			a |= f
		}
	}
	if r.Bool() {
		a |= genColor(r).FG()
	}
	if r.Bool() {
		a |= genColor(r).BG()
	}
	return a
}
