package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:   "C05",
		Rule: "attribute pairs drawn over all flag subsets and colour kinds (explicit clear or not), the second often a small edit of the first; rendition parameter lists drawn over all supported codes and interpreted by an independent terminal model; non-trivial by the pair, or by the list",
		Assumptions: []string{
			"supported rendition codes: 0-8, 30-37, 40-47, 90-97, 100-107, 38/48;5;n, 38/48;2;r;g;b (5 and 6, blink, are accepted and ignored)",
		},
		Subs: []Sub{
			{Name: "flags", Quick: 128 * 128, Thorough: 128 * 128, Run: c05Flags},
			{Name: "pair", Quick: 300000, Thorough: 10000000, Run: c05Pair},
			{Name: "chain", Quick: 40000, Thorough: 1000000, Run: c05Chain},
			{Name: "codec", Quick: 200000, Thorough: 6000000, Run: c05Codec},
			{Name: "codes", Quick: 200000, Thorough: 6000000, Run: c05Codes},
			{Name: "malformed", Quick: 100000, Thorough: 3000000, Run: c05Malformed},
		},
	})
}

var allAttrFlags = []ansi.SGRAttr{
	ansi.SGRAttrBold, ansi.SGRAttrDim, ansi.SGRAttrItalic, ansi.SGRAttrUnderscore, ansi.SGRAttrNegative, ansi.SGRAttrConceal,
}

// rend is the reference terminal's graphic rendition.
type rend struct {
	flags  uint8 // bit i: allAttrFlags[i]
	fg, bg int64 // -1 default, 0-255 indexed, 1<<24|rgb direct
}

var rend0 = rend{0, -1, -1}

// apply interprets one parameter list as a terminal does; false if not understood.
func (r *rend) apply(arg string) bool {
	if arg == "" {
		*r = rend0
		return true
	}
	var nums []int
	for _, s := range strings.Split(arg, ";") {
		n, err := strconv.Atoi(s)
		if err != nil || n < 0 {
			return false
		}
		nums = append(nums, n)
	}
	for i := 0; i < len(nums); i++ {
		switch n := nums[i]; {
		case n == 0:
			*r = rend0
		case n >= 1 && n <= 4:
			r.flags |= 1 << uint(n-1)
		case n == 5 || n == 6:
		case n == 7:
			r.flags |= 1 << 4
		case n == 8:
			r.flags |= 1 << 5
		case n >= 30 && n <= 37:
			r.fg = int64(n - 30)
		case n >= 40 && n <= 47:
			r.bg = int64(n - 40)
		case n >= 90 && n <= 97:
			r.fg = int64(n - 90 + 8)
		case n >= 100 && n <= 107:
			r.bg = int64(n - 100 + 8)
		case n == 38 || n == 48:
			var c int64
			switch {
			case i+2 < len(nums) && nums[i+1] == 5 && nums[i+2] < 256:
				c = int64(nums[i+2])
				i += 2
			case i+4 < len(nums) && nums[i+1] == 2 && nums[i+2] < 256 && nums[i+3] < 256 && nums[i+4] < 256:
				c = 1<<24 | int64(nums[i+2])<<16 | int64(nums[i+3])<<8 | int64(nums[i+4])
				i += 4
			default:
				return false
			}
			if n == 38 {
				r.fg = c
			} else {
				r.bg = c
			}
		default:
			return false
		}
	}
	return true
}

func colorCode(c ansi.SGRColor) int64 {
	// the only public view of whether a colour is direct is its own 24-bit form
	if c == c.To24Bit() {
		r, g, b := c.RGB()
		return 1<<24 | int64(r)<<16 | int64(g)<<8 | int64(b)
	}
	return int64(c)
}

// rendOf is the rendition an attribute value stands for.
func rendOf(a ansi.SGRAttr) rend {
	r := rend0
	for i, f := range allAttrFlags {
		if a&f != 0 {
			r.flags |= 1 << uint(i)
		}
	}
	if c, ok := a.FG(); ok {
		r.fg = colorCode(c)
	}
	if c, ok := a.BG(); ok {
		r.bg = colorCode(c)
	}
	return r
}

func sansClear(a ansi.SGRAttr) ansi.SGRAttr { return a &^ ansi.SGRAttrClear }

func genAttrAny(r *Rng) (a ansi.SGRAttr) {
	k := r.R(1, 3)
	for _, f := range allAttrFlags {
		if r.P(k, 4) {
			a |= f
		}
	}
	if r.Bool() {
		a |= genColor(r).FG()
	}
	if r.Bool() {
		a |= genColor(r).BG()
	}
	return a
}

// mutateAttr makes a neighbour of a.
func mutateAttr(r *Rng, a ansi.SGRAttr) ansi.SGRAttr {
	for n := r.N(3); n >= 0; n-- {
		switch r.N(5) {
		case 0, 1:
			a ^= allAttrFlags[r.N(6)]
		case 2:
			a = a.SansFG()
			if r.Bool() {
				a |= genColor(r).FG()
			}
		case 3:
			a = a.SansBG()
			if r.Bool() {
				a |= genColor(r).BG()
			}
		case 4: // same colour on the other ground
			if c, ok := a.FG(); ok {
				a = a.SansBG() | c.BG()
			} else if c, ok := a.BG(); ok {
				a = a.SansFG() | c.FG()
			}
		}
	}
	return a
}

func sgrArg(t *T, enc []byte) string {
	e, a, n := ansi.DecodeEscape(append(append([]byte(nil), enc...), "1;m"...))
	if e != ansi.SGR || n != len(enc) {
		t.Fail("%q is not one rendition sequence: %v %q %d", enc, e, a, n)
	}
	return string(a)
}

func c05Check(t *T, a, b ansi.SGRAttr) {
	d := a.Diff(b)
	if m := a.Merge(d); sansClear(m) != sansClear(b) {
		t.Fail("from %v, difference to %v is %v, which merges to %v", a, b, d, m)
	}
	if a&ansi.SGRAttrClear == 0 && a == b && d != 0 {
		t.Fail("difference of %v to itself is %v", a, d)
	}
	if b&ansi.SGRAttrClear != 0 && d&ansi.SGRAttrClear == 0 {
		t.Fail("difference to %v lost the clear: %v", b, d)
	}
	// what a terminal makes of the encoded difference and of the encoded b
	r := rendOf(a)
	if d != 0 {
		if arg := sgrArg(t, d.AppendTo(nil)); !r.apply(arg) {
			t.Fail("terminal does not understand %q for %v", arg, d)
		}
	}
	if r != rendOf(b) {
		t.Fail("a terminal at %v sent the difference %v to %v ends at %+v", a, d, b, r)
	}
	// merge vs terminal
	r = rendOf(a)
	if b != 0 {
		r.apply(sgrArg(t, b.AppendTo(nil)))
	}
	if m := a.Merge(b); rendOf(m) != r {
		t.Fail("%v merged with %v is %v, but a terminal ends at %+v", a, b, m, r)
	}
	if m := a.Merge(0); m != a {
		t.Fail("merging nothing into %v makes %v", a, m)
	}
	if m := a.Merge(b | ansi.SGRAttrClear); sansClear(m) != sansClear(b) {
		t.Fail("a clear with %v does not discard %v: %v", b, a, m)
	}
	// minimal: no part of the difference is already in effect
	if d&ansi.SGRAttrClear == 0 {
		if d&a&ansi.SGRAttrMask != 0 {
			t.Fail("from %v to %v the difference %v repeats flags", a, b, d)
		}
		if c, ok := d.FG(); ok {
			if ac, aok := a.FG(); aok && ac == c {
				t.Fail("from %v to %v the difference %v repeats the foreground", a, b, d)
			}
		}
		if c, ok := d.BG(); ok {
			if ac, aok := a.BG(); aok && ac == c {
				t.Fail("from %v to %v the difference %v repeats the background", a, b, d)
			}
		}
	}
	// parts
	for _, x := range []ansi.SGRAttr{a, b} {
		rx, y := rendOf(x), rendOf(x.SansFG())
		if rx.fg = -1; rx != y {
			t.Fail("%v without foreground is %v", x, x.SansFG())
		}
		rx, y = rendOf(x), rendOf(x.SansBG())
		if rx.bg = -1; rx != y {
			t.Fail("%v without background is %v", x, x.SansBG())
		}
	}
	t.Count("diffs", 1)
}

func c05Flags(t *T) {
	set := func(n int) (a ansi.SGRAttr) {
		if n&64 != 0 {
			a |= ansi.SGRAttrClear
		}
		for i, f := range allAttrFlags {
			if n&(1<<uint(i)) != 0 {
				a |= f
			}
		}
		return a
	}
	a, b := set(t.Idx%128)&^ansi.SGRAttrClear, set(t.Idx/128)
	c05Check(t, a, b)
	c := genColor(t.Rng)
	c05Check(t, a|c.FG(), b|c.BG())
	c05Check(t, a|c.FG(), b|c.FG())
	c05Check(t, a|c.BG(), b)
	t.Distinct(fmt.Sprint(uint64(a), uint64(b)))
}

func c05Pair(t *T) {
	a := genAttrAny(t.Rng)
	var b ansi.SGRAttr
	if t.Bool() {
		b = mutateAttr(t.Rng, a)
	} else {
		b = genAttrAny(t.Rng)
	}
	if t.P(1, 6) {
		b |= ansi.SGRAttrClear
	}
	c05Check(t, a, b)
	t.Sample("%v -> %v", a, b)
	t.Distinct(fmt.Sprint(uint64(a), uint64(b)))
}

// c05Chain: a terminal kept up to date by differences over a long history.
func c05Chain(t *T) {
	cur, term := ansi.SGRAttr(0), rend0
	d := ""
	for n := t.R(3, 30); n > 0; n-- {
		next := mutateAttr(t.Rng, cur)
		if t.P(1, 4) {
			next = genAttrAny(t.Rng)
		}
		if t.P(1, 10) {
			next |= ansi.SGRAttrClear
		}
		diff := cur.Diff(next)
		cur = cur.Merge(diff)
		if diff != 0 {
			term.apply(sgrArg(t, diff.AppendTo(nil)))
		}
		t.Logf("to %v by %v: %v, terminal %+v", next, diff, cur, term)
		if sansClear(cur) != sansClear(next) || term != rendOf(next) {
			t.Fail("after a chain of differences state is %v, terminal %+v, want %v", cur, term, next)
		}
		d += fmt.Sprint(uint64(next), " ")
	}
	t.Distinct(d)
}

func c05Codec(t *T) {
	a := genAttrAny(t.Rng)
	if t.P(1, 3) {
		a |= ansi.SGRAttrClear
	}
	pre := []byte("xy")[:2:2]
	if t.Bool() {
		pre = append(make([]byte, 0, 80), "xy"...)
	}
	enc := a.AppendTo(pre)
	if string(enc[:2]) != "xy" {
		t.Fail("appending %v overwrote: %q", a, enc)
	}
	enc = enc[2:]
	if a.Size() < len(enc) {
		t.Fail("%v announces %d bytes, encodes as %d: %q", a, a.Size(), len(enc), enc)
	}
	if s := a.ControlString(); s != string(enc) {
		t.Fail("%v control string %q, encoding %q", a, s, enc)
	}
	arg := sgrArg(t, enc)
	want := a
	if a == 0 {
		want = ansi.SGRAttrClear // documented: no bits encode as a clear
	}
	got, n, err := ansi.DecodeSGR([]byte(arg))
	if err != nil || n != len(arg) || got != want {
		t.Fail("%v encodes as %q, which decodes as %v (%d of %d, %v)", a, arg, got, n, len(arg), err)
	}
	t.Distinct(fmt.Sprint(uint64(a)))
}

// genSGRCodes makes a list of supported rendition codes.
func genSGRCodes(r *Rng) string {
	var ss []string
	num := func(n int) string {
		s := strconv.Itoa(n)
		if r.P(1, 12) {
			s = "0" + s
		}
		return s
	}
	for n := r.R(1, 7); n > 0; n-- {
		switch r.N(8) {
		case 0:
			ss = append(ss, num(0))
		case 1, 2:
			ss = append(ss, num(r.R(1, 8)))
		case 3:
			ss = append(ss, num(r.R(30, 37)))
		case 4:
			ss = append(ss, num(r.R(40, 47)))
		case 5:
			ss = append(ss, num([]int{90, 100}[r.N(2)]+r.N(8)))
		case 6:
			ss = append(ss, []string{"38", "48"}[r.N(2)], "5", num(r.N(256)))
		case 7:
			ss = append(ss, []string{"38", "48"}[r.N(2)], "2", num(r.N(256)), num(r.N(256)), num(r.N(256)))
		}
	}
	return strings.Join(ss, ";")
}

func c05Codes(t *T) {
	arg := genSGRCodes(t.Rng)
	if t.P(1, 50) {
		arg = ""
	}
	got, n, err := ansi.DecodeSGR([]byte(arg))
	if err != nil || n != len(arg) {
		t.Fail("%q: consumed %d of %d, %v", arg, n, len(arg), err)
	}
	start := rend{uint8(t.N(64)), int64(t.N(256)), int64(t.N(256))}
	// the list applied to some prior state equals merging its decoding into that state
	var prior ansi.SGRAttr
	for i, f := range allAttrFlags {
		if start.flags&(1<<uint(i)) != 0 {
			prior |= f
		}
	}
	prior |= ansi.SGRColor(start.fg).FG() | ansi.SGRColor(start.bg).BG()
	want := start
	if !want.apply(arg) {
		t.Fail("reference does not understand %q", arg)
	}
	if m := rendOf(prior.Merge(got)); m != want {
		t.Fail("%q applied to %v: decoding %v merges to %+v, a terminal would have %+v", arg, prior, got, m, want)
	}
	t.Distinct(arg)
}

func c05Malformed(t *T) {
	good := ""
	if t.Bool() {
		good = genSGRCodes(t.Rng) + ";"
	}
	bad := []string{"9x", "x", "1x", "31:2", "300", "3a", "38;5;256", "38;2;1;2;300", "38;3;1", "38", "38;5", "38;2", "48;2;1;2", "48;5",
		"?1", ">4", "110", "12", "1001", "99", "48", "109", "-1", "38;2;1;2", "4 ", "39x", "107x", "91x", "47x", "38;5;x", "38;5;1x", "38;2;1;x;2"}[t.N(32)]
	arg := good + bad
	if t.P(1, 3) && !strings.HasPrefix(bad, "38") && !strings.HasPrefix(bad, "48") {
		arg += ";" + genSGRCodes(t.Rng)
	}
	_, n, err := ansi.DecodeSGR([]byte(arg))
	if err == nil {
		t.Fail("malformed %q decodes without error", arg)
	}
	if n < len(good) || n > len(arg) {
		t.Fail("malformed %q reports its error at %d, outside the offending part", arg, n)
	}
	t.Distinct(arg)
}
