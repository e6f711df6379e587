package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:   "C04",
		Rule: "random identifiers with random legal byte and integer arguments, derived from each other in trees; non-trivial by (identifier, argument counts, derivation depth)",
		Assumptions: []string{
			"integer arguments stay within 32 bits, the range the decoder accepts",
			"a two-character escape named @ to _ is the 7-bit form of a C1 control and decodes as that control",
		},
		Subs: []Sub{
			{Name: "tree", Quick: 60000, Thorough: 2500000, Run: c04Tree},
			{Name: "bare", Quick: 4000, Thorough: 100000, Run: c04Bare},
			{Name: "append", Quick: 60000, Thorough: 2500000, Run: c04Append},
			{Name: "number", Quick: 200000, Thorough: 8000000, Run: c04Number},
			{Name: "mode", Quick: 60000, Thorough: 2000000, Run: c04Mode},
			{Name: "buffer", Quick: 30000, Thorough: 1000000, Run: c04Buffer},
		},
	})
}

const stringIntro = "P]^_" // DCS OSC PM APC

// genInt32 makes an integer spread over magnitudes.
func genInt32(r *Rng) int {
	v := int(r.U64()>>33) >> uint(r.N(32))
	if r.P(1, 8) {
		return -v
	}
	return v
}

// model of a sequence
type seqM struct {
	id   ansi.Escape
	b    string
	ints []int
}

func (m seqM) args() string {
	var ss []string
	for _, n := range m.ints {
		ss = append(ss, strconv.Itoa(n))
	}
	return m.b + strings.Join(ss, ";")
}

func (m seqM) enc() string {
	switch id := m.id; {
	case id < 0x20:
		return string(rune(id)) + m.b
	case id >= 0xEF80:
		return "\x1b[" + m.args() + string(rune(id&0x7F))
	case id >= 0xEF20 && id <= 0xEF2F:
		return "\x1b" + string(rune(id&0x7F)) + m.b[:1]
	default:
		return "\x1b" + m.b + string(rune(id&0x7F))
	}
}

func genSeqID(r *Rng) ansi.Escape {
	switch r.N(6) {
	case 0:
		for {
			if c := ansi.Escape(r.R(1, 0x1F)); c != 0x1B {
				return c
			}
		}
	case 1:
		return ansi.ESC(byte(r.R(0x20, 0x2F)))
	case 2:
		if r.Bool() {
			return ansi.ESC(byte(r.R(0x30, 0x3F)))
		}
		return ansi.ESC(byte(r.R(0x60, 0x7E)))
	default:
		return ansi.CSI(byte(r.R(0x40, 0x7E)))
	}
}

func genSeqBytes(r *Rng, id ansi.Escape, have int) (b []byte) {
	n := r.N(6)
	if r.P(1, 20) {
		n = r.N(40)
	}
	switch {
	case id < 0x20:
		n = r.N(3)
		for ; n > 0; n-- {
			b = append(b, byte(r.R(0x20, 0x7E)))
		}
	case id >= 0xEF80:
		for ; n > 0; n-- {
			b = append(b, "0123456789:;<=>?"[r.N(16)])
		}
	case id <= 0xEF2F:
		if have == 0 {
			b = append(b, byte(r.R(0x30, 0x7E)))
		}
	default: // intermediates; exactly one would name a character set
		if have == 0 && n == 1 {
			n = 2
		}
		for ; n > 0; n-- {
			b = append(b, byte(r.R(0x20, 0x2F)))
		}
	}
	return b
}

var c04Suffixes = []string{"", "x", "\x1b[A", "5", ";", "m", "\x1b", "世", "\x00", "?", "\u009c"}

func checkDecodes(t *T, what string, enc []byte, id ansi.Escape, arg string) {
	for k := 0; k < 2; k++ {
		suf := c04Suffixes[t.N(len(c04Suffixes))]
		p := append(append([]byte(nil), enc...), suf...)
		e, a, n := ansi.DecodeEscape(p)
		if e != id || string(a) != arg || n != len(enc) {
			t.Fail("%s encodes as %q, which followed by %q decodes as %v %q consuming %d", what, enc, suf, e, a, n)
		}
	}
}

func c04Tree(t *T) {
	type node struct {
		s ansi.Seq
		m seqM
		d int
	}
	var nodes []node
	desc := ""
	for k := t.R(2, 9); k > 0; k-- {
		var nd node
		if len(nodes) == 0 || t.P(1, 3) {
			id := genSeqID(t.Rng)
			b := genSeqBytes(t.Rng, id, 0)
			nd = node{s: id.With(b...), m: seqM{id: id, b: string(b)}}
			t.Logf("%v.With(%q)", id, b)
		} else {
			par := nodes[t.N(len(nodes))]
			nd = par
			nd.d++
			id := par.m.id
			if id >= 0xEF80 && t.Bool() {
				var ns []int
				for n := t.N(6); n > 0; n-- {
					ns = append(ns, genInt32(t.Rng))
				}
				nd.m.ints = append(append([]int(nil), par.m.ints...), ns...)
				if len(ns) == 2 && t.Bool() {
					nd.s = par.s.WithPoint(ansi.Point{}.Add(imgPt(ns[1], ns[0])))
				} else {
					nd.s = par.s.WithInts(ns...)
				}
				t.Logf("%v.WithInts(%v)", par.s, ns)
			} else {
				b := genSeqBytes(t.Rng, id, len(par.m.b))
				arg := append([]byte(nil), b...)
				nd.s = par.s.With(arg...)
				nd.m.b += string(b)
				for i := range arg {
					arg[i] = '!' // the caller's slice is the caller's
				}
				t.Logf("%v.With(%q)", par.s, b)
			}
		}
		nodes = append(nodes, nd)
		desc += fmt.Sprintf("%v/%d/%d/%d ", nd.m.id, len(nd.m.b), len(nd.m.ints), nd.d)
		// deriving must not have changed anything made before
		for _, o := range nodes {
			if o.m.id >= 0xEF20 && o.m.id <= 0xEF2F && o.m.b == "" {
				continue // a character set selection needs its argument
			}
			pre := []byte("pre")[:3:3]
			if t.Bool() {
				pre = append(make([]byte, 0, 100), pre...)
			}
			got := o.s.AppendTo(pre)
			if string(got[:3]) != "pre" {
				t.Fail("appending %v overwrote what was there: %q", o.s, got)
			}
			if string(got[3:]) != o.m.enc() {
				t.Fail("%v encodes as %q, want %q", o.s, got[3:], o.m.enc())
			}
			if o.s.Size() < len(o.m.enc()) {
				t.Fail("%v announces %d bytes but encodes as %d: %q", o.s, o.s.Size(), len(o.m.enc()), o.m.enc())
			}
			if o.s.ID() != o.m.id {
				t.Fail("identifier %v, want %v", o.s.ID(), o.m.id)
			}
		}
		if nd.m.id >= 0xEF20 && (nd.m.b != "" || nd.m.id > 0xEF2F) {
			checkDecodes(t, nd.s.String(), []byte(nd.m.enc()), nd.m.id, nd.m.args())
			t.Count("decoded", 1)
		}
	}
	t.Sample("%s", desc)
	t.Distinct(desc)
}

// c04Bare: identifiers on their own, exhaustively.
func c04Bare(t *T) {
	all := []ansi.Escape{}
	for i := ansi.Escape(1); i <= 0x1F; i++ {
		all = append(all, i)
	}
	for i := ansi.Escape(0x80); i <= 0x9F; i++ {
		all = append(all, i)
	}
	for i := ansi.Escape(0xEF30); i <= 0xEF7E; i++ {
		all = append(all, i)
	}
	for i := ansi.Escape(0xEFC0); i <= 0xEFFE; i++ {
		all = append(all, i)
	}
	id := all[t.Idx%len(all)]
	enc := id.AppendTo([]byte("ab"))
	if string(enc[:2]) != "ab" {
		t.Fail("appending %v overwrote: %q", id, enc)
	}
	enc = enc[2:]
	if len(enc) == 0 {
		t.Fail("%v (%U) encodes as nothing", id, rune(id))
	}
	if id.Size() < len(enc) {
		t.Fail("%v announces %d bytes, encodes as %d", id, id.Size(), len(enc))
	}
	if enc2 := id.AppendWith(nil); !(id >= 0x90 && id <= 0x9F) && !bytes.Equal(enc, enc2) {
		t.Fail("%v encodes as %q, with no argument as %q", id, enc, enc2)
	}
	var b anansi.Buffer
	if n := b.WriteESC(id); n != len(enc) || !bytes.Equal(b.Bytes(), enc) {
		t.Fail("%v written as %q (%d)", id, b.Bytes(), n)
	}
	want := id
	switch {
	case id < 0x20:
		if len(enc) != 1 || rune(enc[0]) != rune(id) {
			t.Fail("control %v encodes as %q", id, enc)
		}
	case id < 0xA0:
		if r, n := ansi.DecodeRune(enc); r != rune(id) || n != len(enc) {
			t.Fail("%v encodes as %q, which decodes as rune %U, %d bytes", id, enc, r, n)
		}
	case id >= 0xEF40 && id <= 0xEF5F:
		if r, n := ansi.DecodeRune(enc); r != rune(id)-0xEF40+0x80 || n != len(enc) {
			t.Fail("%v encodes as %q, which decodes as rune %U, %d bytes", id, enc, r, n)
		}
	default:
		checkDecodes(t, id.String(), enc, want, "")
	}
	// names: IsEscape, ESC, CSI agree with the construction
	// switching character sets means nothing to a UTF-8 terminal
	esc, _ := id.ESC()
	if want := id == 0x0E || id == 0x0F || id == 0x8E || id == 0x8F || esc != 0 && strings.IndexByte("()*+,-./klmno|}~", esc) >= 0; id.IsCharacterSetControl() != want {
		t.Fail("%U IsCharacterSetControl=%v", rune(id), !want)
	}
	if id.IsEscape() != (id >= 0xEF00) {
		t.Fail("%U IsEscape=%v", rune(id), id.IsEscape())
	}
	if c, ok := id.ESC(); ok != (id >= 0xEF00 && id < 0xEF7F) || ok && ansi.ESC(c) != id {
		t.Fail("%U ESC()=%q,%v", rune(id), c, ok)
	}
	if c, ok := id.CSI(); ok != (id >= 0xEF80) || ok && ansi.CSI(c) != id {
		t.Fail("%U CSI()=%q,%v", rune(id), c, ok)
	}
	t.Distinct(id.String())
}

// c04Append: what was decoded re-encodes to something that decodes the same.
func c04Append(t *T) {
	var p []byte
	for len(p) == 0 || exoticInESC(p) {
		p = genStream(t.Rng, t.R(1, 6), t.P(1, 4))
	}
	if _, held := refDecode(p, false); len(held) > 0 {
		p = append(p, "\x1b\\"...)
		if _, held := refDecode(p, false); len(held) > 0 {
			p = p[:len(p)-2-len(held)]
		}
	}
	evs, held := refDecode(p, false)
	if len(held) > 0 {
		evs, _ = refDecode(p[:len(p)-len(held)], false)
	}
	t.Logf("stream %q", p)
	out := []byte("<")
	var want []ev
	for _, e := range evs {
		if e.id == 0 || e.id == 0x1B {
			continue
		}
		if e.id.IsEscape() || e.id < 0x20 || e.id >= 0x80 && e.id < 0xA0 {
			for i := 0; i < len(e.arg); i++ { // a malformed control sequence may have swallowed anything
				if c := e.arg[i]; e.id >= 0xEF00 && (c < 0x20 || c > 0x3F) && !(e.id <= 0xEF2F) {
					goto skip
				}
				if c := e.arg[i]; e.id < 0xA0 && (c == 0x1B || c >= 0x80) {
					goto skip
				}
			}
			out = e.id.AppendWith(out, []byte(e.arg)...)
		} else {
			out = append(out, string(rune(e.id))...)
		}
		want = append(want, e)
	skip:
	}
	if out[0] != '<' {
		t.Fail("appending overwrote what was there: %q", out)
	}
	got, rest := refDecode(out[1:], false)
	if d := diffEvs(want, got); d != "" {
		t.Fail("re-encoding of %q as %q decodes differently: %s", p, out[1:], d)
	}
	if len(rest) > 0 {
		t.Fail("re-encoding of %q as %q is unfinished: %q", p, out[1:], rest)
	}
	t.Count("reencoded", len(want))
	t.Distinct(evsString(want))
}

func c04Number(t *T) {
	v := genInt32(t.Rng)
	if t.P(1, 8) {
		v = []int{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, -(1 << 31), -(1<<32 - 1), 9, 10, 99, 100}[t.N(11)]
	}
	s := strconv.Itoa(v)
	switch t.N(4) {
	case 0:
		if v > 0 {
			s = "+" + s
		}
	case 1:
		s = ";" + s
	case 2:
		if v >= 0 {
			s = strings.Repeat("0", t.N(20)) + s
		}
	}
	tail := t.Pick("", ";", ";12", "m", "x9", " ", "-", ":", "\xff", "/")
	n, m, err := ansi.DecodeNumber([]byte(s + tail))
	if err != nil || n != v || m != len(s) {
		t.Fail("number %q decodes as %d, %d bytes, %v", s+tail, n, m, err)
	}
	// out of range is an error, never a wrong value
	big := strconv.FormatUint(1<<32+t.U64()>>uint(1+t.N(31)), 10) + t.Pick("", "0", "00", "000000000", "99999999999999999999999")
	if t.Bool() {
		big = "-" + big
	}
	if n, m, err := ansi.DecodeNumber([]byte(big + tail)); err == nil {
		t.Fail("out of range number %q decodes as %d, %d bytes, no error", big+tail, n, m)
	} else if m > len(big+tail) || m < 0 {
		t.Fail("out of range number %q consumes %d", big+tail, m)
	}
	if n, m, err := ansi.DecodeNumber([]byte(t.Pick("", ";", "-", "+", ";-", "x", ";x", "-x", ":1", ";;1"))); err == nil {
		t.Fail("malformed number decodes as %d, %d bytes, no error", n, m)
	}
	// points
	x, y := t.R(1, 1<<uint(t.R(1, 30))), t.R(1, 1<<uint(t.R(1, 30)))
	for _, id := range []ansi.Escape{ansi.CUP, ansi.HVP} {
		enc := id.WithPoint(ansi.Pt(x, y)).AppendTo(nil)
		e, a, k := ansi.DecodeEscape(enc)
		if want := fmt.Sprintf("%d;%d", y, x); e != id || string(a) != want || k != len(enc) {
			t.Fail("point (%d,%d) encodes as %q", x, y, enc)
		}
		if p, k, err := ansi.DecodePoint(a); err != nil || p != ansi.Pt(x, y) || k != len(a) {
			t.Fail("point argument %q decodes as %v, %d bytes, %v", a, p, k, err)
		}
	}
	// cardinal moves
	d := t.R(1, 1<<uint(t.R(1, 30)))
	for i, id := range []ansi.Escape{ansi.CUU, ansi.CUD, ansi.CUF, ansi.CUB} {
		want := []struct{ X, Y int }{{0, -d}, {0, d}, {d, 0}, {-d, 0}}[i]
		if p, ok := ansi.DecodeCursorCardinal(id, []byte(strconv.Itoa(d))); !ok || p.X != want.X || p.Y != want.Y {
			t.Fail("%v %d decodes as %v %v", id, d, p, ok)
		}
		if p, ok := ansi.DecodeCursorCardinal(id, nil); !ok || p.X != want.X/d || p.Y != want.Y/d {
			t.Fail("%v without argument decodes as %v %v", id, p, ok)
		}
	}
	if _, ok := ansi.DecodeCursorCardinal(ansi.CUP, nil); ok {
		t.Fail("CUP taken for a cardinal move")
	}
	t.Distinct(s + tail)
}

func c04Mode(t *T) {
	mode := ansi.Mode(t.R(0, 1<<uint(t.R(1, 20))))
	priv := t.Bool()
	if priv {
		mode |= ansi.ModePrivate
	}
	num := int(mode &^ ansi.ModePrivate)
	for i, s := range []ansi.Seq{mode.Set(), mode.Reset()} {
		enc := s.AppendTo(nil)
		want := "\x1b["
		if priv {
			want += "?"
		}
		want += strconv.Itoa(num) + string("hl"[i])
		if string(enc) != want {
			t.Fail("mode %x encodes as %q, want %q", uint64(mode), enc, want)
		}
		_, a, _ := ansi.DecodeEscape(append(enc, 'x'))
		if priv {
			a = a[1:]
		}
		if m, n, err := ansi.DecodeMode(priv, a); err != nil || m != mode || n != len(a) {
			t.Fail("mode argument %q decodes as %x, %d, %v", a, uint64(m), n, err)
		}
	}
	// a list of modes
	var list []ansi.Mode
	arg := ""
	for n := t.R(1, 6); n > 0; n-- {
		m := ansi.Mode(t.N(3000))
		list = append(list, m|ansi.ModePrivate)
		if arg != "" {
			arg += ";"
		}
		arg += strconv.Itoa(int(m))
	}
	for i, n := 0, 0; n < len(arg); i++ {
		m, k, err := ansi.DecodeMode(true, []byte(arg[n:]))
		if err != nil || k <= 0 || i >= len(list) || m != list[i] {
			t.Fail("mode list %q: item %d decodes as %x, %d, %v", arg, i, uint64(m), k, err)
		}
		n += k
	}
	// building modes must not have changed the shared prefixes
	if s := string(ansi.SMprivate.AppendTo(nil)); s != "\x1b[?h" {
		t.Fail("private set prefix became %q", s)
	}
	if s := string(ansi.RMprivate.AppendTo(nil)); s != "\x1b[?l" {
		t.Fail("private reset prefix became %q", s)
	}
	t.Distinct(fmt.Sprint(uint64(mode), arg))
}

// c04Buffer: what is written through the buffer is the concatenation of encodings.
func c04Buffer(t *T) {
	var b anansi.Buffer
	var want []byte
	if t.Bool() {
		b.Grow(t.N(100))
	}
	d := ""
	for k := t.R(1, 10); k > 0; k-- {
		var ss []ansi.Seq
		var enc []byte
		for n := t.R(0, 4); n > 0; n-- {
			if t.P(1, 5) {
				ss = append(ss, ansi.Seq{})
				continue
			}
			id := ansi.CSI(byte(t.R(0x40, 0x7E)))
			m := seqM{id: id, b: string(genSeqBytes(t.Rng, id, 0))}
			s := id.With([]byte(m.b)...)
			for j := t.N(5); j > 0; j-- {
				v := genInt32(t.Rng)
				m.ints = append(m.ints, v)
				s = s.WithInts(v)
			}
			ss = append(ss, s)
			enc = append(enc, m.enc()...)
			d += id.String()
		}
		if n := b.WriteSeq(ss...); n != len(enc) {
			t.Fail("writing %v reports %d bytes, encoding has %d", ss, n, len(enc))
		}
		want = append(want, enc...)
		switch t.N(4) {
		case 0:
			b.WriteString("text")
			want = append(want, "text"...)
		case 1:
			a := genAttr(t.Rng)
			n := b.WriteSGR(a, 0)
			if a == 0 && n != 0 {
				t.Fail("writing the zero attribute wrote %d bytes", n)
			}
			if a != 0 {
				e := a.AppendTo(nil)
				if n != len(e) {
					t.Fail("writing %v reports %d bytes, encoding has %d", a, n, len(e))
				}
				want = append(want, e...)
			}
		}
		if b.Len() != len(want) || !bytes.Equal(b.Bytes(), want) {
			t.Fail("buffer holds %q, want %q", b.Bytes(), want)
		}
	}
	t.Distinct(d)
}
