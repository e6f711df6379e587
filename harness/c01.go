package main

import (
	"bytes"
	"fmt"
	"os"
	"unicode/utf8"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "inputs are random concatenations of stream elements (text, UTF-8, controls, ESC/CSI/DCS/OSC/PM/APC, truncated/cancelled/interrupted/nested ones) and raw random bytes; a case is non-trivial by the set of element kinds decoded from it (identifier classes in order)",
		Assumptions: []string{
			"the reference reading of a malformed control sequence is that it extends to its first final byte (documented as not stricter in the source)",
			"two-byte (U+0080..U+00FF) characters inside an ESC sequence are only checked for progress and bounds",
		},
		Subs: []Sub{
			{Name: "step", Quick: 150000, Thorough: 6000000, Run: c01Step},
			{Name: "reference", Quick: 100000, Thorough: 4000000, Run: c01Reference},
			{Name: "process", Quick: 100000, Thorough: 4000000, Run: c01Process},
			{Name: "short", Quick: 60000, Thorough: 2000000, Run: c01Short},
			{Name: "large-step", Quick: 800, Thorough: 60000, Run: large(c01Step)},
			{Name: "large-reference", Quick: 500, Thorough: 30000, Run: large(c01Reference)},
			{Name: "large-process", Quick: 500, Thorough: 30000, Run: large(c01Process)},
			{Name: "args", Quick: 200000, Thorough: 8000000, Run: c01Args},
		},
	})
}

func classOf(e ansi.Escape) string {
	switch {
	case e < 0x20:
		return "c"
	case e == utf8.RuneError:
		return "x"
	case e >= 0x80 && e < 0xA0:
		return "1"
	case e >= 0xEF80 && e <= 0xEFFF:
		return "C"
	case e >= 0xEF00 && e < 0xEF80:
		return "E"
	case e > 0xFF:
		return "u"
	}
	return "r"
}

func classes(evs []ev) string {
	s := ""
	for _, e := range evs {
		if c := classOf(e.id); len(s) == 0 || s[len(s)-1] != c[0] || c != "r" {
			s += c
		}
	}
	return s
}

const denseAlpha = "\x1b\x1b\x1b[[;0157mMA(#)PO]^_\\\x18\x7f\n\x00\xc2\x9b\x9c\x9d\xe4\xb8\x96\xff <?"

func c01Input(t *T) []byte {
	if t.large {
		if t.Sub == "large-reference" { // has to fit into a pipe
			return genLong(t.Rng, 50000)
		}
		return genLong(t.Rng, 150000)
	}
	switch t.N(4) {
	case 0:
		return t.Bytes(t.R(1, 24))
	case 1: // dense in bytes that matter
		p := make([]byte, t.R(1, 14))
		for i := range p {
			p[i] = denseAlpha[t.N(len(denseAlpha))]
		}
		return p
	default:
		return genStream(t.Rng, t.R(1, 12), true)
	}
}

// drainInput decodes a whole stream through Input, at end of input.
func drainInput(t *T, p []byte) []ev {
	r, w, err := os.Pipe()
	if err != nil {
		t.Inconclusive("pipe: %v", err)
	}
	defer r.Close()
	if len(p) > 60000 {
		t.Inconclusive("case too big")
	}
	w.Write(p)
	w.Close()
	in := anansi.Input{File: r}
	if t.large { // read it at once: the end of a read may end a sequence
		in.MinReadSize = len(p) + 64
	}
	var evs []ev
	for i := 0; ; i++ {
		if i > len(p)+8 {
			t.Fail("reading %q did not reach end of input after %d reads", p, i)
		}
		_, err := in.ReadMore()
		evs = drainDecode(t, &in, evs, len(p))
		if err != nil {
			break
		}
	}
	// end of input was seen: everything must come out
	return drainDecode(t, &in, evs, len(p))
}

func drainDecode(t *T, in *anansi.Input, evs []ev, limit int) []ev {
	for {
		e, a, ok := in.Decode()
		if !ok {
			return evs
		}
		evs = append(evs, ev{e, string(a)})
		if len(evs) > limit+8 {
			t.Fail("more items decoded (%d) than there were bytes (%d): %s", len(evs), limit, evsString(evs[:20]))
		}
	}
}

// c01Step: the step decoder alone, over arbitrary bytes.
func c01Step(t *T) {
	p := c01Input(t)
	t.Sample("%q", p)
	t.Logf("input %q", p)
	// guard bytes around the slice show out-of-bounds modification
	guard := append(append(append([]byte(nil), "GUARDxx"...), p...), "GUARDyy"...)
	q := guard[7 : 7+len(p) : 7+len(p)]
	var evs []ev
	steps := 0
	for len(q) > 0 {
		before := append([]byte(nil), q[:min(len(q), 200)]...)
		e, a, n := ansi.DecodeEscape(q)
		if n < 0 || n > len(q) {
			t.Fail("step consumed %d of %d bytes at %q", n, len(q), before)
		}
		if e != 0 && n == 0 {
			t.Fail("escape %v returned without consuming anything at %q", e, before)
		}
		if e != 0 && len(a) > n {
			t.Fail("argument %q longer than the %d consumed bytes at %q", a, n, before)
		}
		q = q[n:]
		if e != 0 {
			evs = append(evs, ev{e, string(a)})
		} else if len(q) > 0 {
			r, m := utf8.DecodeRune(q)
			evs = append(evs, ev{id: ansi.Escape(r)})
			q = q[m:]
		}
		if steps++; steps > len(p) {
			t.Fail("more steps (%d) than bytes", steps)
		}
	}
	if !bytes.Equal(guard[:7], []byte("GUARDxx")) || !bytes.Equal(guard[7+len(p):], []byte("GUARDyy")) {
		t.Fail("bytes outside the given slice were modified")
	}
	// DecodeRune never claims more than is there
	for i := range p {
		if _, n := ansi.DecodeRune(p[i:]); n < 1 || n > len(p)-i {
			t.Fail("rune step consumed %d of %d at %q", n, len(p)-i, p[i:])
		}
	}
	t.Count("steps", steps)
	t.Distinct(classes(evs))
	if e, a, n := ansi.DecodeEscape(nil); e != 0 || a != nil || n != 0 {
		t.Fail("decoding nothing gave %v %q %d", e, a, n)
	}
}

// c01Reference: Input against the reference reading.
func c01Reference(t *T) {
	p := c01Input(t)
	for exoticInESC(p) {
		p = c01Input(t)
	}
	t.Logf("input %q", p)
	t.Sample("%q", p)
	want, _ := refDecode(p, true)
	got := drainInput(t, append([]byte(nil), p...))
	if d := diffEvs(want, got); d != "" {
		t.Fail("input %q: %s", p, d)
	}
	t.Count("items", len(got))
	t.Distinct(classes(got))
}

type recProc struct{ evs []ev }

func (rp *recProc) ProcessANSI(e ansi.Escape, a []byte) { rp.evs = append(rp.evs, ev{e, string(a)}) }

// c01Process: the output side processor, one write.
func c01Process(t *T) {
	p := c01Input(t)
	for exoticInESC(p) {
		p = c01Input(t)
	}
	t.Logf("input %q", p)
	want, held := refDecode(p, false)
	var rp recProc
	q := append([]byte(nil), p...)
	n := anansi.Process(&rp, q)
	if d := diffEvs(want, rp.evs); d != "" {
		t.Fail("processing %q: %s", p, d)
	}
	if n < 0 || n > len(p) {
		t.Fail("processing %q consumed %d of %d", p, n, len(p))
	}
	if rest := q[n:]; len(bytes.ReplaceAll(rest, []byte{0x7F}, nil)) != len(bytes.ReplaceAll(held, []byte{0x7F}, nil)) {
		t.Fail("processing %q held back %q, want %q", p, rest, held)
	}
	t.Count("items", len(rp.evs))
	t.Distinct(classes(rp.evs) + fmt.Sprint(len(held) > 0))
}

// c01Short: every short string over a dense alphabet, enumerated.
func c01Short(t *T) {
	const alpha = "\x1b[(A1;\x18\x7f\n]\\\xe4\xb8\x96\xffm"
	i := t.Idx
	var p []byte
	for k := 0; k < 8 && (i > 0 || k == 0); k++ {
		p = append(p, alpha[i%len(alpha)])
		i /= len(alpha)
	}
	t.Logf("input %q", p)
	want, _ := refDecode(p, true)
	got := drainInput(t, append([]byte(nil), p...))
	if d := diffEvs(want, got); d != "" {
		t.Fail("input %q: %s", p, d)
	}
	want, _ = refDecode(p, false)
	var rp recProc
	anansi.Process(&rp, append([]byte(nil), p...))
	if d := diffEvs(want, rp.evs); d != "" {
		t.Fail("processing %q: %s", p, d)
	}
	t.Distinct(string(p))
}

// c01Args: argument decoders on arbitrary bytes.
func c01Args(t *T) {
	var a []byte
	switch t.N(3) {
	case 0:
		a = t.Bytes(t.N(12))
	case 1:
		a = []byte(genParam(t.Rng))
	default:
		n := t.N(12)
		if t.P(1, 40) {
			n = t.N(400)
		}
		for ; n > 0; n-- {
			a = append(a, "0123456789;:<?+-38;5;2"[t.N(22)])
		}
	}
	t.Logf("argument %q", a)
	chk := func(what string, n int, err error) {
		if n < 0 || n > len(a) {
			t.Fail("%s(%q) consumed %d of %d", what, a, n, len(a))
		}
		if err == nil && n == 0 && len(a) > 0 {
			t.Fail("%s(%q) succeeded without consuming anything: a caller's loop would not progress", what, a)
		}
	}
	_, n1, err := ansi.DecodeNumber(a)
	chk("DecodeNumber", n1, err)
	_, n2, err2 := ansi.DecodePoint(a)
	chk("DecodePoint", n2, err2)
	_, n3, err3 := ansi.DecodeSGR(a)
	chk("DecodeSGR", n3, err3)
	if err3 == nil && n3 != len(a) {
		t.Fail("DecodeSGR(%q) succeeded after %d of %d bytes", a, n3, len(a))
	}
	_, n4, err4 := ansi.DecodeMode(t.Bool(), a)
	chk("DecodeMode", n4, err4)
	for _, id := range []ansi.Escape{ansi.CUU, ansi.CUD, ansi.CUF, ansi.CUB, ansi.CUP} {
		ansi.DecodeCursorCardinal(id, a)
	}
	ansi.DecodeXtermExtendedMouse(ansi.CSI('M'), a)
	ansi.DecodeXtermExtendedMouse(ansi.CSI('m'), a)
	// and the processors that use them
	var cur anansi.Cursor
	for _, id := range []ansi.Escape{ansi.CUP, ansi.SGR, ansi.SM, ansi.RM, ansi.CUU, ansi.CUB} {
		cur.ProcessANSI(id, a)
	}
	t.Distinct(fmt.Sprint(err == nil, err2 == nil, err3 == nil, err4 == nil, n1, n2, n3))
}
