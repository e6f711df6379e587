package main

import (
	"bytes"
	"fmt"
	"image"
	"io"
	"sort"
	"unicode/utf8"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:          "C03",
		Rule:        "a stream of random output elements is written whole and in random chunks by random kinds of write; non-trivial by (element classes, kinds of unfinished element the chunks were cut in)",
		Assumptions: []string{"an ESC or control string left unfinished by the stream is held back, never interpreted"},
		Subs: []Sub{
			{Name: "buffer", Quick: 80000, Thorough: 3000000, Run: c03Buffer},
			{Name: "screen", Quick: 60000, Thorough: 2000000, Run: c03Screen},
			{Name: "cursor", Quick: 60000, Thorough: 2000000, Run: c03Cursor},
			{Name: "large-buffer", Quick: 300, Thorough: 20000, Run: large(c03Buffer)},
			{Name: "large-screen", Quick: 300, Thorough: 20000, Run: large(c03Screen)},
			{Name: "large-cursor", Quick: 300, Thorough: 20000, Run: large(c03Cursor)},
			{Name: "typed", Quick: 60000, Thorough: 2000000, Run: c03Typed},
		},
	})
}

func c03Stream(t *T) ([]byte, [][]byte) {
	p := c02Input(t)
	return p, chunks(t.Rng, p)
}

func kindsOf(p []byte, cs [][]byte) string {
	s, off := "", 0
	for _, c := range cs {
		off += len(c)
		if off < 200 {
			_, held := refDecode(p[:off], false)
			s += heldKind(held)
		}
	}
	return s
}

// simple streams have nothing that the decoder may reorder (controls, deletes,
// cancels or characters inside an ESC sequence).
func simple(p []byte) bool {
	for i := 0; i < len(p); i++ {
		if p[i] == 0x1B {
			j := i + 1
			for j < len(p) && 0x20 <= p[j] && p[j] <= 0x2F {
				j++
			}
			if j >= len(p) || p[j] < 0x30 || p[j] > 0x7E {
				return false
			}
		}
	}
	return true
}

// sortedRunes is p as a multiset: reordering aside, nothing may change.
func sortedRunes(p []byte) string {
	q := append([]byte(nil), p...)
	sort.Slice(q, func(i, j int) bool { return q[i] < q[j] })
	return string(q)
}

type anyWriter interface {
	Write(p []byte) (int, error)
	WriteString(s string) (int, error)
	WriteByte(b byte) error
	WriteRune(r rune) (int, error)
}

func writeChunk(t *T, w anyWriter, c []byte) {
	n, err := len(c), error(nil)
	switch k := t.N(3); {
	case len(c) == 1 && k == 0:
		err = w.WriteByte(c[0])
	case k == 1:
		n, err = w.WriteString(string(c))
	case k == 2 && utf8.RuneCount(c) == 1 && utf8.Valid(c):
		r, _ := utf8.DecodeRune(c)
		n, err = w.WriteRune(r)
	default:
		q := append([]byte(nil), c...)
		n, err = w.Write(q)
		if !bytes.Equal(q, c) {
			t.Fail("writing changed the caller's bytes: %q became %q", c, q)
		}
	}
	if err != nil || n != len(c) {
		t.Fail("writing %q: n=%d err=%v", c, n, err)
	}
}

// cutWriter accepts some bytes, then fails; or everything.
type cutWriter struct {
	out          *bytes.Buffer
	accept, took int
}

func (w *cutWriter) Write(p []byte) (int, error) {
	if w.accept >= 0 && len(p) > w.accept-w.took {
		p = p[:w.accept-w.took]
		w.took += len(p)
		w.out.Write(p)
		return len(p), io.ErrNoProgress
	}
	w.took += len(p)
	return w.out.Write(p)
}

func c03Buffer(t *T) {
	p, cs := c03Stream(t)
	t.Logf("stream %q in chunks %q", p, cs)
	t.Sample("%q", cs)
	var b anansi.Buffer
	var rp recProc
	var out bytes.Buffer
	off, flushed := 0, 0
	mode := t.N(3) // 0: keep, 1: discard processed, 2: flush everything processed at times
	for _, c := range cs {
		writeChunk(t, &b, c)
		off += len(c)
		b.Process(&rp)
		if mode == 1 {
			b.Discard()
		}
		want, _ := refDecode(p[:off], false)
		if d := diffEvs(want, rp.evs); d != "" {
			t.Fail("after %q: %s", p[:off], d)
		}
		if mode == 2 && b.Len() > 0 {
			if _, held := refDecode(p[:off], false); len(held) == 0 && t.Bool() || simple(p) && t.P(1, 3) {
				w := &cutWriter{out: &out, accept: -1}
				if len(held) > 0 || t.Bool() { // cut short among what has been processed
					if w.accept = b.Len() - len(held); w.accept > 0 {
						w.accept = t.N(w.accept)
					}
				}
				before := b.Len()
				n, err := b.WriteTo(w)
				if w.accept >= 0 {
					if int(n) != w.took || b.Len() != before-w.took || err != io.ErrNoProgress {
						t.Fail("after a flush cut short: n=%d err=%v len %d; %d of %d bytes were taken", n, err, b.Len(), w.took, before)
					}
					flushed += int(n)
					t.Count("partial_flushes", 1)
					continue
				}
				if err != nil {
					t.Fail("flush: %v", err)
				}
				flushed += int(n)
			}
		}
	}
	b.Process(&rp) // nothing new: nothing may be processed again
	want, held := refDecode(p, false)
	if d := diffEvs(want, rp.evs); d != "" {
		t.Fail("processing again: %s", d)
	}
	if mode == 1 {
		if b.Len() > len(held) {
			t.Fail("after discarding, %d bytes left, but only %q is unprocessed", b.Len(), held)
		}
	} else {
		if _, err := b.WriteTo(&out); err != nil {
			t.Fail("flush: %v", err)
		}
		if out.Len() != len(p) {
			t.Fail("%d bytes written into the buffer, %d came out", len(p), out.Len())
		}
		if simple(p) && !bytes.Equal(out.Bytes(), p) {
			t.Fail("bytes changed on their way through:\n in  %q\n out %q", p, out.Bytes())
		}
		if w, g := sortedRunes(p), sortedRunes(out.Bytes()); w != g {
			t.Fail("bytes changed on their way through:\n in  %q\n out %q", p, out.Bytes())
		}
	}
	t.Count("items", len(rp.evs))
	t.Count("writes", len(cs))
	t.Distinct(classes(rp.evs) + kindsOf(p, cs))
}

func c03Screen(t *T) {
	p, cs := c03Stream(t)
	sz := image.Pt(t.size(1, 12, 1, 6))
	t.Logf("size %v stream %q in chunks %q", sz, p, cs)
	var whole, split anansi.VirtualScreen
	whole.Resize(sz)
	split.Resize(sz)
	// whole: each item processed on its own by the screen, as decoded by the reference
	evs, _ := refDecode(p, false)
	for _, e := range evs {
		whole.Screen.ProcessANSI(e.id, []byte(e.arg))
	}
	for i, c := range cs {
		writeChunk(t, &split, c)
		if i%5 == 0 {
			if c := split.Cursor; c.Point.Valid() && !c.Point.In(split.Bounds()) {
				t.Fail("cursor %v escaped the screen", c.Point)
			}
		}
	}
	if d := sameScreen(whole.Screen, split.Screen); d != "" {
		t.Fail("size %v, %q written in chunks %q: %s", sz, p, cs, d)
	}
	t.Count("writes", len(cs))
	t.Distinct(classes(evs) + kindsOf(p, cs) + sz.String())
}

func c03Cursor(t *T) {
	p, cs := c03Stream(t)
	t.Logf("stream %q in chunks %q", p, cs)
	var whole anansi.Cursor
	var split anansi.VirtualCursor
	if t.Bool() {
		pt := ansi.Pt(t.R(1, 20), t.R(1, 20))
		whole.Point = pt
		split.Cursor.Point = pt
	}
	evs, _ := refDecode(p, false)
	for _, e := range evs {
		whole.ProcessANSI(e.id, []byte(e.arg))
	}
	for _, c := range cs {
		writeChunk(t, &split, c)
	}
	if curOf(whole) != curOf(split.Cursor) {
		t.Fail("%q written in chunks %q: cursor %v, expected %v", p, cs, split.Cursor, whole)
	}
	var out bytes.Buffer
	if n, err := split.WriteTo(&out); err != nil || int(n) != len(p) {
		t.Fail("flush of %d bytes: n=%d err=%v", len(p), n, err)
	}
	if simple(p) && !bytes.Equal(out.Bytes(), p) {
		t.Fail("bytes changed on their way through:\n in  %q\n out %q", p, out.Bytes())
	}
	if curOf(split.Real) != curOf(split.Cursor) {
		t.Fail("after a flush real cursor is %v, virtual %v", split.Real, split.Cursor)
	}
	t.Distinct(classes(evs) + kindsOf(p, cs))
}

// c03Typed: the typed write calls have the effect of the bytes they encode.
func c03Typed(t *T) {
	sz := image.Pt(t.size(1, 12, 1, 6))
	var typed, raw anansi.VirtualScreen
	var tb, rb anansi.Buffer
	typed.Resize(sz)
	raw.Resize(sz)
	what := ""
	for k := t.R(1, 12); k > 0; k-- {
		var enc []byte
		switch t.N(4) {
		case 0:
			ids := []ansi.Escape{ansi.CUU, ansi.CUD, ansi.CUF, ansi.CUB, ansi.CUP, '\r', '\n', ansi.DECSC}
			var es []ansi.Escape
			for n := t.R(1, 3); n > 0; n-- {
				es = append(es, ids[t.N(len(ids))])
			}
			for _, e := range es {
				enc = e.AppendTo(enc)
			}
			n1, n2 := typed.WriteESC(es...), tb.WriteESC(es...)
			if n1 != len(enc) || n2 != len(enc) {
				t.Fail("WriteESC(%v) wrote %d/%d bytes, encoded %q", es, n1, n2, enc)
			}
			what += "e"
		case 1:
			var ss []ansi.Seq
			for n := t.R(1, 3); n > 0; n-- {
				switch t.N(5) {
				case 0:
					ss = append(ss, ansi.CUP.WithPoint(ansi.Pt(t.R(1, 14), t.R(1, 8))))
				case 1:
					ss = append(ss, ansi.ED.With(byte('0'+t.N(3))))
				case 2:
					ss = append(ss, ansi.Seq{})
				case 3:
					ss = append(ss, ansi.ShowCursor.Set(), ansi.ShowCursor.Reset())
				case 4:
					ss = append(ss, ansi.SGR.WithInts(t.N(8), 30+t.N(8), 40+t.N(8), t.N(2)))
				}
			}
			for _, s := range ss {
				enc = s.AppendTo(enc)
			}
			n1, n2 := typed.WriteSeq(ss...), tb.WriteSeq(ss...)
			if n1 != len(enc) || n2 != len(enc) {
				t.Fail("WriteSeq(%v) wrote %d/%d bytes, encoded %q", ss, n1, n2, enc)
			}
			what += "s"
		case 2:
			s := genToken(t.Rng, false)
			enc = []byte(s)
			writeChunk(t, &typed, enc)
			writeChunk(t, &tb, enc)
			what += "w"
		case 3:
			a := genAttr(t.Rng)
			before := typed.Cursor.Attr
			typed.WriteSGR(a)
			if a&^ansi.SGRAttrClear != typed.Cursor.Attr&^ansi.SGRAttrClear {
				t.Fail("WriteSGR(%v) from %v left the attribute %v", a, before, typed.Cursor.Attr)
			}
			enc = (a | ansi.SGRAttrClear).AppendTo(nil)
			tb.Write(enc)
			what += "a"
		}
		raw.Write(enc)
		rb.Write(enc)
		t.Logf("%q", enc)
		a, b := typed.Screen, raw.Screen
		a.Cursor.Attr &^= ansi.SGRAttrClear
		b.Cursor.Attr &^= ansi.SGRAttrClear
		if (a.Cursor.Point == ansi.ZP) != (b.Cursor.Point == ansi.ZP) { // not yet placed is the same as at the origin
			if a.Cursor.Point == ansi.ZP {
				a.Cursor.Point = ansi.Pt(1, 1)
			} else {
				b.Cursor.Point = ansi.Pt(1, 1)
			}
		}
		if curOf(a.Cursor) != curOf(b.Cursor) {
			t.Fail("after %q: cursor %v by typed writes, %v by bytes", enc, a.Cursor, b.Cursor)
		}
		for i := range a.Rune {
			if a.Rune[i] != b.Rune[i] || a.Attr[i]&^ansi.SGRAttrClear != b.Attr[i]&^ansi.SGRAttrClear {
				t.Fail("after %q: cell %d is %q %v by typed writes, %q %v by bytes", enc, i, a.Rune[i], a.Attr[i], b.Rune[i], b.Attr[i])
			}
		}
	}
	if !bytes.Equal(tb.Bytes(), rb.Bytes()) {
		t.Fail("typed writes buffered %q, bytes %q", tb.Bytes(), rb.Bytes())
	}
	t.Distinct(what + fmt.Sprint(sz))
}
