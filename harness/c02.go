package main

import (
	"bytes"
	"fmt"
	"unicode/utf8"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:   "C02",
		Rule: "a stream of random elements is written to a pipe in random chunks, read with a random mix of blocking and non-blocking reads, decoding in between; non-trivial by (element classes, kinds of unfinished element the chunks were cut in)",
		Assumptions: []string{
			"read boundaries are forced by writing one chunk at a time and reading all of it before decoding",
		},
		Subs: []Sub{
			{Name: "split", Quick: 60000, Thorough: 2500000, Run: func(t *T) { c02Split(t, false) }},
			{Name: "lone-esc", Quick: 15000, Thorough: 600000, Run: func(t *T) { c02Split(t, true) }},
			{Name: "large", Quick: 400, Thorough: 30000, Run: large(func(t *T) { c02Split(t, t.Bool()) })},
			{Name: "exotic", Quick: 20000, Thorough: 800000, Run: c02Exotic},
			{Name: "every-split", Quick: 4000, Thorough: 150000, Run: c02EverySplit},
		},
	})
}

// loneESC reports whether what is held back by a prefix is an ESC that may be
// delivered as a key press: alone, or with intermediates only.
func loneESC(held []byte) bool {
	if len(held) == 0 || held[0] != 0x1B {
		return false
	}
	inter := 0
	for i, c := range held[1:] {
		if 0x20 <= c && c <= 0x2F {
			inter++
		} else if c != 0x7F {
			// an unfinished character after intermediates
			return inter > 0 && !utf8.FullRune(held[1+i:])
		}
	}
	return true
}

func heldKind(held []byte) string {
	if len(held) == 0 {
		return "-"
	}
	if held[0] == 0x1B {
		if len(held) > 1 {
			return fmt.Sprintf("e%c", held[1])
		}
		return "e"
	}
	return fmt.Sprintf("%x", held[0])
}

func c02Input(t *T) []byte {
	for {
		var p []byte
		if t.large {
			p = genLong(t.Rng, 20000)
		} else {
			p = genStream(t.Rng, t.R(1, 10), t.Bool())
		}
		if !exoticInESC(p) && len(p) > 0 {
			return p
		}
	}
}

func plainRunes(held []byte) (evs []ev, rest []byte) {
	for i, r := range string(held) {
		if r == 0x7F {
			continue // a delete inside the sequence is ignored
		}
		if r == utf8.RuneError {
			return evs, append([]byte(nil), held[i:]...)
		}
		evs = append(evs, ev{id: ansi.Escape(r)})
	}
	return evs, nil
}

func c02Split(t *T, loneOK bool) {
	p := c02Input(t)
	cs := chunks(t.Rng, p)
	if !loneOK { // merge chunks that end right after a lone ESC
		var m [][]byte
		off := 0
		for i := 0; i < len(cs); i++ {
			start := off
			off += len(cs[i])
			for {
				_, held := refDecode(p[:off], false)
				if !loneESC(held) || i+1 >= len(cs) {
					break
				}
				i++
				off += len(cs[i])
			}
			m = append(m, p[start:off])
		}
		cs = m
	}
	c02Run(t, p, cs, loneOK)
}

// c02EverySplit cuts one stream in two at each position.
func c02EverySplit(t *T) {
	p := genStream(t.Rng, t.R(1, 3), t.Bool())
	for exoticInESC(p) || len(p) < 2 {
		p = genStream(t.Rng, t.R(1, 3), t.Bool())
	}
	for i := 1; i < len(p) && i < 40; i++ {
		_, held := refDecode(p[:i], false)
		c02Run(t, p, [][]byte{p[:i], p[i:]}, loneESC(held))
	}
}

func c02Run(t *T, p []byte, cs [][]byte, loneOK bool) {
	t.Logf("stream %q in chunks %q", p, cs)
	t.Sample("%q", cs)
	r, w := rawPipe(t)
	in := anansi.Input{File: r}
	if t.Bool() {
		in.MinReadSize = t.R(1, 300)
	}
	var got []ev
	// alts are the possible (delivered, pending bytes) readings so far
	type alt struct {
		evs  []ev
		pend []byte
	}
	alts := []alt{{}}
	kinds := ""
	for ci, c := range cs {
		if _, err := w.Write(c); err != nil {
			t.Inconclusive("write: %v", err)
		}
		for n := 0; n < len(c); {
			var m int
			var err error
			if t.P(1, 3) {
				m, err = in.ReadAny()
			} else {
				m, err = in.ReadMore()
			}
			if err != nil {
				t.Fail("reading chunk %d of %q: %v", ci, cs, err)
			}
			if m <= 0 {
				t.Fail("reading available input returned %d bytes", m)
			}
			n += m
			if n > len(c) {
				t.Fail("read %d bytes of a %d byte chunk", n, len(c))
			}
		}
		var next []alt
		for _, a := range alts {
			q := append(append([]byte(nil), a.pend...), c...)
			evs, held := refDecode(q, false)
			evs = append(append([]ev(nil), a.evs...), evs...)
			held = append([]byte(nil), held...)
			next = append(next, alt{evs, held})
			if loneESC(held) && len(next) < 64 {
				pl, rest := plainRunes(held)
				next = append(next, alt{append(append([]ev(nil), evs...), pl...), rest})
			}
			kinds += heldKind(held)
		}
		alts = next
		got = drainDecode(t, &in, got, len(p))
		t.Count("decode_points", 1)
		if !loneOK && ci+1 < len(cs) && len(alts) != 1 {
			t.Fail("harness: unexpected lone ESC")
		}
		var live []alt
		for _, a := range alts {
			if diffEvs(a.evs, got) == "" {
				live = append(live, a)
			}
		}
		if len(live) == 0 {
			t.Fail("after chunk %d of %q: no permitted reading matches\n expected: %s\n got: %s", ci, cs, evsString(alts[0].evs), evsString(got))
		}
		alts = live
	}
	w.Close()
	if n, err := in.ReadMore(); n != 0 || err == nil {
		t.Fail("read at end of input: %d %v", n, err)
	}
	got = drainDecode(t, &in, got, len(p))
	okEnd := ""
	for _, a := range alts {
		tail, _ := refDecode(a.pend, true)
		d := diffEvs(append(append([]ev(nil), a.evs...), tail...), got)
		if d == "" {
			okEnd = "ok"
			break
		}
		okEnd = d
	}
	if okEnd != "ok" {
		t.Fail("at end of %q: %s", cs, okEnd)
	}
	t.Count("items", len(got))
	t.Count("chunks", len(cs))
	t.Distinct(classes(got) + kinds)
}

// c02Exotic runs streams with C1 controls and G1 characters inside escape
// sequences, which terminals read differently: however anansi does, it must
// not hold up what is complete, and not depend on where reads ended.
func c02Exotic(t *T) {
	var p []byte
	for len(p) == 0 || !exoticInESC(p) {
		for k := t.R(1, 8); k > 0; k-- {
			switch t.N(5) {
			case 0, 1:
				p = append(p, genToken(t.Rng, true)...)
			case 2:
				p = append(p, "\x1b"+t.Pick("", "", "(", "#", "\x7f")+string(rune(0x80+t.N(0x80)))...)
			case 3:
				p = append(p, "\x1b"+t.Pick("\u0090", "\u009b", "\u009d", "\u009e", "\u009f")+genParam(t.Rng)...)
			default:
				p = append(p, string(rune(0x40+t.N(0x3F)))...)
			}
		}
	}
	p = append(p, "\x1b\\mmmZ"...)

	read := func(cs [][]byte) (evs []ev) {
		r, w := rawPipe(t)
		in := anansi.Input{File: r}
		for _, c := range cs {
			if _, err := w.Write(c); err != nil {
				t.Inconclusive("write: %v", err)
			}
			for n := 0; n < len(c); {
				m, err := in.ReadAny()
				if err != nil || m <= 0 {
					t.Fail("reading available input: %d %v", m, err)
				}
				n += m
			}
			evs = drainDecode(t, &in, evs, 2*len(p))
		}
		r.Close()
		w.Close()
		return evs
	}

	whole := read([][]byte{p})
	t.Sample("%q", p)
	if len(whole) == 0 || whole[len(whole)-1].id != 'Z' {
		t.Fail("%q was read whole, but its last character is held up\n got: %s", p, evsString(whole))
	}

	cs := chunks(t.Rng, p)
	// a chunk that ends in an unfinished escape takes the next one along
	var m [][]byte
	for i := 0; i < len(cs); i++ {
		c := append([]byte(nil), cs[i]...)
		for i+1 < len(cs) && c02Open(append(bytes.Join(m, nil), c...)) {
			i++
			c = append(c, cs[i]...)
		}
		m = append(m, c)
	}
	got := read(m)
	if d := diffEvs(whole, got); d != "" {
		t.Fail("%q decodes differently when read in chunks %q: %s\n whole: %s\n chunks: %s", p, m, d, evsString(whole), evsString(got))
	}
	t.Count("items", len(got))
	t.Distinct(classes(got) + fmt.Sprint(len(m)))
}

// c02Open is true of a prefix with no letter or digit after its last ESC.
func c02Open(p []byte) bool {
	i := bytes.LastIndexByte(p, 0x1B)
	if i < 0 {
		return false
	}
	for _, c := range p[i+1:] {
		if 0x30 <= c && c <= 0x7E {
			return false
		}
	}
	return true
}
