package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/jcorbin/anansi/ansi"
)

// ev is one decoded item: a rune/control, or an escape sequence with its argument.
type ev struct {
	id  ansi.Escape
	arg string
}

func (e ev) String() string {
	if e.arg == "" {
		return fmt.Sprintf("%v", e.id)
	}
	return fmt.Sprintf("%v%q", e.id, e.arg)
}

func evsString(evs []ev) string {
	var ss []string
	for i, e := range evs {
		if i == 1000 {
			ss = append(ss, "...")
			break
		}
		ss = append(ss, e.String())
	}
	return strings.Join(ss, " ")
}

func diffEvs(want, got []ev) string {
	n := len(want)
	if len(got) < n {
		n = len(got)
	}
	for i := 0; i < n; i++ {
		if want[i] != got[i] {
			return fmt.Sprintf("item %d: want %v got %v\n want: %s\n got:  %s", i, want[i], got[i], evsString(want), evsString(got))
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("want %d items, got %d\n want: %s\n got:  %s", len(want), len(got), evsString(want), evsString(got))
	}
	return ""
}

// refDecode is the reference reading of a terminal byte stream, written from
// the documented rules rather than from the decoder: it never modifies its
// input and works on the whole stream. With eof, nothing is held back.
func refDecode(in []byte, eof bool) (evs []ev, held []byte) {
	q := append([]byte(nil), in...)
	plain := func() { // deliver the next rune as it is
		r, m := utf8.DecodeRune(q)
		evs = append(evs, ev{id: ansi.Escape(r)})
		q = q[m:]
	}
	for len(q) > 0 {
		if !utf8.FullRune(q) && !eof {
			return evs, q
		}
		r, m := utf8.DecodeRune(q)
		if r == 0x1B && len(q) > 1 && 0x40 <= q[1] && q[1] <= 0x5F {
			r, m = rune(0x80|q[1]&0x1F), 2 // two-byte form of a C1 control
		}
		switch {
		case r == 0x1B:
			out, rest, state := refESC(q)
			switch state {
			case escDone:
				evs = append(evs, out...)
				q = rest
			case escIncomplete:
				if !eof {
					return evs, q
				}
				// the stream ended inside it: the characters count for themselves
				evs = append(evs, out...)
				q = rest
				plain()
			case escBroken:
				evs = append(evs, out...)
				q = rest
				plain()
			}
		case r == 0x9B:
			if n, lo, fin := refCSI(q[m:]); n > 0 {
				evs = append(evs, ev{ansi.CSI(fin), string(q[m+lo : m+n-1])})
				q = q[m+n:]
			} else if !eof {
				return evs, q
			} else {
				evs = append(evs, ev{id: ansi.Escape(r)})
				q = q[m:]
			}
		case r == 0x90 || r == 0x9D || r == 0x9E || r == 0x9F:
			if i, n := refST(q[m:]); n > 0 {
				evs = append(evs, ev{ansi.Escape(r), string(q[m : m+i])})
				q = q[m+i+n:]
			} else if !eof {
				return evs, q
			} else {
				evs = append(evs, ev{id: ansi.Escape(r)})
				q = q[m:]
			}
		default:
			evs = append(evs, ev{id: ansi.Escape(r)})
			q = q[m:]
		}
	}
	return evs, nil
}

// refST finds the string terminator: ESC backslash or U+009C.
func refST(p []byte) (i, n int) {
	for i < len(p) {
		if p[i] == 0x1B && i+1 < len(p) && p[i+1] == '\\' {
			return i, 2
		}
		if p[i] == 0xC2 && i+1 < len(p) && p[i+1] == 0x9C {
			return i, 2
		}
		// step by runes so that a continuation byte is never taken for a lead byte
		if p[i] == 0x1B && i+1 < len(p) && 0x40 <= p[i+1] && p[i+1] <= 0x5F {
			i += 2
			continue
		}
		_, m := utf8.DecodeRune(p[i:])
		i += m
	}
	return 0, 0
}

// refCSI: parameters and intermediates up to the first final byte; once an
// intermediate was seen, only a final byte ends it. lo is the first argument byte.
func refCSI(p []byte) (n, lo int, fin byte) {
	lo = -1
	for i, c := range p {
		switch {
		case 0x40 <= c && c <= 0x7E:
			if lo < 0 {
				lo = i
			}
			return i + 1, lo, c
		case 0x20 <= c && c <= 0x3F:
			if lo < 0 {
				lo = i
			}
		}
	}
	return 0, 0, 0
}

type escState int

const (
	escDone escState = iota
	escIncomplete
	escBroken
)

// refESC reads an ESC sequence at the start of q (q[0] is ESC, not a C1 pair).
// out are items delivered before (or as) the sequence.
func refESC(q []byte) (out []ev, rest []byte, st escState) {
	var inter []byte
	i := 1
	hold := func() []byte { return append(append([]byte{0x1B}, inter...), q[i:]...) }
	for {
		if i >= len(q) || !utf8.FullRune(q[i:]) {
			return out, hold(), escIncomplete
		}
		r, m := utf8.DecodeRune(q[i:])
		switch {
		case r == utf8.RuneError:
			return out, hold(), escBroken
		case r > 0xFF, r <= 0x1F && r != 0x18:
			// processed first; then the sequence resumes, as if it started here
			if r == 0x1B {
				// another ESC: the first one stands for itself
				i0 := i
				_ = i0
				out = append(out, ev{id: 0x1B})
				i += m
				return out, append(append([]byte{0x1B}, inter...), q[i:]...), escDone
			}
			out = append(out, ev{id: ansi.Escape(r)})
			i += m
			return out, append(append([]byte{0x1B}, inter...), q[i:]...), escDone
		case r == 0x7F:
			i += m
		case r == 0x18:
			return out, q[i+m:], escDone
		case 0x20 <= r && r <= 0x2F:
			inter = append(inter, byte(r))
			i += m
		default: // final
			f := byte(r)
			if len(inter) == 0 && i > 1 && 0x40 <= f && f <= 0x5F {
				// only deletes were in between: a C1 control
				return out, append([]byte{0x1B}, q[i:]...), escDone
			}
			if len(inter) == 1 {
				return append(out, ev{ansi.ESC(inter[0]), string(f)}), q[i+m:], escDone
			}
			return append(out, ev{ansi.ESC(f), string(inter)}), q[i+m:], escDone
		}
	}
}
