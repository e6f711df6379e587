package main

import "fmt"

var wideRunes = []string{"世", "界", "Ω", "Ж", "€", "⣿", "▀", "☃", "\U0001F600", "ñ", "é"}

// genParam makes CSI parameter bytes.
func genParam(r *Rng) string {
	switch r.N(8) {
	case 0:
		return ""
	case 1:
		return "?" + fmt.Sprint(r.N(3000))
	case 2:
		return fmt.Sprintf("<%d;%d;%d", r.N(260), r.R(1, 300), r.R(1, 300))
	case 3:
		return fmt.Sprintf("%d;%d", r.N(100), r.N(100))
	case 4:
		return fmt.Sprint(r.N(10))
	case 5:
		s := ""
		for n := r.R(1, 6); n > 0; n-- {
			s += string("0123456789:;<=>?"[r.N(16)])
		}
		return s
	case 6:
		return fmt.Sprintf("38;2;%d;%d;%d", r.N(256), r.N(256), r.N(256))
	default:
		return fmt.Sprintf("%d;%d;%d;%d", r.N(10), r.N(100), r.N(300), r.N(70000))
	}
}

// genToken makes one stream element. hostile adds malformed and truncated ones.
func genToken(r *Rng, hostile bool) string {
	n := 14
	if hostile {
		n = 24
	}
	switch r.N(n) {
	case 0, 1, 2:
		s := ""
		for k := r.R(1, 8); k > 0; k-- {
			s += string(rune(0x20 + r.N(0x5F)))
		}
		return s
	case 3:
		return wideRunes[r.N(len(wideRunes)-2)]
	case 4:
		c := byte(r.N(0x20))
		if c == 0x1B || c == 0x18 {
			c = '\n'
		}
		return string(rune(c))
	case 5, 6, 7:
		intro := "\x1b["
		if r.P(1, 5) {
			intro = "\u009b"
		}
		inter := ""
		if r.P(1, 6) {
			inter = string(rune(0x20 + r.N(16)))
		}
		return intro + genParam(r) + inter + string(rune(0x40+r.N(0x3F)))
	case 8:
		return "\x1b" + string(rune(0x30+r.N(0x10)))
	case 9:
		return "\x1b" + string(rune(0x60+r.N(0x1F)))
	case 10:
		return "\x1b" + string(rune(0x20+r.N(16))) + string(rune(0x30+r.N(0x4F)))
	case 11:
		c := rune(0x40 + r.N(0x20))
		switch c {
		case 'P', '[', ']', '^', '_', 'X', '\\':
			c = 'M'
		}
		return "\x1b" + string(c)
	case 12, 13:
		intro := r.Pick("\x1bP", "\x1b]", "\x1b^", "\x1b_", "\u0090", "\u009d", "\u009e", "\u009f")
		body := ""
		for k := r.N(10); k > 0; k-- {
			switch r.N(6) {
			case 0:
				body += wideRunes[r.N(len(wideRunes)-2)]
			case 1:
				if hostile {
					body += r.Pick("\xff", "\xe4\xb8", "\x1b[A", "\x07", "\x1b")
				}
			default:
				body += string(rune(0x20 + r.N(0x5F)))
			}
		}
		return intro + body + r.Pick("\x1b\\", "\u009c")
	// hostile from here
	case 14:
		return string(r.Bytes(r.R(1, 3)))
	case 15:
		return "\x1b"
	case 16:
		return "\x1b\x18"
	case 17:
		return "\x1b\x7f"
	case 18:
		s := genToken(r, false) // a truncated token
		return s[:r.N(len(s)+1)]
	case 19:
		s := genToken(r, false) // a token with something in the middle of it
		i := r.N(len(s) + 1)
		return s[:i] + r.Pick("\x18", "\x7f", "\n", "世", "\x1b", "\x00", "\xff", "\ufffd") + s[i:]
	case 20:
		return "\x1b" + r.Pick("(", "#", " ", "$$")
	case 21:
		return r.Pick("\x7f", "\x18", "\x1a", "\ufffd", "\u0085", "\u009c", "\u0098")
	case 22:
		return wideRunes[r.N(len(wideRunes)-2)][:1]
	default:
		return "\x1b[" + genParam(r)
	}
}

func genStream(r *Rng, n int, hostile bool) []byte {
	var p []byte
	for i := 0; i < n; i++ {
		p = append(p, genToken(r, hostile)...)
	}
	return p
}

// exoticInESC reports whether the stream has a rune in U+0080..U+00FF (or an
// 8-bit form) after an ESC and before its final byte, where terminals differ.
func exoticInESC(p []byte) bool {
	esc := false
	for i := 0; i < len(p); i++ {
		switch c := p[i]; {
		case c == 0x1B:
			esc = true
		case esc && (c == 0xC2 || c == 0xC3):
			return true
		case 0x30 <= c && c <= 0x7E:
			esc = false
		}
	}
	return false
}

// chunks divides p at random places.
func chunks(r *Rng, p []byte) [][]byte {
	var out [][]byte
	mode := r.N(4)
	unit := 1
	if len(p) > 400 { // decoding again on every read takes quadratic time
		unit = len(p) / 100
	}
	for len(p) > 0 {
		n := 1
		switch mode {
		case 0:
		case 1:
			n = r.R(1, 3)
		case 2:
			n = r.R(1, 16)
		default:
			n = r.R(1, len(p))
		}
		if unit > 1 && r.P(7, 8) {
			n *= unit
		}
		if n > len(p) {
			n = len(p)
		}
		out = append(out, p[:n])
		p = p[n:]
	}
	return out
}

// genLong makes a stream around one long element.
func genLong(r *Rng, most int) []byte {
	n := 0
	switch r.N(4) {
	case 0:
		n = 1<<uint(r.R(5, 16)) + r.R(-6, 6)
	case 1:
		n = r.R(20, 300)
	case 2:
		n = r.R(300, 5000)
	default:
		n = r.R(5000, most)
	}
	if n > most {
		n = most
	}
	fill := func(alpha string) []byte {
		p := make([]byte, n)
		for i := range p {
			p[i] = alpha[r.N(len(alpha))]
		}
		return p
	}
	const text = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ;:/?-_[]()"
	p := genStream(r, r.N(3), r.Bool())
	switch r.N(9) {
	case 0, 1, 2: // a control string
		p = append(p, r.Pick("\x1bP", "\x1b]", "\x1b^", "\x1b_", "\u0090", "\u009d", "\u009e", "\u009f")...)
		p = append(p, fill(text)...)
		p = append(p, r.Pick("\x1b\\", "\u009c", "\x1b\\", "\u009c", "")...)
	case 3, 4: // many parameters
		p = append(p, r.Pick("\x1b[", "\u009b", "\x1b[?", "\x1b[<")...)
		p = append(p, fill(r.Pick("0123456789;", "0123456789:;<=>?", "0", ";", "9"))...)
		p = append(p, r.Pick("", "", " ", "$!")+string(rune(0x40+r.N(0x3F)))...)
	case 5: // many intermediates
		if n > 3000 {
			n = 3000
		}
		p = append(p, r.Pick("\x1b[", "\x1b[1", "\x1b", "\x1b")...)
		p = append(p, fill(" !\"#$%&'()*+,-./")...)
		p = append(p, "0@Ap~"[r.N(5)])
	case 6: // a long text
		p = append(p, fill(text)...)
	case 7:
		for i := 0; i < n/3; i++ {
			p = append(p, wideRunes[r.N(len(wideRunes)-2)]...)
		}
	case 8: // controls or deletes inside of a sequence
		if n > 2000 {
			n = 2000
		}
		p = append(p, '\x1b')
		p = append(p, fill(r.Pick("\n", "\x7f", "\r\n\t\x7f"))...)
		p = append(p, "M7["[r.N(3)])
		p = append(p, "12A"...)
	}
	return append(p, genStream(r, r.N(3), r.Bool())...)
}
