package main

import (
	"bytes"
	"fmt"
	"image"
	"regexp"
	"strconv"
	"strings"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
)

func init() {
	register(&Prop{
		ID:   "C21",
		Rule: "streams of runes, escape sequences, cursor moves and mouse reports (well-formed and malformed) loaded from bytes or from an Input in one or several batches, each event compared with an independent classification of an independent decoding; then histories of counting, striking, iterating, clearing and reloading mirrored onto a list of marked items; non-trivial by (class string of the batch, operations)",
		Assumptions: []string{
			"control strings may be filed as runes or as escape sequences, with their text",
			"a mouse report at row or column 0 may be kept as an escape sequence",
			"counting scroll events reports only wheel steps, not wheel releases",
		},
		Subs: []Sub{
			{Name: "load", Quick: 30000, Thorough: 1500000, Run: c21Load},
			{Name: "large-load", Quick: 600, Thorough: 30000, Run: large(c21Load)},
			{Name: "large-consume", Quick: 600, Thorough: 30000, Run: large(c21Consume)},
			{Name: "consume", Quick: 30000, Thorough: 1500000, Run: c21Consume},
		},
	})
}

// qev is one event of the model queue.
type qev struct {
	ev
	kind  platform.EventType
	loose bool // may also be filed as an escape sequence
	code  int
	pt    ansi.Point
	gone  bool
}

func (q qev) String() string {
	if q.gone {
		return "-"
	}
	switch q.kind {
	case platform.EventRune:
		return "r" + q.ev.String()
	case platform.EventMouse:
		return fmt.Sprintf("m%d@%d,%d", q.code, q.pt.X, q.pt.Y)
	}
	return "e" + q.ev.String()
}

var mouseArg = regexp.MustCompile(`^<([0-9]+);([0-9]+);([0-9]+)$`)

// classify is the independent reading of one decoded item as an event.
func classify(e ev) qev {
	q := qev{ev: e, kind: platform.EventEscape}
	switch {
	case e.id == 0x90 || e.id == 0x9D || e.id == 0x9E || e.id == 0x9F:
		// a control string, or its introducer alone: filed under either
		q.kind, q.loose = platform.EventRune, true
	case !e.id.IsEscape():
		q.kind = platform.EventRune
	}
	if e.id == ansi.CSI('M') || e.id == ansi.CSI('m') {
		if m := mouseArg.FindStringSubmatch(e.arg); m != nil {
			c, err1 := strconv.ParseInt(m[1], 10, 32)
			x, err2 := strconv.ParseInt(m[2], 10, 32)
			y, err3 := strconv.ParseInt(m[3], 10, 32)
			if err1 == nil && err2 == nil && err3 == nil && c < 256 {
				q.kind, q.code = platform.EventMouse, int(c)
				q.pt.X, q.pt.Y = int(x), int(y)
				if e.id == ansi.CSI('m') {
					q.code |= 128
				}
				q.loose = x == 0 || y == 0
			}
		}
	}
	return q
}

func classifyAll(evs []ev) []qev {
	var qs []qev
	for _, e := range evs {
		qs = append(qs, classify(e))
	}
	return qs
}

func qsString(qs []qev) string {
	var ss []string
	for _, q := range qs {
		ss = append(ss, q.String())
	}
	return strings.Join(ss, " ")
}

// readQueue reads the whole queue through its accessors.
func readQueue(es *platform.Events) (qs []qev) {
	for id, k := range es.Type {
		q := qev{kind: k}
		switch k {
		case platform.EventNone:
			q.gone = true
		case platform.EventRune:
			q.id, q.arg = ansi.Escape(es.Rune(id)), string(es.Escape(id).Arg)
		case platform.EventEscape:
			e := es.Escape(id)
			q.id, q.arg = e.ID, string(e.Arg)
		case platform.EventMouse:
			m := es.Mouse(id)
			q.code, q.pt = int(m.State), m.Point
			e := es.Escape(id)
			q.id, q.arg = e.ID, string(e.Arg)
		}
		qs = append(qs, q)
	}
	return qs
}

// sameQueue compares the queue with the model, consumed ones included as
// gaps or left out altogether.
func sameQueue(model []qev, es *platform.Events) string {
	got := readQueue(es)
	var g, w []qev
	for _, q := range got {
		if !q.gone {
			g = append(g, q)
		}
	}
	for _, q := range model {
		if !q.gone {
			w = append(w, q)
		}
	}
	desc := func() string { return fmt.Sprintf("\n want %s\n have %s", qsString(w), qsString(g)) }
	if len(g) != len(w) {
		return fmt.Sprintf("want %d events, have %d%s", len(w), len(g), desc())
	}
	for i := range w {
		a, b := w[i], g[i]
		if a.loose && b.kind == platform.EventEscape {
			a.kind = b.kind
		}
		if a.kind != b.kind {
			return fmt.Sprintf("event %d: want kind %d, have %d%s", i, a.kind, b.kind, desc())
		}
		if a.ev != b.ev || a.kind == platform.EventMouse && (a.code != b.code || a.pt != b.pt) {
			return fmt.Sprintf("event %d: want %v, have %v%s", i, a, b, desc())
		}
	}
	if es.Empty() != (len(w) == 0) {
		return fmt.Sprintf("Empty()=%v with %d events left", es.Empty(), len(w))
	}
	return ""
}

func genEventToken(t *T) string {
	if t.large && t.P(1, 60) { // with much to it
		n := t.R(60, 700)
		switch t.N(4) {
		case 0:
			return "\x1b[" + strings.Repeat("3;", n) + "1m"
		case 1:
			return "\x1b[<0;" + strings.Repeat("0", n) + "5;7M"
		case 2:
			return "\x1b]0;" + strings.Repeat("title ", n) + "\x1b\\"
		default:
			return strings.Repeat("世a", n)
		}
	}
	switch t.N(12) {
	case 0, 1, 2:
		return string(rune('a' + t.N(5)))
	case 3:
		return t.Pick("\x03", "\x0c", "\x12", "\r", " ", "世", "é", "\x7f", "\t", "\uFFFD", "\U0001F600", "\x00")
	case 4, 5:
		return fmt.Sprintf("\x1b[<%d;%d;%d%c", t.N(4)|t.N(8)<<2|t.N(2)<<5, t.R(1, 8), t.R(1, 8), "MMMm"[t.N(4)])
	case 6:
		return fmt.Sprintf("\x1b[<%d;%d;%dM", 64+t.N(2)|t.N(8)<<2, t.R(1, 8), t.R(1, 8))
	case 7:
		return fmt.Sprintf("\x1b[<%s;%s;%s%s", t.Pick("0", "3", "35", "255", "256", "", "x", "-1"), t.Pick("1", "0", "", "99999999999", "5"), t.Pick("1", "0", "7", "7;8", ":"), t.Pick("M", "m"))
	case 8:
		return "\x1b[" + t.Pick("A", "B", "C", "D", "2A", "13B", "5C", "1D", "0A", "007C")
	case 9:
		return "\x1b[" + t.Pick("H", "3~", "1;5A", "Z", "M", "m", "E", "F", "I", "O", "200~")
	case 10:
		return t.Pick("\x1bOP", "\x1bOA", "\x1b(B", "\x1bc", "\x1b[?1;2c", "\u009bA", "\u009b<0;2;3M")
	default:
		return t.Pick("\x1b]0;hi\x1b\\", "\x1b_x\x1b\\", "\x1bP1$r0m\x1b\\")
	}
}

func genBatch(t *T, n int) []byte {
	var p []byte
	if t.large && t.P(4, 5) {
		n *= t.R(5, 150)
	}
	if n > 0 && t.P(1, 5) {
		for {
			p = genStream(t.Rng, t.R(1, 8), true)
			if !exoticInESC(p) {
				return p
			}
		}
	}
	for ; n > 0; n-- {
		p = append(p, genEventToken(t)...)
	}
	return p
}

func c21Load(t *T) {
	var es platform.Events
	if t.P(1, 3) { // what was there before and has been cleared plays no part
		es.DecodeBytes(genBatch(t, t.R(0, 10)))
		es.Clear()
		if !es.Empty() || len(es.Type) != 0 {
			t.Fail("after Clear %d events are left", len(es.Type))
		}
	}
	var model []qev
	if t.Bool() {
		for k := t.R(1, 3); k > 0; k-- {
			p := genBatch(t, t.R(0, 12))
			orig := string(p)
			want, _ := refDecode([]byte(orig), true)
			t.Logf("bytes %q", orig)
			es.DecodeBytes(p)
			model = append(model, classifyAll(want)...)
			if d := sameQueue(model, &es); d != "" {
				t.Fail("after loading bytes %q: %s", orig, d)
			}
			t.Count("events", len(want))
		}
		t.Sample("%s", qsString(model))
		t.Distinct(qsString(model))
		return
	}
	r, w := rawPipe(t)
	in := anansi.Input{File: r}
	in.MinReadSize = t.R(1, 64)
	for k := t.R(1, 5); k > 0; k-- {
		p := genBatch(t, t.R(0, 8))
		want, held := refDecode(p, false)
		if len(held) > 0 || len(p) == 0 || exoticInESC(p) {
			continue
		}
		if _, err := w.Write(p); err != nil {
			t.Inconclusive("write: %v", err)
		}
		for n := 0; n < len(p); {
			m, err := in.ReadMore()
			if err != nil {
				t.Fail("read: %v", err)
			}
			n += m
			if t.P(1, 8) && n >= len(p) {
				break
			}
		}
		t.Logf("input %q", p)
		es.DecodeInput(&in)
		model = append(model, classifyAll(want)...)
		if d := sameQueue(model, &es); d != "" {
			t.Fail("after input %q: %s", p, d)
		}
		t.Count("events", len(want))
		if t.P(1, 4) {
			es.Clear()
			model = nil
		}
	}
	t.Sample("input %s", qsString(model))
	t.Distinct("in " + qsString(model))
}

func mouseButton(code int) uint8 {
	if code&64 != 0 {
		return uint8(4 + code&3)
	}
	return uint8((code + 1) & 3)
}

func isPress(q qev) bool {
	return !q.gone && q.kind == platform.EventMouse && q.code&(32|128) == 0
}

func inBox(p ansi.Point, b ansi.Rectangle) bool {
	return b.Min.X <= p.X && p.X < b.Max.X && b.Min.Y <= p.Y && p.Y < b.Max.Y
}

func c21Consume(t *T) {
	var es platform.Events
	var model []qev
	load := func() {
		for {
			p := genBatch(t, t.R(0, 25))
			want, _ := refDecode(p, true)
			qs := classifyAll(want)
			ok := true
			for _, q := range qs {
				if q.loose && q.kind == platform.EventMouse || q.kind == platform.EventMouse && q.code&64 != 0 && (q.code&(128|32) != 0 || q.code&3 > 1) {
					ok = false
				}
			}
			if ok {
				t.Logf("load %q", p)
				es.DecodeBytes(append([]byte(nil), p...))
				model = append(model, qs...)
				return
			}
		}
	}
	load()
	kinds := ""
	for _, q := range model {
		kinds += q.String()[:1]
	}
	runes := []rune{'a', 'b', 'c', 'd', 'e', ' ', '\x0c', '\x12', '世', 'z'}
	box := func() ansi.Rectangle {
		return ansi.Rect(t.R(1, 8), t.R(1, 8), t.R(1, 10), t.R(1, 10))
	}
	for k := t.R(1, 14); k > 0; k-- {
		what := ""
		var got, want interface{}
		switch t.N(11) {
		case 0, 1:
			var rs []rune
			for j := t.R(1, 3); j > 0; j-- {
				rs = append(rs, runes[t.N(len(runes))])
			}
			n := 0
			for i, q := range model {
				if !q.gone && q.kind == platform.EventRune && bytes.ContainsRune([]byte(string(rs)), rune(q.id)) {
					model[i].gone = true
					n++
				}
			}
			what = fmt.Sprintf("CountRune(%q)", rs)
			got, want = es.CountRune(rs...), n
		case 2:
			r := runes[t.N(len(runes))]
			if !t.P(1, 3) {
				r = '\x03'
			}
			has := false
			for i, q := range model {
				if !q.gone && q.kind == platform.EventRune && rune(q.id) == r {
					has = true
				}
				if has {
					model[i].gone = true
				}
			}
			what = fmt.Sprintf("HasTerminal(%q)", r)
			got, want = es.HasTerminal(r), has
		case 3:
			b, id := box(), uint8(t.N(6))
			n := 0
			for i, q := range model {
				if isPress(q) && mouseButton(q.code) == id && inBox(q.pt, b) {
					model[i].gone = true
					n++
				}
			}
			what = fmt.Sprintf("CountPressesIn(%v, %d)", b, id)
			got, want = es.CountPressesIn(b, id), n
		case 4:
			b := box()
			any := false
			for _, q := range model {
				any = any || isPress(q) && !inBox(q.pt, b)
			}
			what = fmt.Sprintf("AnyPressesOutside(%v)", b)
			got, want = es.AnyPressesOutside(b), any
		case 5:
			b := box()
			n := 0
			for i, q := range model {
				if !q.gone && q.kind == platform.EventMouse && inBox(q.pt, b) {
					switch mouseButton(q.code) {
					case 4:
						n--
						model[i].gone = true
					case 5:
						n++
						model[i].gone = true
					}
				}
			}
			what = fmt.Sprintf("TotalScrollIn(%v)", b)
			got, want = es.TotalScrollIn(b), n
		case 6:
			var d image.Point
			odd := false
			for i, q := range model {
				if q.gone || q.kind != platform.EventEscape {
					continue
				}
				dir, is := map[ansi.Escape]image.Point{
					ansi.CSI('A'): {X: 0, Y: -1}, ansi.CSI('B'): {X: 0, Y: 1},
					ansi.CSI('C'): {X: 1, Y: 0}, ansi.CSI('D'): {X: -1, Y: 0},
				}[q.id]
				if !is {
					continue
				}
				model[i].gone = true
				n := 1
				if q.arg != "" {
					v, err := strconv.Atoi(q.arg)
					if err != nil || v <= 0 || v > 1<<20 {
						odd = true // a modifier or a zero count: not an ordinary move
					}
					n = v
				}
				d = d.Add(dir.Mul(n))
			}
			what = "TotalCursorMovement()"
			got = es.TotalCursorMovement()
			want = d
			if odd {
				want = got
			}
		case 7:
			consume := t.Bool()
			var m platform.Mouse
			have := false
			for i, q := range model {
				if !q.gone && q.kind == platform.EventMouse {
					m = platform.Mouse{State: ansi.MouseState(q.code), Point: q.pt}
					have = true
					if consume {
						model[i].gone = true
					}
				}
			}
			what = fmt.Sprintf("LastMouse(%v)", consume)
			gm, gh := es.LastMouse(consume)
			got, want = fmt.Sprint(gm.State, gm.Point, gh), fmt.Sprint(m.State, m.Point, have)
		case 8: // strike one by one, as an iterating user does
			i := 0
			for id, kind := range es.Type {
				for kind != platform.EventNone && i < len(model) && model[i].gone {
					i++
				}
				if kind == platform.EventNone {
					continue
				}
				if t.P(1, 4) {
					es.Type[id] = platform.EventNone
					model[i].gone = true
				}
				i++
			}
			what = "striking by id"
		case 9:
			what = "Empty()"
			empty := true
			for _, q := range model {
				empty = empty && q.gone
			}
			got, want = es.Empty(), empty
		default:
			if t.P(1, 3) {
				what = "Clear()"
				es.Clear()
				model = model[:0]
			} else {
				what = "more"
				load()
			}
		}
		t.Logf("%s = %v", what, got)
		kinds += what[:3]
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fail("%s returned %v, want %v\n left: %s", what, got, want, qsString(model))
		}
		if d := sameQueue(model, &es); d != "" {
			t.Fail("after %s: %s", what, d)
		}
		t.Count("operations", 1)
	}
	t.Sample("%s", kinds)
	t.Distinct(kinds)
}
