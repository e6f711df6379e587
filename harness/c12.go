package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"syscall"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() {
	register(&Prop{
		ID:    "C12",
		Level: "exploration",
		Rule:  "random operations on a real VirtualCursor are mirrored onto a model terminal by their meaning, and the bytes it writes are interpreted by a second reference terminal; tracked state, model and terminal have to agree; non-trivial by operation history",
		Assumptions: []string{
			"operations stay within the screen: no text into the last column, no linefeed on the bottom row, no move beyond an edge",
			"tracked position, attributes and visibility are compared once known: after an absolute move, an attribute change, a show or hide",
			"buffered output is flushed between complete sequences, and runes are complete before moves",
		},
		Subs: []Sub{
			{Name: "history", Quick: 150000, Thorough: 5000000, Run: c12History},
			{Name: "large-history", Quick: 1500, Thorough: 60000, Run: large(c12History)},
			{Name: "large-applyto", Quick: 1500, Thorough: 60000, Run: large(c12ApplyTo)},
			{Name: "pairs", Quick: 4 * 9 * 9 * 9 * 9, Thorough: 4 * 14 * 14 * 14 * 14, Run: c12Pairs},
			{Name: "applyto", Quick: 40000, Thorough: 1500000, Run: c12ApplyTo},
		},
	})
}

func (t *rterm) clone() *rterm {
	c := *t
	c.cells = append([]rcell(nil), t.cells...)
	c.pbuf = append([]byte(nil), t.pbuf...)
	c.odd = append([]string(nil), t.odd...)
	return &c
}

// differs compares everything the terminal shows.
func (t *rterm) differs(o *rterm) string {
	switch {
	case t.x != o.x || t.y != o.y:
		return fmt.Sprintf("cursor at %d,%d, expected %d,%d", t.x, t.y, o.x, o.y)
	case t.cur != o.cur:
		return fmt.Sprintf("attributes %+v, expected %+v", t.cur, o.cur)
	case t.vis != o.vis:
		return fmt.Sprintf("cursor visible %v, expected %v", t.vis, o.vis)
	}
	for i := range t.cells {
		if t.cells[i] != o.cells[i] {
			return fmt.Sprintf("cell %d,%d has %+v, expected %+v", i%t.w+1, i/t.w+1, t.cells[i], o.cells[i])
		}
	}
	return ""
}

type c12Known struct{ pos, attr, vis bool }

type c12Mon struct {
	t     *T
	c     anansi.VirtualCursor
	real  *rterm // what received the bytes
	plan  *rterm // what all operations composed so far mean
	known c12Known
	saved c12Known // as of the last successful write
	part  bool     // the buffer holds bytes a blocked write left over
	kinds string
}

func (m *c12Mon) check(what string) {
	t, c := m.t, m.c.Cursor
	if m.known.pos && m.plan.idle() && (c.X != m.plan.x || c.Y != m.plan.y) {
		t.Fail("%s: tracks position %v, terminal will be at %d,%d", what, c.Point, m.plan.x, m.plan.y)
	}
	if m.known.attr && rendOf(c.Attr) != m.plan.cur {
		t.Fail("%s: tracks attributes %v, terminal will have %+v", what, c.Attr, m.plan.cur)
	}
	if m.known.vis && c.Visible != m.plan.vis {
		t.Fail("%s: tracks visibility %v, terminal will have %v", what, c.Visible, m.plan.vis)
	}
	t.Count("state_checks", 1)
}

// cancel drops an unfinished sequence like the start of the next one does.
func (m *c12Mon) cancel() {
	if !m.plan.idle() {
		m.plan.Write([]byte("\x1b[?7727h"))
	}
}

// feed mirrors raw output.
func (m *c12Mon) feed(s string) { m.plan.Write([]byte(s)) }

// raw makes one complete piece of raw output that stays within bounds if the
// position is known.
func (m *c12Mon) raw() (s, kind string) {
	t, p := m.t, m.plan
	dir := func(room int) string {
		if room == 1 && t.P(1, 3) {
			return t.Pick("", "0")
		}
		return strconv.Itoa(t.R(1, room))
	}
	for {
		switch t.N(16) {
		case 0, 1, 2, 3, 4:
			for n := t.R(1, 4); n > 0; n-- {
				if m.known.pos && p.x+len([]rune(s)) >= p.x1 {
					break
				}
				s += string(genCellRune(t.Rng))
			}
			if s != "" {
				return s, "t"
			}
		case 5:
			return "\r", "r"
		case 6:
			if p.y < p.y1 {
				return "\n", "n"
			}
		case 7, 8:
			fin, room := byte('A'), p.y-1
			switch t.N(4) {
			case 0:
				fin, room = 'B', p.y1-p.y
			case 1:
				fin, room = 'C', p.x1-1-p.x
			case 2:
				fin, room = 'D', p.x-1
			}
			if room > 0 {
				return "\x1b[" + dir(room) + string(rune(fin)), "m"
			}
		case 9, 10:
			y, x := t.R(1, p.y1), t.R(1, p.x1-1)
			m.known.pos = true
			if y == 1 && x == 1 && t.Bool() {
				return "\x1b[H", "P"
			}
			return fmt.Sprintf("\x1b[%d;%dH", y, x), "P"
		case 11, 12:
			codes := genSGRCodes(t.Rng)
			return "\x1b[" + codes + "m", "a"
		case 13:
			m.known.vis = true
			return t.Pick("\x1b[?25h", "\x1b[?25l", "\x1b[?7;25h", "\x1b[?25;12l"), "v"
		case 14:
			return t.Pick("\x1b[J", "\x1b[2J", "\x1b[K", "\x1b[1K", "\x1b[0J"), "e"
		default:
			return t.Pick("\x1b[?1049h", "\x1b]2;title\x1b\\", "\x1b[2 q", "\x1b=", "\x1b[0 q", "\x1b[999m", "\x1b[?2004l", "\x1b(B", "\a", "\x1bPq#\x1b\\"), "u"
		}
	}
}

func (m *c12Mon) write(s string) {
	t := m.t
	for len(s) > 0 {
		n := len(s)
		if n > 1 && t.P(1, 3) {
			n = t.R(1, n-1)
		}
		b, err := s[:n], error(nil)
		k := n
		switch t.N(4) {
		case 0:
			k, err = m.c.Write([]byte(b))
		case 1:
			k, err = m.c.WriteString(b)
		case 2:
			for i := 0; i < len(b); i++ {
				if e := m.c.WriteByte(b[i]); e != nil {
					err = e
				}
			}
		default:
			if r := []rune(b); string(r) == b && r[0] != 0xFFFD {
				k = 0
				for _, r := range r {
					n, e := m.c.WriteRune(r)
					k += n
					if e != nil {
						err = e
					}
				}
			} else {
				k, err = io.WriteString(&m.c, b)
			}
		}
		if k != n || err != nil {
			t.Fail("writing %q returned %d, %v", b, k, err)
		}
		s = s[n:]
	}
}

func (m *c12Mon) op() {
	t, p := m.t, m.plan
	pt := func() ansi.Point { return ansi.Pt(t.R(1, p.x1-1), t.R(1, p.y1)) }
	what := ""
	switch t.N(20) {
	case 0, 1, 2, 3:
		s, kind := "", ""
		for n := t.R(1, 3); n > 0; n-- {
			r, k := m.raw()
			s += r
			kind += k
			m.feed(r)
		}
		what = fmt.Sprintf("write %q", s)
		t.Logf("%s", what)
		m.write(s)
		m.kinds += kind
	case 4:
		// an unfinished sequence, cancelled by a move
		to := pt()
		if !m.known.pos || !p.idle() || to.Y == p.y+1 || to.X == p.x && to.Y == p.y {
			return
		}
		s := t.Pick("\x1b", "\x1b[", "\x1b[3", "\x1b[38;5", "\x1b[?2", "\x1b[1;", "\x1b]2;x", "\x1bP1")
		what = fmt.Sprintf("write %q, to %v", s, to)
		t.Logf("%s", what)
		m.write(s)
		p.x, p.y, p.pend = to.X, to.Y, false
		if t.Bool() {
			m.c.To(to)
			m.kinds += "x"
		} else { // the same
			cs := anansi.Cursor{Point: to, Attr: genAttrAny(t.Rng), Visible: true}
			what += fmt.Sprintf(" by applying %v", cs)
			m.c.Apply(cs)
			p.cur, p.vis = rendOf(cs.Attr), true
			m.known.attr, m.known.vis = true, true
			m.kinds += "y"
		}
	case 5, 6, 7, 8, 9:
		to := pt()
		switch t.N(4) {
		case 0:
			to.X = clampi(p.x, 1, p.x1-1)
		case 1:
			to.Y = p.y
		case 2:
			if p.y < p.y1 {
				to = ansi.Pt(t.R(1, 2), p.y+1)
			}
		}
		what = fmt.Sprintf("to %v", to)
		t.Logf("%s", what)
		m.cancel()
		m.c.To(to)
		p.x, p.y, p.pend = to.X, to.Y, false
		m.known.pos = true
		m.kinds += "T"
	case 10, 11, 12:
		a := genAttrAny(t.Rng)
		if m.known.attr && t.Bool() {
			a = mutateAttr(t.Rng, m.c.Attr)
		}
		if t.P(1, 10) {
			a |= ansi.SGRAttrClear
		}
		what = fmt.Sprintf("sgr %v", a)
		t.Logf("%s", what)
		m.cancel()
		if t.P(1, 4) {
			b := genAttrAny(t.Rng)
			what = fmt.Sprintf("sgr %v, %v", b, a)
			m.c.WriteSGR(b, a)
		} else {
			m.c.WriteSGR(a)
		}
		p.cur = rendOf(a)
		m.known.attr = true
		m.kinds += "A"
	case 13:
		what = "show"
		m.cancel()
		m.c.Show()
		p.vis, m.known.vis = true, true
		m.kinds += "S"
	case 14:
		what = "hide"
		m.cancel()
		m.c.Hide()
		p.vis, m.known.vis = false, true
		m.kinds += "H"
	case 15, 16:
		cs := anansi.Cursor{Point: pt(), Attr: genAttrAny(t.Rng), Visible: t.P(2, 3)}
		if t.P(1, 6) {
			cs.Point = ansi.ZP
		}
		what = fmt.Sprintf("apply %v", cs)
		t.Logf("%s", what)
		m.cancel()
		m.c.Apply(cs)
		m.known.vis = true
		if cs.Visible && cs.Point.Valid() {
			p.x, p.y, p.pend, p.cur, p.vis = cs.X, cs.Y, false, rendOf(cs.Attr), true
			m.known.pos, m.known.attr = true, true
		} else {
			p.vis = false
		}
		m.kinds += "Y"
	case 17:
		// sequences built by the library
		var seqs []ansi.Seq
		for n := t.R(1, 3); n > 0; n-- {
			var q ansi.Seq
			s := ""
			switch t.N(6) {
			case 0:
				to := pt()
				q, s = ansi.CUP.WithPoint(to), fmt.Sprintf("\x1b[%d;%dH", to.Y, to.X)
				m.known.pos = true
			case 1:
				if p.x1-1-p.x <= 0 {
					continue
				}
				k := t.R(1, p.x1-1-p.x)
				q, s = ansi.CUF.WithInts(k), fmt.Sprintf("\x1b[%dC", k)
			case 2:
				k := t.R(30, 37)
				q, s = ansi.SGR.WithInts(k), fmt.Sprintf("\x1b[%dm", k)
			case 3:
				q, s = ansi.ShowCursor.Set(), "\x1b[?25h"
				m.known.vis = true
			case 4:
				q, s = ansi.ShowCursor.Reset(), "\x1b[?25l"
				m.known.vis = true
			default:
				q = ansi.Seq{} // nothing
			}
			if s != "" {
				m.cancel()
			}
			m.feed(s)
			seqs = append(seqs, q)
		}
		what = fmt.Sprintf("seqs %q", seqs)
		m.c.WriteSeq(seqs...)
		m.kinds += "Q"
	case 18:
		var escs []ansi.Escape
		for n := t.R(1, 3); n > 0; n-- {
			switch t.N(5) {
			case 0:
				if p.y > 1 {
					escs = append(escs, ansi.CUU)
					m.feed("\x1b[A")
				}
			case 1:
				if p.x > 1 {
					escs = append(escs, ansi.CUB)
					m.feed("\x1b[D")
				}
			case 2:
				escs = append(escs, ansi.CUP)
				m.feed("\x1b[H")
				m.known.pos = true
			case 3:
				escs = append(escs, ansi.SGR)
				m.feed("\x1b[m")
			default:
				escs = append(escs, ansi.EL)
				m.feed("\x1b[K")
			}
		}
		what = fmt.Sprintf("escs %v", escs)
		m.c.WriteESC(escs...)
		m.kinds += "E"
	default:
		if m.part {
			return
		}
		what = "reset"
		m.c.Reset()
		m.plan = m.real.clone()
		m.known = m.saved
		m.kinds += "Z"
		t.Count("resets", 1)
	}
	m.check(what)
}

func (m *c12Mon) flush() {
	t := m.t
	cut, err := -1, error(nil)
	if t.P(1, 4) {
		cut = t.N(12)
		err = wouldBlock(t.Rng)
		if t.P(1, 2) {
			err = hardError(t.Rng)
		}
	}
	before := m.c.Cursor
	fw := &faultWriter{m: m.real, accept: cut, err: err}
	n, gotErr := m.c.WriteTo(fw)
	t.Logf("write %q, took %d: %d, %v", fw.offers, fw.took, n, gotErr)
	if int(n) != fw.took {
		t.Fail("%d bytes were written, WriteTo returned %d", fw.took, n)
	}
	switch {
	case gotErr == nil:
		if m.c.Cursor != before || m.c.Real != before {
			t.Fail("after writing, cursor is %v and real cursor %v, expected both %v", m.c.Cursor, m.c.Real, before)
		}
		if d := m.real.differs(m.plan); d != "" && (m.real.idle() || !m.plan.idle()) {
			t.Fail("after writing, terminal has %s", d)
		}
		if len(m.real.pbuf) != len(m.plan.pbuf) {
			t.Fail("after writing, terminal is in %q, expected in %q", m.real.pbuf, m.plan.pbuf)
		}
		m.saved, m.part = m.known, false
		t.Count("writes", 1)
	case gotErr != err:
		t.Fail("writer failed with %v, WriteTo with %v", err, gotErr)
	case errors.Is(err, syscall.EWOULDBLOCK):
		m.kinds += "w"
		m.part = true
		if m.c.Cursor != before {
			t.Fail("after a blocked write, cursor is %v, was %v", m.c.Cursor, before)
		}
		t.Count("would_blocks", 1)
		if t.P(1, 4) {
			// discarding the rest loses what is known
			m.c.Reset()
			m.forgotten("a blocked write and reset")
		}
	default:
		m.kinds += "h"
		t.Count("hard_errors", 1)
		m.forgotten("a failed write")
	}
}

func (m *c12Mon) forgotten(what string) {
	if (m.c.Cursor != anansi.Cursor{} || m.c.Real != anansi.Cursor{}) {
		m.t.Fail("after %s, cursor is %v and real cursor %v, expected nothing known", what, m.c.Cursor, m.c.Real)
	}
	var none bytes.Buffer
	if n, err := m.c.WriteTo(&none); n != 0 || err != nil {
		m.t.Fail("after %s, %q was still written", what, none.Bytes())
	}
	m.plan = m.real.clone()
	m.known, m.saved, m.part = c12Known{}, c12Known{}, false
}

func newC12(t *T, w, h int) *c12Mon {
	m := &c12Mon{t: t, real: newRterm(w, h)}
	m.real.garbage(t.Rng)
	m.real.vis = t.Bool()
	m.real.cur = rendOf(genAttrAny(t.Rng))
	m.real.x, m.real.y = t.R(1, w-1), t.R(1, h)
	m.real.pend = false
	m.plan = m.real.clone()
	return m
}

func c12History(t *T) {
	w, h := t.size(2, 12, 1, 6)
	w = max(w, 2)
	m := newC12(t, w, h)
	for n := t.R(2, 24); n > 0; n-- {
		m.op()
		if t.P(1, 3) {
			m.flush()
			m.check("after writing")
		}
	}
	for k := 0; k < 50; k++ {
		m.flush()
	}
	m.check("at end")
	t.Sample("%s", m.kinds)
	t.Distinct(m.kinds)
}

// c12Pairs goes through all pairs of start and target points (and how the
// start was reached), checking arrival and that only real moves are written.
func c12Pairs(t *T) {
	k := 9
	if t.Thorough {
		k = 14
	}
	i := t.Idx
	sx := i%k + 1
	i /= k
	sy := i%k + 1
	i /= k
	tx := i%k + 1
	i /= k
	ty := i%k + 1
	i /= k
	how := i
	m := newC12(t, k+1, k)
	switch how {
	case 0:
		m.c.To(ansi.Pt(sx, sy))
	case 1:
		m.c.Apply(anansi.Cursor{Point: ansi.Pt(sx, sy), Visible: true})
		m.plan.vis, m.plan.cur = true, rend0
	case 2:
		fmt.Fprintf(&m.c, "\x1b[%d;%dH", sy, sx)
	case 3:
		if sx == 1 {
			m.c.To(ansi.Pt(1, sy))
		} else {
			m.c.To(ansi.Pt(sx-1, sy))
			m.c.WriteString("x")
			*m.plan.at(sx-1, sy) = rcell{'x', m.plan.cur}
		}
	}
	m.plan.x, m.plan.y = sx, sy
	m.known.pos = true
	m.check("start")
	if _, err := m.c.WriteTo(m.real); err != nil {
		t.Fail("write: %v", err)
	}
	if d := m.real.differs(m.plan); d != "" {
		t.Fail("start: terminal has %s", d)
	}
	m.c.To(ansi.Pt(tx, ty))
	m.plan.x, m.plan.y = tx, ty
	m.check("target")
	n, err := m.c.WriteTo(m.real)
	if err != nil {
		t.Fail("write: %v", err)
	}
	if d := m.real.differs(m.plan); d != "" {
		t.Fail("%d,%d to %d,%d: terminal has %s", sx, sy, tx, ty, d)
	}
	if same := sx == tx && sy == ty; same != (n == 0) {
		t.Fail("%d,%d to %d,%d: wrote %d bytes", sx, sy, tx, ty, n)
	}
	// nothing more to say
	m.c.To(ansi.Pt(tx, ty))
	a := genAttrAny(t.Rng)
	m.c.Show()
	m.c.WriteSGR(a)
	m.c.WriteTo(m.real)
	m.c.To(ansi.Pt(tx, ty))
	m.c.Show()
	if m.c.WriteSGR(a&^ansi.SGRAttrClear) != 0 {
		t.Fail("attribute %v already in effect written again", a)
	}
	if n, _ := m.c.WriteTo(m.real); n != 0 {
		t.Fail("%d bytes written for a state already in effect", n)
	}
	m.plan.vis, m.plan.cur = true, rendOf(a)
	if d := m.real.differs(m.plan); d != "" {
		t.Fail("terminal has %s", d)
	}
	t.Distinct(fmt.Sprint(sx, sy, tx, ty, how))
	t.Count("moves", 1)
}

// c12ApplyTo applies cursor states one after the other through every kind of writer.
func c12ApplyTo(t *T) {
	w, h := t.size(2, 10, 1, 6)
	w = max(w, 2)
	m := newC12(t, w, h)
	var cur anansi.Cursor
	key := ""
	for n := t.R(1, 6); n > 0; n-- {
		cs := anansi.Cursor{Point: ansi.Pt(t.R(1, w-1), t.R(1, h)), Attr: genAttrAny(t.Rng), Visible: t.P(3, 4)}
		if t.P(1, 8) {
			cs.Point = ansi.ZP
		}
		var got int
		var err error
		var b bytes.Buffer
		var ab anansi.Buffer
		kind := t.N(3)
		switch kind {
		case 0:
			got, cur, err = cs.ApplyTo(&b, cur)
		case 1:
			got, cur, err = cs.ApplyTo(&ab, cur)
			ab.WriteTo(&b)
		default:
			got, cur, err = cs.ApplyTo(onlyWriter{&b}, cur)
		}
		t.Logf("apply %v (%d): %q", cs, kind, b.Bytes())
		if err != nil || got != b.Len() {
			t.Fail("apply %v returned %d, %v after writing %q", cs, got, err, b.Bytes())
		}
		m.real.Write(b.Bytes())
		p := m.plan
		if cs.Visible && cs.Point.Valid() {
			p.x, p.y, p.cur, p.vis = cs.X, cs.Y, rendOf(cs.Attr), true
			if cur.Point != cs.Point || rendOf(cur.Attr) != p.cur {
				t.Fail("apply %v returned state %v", cs, cur)
			}
		} else {
			p.vis = false
		}
		if cur.Visible != p.vis {
			t.Fail("apply %v returned state %v", cs, cur)
		}
		if d := m.real.differs(p); d != "" {
			t.Fail("apply %v: terminal has %s", cs, d)
		}
		key += fmt.Sprint(cs)
	}
	t.Distinct(key)
}
