package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"github.com/jcorbin/anansi"
)

func init() {
	register(&Prop{
		ID:   "C20",
		Rule: "input of random content arrives in random pieces and is read while being recorded, with read errors, idle reads and messages between; the recording is loaded and compared frame by frame with what was read and when; non-trivial by (kinds of content cut by frames, sequence of frame kinds)",
		Assumptions: []string{
			"an application program command that arrives complete within one read is indistinguishable from a message in the recording format, and is not generated as input",
			"messages and error texts contain no ESC",
			"repeating a blocking read at end of file need not be recorded again",
		},
		Subs: []Sub{
			{Name: "session", Quick: 20000, Thorough: 800000, Run: c20Session},
			{Name: "large-session", Quick: 1500, Thorough: 60000, Run: large(c20Session)},
			{Name: "large-bytes", Quick: 1500, Thorough: 60000, Run: large(c20Bytes)},
			{Name: "bytes", Quick: 20000, Thorough: 800000, Run: c20Bytes},
			{Name: "invalid", Quick: 2000, Thorough: 50000, Run: c20Invalid},
		},
	})
}

// hasAPC tells whether p contains what would be a complete message.
func hasAPC(p []byte) bool {
	for i := 0; i+1 < len(p); i++ {
		if p[i] == 0x1B && p[i+1] == '_' {
			if j := bytes.IndexByte(p[i+2:], 0x1B); j >= 0 && i+2+j+1 < len(p) && p[i+2+j+1] == '\\' {
				return true
			}
		}
	}
	return false
}

type c20Frame struct {
	lo, hi time.Time // when it was read
	timed  bool
	e      string
	b      string
	m      string
	hasM   bool
}

func c20Message(r *Rng) string {
	switch r.N(4) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("base64+/=", r.N(300))
	default:
		s := fmt.Sprintf("msg%d:", r.N(100))
		for k := r.N(6); k > 0; k-- {
			s += []string{"x", "é", "\n", "\x00", ";", "rec", "\u009c", "\xff", "\\"}[r.N(9)]
		}
		return s
	}
}

func c20Content(r *Rng) []byte {
	for {
		var p []byte
		switch r.N(4) {
		case 0: // anything
			p = make([]byte, r.N(60))
			for i := range p {
				p[i] = byte(r.U64())
			}
		case 1: // bytes the format itself uses
			for k := r.N(8); k > 0; k-- {
				p = append(p, []string{"\x1b", "_", "\x1b_", "\x1b\\", "\\", "recTime:", "recReadErr:", "\x1b_recTime:", "\u009f", "\u009c", "\x9f", "\x9c", "x"}[r.N(13)]...)
			}
		default:
			p = genStream(r, r.R(0, 8), r.Bool())
			if len(p) > 0 && r.Bool() { // cut somewhere
				p = p[:r.N(len(p)+1)]
			}
		}
		if r.P(1, 20) {
			p = bytes.Repeat(append(p, 'x'), r.R(1, 40))
		}
		if !hasAPC(p) {
			return p
		}
	}
}

// c20Large content around p, of a size that takes many reads or more than one
// buffer: distinguishable all over, so that any piece missing shows.
func c20Large(r *Rng, p []byte) []byte {
	n := []int{500, 1000, 4090, 8190, 16380, 32760}[r.N(6)] + r.N(30)
	q := make([]byte, 0, n+len(p))
	for i := 0; len(q) < n; i++ {
		q = append(q, fmt.Sprintf("%d|", i)...)
	}
	at := r.N(len(q) + 1)
	q = append(q[:at:at], append(append([]byte{}, p...), q[at:]...)...)
	if hasAPC(q) {
		return p
	}
	return q
}

func c20Load(t *T, data []byte) (anansi.InputReplay, error) {
	r, w, err := os.Pipe()
	if err != nil {
		t.Inconclusive("pipe: %v", err)
	}
	defer r.Close()
	go func() {
		w.Write(data)
		w.Close()
	}()
	return anansi.ReadInputReplay(r)
}

// c20Compare the replay of a recording with the frames that were recorded.
func c20Compare(t *T, desc string, data []byte, want []c20Frame) {
	rep, err := c20Load(t, data)
	if err != nil {
		t.Fail("%s: loading: %v\n recording %q", desc, err, data)
	}
	show := func() string {
		s := ""
		for _, f := range rep {
			s += fmt.Sprintf("\n  {%v E=%v B=%q M=%q}", f.T, f.E, f.B, f.M)
		}
		return s
	}
	var all, got []byte
	for i, f := range rep {
		got = append(got, f.B...)
		if i >= len(want) {
			continue
		}
		w := want[i]
		if w.timed && (f.T.Before(w.lo.Add(-time.Microsecond)) || f.T.After(w.hi.Add(time.Microsecond))) {
			t.Fail("%s: frame %d has time %v, but was read between %v and %v", desc, i, f.T, w.lo, w.hi)
		}
		if !w.timed && !f.T.IsZero() {
			t.Fail("%s: frame %d has time %v, none was recorded", desc, i, f.T)
		}
		e := ""
		if f.E != nil {
			e = f.E.Error()
			if e == "" {
				e = "?"
			}
		}
		if e != w.e {
			t.Fail("%s: frame %d has error %q, want %q%s\n recording %q", desc, i, e, w.e, show(), data)
		}
		if string(f.B) != w.b {
			t.Fail("%s: frame %d has input %q, want %q%s\n recording %q", desc, i, f.B, w.b, show(), data)
		}
		if string(f.M) != w.m || w.hasM != (f.M != nil) {
			t.Fail("%s: frame %d has message %q, want %q (%v)%s", desc, i, f.M, w.m, w.hasM, show())
		}
		if s := f.String(); len(w.b) > 0 && !strings.Contains(s, fmt.Sprintf("%q", w.b)) || w.e != "" && !strings.Contains(s, w.e) {
			t.Fail("%s: frame %d {E %q B %q} is described as %q", desc, i, w.e, w.b, s)
		}
	}
	for _, w := range want {
		all = append(all, w.b...)
	}
	if len(rep) != len(want) {
		t.Fail("%s: %d frames loaded, %d recorded%s\n recording %q", desc, len(rep), len(want), show(), data)
	}
	if !bytes.Equal(all, got) {
		t.Fail("%s: replay has input %q, want %q", desc, got, all)
	}
	if n := len(rep); n > 0 {
		if d := rep[n-1].T.Sub(rep[0].T); rep.Duration() != d {
			t.Fail("%s: duration %v, want %v", desc, rep.Duration(), d)
		}
		// frames must not share memory in a way that growing one changes another
		before := fmt.Sprint(rep)
		for _, f := range rep {
			_ = append(f.B, "######"...)
			_ = append(f.M, "######"...)
		}
		if after := fmt.Sprint(rep); before != after {
			t.Fail("%s: appending to one frame changed another", desc)
		}
	} else if rep.Duration() != 0 {
		t.Fail("%s: an empty replay lasts %v", desc, rep.Duration())
	}
	t.Count("frames", len(rep))
	t.Count("bytes", len(all))
}

type limitedRec struct {
	bytes.Buffer
	fail bool
}

var errRec = errors.New("recording failed")

func (l *limitedRec) Write(p []byte) (int, error) {
	if l.fail {
		return 0, errRec
	}
	return l.Buffer.Write(p)
}

func c20Session(t *T) {
	r, w := rawPipe(t)
	in := anansi.Input{File: r, MinReadSize: []int{0, 1, 16, 128, 500}[t.N(5)]}
	var rec limitedRec
	var want []c20Frame
	var dir *os.File
	recording := false
	on := func() {
		in.SetRecording(&rec)
		recording = true
	}
	if t.P(4, 5) {
		on()
	}
	desc, kinds := "", ""
	push := func(f c20Frame) { want = append(want, f) }
	var sent []byte // not yet read
	ended := false
	decoded, total := 0, 0
	for k := t.R(1, 12); k > 0; k-- {
		op := t.N(16)
		switch {
		case op < 6 && !ended:
			p := c20Content(t.Rng)
			limit := 4000
			if t.large {
				p, limit = c20Large(t.Rng, p), 60000
			}
			if len(sent)+len(p) < limit {
				w.Write(p)
				sent = append(sent, p...)
			}
			if t.P(1, 3) {
				continue
			}
			fallthrough
		case op < 10:
			f := c20Frame{timed: true, lo: time.Now()}
			var n int
			var err error
			if len(sent) > 0 && t.Bool() {
				n, err = in.ReadMore()
				kinds += "m"
			} else {
				n, err = in.ReadAny()
				kinds += "a"
			}
			f.hi = time.Now()
			if n < 0 || n > len(sent) || err != nil && err != io.EOF || hasAPC(sent[:n]) {
				if n <= len(sent) && n >= 0 && hasAPC(sent[:n]) {
					return // arrived in pieces, read as one
				}
				t.Fail("%s: read %d, %v with %d bytes available", desc, n, err, len(sent))
			}
			if err != nil {
				f.e = err.Error()
			}
			f.b = string(sent[:n])
			sent = sent[n:]
			total += n
			desc += fmt.Sprintf("%q ", f.b)
			if recording {
				push(f)
			}
		case op == 10 && recording: // a message between frames
			m := c20Message(t.Rng)
			rec.WriteString("\x1b_" + m + "\x1b\\")
			push(c20Frame{m: m, hasM: true})
			desc += fmt.Sprintf("message(%q) ", m)
			kinds += "M"
		case op == 11 && len(sent) == 0: // a read error
			if dir == nil {
				d, err := os.Open("/")
				if err != nil {
					t.Inconclusive("open: %v", err)
				}
				dir = d
				t.Cleanup(func() { dir.Close() })
			}
			in.File = dir
			f := c20Frame{timed: true, lo: time.Now()}
			n, err := 0, error(nil)
			if t.Bool() {
				n, err = in.ReadMore()
			} else {
				n, err = in.ReadAny()
			}
			f.hi = time.Now()
			in.File = r
			if err == nil || n != 0 {
				t.Fail("reading a directory: %d, %v", n, err)
			}
			f.e = err.Error()
			desc += fmt.Sprintf("error(%q) ", f.e)
			kinds += "E"
			if recording {
				push(f)
			}
		case op == 12: // stop or start recording
			if recording {
				in.SetRecording(nil)
				recording = false
				desc += "stop "
				kinds += "-"
			} else {
				on()
				desc += "start "
				kinds += "+"
			}
			if in.IsRecording(nil) != recording {
				t.Fail("%s: recording is %v, should be %v", desc, in.IsRecording(nil), recording)
			}
		case op == 13 && recording && len(sent) > 0: // failing to record must not lose input
			rec.fail = true
			n, err := in.ReadAny()
			rec.fail = false
			if n != len(sent) || err != errRec && !(ended && err == io.EOF) {
				t.Fail("%s: read while recording failed returned %d, %v; %d bytes were available", desc, n, err, len(sent))
			}
			total += n
			sent = nil
			desc += "recfail "
			kinds += "F"
		case op == 14 && !ended && k < 3:
			w.Close()
			ended = true
			desc += "close "
			kinds += "C"
		case op == 15:
			for i := t.N(10); i > 0; i-- {
				if _, _, ok := in.Decode(); !ok {
					break
				}
				decoded++
			}
		}
	}
	if t.Bool() && !ended {
		w.Close()
		ended = true
	}
	if ended {
		for k := t.R(1, 3); k > 0 && (len(sent) > 0 || !in.AtEOF()); k-- {
			f := c20Frame{timed: true, lo: time.Now()}
			n, err := in.ReadMore()
			f.hi = time.Now()
			if n < 0 || n > len(sent) || hasAPC(sent[:n]) {
				return
			}
			if err != nil {
				f.e = err.Error()
			}
			f.b = string(sent[:n])
			sent = sent[n:]
			total += n
			desc += fmt.Sprintf("%q(%v) ", f.b, err)
			if recording {
				push(f)
			}
		}
	}
	c20Compare(t, desc, rec.Bytes(), want)
	t.Count("recorded_bytes", rec.Len())
	t.Sample("%s", desc)
	cut := ""
	for i, f := range want {
		_, held := refDecode([]byte(f.b), false)
		if i < 6 {
			cut += heldKind(held)
		}
	}
	t.Distinct(kinds + "|" + cut)
}

// c20Bytes: recordings written out by hand, in the documented format.
func c20Bytes(t *T) {
	var data []byte
	var want []c20Frame
	kinds := ""
	at := time.Unix(1500000000+int64(t.N(1<<30)), int64(t.N(1e9)))
	switch t.N(4) {
	case 0:
		at = at.UTC()
	case 1:
		at = at.In(time.FixedZone("X", (t.N(48)-24)*1800))
	}
	for k := t.R(0, 8); k > 0; k-- {
		f := c20Frame{}
		op := t.N(5)
		if len(want) > 0 && op == 0 {
			op = 1
		}
		switch op {
		case 0: // input before any mark
			for len(f.b) == 0 {
				f.b = string(c20Content(t.Rng))
			}
		case 1:
			f.m, f.hasM = c20Message(t.Rng), true
			data = append(data, "\x1b_"+f.m+"\x1b\\"...)
			if t.Bool() {
				f.b = string(c20Content(t.Rng))
			}
		default:
			at = at.Add(time.Duration(t.N(1e9) * t.N(100)))
			if t.P(1, 4) {
				at = at.Truncate(time.Second)
			}
			f.timed, f.lo, f.hi = true, at, at
			data = append(data, "\x1b_recTime:"+at.Format(time.RFC3339Nano)+"\x1b\\"...)
			if t.P(1, 3) {
				f.e = []string{"EOF", "read /dev/stdin: input/output error", "x"}[t.N(3)]
				data = append(data, "\x1b_recReadErr:"+f.e+"\x1b\\"...)
			}
			if t.P(4, 5) {
				f.b = string(c20Content(t.Rng))
			}
		}
		if t.large && len(f.b) > 0 {
			f.b = string(c20Large(t.Rng, []byte(f.b)))
		}
		data = append(data, f.b...)
		kinds += fmt.Sprint(op)
		_, held := refDecode([]byte(f.b), false)
		kinds += heldKind(held)
		want = append(want, f)
	}
	c20Compare(t, kinds, data, want)
	t.Sample("%q", data)
	t.Distinct(kinds)
}

// c20Invalid: damaged recordings are an error or lose no input, and never crash.
func c20Invalid(t *T) {
	var data []byte
	bad, input := false, ""
	for k := t.R(1, 6); k > 0; k-- {
		switch t.N(5) {
		case 0:
			s := []string{"", "yesterday", "2018-13-01T00:00:00Z", "2018-01-01", "2018-01-01T00:00:00Zx"}[t.N(5)]
			data = append(data, "\x1b_recTime:"+s+"\x1b\\"...)
			bad = true
		case 1:
			data = append(data, "\x1b_recTime:2018-01-02T03:04:05.678901234Z\x1b\\"...)
		case 2:
			data = append(data, "\x1b_recReadErr:oops\x1b\\"...)
		case 3:
			p := c20Content(t.Rng)
			for bytes.Contains(p, []byte("\x1b_")) {
				p = c20Content(t.Rng)
			}
			data = append(data, p...)
			data = append(data, 'x')
			input += string(p) + "x"
		default: // cut anywhere
			s := "\x1b_recTime:2018-01-02T03:04:05.678901234Z\x1b\\"
			s = s[:t.N(len(s))] + "x\x1b|"
			data = append(data, s...)
			input += s
		}
	}
	rep, err := c20Load(t, data)
	if bad && err == nil {
		t.Fail("recording %q with an invalid time loaded as %v", data, rep)
	}
	if !bad && err != nil {
		t.Fail("recording %q did not load: %v", data, err)
	}
	if !bad {
		got := ""
		for _, f := range rep {
			got += string(f.B)
		}
		if got != input {
			t.Fail("recording %q has input %q, loaded is %q", data, input, got)
		}
	}
	t.Distinct(fmt.Sprint(bad, len(rep), len(data)/10))
}
