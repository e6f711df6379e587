package main

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"io"
	"os"
	"sync"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
)

func init() {
	register(&Prop{
		ID:    "C13",
		Level: "fault_enumeration",
		Rule:  "real buffers, cursors and screens are flushed through a real Output into pipes and ptys drained at random paces; the bytes received are compared with those written, the file flags and stall counts with what happened; non-trivial by (kind, mode, sizes, blocks)",
		Assumptions: []string{
			"the file is shared with other users of its open file description only by changing O_NONBLOCK before a flush, as Input does",
		},
		Subs: []Sub{
			{Name: "paced", Quick: 2500, Thorough: 100000, Run: c13Paced},
			{Name: "closed", Quick: 300, Thorough: 8000, Run: c13Closed},
			{Name: "faulty", Quick: 4000, Thorough: 150000, Run: c13Faulty},
		},
	})
}

// pacedReader drains fd in its own time.
type pacedReader struct {
	mu   sync.Mutex
	got  []byte
	done chan struct{}
}

// drain reads until end of file, or want bytes were received.
func drain(fd int, seed uint64, want func() int) *pacedReader {
	p := &pacedReader{done: make(chan struct{})}
	r := &Rng{seed}
	style := r.N(4)
	go func() {
		defer close(p.done)
		buf := make([]byte, 70000)
		time.Sleep(time.Duration(r.N(1500)) * time.Microsecond)
		for {
			p.mu.Lock()
			n := len(p.got)
			p.mu.Unlock()
			if w := want(); w >= 0 && n >= w {
				return
			}
			k := len(buf)
			switch style {
			case 0:
				k = 1 + r.N(700)
			case 1:
				k = 1 + r.N(8000)
			case 2:
				if r.P(1, 10) {
					time.Sleep(time.Duration(r.N(400)) * time.Microsecond)
				}
			}
			n, err := syscall.Read(fd, buf[:k])
			if err == syscall.EINTR {
				continue
			}
			if err == syscall.EAGAIN {
				time.Sleep(50 * time.Microsecond)
				continue
			}
			if n <= 0 || err != nil {
				return
			}
			p.mu.Lock()
			p.got = append(p.got, buf[:n]...)
			p.mu.Unlock()
		}
	}()
	return p
}

func (p *pacedReader) bytes() []byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.got
}

// seenWriterTo records what WriteTo calls returned and were accepted.
type seenWriterTo struct {
	w      io.WriterTo
	calls  int
	blocks int
	n      int64
	err    error
}

func (s *seenWriterTo) WriteTo(w io.Writer) (n int64, err error) {
	n, err = s.w.WriteTo(w)
	s.calls++
	s.n += n
	s.err = err
	if errors.Is(err, syscall.EWOULDBLOCK) {
		s.blocks++
	}
	return n, err
}

func payload(r *Rng, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('!' + (i*7+i/94)%90)
	}
	if n > 0 {
		b[r.N(n)] = byte('!' + r.N(90))
	}
	return b
}

func c13Paced(t *T) {
	var rfd int
	var f *os.File
	kind := "pipe"
	if t.P(1, 3) {
		kind = "pty"
		m, s := openPty(t)
		tio, err := getTermios(int(s.Fd()))
		if err != nil {
			t.Inconclusive("termios: %v", err)
		}
		if err := setTermios(int(s.Fd()), rawTermios(tio)); err != nil {
			t.Inconclusive("termios: %v", err)
		}
		rfd, f = m, s
	} else {
		r, w := rawPipe(t)
		rfd, f = int(r.Fd()), w
		if t.Bool() {
			syscall.Syscall(syscall.SYS_FCNTL, w.Fd(), 1031, 4096) // F_SETPIPE_SZ
		}
	}
	fd := int(f.Fd())
	nonblock := t.P(3, 4)
	flags := getFlags(fd)
	if nonblock {
		flags |= syscall.O_NONBLOCK
	}
	if t.P(1, 4) {
		flags |= syscall.O_APPEND
	}
	if err := setFlags(fd, flags); err != nil {
		t.Inconclusive("flags: %v", err)
	}
	flags = getFlags(fd)
	out := &anansi.Output{File: f}
	track := 0
	if t.P(2, 3) {
		track = t.R(1, 4)
		out.TrackStalls(track)
	}

	var mu sync.Mutex
	total, final := 0, false
	rd := drain(rfd, t.U64(), func() int {
		mu.Lock()
		defer mu.Unlock()
		if final {
			return total
		}
		return -1
	})

	var buf anansi.Buffer
	var vc anansi.VirtualCursor
	var sd anansi.ScreenDiffer
	var want []byte
	var wtos = []io.WriterTo{&buf, &vc, &sd}
	which := t.N(3)
	stalls, blocksSeen := 0, 0
	key := fmt.Sprint(kind, nonblock, which, track)
	sizes := ""
	for k := t.R(1, 5); k > 0; k-- {
		n := t.N(300)
		switch t.N(5) {
		case 0:
			n = t.N(9000)
		case 1:
			n = t.N(70000)
		case 2:
			n = 65536 + t.R(-3, 3)
		case 3:
			n = 4096 + t.R(-3, 3)
		}
		if t.P(1, 30) {
			n = 300000
		}
		var expect []byte
		switch which {
		case 0:
			expect = payload(t.Rng, n)
			buf.Write(expect)
		case 1:
			expect = payload(t.Rng, n)
			vc.Write(expect)
		default:
			// what the screen writes is taken from a twin
			w, h := t.R(1, 120), t.R(1, 60)
			sd.Resize(image.Pt(w, h))
			pal := genPal(t.Rng)
			for i := range sd.Rune {
				if t.P(2, 3) {
					sd.Rune[i], sd.Attr[i] = genCellRune(t.Rng), pal[t.N(len(pal))]
				}
			}
			var twin anansi.ScreenDiffer
			twin.VirtualScreen.Screen = anansi.Screen{Cursor: sd.VirtualScreen.Cursor, Grid: copyGrid(sd.Grid)}
			twin.Real = anansi.Screen{Cursor: sd.Real.Cursor, Grid: copyGrid(sd.Real.Grid)}
			twin.UserCursor = sd.UserCursor
			var b bytes.Buffer
			if _, err := twin.WriteTo(&b); err != nil {
				t.Fail("twin: %v", err)
			}
			expect = b.Bytes()
		}
		want = append(want, expect...)
		seen := &seenWriterTo{w: wtos[which]}
		err := out.Flush(seen)
		t.Logf("flush of %d bytes: %d calls, %d blocks, %v", len(expect), seen.calls, seen.blocks, err)
		if err != nil {
			t.Fail("flush of %d bytes: %v", len(expect), err)
		}
		if out.Flushed != len(expect) {
			t.Fail("flushed %d bytes of %d", out.Flushed, len(expect))
		}
		if got := getFlags(fd); got != flags {
			t.Fail("file flags are %#x after a flush, were %#x", got, flags)
		}
		blocksSeen += seen.blocks
		if track > 0 {
			if seen.blocks > 0 && stalls < track {
				stalls++
			}
			consume := t.P(1, 4)
			got := out.Stalls(consume)
			if len(got) != stalls {
				t.Fail("%d stalls counted, expected %d", len(got), stalls)
			}
			for _, d := range got {
				if d < 0 || d > time.Minute {
					t.Fail("stalled for %v", d)
				}
			}
			if consume || stalls == track {
				stalls = 0
			}
		} else if out.Stalls(t.Bool()) != nil {
			t.Fail("stalls counted without being tracked")
		}
		sizes += fmt.Sprint(" ", len(expect))
		t.Count("flushes", 1)
		t.Count("would_blocks", seen.blocks)
	}
	mu.Lock()
	total, final = len(want), true
	mu.Unlock()
	if kind == "pipe" {
		f.Close()
	}
	deadline := time.After(30 * time.Second)
	select {
	case <-rd.done:
	case <-time.After(300 * time.Millisecond):
		if kind == "pty" && len(rd.bytes()) >= total {
			// the reader waits for more than there is
			f.Write([]byte{'.'})
			want = append(want, '.')
		}
		select {
		case <-rd.done:
		case <-deadline:
			t.Fail("%d bytes were flushed, %d arrived", len(want), len(rd.bytes()))
		}
	}
	if got := rd.bytes(); !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		t.Fail("%d bytes were flushed, %d arrived; they differ from %d on", len(want), len(got), i)
	}
	t.Count("bytes", len(want))
	t.Distinct(key + sizes + fmt.Sprint(blocksSeen))
	t.Sample("%s%s blocks=%d", key, sizes, blocksSeen)
}

// c13Closed flushes to a peer that goes away.
func c13Closed(t *T) {
	r, w := rawPipe(t)
	fd := int(w.Fd())
	syscall.Syscall(syscall.SYS_FCNTL, w.Fd(), 1031, 4096)
	flags := getFlags(fd)
	if t.P(3, 4) {
		flags |= syscall.O_NONBLOCK
	}
	setFlags(fd, flags)
	flags = getFlags(fd)
	out := &anansi.Output{File: w}
	out.TrackStalls(3)
	var buf anansi.Buffer
	n := t.N(20000)
	buf.Write(payload(t.Rng, n))
	take := t.N(n + 1)
	when := t.N(3)
	done := make(chan int, 1)
	switch when {
	case 0:
		r.Close()
		done <- 0
	default:
		go func() {
			k, b := 0, make([]byte, 3000)
			for k < take {
				m := take - k
				if m > len(b) {
					m = len(b)
				}
				m, err := syscall.Read(int(r.Fd()), b[:m])
				if m <= 0 || err != nil {
					break
				}
				k += m
			}
			r.Close()
			done <- k
		}()
	}
	seen := &seenWriterTo{w: &buf}
	err := out.Flush(seen)
	got := <-done
	t.Logf("flush of %d to a peer closed after %d: %d calls, %v", n, got, seen.calls, err)
	if n == 0 {
		return
	}
	if err == nil {
		if out.Flushed != n || int(seen.n) != n {
			t.Fail("flush of %d bytes returned without error after %d", n, out.Flushed)
		}
	} else {
		if !errors.Is(err, syscall.EPIPE) {
			t.Fail("flush to a closed pipe: %v", err)
		}
		if out.Flushed != int(seen.n) || out.Flushed >= n {
			t.Fail("flush failed with %d bytes flushed, %d accepted, of %d", out.Flushed, seen.n, n)
		}
	}
	if when == 0 && err == nil {
		t.Fail("flush to a closed pipe returned no error")
	}
	if seen.calls > 2 {
		t.Fail("flush to a closed pipe was tried %d times", seen.calls)
	}
	if f := getFlags(fd); f != flags {
		t.Fail("file flags are %#x after a failed flush, were %#x", f, flags)
	}
	t.Count("closed_peers", 1)
	t.Distinct(fmt.Sprint(n, take, when, seen.calls, err == nil))
}

// scriptWriterTo returns scripted results.
type scriptWriterTo struct {
	n    []int64
	err  []error
	k    int
	mode []int // flags at each call
	fd   int
}

func (s *scriptWriterTo) WriteTo(w io.Writer) (int64, error) {
	s.mode = append(s.mode, getFlags(s.fd))
	k := s.k
	s.k++
	if k >= len(s.n) {
		return 0, errors.New("called too often")
	}
	return s.n[k], s.err[k]
}

func c13Faulty(t *T) {
	_, w := rawPipe(t)
	fd := int(w.Fd())
	flags := getFlags(fd)
	if t.P(3, 4) {
		flags |= syscall.O_NONBLOCK
	}
	if t.P(1, 3) {
		flags |= syscall.O_APPEND
	}
	setFlags(fd, flags)
	flags = getFlags(fd)
	out := &anansi.Output{File: w}
	track := t.N(3)
	out.TrackStalls(track)
	pick := func() error {
		switch t.N(4) {
		case 0:
			return nil
		case 1:
			return hardError(t.Rng)
		default:
			return wouldBlock(t.Rng)
		}
	}
	s := &scriptWriterTo{n: []int64{int64(t.N(100)), int64(t.N(100))}, err: []error{pick(), pick()}, fd: fd}
	err := out.Flush(s)
	first := errors.Is(s.err[0], syscall.EWOULDBLOCK)
	wantN, wantErr, wantCalls := s.n[0], s.err[0], 1
	if first {
		wantN, wantErr, wantCalls = wantN+s.n[1], s.err[1], 2
	}
	if s.k != wantCalls || err != wantErr || int64(out.Flushed) != wantN {
		t.Fail("writes returning %v %v: %d calls, flush returned %v, %d flushed; expected %d, %v, %d", s.n, s.err, s.k, err, out.Flushed, wantCalls, wantErr, wantN)
	}
	if s.mode[0] != flags {
		t.Fail("first write done with flags %#x, were %#x", s.mode[0], flags)
	}
	if first && s.mode[1] != flags&^syscall.O_NONBLOCK {
		t.Fail("blocking write done with flags %#x, were %#x", s.mode[1], flags)
	}
	if got := getFlags(fd); got != flags {
		t.Fail("writes returning %v: file flags are %#x after flush, were %#x", s.err, got, flags)
	}
	st := out.Stalls(false)
	if want := min(track, wantCalls-1); len(st) != want {
		t.Fail("%d stalls counted, expected %d", len(st), want)
	}
	var none anansi.Output
	if err := none.Flush(s); err != nil || s.k != wantCalls {
		t.Fail("flush without a file: %v", err)
	}
	t.Distinct(fmt.Sprint(s.n, s.err, flags))
	t.Count("scripted", 1)
}
