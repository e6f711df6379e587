package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/jcorbin/anansi"
)

func init() {
	register(&Prop{
		ID:   "C19",
		Rule: "bytes arrive on a pipe or pseudo terminal in random amounts at known points between random blocking reads, non-blocking reads and decodes; counts, content, order, waiting, end of file and notification are compared with what arrived; terminals with an input signal are entered, suspended and left; non-trivial by (read size, schedule)",
		Assumptions: []string{
			"arrivals are made by the harness, before a call or while a blocking call waits",
		},
		Subs: []Sub{
			{Name: "schedule", Quick: 30000, Thorough: 1500000, Run: c19Schedule},
			{Name: "waiting", Quick: 1500, Thorough: 60000, Run: c19Waiting},
			{Name: "tty-eof", Quick: 300, Thorough: 10000, Run: c19TTYEOF},
			{Name: "notify", Quick: 120, Thorough: 6000, Run: c19Notify, Serial: true},
			{Name: "context", Quick: 120, Thorough: 6000, Run: c19Context, Serial: true},
		},
	})
}

// within fails the case when f does not return in time.
func within(t *T, d time.Duration, what string, f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case e := <-done:
		if e != nil {
			panic(e)
		}
	case <-time.After(d):
		t.Fail("%s did not return within %v", what, d)
	}
}

const soon = 15 * time.Second

// c19 content: every byte tells its position, so that loss, duplication and
// reordering show; tokens mixed in are checked by a reference decoder.
func c19Stream(r *Rng, n int) (p []byte) {
	if r.P(1, 4) {
		for len(p) < n {
			q := []byte(genToken(r, false))
			if !exoticInESC(q) {
				p = append(p, q...)
			}
		}
		return p
	}
	for i := 0; i < n; i++ {
		p = append(p, byte(0x21+(i*7+i/94)%94))
	}
	return p
}

func c19Schedule(t *T) {
	n := t.R(1, 300)
	switch t.N(8) {
	case 0:
		n = t.R(300, 9000)
	case 1:
		n = t.R(1, 8)
	}
	p := c19Stream(t.Rng, n)
	var r, w *os.File
	if t.P(1, 6) && n < 3000 {
		master, slave := openPty(t)
		tio, _ := getTermios(int(slave.Fd()))
		if err := setTermios(int(slave.Fd()), rawTermios(tio)); err != nil {
			t.Inconclusive("raw: %v", err)
		}
		d, err := syscall.Dup(master)
		if err != nil {
			t.Inconclusive("dup: %v", err)
		}
		r, w = slave, os.NewFile(uintptr(d), "master")
		t.Cleanup(func() { w.Close() })
	} else {
		r, w = rawPipe(t)
	}
	tty := anansi.IsTerminal(r)
	in := anansi.Input{File: r}
	if t.Bool() {
		in.MinReadSize = []int{1, 2, 3, 7, 64, 128, 1000}[t.N(7)]
	}
	if t.P(1, 6) {
		f := getFlags(int(r.Fd()))
		setFlags(int(r.Fd()), f|syscall.O_NONBLOCK)
	}
	entered := t.Bool()
	if entered {
		if err := in.Enter(nil); err != nil {
			t.Fail("Enter: %v", err)
		}
	}
	var rec bytes.Buffer
	if t.P(1, 4) {
		in.SetRecording(&rec)
	}
	var (
		sent, read int
		got        []ev
		ops        []byte
	)
	settle := func() { // a tty's input arrives by way of a kernel worker
		if tty && sent > read {
			for i := 0; ; i++ {
				var avail int32
				if err := ioctl(int(r.Fd()), syscall.TIOCINQ, uintptr(unsafe.Pointer(&avail))); err != nil {
					t.Inconclusive("inq: %v", err)
				}
				if int(avail) >= sent-read {
					return
				}
				if i > 2000 {
					t.Inconclusive("tty input did not arrive: %d of %d", avail, sent-read)
				}
				time.Sleep(50 * time.Microsecond)
			}
		}
	}
	write := func(k int) {
		if k > len(p)-sent {
			k = len(p) - sent
		}
		if max := 3500 - (sent - read); tty && k > max { // line discipline buffer
			k = max
		}
		if k <= 0 {
			return
		}
		if _, err := w.Write(p[sent : sent+k]); err != nil {
			t.Inconclusive("write: %v", err)
		}
		sent += k
		settle()
	}
	readAny := func() {
		var n int
		var err error
		within(t, soon, "a non-blocking read", func() { n, err = in.ReadAny() })
		if err != nil || n != sent-read {
			t.Fail("ops %q: non-blocking read returned %d, %v; %d bytes were available", ops, n, err, sent-read)
		}
		if in.AtEOF() {
			t.Fail("ops %q: at end of file before it", ops)
		}
		read += n
		t.Count("nonblocking_reads", 1)
	}
	readMore := func() {
		if read == sent {
			return
		}
		var n int
		var err error
		within(t, soon, "a blocking read with input available", func() { n, err = in.ReadMore() })
		if err != nil || n < 1 || n > sent-read {
			t.Fail("ops %q: blocking read returned %d, %v; %d bytes were available", ops, n, err, sent-read)
		}
		if in.AtEOF() {
			t.Fail("ops %q: at end of file before it", ops)
		}
		read += n
		t.Count("blocking_reads", 1)
	}
	for len(ops) < 400 {
		op := "wwwaamddx"[t.N(9)]
		ops = append(ops, op)
		switch op {
		case 'w':
			k := t.R(1, 40)
			if t.P(1, 4) {
				k = t.R(1, 2*n)
			}
			write(k)
		case 'a':
			readAny()
		case 'm':
			readMore()
		case 'd':
			if _, held := refDecode(p[:read], false); loneESC(held) {
				break // it could be taken for a key press
			}
			for k := t.R(1, 20); k > 0; k-- {
				e, a, ok := in.Decode()
				if !ok {
					break
				}
				got = append(got, ev{e, string(a)})
			}
		case 'x':
			if entered && t.P(1, 5) { // suspended for a while
				if err := in.Exit(nil); err != nil {
					t.Fail("Exit: %v", err)
				}
				write(t.N(30))
				if err := in.Enter(nil); err != nil {
					t.Fail("Enter: %v", err)
				}
			}
		}
		if sent == len(p) && read == sent {
			break
		}
	}
	for sent < len(p) || read < sent {
		write(t.R(1, 4000))
		if t.Bool() {
			readMore()
		} else {
			readAny()
		}
	}
	if !tty {
		w.Close()
		for k := 0; k < 2; k++ {
			var n int
			var err error
			within(t, soon, "a read at end of file", func() {
				if t.Bool() {
					n, err = in.ReadMore()
				} else {
					n, err = in.ReadAny()
				}
			})
			if n != 0 || !errors.Is(err, io.EOF) || !in.AtEOF() {
				t.Fail("ops %q: read at end of file: %d, %v, AtEOF %v", ops, n, err, in.AtEOF())
			}
		}
	}
	got = drainDecode(t, &in, got, len(p))
	want, held := refDecode(p, !tty)
	if d := diffEvs(want, got); d != "" && !loneESC(held) {
		t.Fail("ops %q: %s", ops, d)
	}
	if entered {
		if err := in.Exit(nil); err != nil {
			t.Fail("Exit: %v", err)
		}
	}
	t.Count("bytes_delivered", read)
	t.Sample("%d bytes, min read %d, tty %v: %q", len(p), in.MinReadSize, tty, ops)
	t.Distinct(fmt.Sprint(in.MinReadSize, tty, len(p)/50, string(ops)))
}

// c19Waiting: a blocking read waits for input, and is woken by it.
func c19Waiting(t *T) {
	r, w := rawPipe(t)
	in := anansi.Input{File: r, MinReadSize: t.N(200)}
	desc := ""
	if t.Bool() { // prime the non-blocking state
		desc += "any "
		if n, err := in.ReadAny(); n != 0 || err != nil {
			t.Fail("non-blocking read of an idle pipe: %d, %v", n, err)
		}
	}
	if t.P(1, 4) {
		desc += "nonblock "
		setFlags(int(r.Fd()), getFlags(int(r.Fd()))|syscall.O_NONBLOCK)
	}
	if t.P(1, 3) {
		desc += "enter "
		if err := in.Enter(nil); err != nil {
			t.Fail("Enter: %v", err)
		}
	}
	for k := t.R(1, 3); k > 0; k-- {
		var arrived int32
		size := t.R(1, 300)
		p := c19Stream(t.Rng, size)
		delay := time.Duration(t.N(4000)) * time.Microsecond
		end := t.P(1, 5)
		go func() {
			time.Sleep(delay)
			atomic.StoreInt32(&arrived, 1)
			if end {
				w.Close()
			} else {
				w.Write(p)
			}
		}()
		n, early := 0, false
		var err error
		within(t, soon, "a blocking read", func() {
			n, err = in.ReadMore()
			early = atomic.LoadInt32(&arrived) == 0
		})
		desc += fmt.Sprint(end, size, " ")
		if early {
			t.Fail("%s: blocking read returned %d, %v before anything arrived", desc, n, err)
		}
		if end {
			if n != 0 || err != io.EOF {
				t.Fail("%s: blocking read returned %d, %v at end of file", desc, n, err)
			}
			break
		}
		if err != nil || n < 1 || n > len(p) {
			t.Fail("%s: blocking read returned %d, %v; %d bytes arrived", desc, n, err, len(p))
		}
		for got := n; got < len(p); got += n {
			n, err = in.ReadMore()
			if err != nil || n < 1 || n > len(p)-got {
				t.Fail("%s: next blocking read returned %d, %v; %d bytes left", desc, n, err, len(p)-got)
			}
		}
		evs := drainDecode(t, &in, nil, len(p))
		if want, held := refDecode(p, false); len(held) == 0 && !bytes.ContainsRune(p, 0x1B) {
			if d := diffEvs(want, evs); d != "" {
				t.Fail("%s: %s", desc, d)
			}
		} else if len(held) > 0 {
			break
		}
		if t.Bool() {
			if n, err := in.ReadAny(); n != 0 || err != nil {
				t.Fail("non-blocking read of an idle pipe: %d, %v", n, err)
			}
		}
		t.Count("waits", 1)
	}
	t.Distinct(desc)
}

// c19TTYEOF: a terminal's end of file is not final.
func c19TTYEOF(t *T) {
	master, slave := openPty(t)
	tio, _ := getTermios(int(slave.Fd()))
	tio.Lflag &^= syscall.ECHO
	if err := setTermios(int(slave.Fd()), tio); err != nil {
		t.Inconclusive("termios: %v", err)
	}
	in := anansi.Input{File: slave}
	var all, want []byte
	var got []ev
	desc := ""
	for k := t.R(1, 4); k > 0; k-- {
		line := c19Stream(t.Rng, t.R(1, 40))
		line = bytes.Map(func(r rune) rune {
			if r < 0x20 || r >= 0x7F {
				return 'x'
			}
			return r
		}, line)
		line = append(line, '\n')
		if t.Bool() {
			line = append(line, 0x04)
		}
		desc += fmt.Sprintf("%q ", line)
		all = append(all, line...)
		want = append(want, bytes.TrimSuffix(line, []byte{4})...)
		if _, err := syscall.Write(master, line); err != nil {
			t.Inconclusive("write: %v", err)
		}
		eof := line[len(line)-1] == 4
		for total := 0; ; {
			var n int
			var err error
			within(t, soon, "a blocking read", func() { n, err = in.ReadMore() })
			total += n
			if err == io.EOF && eof && total == len(line)-1 {
				if !in.AtEOF() {
					t.Fail("%s: not at end of file", desc)
				}
				break
			}
			if err != nil || n < 1 || total > len(line) {
				t.Fail("%s: read %d (%d of %d), %v", desc, n, total, len(line), err)
			}
			if !eof && total == len(line) {
				break
			}
		}
		got = drainDecode(t, &in, got, len(all)+10)
	}
	if d := diffEvs(func() []ev { e, _ := refDecode(want, true); return e }(), got); d != "" {
		t.Fail("%s: %s", desc, d)
	}
	t.Count("tty_lines", len(got))
	t.Distinct(desc)
}

func c19Notify(t *T) {
	var r, w *os.File
	if t.Bool() {
		master, slave := openPty(t)
		tio, _ := getTermios(int(slave.Fd()))
		setTermios(int(slave.Fd()), rawTermios(tio))
		d, err := syscall.Dup(master)
		if err != nil {
			t.Inconclusive("dup: %v", err)
		}
		r, w = slave, os.NewFile(uintptr(d), "master")
		t.Cleanup(func() { w.Close() })
	} else {
		r, w = rawPipe(t)
	}
	in := anansi.Input{File: r}
	before := getFlags(int(r.Fd()))
	desc := fmt.Sprint(anansi.IsTerminal(r))
	var cur chan os.Signal
	var old []chan os.Signal
	entered, async, known := false, false, true
	total, closed := 0, false
	drainCh := func(c chan os.Signal) {
		for {
			select {
			case <-c:
				continue
			default:
			}
			return
		}
	}
	for k := t.R(2, 8); k > 0; k-- {
		switch op := t.N(6); op {
		case 0, 1:
			if cur != nil && t.P(1, 3) {
				desc += " again"
			} else {
				desc += " notify"
				if cur != nil {
					old = append(old, cur)
				}
				cur = make(chan os.Signal, 1)
			}
			async, known = true, true
			if err := in.Notify(cur); err != nil {
				t.Fail("%s: %v", desc, err)
			}
		case 2:
			desc += " off"
			if cur != nil {
				old = append(old, cur)
			}
			cur, async, known = nil, false, true
			if err := in.Notify(nil); err != nil {
				t.Fail("%s: %v", desc, err)
			}
		case 3:
			if !entered {
				desc += " enter"
				known = !closed || async && cur != nil
				if err := in.Enter(nil); err != nil {
					t.Fail("%s: %v", desc, err)
				}
			} else {
				desc += " exit"
				if err := in.Exit(nil); err != nil {
					t.Fail("%s: %v", desc, err)
				}
				known = false // it is up to Enter, again
				if f := getFlags(int(r.Fd())); f != before {
					t.Fail("%s: flags are %#x, were %#x", desc, f, before)
				}
				if t.Bool() { // somebody else's change
					desc += " alter"
					before ^= syscall.O_APPEND
					setFlags(int(r.Fd()), before)
					if err := in.Enter(nil); err != nil {
						t.Fail("%s: %v", desc, err)
					}
					if err := in.Exit(nil); err != nil {
						t.Fail("%s: %v", desc, err)
					}
					if f := getFlags(int(r.Fd())); f != before {
						t.Fail("%s: flags are %#x, were %#x", desc, f, before)
					}
				}
			}
			entered = !entered
		case 4:
			if cur != nil && t.P(1, 2) {
				desc += " close"
				old = append(old, cur)
				cur, known, closed = nil, false, true
				if err := in.Close(); err != nil {
					t.Fail("%s: %v", desc, err)
				}
			}
		default:
			desc += " input"
			for _, c := range append(old, cur) {
				if c != nil {
					drainCh(c)
				}
			}
			k := t.R(1, 20)
			if _, err := w.Write(bytes.Repeat([]byte{'x'}, k)); err != nil {
				t.Inconclusive("write: %v", err)
			}
			on := getFlags(int(r.Fd()))&syscall.O_ASYNC != 0
			if known && on != async {
				t.Fail("%s: asynchronous mode is %v, expected %v", desc, on, async)
			}
			if on && cur != nil {
				select {
				case <-cur:
					t.Count("notifications", 1)
				case <-time.After(soon):
					t.Fail("%s: no notification of input", desc)
				}
			}
			n := 0
			for deadline := time.Now().Add(soon); n < k; {
				m, err := in.ReadAny()
				if err != nil {
					t.Fail("%s: %v", desc, err)
				}
				n += m
				if time.Now().After(deadline) {
					t.Fail("%s: read %d of %d bytes", desc, n, k)
				}
			}
			if n != k {
				t.Fail("%s: read %d bytes, expected %d", desc, n, k)
			}
			total += n
		}
	}
	// raise one more signal: only the current channel may hear it
	for _, c := range old {
		drainCh(c)
	}
	probe := make(chan os.Signal, 1)
	notifyIO(probe)
	defer stopNotify(probe)
	if cur != nil {
		drainCh(cur)
	}
	syscall.Kill(syscall.Getpid(), syscall.SIGIO)
	select {
	case <-probe:
	case <-time.After(soon):
		t.Inconclusive("own signal did not arrive")
	}
	time.Sleep(200 * time.Microsecond)
	for _, c := range old {
		if len(c) > 0 {
			t.Fail("%s: a channel no longer notified received a signal", desc)
		}
	}
	if cur != nil && len(cur) == 0 {
		t.Fail("%s: the notified channel did not receive a signal", desc)
	}
	in.Close()
	evs := drainDecode(t, &in, nil, total+10)
	if len(evs) != total {
		t.Fail("%s: decoded %d of %d bytes", desc, len(evs), total)
	}
	t.Sample("%s", desc)
	t.Distinct(desc)
}

// c19Context has a terminal with an InputSignal enter and leave.
func c19Context(t *T) {
	m := newTTYMon(t, 20, 4)
	if err := setTermios(m.mark, rawTermios(m.termios())); err != nil {
		t.Inconclusive("stty: %v", err)
	}
	flags := getFlags(int(m.in.Fd()))
	var is anansi.InputSignal
	if t.Bool() {
		is.Signal.Notify = []os.Signal{syscall.SIGUSR2}
	}
	term := anansi.NewTerm(m.in, m.out)
	must := func(what string, err error) {
		if err != nil {
			t.Fail("%s: %v", what, err)
		}
	}
	must("SetRaw", term.SetRaw(true))
	term.AddContext(&is)
	desc := ""
	await := func(what string) {
		select {
		case <-is.C:
			t.Count("notifications", 1)
		case <-time.After(soon):
			t.Fail("%s: no notification of %s", desc, what)
		}
	}
	sent, total := 0, 0
	input := func(notified bool) {
		desc += " input"
		for len(is.C) > 0 {
			<-is.C
		}
		k := t.R(1, 20)
		if _, err := syscall.Write(m.master, bytes.Repeat([]byte{'x'}, k)); err != nil {
			t.Inconclusive("write: %v", err)
		}
		if sent += k; notified {
			await("input")
			for deadline := time.Now().Add(soon); total < sent; {
				n, err := term.ReadAny()
				must("read", err)
				if total += n; time.Now().After(deadline) {
					t.Fail("%s: read %d of %d bytes", desc, total, sent)
				}
			}
		}
	}
	for runs := t.R(1, 3); runs > 0; runs-- {
		desc += " run("
		must("run", term.RunWith(func(term *anansi.Term) error {
			for k := t.R(1, 6); k > 0; k-- {
				switch t.N(4) {
				case 0:
					desc += " without("
					must("without", term.RunWithout(func(*anansi.Term) error {
						if f := getFlags(int(m.in.Fd())); f != flags {
							t.Fail("%s: flags are %#x, were %#x", desc, f, flags)
						}
						if t.Bool() {
							input(false)
						}
						return nil
					}))
					desc += ")"
				case 1:
					if len(is.Signal.Notify) > 0 {
						desc += " usr2"
						for len(is.C) > 0 {
							<-is.C
						}
						syscall.Kill(syscall.Getpid(), syscall.SIGUSR2)
						await("SIGUSR2")
					}
				default:
					input(true)
				}
			}
			return nil
		}))
		desc += ")"
		if f := getFlags(int(m.in.Fd())); f != flags {
			t.Fail("%s: flags are %#x, were %#x", desc, f, flags)
		}
		if term.Input.AtEOF() {
			t.Fail("%s: input ended", desc)
		}
		if t.Bool() {
			desc += " close"
			must("close", term.Close())
			if is.C != nil {
				t.Fail("%s: a closed signal keeps its channel", desc)
			}
		}
	}
	t.Distinct(desc)
}
