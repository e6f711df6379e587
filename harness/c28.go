package main

import (
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
)

func init() {
	register(&Prop{
		ID:   "C28",
		Rule: "histories of opening, closing, entering, exiting, synthetic sends, real self-delivered signals (asked for or not) and receptions on several watches, mirrored onto one-slot models; delivery is settled by a second listener and a fence signal before the watch is looked at; concurrent senders timed against a slow receiver; non-trivial by (operations, pending state)",
		Assumptions: []string{
			"a watch holds one pending signal, as its channel is documented to have capacity 1; later arrivals before it is taken are dropped",
			"sending to a watch that is not open makes the sent signal pending, as documented for priming",
		},
		Subs: []Sub{
			{Name: "history", Quick: 3000, Thorough: 80000, Run: c28History, Serial: true},
			{Name: "senders", Quick: 200, Thorough: 5000, Run: c28Senders, Serial: true},
			{Name: "errors", Quick: 64, Thorough: 64, Run: c28Errors},
		},
	})
}

var c28Sigs = []syscall.Signal{syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGHUP, syscall.SIGTERM, syscall.SIGINT, syscall.SIGWINCH}

const fenceSig = syscall.Signal(40)

// sigGuard keeps the process alive and tells when a signal has been dispatched.
type sigGuard struct {
	t    *T
	ch   chan os.Signal
	seen int
}

func newSigGuard(t *T) *sigGuard {
	g := &sigGuard{t: t, ch: make(chan os.Signal, 64)}
	signal.Notify(g.ch, fenceSig)
	for _, s := range c28Sigs {
		signal.Notify(g.ch, s)
	}
	t.Cleanup(func() { signal.Stop(g.ch) })
	return g
}

// raise sends a signal to this process and returns once every listener has been given it.
func (g *sigGuard) raise(s syscall.Signal) {
	for _, s := range []syscall.Signal{s, fenceSig} {
		if err := syscall.Kill(os.Getpid(), s); err != nil {
			g.t.Inconclusive("kill: %v", err)
		}
		timeout := time.After(20 * time.Second)
		for got := false; !got; {
			select {
			case r := <-g.ch:
				got = r == s
			case <-timeout:
				g.t.Inconclusive("signal %v was not delivered to the guard", s)
			}
		}
		g.t.Count("signals_raised", 1)
	}
}

type sigModel struct {
	w       *anansi.Signal
	ask     []os.Signal
	open    bool
	have    bool   // the channel exists
	pending string // "" when nothing is
}

func sigName(s os.Signal) string { return s.String() }

func c28History(t *T) {
	g := newSigGuard(t)
	var ws []*sigModel
	for k := t.R(1, 3); k > 0; k-- {
		m := &sigModel{}
		for _, s := range c28Sigs {
			if t.P(2, 5) {
				m.ask = append(m.ask, s)
			}
		}
		w := anansi.Notify(m.ask...)
		if t.P(1, 5) {
			w = anansi.Signal{Notify: m.ask}
		}
		m.w = &w
		t.Cleanup(func() { w.Close() })
		ws = append(ws, m)
	}
	key := ""
	for k := t.R(3, 16); k > 0; k-- {
		wi := t.N(len(ws))
		m := ws[wi]
		op := ""
		switch t.N(12) {
		case 0, 1:
			op = "open"
			c := m.w.C
			var err error
			if t.Bool() {
				err = m.w.Open()
			} else {
				op = "enter"
				err = m.w.Enter(nil)
			}
			if err != nil {
				t.Fail("%s: %v", op, err)
			}
			if m.w.C == nil || c != nil && c != m.w.C {
				t.Fail("opening changed the channel from %p to %p", c, m.w.C)
			}
			m.open, m.have = true, true
		case 2:
			op = "close"
			if err := m.w.Close(); err != nil {
				t.Fail("close: %v", err)
			}
			m.open, m.have, m.pending = false, false, ""
		case 3:
			op = "exit"
			if err := m.w.Exit(nil); err != nil {
				t.Fail("exit: %v", err)
			}
		case 4:
			s := t.Pick("start", "again")
			op = "send " + s
			within(t, 10*time.Second, "sending to a watch", func() { m.w.Send(s) })
			if m.pending == "" {
				m.pending = s
			}
			m.have = true
		case 5, 6, 7, 8:
			s := c28Sigs[t.N(len(c28Sigs))]
			op = fmt.Sprintf("raise %d", int(s))
			g.raise(s)
			for _, o := range ws {
				for _, a := range o.ask {
					if a == s && o.open && o.pending == "" {
						o.pending = sigName(s)
					}
				}
			}
		case 9:
			op = "receive"
			got := ""
			select {
			case s := <-m.w.C:
				got = sigName(s)
			default:
			}
			if got != m.pending {
				t.Fail("%s: watch %d (open %v, asked %v) delivers %q, want %q", key, wi, m.open, m.ask, got, m.pending)
			}
			m.pending = ""
		default:
			op = "aserr"
			c28AsErr(t, m, wi, key)
		}
		t.Logf("watch %d %s -> open %v pending %q", wi, op, m.open, m.pending)
		key += fmt.Sprint(wi, op, ",")
		for i, o := range ws {
			if len(o.w.C) > 1 || (len(o.w.C) == 1) != (o.pending != "") {
				t.Fail("after %s watch %d (open %v, asked %v) has %d pending, want %q", key, i, o.open, o.ask, len(o.w.C), o.pending)
			}
		}
	}
	// after closing, nothing more arrives, even on the old channels
	var old []chan os.Signal
	for _, m := range ws {
		old = append(old, m.w.C)
		m.w.Close()
		if m.w.C != nil {
			t.Fail("closed watch keeps its channel")
		}
		if m.w.Close() != nil {
			t.Fail("closing twice fails")
		}
	}
	before := make([]int, len(old))
	for i, c := range old {
		before[i] = len(c)
	}
	for _, s := range c28Sigs {
		g.raise(s)
	}
	for i, c := range old {
		if len(c) == 0 && before[i] != 0 || len(c) > before[i] {
			t.Fail("a closed watch was delivered a signal")
		}
		if err := ws[i].w.AsErr(); err != nil {
			t.Fail("a closed watch reports %v", err)
		}
	}
	t.Sample("%s", key)
	t.Distinct(key)
}

func c28AsErr(t *T, m *sigModel, wi int, key string) {
	var err error
	within(t, 10*time.Second, "AsErr", func() { err = m.w.AsErr() })
	if m.pending == "" {
		if err != nil {
			t.Fail("%s: watch %d reports %v with nothing pending", key, wi, err)
		}
		return
	}
	se, ok := err.(anansi.SignalError)
	if !ok || sigName(se.Sig) != m.pending {
		t.Fail("%s: watch %d reports %v, want signal %q", key, wi, err, m.pending)
	}
	m.pending = ""
}

// c28Senders: many senders at once, with or without anyone receiving.
func c28Senders(t *T) {
	newSigGuard(t)
	w := anansi.Notify(syscall.SIGUSR1)
	opened := t.Bool()
	if opened {
		w.Open()
	} else {
		w.Send("prime") // so that the channel exists before it is shared
	}
	defer w.Close()
	n, k := t.R(2, 6), t.R(1, 200)
	// rounds in which all senders find the watch empty at the same instant
	within(t, 8*time.Second, "sending to a watch at the same time as others", func() {
		var round, done int32
		for i := 0; i < n; i++ {
			go func() {
				for r := int32(1); r <= int32(k); r++ {
					for atomic.LoadInt32(&round) < r {
					}
					w.Send("y")
					atomic.AddInt32(&done, 1)
				}
			}()
		}
		for r := int32(1); r <= int32(k); r++ {
			w.AsErr()
			atomic.StoreInt32(&round, r)
			for atomic.LoadInt32(&done) < r*int32(n) {
				runtime.Gosched()
			}
		}
	})
	for w.AsErr() != nil {
	}
	recv := t.N(3)
	stop := make(chan struct{})
	var rg sync.WaitGroup
	got := 0
	if recv > 0 {
		rg.Add(1)
		go func() {
			defer rg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if w.AsErr() != nil {
					got++
				}
				if recv == 2 {
					time.Sleep(time.Microsecond)
				}
			}
		}()
	}
	within(t, 20*time.Second, "concurrent sending to a watch", func() {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < k; j++ {
					w.Send("x")
				}
			}()
		}
		wg.Wait()
	})
	close(stop)
	rg.Wait()
	sent := n * k
	for w.AsErr() != nil {
		got++
	}
	if got < 1 || got > sent {
		t.Fail("%d sends were received %d times", sent, got)
	}
	t.Count("concurrent_sends", sent)
	t.Count("received", got)
	t.Distinct(fmt.Sprint(n, k, recv, opened))
}

func c28Errors(t *T) {
	s := syscall.Signal(t.Idx + 1)
	err := anansi.SigErr(s)
	se, ok := err.(anansi.SignalError)
	if !ok || se.Sig != os.Signal(s) {
		t.Fail("SigErr(%v) = %#v", s, err)
	}
	if se.ExitCode() != -int(s) {
		t.Fail("SigErr(%v) has exit code %d", s, se.ExitCode())
	}
	if se.String() != s.String() || se.Error() != "signal "+s.String() {
		t.Fail("SigErr(%v) reads %q, %q", s, se.String(), se.Error())
	}
	var o os.Signal = se
	o.Signal()
	t.Distinct(s.String())
}
