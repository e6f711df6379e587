package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
)

func init() {
	register(&Prop{
		ID:   "C25",
		Rule: "worker sets of recording fakes under random failures; log sinks as workers, whose files tell which notifications were acted on; tickers waited on by several goroutines while started and stopped; frames run one by one with every statistic recomputed from the frame times the client saw; sessions on a pseudo terminal whose telemetry file is matched against the periods measured, timing being switched off and on; stalls of a terminal that is slow to read, looked for in the log and telemetry; logged resource usage compared with the client's own reading; all under the race detector; non-trivial by history and outcome",
		Assumptions: []string{
			"statistics of the first period after timing starts, whose first frame has no predecessor, are judged by their elapsed time only",
			"a period of timing data may be superseded by the next before the background gets to log it, but not the last one",
		},
		Subs: []Sub{
			{Name: "workers", Quick: 4000, Thorough: 400000, Run: c25Workers},
			{Name: "notify", Quick: 400, Thorough: 20000, Run: c25Notify},
			{Name: "ticker", Quick: 250, Thorough: 8000, Run: c25Ticker},
			{Name: "stats", Quick: 600, Thorough: 30000, Run: c25Stats},
			{Name: "telemetry", Quick: 80, Thorough: 2500, Run: c25Telemetry},
			{Name: "stalls", Quick: 24, Thorough: 600, Run: c25Stalls, Serial: true},
			{Name: "usage", Quick: 6, Thorough: 60, Run: c25Usage},
			{Name: "rates", Quick: 300, Thorough: 5000, Run: c25Rates},
		},
	})
}

// unexported returns the only field of the given type.
func unexported(t *T, of interface{}, typ reflect.Type) reflect.Value {
	v := reflect.ValueOf(of).Elem()
	var found reflect.Value
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == typ {
			if found.IsValid() {
				t.Inconclusive("%T has several fields of type %v", of, typ)
			}
			found = reflect.NewAt(typ, unsafe.Pointer(v.Field(i).UnsafeAddr())).Elem()
		}
	}
	if !found.IsValid() {
		t.Inconclusive("%T has no field of type %v", of, typ)
	}
	return found
}

type fakeWorker struct {
	n    int
	log  *[]string
	fail func(what string) error
}

func (w *fakeWorker) call(what string) error {
	err := w.fail(what)
	*w.log = append(*w.log, fmt.Sprintf("%s %d", what, w.n))
	return err
}
func (w *fakeWorker) Start() error  { return w.call("start") }
func (w *fakeWorker) Stop() error   { return w.call("stop") }
func (w *fakeWorker) Notify() error { return w.call("notify") }

func c25Workers(t *T) {
	var calls []string
	var failed []error
	n := t.R(0, 5)
	rate := t.N(3)
	var bg platform.BackgroundWorkers
	var ws []platform.BackgroundWorker
	for i := 0; i < n; i++ {
		w := &fakeWorker{n: i, log: &calls}
		w.fail = func(what string) error {
			if rate > 0 && t.P(rate, 6) {
				err := fmt.Errorf("%s %d failed", what, w.n)
				failed = append(failed, err)
				return err
			}
			return nil
		}
		ws = append(ws, w)
	}
	unexported(t, &bg, reflect.TypeOf(ws)).Set(reflect.ValueOf(ws))
	var hist []string
	for k := t.R(1, 8); k > 0; k-- {
		calls, failed = nil, nil
		var err error
		what := t.N(3)
		switch what {
		case 0:
			err = bg.Enter(nil)
		case 1:
			err = bg.Notify()
		case 2:
			err = bg.Exit(nil)
		}
		t.Logf("%s: %v -> %v", []string{"enter", "notify", "exit"}[what], calls, err)
		hist = append(hist, fmt.Sprint(what, len(calls), len(failed)))
		var want error
		if len(failed) > 0 {
			want = failed[0]
		}
		if err != want {
			t.Fail("%v: returned %v, the first failure was %v", calls, err, want)
		}
		switch what {
		case 0, 1:
			verb := []string{"start", "notify"}[what]
			seen := map[string]int{}
			for i, c := range calls {
				if c != fmt.Sprintf("%s %d", verb, i) {
					t.Fail("%s calls were %v", verb, calls)
				}
				seen[c]++
			}
			if want == nil && len(calls) != n {
				t.Fail("%d of %d workers got a %s", len(calls), n, verb)
			}
			if what == 0 && want != nil && len(failed) > 1 {
				t.Fail("workers started after one failed to: %v", calls)
			}
		case 2:
			if len(calls) != n {
				t.Fail("%d stops of %d workers", len(calls), n)
			}
			for i, c := range calls {
				if c != fmt.Sprintf("stop %d", n-1-i) {
					t.Fail("stops were %v", calls)
				}
			}
		}
		t.Count("worker_calls", len(calls))
	}
	t.Distinct(strings.Join(hist, " "))
}

// log sinks as workers: what was written before a notification reaches its file
func c25Notify(t *T) {
	dir := t.TempDir()
	type sink struct {
		s    *platform.LogSink
		path string
		want string
		bad  bool
	}
	var ws []platform.BackgroundWorker
	var sinks []*sink
	for i := t.R(1, 4); i > 0; i-- {
		s := &sink{s: &platform.LogSink{}, path: filepath.Join(dir, fmt.Sprint(i))}
		f, err := os.Create(s.path)
		if err != nil {
			t.Inconclusive("%v", err)
		}
		if t.P(1, 8) {
			s.bad = true
			f.Close()
			if f, err = os.Open(s.path); err != nil {
				t.Inconclusive("%v", err)
			}
		}
		if err := s.s.SetFile(f); err != nil {
			t.Fail("setting the file: %v", err)
		}
		defer f.Close()
		sinks = append(sinks, s)
		ws = append(ws, s.s)
	}
	var bg platform.BackgroundWorkers
	unexported(t, &bg, reflect.TypeOf(ws)).Set(reflect.ValueOf(ws))
	running, broken := false, false
	hist := ""
	for k := t.R(2, 16); k > 0; k-- {
		s := sinks[t.N(len(sinks))]
		switch t.N(4) {
		case 0, 1:
			line := fmt.Sprintf("line %d %s\n", k, strings.Repeat("x", t.N(200)))
			s.s.Write([]byte(line))
			s.want += line
			hist += "w"
			if s.bad && len(s.want) > 0 {
				broken = true
			}
		case 2:
			if !running {
				continue
			}
			var err error
			within(t, soon, "notify", func() { err = bg.Notify() })
			if err != nil {
				if !broken {
					t.Fail("notify: %v", err)
				}
				t.Count("failures_reported", 1)
				t.Distinct(hist + "!")
				within(t, soon, "exit", func() { bg.Exit(nil) })
				return
			}
			hist += "n"
			for _, s := range sinks {
				if s.bad {
					continue
				}
				deadline := time.Now().Add(soon)
				for {
					b, _ := os.ReadFile(s.path)
					if string(b) == s.want {
						break
					}
					if broken && len(b) < len(s.want) {
						break // workers after the failed one are not told
					}
					if time.Now().After(deadline) {
						t.Fail("%v after a notification, the file has %d of %d bytes", soon, len(b), len(s.want))
					}
					time.Sleep(20 * time.Microsecond)
				}
				t.Count("notifications_settled", 1)
			}
		case 3:
			var err error
			if running = !running; running {
				within(t, soon, "enter", func() { err = bg.Enter(nil) })
			} else {
				within(t, soon, "exit", func() { err = bg.Exit(nil) })
				if broken && err == nil {
					t.Fail("a worker could not write, but stopping reported no error")
				}
				for _, s := range sinks {
					b, _ := os.ReadFile(s.path)
					if !s.bad && string(b) != s.want {
						t.Fail("stopped, but the file has %d of %d bytes", len(b), len(s.want))
					}
				}
			}
			if broken {
				t.Distinct(hist + "!")
				if running {
					within(t, soon, "exit", func() { bg.Exit(nil) })
				}
				return
			}
			if err != nil {
				t.Fail("enter or exit: %v", err)
			}
			hist += "x"
		}
	}
	if running {
		within(t, soon, "exit", func() { bg.Exit(nil) })
	}
	t.Distinct(hist)
}

// c25Ticker has several waiters on a ticker that is started and stopped.
func c25Ticker(t *T) {
	var tk platform.Ticker
	d := time.Duration(t.R(1, 20)) * 100 * time.Microsecond
	if t.P(1, 8) {
		d = time.Hour // never ticks
	}
	unexported(t, &tk, reflect.TypeOf(d)).Set(reflect.ValueOf(d))

	// transitions, as counted by the controller: odd while changing
	var mu sync.Mutex
	type span struct{ a, b time.Time }
	var enters, exits []span

	inactive := func() {
		var at time.Time
		within(t, soon, "waiting on a ticker that is not active", func() { at = tk.Wait() })
		if !at.IsZero() {
			t.Fail("an inactive ticker ticked at %v", at)
		}
		t.Count("inactive_waits", 1)
	}
	inactive()

	var stop int32
	type tick struct {
		from, at, to time.Time
	}
	nw := t.R(1, 3)
	ticks := make([][]tick, nw)
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				from := time.Now()
				at := tk.Wait()
				if len(ticks[i]) < 5000 {
					ticks[i] = append(ticks[i], tick{from, at, time.Now()})
				}
				if at.IsZero() {
					time.Sleep(50 * time.Microsecond)
				}
			}
		}(i)
	}
	active := false
	for k := t.R(2, 12); k > 0; k-- {
		a := time.Now()
		if !active || t.P(1, 5) {
			within(t, soon, "enter", func() { tk.Enter(nil) })
			mu.Lock()
			enters = append(enters, span{a, time.Now()})
			mu.Unlock()
			active = true
		} else {
			within(t, soon, "exit", func() { tk.Exit(nil) })
			exits = append(exits, span{a, time.Now()})
			active = false
			if t.Bool() {
				inactive()
			}
		}
		if t.P(3, 4) {
			time.Sleep(time.Duration(t.N(3000)) * time.Microsecond)
		}
	}
	if active {
		a := time.Now()
		within(t, soon, "exit", func() { tk.Exit(nil) })
		exits = append(exits, span{a, time.Now()})
	}
	atomic.StoreInt32(&stop, 1)
	within(t, soon, "waiting on a ticker that was stopped", wg.Wait)
	inactive()
	if tk.Exit(nil) != nil || tk.Exit(nil) != nil {
		t.Fail("stopping a stopped ticker failed")
	}

	// was it active, or changing, at some time from a to b?
	maybeActive := func(a, b time.Time) bool {
		for i, e := range enters {
			until := time.Unix(1<<40, 0)
			for _, x := range exits {
				if x.b.After(e.a) && x.b.Before(until) {
					until = x.b
				}
			}
			if !b.Before(enters[i].a) && !a.After(until) {
				return true
			}
		}
		return false
	}
	// was it surely active throughout?
	surelyActive := func(a, b time.Time) bool {
		for _, e := range enters {
			if e.b.After(a) {
				continue
			}
			ok := true
			for _, x := range append(append([]span(nil), exits...), enters...) {
				if x != e && !x.b.Before(e.a) && !x.a.After(b) && x.b.After(e.b) {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
		return false
	}
	total, zero := 0, 0
	seen := map[int64]bool{}
	for i := range ticks {
		for _, k := range ticks[i] {
			if k.at.IsZero() {
				zero++
				if surelyActive(k.from, k.to) {
					t.Fail("an active ticker's wait ended without a tick")
				}
				continue
			}
			total++
			if !maybeActive(k.from, k.to) {
				t.Fail("a wait on a stopped ticker had a tick")
			}
			if seen[k.at.UnixNano()] {
				t.Fail("tick %v delivered twice", k.at)
			}
			seen[k.at.UnixNano()] = true
			ok := false
			for _, e := range enters {
				if k.at.Sub(e.a) >= d {
					ok = true
				}
			}
			if !ok || k.at.After(k.to) {
				t.Fail("tick %v is not one after %v of being started", k.at, d)
			}
			if !maybeActive(k.at, k.at) {
				t.Fail("tick of %v, when it was not active", k.at)
			}
		}
	}
	// no more ticks than time allows
	var sum time.Duration
	for _, e := range enters {
		until := exits[len(exits)-1].b
		for _, x := range append(append([]span(nil), exits...), enters...) {
			if x.a.After(e.b) && x.b.Before(until) {
				until = x.b
			}
		}
		sum += until.Sub(e.a)/d + 1
	}
	if total > int(sum) {
		t.Fail("%d ticks where time allowed for %d", total, sum)
	}
	t.Count("ticks", total)
	t.Count("waits_ended_by_stop", zero)
	t.Distinct(fmt.Sprint(len(enters), len(exits), nw, total, zero))
}

// timingModel recomputes timing statistics from frame times.
type timingModel struct {
	period int
	on     bool
	prior  time.Time // last frame of the last completed period
	ts     []time.Time

	stats   platform.TimingStats
	fuzzy   bool // first period
	periods [][]time.Duration
}

func (m *timingModel) reset() {
	m.prior, m.ts, m.stats, m.fuzzy = time.Time{}, nil, platform.TimingStats{}, false
}

func (m *timingModel) frame(at time.Time) (done bool) {
	if !m.on {
		return false
	}
	if m.ts = append(m.ts, at); len(m.ts) < m.period {
		return false
	}
	var ds []time.Duration
	var st platform.TimingStats
	prior := m.prior
	m.fuzzy = prior.IsZero()
	for _, at := range m.ts {
		d := at.Sub(prior)
		if prior.IsZero() {
			d = 0
		}
		ds = append(ds, d)
		st.Elapsed += d
		prior = at
	}
	m.prior, m.ts = prior, nil
	sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
	q := len(ds) / 4
	st.Time = prior
	st.Min, st.Q1, st.Q2, st.Q3, st.Max = ds[0], ds[q], ds[2*q], ds[3*q], ds[len(ds)-1]
	st.FPS = float64(len(ds)) * float64(time.Second) / float64(st.Elapsed)
	m.stats = st
	m.periods = append(m.periods, ds)
	return true
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-6*math.Max(math.Abs(a), math.Abs(b))
}

func (m *timingModel) check(t *T, got platform.TimingStats) {
	w := m.stats
	if m.fuzzy {
		if !got.Time.Equal(w.Time) || got.Elapsed != w.Elapsed {
			t.Fail("the first period's statistics are %+v, expected %v elapsed up to %v", got, w.Elapsed, w.Time)
		}
		return
	}
	same := got.Time.Equal(w.Time) && near(got.FPS, w.FPS)
	w.Time, w.FPS = got.Time, got.FPS
	if !same || got != w {
		t.Fail("timing statistics are %+v, expected %+v", got, m.stats)
	}
}

var errNextFrame = errors.New("next frame")

// c25Stats runs single frames and recomputes every statistic.
func c25Stats(t *T) {
	r, _ := rawPipe(t)
	outR, outW := rawPipe(t)
	stalls := t.Bool()
	fps, often, periods := t.R(1, 60), 3, 6
	if t.P(1, 6) { // many frames to a period, most of them stalled
		fps, often, periods = t.R(61, 400), 1, 2
	}
	cfg := platform.Config{StartTiming: t.Bool(), LogTiming: t.P(1, 4)}
	if stalls {
		if err := syscall.SetNonblock(int(outW.Fd()), true); err != nil {
			t.Inconclusive("%v", err)
		}
	}
	p, err := platform.New(r, outW, cfg, platform.FrameRate(fps))
	if err != nil {
		t.Fail("new: %v", err)
	}
	m := &timingModel{period: fps / 4, on: cfg.StartTiming || cfg.LogTiming}
	if m.period < 1 {
		m.period = 1
	}
	if stalls {
		p.SetStallTracking(true)
	}

	var rates []float64
	var lastTime time.Time
	type stallRec struct{ wall time.Duration }
	var recs []stallRec // stalls since last consumed
	var stallAt time.Time
	frame := 0
	var toggle func()
	client := platform.ClientFunc(func(ctx *platform.Context) error {
		at := ctx.Platform.Time
		if done := m.frame(at); done {
			t.Count("periods", 1)
			if stalls {
				c25CheckStalls(t, ctx.Stalls.Stats, len(recs), func() (max, sum time.Duration) {
					for _, r := range recs {
						sum += r.wall
						if max < r.wall {
							max = r.wall
						}
					}
					return
				}, at, stallAt)
				stallAt = at
				recs = nil
			}
		}
		if m.on || !m.on && m.stats == (platform.TimingStats{}) {
			m.check(t, ctx.Timing.Stats)
		}
		delta := at.Sub(lastTime)
		rates = append(rates, float64(time.Second)/float64(delta))
		if len(rates) > fps {
			rates = rates[1:]
		}
		sum := 0.0
		for _, r := range rates {
			sum += r
		}
		if est := sum / float64(fps); !near(est, ctx.FPSEstimate.Value) {
			t.Fail("frame rate estimate is %v, expected %v", ctx.FPSEstimate.Value, est)
		}
		wantFPS := ctx.FPSEstimate.Value
		if m.on {
			wantFPS = ctx.Timing.Stats.FPS
		}
		if got := ctx.FPS(); got != wantFPS {
			t.Fail("frame rate %v, expected %v", got, wantFPS)
		}
		lastTime = ctx.Time
		if toggle != nil {
			toggle()
			toggle = nil
		}
		// draw something else in every frame
		if ctx.Output.Bounds().Size() != ansi.Pt(10, 2).Point {
			ctx.Output.Resize(ansi.Pt(10, 2).Point)
		}
		ctx.Output.To(ansi.Pt(1, 1))
		ctx.Output.WriteString(fmt.Sprintf("%06d", frame))
		return nil
	})
	tmp := make([]byte, 1<<16)
	drain := func() {
		for {
			pfd := [1]pollFd{{fd: int32(outR.Fd()), events: 1}}
			if poll(pfd[:], 0) <= 0 || pfd[0].revents&1 == 0 {
				return
			}
			if n, _ := syscall.Read(int(outR.Fd()), tmp); n <= 0 {
				return
			}
		}
	}
	stalled := 0
	for n := m.period * t.R(1, periods); n >= 0; n-- {
		frame++
		if t.P(1, 3*m.period) {
			on := t.Bool()
			toggle = func() {
				p.SetTimingEnabled(on)
				if was := m.on; was != (on || cfg.LogTiming) {
					if m.on = !was; was {
						m.reset()
					}
				}
			}
			if stalls {
				toggle = nil // keeps the two in step
			}
		}
		if t.P(1, 3) {
			time.Sleep(time.Duration(t.N(200)) * time.Microsecond)
		}
		var wg sync.WaitGroup
		stall := stalls && t.P(1, often)
		if stall {
			for k := 1 << 12; k > 0; {
				if _, err := syscall.Write(int(outW.Fd()), tmp[:k]); err != nil {
					k /= 2
				}
			}
			wg.Add(1)
			wait := time.Duration(t.N(500)) * time.Microsecond
			done := make(chan struct{})
			go func() {
				defer wg.Done()
				// not before it surely is stalled
				for i := 0; i < 3000 && getFlags(int(outW.Fd()))&syscall.O_NONBLOCK != 0; i++ {
					time.Sleep(100 * time.Microsecond)
				}
				time.Sleep(wait)
				for {
					drain()
					select {
					case <-done:
						return
					case <-time.After(10 * time.Microsecond):
					}
				}
			}()
			a := time.Now()
			err = p.Run(client)
			wall := time.Since(a)
			close(done)
			wg.Wait()
			if m.on {
				recs = append(recs, stallRec{wall})
			}
			stalled++
		} else {
			err = p.Run(client)
		}
		if err != nil {
			t.Fail("run: %v", err)
		}
		drain()
	}
	t.Count("frames", frame)
	t.Count("stalls", stalled)
	t.Distinct(fmt.Sprint(fps, cfg, stalls, frame, stalled, len(m.periods)))
}

func c25CheckStalls(t *T, got platform.StallsStats, n int, bound func() (max, sum time.Duration), at, prior time.Time) {
	max, sum := bound()
	if got.N != n || !got.Time.Equal(at) {
		t.Fail("%d stalls counted at %v, %d were made up to %v", got.N, got.Time, n, at)
	}
	if got.N == 0 {
		if got.Sum != 0 || got.Min != 0 || got.Max != 0 || got.Pct != 0 {
			t.Fail("no stalls, but %+v", got)
		}
		return
	}
	if got.Min <= 0 || got.Max > max || got.Sum > sum || got.Min > got.Max ||
		got.Sum < got.Max+time.Duration(got.N-1)*got.Min || got.Sum > got.Min+time.Duration(got.N-1)*got.Max {
		t.Fail("stall statistics %+v do not fit %d stalls of at most %v, and %v together", got, n, max, sum)
	}
	if !prior.IsZero() && !near(got.Pct, float64(got.Sum)/float64(at.Sub(prior))) {
		t.Fail("%v of %v stalled is %v, not %v", got.Sum, at.Sub(prior), float64(got.Sum)/float64(at.Sub(prior)), got.Pct)
	}
	t.Count("stall_statistics", 1)
	t.Count("stalls_counted", got.N)
}

type telemetryLine struct {
	T    int64           `json:"t"`
	Name string          `json:"name"`
	Data json.RawMessage `json:"data"`

	Stalls []time.Duration `json:"stalls"`
}

func c25Lines(t *T, file string) (ls []telemetryLine) {
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fail("telemetry log: %v", err)
	}
	if len(b) > 0 && b[len(b)-1] != '\n' {
		b = b[:strings.LastIndexByte(string(b), '\n')+1] // being written
	}
	for _, s := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		if s == "" {
			continue
		}
		var l telemetryLine
		if err := json.Unmarshal([]byte(s), &l); err != nil {
			t.Fail("telemetry line %q: %v", clip(s), err)
		}
		ls = append(ls, l)
	}
	return ls
}

// drained keeps reading what a session's terminal is sent.
func drained(t *T, m *ttyMon) {
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		var tmp [8192]byte
		for {
			select {
			case <-stop:
				return
			default:
			}
			pfd := [1]pollFd{{fd: int32(m.master), events: 1}}
			if poll(pfd[:], 5) > 0 && pfd[0].revents&1 != 0 {
				syscall.Read(m.master, tmp[:])
			}
		}
	}()
	t.Cleanup(func() { close(stop); <-done })
}

// c25Telemetry runs sessions and matches their telemetry against what they measured.
func c25Telemetry(t *T) {
	m := newTTYMon(t, t.R(1, 20), t.R(1, 6))
	drained(t, m)
	file := filepath.Join(t.TempDir(), "telemetry")
	fps := []int{40, 200, 1000, 2000}[t.N(4)]
	cfg := platform.Config{TelemetryLogFileName: file, LogTiming: true}
	p, err := platform.New(m.in, m.out, cfg, platform.FrameRate(fps))
	if err != nil {
		t.Fail("new: %v", err)
	}
	tm := &timingModel{period: fps / 4, on: true}
	left := tm.period*t.R(1, 5) + t.N(tm.period)
	told := -1
	settled, stopped := 0, 0
	toggles := t.Bool() // the user switches timing off and on
	off := 0
	optional := map[int]bool{} // completed as timing was switched off
	client := platform.ClientFunc(func(ctx *platform.Context) error {
		if told >= 0 {
			// the prior frame ended in a notification, with a period pending
			deadline := time.Now().Add(soon)
			for {
				ls := c25Lines(t, file)
				if len(ls) > 0 && string(ls[len(ls)-1].Data) == durationsText(tm.periods[told]) {
					break
				}
				if time.Now().After(deadline) {
					t.Fail("%v after being notified, the log lacks period %d", soon, told)
				}
				time.Sleep(50 * time.Microsecond)
			}
			told = -1
			settled++
		}
		if !tm.on {
			if off--; off < 0 { // from the next frame on
				ctx.Telemetry.LogTiming = true
				ctx.SetTimingEnabled(true)
				tm.on = true
			}
			if left--; left <= 0 {
				return errPlanned
			}
			return []error{nil, errNextFrame}[t.N(2)]
		}
		done := tm.frame(ctx.Platform.Time)
		tm.check(t, ctx.Timing.Stats)
		left--
		if toggles && (done && t.P(1, 3) || t.P(1, 200)) {
			ctx.Telemetry.LogTiming = false
			ctx.SetTimingEnabled(false)
			tm.reset()
			tm.on = false
			off = t.N(20)
			stopped++
			if done {
				optional[len(tm.periods)-1] = true
			}
			if left <= 0 {
				return errPlanned
			}
			return []error{nil, errNextFrame}[t.N(2)]
		}
		if left <= 0 {
			return errPlanned
		}
		if done && t.P(1, 2) || t.P(1, 200) {
			if len(tm.periods) > 0 && !optional[len(tm.periods)-1] {
				told = len(tm.periods) - 1
			}
			return nil
		}
		if t.P(1, 20) {
			runtime.Gosched()
			return nil
		}
		return errNextFrame
	})
	err = p.RunWith(func(p *platform.Platform) error {
		for {
			if err := p.Run(client); err != errNextFrame {
				return err
			}
		}
	})
	if err != errPlanned {
		t.Fail("session ended with %v", err)
	}
	next, lines := 0, 0
	for _, l := range c25Lines(t, file) {
		if l.Name != "timing" {
			continue
		}
		lines++
		at := next
		for at < len(tm.periods) && durationsText(tm.periods[at]) != string(l.Data) {
			at++
		}
		if at == len(tm.periods) {
			t.Fail("logged timing %s is not that of any period from %d of %d on: %s", clip(string(l.Data)), next, len(tm.periods), clip(durationsText(tm.periods[next%len(tm.periods)])))
		}
		next = at + 1
	}
	if next != len(tm.periods) && !optional[len(tm.periods)-1] {
		t.Fail("period %d of %d was the last one logged", next, len(tm.periods))
	}
	t.Count("timing_lines", lines)
	t.Count("periods", len(tm.periods))
	t.Count("notifications_settled", settled)
	t.Count("timing_switched_off", stopped)
	t.Distinct(fmt.Sprint(fps, len(tm.periods), lines, settled))
}

func durationsText(ds []time.Duration) string {
	var sb strings.Builder
	for i, d := range ds {
		if i > 0 {
			sb.WriteByte(',')
		}
		fmt.Fprint(&sb, int64(d))
	}
	return "[" + sb.String() + "]"
}

// c25Stalls: on a terminal that reads slowly, every stall counted is logged once,
// in order, whether into a telemetry file or the log.
func c25Stalls(t *T) {
	w, h := t.R(60, 200), t.R(20, 60)
	m := newTTYMon(t, w, h)
	if err := syscall.SetNonblock(int(m.out.Fd()), true); err != nil {
		t.Inconclusive("%v", err)
	}
	stop, done := make(chan struct{}), make(chan struct{})
	nap := time.Duration(t.N(1500)) * time.Microsecond
	go func() {
		defer close(done)
		var tmp [2048]byte
		for {
			pfd := [1]pollFd{{fd: int32(m.master), events: 1}}
			if poll(pfd[:], 2) > 0 && pfd[0].revents&1 != 0 {
				syscall.Read(m.master, tmp[:])
			}
			select {
			case <-stop:
				nap = 0
				if poll(pfd[:], 0) <= 0 {
					return
				}
			default:
			}
			time.Sleep(nap)
		}
	}()
	t.Cleanup(func() { close(stop); <-done })

	file := ""
	if t.P(2, 3) {
		file = filepath.Join(t.TempDir(), "telemetry")
	}
	left := t.R(8, 40)
	fps := []int{4, 8, 16, 40}[t.N(4)] // few frames to a period
	logTiming, logStalls := t.P(2, 3), t.P(5, 6)
	p, err := platform.New(m.in, m.out, platform.Config{TelemetryLogFileName: file, LogTiming: logTiming, StartTiming: true}, platform.FrameRate(fps))
	if err != nil {
		t.Fail("new: %v", err)
	}
	p.SetStallTracking(true)
	p.Telemetry.LogStallData = logStalls
	before := len(logLines())
	tm := &timingModel{period: fps / 4, on: true}
	var periods []platform.StallsStats
	client := platform.ClientFunc(func(ctx *platform.Context) error {
		tm.frame(ctx.Platform.Time)
		if st := ctx.Stalls.Stats; st.Time.Equal(ctx.Platform.Time) {
			periods = append(periods, st)
		}
		if left--; left <= 0 {
			return errPlanned
		}
		for i := range ctx.Output.Grid.Rune {
			ctx.Output.Grid.Rune[i] = rune(0x2800 + t.N(256))
		}
		if t.P(1, 40/fps*2+1) {
			return nil
		}
		return errNextFrame
	})
	err = p.RunWith(func(p *platform.Platform) error {
		for {
			if err := p.Run(client); err != errNextFrame {
				return err
			}
		}
	})
	if err != errPlanned {
		t.Fail("session ended with %v", err)
	}

	var stalls []time.Duration
	var timings []string
	if file != "" {
		for _, l := range c25Lines(t, file) {
			switch l.Name {
			case "stalls":
				stalls = append(stalls, l.Stalls...)
			case "timing":
				timings = append(timings, string(l.Data))
			}
		}
	} else {
		for _, l := range logLines()[before:] {
			isStalls := strings.Contains(l, "output stalls [")
			if !isStalls && !strings.Contains(l, "timing data: [") {
				continue
			}
			var ds []time.Duration
			for _, s := range strings.Fields(strings.Trim(l[strings.IndexByte(l, '['):], "[]")) {
				d, err := time.ParseDuration(s)
				if err != nil {
					t.Fail("log line %q: %v", clip(l), err)
				}
				ds = append(ds, d)
			}
			if isStalls {
				stalls = append(stalls, ds...)
			} else {
				timings = append(timings, durationsText(ds))
			}
		}
	}

	counted, logged := 0, len(stalls)
	for i, st := range periods {
		counted += st.N
		if !logStalls || st.N == 0 {
			continue
		}
		if st.N > len(stalls) {
			t.Fail("%d stalls logged, %d more were counted by period %d of %d", logged, st.N-len(stalls), i, len(periods))
		}
		var got platform.StallsStats
		got.Min = stalls[0]
		for _, d := range stalls[:st.N] {
			got.Sum += d
			if got.Max < d {
				got.Max = d
			}
			if got.Min > d {
				got.Min = d
			}
		}
		if got.Sum != st.Sum || got.Min != st.Min || got.Max != st.Max {
			t.Fail("period %d counted %+v, the stalls logged for it are %v", i, st, stalls[:st.N])
		}
		stalls = stalls[st.N:]
	}
	if len(stalls) > 0 {
		t.Fail("%d stalls logged beyond the %d counted", len(stalls), counted)
	}
	next := 0
	for _, l := range timings {
		for next < len(tm.periods) && durationsText(tm.periods[next]) != l {
			next++
		}
		if next == len(tm.periods) {
			t.Fail("logged timing %s is not that of any period left of %d", clip(l), len(tm.periods))
		}
		next++
	}
	if want := len(tm.periods); logTiming && next != want || !logTiming && len(timings) > 0 {
		t.Fail("the last timing logged was that of period %d of %d, enabled %v", next, want, logTiming)
	}
	t.Count("stalls_logged", logged)
	t.Count("timing_logged", len(timings))
	t.Distinct(fmt.Sprint(fps, file != "", logTiming, logStalls, len(periods), counted))
}

// c25Usage: resource usage is logged about once per second, over growing windows.
func c25Usage(t *T) {
	m := newTTYMon(t, 10, 3)
	drained(t, m)
	file := filepath.Join(t.TempDir(), "telemetry")
	p, err := platform.New(m.in, m.out, platform.Config{TelemetryLogFileName: file}, platform.FrameRate([]int{30, 60, 100}[t.N(3)]))
	if err != nil {
		t.Fail("new: %v", err)
	}
	start := time.Now()
	last := 2200*time.Millisecond + time.Duration(t.N(900))*time.Millisecond
	if t.Idx == 0 || t.Thorough && t.P(1, 3) {
		last += 7 * time.Second
	}
	var times []time.Time
	var used []syscall.Rusage // by the end of each frame
	busy := time.Duration(t.R(1, 4)) * time.Millisecond
	err = p.RunWith(func(p *platform.Platform) error {
		return p.Run(platform.ClientFunc(func(ctx *platform.Context) error {
			times = append(times, ctx.Platform.Time)
			for now := time.Now(); time.Since(now) < busy; {
			}
			var ru syscall.Rusage
			if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
				return err
			}
			used = append(used, ru)
			if time.Since(start) > last {
				return errPlanned
			}
			return nil
		}))
	})
	if err != errPlanned {
		t.Fail("session ended with %v", err)
	}
	// what was used at some moment of frame i lies between the ends of the
	// frames around it
	between := func(i int, f func(*syscall.Rusage) *syscall.Timeval) (lo, hi time.Duration) {
		hi = math.MaxInt64 / 4
		if i > 0 {
			lo = time.Duration(f(&used[i-1]).Nano())
		}
		if i+1 < len(used) {
			hi = time.Duration(f(&used[i+1]).Nano())
		}
		return lo, hi
	}
	isTime := map[int64]bool{}
	for _, at := range times {
		isTime[at.UnixNano()] = true
	}
	n := 0
	var prior int64
	for _, l := range c25Lines(t, file) {
		if l.Name != "rusage_delta" {
			t.Fail("line %q without timing enabled", l.Name)
		}
		if !isTime[l.T] {
			t.Fail("line of a time %d that no frame had", l.T)
		}
		if prior != 0 && l.T-prior < int64(time.Second-time.Millisecond) {
			t.Fail("lines %v apart", time.Duration(l.T-prior))
		}
		prior = l.T
		var ds []struct{ Dt, Utime, Stime time.Duration }
		if err := json.Unmarshal(l.Data, &ds); err != nil {
			t.Fail("%s: %v", l.Data, err)
		}
		for i, d := range ds {
			// the window starts at a frame, and reaches over at most i+1 seconds
			// (up to differences between clocks)
			begins, from, from1, to := false, -1, -1, -1
			for k, at := range times {
				off := l.T - int64(d.Dt) - at.UnixNano()
				if off > -int64(time.Millisecond) && off < int64(time.Millisecond) {
					if !begins {
						begins, from = true, k
					}
					from1 = k
				}
				if at.UnixNano() == l.T {
					to = k
				}
			}
			if begins && d.Dt > 0 {
				for _, what := range []struct {
					name string
					got  time.Duration
					f    func(*syscall.Rusage) *syscall.Timeval
				}{
					{"user", d.Utime, func(ru *syscall.Rusage) *syscall.Timeval { return &ru.Utime }},
					{"system", d.Stime, func(ru *syscall.Rusage) *syscall.Timeval { return &ru.Stime }},
				} {
					lo0, _ := between(from, what.f)
					_, hi0 := between(from1, what.f)
					lo1, hi1 := between(to, what.f)
					const slack = 2 * time.Millisecond
					if what.got < lo1-hi0-slack || what.got > hi1-lo0+slack {
						t.Fail("window %d: %v of %s time used in %v, it was between %v and %v", i, what.got, what.name, d.Dt, lo1-hi0, hi1-lo0)
					}
				}
			}
			if !begins || d.Dt <= 0 || d.Dt > time.Duration(i+1)*time.Second {
				t.Fail("window %d is %v long", i, d.Dt)
			}
			for _, at := range times {
				if from := l.T - at.UnixNano(); from > int64(d.Dt+time.Millisecond) && from <= int64(i+1)*int64(time.Second-time.Millisecond) && len(times) < 600 {
					t.Fail("window %d is %v long, a frame %v ago is not in it", i, d.Dt, time.Duration(from))
				}
			}
			if max := d.Dt*time.Duration(runtime.NumCPU()) + 200*time.Millisecond; d.Utime < 0 || d.Stime < 0 || d.Utime+d.Stime > max {
				t.Fail("used %v and %v in %v", d.Utime, d.Stime, d.Dt)
			}
			if i > 0 && (d.Dt <= ds[i-1].Dt || d.Utime < ds[i-1].Utime || d.Stime < ds[i-1].Stime) {
				t.Fail("window %d is not within the next: %v", i-1, ds)
			}
			n++
		}
	}
	if n == 0 {
		t.Fail("no resource usage logged in %v", last)
	}
	t.Count("usage_windows", n)
	t.Distinct(fmt.Sprint(n, len(times)))
}

// c25Rates: frames come at the rate asked for, and unusable rates are refused.
func c25Rates(t *T) {
	r, _ := rawPipe(t)
	_, w := rawPipe(t)
	if t.P(1, 2) {
		fps := []int{0, -1, -60, math.MinInt64}[t.N(4)]
		if _, err := platform.New(r, w, platform.Config{}, platform.FrameRate(fps)); err == nil {
			t.Fail("a frame rate of %d was accepted", fps)
		}
		t.Count("refused", 1)
		t.Distinct(fmt.Sprint("refused ", fps))
		return
	}
	if t.P(1, 2) {
		// any usable rate with everything enabled
		fps := t.R(1, 12)
		p, err := platform.New(r, w, platform.Config{StartTiming: true, LogTiming: t.Bool()}, platform.FrameRate(fps))
		if err != nil {
			t.Fail("new: %v", err)
		}
		p.SetStallTracking(true)
		for i := 0; i < 3*fps; i++ {
			if err := p.Run(platform.ClientFunc(func(ctx *platform.Context) error { return nil })); err != nil {
				t.Fail("run: %v", err)
			}
		}
		t.Distinct(fmt.Sprint("ran ", fps))
		return
	}
	m := newTTYMon(t, 10, 3)
	drained(t, m)
	fps := t.R(20, 500)
	var opts []platform.Option
	opts = append(opts, platform.Config{})
	if t.P(1, 5) {
		fps = 60 // the default
	} else {
		opts = append(opts, platform.FrameRate(fps))
	}
	p, err := platform.New(m.in, m.out, opts...)
	if err != nil {
		t.Fail("new: %v", err)
	}
	var times []time.Time
	start := time.Now()
	err = p.RunWith(func(p *platform.Platform) error {
		return p.Run(platform.ClientFunc(func(ctx *platform.Context) error {
			if times = append(times, ctx.Platform.Time); len(times) > 5 {
				return errPlanned
			}
			return nil
		}))
	})
	if err != errPlanned {
		t.Fail("session ended with %v", err)
	}
	// ticks may be late, but not early
	d := time.Second / time.Duration(fps)
	if got := time.Since(start); got < time.Duration(len(times)-1)*d || got > time.Duration(len(times))*d+soon {
		t.Fail("%d frames took %v at %d frames per second", len(times)-1, got, fps)
	}
	t.Distinct(fmt.Sprint("rate ", fps))
}
