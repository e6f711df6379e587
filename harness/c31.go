package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"runtime/pprof"
	"runtime/trace"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/jcorbin/anansi/x/platform"
)

func init() {
	helpers["diag"] = diagMain
	register(&Prop{
		ID:   "C31",
		Rule: "programs on a pseudo terminal with diagnostics asked for by flags, options and in the HUD (started, stopped, moved to other files, chosen from the list), run through frames, suspensions and ends of every kind; after every stop, suspension and end each file is decoded (profiles: compression, format, start time and duration; traces: structure and the markers made while tracing; heap: allocation count when taken; logs: every line) and compared with what was going on while it was recorded; platforms are asked for profiles and traces that the program has already started itself, and ones that there is no room for; non-trivial by (what was asked for how, operations, end)",
		Assumptions: []string{
			"files can be created and written, except those in missing directories and full devices",
			"suspending and resuming starts an active profile anew: its file then covers the time since it was last started or resumed",
			"each diagnostic is given a file of its own",
		},
		Subs: []Sub{
			{Name: "session", Quick: 1400, Thorough: 30000, Run: c31Session},
			{Name: "config", Quick: 4000, Thorough: 100000, Run: c31Config},
			{Name: "busy", Quick: 150, Thorough: 1500, Run: c31Busy, Serial: true},
			{Name: "full", Quick: 60, Thorough: 600, Run: c31Full, Serial: true},
		},
	})
}

const (
	cpuName   = "CPU profiler"
	traceName = "Trace profiler"
)

// diagConfig is what a diagnosed program is started with.
type diagConfig struct {
	Args    []string          // command line
	Options []platform.Config // given to New
	Parsed  bool              // the command line has been parsed by the program already
}

type diagStep struct {
	Op   string
	Name string
	File string
	N    int
	Spin int // milliseconds per frame
}

// diagReport tells when a step ran, and what there was to see of it.
type diagReport struct {
	Msg      string
	T0, T1   int64
	M0, M1   int // markers made so far
	A0, A1   uint64
	Shown    map[string]bool // profilers on display, and whether they are shown as active
	Err      string
	Logged   []string
	Contents string
	Flags    []string // names of flags set up
	Timing   bool
	LogTimes bool
	Telem    string
	FPS      float64
	Choices  []string
}

// diagMain runs a program under the platform, as told step by step.
func diagMain(args []string) {
	rep := json.NewEncoder(os.NewFile(3, "report"))
	steps := json.NewDecoder(os.NewFile(4, "steps"))
	var cfg diagConfig
	if err := json.Unmarshal([]byte(args[0]), &cfg); err != nil {
		os.Exit(3)
	}
	os.Args = append(os.Args[:1:1], cfg.Args...)
	flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ContinueOnError)
	if cfg.Parsed {
		flag.Parse()
	}
	var opts []platform.Option
	for _, c := range cfg.Options {
		opts = append(opts, c)
	}
	marks := 0
	now := func() int64 { return time.Now().UnixNano() }
	allocs := func() uint64 {
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		return ms.Mallocs
	}
	r := diagReport{Msg: "new", T0: now()}
	p, err := platform.New(os.Stdin, os.Stdout, opts...)
	flag.CommandLine.VisitAll(func(f *flag.Flag) { r.Flags = append(r.Flags, f.Name) })
	if err != nil {
		r.Err = err.Error()
		rep.Encode(r)
		return
	}
	r.Timing, r.LogTimes = p.TimingEnabled, p.Telemetry.LogTiming
	r.T1 = now()
	rep.Encode(r)

	cl := &HUDClient{update: func(*platform.Context) error { return errNextFrame }}
	frame := func(in string) {
		ctx := p.Context()
		ctx.Input.Clear()
		ctx.Input.DecodeBytes([]byte(in))
		ctx.Update()
		var sb strings.Builder
		ctx.Output.WriteTo(&sb)
	}
	find := func(s string) (x, y int, ok bool) {
		g := p.Context().Output.Grid
		w := p.Context().Output.Bounds().Dx()
		rs := []rune(s)
		for i := 0; i+len(rs) <= len(g.Rune); i++ {
			j := 0
			for j < len(rs) && (g.Rune[i+j] == rs[j] || g.Rune[i+j] == 0 && rs[j] == ' ') {
				j++
			}
			if j == len(rs) {
				return i%w + 1, i/w + 1, true
			}
		}
		return 0, 0, false
	}
	// the profilers on display
	shown := func() map[string]bool {
		frame("")
		g := p.Context().Output.Grid
		w := p.Context().Output.Bounds().Dx()
		m := map[string]bool{}
		for y := 1; y*w <= len(g.Rune); y++ {
			row := string(g.Rune[(y-1)*w : y*w])
			for _, f := range shownProfiler.FindAllStringSubmatch(strings.Map(func(r rune) rune {
				if r == 0 {
					return ' '
				}
				return r
			}, row), -1) {
				m[f[1]] = f[2] != "⊙"
			}
		}
		return m
	}
	press := func(name string, spin bool, times int) error {
		frame("")
		x, y, ok := find(name)
		if !ok {
			return fmt.Errorf("%q is not shown", name)
		}
		x += len([]rune(name))
		if !spin {
			x += 3
		}
		frame(strings.Repeat(fmt.Sprintf("\x1b[<0;%d;%dM\x1b[<0;%d;%dm", x, y, x, y), times))
		return nil
	}
	var waiting []chan struct{}
	waited := make(chan struct{})
	do := func(s diagStep) (err error) {
		switch s.Op {
		case "frames":
			for k := 0; k < s.N; k++ {
				trace.Log(context.Background(), "mark", fmt.Sprintf("mark<%d>", marks))
				marks++
				if err := p.Run(cl); err != errNextFrame {
					return err
				}
				for until := time.Now().Add(time.Duration(s.Spin) * time.Millisecond); time.Now().Before(until); {
					for j := 0; j < 20000; j++ {
						sink += j * j
					}
				}
			}
		case "log":
			log.Printf("%s", s.Name)
		case "goroutines": // that many of them wait, each in a place of its own
			for len(waiting) > s.N {
				close(waiting[len(waiting)-1])
				waiting = waiting[:len(waiting)-1]
				<-waited
			}
			for len(waiting) < s.N {
				ch := make(chan struct{})
				waiting = append(waiting, ch)
				go func(n int) {
					waitDeep(ch, n)
					waited <- struct{}{}
				}(len(waiting))
			}
		case "press":
			return press(s.Name, true, s.N)
		case "file":
			if err := press(s.Name, false, 1); err != nil {
				return err
			}
			if s.File == "" && s.N == 2 { // a second press chooses the default
				return press(s.Name, false, 1)
			}
			frame("\x1b[999C" + strings.Repeat("\x7f", 400))
			frame(s.File)
			if s.N == 1 { // other things happen meanwhile
				if err := p.Run(cl); err != errNextFrame {
					return err
				}
			}
			frame("\r")
		case "choose":
			frame("")
			x, y, ok := find("PProf ")
			if !ok {
				return errors.New("no profile selector is shown")
			}
			frame(fmt.Sprintf("\x1b[<0;%d;%dM", x+7, y))
			frame("")
			var nx, ny int
			if nx, ny, ok = find(s.Name + " "); !ok {
				frame(fmt.Sprintf("\x1b[<0;%d;%dM", 1, 2))
				return fmt.Errorf("profile %q is not shown", s.Name)
			}
			frame(fmt.Sprintf("\x1b[<0;%d;%dM", nx+1, ny))
		case "suspend":
			rep.Encode(diagReport{Msg: "suspending"})
			return p.Suspend()
		}
		return nil
	}
	step := func(s diagStep) {
		r := diagReport{Msg: s.Op, M0: marks, A0: allocs(), T0: now()}
		if err := do(s); err != nil {
			r.Err = err.Error()
		}
		r.T1, r.A1, r.M1 = now(), allocs(), marks
		r.Shown = shown()
		rep.Encode(r)
	}
	var final diagReport
	defer func() {
		if e := recover(); e != nil {
			final.Err = fmt.Sprint(e)
		}
		log.Printf("line after the end")
		b, _ := platform.Logs.Contents()
		final.Msg, final.Contents, final.T1, final.M1, final.A1 = "end", string(b), now(), marks, allocs()
		rep.Encode(final)
	}()
	entered := diagReport{Msg: "entered", T0: r.T1, A0: allocs()}
	err = p.RunWith(func(p *platform.Platform) error {
		if err := p.Run(cl); err != errNextFrame {
			return err
		}
		p.HUD.Visible, p.HUD.ProfDetail = true, true
		entered.T1, entered.A1 = now(), allocs()
		entered.Shown = shown()
		for _, prof := range pprof.Profiles() {
			entered.Choices = append(entered.Choices, prof.Name())
		}
		rep.Encode(entered)
		for {
			var s diagStep
			if err := steps.Decode(&s); err != nil {
				return err
			}
			switch s.Op {
			default:
				step(s)
				continue
			case "end":
			}
			final.M0, final.A0, final.T0 = marks, allocs(), now()
			switch s.Name {
			case "error":
				return errPlatQuit
			case "panic":
				panic("told to panic")
			case "signal":
				syscall.Kill(os.Getpid(), syscall.SIGTERM)
				return p.Run(platform.ClientFunc(func(*platform.Context) error { return nil }))
			}
			return nil
		}
	})
	if err != nil {
		final.Err = err.Error()
	}
}

var sink int

func waitDeep(ch chan struct{}, n int) {
	if n > 0 {
		waitDeep(ch, n-1)
		return
	}
	<-ch
}

var shownProfiler = regexp.MustCompile(`([A-Za-z]+ profiler)(⊙|◴|◷|◶|◵)`)

// c31Prof is what is expected of one profiler.
type c31Prof struct {
	name   string
	file   string // current, if any
	active bool
	resume bool // to be started when resuming
	// when it was started
	t0, t1 int64
	m0     int
}

// c31Want is what is expected of a file that is complete.
type c31Want struct {
	name           string
	start0, start1 int64
	stop0, stop1   int64
	m0, m1         int
	a0, a1         uint64
}

type c31Session_ struct {
	t     *T
	dir   string
	profs []*c31Prof
	want  map[string]c31Want
	any   map[string]bool // files that may be there
	ops   string
	nfile int

	blocked map[string]bool // files that cannot be created
	failed  []string        // what is to be told about, in order
}

func defaultProfile(name string) string {
	switch name {
	case cpuName:
		return "prof.cpu"
	case traceName:
		return "prof.trace"
	}
	return "prof." + strings.TrimSuffix(name, " profiler")
}

// block has the file fail to be created.
func (c *c31Session_) block(f string) {
	c.blocked[f], c.any[f] = true, true
	if err := os.Mkdir(filepath.Join(c.dir, f), 0o755); err != nil {
		c.t.Inconclusive("mkdir: %v", err)
	}
	c.ops += " blocked(" + f + ")"
}

// fullFile is one that can be created but not written.
const fullFile = "/dev/full"

// full tells whether anything is to be written there.
func (c *c31Session_) full() bool {
	for _, p := range c.profs {
		if p.active && p.file == fullFile {
			return true
		}
	}
	return false
}

// fails notes that a file could not be created or written.
func (c *c31Session_) fails(file string) {
	c.failed = append(c.failed, file)
	c.ops += " failing(" + file + ")"
	c.t.Count("failures_of_files", 1)
}

func (c *c31Session_) prof(name string) *c31Prof {
	for _, p := range c.profs {
		if p.name == name {
			return p
		}
	}
	return nil
}

func (c *c31Session_) start(p *c31Prof, t0, t1 int64, m0 int) {
	if p.active {
		return
	}
	if p.file == "" {
		if f := defaultProfile(p.name); c.blocked[f] {
			c.fails(f)
			return
		} else {
			p.file = f
		}
	}
	p.active = true
	p.t0, p.t1, p.m0 = t0, t1, m0
	if p.file != fullFile {
		delete(c.want, p.file)
		c.any[p.file] = true
	}
}

func (c *c31Session_) stop(p *c31Prof, r diagReport) {
	if !p.active {
		return
	}
	p.active = false
	if p.file == fullFile {
		c.fails(p.file)
		return
	}
	c.want[p.file] = c31Want{p.name, p.t0, p.t1, r.T0, r.T1, p.m0, r.M0, r.A0, r.A1}
}

// check the files of everything that has been stopped.
func (c *c31Session_) check(when string) {
	t := c.t
	es, err := os.ReadDir(c.dir)
	if err != nil {
		t.Inconclusive("%v", err)
	}
	for _, e := range es {
		if !c.any[e.Name()] {
			t.Fail("%s after%s: there is a file %q, which was not asked for", when, c.ops, e.Name())
		}
	}
	for file, w := range c.want {
		b, err := os.ReadFile(filepath.Join(c.dir, file))
		if err != nil {
			t.Fail("%s after%s: %v", when, c.ops, err)
		}
		if msg := w.bad(b); msg != "" {
			t.Fail("%s after%s: %s file %s: %s", when, c.ops, w.name, file, msg)
		}
		t.Count("files_checked", 1)
		t.Count(strings.ReplaceAll(strings.ToLower(w.name), " ", "_")+"_files", 1)
	}
}

func (w c31Want) bad(b []byte) string {
	switch w.name {
	case cpuName:
		start, dur, err := readCPUProfile(b)
		if err != nil {
			return err.Error()
		}
		// profiles are dated by what writes them, some time after they are started and after they are stopped
		const slack = int64(2 * time.Millisecond) // wall and monotonic clocks may differ
		if start < w.start0 || start > w.stop1 {
			return fmt.Sprintf("starts at %v, was started between %v and %v", time.Unix(0, start), time.Unix(0, w.start0), time.Unix(0, w.start1))
		}
		if end := start + dur; end < w.stop0-slack || end > w.stop1+slack {
			return fmt.Sprintf("ends at %v after %v, was stopped between %v and %v", time.Unix(0, end), time.Duration(dur), time.Unix(0, w.stop0), time.Unix(0, w.stop1))
		}
	case traceName:
		marks, err := readTrace(b)
		if err != nil {
			return err.Error()
		}
		for m := w.m0; m < w.m1; m++ {
			if !marks[m] {
				return fmt.Sprintf("marker %d of %d to %d is missing", m, w.m0, w.m1-1)
			}
			delete(marks, m)
		}
		for m := range marks {
			return fmt.Sprintf("has marker %d, not made while it ran (%d to %d)", m, w.m0, w.m1-1)
		}
	case "heap profiler", "allocs profiler":
		if !bytes.HasPrefix(b, []byte("heap profile: ")) {
			return fmt.Sprintf("starts %q", clip(string(b[:min(len(b), 100)])))
		}
		m := mallocsLine.FindSubmatch(b)
		if m == nil || !bytes.HasSuffix(b, []byte("\n")) {
			return fmt.Sprintf("ends %q", b[max(0, len(b)-100):])
		}
		n, _ := strconv.ParseUint(string(m[1]), 10, 64)
		if n < w.a0 || n > w.a1 {
			return fmt.Sprintf("was taken after %d allocations, there were %d to %d when it was stopped", n, w.a0, w.a1)
		}
	default:
		kind := strings.TrimSuffix(w.name, " profiler")
		heads := map[string]string{"mutex": "--- mutex:\n", "block": "--- contention:\n"}
		head, have := heads[kind]
		if !have {
			head = kind + " profile: total "
		}
		if !bytes.HasPrefix(b, []byte(head)) || !bytes.HasSuffix(b, []byte("\n")) {
			return fmt.Sprintf("is %q", clip(string(b)))
		}
		if have {
			break
		}
		// as many are listed as there are
		var total, listed int
		fmt.Sscanf(string(b[len(head):]), "%d", &total)
		for _, m := range listedLine.FindAllSubmatch(b, -1) {
			n, _ := strconv.Atoi(string(m[1]))
			listed += n
		}
		if listed != total {
			return fmt.Sprintf("lists %d of %d", listed, total)
		}
	}
	return ""
}

var listedLine = regexp.MustCompile(`(?m)^([0-9]+) @`)

var mallocsLine = regexp.MustCompile(`\n# Mallocs = ([0-9]+)\n(?s:.*)\n# MaxRSS = [0-9]+\n$`)

// readCPUProfile decodes as much of a pprof profile as says when it was made.
func readCPUProfile(b []byte) (start, dur int64, _ error) {
	in := bytes.NewReader(b)
	z, err := gzip.NewReader(in)
	if err != nil {
		return 0, 0, fmt.Errorf("%d bytes: %v", len(b), err)
	}
	z.Multistream(false)
	p, err := io.ReadAll(z)
	if err != nil {
		return 0, 0, fmt.Errorf("%d bytes: %v", len(b), err)
	}
	if in.Len() > 0 {
		return 0, 0, fmt.Errorf("%d bytes, the last %d of them not part of the profile", len(b), in.Len())
	}
	varint := func(q []byte) (uint64, []byte, bool) {
		var v uint64
		for i := 0; i < len(q) && i < 10; i++ {
			v |= uint64(q[i]&0x7f) << (7 * uint(i))
			if q[i] < 0x80 {
				return v, q[i+1:], true
			}
		}
		return 0, nil, false
	}
	var strs []string
	for len(p) > 0 {
		key, q, ok := varint(p)
		if !ok {
			return 0, 0, errors.New("cut off in a tag")
		}
		v, q, ok := varint(q)
		if !ok {
			return 0, 0, errors.New("cut off in a field")
		}
		switch key & 7 {
		case 0:
		case 2:
			if v > uint64(len(q)) {
				return 0, 0, errors.New("cut off in a string")
			}
			if key>>3 == 6 {
				strs = append(strs, string(q[:v]))
			}
			q = q[v:]
		default:
			return 0, 0, fmt.Errorf("field of type %d", key&7)
		}
		switch key >> 3 {
		case 9:
			start = int64(v)
		case 10:
			dur = int64(v)
		}
		p = q
	}
	if s := fmt.Sprint(strs); !strings.Contains(s, " cpu ") || !strings.Contains(s, " nanoseconds") {
		return 0, 0, fmt.Errorf("has strings %v", strs)
	}
	return start, dur, nil
}

var markText = regexp.MustCompile(`mark<([0-9]+)>`)

// readTrace walks the batches of an execution trace, which have to be all there.
func readTrace(b []byte) (marks map[int]bool, _ error) {
	head := regexp.MustCompile(`^go 1\.\d+ trace\x00\x00\x00`).Find(b)
	if len(head) != 16 {
		return nil, fmt.Errorf("%d bytes, starting %q", len(b), b[:min(len(b), 20)])
	}
	p := b[16:]
	batches, ends := 0, 0
	for len(p) > 0 {
		typ := p[0]
		p = p[1:]
		n := 4 // generation, thread, time, size
		switch typ {
		case 1: // batch
		case endOfGeneration:
			ends++
			continue
		case experimentalBatch:
			if len(p) == 0 {
				return nil, fmt.Errorf("cut off after %d batches", batches)
			}
			p = p[1:] // which experiment
		default:
			return nil, fmt.Errorf("after %d batches there is %d", batches, typ)
		}
		var size uint64
		for ; n > 0; n-- {
			var v uint64
			i := 0
			for ; ; i++ {
				if i >= len(p) || i > 10 {
					return nil, fmt.Errorf("cut off after %d batches", batches)
				}
				v |= uint64(p[i]&0x7f) << (7 * uint(i))
				if p[i] < 0x80 {
					break
				}
			}
			p = p[i+1:]
			size = v
		}
		if size > uint64(len(p)) {
			return nil, fmt.Errorf("cut off within batch %d, %d of %d bytes are there", batches, len(p), size)
		}
		p = p[size:]
		batches++
	}
	if ends == 0 || b[len(b)-1] != endOfGeneration {
		return nil, fmt.Errorf("is not finished after %d batches", batches)
	}
	marks = map[int]bool{}
	for _, m := range markText.FindAllSubmatch(b, -1) {
		n, _ := strconv.Atoi(string(m[1]))
		marks[n] = true
	}
	return marks, nil
}

// What this toolchain's traces have.
const (
	experimentalBatch = 49
	endOfGeneration   = 52
)

func c31Session(t *T) {
	c := &c31Session_{t: t, dir: t.TempDir(), want: map[string]c31Want{}, any: map[string]bool{}, blocked: map[string]bool{}}
	if t.P(1, 12) {
		for _, n := range []string{cpuName, traceName, "heap profiler"} {
			if t.Bool() {
				c.block(defaultProfile(n))
			}
		}
	}
	c.profs = []*c31Prof{{name: cpuName}, {name: traceName}}
	cfg := diagConfig{Parsed: t.P(1, 8)}
	// what is asked for, and how
	var pc, eff platform.Config
	var missing string
	refused := false // to start
	name := func(kind string) string {
		c.nfile++
		n := fmt.Sprintf("%d.%s", c.nfile, kind)
		if t.P(1, 60) {
			n = "missing/" + n
		} else {
			c.any[n] = true
		}
		return n
	}
	asked := func() bool { return t.P(2, 5) }
	byFlag := t.Bool() && !cfg.Parsed
	ask := func(flagName, kind string, opt, eff *string) {
		if !asked() {
			return
		}
		n := name(kind)
		if kind == "heap" && t.P(1, 8) {
			n = fullFile
		} else if kind != "log" && kind != "heap" && t.P(1, 40) {
			n = fullFile
			refused = true
		}
		*eff = n
		if byFlag {
			switch t.N(3) {
			case 0:
				cfg.Args = append(cfg.Args, "-platform."+flagName, n)
			case 1:
				cfg.Args = append(cfg.Args, "-platform."+flagName+"="+n)
			default:
				cfg.Args = append(cfg.Args, "--platform."+flagName+"="+n)
			}
		} else {
			*opt = n
		}
		if strings.HasPrefix(n, "missing/") {
			missing = "missing/"
		}
		c.ops += " " + flagName
	}
	ask("cpuprofile", "cpu", &pc.CPUProfileName, &eff.CPUProfileName)
	ask("tracefile", "trace", &pc.TraceFileName, &eff.TraceFileName)
	ask("memprofile", "heap", &pc.MemProfileName, &eff.MemProfileName)
	ask("logfile", "log", &pc.LogFileName, &eff.LogFileName)
	if byFlag {
		if t.P(1, 4) {
			cfg.Args = append(cfg.Args, "-platform.timing")
			eff.StartTiming = true
		}
		if t.P(1, 4) {
			cfg.Args = append(cfg.Args, "-platform.timing.log")
			eff.LogTiming = true
		}
		c.ops += " byflag"
	} else {
		if t.P(1, 4) {
			pc.StartTiming, eff.StartTiming = true, true
		}
		if t.P(1, 4) {
			pc.LogTiming, eff.LogTiming = true, true
		}
		if t.P(1, 3) {
			pc.TelemetryLogFileName = name("telemetry")
			eff.TelemetryLogFileName = pc.TelemetryLogFileName
			if strings.HasPrefix(pc.TelemetryLogFileName, "missing/") {
				missing = "missing/"
			}
		}
		if t.Bool() || cfg.Parsed || !reflect.DeepEqual(pc, platform.Config{}) {
			cfg.Options = append(cfg.Options, pc)
			if t.P(1, 3) { // what was asked for first holds
				over := platform.Config{CPUProfileName: pc.CPUProfileName, TraceFileName: pc.TraceFileName, MemProfileName: pc.MemProfileName, LogFileName: pc.LogFileName, TelemetryLogFileName: pc.TelemetryLogFileName}
				for _, s := range []*string{&over.CPUProfileName, &over.TraceFileName, &over.MemProfileName, &over.LogFileName, &over.TelemetryLogFileName} {
					if *s != "" {
						*s = "never"
					}
				}
				cfg.Options = append(cfg.Options, over)
			}
		}
	}
	j, _ := json.Marshal(cfg)
	t.Logf("%s", j)

	m := newTTYMon(t, t.R(90, 140), t.R(30, 50))
	drained(t, m)
	pr, pw, err := os.Pipe()
	if err != nil {
		t.Inconclusive("pipe: %v", err)
	}
	t.Cleanup(func() { pr.Close() })
	sr, sw, err := os.Pipe()
	if err != nil {
		t.Inconclusive("pipe: %v", err)
	}
	t.Cleanup(func() { sw.Close() })
	self, _ := os.Executable()
	cmd := exec.Command(self, "-helper", "diag", string(j))
	var errOut capBuf
	cmd.Stdin, cmd.Stdout, cmd.Stderr = m.in, m.out, &errOut
	cmd.ExtraFiles = []*os.File{pw, sr}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	cmd.Dir = c.dir
	if err := cmd.Start(); err != nil {
		t.Inconclusive("start: %v", err)
	}
	pw.Close()
	sr.Close()
	pid := cmd.Process.Pid
	reaped := false
	t.Cleanup(func() {
		if !reaped {
			syscall.Kill(-pid, syscall.SIGCONT)
			syscall.Kill(-pid, syscall.SIGKILL)
			cmd.Wait()
		}
		if e := errOut.String(); e != "" {
			t.Logf("stderr: %s", e)
		}
	})
	reports := make(chan diagReport, 16)
	go func() {
		defer close(reports)
		dec := json.NewDecoder(bufio.NewReaderSize(pr, 1<<16))
		for {
			var r diagReport
			if dec.Decode(&r) != nil {
				return
			}
			reports <- r
		}
	}()
	expect := func(what string) diagReport {
		select {
		case r, ok := <-reports:
			if !ok || r.Msg != what {
				t.Fail("after%s: expected report %q, have %+v (running %v)", c.ops, what, r, ok)
			}
			return r
		case <-time.After(40 * time.Second):
			t.Fail("after%s: no %q within 40s", c.ops, what)
		}
		panic("unreachable")
	}
	show := func(r diagReport) {
		want := map[string]bool{"All profiler": false}
		for _, p := range c.profs {
			want[p.name] = p.active
		}
		delete(want, "All profiler")
		got := map[string]bool{}
		for k, v := range r.Shown {
			got[k] = v
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fail("after%s: profilers are shown as %v, expected %v", c.ops, got, want)
		}
	}

	r := expect("new")
	if missing != "" {
		if r.Err == "" || !strings.Contains(r.Err, missing) {
			t.Fail("%s: a file in %s cannot be created: %q reported", c.ops, missing, r.Err)
		}
		t.Count("failures_of_files", 1)
		t.Distinct("missing " + c.ops)
		reaped = cmd.Wait() != nil || true
		return
	}
	if r.Err != "" {
		t.Fail("new: %s", r.Err)
	}
	if r.LogTimes != eff.LogTiming || r.Timing != (eff.StartTiming || eff.LogTiming) {
		t.Fail("timing is %v, logged %v; asked for %v, logged %v", r.Timing, r.LogTimes, eff.StartTiming, eff.LogTiming)
	}
	if has := len(r.Flags) > 0; has != (!cfg.Parsed && len(cfg.Options) == 0) {
		t.Fail("flags %v were set up with parsed=%v and %d options", r.Flags, cfg.Parsed, len(cfg.Options))
	}
	c.prof(cpuName).file = eff.CPUProfileName
	c.prof(traceName).file = eff.TraceFileName
	if eff.MemProfileName != "" {
		c.profs = append(c.profs, &c31Prof{name: "heap profiler", file: eff.MemProfileName})
	}
	began := r.T1
	if refused { // and whatever did start is stopped
		r = expect("end")
		if !strings.Contains(r.Err, fullFile) {
			t.Fail("%s: ended with %q", c.ops, r.Err)
		}
		for file, bad := range map[string]func([]byte) error{
			eff.CPUProfileName: func(b []byte) error { _, _, err := readCPUProfile(b); return err },
			eff.TraceFileName:  func(b []byte) error { _, err := readTrace(b); return err },
		} {
			if file == "" || file == fullFile {
				continue
			}
			b, err := os.ReadFile(filepath.Join(c.dir, file))
			if err == nil && len(b) > 0 {
				err = bad(b)
			}
			if err != nil {
				t.Fail("%s refused: file %s: %v", c.ops, file, err)
			}
		}
		t.Count("refused_to_start", 1)
		t.Distinct("refused " + c.ops)
		reaped = cmd.Wait() != nil || true
		return
	}
	r = expect("entered")
	choices := r.Choices
	for _, p := range c.profs {
		if p.file != "" {
			c.start(p, began, r.T1, 0)
		}
	}
	show(r)
	send := func(s diagStep) {
		b, _ := json.Marshal(s)
		if _, err := sw.Write(append(b, '\n')); err != nil {
			t.Fail("after%s: step: %v", c.ops, err)
		}
	}
	var logged []string
	logFile := func(when string) {
		if eff.LogFileName == "" {
			return
		}
		b, err := os.ReadFile(filepath.Join(c.dir, eff.LogFileName))
		if err != nil {
			t.Fail("%s: %v", when, err)
		}
		rest := string(b)
		for _, l := range logged {
			i := strings.Index(rest, l+"\n")
			if i < 0 {
				t.Fail("%s after%s: logged line %q is not in its place in the log file", when, c.ops, l)
			}
			rest = rest[i+len(l)+1:]
		}
		t.Count("logged_lines_found", len(logged))
	}
	settled := func(when string) {
		c.check(when)
		logFile(when)
	}
	cut := false // by an error
	for k := t.R(1, 9); k > 0 && !cut; k-- {
		var s diagStep
		p := c.profs[t.N(len(c.profs))]
		switch t.N(12) {
		case 10, 11:
			s = diagStep{Op: "goroutines", N: t.N(30)}
			c.ops += fmt.Sprintf(" goroutines(%d)", s.N)
			send(s)
			r = expect("goroutines")
		case 0, 1:
			s = diagStep{Op: "frames", N: t.R(1, 4)}
			if t.P(1, 4) {
				s.Spin = t.R(1, 25)
			}
			c.ops += " frames"
			send(s)
			r = expect("frames")
		case 2:
			l := fmt.Sprintf("line %d of the log %s", k, strings.Repeat("…", t.N(5)))
			send(diagStep{Op: "log", Name: l})
			r = expect("log")
			logged = append(logged, l)
			c.ops += " log"
		case 3, 4, 5:
			s = diagStep{Op: "press", Name: p.name, N: 1}
			if t.P(1, 8) {
				s.N = 2
			}
			all := t.P(1, 5)
			if all {
				s.Name = "All"
			}
			c.ops += fmt.Sprintf(" press(%s*%d)", s.Name, s.N)
			send(s)
			r = expect("press")
			if r.Err != "" {
				t.Fail("after%s: %s", c.ops, r.Err)
			}
			if s.N == 1 && all {
				any := false
				for _, p := range c.profs {
					any = any || p.active
				}
				failed := len(c.failed)
				for _, p := range c.profs {
					if any {
						c.stop(p, r)
					} else {
						c.start(p, r.T0, r.T1, r.M0)
					}
				}
				if len(c.failed) > failed { // the first is told about
					c.failed = c.failed[:failed+1]
				}
			} else if s.N == 1 && p.active {
				c.stop(p, r)
			} else if s.N == 1 {
				c.start(p, r.T0, r.T1, r.M0)
			}
		case 6:
			if p.active && p.file == fullFile {
				continue
			}
			s = diagStep{Op: "file", Name: p.name, N: t.N(2)}
			if p.file == "" && t.P(1, 3) {
				s.N = 2
			} else if p.name != cpuName && p.name != traceName && t.P(1, 5) {
				s.File = fullFile
			} else if t.P(4, 5) {
				s.File = name(strings.Fields(p.name)[0])
			}
			c.ops += fmt.Sprintf(" file(%s, %s)", s.Name, s.File)
			send(s)
			r = expect("file")
			c.stop(p, r)
			f := s.File
			if f == "" {
				f = defaultProfile(p.name)
			}
			if strings.HasPrefix(f, "missing/") || c.blocked[f] {
				c.fails(f)
			} else {
				p.file = f
				c.start(p, r.T0, r.T1, r.M0)
			}
		case 7:
			if len(c.profs) > 6 {
				continue
			}
			n := choices[t.N(len(choices))]
			if c.prof(n+" profiler") != nil || n == "goroutineleak" {
				continue
			}
			if f := defaultProfile(n); !c.any[f] && t.P(1, 4) {
				c.block(f)
			}
			c.ops += " choose(" + n + ")"
			send(diagStep{Op: "choose", Name: n})
			r = expect("choose")
			c.profs = append(c.profs, &c31Prof{name: n + " profiler"})
		default:
			c.ops += " suspend"
			full := c.full()
			send(diagStep{Op: "suspend"})
			expect("suspending")
			if full { // the rest is complete nevertheless
				prior := r
				r = expect("suspend")
				if !strings.Contains(r.Err, fullFile) {
					t.Fail("after%s: suspending reports %q", c.ops, r.Err)
				}
				failed := len(c.failed)
				for _, p := range c.profs {
					c.stop(p, diagReport{T0: prior.T1, T1: r.T1, M0: prior.M1, A0: prior.A1, A1: r.A1})
				}
				c.failed = c.failed[:failed] // told about already
				r.Err, r.T0, r.A0 = "", prior.T1, prior.A1
				show(r)
				settled("failed to suspend")
				cut = true
				break
			}
			var ws syscall.WaitStatus
			for deadline := time.Now().Add(40 * time.Second); ; {
				p, err := syscall.Wait4(pid, &ws, syscall.WUNTRACED|syscall.WNOHANG, nil)
				if err != nil && err != syscall.EINTR {
					t.Fail("wait: %v", err)
				}
				if p == pid {
					break
				}
				if time.Now().After(deadline) {
					t.Fail("process did not stop within 40s of being told to suspend")
				}
				time.Sleep(100 * time.Microsecond)
			}
			if !ws.Stopped() {
				reaped = true
				t.Fail("process ended (%v) rather than stop", ws)
			}
			// what was stopped is complete now; when exactly is only known afterwards
			sent := time.Now().UnixNano()
			var again []*c31Prof
			for _, p := range c.profs {
				if p.active {
					again = append(again, p)
					c.stop(p, diagReport{T0: r.T1, T1: sent, M0: r.M1, A0: r.A1, A1: r.A1 + 1<<40})
				}
			}
			settled("suspended")
			if err := syscall.Kill(-pid, syscall.SIGCONT); err != nil {
				t.Inconclusive("cont: %v", err)
			}
			r = expect("suspend")
			for _, p := range again {
				c.start(p, sent, r.T1, r.M0)
			}
			t.Count("suspensions", 1)
		}
		if r.Err != "" {
			t.Fail("after%s: %s", c.ops, r.Err)
		}
		show(r)
		c.check("running")
	}
	end := t.Pick("plain", "plain", "error", "panic", "signal")
	if end == "signal" && cut {
		end = "error"
	}
	c.ops += " " + end
	send(diagStep{Op: "end", Name: end})
	r = expect("end")
	logged = append(logged, "line after the end")
	full, failed := c.full(), len(c.failed)
	for _, p := range c.profs {
		c.stop(p, r)
	}
	c.failed = c.failed[:failed]
	settled("at end")
	if full && end == "plain" {
		if !strings.Contains(r.Err, fullFile) {
			t.Fail("after%s: ended with %q, despite %s", c.ops, r.Err, fullFile)
		}
	} else if want := map[string]string{"plain": "", "error": errPlatQuit.Error(), "panic": "told to panic", "signal": "signal terminated"}[end]; r.Err != want {
		t.Fail("after%s: ended with %q, want %q", c.ops, r.Err, want)
	}
	rest := r.Contents
	for _, f := range c.failed {
		i := strings.Index(rest, f)
		why := " directory"
		if f == fullFile {
			why = "invalid argument"
		}
		for i >= 0 && !strings.Contains(strings.ToLower(strings.SplitN(rest[i:], "\n", 2)[0]), why) {
			k := strings.Index(rest[i+1:], f)
			if i = i + 1 + k; k < 0 {
				i = -1
			}
		}
		if i < 0 {
			t.Fail("after%s: nothing is said about %s in\n%s", c.ops, f, r.Contents)
		}
		rest = rest[i+len(f):]
		if k := strings.IndexByte(rest, '\n'); k >= 0 {
			rest = rest[k+1:]
		}
	}
	if eff.LogFileName != "" { // every line since it was opened, and nothing else
		b, _ := os.ReadFile(filepath.Join(c.dir, eff.LogFileName))
		start := fmt.Sprintf("logging to %q\n", eff.LogFileName)
		i := strings.Index(r.Contents, start)
		if i < 0 || r.Contents[i+len(start):] != string(b) {
			t.Fail("after%s: the log file has\n%q\nwhat was logged is\n%q", c.ops, b, r.Contents)
		}
		t.Count("log_files", 1)
	}
	if eff.TelemetryLogFileName != "" {
		b, _ := os.ReadFile(filepath.Join(c.dir, eff.TelemetryLogFileName))
		for _, l := range bytes.SplitAfter(b, []byte("\n")) {
			if len(l) > 0 && (!json.Valid(l) || l[len(l)-1] != '\n') {
				t.Fail("after%s: telemetry line %q", c.ops, l)
			}
		}
	}
	err = cmd.Wait()
	reaped = true
	if err != nil {
		t.Fail("after%s: process: %v", c.ops, err)
	}
	t.Sample("%s", c.ops)
	t.Distinct(c.ops)
}

// c31Config: flags, and options merged into one configuration.
func c31Config(t *T) {
	pick := func() string { return t.Pick("", "", "a", "b", "c") }
	gen := func() platform.Config {
		return platform.Config{
			LogFileName: pick(), CPUProfileName: pick(), TraceFileName: pick(), MemProfileName: pick(), TelemetryLogFileName: pick(),
			StartTiming: t.P(1, 3), LogTiming: t.P(1, 3),
		}
	}
	show := func(c platform.Config) string {
		return fmt.Sprintf("log=%s cpu=%s trace=%s mem=%s telemetry=%s timing=%v log=%v", c.LogFileName, c.CPUProfileName, c.TraceFileName, c.MemProfileName, c.TelemetryLogFileName, c.StartTiming, c.LogTiming)
	}
	first := func(a, b string) string {
		if a != "" {
			return a
		}
		return b
	}
	c := gen()
	want := c
	key := show(c)
	for k := t.N(4); k > 0; k-- {
		o := gen()
		was := show(o)
		c.Merge(o)
		want = platform.Config{
			LogFileName: first(want.LogFileName, o.LogFileName), CPUProfileName: first(want.CPUProfileName, o.CPUProfileName),
			TraceFileName: first(want.TraceFileName, o.TraceFileName), MemProfileName: first(want.MemProfileName, o.MemProfileName),
			TelemetryLogFileName: first(want.TelemetryLogFileName, o.TelemetryLogFileName),
			StartTiming:          want.StartTiming || o.StartTiming, LogTiming: want.LogTiming || o.LogTiming,
		}
		key += "+" + was
		if show(c) != show(want) {
			t.Fail("%s: merged is %s, want %s", key, show(c), show(want))
		}
		if show(o) != was {
			t.Fail("merging changed what was merged")
		}
	}
	// what is set already is what flags default to
	prefix := t.Pick("", "p.", "platform.")
	fs := flag.NewFlagSet("x", flag.ContinueOnError)
	fs.SetOutput(io.Discard)
	if prefix != "" { // whether timing that was asked for already stays so is not specified
		c.StartTiming, c.LogTiming = false, false
	}
	want.StartTiming, want.LogTiming = c.StartTiming, c.LogTiming
	c.AddFlags(fs, prefix)
	var args []string
	for _, f := range []struct {
		name string
		p    *string
	}{{"logfile", &want.LogFileName}, {"cpuprofile", &want.CPUProfileName}, {"memprofile", &want.MemProfileName}, {"tracefile", &want.TraceFileName}} {
		if t.Bool() {
			*f.p = t.Pick("x", "y z", "-")
			args = append(args, "-"+prefix+f.name+"="+*f.p)
		}
	}
	if prefix != "" {
		if t.Bool() {
			want.StartTiming = true
			args = append(args, "-"+prefix+"timing")
		}
		if t.Bool() {
			want.LogTiming = true
			args = append(args, "-"+prefix+"timing.log")
		}
	} else if fs.Lookup("timing") != nil || fs.Lookup("timing.log") != nil {
		t.Fail("there are timing flags without a prefix")
	}
	if err := fs.Parse(args); err != nil {
		t.Fail("parsing %q: %v", args, err)
	}
	if show(c) != show(want) {
		t.Fail("%s with %q: %s, want %s", key, args, show(c), show(want))
	}
	fs.VisitAll(func(f *flag.Flag) {
		if !strings.HasPrefix(f.Name, prefix) || f.Usage == "" {
			t.Fail("flag %q with usage %q", f.Name, f.Usage)
		}
	})
	t.Distinct(fmt.Sprint(key, args))
}

// c31Busy: the program itself profiles or traces already, so that what is
// asked of the platform as well cannot be had.
func c31Busy(t *T) {
	dir := t.TempDir()
	appCPU, appTrace := t.P(1, 3), t.P(2, 3)
	var cfg platform.Config
	if t.P(1, 3) || appCPU && t.Bool() {
		cfg.CPUProfileName = filepath.Join(dir, "cpu")
	}
	if t.Bool() {
		cfg.TraceFileName = filepath.Join(dir, "trace")
	}
	if t.Bool() {
		cfg.MemProfileName = filepath.Join(dir, "mem")
	}
	missing := t.P(1, 6)
	if missing {
		*[]*string{&cfg.CPUProfileName, &cfg.TraceFileName, &cfg.MemProfileName, &cfg.TelemetryLogFileName}[t.N(4)] = filepath.Join(dir, "none", "x")
	}
	desc := fmt.Sprintf("app cpu=%v trace=%v, asked cpu=%q trace=%q mem=%q telemetry=%q", appCPU, appTrace,
		filepath.Base(cfg.CPUProfileName), filepath.Base(cfg.TraceFileName), filepath.Base(cfg.MemProfileName), filepath.Base(cfg.TelemetryLogFileName))
	m := newTTYMon(t, 80, 20)
	drained(t, m)
	tio := m.termios()
	var cpuBuf, traceBuf bytes.Buffer
	stop := func() {
		if appCPU {
			pprof.StopCPUProfile()
		}
		if appTrace {
			trace.Stop()
		}
		appCPU, appTrace = false, false
	}
	t.Cleanup(func() { stop(); pprof.StopCPUProfile(); trace.Stop() })
	if appCPU {
		if err := pprof.StartCPUProfile(&cpuBuf); err != nil {
			t.Inconclusive("%v", err)
		}
	}
	if appTrace {
		if err := trace.Start(&traceBuf); err != nil {
			t.Inconclusive("%v", err)
		}
	}
	p, err := platform.New(m.in, m.out, cfg)
	if missing {
		if err == nil {
			t.Fail("%s: a file in a missing directory was asked for, New returns no error", desc)
		}
		if d := termiosDiff(m.termios(), tio); d != "" {
			t.Fail("%s: New failed with the terminal changed: %s", desc, d)
		}
		t.Distinct(desc)
		return
	}
	if err != nil {
		t.Fail("%s: New: %v", desc, err)
	}
	conflict := appCPU && cfg.CPUProfileName != "" || appTrace && cfg.TraceFileName != ""
	ended := errors.New("ended")
	n := 0
	cl := &HUDClient{update: func(*platform.Context) error { n++; return ended }}
	run := func() error {
		return p.RunWith(func(p *platform.Platform) error { return p.Run(cl) })
	}
	err = run()
	if conflict && (err == nil || err == ended || n > 0) {
		t.Fail("%s: ran %d frames and returned %v", desc, n, err)
	} else if !conflict && (err != ended || n != 1) {
		t.Fail("%s: nothing is in the way, ran %d frames and returned %v", desc, n, err)
	}
	if d := termiosDiff(m.termios(), tio); d != "" {
		t.Fail("%s: terminal settings not restored: %s", desc, d)
	}
	// what the program started still runs, and nothing else
	if err := pprof.StartCPUProfile(io.Discard); (err != nil) != appCPU {
		t.Fail("%s: after the run, starting a CPU profile: %v", desc, err)
	} else if err == nil {
		pprof.StopCPUProfile()
	}
	if trace.IsEnabled() != appTrace {
		t.Fail("%s: after the run, tracing is %v", desc, trace.IsEnabled())
	}
	hadCPU, hadTrace := appCPU, appTrace
	stop()
	if hadCPU {
		if _, _, err := readCPUProfile(cpuBuf.Bytes()); err != nil {
			t.Fail("%s: the program's own profile: %v", desc, err)
		}
	}
	if hadTrace {
		if _, err := readTrace(traceBuf.Bytes()); err != nil {
			t.Fail("%s: the program's own trace: %v", desc, err)
		}
	}
	if conflict { // now there is nothing in the way
		if err := run(); err != ended || n != 1 {
			t.Fail("%s: run again with nothing in the way, %d frames were run, returned %v", desc, n, err)
		}
	}
	for name, read := range map[string]func([]byte) error{
		cfg.CPUProfileName: func(b []byte) error { _, _, err := readCPUProfile(b); return err },
		cfg.TraceFileName:  func(b []byte) error { _, err := readTrace(b); return err },
		cfg.MemProfileName: func(b []byte) error {
			if !mallocsLine.Match(b) {
				return fmt.Errorf("%d bytes, no heap profile", len(b))
			}
			return nil
		},
	} {
		if name == "" {
			continue
		}
		b, err := os.ReadFile(name)
		if err == nil {
			err = read(b)
		}
		if err != nil {
			t.Fail("%s: %s: %v", desc, filepath.Base(name), err)
		}
		t.Count("files_checked", 1)
	}
	t.Distinct(desc)
}

// c31Full: there is no room for the files asked for (written files being
// limited in size), which is reported; once there is, all are complete again.
func c31Full(t *T) {
	dir := t.TempDir()
	var cfg platform.Config
	for cfg.CPUProfileName+cfg.TraceFileName+cfg.MemProfileName == "" {
		if t.Bool() {
			cfg.CPUProfileName = filepath.Join(dir, "cpu")
		}
		if t.Bool() {
			cfg.TraceFileName = filepath.Join(dir, "trace")
		}
		if t.Bool() {
			cfg.MemProfileName = filepath.Join(dir, "mem")
		}
	}
	m := newTTYMon(t, 80, 20)
	drained(t, m)
	tio := m.termios()
	t.Cleanup(func() { pprof.StopCPUProfile(); trace.Stop() })
	p, err := platform.New(m.in, m.out, cfg)
	desc := fmt.Sprintf("cpu=%q trace=%q mem=%q", filepath.Base(cfg.CPUProfileName), filepath.Base(cfg.TraceFileName), filepath.Base(cfg.MemProfileName))
	if err != nil {
		t.Fail("%s: New: %v", desc, err)
	}
	var lim syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		t.Inconclusive("%v", err)
	}
	room := func(n uint64) {
		l := lim
		if n > 0 {
			l.Cur = n - 1
		}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
			t.Inconclusive("%v", err)
		}
	}
	t.Cleanup(func() { room(0) })
	run := func(room1 func()) error {
		return p.RunWith(func(p *platform.Platform) error {
			n := 0
			err := p.Run(&HUDClient{update: func(*platform.Context) error {
				if n++; n == 2 {
					room1()
				} else if n > 2 {
					return errNextFrame
				}
				return nil
			}})
			if err == errNextFrame {
				err = nil
			}
			return err
		})
	}
	complete := func(when string) {
		for name, read := range map[string]func([]byte) error{
			cfg.CPUProfileName: func(b []byte) error { _, _, err := readCPUProfile(b); return err },
			cfg.TraceFileName:  func(b []byte) error { _, err := readTrace(b); return err },
			cfg.MemProfileName: func(b []byte) error {
				if !mallocsLine.Match(b) {
					return fmt.Errorf("%d bytes, no heap profile", len(b))
				}
				return nil
			},
		} {
			if name == "" {
				continue
			}
			b, err := os.ReadFile(name)
			if err == nil {
				err = read(b)
			}
			if err != nil {
				t.Fail("%s: %s: %s: %v", desc, when, filepath.Base(name), err)
			}
			t.Count("files_checked", 1)
		}
	}
	for k := t.R(2, 4); k > 0; k-- {
		if full := t.Bool() && k > 1; full {
			limit := uint64(1 + t.N(2)*t.N(100))
			desc += fmt.Sprintf(" full(%d)", limit-1)
			early := t.Bool()
			if early {
				room(limit)
			}
			err := run(func() { room(limit) })
			room(0)
			if err == nil {
				t.Fail("%s: there was no room for the files asked for, the run returned %v", desc, err)
			}
			t.Count("full_runs", 1)
		} else {
			desc += " run"
			if err := run(func() {}); err != nil {
				t.Fail("%s: returned %v", desc, err)
			}
			complete("with room")
		}
		if d := termiosDiff(m.termios(), tio); d != "" {
			t.Fail("%s: terminal settings not restored: %s", desc, d)
		}
		if err := pprof.StartCPUProfile(io.Discard); err != nil {
			t.Fail("%s: after the run, starting a CPU profile: %v", desc, err)
		}
		pprof.StopCPUProfile()
		if trace.IsEnabled() {
			t.Fail("%s: after the run, still tracing", desc)
		}
	}
	t.Distinct(desc)
}
