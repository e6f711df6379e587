// vmon drives the real jcorbin/anansi code under generated workloads, with
// monitors that decide the properties of /verif/properties.jsonl.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Sub is one workload of a property: N cases, each with its own oracle.
type Sub struct {
	Name     string
	Quick    int
	Thorough int
	Run      func(t *T)
	Wall     time.Duration // watchdog override for cases that legitimately take long
	Serial   bool          // cases may not run in parallel with others
}

// Prop is everything that decides one property.
type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Subs        []Sub
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

// T is one running case.
type T struct {
	*Rng
	Idx      int
	Sub      string
	Thorough bool
	run      *runner
	trace    []string
	events   map[string]int
	cleanups []func()
	large    bool // sizes are to be large
}

type failure struct {
	key, msg string
}

// Logf appends to the case's trace, which is printed into the replay file.
func (t *T) Logf(f string, a ...interface{}) {
	if len(t.trace) < 4000 {
		t.trace = append(t.trace, fmt.Sprintf(f, a...))
	}
}

// Fail ends the case with a violation.
func (t *T) Fail(f string, a ...interface{}) { panic(failure{"", fmt.Sprintf(f, a...)}) }

// FailKey ends the case with a violation that may be listed as known under key.
func (t *T) FailKey(key, f string, a ...interface{}) { panic(failure{key, fmt.Sprintf(f, a...)}) }

// Distinct registers the case (or a state it reached) as non-trivial.
func (t *T) Distinct(key string) { t.run.distinct(hash64(t.Sub, key)) }

// Count adds to an observed-event counter reported in evidence.
func (t *T) Count(name string, n int) { t.events[name] += n }

// Sample offers a written-out case for the evidence.
func (t *T) Sample(f string, a ...interface{}) {
	if t.Idx < 400 && t.Idx%97 == 3 || t.Idx == 0 {
		t.run.sample(fmt.Sprintf("%s#%d: ", t.Sub, t.Idx) + fmt.Sprintf(f, a...))
	}
}

// Cleanup runs f when the case ends, however it ends.
func (t *T) Cleanup(f func()) { t.cleanups = append(t.cleanups, f) }

// TempDir is a scratch directory removed when the case ends.
func (t *T) TempDir() string {
	d, err := os.MkdirTemp(t.run.scratch, "case")
	if err != nil {
		t.Inconclusive("scratch dir: %v", err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	return d
}

type inconclusive string

// Inconclusive abandons the case because the environment did not provide what it needs.
func (t *T) Inconclusive(f string, a ...interface{}) { panic(inconclusive(fmt.Sprintf(f, a...))) }

type violation struct {
	Property string   `json:"property"`
	Sub      string   `json:"sub"`
	Idx      int      `json:"idx"`
	Seed     int64    `json:"seed"`
	Thorough bool     `json:"thorough"`
	Key      string   `json:"key,omitempty"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
	Stack    string   `json:"stack,omitempty"`
}

type result struct {
	Evals        int            `json:"evals"`
	Distinct     int            `json:"distinct"`
	Samples      []string       `json:"samples"`
	Events       map[string]int `json:"events"`
	SubCases     map[string]int `json:"sub_cases"`
	Violations   []violation    `json:"violations"`
	Inconclusive []string       `json:"inconclusive"`
}

type runner struct {
	prop     *Prop
	seed     int64
	thorough bool
	scratch  string
	out      string
	journal  *os.File

	mu    sync.Mutex
	dist  map[uint64]struct{}
	res   result
	stopd int32
	slots []slot
}

type slot struct {
	mu    sync.Mutex
	sub   *Sub
	idx   int
	since time.Time
	cpu   time.Duration
	t     *T
}

func (r *runner) distinct(h uint64) {
	r.mu.Lock()
	if len(r.dist) < 4000000 {
		r.dist[h] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *runner) sample(s string) {
	r.mu.Lock()
	if len(r.res.Samples) < 40 {
		if len(s) > 600 {
			s = strings.ToValidUTF8(s[:600], "") + "..."
		}
		r.res.Samples = append(r.res.Samples, s)
	}
	r.mu.Unlock()
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	hangCPU   = 25 * time.Second // of process CPU burnt during a case that needs milliseconds
	hangWall  = 90 * time.Second // blocked without progress
	heapLimit = 6 << 30
	maxViols  = 6
)

func (r *runner) watchdog() {
	samples := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for range time.Tick(100 * time.Millisecond) {
		metrics.Read(samples)
		heap := samples[0].Value.Uint64()
		for i := range r.slots {
			s := &r.slots[i]
			s.mu.Lock()
			if s.sub == nil {
				s.mu.Unlock()
				continue
			}
			wall, cpu := time.Since(s.since), cpuTime()-s.cpu
			lim := hangWall
			cpuLim := hangCPU * time.Duration(len(r.slots))
			if s.sub.Wall > 0 {
				lim = s.sub.Wall
				cpuLim = s.sub.Wall * time.Duration(len(r.slots))
			}
			why := ""
			switch {
			case heap > heapLimit && wall > time.Second:
				why = fmt.Sprintf("memory use exploded to %d MB during a small case", heap>>20)
			case cpu > cpuLim && wall > cpuLim/time.Duration(len(r.slots)):
				why = fmt.Sprintf("no progress: case still running after %v of CPU time", cpu.Round(time.Second))
			case wall > lim:
				why = fmt.Sprintf("no progress: case blocked for %v", wall.Round(time.Second))
			}
			if why != "" {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				r.mu.Lock()
				v := violation{Property: r.prop.ID, Sub: s.sub.Name, Idx: s.idx, Seed: r.seed, Thorough: r.thorough, Message: why, Stack: string(buf)}
				r.res.Violations = append(r.res.Violations, v)
				r.finishLocked()
				os.Exit(0)
			}
			s.mu.Unlock()
		}
	}
}

func (r *runner) finishLocked() {
	r.res.Distinct = len(r.dist)
	b, err := json.Marshal(&r.res)
	if err == nil {
		err = os.WriteFile(r.out, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "result:", err)
		os.Exit(3)
	}
}

func (r *runner) runCase(s *slot, slotNo int, sub *Sub, idx int) {
	t := &T{
		Rng: &Rng{hash64(r.prop.ID, sub.Name, fmt.Sprint(r.seed), fmt.Sprint(idx))},
		Idx: idx, Sub: sub.Name, Thorough: r.thorough, run: r, events: map[string]int{},
	}
	s.mu.Lock()
	s.sub, s.idx, s.since, s.cpu, s.t = sub, idx, time.Now(), cpuTime(), t
	s.mu.Unlock()
	if r.journal != nil {
		line := fmt.Sprintf("%-40s %10d\n", sub.Name, idx)
		_, _ = r.journal.WriteAt([]byte(line), int64(slotNo*52))
	}
	defer func() {
		e := recover()
		var stack string
		if e != nil {
			stack = string(debug.Stack())
		}
		for i := len(t.cleanups) - 1; i >= 0; i-- {
			t.cleanups[i]()
		}
		s.mu.Lock()
		s.sub = nil
		s.mu.Unlock()
		r.mu.Lock()
		defer r.mu.Unlock()
		r.res.Evals++
		r.res.SubCases[sub.Name]++
		for k, n := range t.events {
			r.res.Events[k] += n
		}
		if e == nil {
			return
		}
		v := violation{Property: r.prop.ID, Sub: sub.Name, Idx: idx, Seed: r.seed, Thorough: r.thorough, Trace: t.trace}
		switch x := e.(type) {
		case inconclusive:
			r.res.Inconclusive = append(r.res.Inconclusive, fmt.Sprintf("%s#%d: %s", sub.Name, idx, string(x)))
			return
		case failure:
			v.Key, v.Message = x.key, x.msg
		default:
			v.Message = fmt.Sprintf("panic: %v", e)
			v.Stack = stack
		}
		r.res.Violations = append(r.res.Violations, v)
		n := 0
		for _, w := range r.res.Violations {
			if !isKnown(w) {
				n++
			}
		}
		if n >= maxViols {
			atomic.StoreInt32(&r.stopd, 1)
		}
	}()
	sub.Run(t)
}

func (r *runner) runAll(only string, onlyIdx int) {
	go r.watchdog()
	for i := range r.prop.Subs {
		sub := &r.prop.Subs[i]
		if only != "" && only != sub.Name {
			continue
		}
		n := sub.Quick
		if r.thorough {
			n = sub.Thorough
		}
		if only != "" && onlyIdx >= 0 {
			r.runCase(&r.slots[0], 0, sub, onlyIdx)
			continue
		}
		workers := len(r.slots)
		if sub.Serial {
			workers = 1
		}
		var next int64 = -1
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for atomic.LoadInt32(&r.stopd) == 0 {
					i := int(atomic.AddInt64(&next, 1))
					if i >= n {
						return
					}
					r.runCase(&r.slots[w], w, sub, i)
				}
			}(w)
		}
		wg.Wait()
	}
}

// known findings -------------------------------------------------------------

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

var knownList []knownFinding

func loadKnown(path string) {
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var k knownFinding
		if json.Unmarshal(sc.Bytes(), &k) == nil && k.Status == "known" {
			knownList = append(knownList, k)
		}
	}
}

func isKnown(v violation) bool {
	for _, k := range knownList {
		if k.Property == v.Property && k.Key != "" && k.Key == v.Key {
			return true
		}
	}
	return false
}

// main -----------------------------------------------------------------------

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-helper" {
		helperMain(os.Args[2:])
		return
	}
	var (
		prop     = flag.String("prop", "", "property id")
		tier     = flag.String("tier", "quick", "quick or thorough")
		seed     = flag.Int64("seed", 1, "seed")
		child    = flag.String("child", "", "internal: result file")
		journal  = flag.String("journal", "", "internal: journal file")
		root     = flag.String("root", "/verif", "where evidence, replays and known findings live")
		sub      = flag.String("sub", "", "only this workload")
		idx      = flag.Int("idx", -1, "only this case")
		replay   = flag.String("replay", "", "re-run the case of a replay file")
		workers  = flag.Int("workers", 0, "parallel cases")
		list     = flag.Bool("list", false, "list properties")
		scratch  = flag.String("scratch", "", "scratch directory")
		raceLogs = flag.Bool("race", false, "binary was built with the race detector: count its reports")
		evOut    = flag.String("evidence", "", "evidence file (default root/evidence/ID.json)")
	)
	flag.Parse()
	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var v violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		*prop, *sub, *idx, *seed = v.Property, v.Sub, v.Idx, v.Seed
		if v.Thorough {
			*tier = "thorough"
		}
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "no such property %q\n", *prop)
		os.Exit(3)
	}
	loadKnown(filepath.Join(*root, "known_findings.jsonl"))
	if *scratch == "" {
		d, err := os.MkdirTemp("", "vmon")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		*scratch = d
		if *child == "" {
			defer os.RemoveAll(d)
		}
	}
	if *workers == 0 {
		*workers = runtime.GOMAXPROCS(0)
		if *workers > 8 {
			*workers = 8
		}
	}

	if *child != "" {
		r := &runner{prop: p, seed: *seed, thorough: *tier == "thorough", scratch: *scratch, out: *child,
			dist: map[uint64]struct{}{}, slots: make([]slot, *workers)}
		r.res.Events, r.res.SubCases = map[string]int{}, map[string]int{}
		if *journal != "" {
			r.journal, _ = os.Create(*journal)
		}
		r.runAll(*sub, *idx)
		r.mu.Lock()
		r.finishLocked()
		os.Exit(0)
	}

	start := time.Now()
	resFile := filepath.Join(*scratch, "result.json")
	jrnFile := filepath.Join(*scratch, "journal")
	args := []string{"-prop", p.ID, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-child", resFile, "-journal", jrnFile,
		"-root", *root, "-scratch", *scratch, "-workers", fmt.Sprint(*workers)}
	if *sub != "" {
		args = append(args, "-sub", *sub, "-idx", fmt.Sprint(*idx))
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, args...)
	var errBuf, outBuf bytes.Buffer
	cmd.Stderr = &capWriter{buf: &errBuf, max: 4 << 20}
	cmd.Stdout = &capWriter{buf: &outBuf, max: 1 << 20}
	cmd.Env = os.Environ()
	raceLog := filepath.Join(*scratch, "race")
	if *raceLogs {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+raceLog)
	}
	runErr := cmd.Run()
	var res result
	b, err := os.ReadFile(resFile)
	if err == nil {
		err = json.Unmarshal(b, &res)
	}
	if err != nil || runErr != nil {
		// the monitored process died: the code under test crashed it (a panic on
		// one of its own goroutines, a fatal runtime error, an exit).
		jr, _ := os.ReadFile(jrnFile)
		msg := errBuf.String()
		if !strings.Contains(msg, "panic") && !strings.Contains(msg, "fatal error") && runErr != nil && strings.Contains(runErr.Error(), "killed") {
			fmt.Fprintf(os.Stderr, "inconclusive: monitored process was killed: %v\n%s\n", runErr, msg)
			os.Exit(3)
		}
		v := violation{Property: p.ID, Seed: *seed, Thorough: *tier == "thorough",
			Message: fmt.Sprintf("monitored process died: %v", runErr), Stack: tail(msg, 20000), Trace: strings.Split(string(jr), "\n")}
		if f := strings.Fields(string(jr)); len(f) >= 2 {
			v.Sub = f[0]
			fmt.Sscan(f[1], &v.Idx)
		}
		res.Violations = append(res.Violations, v)
	}
	if *raceLogs {
		logs, _ := filepath.Glob(raceLog + ".*")
		seen := map[string]bool{}
		blocks := 0
		for _, l := range logs {
			b, _ := os.ReadFile(l)
			for _, blk := range strings.Split(string(b), "==================") {
				if !strings.Contains(blk, "WARNING: DATA RACE") {
					continue
				}
				blocks++
				k := raceKey(blk)
				if seen[k] {
					continue
				}
				seen[k] = true
				res.Violations = append(res.Violations, violation{Property: p.ID, Sub: *sub, Idx: -1, Seed: *seed, Thorough: *tier == "thorough",
					Key: "race:" + k, Message: "data race: " + k, Stack: blk})
			}
		}
		if res.Events == nil {
			res.Events = map[string]int{}
		}
		res.Events["race_reports"] = blocks
	}

	// verdict
	nviol := 0
	knownSeen := map[string]bool{}
	repDir := filepath.Join(*root, "replays", p.ID)
	_ = os.RemoveAll(repDir)
	for _, v := range res.Violations {
		if isKnown(v) {
			if !knownSeen[v.Key] {
				knownSeen[v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, v.Key, firstLine(v.Message))
			}
			continue
		}
		nviol++
		_ = os.MkdirAll(repDir, 0755)
		path := filepath.Join(repDir, fmt.Sprintf("%03d.json", nviol))
		b, _ := json.MarshalIndent(v, "", " ")
		_ = os.WriteFile(path, b, 0644)
		if nviol <= 20 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			fmt.Printf("  %s#%d: %s\n", v.Sub, v.Idx, tail(v.Message, 1500))
		}
	}
	for _, s := range res.Inconclusive {
		fmt.Printf("inconclusive: %s\n", s)
	}
	cov := map[string]interface{}{
		"evaluations": res.Evals, "distinct_nontrivial": res.Distinct, "rule": p.Rule,
		"samples": res.Samples, "observed": res.Events, "cases_per_workload": res.SubCases,
		"inconclusive_cases": len(res.Inconclusive),
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *tier, "seed": *seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	if *evOut == "" {
		*evOut = filepath.Join(*root, "evidence", p.ID+".json")
	}
	if *sub == "" {
		_ = os.MkdirAll(filepath.Dir(*evOut), 0755)
		if err := os.WriteFile(*evOut, append(eb, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %d inconclusive, %.1fs\n",
		p.ID, *tier, *seed, res.Evals, res.Distinct, nviol, len(res.Inconclusive), time.Since(start).Seconds())
	os.RemoveAll(*scratch)
	if nviol > 0 {
		os.Exit(1)
	}
	if res.Evals == 0 || res.Distinct == 0 || len(res.Inconclusive) > res.Evals/10 {
		fmt.Fprintln(os.Stderr, "inconclusive: too little was observed")
		os.Exit(3)
	}
}

// raceKey names a race report by the code-under-test functions involved.
func raceKey(blk string) string {
	var fns []string
	for _, l := range strings.Split(blk, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "anansi") && strings.HasSuffix(l, "()") && len(fns) < 6 {
			fns = append(fns, strings.TrimSuffix(l[strings.LastIndex(l, "/")+1:], "()"))
		}
	}
	if len(fns) > 4 {
		fns = fns[:4]
	}
	return strings.Join(fns, "<")
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "..."
	}
	return s
}

type capWriter struct {
	buf *bytes.Buffer
	max int
}

func (c *capWriter) Write(p []byte) (int, error) {
	if c.buf.Len() < c.max {
		c.buf.Write(p)
	}
	return len(p), nil
}

func helperMain(args []string) {
	if len(args) == 0 {
		os.Exit(3)
	}
	if f := helpers[args[0]]; f != nil {
		f(args[1:])
		return
	}
	os.Exit(3)
}

// helpers are sub-process entry points used by workloads that need a process of their own.
var helpers = map[string]func(args []string){}
