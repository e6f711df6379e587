package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jcorbin/anansi/x/platform"
)

func init() {
	register(&Prop{
		ID:   "C24",
		Rule: "log sinks driven through random histories of writes (every split relative to line breaks, through empty, partial, multi-line), reads, starts, stops, notifications and file switches against a text model; many concurrent writers, readers, flushers and a file switcher under the race detector with record-level accounting afterwards; sinks over failing files and blocked pipes; non-trivial by operations and observed interleaving",
		Assumptions: []string{
			"a log file accepts writes, except in the failing-file workload, where only absence of hangs, error reporting and the in-memory copy are judged",
			"the package's own 'logging to' messages are not counted: the sinks under test are not the standard logger's",
		},
		Subs: []Sub{
			{Name: "history", Quick: 6000, Thorough: 250000, Run: c24History},
			{Name: "large-history", Quick: 120, Thorough: 5000, Run: large(c24History)},
			{Name: "concurrent", Quick: 400, Thorough: 12000, Run: c24Concurrent},
			{Name: "stop-race", Quick: 1500, Thorough: 40000, Run: c24StopRace},
			{Name: "failing", Quick: 200, Thorough: 4000, Run: c24Failing},
		},
	})
}

// lineIndex checks that the sink's contents are want and that its index finds exactly the lines.
func c24CheckContents(t *T, s *platform.LogSink, want string) {
	b, eols := s.Contents()
	if string(b) != want {
		t.Fail("contents are %q, expected %q", clip(string(b)), clip(want))
	}
	if msg := badIndex(b, eols); msg != "" {
		t.Fail("%s; contents %q index %v", msg, clip(want), eols)
	}
	t.Count("lines_checked", len(eols))
}

func badIndex(b []byte, eols []int) string {
	var want []string
	if len(b) > 0 {
		want = strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	}
	if len(eols) != len(want) {
		return fmt.Sprintf("index has %d lines, contents have %d", len(eols), len(want))
	}
	off := 0
	for i, eol := range eols {
		if eol < off || eol > len(b) {
			return fmt.Sprintf("line %d ends at %d, which is outside of %d..%d", i, eol, off, len(b))
		}
		if got := string(b[off:eol]); got != want[i] {
			return fmt.Sprintf("line %d is %q by the index, and %q by its line breaks", i, clip(got), clip(want[i]))
		}
		off = eol + 1
	}
	return ""
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:140] + "…" + s[len(s)-140:]
	}
	return s
}

type c24File struct {
	path string
	want string
}

func (f *c24File) read(t *T) string {
	b, err := os.ReadFile(f.path)
	if err != nil {
		t.Inconclusive("read: %v", err)
	}
	return string(b)
}

func c24Chunk(t *T) string {
	if t.large && t.P(1, 3) {
		var sb strings.Builder
		for n := 1 << uint(t.R(8, 17)); sb.Len() < n; {
			fmt.Fprintf(&sb, "%d\n%s", sb.Len(), strings.Repeat("\n", t.N(3)))
			if t.P(1, 9) {
				sb.WriteString(strings.Repeat("long ", t.N(2000)))
			}
		}
		return sb.String()[:sb.Len()-t.N(2)]
	}
	switch t.N(8) {
	case 0:
		return "\n"
	case 1:
		return strings.Repeat("\n", 1+t.N(4))
	case 2:
		return fmt.Sprintf("part%d", t.N(100))
	case 3:
		return fmt.Sprintf("line%d\n", t.N(100))
	case 4:
		return fmt.Sprintf("a%d\nb%d", t.N(10), t.N(10))
	case 5:
		return fmt.Sprintf("\nx%d\n\ny\n", t.N(10))
	case 6:
		return strings.Repeat("wide ", t.N(200)) + []string{"", "\n"}[t.N(2)]
	}
	return "∂é\x00\r"[:1+t.N(6)]
}

func c24History(t *T) {
	dir := t.TempDir()
	s := &platform.LogSink{}
	mem := ""
	var files []*c24File
	var cur *c24File
	running := false
	t.Cleanup(func() { _ = s.SetFile(nil); _ = s.Stop() })
	reads := t.P(1, 3)
	var ops []string
	n := 3 + t.N(40)
	for i := 0; i < n; i++ {
		op := t.N(14)
		switch {
		case op < 6:
			c := c24Chunk(t)
			ops = append(ops, "w")
			t.Logf("write %q", c)
			p := []byte(c)
			m, err := s.Write(p)
			if m != len(c) || err != nil {
				t.Fail("write of %d bytes returned %d, %v", len(c), m, err)
			}
			for j := range p {
				p[j] = '#' // the sink may not hold on to the caller's bytes
			}
			mem += c
			if cur != nil {
				cur.want += c
			}
			t.Count("writes", 1)
		case op == 6 && reads:
			p := make([]byte, t.N(60))
			if t.large {
				p = make([]byte, t.N(20000))
			}
			m, err := s.Read(p)
			ops = append(ops, "r")
			t.Logf("read %d -> %d %v", len(p), m, err)
			if len(p) > 0 && (m == 0) != (err != nil) || m > len(mem) || string(p[:m]) != mem[:m] {
				t.Fail("read returned %q, %v with %q held", p[:m], err, clip(mem))
			}
			if len(mem) > 0 && err != nil || err != nil && err != io.EOF {
				t.Fail("read returned error %v with %d bytes held", err, len(mem))
			}
			if len(p) > 0 && len(mem) > 0 && m == 0 {
				t.Fail("read returned nothing with %d bytes held", len(mem))
			}
			mem = mem[m:]
		case op == 7:
			t.Logf("start")
			ops = append(ops, "S")
			if err := s.Start(); err != nil {
				t.Fail("start: %v", err)
			}
			running = cur != nil
		case op == 8:
			t.Logf("stop")
			ops = append(ops, "T")
			within(t, 20*time.Second, "stop", func() {
				if err := s.Stop(); err != nil {
					t.Fail("stop: %v", err)
				}
			})
			running = false
			if cur != nil && cur.read(t) != cur.want {
				t.Fail("after stopping, the file has %q, expected %q", clip(cur.read(t)), clip(cur.want))
			}
		case op == 9:
			t.Logf("notify")
			ops = append(ops, "N")
			if err := s.Notify(); err != nil {
				t.Fail("notify: %v", err)
			}
			if running && t.Bool() { // eventually written without anything more happening
				deadline := time.Now().Add(20 * time.Second)
				for cur.read(t) != cur.want {
					if time.Now().After(deadline) {
						t.Fail("20 s after a notification, the file has %q, expected %q", clip(cur.read(t)), clip(cur.want))
					}
					time.Sleep(50 * time.Microsecond)
				}
				t.Count("flushes_awaited", 1)
			}
		case op == 10:
			f, err := os.Create(filepath.Join(dir, fmt.Sprintf("f%d", len(files))))
			if err != nil {
				t.Inconclusive("create: %v", err)
			}
			t.Logf("file %d", len(files))
			ops = append(ops, "F")
			within(t, 20*time.Second, "SetFile", func() {
				if err := s.SetFile(f); err != nil {
					t.Fail("set file: %v", err)
				}
			})
			prior := cur
			cur = &c24File{path: f.Name()}
			files = append(files, cur)
			running = true
			if prior != nil && prior.read(t) != prior.want {
				t.Fail("the prior file was left with %q, expected %q", clip(prior.read(t)), clip(prior.want))
			}
			t.Count("files", 1)
		case op == 11:
			t.Logf("no file")
			ops = append(ops, "0")
			within(t, 20*time.Second, "SetFile", func() {
				if err := s.SetFile(nil); err != nil {
					t.Fail("set no file: %v", err)
				}
			})
			if cur != nil && cur.read(t) != cur.want {
				t.Fail("the file was left with %q, expected %q", clip(cur.read(t)), clip(cur.want))
			}
			cur, running = nil, false
		default:
			c24CheckContents(t, s, mem)
		}
		for _, f := range files {
			got := f.read(t)
			if f != cur && got != f.want {
				t.Fail("a file no longer in use has %q, expected %q", clip(got), clip(f.want))
			}
			if !strings.HasPrefix(f.want, got) {
				t.Fail("the file has %q, which is not how %q starts", clip(got), clip(f.want))
			}
			if f == cur && !running && got != f.want {
				t.Fail("written while not deferring, but the file has %q, expected %q", clip(got), clip(f.want))
			}
		}
	}
	c24CheckContents(t, s, mem)
	within(t, 20*time.Second, "final SetFile(nil)", func() {
		if err := s.SetFile(nil); err != nil {
			t.Fail("set no file: %v", err)
		}
	})
	for i, f := range files {
		if got := f.read(t); got != f.want {
			t.Fail("file %d ends with %q, expected %q", i, clip(got), clip(f.want))
		}
	}
	t.Distinct(strings.Join(ops, ""))
	t.Sample("%s -> %d files", strings.Join(ops, ""), len(files))
}

type yielder struct {
	r *Rng
}

func (y yielder) yield() {
	switch y.r.N(6) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(y.r.N(80)) * time.Microsecond)
	}
}

func c24Concurrent(t *T) {
	dir := t.TempDir()
	s := &platform.LogSink{}
	writers, per := 2+t.N(5), 5+t.N(40)
	always := t.P(2, 3)  // there is always a file
	reading := t.P(1, 2) // one reader consumes while others look
	switching := t.P(2, 3)
	stopping := t.P(1, 2)
	var paths []string
	newFile := func() *os.File {
		f, err := os.Create(filepath.Join(dir, fmt.Sprintf("f%d", len(paths))))
		if err != nil {
			t.Inconclusive("create: %v", err)
		}
		paths = append(paths, f.Name())
		return f
	}
	if err := s.SetFile(newFile()); err != nil {
		t.Fail("set file: %v", err)
	}
	var done int32
	var ww, ow sync.WaitGroup
	var mu sync.Mutex
	var fails []string
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		fails = append(fails, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	rec := func(w, i int) string {
		r := fmt.Sprintf("<%d.%d>%s", w, i, strings.Repeat(string(rune('a'+w)), (w*7+i*13)%90))
		switch (w + i) % 5 {
		case 0:
			return r + "\n=" + r + "\n"
		case 1:
			return r
		}
		return r + "\n"
	}
	for w := 0; w < writers; w++ {
		ww.Add(1)
		y := yielder{&Rng{t.U64()}}
		go func(w int) {
			defer ww.Done()
			for i := 0; i < per; i++ {
				p := []byte(rec(w, i))
				if n, err := s.Write(p); n != len(p) || err != nil {
					fail("write of %d bytes returned %d, %v", len(p), n, err)
				}
				for j := range p {
					p[j] = '#'
				}
				y.yield()
			}
		}(w)
	}
	background := func(f func(y yielder)) {
		y := yielder{&Rng{t.U64()}}
		ow.Add(1)
		go func() {
			defer ow.Done()
			for atomic.LoadInt32(&done) == 0 {
				f(y)
				y.yield()
			}
		}()
	}
	looks, sizes := 0, map[int]bool{}
	background(func(y yielder) { // looker
		b, eols := s.Contents()
		looks++
		sizes[len(b)] = true
		if msg := badIndex(b, eols); msg != "" {
			fail("seen while writing: %s", msg)
		}
		if !reading {
			if n := len(b); n > 0 && y.r.Bool() {
				b[y.r.N(n)] = '!' // the caller's own copy
			}
		}
		if i := bytes.IndexByte(b, '#'); i >= 0 {
			fail("contents hold bytes of a writer's buffer changed after its write")
		}
	})
	background(func(y yielder) {
		if err := s.Notify(); err != nil {
			fail("notify: %v", err)
		}
	})
	var taken []byte
	if reading {
		background(func(y yielder) {
			p := make([]byte, 1+y.r.N(50))
			n, err := s.Read(p)
			taken = append(taken, p[:n]...)
			if err != nil && err != io.EOF {
				fail("read: %v", err)
			}
		})
	}
	switches := 0
	background(func(y yielder) {
		switch k := y.r.N(4); {
		case k == 0 && switching && len(paths) < 40:
			if !always && y.r.Bool() {
				if err := s.SetFile(nil); err != nil {
					fail("set no file: %v", err)
				}
			}
			if err := s.SetFile(newFile()); err != nil {
				fail("set file: %v", err)
			}
			switches++
		case k == 1 && stopping:
			if err := s.Stop(); err != nil {
				fail("stop: %v", err)
			}
			y.yield()
			if err := s.Start(); err != nil {
				fail("start: %v", err)
			}
			switches++
		}
	})
	within(t, 60*time.Second, "concurrent session", func() {
		ww.Wait()
		atomic.StoreInt32(&done, 1)
		ow.Wait()
		if t.Bool() {
			if err := s.SetFile(nil); err != nil {
				fail("set no file: %v", err)
			}
		} else if err := s.Stop(); err != nil {
			fail("stop: %v", err)
		}
	})
	if len(fails) > 0 {
		t.Fail("%s", fails[0])
	}
	b, _ := s.Contents()
	mem := string(taken) + string(b)
	var inFiles string
	for _, p := range paths {
		fb, err := os.ReadFile(p)
		if err != nil {
			t.Inconclusive("read: %v", err)
		}
		inFiles += string(fb)
	}
	// every record exactly once and whole, in its writer's order
	order := c24Parse(t, "memory", mem, writers, per, rec, true)
	if always {
		if inFiles != mem {
			c24Parse(t, "files", inFiles, writers, per, rec, true)
			t.Fail("the log files hold the records in an other order than memory does")
		}
	} else {
		forder := c24Parse(t, "files", inFiles, writers, per, rec, false)
		j := 0
		for _, o := range forder {
			for j < len(order) && order[j] != o {
				j++
			}
			if j == len(order) {
				t.Fail("the log files hold the records in an other order than memory does")
			}
			j++
		}
	}
	t.Count("records", writers*per)
	t.Count("looks", looks)
	t.Count("distinct_sizes_seen", len(sizes))
	t.Count("switches", switches)
	h := make([]byte, len(order))
	for i, o := range order {
		h[i] = byte(o[0])
	}
	t.Distinct(fmt.Sprint(h, len(paths), reading, always))
	t.Sample("%d writers x %d records, %d files, %d switches, %d looks", writers, per, len(paths), switches, looks)
}

// c24Parse takes text apart into whole records.
func c24Parse(t *T, where, text string, writers, per int, rec func(w, i int) string, all bool) (order [][2]int) {
	next := make([]int, writers)
	for off := 0; off < len(text); {
		var w, i int
		if n, err := fmt.Sscanf(text[off:min(len(text), off+24)], "<%d.%d>", &w, &i); n != 2 || err != nil || w >= writers || i >= per || w < 0 || i < 0 {
			t.Fail("%s: no record at offset %d: %q", where, off, clip(text[off:]))
		}
		r := rec(w, i)
		if !strings.HasPrefix(text[off:], r) {
			t.Fail("%s: record %d.%d torn at offset %d: %q", where, w, i, off, clip(text[off:]))
		}
		if i < next[w] || all && i != next[w] {
			t.Fail("%s: record %d.%d found where %d.%d was due", where, w, i, w, next[w])
		}
		next[w] = i + 1
		order = append(order, [2]int{w, i})
		off += len(r)
	}
	if all {
		for w, n := range next {
			if n != per {
				t.Fail("%s: writer %d wrote %d records, %d are there", where, w, per, n)
			}
		}
	}
	return order
}

// stopping right behind a notification, with the flusher anywhere in its work
func c24StopRace(t *T) {
	f, err := os.Create(filepath.Join(t.TempDir(), "log"))
	if err != nil {
		t.Inconclusive("create: %v", err)
	}
	s := &platform.LogSink{}
	if err := s.SetFile(f); err != nil {
		t.Fail("set file: %v", err)
	}
	want := ""
	for i, n := 0, 1+t.N(6); i < n; i++ {
		for j := t.N(4); j >= 0; j-- {
			line := fmt.Sprintf("%d.%d%s\n", i, j, strings.Repeat("x", t.N(3000)))
			want += line
			_, _ = io.WriteString(s, line)
			if t.Bool() {
				if err := s.Notify(); err != nil {
					t.Fail("notify: %v", err)
				}
			}
			for k := t.N(40) * t.N(20); k > 0; k-- {
				runtime.Gosched()
			}
		}
		within(t, 20*time.Second, "stop", func() {
			if err := s.Stop(); err != nil {
				t.Fail("stop: %v", err)
			}
		})
		b, _ := os.ReadFile(f.Name())
		if string(b) != want {
			t.Fail("after stopping, the file has %q, expected %q", clip(string(b)), clip(want))
		}
		t.Count("stops", 1)
		if t.Bool() {
			_, _ = io.WriteString(s, "direct\n")
			want += "direct\n"
			if b, _ := os.ReadFile(f.Name()); string(b) != want {
				t.Fail("written directly, but the file has %q, expected %q", clip(string(b)), clip(want))
			}
		}
		if err := s.Start(); err != nil {
			t.Fail("start: %v", err)
		}
	}
	within(t, 20*time.Second, "SetFile", func() {
		if err := s.SetFile(nil); err != nil {
			t.Fail("set no file: %v", err)
		}
	})
	t.Distinct(fmt.Sprint(len(want)))
}

// files which fail, or take nothing for a while
func c24Failing(t *T) {
	dir := t.TempDir()
	s := &platform.LogSink{}
	mem := ""
	write := func(c string) {
		_, _ = io.WriteString(s, c)
		mem += c
	}
	write("before\n")
	if t.Bool() {
		// a read-only file
		p := filepath.Join(dir, "ro")
		if err := os.WriteFile(p, nil, 0644); err != nil {
			t.Inconclusive("%v", err)
		}
		f, err := os.Open(p)
		if err != nil {
			t.Inconclusive("%v", err)
		}
		if err := s.SetFile(f); err != nil {
			t.Fail("set file: %v", err)
		}
		var nerr error
		within(t, 30*time.Second, "notifying over a failing file", func() {
			for i, n := 0, t.N(4); nerr == nil && (i < n || n == 0); i++ {
				write(fmt.Sprintf("line %d\n", i))
				nerr = s.Notify()
				for k := t.N(300); k > 0; k-- {
					runtime.Gosched()
				}
			}
		})
		write("last\n")
		if t.Bool() {
			for i := t.N(5); i >= 0; i-- {
				write("more\n")
				_ = s.Notify()
			}
		}
		var serr error
		within(t, 30*time.Second, "stopping over a failing file", func() { serr = s.Stop() })
		if nerr == nil && serr == nil {
			t.Fail("neither notifying nor stopping reported that the file cannot be written")
		}
		for _, err := range []error{nerr, serr} {
			var pe *os.PathError
			if err != nil && !errors.As(err, &pe) {
				t.Fail("reported error is %#v, rather than that of the file", err)
			}
		}
		c24CheckContents(t, s, mem)
		if t.Bool() { // written directly now, failing, yet held
			for i := t.N(3); i >= 0; i-- {
				c := fmt.Sprintf("direct %d\n", i)
				mem += c
				if n, err := io.WriteString(s, c); err == nil || n < 0 || n > len(c) {
					t.Fail("writing directly to a file that cannot be written returned %v, %v", n, err)
				}
			}
			c24CheckContents(t, s, mem)
			t.Count("direct_failures", 1)
		}
		if t.Bool() { // can be restarted, and fails again
			if err := s.Start(); err != nil {
				t.Fail("start: %v", err)
			}
			within(t, 30*time.Second, "stopping over a failing file", func() { serr = s.Stop() })
			if serr == nil {
				t.Fail("stopping did not report that the file cannot be written")
			}
			t.Count("restarts", 1)
		}
		// and replaced by one that works
		g, err := os.Create(filepath.Join(dir, "good"))
		if err != nil {
			t.Inconclusive("%v", err)
		}
		within(t, 30*time.Second, "switching away from a failing file", func() { _ = s.SetFile(g) })
		c24CheckContents(t, s, mem)
		t.Count("failing_files", 1)
		t.Distinct(fmt.Sprint("ro", nerr != nil, serr != nil, len(mem)))
		within(t, 30*time.Second, "final SetFile", func() { _ = s.SetFile(nil) })
		return
	}
	// a pipe nobody reads from, for a while
	r, w, err := os.Pipe()
	if err != nil {
		t.Inconclusive("%v", err)
	}
	defer r.Close()
	if err := s.SetFile(w); err != nil {
		t.Fail("set file: %v", err)
	}
	want := ""
	for i := 0; i < 3; i++ {
		c := strings.Repeat(fmt.Sprintf("%d", i), 30000) + "\n"
		write(c)
		want += c
	}
	if err := s.Notify(); err != nil {
		t.Fail("notify: %v", err)
	}
	time.Sleep(time.Duration(t.N(3)) * time.Millisecond)
	got := make(chan string, 1)
	go func() {
		b, _ := io.ReadAll(r)
		got <- string(b)
	}()
	within(t, 30*time.Second, "stopping over a slow pipe", func() {
		if err := s.Stop(); err != nil {
			t.Fail("stop: %v", err)
		}
	})
	within(t, 30*time.Second, "SetFile", func() {
		if err := s.SetFile(nil); err != nil {
			t.Fail("set no file: %v", err)
		}
	})
	if g := <-got; g != want {
		t.Fail("the pipe was given %q, expected %q", clip(g), clip(want))
	}
	c24CheckContents(t, s, mem)
	t.Count("slow_pipes", 1)
	t.Distinct(fmt.Sprint("pipe", len(mem)))
}
