package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/jcorbin/anansi"
)

func init() {
	register(&Prop{
		ID:    "C17",
		Level: "fault_enumeration",
		Rule:  "random programs of nested runs and suspensions over recording contexts with planned failures and panics are executed by a real Term and by an independent interpreter of the documented rules; call logs, errors and panics are compared, and order and balance checked on the log itself; non-trivial by (contexts, program, failures)",
		Assumptions: []string{
			"contexts fail by returning errors (the functions run may also panic)",
		},
		Subs: []Sub{
			{Name: "programs", Quick: 120000, Thorough: 5000000, Run: c17Programs},
			{Name: "faults", Quick: 6000, Thorough: 300000, Run: c17Faults},
			{Name: "compose", Quick: 60000, Thorough: 3000000, Run: c17Compose},
		},
	})
}

// recCtx is a context that records its calls, and fails as planned.
type recCtx struct {
	name string
	log  *[]string
	fail func(call string) error // by "name.Method#n"
	n    map[string]int
	shut bool // has Close
}

func (c *recCtx) do(m string) error {
	c.n[m]++
	*c.log = append(*c.log, c.name+"."+m)
	return c.fail(fmt.Sprintf("%s.%s#%d", c.name, m, c.n[m]))
}
func (c *recCtx) Enter(*anansi.Term) error { return c.do("Enter") }
func (c *recCtx) Exit(*anansi.Term) error  { return c.do("Exit") }

type recCloseCtx struct{ recCtx }

func (c *recCloseCtx) Close() error { return c.do("Close") }

// action is one step of a program run under a terminal.
type action struct {
	kind string // with, without, add, err, panic, note
	sub  []*action
	what string
}

func (a *action) String() string {
	s := a.kind
	if len(a.sub) > 0 {
		var ss []string
		for _, b := range a.sub {
			ss = append(ss, b.String())
		}
		s += "(" + strings.Join(ss, " ") + ")"
	}
	return s
}

type sigPanic string

func genProgram(r *Rng, depth int) (as []*action) {
	for n := r.N(4); n > 0; n-- {
		a := &action{kind: r.Pick("with", "without", "without", "note", "note", "add")}
		if r.P(1, 9) {
			a.kind = r.Pick("err", "panic")
		}
		a.what = fmt.Sprintf("%s%d", a.kind, r.N(1000))
		if a.kind == "with" || a.kind == "without" {
			if depth <= 0 {
				a.kind = "note"
			} else {
				a.sub = genProgram(r, depth-1)
			}
		}
		as = append(as, a)
	}
	return as
}

// world is a set of contexts with a log.
type world struct {
	log   []string
	ctxs  []anansi.Context
	names []string
	shut  map[string]bool
	fails map[string]error
}

func newWorld(n int, shut func(i int) bool, fails map[string]error) *world {
	w := &world{shut: map[string]bool{}, fails: fails}
	for i := 0; i < n; i++ {
		rc := recCtx{name: fmt.Sprintf("c%d", i), log: &w.log, fail: func(call string) error { return w.fails[call] }, n: map[string]int{}}
		w.names = append(w.names, rc.name)
		if shut(i) {
			w.shut[rc.name] = true
			w.ctxs = append(w.ctxs, &recCloseCtx{rc})
		} else {
			w.ctxs = append(w.ctxs, &rc)
		}
	}
	return w
}

// runReal executes a program on a real terminal.
func runReal(term *anansi.Term, as []*action, w *world) error {
	for _, a := range as {
		switch a.kind {
		case "with", "without":
			f := func(term *anansi.Term) error { return runReal(term, a.sub, w) }
			var err error
			if a.kind == "with" {
				err = term.RunWith(f)
			} else {
				err = term.RunWithout(f)
			}
			if err != nil {
				w.log = append(w.log, "got "+err.Error())
				if !strings.HasSuffix(a.what, "7") { // some programs carry on
					return err
				}
			}
		case "add":
			func() {
				defer func() {
					if recover() == nil {
						w.log = append(w.log, "added")
					}
				}()
				term.AddContext(w.ctxs[0])
			}()
		case "err":
			return errors.New(a.what)
		case "panic":
			panic(sigPanic(a.what))
		default:
			w.log = append(w.log, a.what)
		}
	}
	return nil
}

// specTerm interprets the documented rules.
type specTerm struct {
	order         []string
	w             *world
	n             map[string]int
	log           []string
	active, under bool
}

func (s *specTerm) call(name, m string) error {
	s.n[name+m]++
	s.log = append(s.log, name+"."+m)
	return s.w.fails[fmt.Sprintf("%s.%s#%d", name, m, s.n[name+m])]
}
func (s *specTerm) enter() error {
	s.active = true
	for _, c := range s.order {
		if err := s.call(c, "Enter"); err != nil {
			return err
		}
	}
	return nil
}
func (s *specTerm) back(m string) (rerr error) {
	for i := len(s.order) - 1; i >= 0; i-- {
		if m == "Close" && !s.w.shut[s.order[i]] {
			continue
		}
		if err := s.call(s.order[i], m); rerr == nil {
			rerr = err
		}
	}
	return rerr
}
func (s *specTerm) exit() error {
	s.active = false
	return s.back("Exit")
}

// with and without return the error and panic they end in.
func (s *specTerm) with(as []*action) (err error, pan interface{}) {
	if s.active {
		return s.run(as)
	}
	outer := !s.under
	s.under = true
	if err = s.enter(); err == nil {
		err, pan = s.run(as)
	}
	if s.active {
		if xerr := s.exit(); err == nil {
			err = xerr
		}
	}
	if outer {
		if cerr := s.back("Close"); err == nil {
			err = cerr
		}
		s.under = false
	}
	return err, pan
}

func (s *specTerm) without(as []*action) (err error, pan interface{}) {
	if !s.active {
		return s.run(as)
	}
	if err = s.exit(); err != nil {
		return err, nil
	}
	if err, pan = s.run(as); err != nil || pan != nil {
		return err, pan
	}
	return s.enter(), nil
}

func (s *specTerm) run(as []*action) (error, interface{}) {
	for _, a := range as {
		switch a.kind {
		case "with", "without":
			f := s.without
			if a.kind == "with" {
				f = s.with
			}
			err, pan := f(a.sub)
			if pan != nil {
				return nil, pan
			}
			if err != nil {
				s.log = append(s.log, "got "+err.Error())
				if !strings.HasSuffix(a.what, "7") {
					return err, nil
				}
			}
		case "add":
			if !s.under {
				s.log = append(s.log, "added")
			}
		case "err":
			return errors.New(a.what), nil
		case "panic":
			return nil, sigPanic(a.what)
		default:
			s.log = append(s.log, a.what)
		}
	}
	return nil, nil
}

// checkBalance reads order and balance off the log alone.
func checkBalance(t *T, log, order []string, shut map[string]bool, failed bool) {
	in := map[string]bool{}
	pos := map[string]int{}
	for i, c := range order {
		pos[c] = i
	}
	lastEnter, lastBack := -1, -1
	for _, l := range log {
		c, m, ok := strings.Cut(l, ".")
		p, known := pos[c]
		if !ok || !known {
			lastEnter, lastBack = -1, -1
			continue
		}
		switch m {
		case "Enter":
			if in[c] {
				t.Fail("%s was entered while entered: %v", c, log)
			}
			in[c] = true
			if lastEnter >= 0 && p != lastEnter+1 {
				t.Fail("%s entered out of order: %v", c, log)
			}
			lastEnter, lastBack = p, -1
		case "Exit":
			if !in[c] && !failed {
				t.Fail("%s was exited without being entered: %v", c, log)
			}
			in[c] = false
			if lastBack >= 0 && p != lastBack-1 {
				t.Fail("%s exited out of order: %v", c, log)
			}
			lastBack, lastEnter = p, -1
		case "Close":
			if in[c] {
				t.Fail("%s was closed while entered: %v", c, log)
			}
			lastEnter, lastBack = -1, -1
		}
	}
	for c, is := range in {
		if is {
			t.Fail("%s is still entered at the end: %v", c, log)
		}
	}
	t.Count("calls", len(log))
}

func c17Run(t *T, w *world, order []string, term *anansi.Term, prog []*action, what string) {
	s := &specTerm{order: order, w: w, n: map[string]int{}}
	var err error
	var pan interface{}
	func() {
		defer func() {
			pan = recover()
			if _, mine := pan.(sigPanic); pan != nil && !mine {
				panic(pan)
			}
		}()
		err = term.RunWith(func(term *anansi.Term) error { return runReal(term, prog, w) })
	}()
	werr, wpan := s.with(prog)
	t.Logf("%s", what)
	t.Logf("log %v", w.log)
	if fmt.Sprint(w.log) != fmt.Sprint(s.log) {
		t.Fail("%s:\n  calls   %v\n  expected %v", what, w.log, s.log)
	}
	if pan != wpan {
		t.Fail("%s: panicked with %v, expected %v", what, pan, wpan)
	}
	if pan == nil && fmt.Sprint(err) != fmt.Sprint(werr) {
		t.Fail("%s: returned %v, expected %v", what, err, werr)
	}
	checkBalance(t, w.log, order, w.shut, len(w.fails) > 0)
	t.Count("runs", 1)
	if pan != nil {
		t.Count("panics", 1)
	}
	if err != nil {
		t.Count("errors", 1)
	}
}

// addAll attaches contexts to a terminal in randomly grouped calls.
func addAll(t *T, w *world) *anansi.Term {
	cs := w.ctxs
	k := t.N(len(cs) + 1)
	term := anansi.NewTerm(nil, nil, cs[:k]...)
	for cs = cs[k:]; len(cs) > 0; {
		k := 1 + t.N(len(cs))
		switch t.N(3) {
		case 0:
			term.AddContext(cs[:k]...)
		case 1:
			term.AddContext(anansi.Contexts(cs[:k]...))
		default:
			term.AddContext(nil, anansi.Contexts(cs[:k]...), nil)
		}
		cs = cs[k:]
	}
	return term
}

func c17Programs(t *T) {
	n := t.R(1, 4)
	prog := genProgram(t.Rng, 3)
	fails := map[string]error{}
	if t.Bool() {
		for k := t.N(4); k > 0; k-- {
			key := fmt.Sprintf("c%d.%s#%d", t.N(n), t.Pick("Enter", "Exit", "Close"), t.R(1, 3))
			fails[key] = errors.New("fail " + key)
		}
	}
	w := newWorld(n, func(int) bool { return t.Bool() }, fails)
	term := addAll(t, w)
	what := fmt.Sprintf("%d contexts, %v, failing %v", n, prog, keysOf(fails))
	c17Run(t, w, w.names, term, prog, what)
	if t.P(1, 3) {
		// a terminal can be run again
		w.log = w.log[:0]
		w.fails = nil
		c17Run(t, w, w.names, term, genProgram(t.Rng, 2), what+" again")
	}
	t.Sample("%s", what)
	t.Distinct(what)
}

func keysOf(m map[string]error) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

// c17Faults fails, in turn, each single call made by a program.
func c17Faults(t *T) {
	n := t.R(1, 4)
	prog := genProgram(t.Rng, 3)
	mask := t.N(1 << n)
	shut := func(i int) bool { return mask>>i&1 != 0 }
	probe := newWorld(n, shut, nil)
	s := &specTerm{order: probe.names, w: probe, n: map[string]int{}}
	s.with(prog)
	counts := map[string]int{}
	var calls []string
	for _, l := range s.log {
		if strings.HasPrefix(l, "c") && strings.Contains(l, ".") {
			counts[l]++
			calls = append(calls, fmt.Sprintf("%s#%d", l, counts[l]))
		}
	}
	for _, c := range calls {
		w := newWorld(n, shut, map[string]error{c: errors.New("fail " + c)})
		term := addAll(t, w)
		c17Run(t, w, w.names, term, prog, fmt.Sprintf("%d contexts, %v, failing %s", n, prog, c))
		t.Distinct(fmt.Sprint(n, mask, prog, c))
	}
	t.Count("single_faults", len(calls))
}

// c17Compose builds compositions from shared parts, and checks all of them.
func c17Compose(t *T) {
	n := t.R(2, 6)
	w := newWorld(n, func(int) bool { return t.Bool() }, nil)
	type comp struct {
		c     anansi.Context
		names []string
	}
	var pool []comp
	for i, c := range w.ctxs {
		pool = append(pool, comp{c, w.names[i : i+1]})
	}
	key := ""
	for k := t.R(2, 10); k > 0; k-- {
		var cs []anansi.Context
		var names []string
		for j := t.N(5); j > 0; j-- {
			if t.P(1, 8) {
				cs = append(cs, nil)
				continue
			}
			o := pool[t.N(len(pool))]
			if t.Bool() {
				o = pool[len(pool)-1-t.N(min(3, len(pool)))]
			}
			cs = append(cs, o.c)
			names = append(names[:len(names):len(names)], o.names...)
		}
		if len(names) > 60 {
			continue
		}
		c := anansi.Contexts(cs...)
		if (c == nil) != (len(names) == 0) {
			t.Fail("composition of %v is %v", names, c)
		}
		if c != nil {
			pool = append(pool, comp{c, names})
			key += strings.Join(names, "") + ","
		}
	}
	for _, p := range pool {
		w.log = w.log[:0]
		fails := map[string]error{}
		w.fails = fails
		for _, c := range w.ctxs {
			switch c := c.(type) {
			case *recCtx:
				c.n = map[string]int{}
			case *recCloseCtx:
				c.n = map[string]int{}
			}
		}
		for _, nm := range w.names {
			for _, m := range []string{"Enter", "Exit", "Close"} {
				if t.P(1, 8) {
					k := fmt.Sprintf("%s.%s#%d", nm, m, 1+t.N(2))
					fails[k] = errors.New("fail " + k)
				}
			}
		}
		s := &specTerm{order: p.names, w: w, n: map[string]int{}}
		for _, m := range []string{"Enter", "Exit", "Close"} {
			var got, want error
			switch m {
			case "Enter":
				got, want = p.c.Enter(nil), s.enter()
			case "Exit":
				got, want = p.c.Exit(nil), s.back("Exit")
			default:
				if cl, ok := p.c.(interface{ Close() error }); ok {
					got = cl.Close()
				}
				want = s.back("Close")
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Fail("%s of composition %v returned %v, expected %v", m, p.names, got, want)
			}
			if fmt.Sprint(w.log) != fmt.Sprint(s.log) {
				t.Fail("%s of composition %v called %v, expected %v", m, p.names, w.log, s.log)
			}
		}
		t.Count("compositions", 1)
	}
	t.Distinct(key)
}
