package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/jcorbin/anansi/terminfo"
)

func init() {
	register(&Prop{
		ID:   "C27",
		Rule: "compiled descriptions generated with random names, flags, numbers, string counts, absent and cancelled strings, shared and gapped string tables and trailing extended sections, read back and compared with what was compiled in; every truncation of some; header fields, offsets and bytes corrupted and compared with an independent strict reader; lookups in search paths set up through the environment; the descriptions installed on this system; non-trivial by (section sizes, kinds of string entries, corruption)",
		Assumptions: []string{
			"the 16-bit compiled format of term(5); the extended section after the string table is ignored",
			"~/.terminfo is left alone and assumed not to hold the made-up names used",
		},
		Subs: []Sub{
			{Name: "read", Quick: 20000, Thorough: 600000, Run: c27Read},
			{Name: "truncate", Quick: 300, Thorough: 6000, Run: c27Truncate},
			{Name: "corrupt", Quick: 40000, Thorough: 1500000, Run: c27Corrupt},
			{Name: "system", Quick: 64, Thorough: 64, Run: c27System},
			{Name: "lookup", Quick: 1500, Thorough: 20000, Run: c27Lookup, Serial: true},
		},
	})
}

// where term.h numbers the string capabilities behind each name
var tiKeyCap = map[string]int{
	"F1": 66, "F2": 68, "F3": 69, "F4": 70, "F5": 71, "F6": 72, "F7": 73, "F8": 74, "F9": 75, "F10": 67, "F11": 216, "F12": 217,
	"Insert": 77, "Delete": 59, "Home": 76, "End": 164, "PageUp": 82, "PageDown": 81,
	"Up": 87, "Down": 61, "Left": 79, "Right": 83,
}
var tiFuncCap = map[string]int{
	"EnterCA": 28, "ExitCA": 40, "ShowCursor": 16, "HideCursor": 13, "ClearScreen": 5, "SGR0": 39,
	"Underline": 36, "Bold": 27, "Blink": 26, "Reverse": 34, "EnterKeypad": 89, "ExitKeypad": 88,
}

func tiIndices() []int {
	var is []int
	for _, i := range tiKeyCap {
		is = append(is, i)
	}
	for _, i := range tiFuncCap {
		is = append(is, i)
	}
	sort.Ints(is)
	return is
}

var tiUsed = tiIndices()

// tiEntry is a description to be compiled.
type tiEntry struct {
	names   string
	bools   []byte
	nums    []int16
	offs    []int // -1 absent, -2 cancelled
	table   []byte
	ext     []byte
	strings map[int]string
}

func (e *tiEntry) compile() []byte {
	var b bytes.Buffer
	put := func(n int) { binary.Write(&b, binary.LittleEndian, int16(n)) }
	put(0432)
	put(len(e.names) + 1)
	put(len(e.bools))
	put(len(e.nums))
	put(len(e.offs))
	put(len(e.table))
	b.WriteString(e.names)
	b.WriteByte(0)
	b.Write(e.bools)
	if b.Len()%2 != 0 {
		b.WriteByte(0)
	}
	for _, n := range e.nums {
		put(int(n))
	}
	for _, o := range e.offs {
		put(o)
	}
	b.Write(e.table)
	b.Write(e.ext)
	return b.Bytes()
}

func genTI(t *T) *tiEntry {
	e := &tiEntry{strings: map[int]string{}}
	for k := t.R(1, 20); k > 0; k-- {
		e.names += string(rune('a' + t.N(26)))
	}
	if t.Bool() {
		e.names += "|some terminal"
	}
	for k := t.N(45); k > 0; k-- {
		e.bools = append(e.bools, byte(t.N(3)))
	}
	for k := t.N(40); k > 0; k-- {
		e.nums = append(e.nums, int16(t.R(-2, 32767)))
	}
	count := 414
	switch t.N(4) {
	case 0:
		count = t.N(415)
	case 1:
		count = t.R(60, 230)
	case 2:
		count = tiUsed[t.N(len(tiUsed))] + t.N(2)
	}
	density := t.R(0, 4)
	bits := 6
	if t.P(1, 20) { // a large table
		bits = 9
	}
	genStr := func() string {
		s := ""
		for k := t.N(1 << uint(t.N(bits))); k > 0; k-- {
			c := t.R(1, 255)
			if t.P(2, 3) {
				c = t.R(0x20, 0x7E)
			}
			s += string([]byte{byte(c)})
		}
		if t.Bool() {
			s = "\x1b[" + s
		}
		return s
	}
	var used []int // offsets at which strings start
	for i := 0; i < count; i++ {
		switch {
		case t.P(4-density, 5):
			e.offs = append(e.offs, -1-t.N(2))
		case len(used) > 0 && t.P(1, 6): // shared with, or the tail of, an earlier one
			o := used[t.N(len(used))]
			end := o + bytes.IndexByte(e.table[o:], 0)
			o += t.N(end - o + 1)
			e.offs = append(e.offs, o)
			e.strings[i] = string(e.table[o:end])
		default:
			if t.P(1, 20) {
				e.table = append(e.table, genStr()...)
				e.table = append(e.table, 0)
			}
			s := genStr()
			if len(e.table)+len(s)+1 > 32767 {
				e.offs = append(e.offs, -1)
				continue
			}
			used = append(used, len(e.table))
			e.offs = append(e.offs, len(e.table))
			e.strings[i] = s
			e.table = append(e.table, s...)
			e.table = append(e.table, 0)
		}
	}
	if t.P(1, 3) {
		for k := t.R(1, 60); k > 0; k-- {
			e.ext = append(e.ext, byte(t.N(256)))
		}
	}
	return e
}

func (e *tiEntry) shape() string {
	k := make([]byte, 0, len(tiUsed))
	for _, i := range tiUsed {
		switch {
		case i >= len(e.offs):
			k = append(k, '.')
		case e.offs[i] < 0:
			k = append(k, byte('0'-e.offs[i]))
		default:
			k = append(k, 's')
		}
	}
	return fmt.Sprintf("%d/%d/%d/%d/%d/%s", len(e.names), len(e.bools), len(e.nums), len(e.offs), len(e.table), k)
}

var modeSet = regexp.MustCompile("\x1b\\[\\?([0-9]+)([hl])")

// checkTI compares what was read with the strings by capability number.
func checkTI(t *T, ti *terminfo.Terminfo, want func(i int) string, what string) {
	ks, fs := ti.KeyMap(), ti.FuncMap()
	for name, i := range tiKeyCap {
		if got, w := ks[name], want(i); got != w {
			t.Fail("%s: key %s (string %d) is %q, want %q", what, name, i, got, w)
		}
	}
	for name, i := range tiFuncCap {
		if got, w := fs[name], want(i); got != w {
			t.Fail("%s: function %s (string %d) is %q, want %q", what, name, i, got, w)
		}
	}
	// no capability tells of these: a report is wanted of buttons and motion, in
	// a format that is decoded, and what is enabled gets disabled
	on := map[string]bool{}
	for _, m := range modeSet.FindAllStringSubmatch(fs["EnterMouse"], -1) {
		on[m[1]] = m[2] == "h"
	}
	if !on["1006"] || !on["1002"] && !on["1003"] {
		t.Fail("%s: function EnterMouse is %q", what, fs["EnterMouse"])
	}
	for _, m := range modeSet.FindAllStringSubmatch(fs["ExitMouse"], -1) {
		if m[2] == "l" {
			delete(on, m[1])
		}
	}
	if len(on) > 0 {
		t.Fail("%s: function ExitMouse %q leaves modes %v", what, fs["ExitMouse"], on)
	}
	t.Count("capabilities_compared", 2+len(tiKeyCap)+len(tiFuncCap))
}

// dribble returns at most a few bytes per read.
type dribble struct {
	*bytes.Reader
	t *T
}

func (d dribble) Read(p []byte) (int, error) {
	if n := d.t.R(1, 9); len(p) > n {
		p = p[:n]
	}
	return d.Reader.Read(p)
}

func (d dribble) WriteTo(w io.Writer) (int64, error) { return io.Copy(w, struct{ io.Reader }{d}) }

func readTI(t *T, ti *terminfo.Terminfo, data []byte) error {
	if t.P(1, 4) {
		return ti.ReadFrom(dribble{bytes.NewReader(data), t})
	}
	return ti.ReadFrom(bytes.NewReader(data))
}

func c27Read(t *T) {
	e := genTI(t)
	data := e.compile()
	var ti terminfo.Terminfo
	if t.P(1, 3) { // one that held another description before
		if err := readTI(t, &ti, genTI(t).compile()); err != nil {
			t.Fail("reading an intact description: %v", err)
		}
	}
	t.Logf("%s", hex.EncodeToString(data))
	if err := readTI(t, &ti, data); err != nil {
		t.Fail("reading an intact description (%s): %v", e.shape(), err)
	}
	checkTI(t, &ti, func(i int) string { return e.strings[i] }, e.shape())
	t.Sample("%s", e.shape())
	t.Distinct(e.shape())
}

// refTI is the strict reader: sound says whether everything needed is well formed.
func refTI(data []byte) (get func(i int) string, sound bool) {
	if len(data) < 12 {
		return nil, false
	}
	h := make([]int, 6)
	for i := range h {
		h[i] = int(int16(binary.LittleEndian.Uint16(data[2*i:])))
		if h[i] < 0 {
			return nil, false
		}
	}
	if h[0] != 0432 {
		return nil, false
	}
	p := 12 + h[1] + h[2]
	p += p % 2
	p += 2 * h[3]
	tab := p + 2*h[4]
	if tab+h[5] > len(data) {
		return nil, false
	}
	table := data[tab : tab+h[5]]
	vals := map[int]string{}
	for _, i := range tiUsed {
		if i >= h[4] {
			continue
		}
		o := int(int16(binary.LittleEndian.Uint16(data[p+2*i:])))
		if o == -1 || o == -2 {
			continue
		}
		if o < 0 || o >= len(table) {
			return nil, false
		}
		z := bytes.IndexByte(table[o:], 0)
		if z < 0 {
			return nil, false
		}
		vals[i] = string(table[o : o+z])
	}
	return func(i int) string { return vals[i] }, true
}

func c27Truncate(t *T) {
	e := genTI(t)
	for len(e.offs) > 0 && len(e.table) > 3000 {
		e = genTI(t)
	}
	e.ext = nil
	data := e.compile()
	for n := 0; n < len(data); n++ {
		var ti terminfo.Terminfo
		if err := readTI(t, &ti, data[:n]); err == nil {
			t.Logf("%s", hex.EncodeToString(data))
			t.Fail("the first %d of %d bytes of %s are taken for a description", n, len(data), e.shape())
		}
		t.Count("truncations", 1)
	}
	t.Distinct(e.shape())
}

func c27Corrupt(t *T) {
	e := genTI(t)
	data := e.compile()
	what := ""
	for k := t.R(1, 3); k > 0; k-- {
		switch t.N(6) {
		case 0, 1: // a header field
			i := t.N(6)
			v := t.R(-32768, 32767)
			switch t.N(4) {
			case 0:
				v = t.R(-3, 3)
			case 1:
				v = int(int16(binary.LittleEndian.Uint16(data[2*i:]))) + t.R(-3, 3)
			case 2:
				v = []int{32767, -32768, -1, 0, 542, 30000}[t.N(6)]
			}
			binary.LittleEndian.PutUint16(data[2*i:], uint16(v))
			what += fmt.Sprintf("header[%d]=%d ", i, v)
		case 2, 3: // the offset of a string that is used
			i := tiUsed[t.N(len(tiUsed))]
			p := 12 + len(e.names) + 1 + len(e.bools)
			p += p%2 + 2*len(e.nums) + 2*i
			if i >= len(e.offs) {
				continue
			}
			v := t.R(-32768, 32767)
			switch t.N(3) {
			case 0:
				v = len(e.table) + t.R(-2, 2)
			case 1:
				v = t.R(-4, 2)
			}
			binary.LittleEndian.PutUint16(data[p:], uint16(v))
			what += fmt.Sprintf("offset[%d]=%d ", i, v)
		case 4: // any byte
			i := t.N(len(data))
			data[i] = byte(t.N(256))
			what += fmt.Sprintf("byte[%d] ", i)
		default: // no terminator at the end of the table
			if len(e.table) > 0 {
				p := len(data) - len(e.ext) - 1
				data[p] = 'x'
				what += "unterminated "
			}
		}
	}
	if t.P(1, 6) {
		n := t.N(len(data))
		data = data[:n]
		what += fmt.Sprintf("cut at %d", n)
	}
	t.Logf("%s: %s", what, hex.EncodeToString(data))
	get, sound := refTI(data)
	var ti terminfo.Terminfo
	err := readTI(t, &ti, data)
	if !sound && err == nil {
		t.Fail("a corrupted description (%s, %s) is accepted", e.shape(), what)
	}
	if sound && err != nil {
		t.Fail("a description still well formed (%s, %s) is refused: %v", e.shape(), what, err)
	}
	if sound {
		checkTI(t, &ti, get, what)
		t.Count("still_sound", 1)
	} else {
		t.Count("refused", 1)
	}
	t.Sample("%s sound=%v", what, sound)
	t.Distinct(what)
}

// c27System reads the descriptions installed here.
func c27System(t *T) {
	fs, _ := filepath.Glob("/usr/share/terminfo/?/*")
	gs, _ := filepath.Glob("/lib/terminfo/?/*")
	fs = append(fs, gs...)
	for i := t.Idx; i < len(fs); i += 64 {
		data, err := os.ReadFile(fs[i])
		if err != nil || len(data) < 2 || data[0] != 0x1a || data[1] != 1 {
			continue
		}
		get, sound := refTI(data)
		if !sound {
			continue
		}
		var ti terminfo.Terminfo
		if err := ti.ReadFrom(bytes.NewReader(data)); err != nil {
			t.Fail("reading %s: %v", fs[i], err)
		}
		checkTI(t, &ti, get, fs[i])
		t.Count("installed_descriptions", 1)
		t.Distinct(fs[i])
	}
}

var builtinNames = map[string]string{
	"xterm": "xterm", "linux": "linux", "screen": "screen", "Eterm": "Eterm", "rxvt-256color": "rxvt-256color", "rxvt-unicode": "rxvt-unicode",
	"my-xterm-2": "xterm", "linux-basic": "linux", "screen.foo": "screen", "myEterm-x": "Eterm", "rxvt-cygnus": "rxvt-unicode", "cygwin": "xterm",
}

func c27Lookup(t *T) {
	old := map[string]string{}
	for _, k := range []string{"TERMINFO", "TERMINFO_DIRS"} {
		old[k] = os.Getenv(k)
		os.Unsetenv(k)
	}
	t.Cleanup(func() {
		for k, v := range old {
			if v == "" {
				os.Unsetenv(k)
			} else {
				os.Setenv(k, v)
			}
		}
	})
	root := t.TempDir()
	var dirs []string
	for i := 0; i < 3; i++ {
		d := filepath.Join(root, fmt.Sprint(i))
		os.Mkdir(d, 0700)
		dirs = append(dirs, d)
	}
	name := fmt.Sprintf("vq%d-%d%s", t.Idx, t.N(1<<30), t.Pick("", "+x", "-256c", ".y"))
	kind := ""
	put := func(d string, e *tiEntry, cut int) {
		sub := name[:1]
		if t.Bool() {
			sub = hex.EncodeToString([]byte(name[:1]))
			kind += "h"
		}
		data := e.compile()
		if cut >= 0 {
			data = data[:cut]
		}
		os.Mkdir(filepath.Join(d, sub), 0700)
		if err := os.WriteFile(filepath.Join(d, sub, name), data, 0600); err != nil {
			t.Inconclusive("%v", err)
		}
	}
	entries := map[int]*tiEntry{}
	for i := range dirs {
		if t.Bool() {
			entries[i] = genTI(t)
			put(dirs[i], entries[i], -1)
			kind += fmt.Sprint(i)
		}
	}
	var order []int
	switch t.N(4) {
	case 0, 1:
		order = []int{t.N(3)}
		os.Setenv("TERMINFO", dirs[order[0]])
		if t.Bool() { // must then not be searched
			os.Setenv("TERMINFO_DIRS", strings.Join(dirs, ":"))
			kind += "+dirs"
		}
		kind += fmt.Sprint(" TERMINFO", order)
	default:
		order = [][]int{{0}, {1, 0}, {0, 1, 2}, {2, 1}, {2, 0, 1}}[t.N(5)]
		var ps []string
		for _, i := range order {
			ps = append(ps, dirs[i])
			if t.P(1, 6) {
				ps = append(ps, t.Pick("", filepath.Join(root, "none")))
			}
		}
		if t.P(1, 8) {
			ps = append([]string{""}, ps...)
		}
		os.Setenv("TERMINFO_DIRS", strings.Join(ps, ":"))
		kind += fmt.Sprint(" DIRS", order)
	}
	c27Path(t)
	var want *tiEntry
	for _, i := range order {
		if want == nil {
			want = entries[i]
		}
	}
	t.Logf("%s TERMINFO=%q TERMINFO_DIRS=%q", name, os.Getenv("TERMINFO"), os.Getenv("TERMINFO_DIRS"))
	ti, err := terminfo.Load(name)
	if want == nil {
		if err == nil {
			t.Fail("Load(%q) finds a description of %q where there is none", name, ti.Name)
		}
	} else {
		if err != nil {
			t.Fail("Load(%q): %v", name, err)
		}
		checkTI(t, ti, func(i int) string { return want.strings[i] }, kind)
		again, err := terminfo.Load(name)
		if err != nil || again != ti {
			t.Fail("a second Load(%q) gives %p, %v after %p", name, again, err, ti)
		}
	}
	// broken, then repaired
	name += "b"
	d := dirs[order[0]]
	e := genTI(t)
	e.ext = nil
	data := e.compile()
	put(d, e, t.N(len(data)))
	if _, err := terminfo.Load(name); err == nil {
		t.Fail("Load(%q) accepts a truncated description", name)
	}
	os.RemoveAll(filepath.Join(d, name[:1], name))
	os.RemoveAll(filepath.Join(d, hex.EncodeToString([]byte(name[:1])), name))
	put(d, e, -1)
	if ti, err = terminfo.Load(name); err != nil {
		t.Fail("Load(%q) after the description was repaired: %v", name, err)
	}
	checkTI(t, ti, func(i int) string { return e.strings[i] }, "repaired")

	// names not found anywhere
	os.Setenv("TERMINFO", filepath.Join(root, "none"))
	for n, b := range builtinNames {
		ti, err := terminfo.Load(n)
		if err != nil || ti == nil || ti.Name != b {
			t.Fail("Load(%q) without a database gives %+v, %v; want the built-in %s", n, ti, err, b)
		}
		if bt, err := terminfo.GetBuiltin(b); err != nil || *bt != *ti {
			t.Fail("Load(%q) and GetBuiltin(%q) differ (%v)", n, b, err)
		}
		for k, v := range ti.KeyMap() {
			if v == "" {
				t.Fail("built-in %s has no key %s", b, k)
			}
		}
	}
	for _, n := range []string{"", "dumb9", name + "?", "vt", "-", "é"} {
		if ti, err := terminfo.Load(n); err == nil {
			t.Fail("Load(%q) without a database gives %q", n, ti.Name)
		}
		if _, err := terminfo.GetBuiltin(n); err == nil {
			t.Fail("GetBuiltin(%q) reports no error", n)
		}
	}
	t.Count("lookups", 3+len(builtinNames)+6)
	t.Sample("%s", kind)
	t.Distinct(kind)
}

// c27Path compares the search path with the rules of terminfo(5): TERMINFO
// alone if set, else the user's own, then TERMINFO_DIRS with empty members
// standing for the system's, which otherwise comes last.
func c27Path(t *T) {
	const system = "/usr/share/terminfo"
	got := terminfo.SearchPath()
	if one := os.Getenv("TERMINFO"); one != "" {
		if len(got) != 1 || got[0] != one {
			t.Fail("search path %q with TERMINFO=%q", got, one)
		}
		return
	}
	if len(got) > 0 && strings.HasSuffix(got[0], "/.terminfo") {
		got = got[1:]
	}
	var want []string
	had := false
	if ds := os.Getenv("TERMINFO_DIRS"); ds != "" {
		for _, d := range strings.Split(ds, ":") {
			if d == "" {
				d, had = system, true
			}
			want = append(want, d)
		}
	}
	if !had {
		want = append(want, system)
	}
	uniq := func(ss []string) (us []string) {
		seen := map[string]bool{}
		for _, s := range ss {
			if !seen[s] {
				us = append(us, s)
			}
			seen[s] = true
		}
		return us
	}
	if fmt.Sprintf("%q", uniq(got)) != fmt.Sprintf("%q", uniq(want)) {
		t.Fail("search path %q with TERMINFO_DIRS=%q, want %q", got, os.Getenv("TERMINFO_DIRS"), want)
	}
}
