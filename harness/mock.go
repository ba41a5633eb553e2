package zzverif

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/kr/pretty"
)

// Phase is one process of a harness: Env fixes its environment before package
// initialisation, Run is the program.
type Phase struct {
	Env func()
	Run func()
}

var harnesses = map[string][]Phase{}

func reg(name string, phases ...Phase) { harnesses[name] = phases }

func PhaseCount(name string) int { return len(harnesses[name]) }

func PhaseEnv(name string, i int) {
	if f := harnesses[name][i].Env; f != nil {
		f()
	}
}

func RunPhase(name string, i int) { harnesses[name][i].Run() }

// T records what the code under test reports.
type T struct {
	name     string
	Errors   []string
	Logs     []string
	Events   []string // "error", "log", "cleanup", "skip" in order
	Skipped  bool
	Panicked string
	cleanups []func()
}

type skipNow struct{}

func NewT(name string) *T { return &T{name: name} }

func (t *T) Helper()      {}
func (t *T) Name() string { return t.name }
func (t *T) Error(args ...any) {
	t.Errors = append(t.Errors, text(args))
	t.Events = append(t.Events, "error")
}
func (t *T) Log(args ...any) {
	t.Logs = append(t.Logs, text(args))
	t.Events = append(t.Events, "log")
}
func (t *T) Cleanup(f func()) {
	t.cleanups = append(t.cleanups, f)
}
func (t *T) Skip(args ...any)                 { t.SkipNow() }
func (t *T) Skipf(format string, args ...any) { t.SkipNow() }
func (t *T) SkipNow()                         { t.Skipped = true; panic(skipNow{}) }

func text(args []any) string {
	if len(args) == 1 {
		switch a := args[0].(type) {
		case string:
			return a
		case error:
			return a.Error()
		}
	}
	return fmt.Sprint(args...)
}

// Finish runs the registered cleanups, last first (end of the test).
func (t *T) Finish() {
	for i := len(t.cleanups) - 1; i >= 0; i-- {
		t.cleanups[i]()
	}
	t.cleanups = nil
}

// Test executes f as the body of test name.
func Test(name string, f func(t *T)) *T {
	t := NewT(name)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(skipNow); !ok {
					panic(r)
				}
			}
		}()
		f(t)
	}()
	t.Finish()
	return t
}

func (t *T) quiet() bool { return len(t.Errors) == 0 && len(t.Logs) == 0 }

// ---- files ----

func path(elem ...string) string {
	return filepath.Join(append([]string{Root()}, elem...)...)
}

func readFile(p string) (string, bool) {
	b, err := os.ReadFile(p)
	if err != nil {
		return "", false
	}
	return string(b), true
}

func mustRead(p string) string {
	s, ok := readFile(p)
	if !ok {
		return "<missing>"
	}
	return s
}

func writeFile(p, s string) {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		panic(err)
	}
}

func exists(p string) bool {
	_, err := os.Stat(p)
	return err == nil
}

// tree lists the regular files below Root (relative, sorted).
func tree() []string { return treeOf(Root()) }

func treeOf(root string) []string {
	var r []string
	var walk func(dir, rel string)
	walk = func(dir, rel string) {
		es, err := os.ReadDir(dir)
		if err != nil {
			return
		}
		for _, e := range es {
			if e.IsDir() {
				walk(dir+"/"+e.Name(), rel+e.Name()+"/")
				continue
			}
			r = append(r, rel+e.Name())
		}
	}
	walk(root, "")
	sort.Strings(r)
	return r
}

func files() string { return strings.Join(tree(), " ") }

// ---- reference model of the file format ----

type entry struct{ id, body string }

// lines splits s after every newline, dropping the newline (a trailing
// unterminated line is kept).
func lines(s string) []string {
	var r []string
	start := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			r = append(r, s[start:i])
			start = i + 1
		}
	}
	if start < len(s) {
		r = append(r, s[start:])
	}
	return r
}

// parse reads a snapshot file strictly: a sequence of
// "\n" "[id]\n" body "\n---\n". ok is false if the file has any other shape.
func parse(s string) (es []entry, ok bool) {
	ls := lines(s)
	if len(s) > 0 && s[len(s)-1] != '\n' {
		return nil, false
	}
	i := 0
	for i < len(ls) {
		if ls[i] != "" || i+1 >= len(ls) {
			return es, false
		}
		h := ls[i+1]
		if len(h) < 2 || h[0] != '[' || h[len(h)-1] != ']' {
			return es, false
		}
		i += 2
		var body []string
		closed := false
		for i < len(ls) {
			if ls[i] == "---" {
				closed = true
				i++
				break
			}
			body = append(body, ls[i])
			i++
		}
		if !closed || len(body) == 0 {
			return es, false
		}
		es = append(es, entry{h[1 : len(h)-1], strings.Join(body, "\n")})
	}
	return es, true
}

// readBack is how the stored text of a line-based snapshot is read back: CRs
// at line ends are dropped (documented limitation), so that an escape followed
// by a CR is taken for the escape.
func readBack(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if len(l) == 0 || l[len(l)-1] != '\r' {
			continue
		}
		l = l[:len(l)-1]
		if len(l) >= 7 && l[:7] == "/-/-/-/" && strings.Trim(l[7:], "/") == "" {
			if len(l) == 7 {
				l = "---"
			} else {
				l = l[:len(l)-1]
			}
		}
		ls[i] = l
	}
	return strings.Join(ls, "\n")
}

// unesc undoes the escaping of terminator lines in a stored body.
func unesc(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if len(l) >= 7 && l[:7] == "/-/-/-/" && strings.Trim(l[7:], "/") == "" {
			if len(l) == 7 {
				l = "---"
			} else {
				l = l[:len(l)-1]
			}
			ls[i] = l
		}
	}
	return strings.Join(ls, "\n")
}

func hasLine(s, l string) bool {
	for _, x := range strings.Split(s, "\n") {
		if x == l {
			return true
		}
	}
	return false
}

func find(es []entry, id string) (string, int) {
	n := 0
	b := ""
	for _, e := range es {
		if e.id == id {
			if n == 0 {
				b = e.body
			}
			n++
		}
	}
	return b, n
}

// ---- symbolic values ----

// SymAlpha: strings of length lo..hi over an alphabet.
func SymAlpha(name string, lo, hi int, alpha string) string {
	s := SymString(name, lo, hi)
	var tab [256]bool
	for i := 0; i < len(alpha); i++ {
		tab[alpha[i]] = true
	}
	for i := 0; i < len(s); i++ {
		Assume(tab[s[i]])
	}
	return s
}

// fmtText is the formatted text of the operands of a Match*Snapshot call.
func fmtText(vals ...any) string {
	r := make([]string, len(vals))
	for i, v := range vals {
		r[i] = pretty.Sprint(v)
	}
	return strings.Join(r, "\n")
}

// crEOL: a carriage return at the end of a line (documented limitation).
func crEOL(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '\r' && (i+1 == len(s) || s[i+1] == '\n') {
			return true
		}
	}
	return false
}

// symLines: 1..n lines, each a symbolic string (no newline, tab or carriage
// return) of one of the given lengths; the lengths cover the terminator, its
// escape and headers.
func symLines(name string, n int, lens ...int) string {
	k := 1 + Choice(name+"#lines", n)
	ls := make([]string, k)
	for i := range ls {
		nm := name + string(rune('a'+i))
		l := lens[Choice(nm+"#n", len(lens))]
		b := SymBytes(nm, l)
		for _, c := range b {
			Assume(c >= ' ' && c < 0x7f)
		}
		ls[i] = string(b)
	}
	return strings.Join(ls, "\n")
}

// ---- calls ----

const (
	apiSnap = iota
	apiJSON
	apiYAML
	apiAlone
	apiAloneJSON
)

// do performs one Match* call.
func do(c *snaps.Config, t *T, api int, v string) {
	switch api {
	case apiSnap:
		c.MatchSnapshot(t, v)
	case apiJSON:
		c.MatchJSON(t, v)
	case apiYAML:
		c.MatchYAML(t, v)
	case apiAlone:
		c.MatchStandaloneSnapshot(t, v)
	case apiAloneJSON:
		c.MatchStandaloneJSON(t, v)
	}
}

func word(name string, n int) string {
	b := SymBytes(name, n)
	for _, c := range b {
		Assume(c >= 'a' && c <= 'z')
	}
	return string(b)
}

// alphaN: strings of length n over an alphabet.
func alphaN(name string, n int, alpha string) string { return SymAlpha(name, n, n, alpha) }

func mkdir(p string) {
	if os.MkdirAll(p, 0o755) != nil {
		panic("cannot make " + p)
	}
}

func isDir(p string) bool {
	i, err := os.Stat(p)
	return err == nil && i.IsDir()
}
