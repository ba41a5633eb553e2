package zzverif

import (
	"regexp"
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

// ---- which tests run: what testing/match.go does ----

func splitRun(s string) [][]string {
	var a []string
	var b [][]string
	cs, cp := 0, 0
	for i := 0; i < len(s); {
		switch s[i] {
		case '[':
			cs++
		case ']':
			if cs--; cs < 0 {
				cs = 0
			}
		case '(':
			if cs == 0 {
				cp++
			}
		case ')':
			if cs == 0 {
				cp--
			}
		case '\\':
			i++
		case '/':
			if cs == 0 && cp == 0 {
				a = append(a, s[:i])
				s = s[i+1:]
				i = 0
				continue
			}
		case '|':
			if cs == 0 && cp == 0 {
				a = append(a, s[:i])
				s = s[i+1:]
				i = 0
				b = append(b, a)
				a = nil
				continue
			}
		}
		i++
	}
	return append(b, append(a, s))
}

// runner selects tests the way go test -run does; ok is false for patterns it
// rejects.
type runner struct{ alts [][]*regexp.Regexp }

func newRunner(pattern string) (r runner, ok bool) {
	for _, alt := range splitRun(pattern) {
		var l []*regexp.Regexp
		for _, p := range alt {
			re, err := regexp.Compile(strings.ReplaceAll(p, " ", "_"))
			if err != nil {
				return r, false
			}
			l = append(l, re)
		}
		r.alts = append(r.alts, l)
	}
	return r, true
}

func (r runner) runs(name string) bool {
	elem := strings.Split(name, "/")
	for _, alt := range r.alts {
		ok := true
		for i, e := range elem {
			if i >= len(alt) {
				break
			}
			if !alt[i].MatchString(e) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// ---- programs ----

type prog struct {
	tests []string
	calls func(test string) []int // kinds of the calls of a test
}

func under(test, top string) bool {
	return test == top || strings.HasPrefix(test, top+"/")
}

type recSlot struct{ file, id, test string }

func (p prog) slots() []recSlot {
	var r []recSlot
	for _, t := range p.tests {
		w := &world{}
		for _, k := range p.calls(t) {
			c, _ := place(k, t, 0)
			f, id := place(k, t, w.next(c, t))
			r = append(r, recSlot{f, id, t})
		}
	}
	return r
}

// run executes the tests; status decides about each: 0 runs, 1 is not part of
// the program or not selected, 2 skips at once, 3 skips after its first call.
func (p prog) run(w *world, status func(test string) int, how int, want string) {
	for _, name := range p.tests {
		st := status(name)
		for _, up := range p.tests {
			if up != name && under(name, up) && status(up) != 0 {
				st = 1
			}
		}
		if st == 1 {
			continue
		}
		Test(name, func(t *T) {
			skip := func() {
				switch how {
				case 0:
					snaps.Skip(t, "x")
				case 1:
					snaps.Skipf(t, "%d", 1)
				case 2:
					snaps.SkipNow(t)
				}
			}
			if st == 2 {
				skip()
			}
			for _, k := range p.calls(name) {
				ne := len(t.Events)
				w.call(k, t, "v")
				if want == "pass" {
					Assert(len(t.Events) == ne || len(t.Events) == ne+1 && t.Events[ne] == "cleanup", "a kept snapshot does not replay")
				}
				if st == 3 {
					skip()
				}
			}
		})
		w.end(name)
	}
}

// history: a recording process, one with Clean, and one that replays.
func history(p prog, status func(test string) int, how func() int, w func(w *world)) []Phase {
	record := Phase{nil, func() {
		p.run(&world{}, func(string) int { return 0 }, 0, "")
	}}
	rec := p.slots
	main := Phase{cleanModeEnv, func() {
		x, sort := newWorld()
		p.run(x, status, how(), "pass")
		x.protID = func(file, id string) bool {
			for _, s := range rec() {
				if s.file == file && s.id == id && protectedBy(p, s.test, status) {
					return true
				}
			}
			return false
		}
		x.protFile = func(file string) bool {
			for _, s := range rec() {
				if s.file == file && protectedBy(p, s.test, status) {
					return true
				}
			}
			return false
		}
		if w != nil {
			w(x)
		}
		x.twice(sort)
	}}
	replay := Phase{func() { Setenv("CI", "true") }, func() {
		p.run(&world{}, func(t string) int {
			if status(t) == 1 && !protectedBy(p, t, status) {
				return 1
			}
			return 0
		}, 0, "pass")
	}}
	return []Phase{record, main, replay}
}

// protectedBy: the test or an ancestor called a skip wrapper.
func protectedBy(p prog, test string, status func(string) int) bool {
	for _, up := range p.tests {
		if under(test, up) && status(up) >= 2 {
			// the skipping test itself has to run
			for _, upup := range p.tests {
				if up != upup && under(up, upup) && status(upup) != 0 {
					if status(upup) == 1 {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}

func init() {
	tests := []string{"TestA", "TestA/x", "TestA/x/y", "TestA/xz", "TestAB", "TestB"}
	kinds := []int{kShared, kOwn, kAlone, kJSON, kExt, kOther}
	skipStatus := func(n int) func(string) int {
		return func(t string) int {
			if n > 0 && t == tests[Choice("skipped", len(tests)-1)] {
				return 2 + Choice("when", 2)
			}
			if g := Choice("gone", len(tests)); g < len(tests)-1 && t == tests[g] {
				return 1
			}
			if n > 1 && t == tests[Choice("skipped2", len(tests)-1)] {
				return 2
			}
			return 0
		}
	}
	calls := func(kinds []int, n int) func(string) []int {
		return func(t string) []int {
			k := kinds[Choice("kind", len(kinds))]
			if t == "TestB" {
				// visits every directory
				if k == kOther {
					return []int{kShared, kOther}
				}
				return []int{kShared, k}
			}
			if t == "TestA" {
				return []int{k, k}[:n]
			}
			return []int{k}
		}
	}
	how := func() int { return Choice("how", 3) }
	zero := func() int { return 0 }
	reg("c08_skip", history(prog{tests, calls(kinds, 2)}, skipStatus(1), zero, nil)...)
	reg("c08_skip2", history(prog{tests, calls([]int{kShared, kOwn, kAlone}, 1)}, skipStatus(2), zero, nil)...)
	reg("c08_how", history(prog{[]string{"TestA", "TestA/x", "TestB"}, calls([]int{kShared, kAlone}, 2)}, func(t string) int {
		if t == []string{"TestA", "TestA/x"}[Choice("skipped", 2)] {
			return 2 + Choice("when", 2)
		}
		return 0
	}, how, nil)...)
	reg("c08_custom", history(prog{tests, calls([]int{kCustom}, 2)}, skipStatus(1), zero, func(w *world) {
		w.known = func(p string) string {
			if strings.HasPrefix(baseName(p), "c") {
				return "CUSTOM"
			}
			return ""
		}
	})...)

	// -run
	patterns := []string{"TestA", "^TestA$", "TestB|TestA/x", "Test(A|B)", "TestA/x$|TestB", "/x", "B", "TestB|x", "Test[AB]$/x", "TestA//y|TestB",
		"TestB|TestA/^x$/^y$", "Test./xz", "A|B", "TestAB|TestB", "^Test[^A]", "TestB|^$", ".", "TestA/|TestB/", "1", "TestB - 1", "TestB|- 1", "snap|TestB", `TestB|Test\x41$`, "(?i)testb", "TestB/nosuch", "testa|TestB", "TestA/X|TestB", "TESTB|TestB$"}
	filtered := func(pats []string) func(string) int {
		return func(t string) int {
			r, _ := newRunner(pats[Choice("pattern", len(pats))])
			if !r.runs(t) {
				return 1
			}
			return 0
		}
	}
	// runHistory: what the pattern does not select belongs to tests that did not run
	runHistory := func(p prog, env func(), status func(string) int, selected func(string) bool) []Phase {
		ph := history(p, status, zero, func(w *world) {
			w.may = true
			rec := p.slots()
			w.protID = func(file, id string) bool {
				for _, s := range rec {
					if s.file == file && s.id == id && (!selected(s.test) || protectedBy(p, s.test, status)) {
						return true
					}
				}
				return false
			}
			w.protFile = func(file string) bool {
				for _, s := range rec {
					if s.file == file && (!selected(s.test) || protectedBy(p, s.test, status)) {
						return true
					}
				}
				return false
			}
		})
		ph[1].Env = func() { cleanModeEnv(); env() }
		ph[2] = Phase{func() { Setenv("CI", "true") }, func() {
			p.run(&world{}, func(t string) int {
				if status(t) == 1 && selected(t) {
					return 1
				}
				return 0
			}, 0, "pass")
		}}
		return ph
	}
	pat := func() string { return patterns[Choice("pattern", len(patterns))] }
	sel := func(t string) bool { return filtered(patterns)(t) == 0 }
	reg("c08_run", runHistory(prog{tests, calls(append(kinds, kCustom), 2)}, func() { SetFlag("test.run", pat()) }, filtered(patterns), sel)...)
	// tests that are gone or skip, with -run
	few := []string{"TestB|TestA$", "TestA/x$|TestB", "^TestA/^x$/^y$|B", "/x", "Test(AB|B)"}
	reg("c08_runskip", runHistory(prog{tests, calls([]int{kShared, kOwn, kAlone}, 1)}, func() { SetFlag("test.run", few[Choice("pattern", len(few))]) }, func(t string) int {
		if filtered(few)(t) != 0 {
			return 1
		}
		return skipStatus(1)(t)
	}, func(t string) bool { return filtered(few)(t) == 0 })...)
	// any short pattern
	symPat := func(n int, pre, alpha string) {
		name := "c08_pattern" + strconv.Itoa(n) + map[string]string{"": "", "TestB|": "b", "TestA/": "a"}[pre]
		ts := []string{"TestA", "TestA/x", "TestA/x/A", "TestB", "TestBA"}
		get := func() string { return pre + alphaN("pat", n, alpha) }
		status := func(t string) int {
			r, ok := newRunner(get())
			if !ok {
				Unreachable() // go test refuses it
			}
			if !r.runs(t) {
				return 1
			}
			return 0
		}
		ph := runHistory(prog{ts, func(t string) []int { return []int{[]int{kShared, kOwn}[Choice("kind", 2)]} }}, func() { SetFlag("test.run", get()) }, status, func(t string) bool { return status(t) == 0 })
		ph[1].Env = func() { Setenv("UPDATE_SNAPS", "clean"); SetFlag("test.run", get()) }
		m := ph[1].Run
		_ = m
		reg(name, ph...)
	}
	symPat(1, "", "ABTx/|^$.[]()\\ *")
	symPat(2, "", "ABax/|^$.[]()\\")
	symPat(3, "", "ABx/|^$.[]()\\")
	symPat(2, "TestB|", "ABatx/|^$.[]()\\")
	symPat(3, "TestB|", "ABx/|^$.[]()\\")
	symPat(2, "TestA/", "ABaxX/|^$.[]()\\")
	symPat(3, "TestA/", "ABx/|^$.[]()\\")

	// any pair of short names: one skips, the other is gone
	names := func(n1, n2 int, alone bool) Phase {
		return Phase{func() { Setenv("UPDATE_SNAPS", "clean") }, func() {
			a := "Test" + alphaN("a", n1, "ab/_#1")
			b := "Test" + alphaN("b", n2, "ab/_#1")
			Assume(a[len(a)-1] != '/' && b[len(b)-1] != '/' && a != b)
			Assume(!strings.Contains(a, "//") && !strings.Contains(b, "//") && a[4] != '/' && b[4] != '/')
			prot := under(b, a)
			kind := kShared
			if alone {
				kind = kAlone
				// the file may as well be one of a test the skip protects
				f, g := flat(a), flat(b)
				if !prot && (f == g || strings.HasPrefix(g, f+"_")) {
					Unreachable()
				}
			}
			w := &world{}
			Test("TestZ", func(t *T) { kindCall(kind, t, "v") })
			Test(b, func(t *T) { kindCall(kind, t, "v") })
			// the library has seen both: another process
			Stash("a", a)
			Stash("b", b)
			_ = w
		}}
	}
	names2 := func(n1, n2 int, alone bool) []Phase {
		return []Phase{names(n1, n2, alone), {func() { Setenv("UPDATE_SNAPS", "clean") }, func() {
			a, b := Load("a"), Load("b")
			kind := kShared
			if alone {
				kind = kAlone
			}
			Test("TestZ", func(t *T) { kindCall(kind, t, "v") })
			Test(a, func(t *T) { snaps.Skip(t) })
			r := summaryOf(clean())
			f, id := place(kind, b, 1)
			kept := false
			if alone {
				_, kept = readFile(f)
			} else {
				_, n := find(mustParse(mustRead(f)), id)
				kept = n == 1
			}
			Assert(kept == under(b, a), "a skip does not protect exactly the test and its descendants")
			if kept {
				Assert(len(r.items) == 0, "an item is listed that is protected")
			} else {
				Assert(len(r.items) == 1, "a stale item is not listed")
			}
		}}}
	}
	// the same for subtests of any name: nothing in it is a pattern, both have
	// been recorded and the skipping one keeps its own
	chars := func(n1, n2 int, alphabet string, alone bool) []Phase {
		kind := kShared
		if alone {
			kind = kAlone
		}
		get := func() (string, string) {
			return "TestA/" + alphaN("a", n1, alphabet), "TestA/" + alphaN("b", n2, alphabet)
		}
		return []Phase{{nil, func() {
			a, b := get()
			Assume(a != b)
			Test("TestZ", func(t *T) { kindCall(kind, t, "v") })
			Test(b, func(t *T) { kindCall(kind, t, "v") })
			Test(a, func(t *T) { kindCall(kind, t, "v") })
			Test(a+"/s", func(t *T) { kindCall(kind, t, "v") })
			Stash("a", a)
			Stash("b", b)
		}}, {func() { Setenv("UPDATE_SNAPS", "clean") }, func() {
			a, b := Load("a"), Load("b")
			Test("TestZ", func(t *T) { kindCall(kind, t, "v") })
			Test(a, func(t *T) { snaps.Skip(t) })
			r := summaryOf(clean())
			kept := func(test string) bool {
				f, id := place(kind, test, 1)
				if alone {
					_, ok := readFile(f)
					return ok
				}
				_, n := find(mustParse(mustRead(f)), id)
				return n == 1
			}
			Assert(kept(a) && kept(a+"/s"), "a skip does not protect the test and its descendants")
			Assert(!kept(b), "a skip protects another test")
			Assert(len(r.items) == 1, "the listed items are not the stale ones")
		}}}
	}
	special := "ax.*+?[]^$(|){}\\"
	reg("c08_chars11", chars(1, 1, special+"-!%&~:=\"'<>,;@", false)...)
	reg("c08_chars12", chars(1, 2, special, false)...)
	reg("c08_chars21", chars(2, 1, special, false)...)
	reg("c08_chars32", chars(3, 2, "a.*[]\\+", false)...)
	reg("c08_chars33", chars(3, 3, "ab.-[]?", false)...)
	reg("c08_charsalone", chars(2, 1, "a.*+?[]\\(|", true)...)
	reg("c08_charsalone22", chars(2, 2, "ab.*[]\\+?", true)...)
	// files with many entries of a test that is gone around one of a test that
	// skips or is not selected
	reg("c08_big", Phase{nil, func() {
		g := snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("g"))
		around := func(k string) {
			for i := 0; i < []int{0, 1, 9, 40}[Choice(k, 4)]; i++ {
				t := NewT("TestGone" + strconv.Itoa(i))
				v := "x"
				if i == 0 && Choice("size", 2) == 1 {
					v = strings.Repeat("long ", 15000)
				}
				g.MatchSnapshot(t, v)
				t.Finish()
			}
		}
		around("before")
		Test("TestS", func(t *T) { g.MatchSnapshot(t, "1") })
		Test("TestS/s", func(t *T) { g.MatchSnapshot(t, "2") })
		t := NewT("TestLast")
		for i := 0; i < []int{0, 1, 9, 40}[Choice("after", 4)]; i++ {
			g.MatchSnapshot(t, "x")
		}
		t.Finish()
		Test("TestZ", func(t *T) { cfgF().MatchSnapshot(t, "z") })
	}}, Phase{func() {
		Setenv("UPDATE_SNAPS", "clean")
		if Choice("how", 3) == 2 {
			SetFlag("test.run", "TestZ")
		}
	}, func() {
		file := path("s", "g.snap")
		before := mustParse(mustRead(file))
		how := Choice("how", 3)
		addressed := Choice("addressed", 2) == 1
		Test("TestZ", func(t *T) {
			cfgF().MatchSnapshot(t, "z")
			if addressed {
				snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("g")).MatchJSON(t, "{")
			}
		})
		kept := func(id string) bool { return under(id[:strings.Index(id, " - ")], "TestS") }
		switch how {
		case 0:
			Test("TestS", func(t *T) { snaps.Skip(t) })
		case 1:
			Test("TestS", func(t *T) {})
			Test("TestS/s", func(t *T) { snaps.SkipNow(t) })
			kept = func(id string) bool { return id == "TestS/s - 1" }
		case 2:
			kept = func(string) bool { return true }
		}
		r := summaryOf(clean())
		text, ok := readFile(file)
		Assert(ok && !has(r.items, file), "Clean removes a file with an entry of a test that did not run")
		var want []entry
		stale := 0
		for _, e := range before {
			if !addressed || kept(e.id) {
				want = append(want, e)
			} else {
				Assert(has(r.items, e.id), "a stale entry is not listed")
				stale++
			}
		}
		Assert(len(r.items) == stale, "Clean lists something that is not stale")
		Assert(sameEntries(mustParse(text), want), "Clean does not keep exactly the entries of tests that did not run")
	}})
	// a standalone file of a test whose name reads like that of a subtest
	reg("c08_ambig", []Phase{{nil, func() {
		Test("TestB", func(t *T) { kindCall(kAlone, t, "v") })
		Test("TestA_x", func(t *T) { kindCall(kAlone, t, "v") })
	}}, {nil, func() {
		Test("TestB", func(t *T) { kindCall(kAlone, t, "v") })
		Test("TestA", func(t *T) { snaps.Skip(t) })
		r := summaryOf(clean())
		f, _ := place(kAlone, "TestA_x", 1)
		AssertKnown(r.lists([]string{f}, nil), "a skip protects a file of another test", "FLATNAME", true)
	}}}...)
	reg("c08_names11", names2(1, 1, false)...)
	reg("c08_names12", names2(1, 2, false)...)
	reg("c08_names13", names2(1, 3, false)...)
	reg("c08_names23", names2(2, 3, false)...)
	reg("c08_names33", names2(3, 3, false)...)
	reg("c08_alone12", names2(1, 2, true)...)
	reg("c08_alone13", names2(1, 3, true)...)
	reg("c08_alone23", names2(2, 3, true)...)
}
