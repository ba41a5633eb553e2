package zzverif

import (
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
)

// what a call of a concurrent program does
const (
	pCreate = iota
	pMatch
	pDiffer
	pUpdate
	pMissing // no such entry, Update(false)
	pInvalid // rejected input or matcher
	pSkip
)

type pstep struct{ op, api int }

// program: the steps of each test and the entries of others in the file.
type program struct {
	tests [][]pstep
	names []string
	other int
	body  func(test, i int, updated bool) string
	file  func(test int) string // file the test addresses
	env   string
}

var parNames = []string{"TestA", "TestB", "TestA/s", "TestAB"}

func (p *program) value(i, j int, next bool) string {
	if p.body != nil {
		return p.body(i, j, next)
	}
	v := "v" + strconv.Itoa(i) + strconv.Itoa(j)
	if next {
		// lengths shrink and grow
		return []string{"", "some longer text\n[TestZ - 1]\n\nof "}[(i+j)%2] + v
	}
	return v + "\nline two"
}

func (p *program) name(i int) string {
	if p.names != nil {
		return p.names[i]
	}
	return parNames[i]
}

func (p *program) fileOf(i int) string {
	if p.file != nil {
		return p.file(i)
	}
	return "f"
}

// document is what the API is given for a value.
func document(api int, v string) string {
	switch api {
	case apiJSON, apiAloneJSON:
		return `{"b":` + strconv.Quote(v) + `,"a":1}`
	case apiYAML:
		return "b: " + strconv.Quote(v)
	}
	return v
}

// stored is how the API stores it.
func stored(api int, v string) string {
	switch api {
	case apiJSON:
		return "{\n \"a\": 1,\n \"b\": " + strconv.Quote(v) + "\n}"
	case apiYAML:
		return "b: " + strconv.Quote(v)
	}
	return v
}

func (p *program) config(dir string, i int, s pstep) *snaps.Config {
	o := []func(*snaps.Config){snaps.Dir(path(dir)), snaps.Filename(p.fileOf(i))}
	if p.env == "" && (s.op == pUpdate || s.op == pMissing) {
		o = append(o, snaps.Update(s.op == pUpdate))
	}
	return snaps.WithConfig(o...)
}

// run executes the calls of test i.
func (p *program) run(c func(i int, s pstep) *snaps.Config, t *T, i int) {
	for j, s := range p.tests[i] {
		p.call(c(i, s), t, i, j, s)
	}
	t.Finish()
}

func (p *program) call(c *snaps.Config, t *T, i, j int, s pstep) {
	switch s.op {
	case pInvalid:
		switch s.api {
		case apiJSON:
			c.MatchJSON(t, "{")
		case apiYAML:
			c.MatchYAML(t, "a: [")
		default:
			c.MatchJSON(t, "{}", match.Any("nope"))
		}
	case pSkip:
		func() {
			defer func() { recover() }()
			switch s.api {
			case 0:
				snaps.Skip(t, "x")
			case 1:
				snaps.Skipf(t, "%d", 1)
			default:
				snaps.SkipNow(t)
			}
		}()
	default:
		do(c, t, s.api, document(s.api, p.value(i, j, s.op == pUpdate || s.op == pDiffer)))
	}
}

// before is the file at the start, after what it holds at the end: the
// entries that were there keep their places, created ones follow.
func (p *program) content(file string) (before []entry, after []entry, created [][]entry) {
	add := func(id, a, b string) {
		before = append(before, entry{id, a})
		after = append(after, entry{id, b})
	}
	if p.other&1 == 1 {
		add("TestOld - 1", "[TestA - 1]", "[TestA - 1]")
	}
	for i, ss := range p.tests {
		if p.fileOf(i) != file {
			continue
		}
		var news []entry
		n := 0
		for j, s := range ss {
			if s.op == pSkip {
				continue
			}
			n++
			id := p.name(i) + " - " + strconv.Itoa(n)
			old, now := stored(s.api, p.value(i, j, false)), stored(s.api, p.value(i, j, true))
			switch s.op {
			case pCreate:
				if p.env != "ci" {
					news = append(news, entry{id, old})
				}
			case pMatch, pDiffer, pInvalid:
				add(id, old, old)
			case pUpdate:
				add(id, old, now)
			}
		}
		created = append(created, news)
	}
	if p.other&2 == 2 {
		add("TestOld - 2", "last", "last")
	}
	return before, after, created
}

func escapeAll(es []entry) []entry {
	var r []entry
	for _, e := range es {
		r = append(r, entry{e.id, escaped(e.body)})
	}
	return r
}

// noLine removes the line numbers a report shows.
func noLine(s string) string {
	for at := 0; ; {
		i := strings.Index(s[at:], ".snap:")
		if i < 0 {
			return s
		}
		i += at + len(".snap:")
		j := i
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		s = s[:i] + s[j:]
		at = i
	}
}

func (p *program) files() []string {
	var r []string
	for i := range p.tests {
		if !has(r, p.fileOf(i)) {
			r = append(r, p.fileOf(i))
		}
	}
	return r
}

// check runs the program concurrently in one directory and serially in
// another one and compares.
func (p *program) check(preempt int, shared bool) {
	for _, f := range p.files() {
		before, _, _ := p.content(f)
		if len(before) > 0 {
			writeFile(path("a", f+".snap"), render(escapeAll(before)))
			writeFile(path("b", f+".snap"), render(escapeAll(before)))
		}
	}
	n := len(p.tests)
	ta, tb := make([]*T, n), make([]*T, n)
	var upd, keep, strict *snaps.Config
	if shared {
		upd, keep, strict = p.config("a", 0, pstep{op: pUpdate}), p.config("a", 0, pstep{op: pMatch}), p.config("a", 0, pstep{op: pMissing})
	}
	for i := range p.tests {
		ta[i], tb[i] = NewT(p.name(i)), NewT(p.name(i))
		p.run(func(i int, s pstep) *snaps.Config { return p.config("b", i, s) }, tb[i], i)
	}
	DetectRaces()
	ExploreSchedules(preempt)
	for i := range p.tests {
		i := i
		Go(func() {
			p.run(func(i int, s pstep) *snaps.Config {
				switch {
				case !shared:
					return p.config("a", i, s)
				case s.op == pUpdate:
					return upd
				case s.op == pMissing:
					return strict
				}
				return keep
			}, ta[i], i)
		})
	}
	WaitAll()
	StopSchedules()
	for i := range ta {
		Assert(outcome(ta[i]) == outcome(tb[i]) && len(ta[i].Errors) == len(tb[i].Errors), "a concurrent call ends differently")
		for j := range ta[i].Errors {
			Assert(noLine(strings.ReplaceAll(ta[i].Errors[j], "/a/", "/b/")) == noLine(tb[i].Errors[j]), "a concurrent call reports something else")
		}
		// and the serial execution ends as intended
		want := ""
		for _, s := range p.tests[i] {
			e := "error"
			switch {
			case s.op == pMatch:
				continue
			case s.op == pUpdate, s.op == pSkip, s.op == pCreate && p.env != "ci":
				e = "log"
			}
			if want != "" {
				want += ","
			}
			want += e
		}
		Assert(outcome(tb[i]) == want, "a serial call ends differently")
	}
	for _, d := range []string{"a", "b"} {
		Assert(len(treeOf(path(d))) <= len(p.files()), "a concurrent call creates other files")
		for _, f := range p.files() {
			_, after, created := p.content(f)
			total := len(after)
			for _, c := range created {
				total += len(c)
			}
			got, there := readFile(path(d, f+".snap"))
			if total == 0 {
				Assert(!there, "a file without entries is created")
				continue
			}
			es, ok := parse(got)
			Assert(ok, "the snapshot file is torn")
			Assert(len(es) == total, "an entry is lost or duplicated")
			Assert(sameEntries(es[:len(after)], escapeAll(after)), "an entry that was there does not hold the right value")
			es = es[len(after):]
			for len(es) > 0 {
				k := -1
				for i := range created {
					if len(created[i]) > 0 && created[i][0].id == es[0].id {
						k = i
					}
				}
				Assert(k >= 0 && es[0].body == escaped(created[k][0].body), "a created entry does not hold the right value")
				created[k] = created[k][1:]
				es = es[1:]
			}
		}
	}
}

func init() {
	// choose picks the steps of n tests; equal sequences in any order once
	choose := func(calls []int, ops, apis []int) *program {
		p := &program{}
		last := -1
		for i, n := range calls {
			var ss []pstep
			code := 0
			for j := 0; j < n; j++ {
				x := Choice("op"+strconv.Itoa(i)+strconv.Itoa(j), len(ops)*len(apis))
				code = code*len(ops)*len(apis) + x
				ss = append(ss, pstep{ops[x/len(apis)], apis[x%len(apis)]})
			}
			if i > 0 && len(calls) == 2 && calls[i] == calls[i-1] && code < last {
				Unreachable()
			}
			last = code
			p.tests = append(p.tests, ss)
		}
		return p
	}
	// a match of a missing slot is a create: all slots before a pstep exist
	all := []int{pCreate, pMatch, pDiffer, pUpdate}
	snapOnly := []int{apiSnap}
	multi := []int{apiSnap, apiJSON, apiYAML}

	reg("c06_one", Phase{nil, func() {
		p := choose([]int{1, 1}, all, multi)
		p.other = Choice("other", 4)
		p.check(-1, false)
	}})
	reg("c06_onerace", Phase{nil, func() {
		p := choose([]int{1, 1}, append([]int{pMissing, pInvalid, pSkip}, all...), multi)
		p.check(-1, true)
	}})
	two := func(ops []int, other, preempt int, shared bool) Phase {
		return Phase{nil, func() {
			p := choose([]int{2, 2}, ops, snapOnly)
			p.other = other
			p.check(preempt, shared)
		}}
	}
	reg("c06_two", two([]int{pCreate, pUpdate}, 1, 2, false))
	reg("c06_twofull", two([]int{pCreate, pUpdate}, 1, -1, false))
	reg("c06_twodiff", two([]int{pDiffer, pUpdate}, 2, 2, true))
	reg("c06_twomatch", two([]int{pMatch, pCreate}, 2, 2, true))
	reg("c06_twoall", two(all, 3, 2, true))
	reg("c06_twoall3", two(all, 3, 3, true))
	mixed := func(ops []int, apis []int, preempt int) Phase {
		return Phase{nil, func() { choose([]int{2, 1}, ops, apis).check(preempt, true) }}
	}
	reg("c06_mixed", mixed(append([]int{pMissing, pInvalid, pSkip}, all...), multi, 2))
	reg("c06_mixedfull", mixed(append([]int{pMissing, pInvalid, pSkip}, all...), multi, -1))
	reg("c06_mixskip", mixed([]int{pSkip, pCreate, pUpdate}, snapOnly, -1))
	reg("c06_mixapi", mixed([]int{pCreate, pUpdate}, []int{apiJSON, apiYAML}, -1))
	three := func(calls []int, ops []int, other, preempt int, ordered bool) Phase {
		return Phase{nil, func() {
			p := choose(calls, ops, snapOnly)
			if ordered {
				for i := 1; i < len(p.tests); i++ {
					if p.tests[i][0].op < p.tests[i-1][0].op {
						Unreachable()
					}
				}
			}
			p.other = other
			p.check(preempt, true)
		}}
	}
	reg("c06_three", three([]int{1, 1, 1}, []int{pCreate, pUpdate}, 3, 2, true))
	reg("c06_threefull", three([]int{1, 1, 1}, []int{pCreate, pUpdate}, 3, -1, true))
	reg("c06_threemix", three([]int{1, 1, 1}, []int{pMatch, pCreate, pUpdate}, 3, 2, true))
	reg("c06_threeall", three([]int{1, 1, 1}, []int{pMissing, pMatch, pDiffer, pCreate, pUpdate}, 3, 2, false))
	reg("c06_three2", three([]int{2, 1, 1}, []int{pCreate, pUpdate}, 0, 2, false))
	reg("c06_four", three([]int{1, 1, 1, 1}, []int{pCreate, pUpdate}, 0, 2, true))
	reg("c06_one3", three([]int{1, 3}, []int{pCreate, pUpdate}, 1, -1, false))
	reg("c06_long3", three([]int{3, 3}, []int{pCreate, pUpdate}, 1, 2, false))
	// bodies of any short text while others are rewritten
	reg("c06_bodies", Phase{nil, func() {
		p := choose([]int{1, 1}, []int{pCreate, pUpdate}, snapOnly)
		p.body = func(i, j int, next bool) string {
			nm := "v" + strconv.Itoa(i)
			if next {
				nm = "w" + strconv.Itoa(i)
			}
			if i == 1 || !next && p.tests[i][j].op == pUpdate {
				return nm
			}
			return SymAlpha(nm, 0, 3, "\n-[")
		}
		p.check(-1, false)
	}})
	reg("c06_long", Phase{nil, func() {
		p := choose([]int{1, 1}, []int{pCreate, pMatch}, snapOnly)
		n := []int{100, 4096, 70000}[Choice("len", 3)]
		p.body = func(i, j int, next bool) string {
			c := "abcd"[i*2 : i*2+2]
			if next {
				return strings.Repeat(c[1:], n/(i+1))
			}
			return strings.Repeat(c[:1], n)
		}
		p.other = 2
		p.check(-1, true)
	}})
	// modes given by the environment
	modes := []string{"true", "false", "ci"}
	env := func(calls []int) Phase {
		return Phase{func() {
			if m := modes[Choice("env", 3)]; m == "ci" {
				Setenv("CI", "true")
			} else {
				Setenv("UPDATE_SNAPS", m)
			}
		}, func() {
			m := modes[Choice("env", 3)]
			ops := []int{pCreate, pMatch, pDiffer}
			if m == "true" {
				ops = []int{pCreate, pMatch, pUpdate}
			}
			p := choose(calls, ops, snapOnly)
			p.env = m
			p.other = 1
			p.check(-1, true)
		}}
	}
	reg("c06_env", env([]int{1, 1}))
	reg("c06_env2", env([]int{2, 1}))
	// two files that share a directory which does not exist yet
	reg("c06_files", Phase{nil, func() {
		p := choose([]int{1, 1}, all, multi)
		p.file = func(i int) string { return "f" + strconv.Itoa(i) }
		p.check(-1, false)
	}})
	// names whose ids look alike
	reg("c06_names", Phase{nil, func() {
		p := choose([]int{1, 1}, []int{pCreate, pUpdate}, snapOnly)
		p.names = [][]string{{"TestA", "TestA/s"}, {"TestA", "TestAA"}, {"Test-1", "Test"}, {"TestA/x", "TestA_x"}}[Choice("names", 4)]
		p.other = 3
		p.check(-1, false)
	}})
	// executions follow each other (-count) while another test calls
	reg("c06_count", Phase{nil, func() {
		op := Choice("op", 3)
		writeFile(path("s", "f.snap"), render([]entry{{"TestA - 1", "a"}, {"TestA - 2", "b"}, {"TestB - 1", "c"}}))
		var ts [3]*T
		DetectRaces()
		ExploreSchedules(-1)
		Go(func() {
			for e := 0; e < 2; e++ {
				ts[e] = Test("TestA", func(t *T) {
					cfgF().MatchSnapshot(t, "a")
					if e == 0 || op != 2 {
						cfgF().MatchSnapshot(t, "b")
					}
				})
			}
		})
		Go(func() {
			ts[2] = Test("TestB", func(t *T) {
				switch op {
				case 0:
					snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"), snaps.Update(true)).MatchSnapshot(t, "longer")
				default:
					cfgF().MatchSnapshot(t, "c")
				}
			})
		})
		WaitAll()
		StopSchedules()
		Assert(ts[0].quiet() && ts[1].quiet(), "an execution of a concurrent test ends differently")
		c := "c"
		if op == 0 {
			c = "longer"
		}
		Assert(ts[2].quiet() == (op != 0), "a concurrent call ends differently")
		Assert(mustRead(path("s", "f.snap")) == render([]entry{{"TestA - 1", "a"}, {"TestA - 2", "b"}, {"TestB - 1", c}}), "an entry is lost or duplicated")
		Assert(!strings.Contains(clean(), "obsolete"), "an addressed entry is listed as obsolete")
	}})
	// a test skips while another one calls, Clean knows about both
	reg("c06_skip", Phase{func() { Setenv("UPDATE_SNAPS", "clean") }, func() {
		es := []entry{{"TestA - 1", "a"}, {"TestA/s - 1", "b"}, {"TestB - 1", "c"}, {"TestC - 1", "d"}}
		writeFile(path("s", "f.snap"), render(es))
		kind := Choice("kind", 3)
		other := Choice("other", 2)
		skip := func(name string) {
			Test(name, func(t *T) {
				switch kind {
				case 0:
					snaps.Skip(t)
				case 1:
					snaps.Skipf(t, "%d", 1)
				case 2:
					snaps.SkipNow(t)
				}
			})
		}
		DetectRaces()
		ExploreSchedules(-1)
		Go(func() { skip("TestA") })
		Go(func() {
			if other == 1 {
				skip("TestB")
				return
			}
			Test("TestB", func(t *T) { cfgF().MatchSnapshot(t, "c") })
		})
		Go(func() { Test("TestC", func(t *T) { cfgF().MatchSnapshot(t, "d") }) })
		WaitAll()
		StopSchedules()
		out := clean()
		Assert(!strings.Contains(out, "obsolete"), "an entry of a skipped test is listed as obsolete")
		Assert(strings.Contains(out, strconv.Itoa(1+other)+" snapshot"), "a skip is not counted")
		Assert(mustRead(path("s", "f.snap")) == render(es), "Clean changes a file that needs no change")
	}})
	// one matcher used by concurrent calls
	reg("c06_matcher", Phase{nil, func() {
		kind := Choice("kind", 4)
		m := match.Any("a")
		ty := match.Type[float64]("a")
		cu := match.Custom("a", func(v any) (any, error) { return "fixed", nil })
		c := cfgF()
		api := []int{apiJSON, apiYAML, apiAloneJSON}[Choice("api", 3)]
		call := func(c *snaps.Config, t *T) {
			switch api {
			case apiJSON:
				switch kind {
				case 0:
					c.MatchJSON(t, `{"a":1,"b":2}`, m)
				case 1:
					c.MatchJSON(t, `{"a":1,"b":2}`, ty)
				case 2:
					c.MatchJSON(t, `{"a":1,"b":2}`, cu)
				case 3:
					c.MatchJSON(t, `{"a":1,"b":2}`, m, match.Any("zz"))
				}
			case apiYAML:
				switch kind {
				case 0:
					c.MatchYAML(t, "a: 1\nb: 2\n", match.Any("$.a"))
				case 3:
					c.MatchYAML(t, "a: 1\nb: 2\n", match.Any("$.zz"))
				default:
					c.MatchYAML(t, "a: 1\nb: 2\n")
				}
			case apiAloneJSON:
				switch kind {
				case 0, 3:
					c.MatchStandaloneJSON(t, `{"a":1,"b":2}`, m)
				case 1:
					c.MatchStandaloneJSON(t, `{"a":1,"b":2}`, ty)
				case 2:
					c.MatchStandaloneJSON(t, `{"a":1,"b":2}`, cu)
				}
			}
		}
		if api == apiAloneJSON {
			c = snaps.WithConfig(snaps.Dir(path("s")))
		}
		ta, tb := []*T{NewT("TestA"), NewT("TestB")}, []*T{NewT("TestA"), NewT("TestB")}
		for _, t := range tb {
			o := []func(*snaps.Config){snaps.Dir(path("b"))}
			if api != apiAloneJSON {
				o = append(o, snaps.Filename("f"))
			}
			call(snaps.WithConfig(o...), t)
		}
		DetectRaces()
		ExploreSchedules(-1)
		for i := range ta {
			i := i
			Go(func() { call(c, ta[i]) })
		}
		WaitAll()
		StopSchedules()
		for i := range ta {
			Assert(outcome(ta[i]) == outcome(tb[i]), "a concurrent call ends differently")
		}
		fa, fb := treeOf(path("s")), treeOf(path("b"))
		Assert(len(fa) == len(fb), "a concurrent call stores something else")
		for i := range fb {
			x, y := mustRead(path("s", fa[i])), mustRead(path("b", fb[i]))
			if api == apiAloneJSON {
				Assert(x == y, "a concurrent call stores something else")
				continue
			}
			ex, ey := mustParse(x), mustParse(y)
			Assert(sameEntries(byRank(ex), byRank(ey)), "a concurrent call stores something else")
		}
	}})
	// standalone calls
	alone := func(n int) Phase {
		return Phase{nil, func() {
			var op, api [3]int
			for i := 0; i < n; i++ {
				op[i] = Choice("op"+strconv.Itoa(i), 4)
				api[i] = apiAlone + Choice("api"+strconv.Itoa(i), 2)
				if i > 0 && op[i]*2+api[i] < op[i-1]*2+api[i-1] {
					Unreachable()
				}
				name := "TestP" + strconv.Itoa(i) + "_1.snap"
				v := "old" + strconv.Itoa(i)
				if api[i] == apiAloneJSON {
					name, v = name+".json", strconv.Quote(v)
				}
				if op[i] != pCreate {
					writeFile(path("s", name), v)
				}
			}
			c := []*snaps.Config{snaps.WithConfig(snaps.Dir(path("s"))), snaps.WithConfig(snaps.Dir(path("s")), snaps.Update(true))}
			var ts [3]*T
			DetectRaces()
			ExploreSchedules(-1)
			for i := 0; i < n; i++ {
				i := i
				Go(func() {
					ts[i] = Test("TestP"+strconv.Itoa(i), func(t *T) {
						v := "old" + strconv.Itoa(i)
						if op[i] >= pDiffer {
							v = "n" + strconv.Itoa(i)
						}
						if api[i] == apiAloneJSON {
							v = strconv.Quote(v)
						}
						do(c[op[i]/pUpdate], t, api[i], v)
					})
				})
			}
			WaitAll()
			StopSchedules()
			Assert(len(treeOf(path("s"))) == n, "a concurrent call creates other files")
			for i := 0; i < n; i++ {
				Assert(outcome(ts[i]) == []string{"log", "", "error", "log"}[op[i]], "a concurrent call ends differently")
				name := "TestP" + strconv.Itoa(i) + "_1.snap"
				v := "old" + strconv.Itoa(i)
				if op[i] == pUpdate {
					v = "n" + strconv.Itoa(i)
				}
				if api[i] == apiAloneJSON {
					name, v = name+".json", strconv.Quote(v)
				}
				Assert(mustRead(path("s", name)) == v, "a standalone snapshot does not hold the right value")
			}
		}}
	}
	reg("c06_alone", alone(2))
	reg("c06_alone3", alone(3))
}
