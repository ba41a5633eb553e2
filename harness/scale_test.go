package zzverif

import (
	"errors"
	"os"
	"strings"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zzverif/deep/er"
)

// Long names, deep nesting, large documents and many items: whatever a limit or
// a shortcut for large inputs would treat in another way.

// scaleNames are prefixes of test names.
var scaleNames = []string{"TestA", "TestA/" + strings.Repeat("n", 300), "TestA/" + strings.Repeat("n", 2000), "TestA" + strings.Repeat("/b", 5), "TestA" + strings.Repeat("/sub", 60), "TestA/" + strings.Repeat("é世", 70)}

func init() {
	// C01, C03: two tests whose names differ at their ends
	reg("c01_names", recordReplay(func(test testFn) {
		n := scaleNames[Choice("name", len(scaleNames))]
		x, y := word("x", 1), word("y", 1)
		Assume(x != y)
		for _, s := range []string{n + x, n + y, n + x + "/" + y} {
			test(s, func(t *T) {
				cfgF().MatchSnapshot(t, s[len(s)-1:]+"1")
				cfgF().MatchJSON(t, `["2`+s[len(s)-1:]+`"]`)
			})
			if len(n) < 120 {
				test(s, func(t *T) { cfgS().MatchStandaloneSnapshot(t, s+"alone") })
			}
		}
	})...)
	// C07 to C10: long names, many entries, many files
	reg("c09_scale", Phase{cleanModeEnv, func() {
		w, sort := newWorld()
		n := scaleNames[Choice("name", len(scaleNames))]
		es := []entry{{n + "b - 2", "b2"}, {n + "b - 11", "b11"}, {n + "a - 1", "v"}, {n + " - 1", "0"}, {n + "b/s - 1", "s"}, {n + "b - 1", "v"}}
		for i := 0; len(n) < 1000 && i < []int{0, 30}[Choice("entries", 2)]; i++ {
			es = append(es, entry{n + "b - " + itoa(100-i), "e" + itoa(i)})
		}
		writeFile(path("s", "f.snap"), render(es))
		for i := 0; i < []int{0, 40}[Choice("files", 2)]; i++ {
			writeFile(path("s", "old"+itoa(i)+".snap"), "x")
		}
		writeFile(path("s", strings.Repeat("long", 50)+".snap.json"), "x")
		w.times(kShared, n+"b", []int{1, 12}[Choice("calls", 2)], "v")
		w.times(kShared, "TestZ", 1, "v")
		w.twice(sort)
	}})
	// C11: deep and long names of tests, directories and files
	reg("c11_scale", Phase{nil, func() {
		api := Choice("api", 5)
		test := []string{"TestA" + strings.Repeat("/b", 4), "TestA" + strings.Repeat("/b", 5), "TestA" + strings.Repeat("/b", 9), "TestA" + strings.Repeat("/b", 33), "TestA/" + strings.Repeat("n", 200)}[Choice("test", 5)]
		dir := path("s")
		switch Choice("dir", 3) {
		case 1:
			dir += strings.Repeat("/d.x", 12)
		case 2:
			dir += "/" + strings.Repeat("d", 200)
		}
		fn, ext := "", ""
		switch Choice("fn", 3) {
		case 1:
			fn = strings.Repeat("f.", 60)
		case 2:
			ext = strings.Repeat(".e", 12)
		}
		c := opts(dir, fn, ext)
		t := NewT(test)
		for k := 1; k <= 2; k++ {
			in, _ := valueOf(api, k)
			er.Do(c, t, api, in)
		}
		Assert(outcome(t) == "log,log", "two new snapshots are not created: "+outcome(t))
		for k := 1; k <= 2; k++ {
			p := where(HarnessDir(), "scale_test", test, api, k, dir, fn, ext)
			if api < apiAlone && fn == "" {
				// the base name of the test file is not at stake
				fs := treeOf(dir)
				Assert(len(fs) == 1, "two calls do not share their file")
				p = dir + "/" + fs[0]
			}
			_, ok := readFile(p)
			Assert(ok, "a snapshot is not at its location")
			if api >= apiAlone {
				Assert(holds(p, test, api, k), "a snapshot is not at its location")
			}
		}
	}})
	// C09: directories of hundreds of files and directories, some of them
	// addressed, in one or two visited directories
	reg("c09_files", Phase{func() { Setenv("UPDATE_SNAPS", []string{"", "clean"}[Choice("mode", 2)]) }, func() {
		n := []int{70, 130, 270, 600}[Choice("n", 4)]
		for i := 0; i < n; i++ {
			writeFile(path("s", "old"+itoa(i)+".snap"), "x")
			if i%3 == 0 {
				writeFile(path("s", "keep"+itoa(i)+".txt"), "x")
			}
			if i%50 == 0 {
				os.MkdirAll(path("s", "dir"+itoa(i)+".snap"), 0o755)
			}
		}
		for _, f := range []string{"aa.snap", "zz.snap.json", "old.snap"} {
			writeFile(path("s", f), "x")
		}
		where := Choice("where", 2)
		Test("TestA", func(t *T) {
			snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename([]string{"aaa", "zzz"}[where])).MatchSnapshot(t, "1")
			snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename([]string{"zzz", "aaa"}[where])).MatchStandaloneSnapshot(t, "1")
			snaps.WithConfig(snaps.Dir(path("o"))).MatchStandaloneSnapshot(t, "1")
		})
		before := len(treeOf(path("s")))
		r := summaryOf(clean())
		Assert(len(r.items) == n+3, "Clean does not list every stale file")
		left := len(treeOf(path("s")))
		if Choice("mode", 2) == 1 {
			Assert(left == before-n-3, "Clean does not remove exactly the stale files")
			for i := 0; i < n; i++ {
				_, ok := readFile(path("s", "old"+itoa(i)+".snap"))
				Assert(!ok, "Clean does not remove every stale file")
			}
		} else {
			Assert(left == before, "Clean removes files without being asked to")
		}
		Assert(has(r.items, path("s", "aa.snap")) && has(r.items, path("s", "zz.snap.json")) && has(r.items, path("s", "old69.snap")), "a stale file is not listed")
	}})
	// C03: a test that goes on after many others
	reg("c03_alive", Phase{nil, func() {
		n := []int{20, 60, 130, 300}[Choice("n", 4)]
		kind := Choice("kind", 4)
		call := func(t *T, v string) {
			switch kind {
			case 0:
				cfgF().MatchSnapshot(t, v)
			case 1:
				cfgS().MatchStandaloneSnapshot(t, v)
			case 2:
				cfgF().MatchSnapshot(t, v)
				cfgS().MatchStandaloneSnapshot(t, v)
			case 3: // each in a file of its own
				f := "own"
				if strings.HasPrefix(t.Name(), "TestN") {
					f = t.Name()
				}
				snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename(f)).MatchYAML(t, "a: "+v)
			}
		}
		a, b := NewT("TestA"), NewT("TestA/b")
		call(a, "a1")
		call(b, "b1")
		call(a, "a2")
		over := Choice("over", 2) == 1
		for i := 0; i < n; i++ {
			t := NewT("TestN" + itoa(i))
			call(t, "n")
			if over {
				t.Finish()
			}
			Assert(len(t.Errors) == 0, "a call among many fails")
		}
		call(a, "a3")
		call(b, "b2")
		Assert(len(a.Errors)+len(b.Errors) == 0, "a live test does not keep its numbering")
		if kind != 1 {
			f := path("s", "f.snap")
			pre := ""
			if kind == 3 {
				f, pre = path("s", "own.snap"), "a: "
			}
			es := mustParse(mustRead(f))
			for _, w := range []entry{{"TestA - 1", "a1"}, {"TestA - 2", "a2"}, {"TestA - 3", "a3"}, {"TestA/b - 1", "b1"}, {"TestA/b - 2", "b2"}} {
				v, k := find(es, w.id)
				Assert(k == 1 && v == pre+w.body, "a live test does not keep its numbering")
			}
		}
		if kind == 1 || kind == 2 {
			for k, v := range map[string]string{"TestA_1": "a1", "TestA_2": "a2", "TestA_3": "a3", "TestA_b_1": "b1", "TestA_b_2": "b2"} {
				Assert(mustRead(path("s", k+".snap")) == v, "a live test does not keep its numbering")
			}
		}
	}})
	// C15: large documents around the target
	reg("c15_big", Phase{nil, func() {
		d := jdocs[Choice("doc", len(jdocs))]
		var pad string
		switch (Choice("doc", len(jdocs)) + Choice("after", 2)) % 3 {
		case 0:
			pad = `"` + strings.Repeat("p", 1500) + `"`
		case 1:
			pad = `"` + strings.Repeat("\\u00e9\\n\\\\x", 1000) + `"`
		case 2:
			pad = "[" + strings.Repeat(`{"a":1, "b":"x"},`, 300) + "0]"
		}
		if Choice("after", 2) == 1 {
			d.pre, d.post = `{"in":`+d.pre, d.post+`, "pad" : `+pad+`}`
		} else {
			d.pre, d.post = `{"pad" : `+pad+`, "in":`+d.pre, d.post+`}`
		}
		d.path = "in." + d.path
		place := jplaceN("p", 0)
		if Choice("esc", 2) == 1 {
			if Choice("p#p", 7) != 0 {
				Unreachable()
			}
			place = []string{"q\"q", "a\\b", "x\ny", "\x01\t", "\\u0041"}[Choice("text", 5)]
		}
		val := `"some value that is longer than every placeholder there is in this list"`
		in := []byte(d.pre + val + d.post)
		keep := string(in)
		var m match.JSONMatcher
		switch Choice("matcher", 3) {
		case 0:
			m = match.Any(d.path).Placeholder(place)
		case 1:
			m = match.Custom(d.path, func(any) (any, error) { return place, nil })
		case 2:
			m = match.Type[any](d.path)
			place = "<Type:" + typeOf(val) + ">"
		}
		s, t := storeJSON("f", in, m)
		Assert(len(t.Errors) == 0, "a matcher on an existing path fails")
		checkMasked(s, d, place)
		Assert(string(in) == keep, "the bytes of the caller are modified")
	}})
	reg("c15_ybig", Phase{nil, func() {
		d := ydocs[[]int{0, 1, 2, 3, 6, 12}[Choice("doc", 6)]]
		pad := []string{"pad: " + strings.Repeat("p", 1200) + "\n", "pad: |\n" + strings.Repeat("  some text\n", 90), "pad:\n" + strings.Repeat("- a: 1\n", 60)}[(Choice("doc", 6)+Choice("pad", 2))%3]
		d.pre = pad + d.pre
		place := yplaceN("p", 0)
		var out []byte
		var errs []match.MatcherError
		in := []byte(d.pre + "value" + d.post)
		keep := string(in)
		switch Choice("matcher", 3) {
		case 0:
			out, errs = match.Any(d.path).Placeholder(place).YAML(in)
		case 1:
			out, errs = match.Custom(d.path, func(any) (any, error) { return place, nil }).YAML(in)
		case 2:
			out, errs = match.Type[any](d.path).YAML(in)
			place = "<Type:string>"
		}
		Assert(len(errs) == 0, "a matcher on an existing path fails")
		checkYMasked(string(out), d, "value", place)
		Assert(string(in) == keep, "the bytes of the caller are modified")
	}})
	// C16: large documents that differ in one place
	reg("c16_big", masked(func(api int, set maskSet) (string, string, bool) {
		fixed := [3]string{`"m0"`, `"m1"`, `"m2"`}
		i := Choice("hole", 4)
		x, u := fixed, "1"
		if i < 3 {
			x[i] = `"` + word("w", 1) + `"`
		} else {
			u = `"` + word("w", 1) + `"`
		}
		a, b := maskDoc(api, fixed, "1"), maskDoc(api, x, u)
		pad := "pad: " + strings.Repeat("p", 1500) + "\n"
		if api != apiYAML {
			pad = `{"pad":"` + strings.Repeat("p", []int{1500, 70000}[Choice("size", 2)]) + `",`
			a, b = a[1:], b[1:]
		} else {
			Assume(Choice("size", 2) == 0)
		}
		return pad + a, pad + b, covers(set.covers, "012u"[i])
	})...)
	// C17: many failing matchers, paths and long messages
	reg("c17_many", Phase{nil, func() {
		api := maskAPIs[Choice("api", len(maskAPIs))]
		n := []int{9, 11, 40}[Choice("n", 3)]
		msg := "e" + strings.Repeat("m", []int{0, 300, 5000}[Choice("msg", 3)]) + word("w", 1)
		p := func(s string) string { return pathFor(api, s) }
		var ms []both
		var want []string
		switch Choice("kind", 4) {
		case 0: // one matcher with many paths
			var ps []string
			for i := 0; i < n; i++ {
				ps = append(ps, p("nope"+itoa(i)))
				want = append(want, "Any nope"+itoa(i))
			}
			ms = []both{match.Any(ps...), match.Type[bool](p("m"))}
			want = append(want, "Type m")
		case 1: // many matchers, every other one fails
			for i := 0; i < n; i++ {
				ms = append(ms, match.Custom(p("k"), konst(i)))
				ms = append(ms, match.Custom(p("m"), func(any) (any, error) { return nil, errors.New(msg + itoa(i)) }))
				want = append(want, "Custom m")
			}
		case 2: // the last one fails
			for i := 0; i < n; i++ {
				ms = append(ms, match.Any(p("m")).Placeholder(itoa(i)))
			}
			ms = append(ms, match.Type[bool](p("m")))
			want = append(want, "Type m")
		case 3: // a long path
			s := strings.Repeat("nope", n)
			ms = []both{match.Any(p("m")), match.Any(p(s)), match.Type[string](p(s))}
			want = []string{"Any " + s, "Type " + s}
		}
		c := snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"))
		t := Test("TestA", func(t *T) { doWith(c, t, api, failDoc(api, "old", "7"), ms) })
		Assert(len(t.Errors) == 1 && len(t.Logs) == 0, "failing matchers do not report exactly one error")
		Assert(FileCount() == 0, "a call with failing matchers writes")
		rest := t.Errors[0]
		for i, w := range want {
			k, q, _ := strings.Cut(w, " ")
			name := "match." + k + `("` + p(q) + `")`
			j := strings.Index(rest, name)
			Assert(j >= 0, "a failing matcher is not named")
			rest = rest[j+len(name):]
			if k == "Custom" {
				Assert(strings.Contains(rest, msg+itoa(i)), "the reason of a failing matcher is not shown")
			}
		}
		Assert(strings.Count(t.Errors[0], "match.") == len(want), "a matcher that did not fail is named")
	}})
	// C20: long names in the lists
	reg("c20_longnames", Phase{cleanEnv, func() {
		var w tally
		n := scaleNames[Choice("name", len(scaleNames))]
		id := n + word("x", 1) + " - 1"
		writeFile(path("s", "f.snap"), "\n["+id+"]\nold\n---\n\n[TestA - 1]\nv\n---\n")
		fs := []string{path("s", strings.Repeat("g", []int{1, 60, 100, 240}[Choice("file", 4)])+".snap")}
		writeFile(fs[0], "")
		t := Test("TestA", func(t *T) { cfgS(snaps.Filename("f")).MatchSnapshot(t, "v") })
		Assert(t.quiet(), "an equal value does not pass")
		w.passed = 1
		checkSummary(w, fs, []string{id})
	}})
}
