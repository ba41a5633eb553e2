package zzverif

import (
	"errors"
	"fmt"
	"strings"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
)

// failM is a matcher, the failures it has to report (matcher and path) and
// what it changes otherwise.
type failM struct {
	make  func(p func(string) string, e string) both
	fails [][2]string
	m, k  string // new values of m and k when it succeeds
}

var failMs = []failM{
	{func(p func(string) string, e string) both { return match.Any(p("m")) }, nil, "<Any value>", ""},
	{func(p func(string) string, e string) both { return match.Any(p("nope")) }, [][2]string{{"Any", "nope"}}, "", ""},
	{func(p func(string) string, e string) both { return match.Any(p("m"), p("nope"), p("o.zz")) }, [][2]string{{"Any", "nope"}, {"Any", "o.zz"}}, "", ""},
	{func(p func(string) string, e string) both {
		return match.Any(p("nope"), p("m"), p("o.zz")).ErrOnMissingPath(false)
	}, nil, "<Any value>", ""},
	{func(p func(string) string, e string) both { return match.Type[string](p("m")) }, nil, "<Type:string>", ""},
	{func(p func(string) string, e string) both { return match.Type[bool](p("m")) }, [][2]string{{"Type", "m"}}, "", ""},
	{func(p func(string) string, e string) both { return match.Type[string](p("m"), p("nope"), p("k")) }, [][2]string{{"Type", "nope"}, {"Type", "k"}}, "", ""},
	{func(p func(string) string, e string) both {
		return match.Type[string](p("nope"), p("m")).ErrOnMissingPath(false)
	}, nil, "<Type:string>", ""},
	{func(p func(string) string, e string) both {
		return match.Type[string](p("nope"), p("k"), p("m")).ErrOnMissingPath(false)
	}, [][2]string{{"Type", "k"}}, "", ""},
	{func(p func(string) string, e string) both {
		return match.Custom(p("m"), func(any) (any, error) { return "result", errors.New(e) })
	}, [][2]string{{"Custom", "m"}}, "", ""},
	{func(p func(string) string, e string) both { return match.Custom(p("nope"), konst("x")) }, [][2]string{{"Custom", "nope"}}, "", ""},
	{func(p func(string) string, e string) both {
		return match.Custom(p("nope"), konst("x")).ErrOnMissingPath(false)
	}, nil, "", ""},
	{func(p func(string) string, e string) both { return match.Custom(p("k"), konst(5)) }, nil, "", "5"},
	{func(p func(string) string, e string) both {
		return match.Custom(p("m"), func(any) (any, error) { return nil, errors.New(e) }).ErrOnMissingPath(false)
	}, [][2]string{{"Custom", "m"}}, "", ""},
}

func failDoc(api int, m, k string) string {
	if api == apiYAML {
		return "m: \"" + m + "\"\no:\n  x: 1\nk: " + k + "\n"
	}
	return `{"k":` + k + `,"m":"` + m + `","o":{"x":1}}`
}

// failing: phase 1 records (or not) three calls, phase 2 repeats them with n
// matchers on the second one.
func failing(kinds []int, lo, hi int) []Phase {
	conf := func(opts ...func(*snaps.Config)) *snaps.Config {
		return snaps.WithConfig(append(opts, snaps.Dir(path("s")), snaps.Filename("f"))...)
	}
	api := func() int { return maskAPIs[Choice("api", len(maskAPIs))] }
	return []Phase{
		{nil, func() {
			if Choice("state", 2) == 0 {
				return
			}
			a := api()
			t := Test("TestA", func(t *T) {
				for i := 0; i < 3; i++ {
					doWith(conf(), t, a, failDoc(a, "old", "7"), nil)
				}
			})
			Assert(len(t.Errors) == 0, "recording fails")
		}},
		{func() {
			if Choice("mode", 3) == 2 {
				Setenv("CI", "true")
			}
		}, func() {
			a, state, mode := api(), Choice("state", 2), Choice("mode", 3)
			p := func(s string) string { return pathFor(a, s) }
			c := conf()
			if mode == 1 {
				c = conf(snaps.Update(true))
			}
			msg := "e" + printable("e", 1, 1)
			n := lo + Choice("n", hi-lo+1)
			var ms []both
			var want [][2]string
			m, k := "old", "7"
			for i := 0; i < n; i++ {
				f := failMs[kinds[Choice("m"+itoa(i), len(kinds))]]
				ms = append(ms, f.make(p, msg))
				want = append(want, f.fails...)
				if f.m != "" {
					m = f.m
				}
				if f.k != "" {
					k = f.k
				}
			}
			get := func(i int) (string, bool) {
				if a == apiAloneJSON {
					return readFile(path("s", "f_"+itoa(i)+".snap.json"))
				}
				s, _ := readFile(path("s", "f.snap"))
				es, ok := parse(s)
				Assert(ok, "the snapshot file is malformed")
				v, n := find(es, "TestA - "+itoa(i))
				return v, n == 1
			}
			Test("TestA", func(t *T) {
				doWith(c, t, a, failDoc(a, "old", "7"), nil)
				Assert(t.quiet() == (state == 1), "the first call has another outcome")
				e0, l0 := len(t.Errors), len(t.Logs)
				old, had := get(2)
				FSMark()
				doWith(c, t, a, failDoc(a, "old", "7"), ms)
				errs, logs := t.Errors[e0:], t.Logs[l0:]
				now, has := get(2)
				if len(want) > 0 {
					Assert(len(errs) == 1 && len(logs) == 0, "failing matchers do not report exactly one error")
					Assert(FSTouched() == "" && has == had && now == old, "a call with failing matchers writes")
					rest := errs[0]
					for _, w := range want {
						name := "match." + w[0] + `("` + p(w[1]) + `")`
						i := strings.Index(rest, name)
						Assert(i >= 0, "a failing matcher is not named")
						rest = rest[i+len(name):]
					}
					Assert(strings.Count(errs[0], "match.") == len(want), "a matcher that did not fail is named")
				} else {
					same := m == "old" && k == "7"
					switch {
					case state == 1 && same:
						Assert(len(errs) == 0 && len(logs) == 0, "ignoring a missing path changes the outcome")
					case mode == 2 || state == 1 && mode == 0:
						Assert(len(errs) == 1 && len(logs) == 0 && FSTouched() == "", "ignoring a missing path skips the comparison")
					default:
						Assert(len(errs) == 0 && len(logs) == 1 && has, "ignoring a missing path skips storing")
						if a == apiYAML {
							g, w := readYAML(unesc(now)), readYAML(failDoc(a, m, k))
							Assert(len(g) == 1 && sameYAML(g[0], w[0]), "the remaining matchers are not applied")
						} else {
							Assert(sameJSON(readJSON(now), readJSON(failDoc(a, m, k)), false), "the remaining matchers are not applied")
						}
					}
				}
				// later calls keep their slots
				e0, l0 = len(t.Errors), len(t.Logs)
				doWith(c, t, a, failDoc(a, "old", "7"), nil)
				switch {
				case state == 1:
					Assert(len(t.Errors) == e0 && len(t.Logs) == l0, "a call after the failing one does not address its own slot")
				case mode == 2:
					Assert(len(t.Errors) == e0+1, "a call after the failing one does not address its own slot")
				default:
					_, ok := get(3)
					Assert(ok && len(t.Errors) == e0 && len(t.Logs) == l0+1, "a call after the failing one does not address its own slot")
				}
				Observe("errs", t.Errors...)
			})
		}},
	}
}

func init() {
	all := make([]int, len(failMs))
	for i := range all {
		all[i] = i
	}
	reg("c17_two", failing(all, 1, 2)...)
	reg("c17_three", failing([]int{0, 1, 3, 6, 9, 12}, 3, 3)...)
	reg("c17_three_all", failing(all, 3, 3)...)
	// matchers are values of the caller: used in several calls they do in each of
	// them what matchers made for that call do
	reuse := func(n int) Phase {
		return Phase{nil, func() {
			a := maskAPIs[Choice("api", len(maskAPIs))]
			p := func(s string) string { return pathFor(a, s) }
			mk := func() []both {
				var ms []both
				for i := 0; i < n; i++ {
					k := Choice("m"+itoa(i), len(failMs)+3)
					switch k - len(failMs) {
					case 0:
						ms = append(ms, match.Custom(p("m"), func(v any) (any, error) { return fmt.Sprintf("%T", v), nil }))
					case 1:
						ms = append(ms, match.Custom(p("m"), func(v any) (any, error) {
							if _, ok := v.(string); ok {
								return v, nil
							}
							return nil, errors.New("no string")
						}))
					case 2:
						ms = append(ms, match.Any(p("nope"), p("m"), p("k")).Placeholder([]string{"x"}))
					default:
						ms = append(ms, failMs[k].make(p, "e"))
					}
				}
				return ms
			}
			docs := []string{`{"k":7,"m":"1","o":{"x":1}}`, `{"k":"7","m":1,"o":{"zz":2}}`, `{"k":7,"o":{}}`, `{"m":true,"nope":1,"k":null,"o":{"zz":1}}`}
			shared := mk()
			t, u := NewT("TestA"), NewT("TestA")
			for i := 0; i < 3; i++ {
				d := docs[Choice("d"+itoa(i), len(docs))]
				doWith(snaps.WithConfig(snaps.Dir(path("a")), snaps.Filename("f")), t, a, d, shared)
				doWith(snaps.WithConfig(snaps.Dir(path("b")), snaps.Filename("f")), u, a, d, mk())
				Assert(sameReports(t, u), "matchers used before end a call differently")
			}
			Assert(sameTree(path("a"), path("b")), "matchers used before store something else")
		}}
	}
	reg("c17_reuse", reuse(1))
	reg("c15_reuse", reuse(1))
	reg("c17_reuse2", reuse(2))
	// a symbolic path fails exactly if the document does not have it
	reg("c17_path", Phase{nil, func() {
		api := maskAPIs[Choice("api", len(maskAPIs))]
		p := word("p", 1)
		if Choice("long", 2) == 1 {
			p = "o." + p
		}
		eomp := Choice("eomp", 2) == 1
		kind := Choice("kind", 3)
		var m both
		q := pathFor(api, p)
		switch kind {
		case 0:
			m = match.Any(q).ErrOnMissingPath(eomp)
		case 1:
			m = match.Type[string](q).ErrOnMissingPath(eomp)
		case 2:
			m = match.Custom(q, konst("r")).ErrOnMissingPath(eomp)
		}
		has := p == "m" || p == "k" || p == "o" || p == "o.x"
		ok := has && (kind != 1 || p == "m") || !has && !eomp
		c := snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"))
		t := Test("TestA", func(t *T) { doWith(c, t, api, failDoc(api, "old", "7"), []both{m}) })
		if ok {
			Assert(len(t.Errors) == 0 && len(t.Logs) == 1 && len(tree()) == 1, "a matcher on an existing path or an ignored missing one fails")
		} else {
			name := []string{"Any", "Type", "Custom"}[kind]
			Assert(len(t.Errors) == 1 && len(t.Logs) == 0 && len(tree()) == 0, "a failing matcher does not report exactly one error or writes")
			Assert(strings.Contains(t.Errors[0], "match."+name+`("`+q+`")`), "a failing matcher is not named")
		}
	}})
	// paths through scalars, past the end of lists, through null and empty
	// values, with the modes of a configuration
	reg("c17_deep", Phase{func() {
		if Choice("mode", 3) == 2 {
			Setenv("CI", "true")
		}
	}, func() {
		api, mode := maskAPIs[Choice("api", len(maskAPIs))], Choice("mode", 3)
		pre := []string{"", "m.", "o.", "o.x.", "l.", "l.0.", "l.1.", "e.", "n.", "v."}[Choice("pre", 10)]
		b := SymBytes("p", 1)
		Assume(b[0] >= 'a' && b[0] <= 'z' || digit(b[0]))
		p := pre + string(b)
		if pre == "" && digit(b[0]) {
			Unreachable()
		}
		doc := `{"m":"old","o":{"x":1},"l":[1,{"i":2}],"e":[],"n":null,"v":{}}`
		has := false
		for _, q := range []string{"m", "o", "l", "e", "n", "v", "o.x", "l.0", "l.1", "l.1.i"} {
			has = has || p == q
		}
		eomp := Choice("eomp", 2) == 1
		q := pathFor(api, p)
		kind := Choice("kind", 3)
		m := []both{match.Any(q).ErrOnMissingPath(eomp), match.Type[string](q).ErrOnMissingPath(eomp), match.Custom(q, konst("r")).ErrOnMissingPath(eomp)}[kind]
		m2 := match.Any(pathFor(api, "m")).Placeholder("M")
		c := snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"))
		if mode == 1 {
			c = snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"), snaps.Update(true))
		}
		t := Test("TestA", func(t *T) { doWith(c, t, api, doc, []both{m, m2}) })
		if has && (kind != 1 || p == "m") || !has && !eomp {
			if mode == 2 {
				Assert(len(t.Errors) == 1 && !strings.Contains(t.Errors[0], "match.") && len(tree()) == 0, "a matcher on an existing path or an ignored missing one fails")
				return
			}
			Assert(len(t.Errors) == 0 && len(t.Logs) == 1 && len(tree()) == 1, "a matcher on an existing path or an ignored missing one fails")
			if !has {
				want := strings.Replace(doc, `"old"`, `"M"`, 1)
				if api == apiYAML {
					s, _ := readFile(path("s", "f.snap"))
					es, ok := parse(s)
					Assert(ok && len(es) == 1, "the snapshot file is malformed")
					g, w := readYAML(unesc(es[0].body)), readYAML(want)
					Assert(len(g) == 1 && sameYAML(g[0], w[0]), "ignoring a missing path changes the document or skips the remaining matchers")
				}
			}
			return
		}
		Assert(len(t.Errors) == 1 && len(t.Logs) == 0 && len(tree()) == 0, "a failing matcher does not report exactly one error or writes")
		Assert(strings.Contains(t.Errors[0], "match."+[]string{"Any", "Type", "Custom"}[kind]+`("`+q+`")`), "a failing matcher is not named")
	}})
	// YAML paths with wildcards exist exactly if anything matches
	reg("c17_ywild", Phase{nil, func() {
		b := SymBytes("p", 1)
		Assume(b[0] >= 'a' && b[0] <= 'z')
		c := string(b)
		k := Choice("path", 5)
		p := []string{"$.g[*].", "$..", "$.g[*].h[*].", "$[*].", "$[*].h[*]."}[k] + c
		flow := Choice("flow", 2) == 1
		val := func(key, v, w string) string {
			if key == c {
				return w
			}
			return v
		}
		// the document with what the path matches replaced by x
		item := func(x string, id bool) string {
			i, j, hq, h := "1", "2", "4", ""
			if k == 0 || k == 1 || k == 3 {
				j = val("j", j, x)
				if id {
					i = val("i", i, x)
				}
			}
			if k == 1 || k == 2 || k == 4 {
				hq = val("q", hq, x)
			}
			h = "[{q: " + hq + "}, {r: " + map[bool]string{true: x, false: "5"}[c == "r" && (k == 1 || k == 2 || k == 4)] + "}]"
			if c == "h" && (k == 0 || k == 1 || k == 3) {
				h = x
			}
			first := map[bool]string{true: "i", false: "s"}[id]
			if !id {
				i = val("s", i, x)
				if k == 2 || k == 4 {
					i = "1"
				}
			}
			if flow {
				return "{" + first + ": " + i + ", j: " + j + ", h: " + h + "}"
			}
			return first + ": " + i + "\n    j: " + j + "\n    h: " + h
		}
		list := func(x string) string {
			if k >= 3 {
				return "  - " + item(x, true) + "\n  - " + item(x, false) + "\n"
			}
			if k == 1 && c == "g" {
				return "g: " + x + "\nz: 0\n"
			}
			z := "0"
			if k == 1 {
				z = val("z", z, x)
			}
			return "g:\n  - " + item(x, true) + "\n  - " + item(x, false) + "\nz: " + z + "\n"
		}
		key := c
		c = "!"
		in := list("X")
		c = key
		has := list("X") != in
		kind, eomp := Choice("kind", 3), Choice("eomp", 2) == 1
		m := []match.YAMLMatcher{match.Any(p).Placeholder("X").ErrOnMissingPath(eomp), match.Type[bool](p).ErrOnMissingPath(eomp), match.Custom(p, konst("X")).ErrOnMissingPath(eomp)}[kind]
		s, t := storeYAML(in, m)
		if has && kind != 1 || !has && !eomp {
			Assert(len(t.Errors) == 0, "a matcher on an existing path or an ignored missing one fails")
			g, w := readYAML(s), readYAML(list("X"))
			Assert(len(g) == 1 && len(w) == 1 && sameYAML(g[0], w[0]), "a matcher with a wildcard does not replace exactly what it matches")
			return
		}
		Assert(len(t.Errors) == 1 && len(t.Logs) == 0 && len(tree()) == 0, "a failing matcher does not report exactly one error or writes")
		Assert(strings.Contains(t.Errors[0], "match."+[]string{"Any", "Type", "Custom"}[kind]+`("`+p+`")`), "a failing matcher is not named")
	}})
	// documents without a body
	reg("c17_yempty", Phase{nil, func() {
		in := []string{"", "\n", " \n", "---", "---\n", "# c\n", "\n\n"}[Choice("doc", 7)]
		eomp, kind := Choice("eomp", 2) == 1, Choice("kind", 3)
		p := []string{"$.a", "$[0]", "$..a", "$.a[*].b"}[Choice("path", 4)]
		if in == "# c\n" {
			p = "$.a" // a comment is a body a wildcard may not lead through
		}
		m := []match.YAMLMatcher{match.Any(p).ErrOnMissingPath(eomp), match.Type[bool](p).ErrOnMissingPath(eomp), match.Custom(p, konst("X")).ErrOnMissingPath(eomp)}[kind]
		_, t := storeYAML(in, m)
		if !eomp {
			Assert(len(t.Errors) == 0 && len(tree()) == 1, "an ignored missing path fails")
			return
		}
		Assert(len(t.Errors) == 1 && len(t.Logs) == 0 && len(tree()) == 0, "a failing matcher does not report exactly one error or writes")
	}})
}
