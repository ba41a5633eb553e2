package zzverif

import (
	"path/filepath"
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
)

// optSet: the options of a config; every subset of Filename, Ext, Update and
// JSON, contents of the values fixed.
func optSet(nm, dir string, kinds int) []func(*snaps.Config) {
	o := []func(*snaps.Config){snaps.Dir(dir)}
	k := Choice(nm, kinds)
	if k&1 == 1 {
		o = append(o, snaps.Filename("f"))
	}
	if k&2 == 2 {
		o = append(o, snaps.Ext(".e"))
	}
	if k&4 == 4 {
		o = append(o, snaps.JSON(snaps.JSONConfig{Indent: "\t", Width: 10, SortKeys: false}))
	}
	if k&8 == 8 {
		o = append(o, snaps.Update(Choice(nm+"upd", 2) == 1))
	}
	return o
}

// use performs one call through c: kind selects a value, a changed value and
// failing calls.
func use(c *snaps.Config, t *T, api, kind int, v string) {
	doc := `{"b": "` + v + `", "a": [1, 2, 3]}`
	if kind == 1 { // rejected input or matcher
		switch api {
		case apiJSON:
			c.MatchJSON(t, doc, match.Any("nope"))
			return
		case apiYAML:
			c.MatchYAML(t, "a: [")
			return
		case apiAloneJSON:
			c.MatchStandaloneJSON(t, "{")
			return
		}
	}
	switch api {
	case apiSnap:
		c.MatchSnapshot(t, v)
	case apiJSON:
		c.MatchJSON(t, doc)
	case apiYAML:
		c.MatchYAML(t, "b: "+v)
	case apiAlone:
		c.MatchStandaloneSnapshot(t, v)
	case apiAloneJSON:
		c.MatchStandaloneJSON(t, doc, match.Any("a"))
	}
}

func sameTree(a, b string) bool {
	fa, fb := treeOf(a), treeOf(b)
	if len(fa) != len(fb) {
		return false
	}
	for i := range fa {
		if fa[i] != fb[i] || mustRead(a+"/"+fa[i]) != mustRead(b+"/"+fb[i]) {
			return false
		}
	}
	return true
}

// reports of two trees differ in the directory they print
func sameReports(a, b *T) bool {
	if outcome(a) != outcome(b) || len(a.Errors) != len(b.Errors) {
		return false
	}
	for i := range a.Errors {
		if strings.ReplaceAll(a.Errors[i], "/a/", "/b/") != b.Errors[i] {
			return false
		}
	}
	return true
}

func init() {
	// sequences through one config and the same calls through fresh ones
	seq := func(n, kinds, optKinds int, again bool) Phase {
		return Phase{nil, func() {
			shared := snaps.WithConfig(optSet("o", path("a"), optKinds)...)
			pass := func(nm string, vals []string, api, kind []int) {
				ta, tb := NewT("TestC/x"), NewT("TestC/x")
				for i := range api {
					use(shared, ta, api[i], kind[i], vals[i])
					use(snaps.WithConfig(optSet("o", path("b"), optKinds)...), tb, api[i], kind[i], vals[i])
					Assert(outcome(ta) == outcome(tb), "a call through a used config ends differently")
				}
				Assert(sameReports(ta, tb), "a call through a used config reports something else")
				Assert(sameTree(path("a"), path("b")), "a call through a used config stores something else or elsewhere")
				ta.Finish()
				tb.Finish()
			}
			api, kind := make([]int, n), make([]int, n)
			v1, v2 := make([]string, n), make([]string, n)
			for i := range api {
				x := strconv.Itoa(i)
				api[i] = Choice("api"+x, 5)
				if kinds > 1 {
					kind[i] = Choice("kind"+x, kinds)
				}
				v1[i] = "v" + x
				v2[i] = "w" + word("w"+x, 1)
			}
			pass("first", v1, api, kind)
			if again {
				pass("second", v2, api, kind)
			}
		}}
	}
	reg("c12_two", seq(2, 2, 16, false))
	reg("c12_again", seq(2, 1, 16, true))
	reg("c12_three", seq(3, 1, 8, false))
	reg("c12_threebad", seq(3, 2, 8, false))
	reg("c12_four", seq(4, 1, 4, false))
	// configs are independent of each other, of the order they are built in and
	// of options used for several of them
	reg("c12_indep", Phase{nil, func() {
		upd, js := snaps.Update(true), snaps.JSON(snaps.JSONConfig{Indent: "  "})
		fn := "r"
		mk := func(i int, dir string) *snaps.Config {
			d := snaps.Dir(path(dir))
			switch i {
			case 0:
				return snaps.WithConfig(d)
			case 1:
				return snaps.WithConfig(d, upd, js, snaps.Filename(fn))
			case 2:
				return snaps.WithConfig(d, js, snaps.Ext(".x"))
			case 3:
				return snaps.WithConfig(d, snaps.Filename("q"), snaps.Filename(fn), upd)
			case 4:
				return snaps.WithConfig(d, js, snaps.Update(false), snaps.JSON(snaps.JSONConfig{SortKeys: true}))
			}
			return nil
		}
		x, y := Choice("x", 5), Choice("y", 5)
		cx, cy := mk(x, "a"), mk(y, "a")
		ta := NewT("TestI")
		tb := NewT("TestI")
		for i := 0; i < 3; i++ {
			s := strconv.Itoa(i)
			api, which := Choice("api"+s, 5), Choice("which"+s, 2)
			if which == 0 {
				use(cx, ta, api, 0, "v")
				use(mk(x, "b"), tb, api, 0, "v")
			} else {
				use(cy, ta, api, 0, "v")
				use(mk(y, "b"), tb, api, 0, "v")
			}
		}
		Assert(sameReports(ta, tb), "configs affect each other")
		Assert(sameTree(path("a"), path("b")), "configs affect each other")
	}})
	// the package level functions keep the defaults whatever configs are used
	reg("c12_defaults", Phase{nil, func() {
		api, api2 := Choice("api", 5), Choice("api2", 5)
		rel := HarnessDir() + "/__snapshots__"
		t := NewT("TestD")
		c := snaps.WithConfig(optSet("o", path("a"), 16)...)
		doc := `{"b":1,"a":[1,2]}`
		pkg := func(t *T) {
			switch api2 {
			case apiSnap:
				snaps.MatchSnapshot(t, "v")
			case apiJSON:
				snaps.MatchJSON(t, doc)
			case apiYAML:
				snaps.MatchYAML(t, "b: 1")
			case apiAlone:
				snaps.MatchStandaloneSnapshot(t, "v")
			case apiAloneJSON:
				snaps.MatchStandaloneJSON(t, doc)
			}
		}
		first := Choice("first", 2) == 1
		if first {
			pkg(t)
		}
		use(c, t, api, 0, "v")
		u := NewT("TestE")
		pkg(u)
		Assert(outcome(u) == "log", "a package level function does not create its snapshot")
		name := []string{"c12_test.snap", "c12_test.snap", "c12_test.snap", "TestE_1.snap", "TestE_1.snap.json"}[api2]
		text, ok := readFile(rel + "/" + name)
		Assert(ok, "a package level function stores elsewhere after a config was used")
		want := []string{"v", "{\n \"a\": [\n  1,\n  2\n ],\n \"b\": 1\n}", "b: 1", "v", "{\n \"a\": [\n  1,\n  2\n ],\n \"b\": 1\n}"}[api2]
		if api2 <= apiYAML {
			b, n := find(mustParse(text), "TestE - 1")
			Assert(n == 1, "a package level function stores something else after a config was used")
			text = b
		}
		Assert(text == want, "a package level function stores something else after a config was used")
		if n := len(treeOf(rel)); first && api2 > apiYAML {
			Assert(n == 2, "other files appear next to the default snapshots")
		} else {
			Assert(n == 1, "other files appear next to the default snapshots")
		}
	}})
	// Clean, Skip and failing calls in between change nothing either
	reg("c12_between", Phase{nil, func() {
		c := snaps.WithConfig(optSet("o", path("a"), 16)...)
		api := Choice("api", 5)
		ta, tb := NewT("TestB"), NewT("TestB")
		switch Choice("between", 3) {
		case 0:
			Test("TestS", func(t *T) {
				c.MatchSnapshot(t, "s")
				snaps.Skip(t)
			})
			Test("TestS", func(t *T) {
				snaps.WithConfig(optSet("o", path("b"), 16)...).MatchSnapshot(t, "s")
			})
		case 1:
			CaptureStdout(func() { snaps.Clean(nil, snaps.CleanOpts{Sort: true}) })
		case 2:
			for i := 0; i < 3; i++ {
				use(c, NewT("TestF"), apiAloneJSON, 1, "v")
				use(c, NewT("TestF"), apiJSON, 1, "v")
				use(snaps.WithConfig(optSet("o", path("b"), 16)...), NewT("TestF"), apiAloneJSON, 1, "v")
				use(snaps.WithConfig(optSet("o", path("b"), 16)...), NewT("TestF"), apiJSON, 1, "v")
			}
		}
		use(c, ta, api, 0, "v")
		use(snaps.WithConfig(optSet("o", path("b"), 16)...), tb, api, 0, "v")
		Assert(outcome(ta) == outcome(tb) && sameTree(path("a"), path("b")), "a call through a used config stores something else or elsewhere")
	}})
	// concurrent use of one config
	conc := func(n, optKinds int, apis []int, relative bool) Phase {
		return Phase{nil, func() {
			pa, pb := path("a"), path("b")
			da, db := pa, pb
			if relative {
				da, db = "__snapshots__/a", "./__snapshots__/b"
				pa, pb = HarnessDir()+"/__snapshots__/a", HarnessDir()+"/__snapshots__/b"
			}
			c := snaps.WithConfig(optSet("o", da, optKinds)...)
			api := make([]int, n)
			for i := range api {
				api[i] = apis[Choice("api"+strconv.Itoa(i), len(apis))]
				if i > 0 && api[i] < api[i-1] {
					Unreachable()
				}
			}
			if optKinds > 1 && Choice("o", optKinds)&1 == 1 && api[n-2] >= apiAlone {
				Unreachable() // calls of two live tests that number the same files
			}
			ta, tb := make([]*T, n), make([]*T, n)
			for i := range api {
				ta[i], tb[i] = NewT("TestP"+strconv.Itoa(i)), NewT("TestP"+strconv.Itoa(i))
				use(snaps.WithConfig(optSet("o", db, optKinds)...), tb[i], api[i], 0, "v")
			}
			DetectRaces()
			ExploreSchedules(-1)
			for i := range api {
				i := i
				Go(func() { use(c, ta[i], api[i], 0, "v") })
			}
			WaitAll()
			StopSchedules()
			for i := range api {
				Assert(sameReports(ta[i], tb[i]), "a call through a config in use ends differently")
			}
			fa, fb := treeOf(pa), treeOf(pb)
			Assert(len(fa) == len(fb), "a call through a config in use stores something elsewhere")
			for i := range fa {
				Assert(fa[i] == fb[i], "a call through a config in use stores something elsewhere")
				a, b := mustRead(pa+"/"+fa[i]), mustRead(pb+"/"+fa[i])
				if a == b {
					continue
				}
				// entries of one file in another order
				ea, eb := mustParse(a), mustParse(b)
				Assert(len(ea) == len(eb), "a call through a config in use stores something else")
				for _, e := range eb {
					x, k := find(ea, e.id)
					Assert(k == 1 && x == e.body, "a call through a config in use stores something else")
				}
			}
		}}
	}
	reg("c12_par", conc(2, 2, []int{0, 1, 2, 3, 4}, false))
	reg("c12_paropts", conc(2, 16, []int{1, 3, 4}, false))
	reg("c12_par3", conc(3, 1, []int{1, 3, 4}, false))
	reg("c12_parrel", conc(2, 8, []int{0, 1, 2, 3, 4}, true))
	// one config used by calls of several test files: each is stored where a
	// config of its own would store it
	files := func(n int) Phase {
		return Phase{nil, func() {
			dir := []string{"", "__snapshots__/more", "./__snapshots__/../__snapshots__/x", path("s")}[Choice("dir", 4)]
			fn := []string{"", "f"}[Choice("fn", 2)]
			ext := []string{"", ".e"}[Choice("ext", 2)]
			c := opts(dir, fn, ext)
			if c == nil {
				c = snaps.WithConfig()
			}
			var at, tests []string
			var apis []int
			for k := 0; k < n; k++ {
				x := strconv.Itoa(k)
				i, api := Choice("file"+x, 4), Choice("api"+x, 5)
				from := HarnessDir()
				if d := filepath.Dir(lineFiles[i]); d != "." {
					from += "/" + d
				}
				base := strings.TrimSuffix(filepath.Base(lineFiles[i]), ".go")
				test := "TestF" + x
				w := where(from, base, test, api, 1, dir, fn, ext)
				for j, o := range at {
					// calls of two live tests that number the same files
					if o == w && api >= apiAlone && apis[j] >= apiAlone {
						Unreachable()
					}
				}
				in, _ := valueOf(api, 1)
				t := NewT(test)
				lineCalls[i](0, c, t, api, in)
				Assert(outcome(t) == "log", "a call through a config used in another file ends differently")
				at, tests, apis = append(at, w), append(tests, test), append(apis, api)
			}
			for k := range at {
				Assert(holds(at[k], tests[k], apis[k], 1), "a call through a config used in another file is stored elsewhere")
			}
		}}
	}
	reg("c12_files", files(2))
	reg("c12_files3", files(3))
	// the JSON format of a config is its own, however close the formats of the
	// configs used before it are
	jsonOf := func(name, dir string) *snaps.Config {
		return snaps.WithConfig(snaps.Dir(dir), snaps.Filename("f"), snaps.JSON(snaps.JSONConfig{
			Indent:   []string{"", " ", "\t"}[Choice(name+"i", 3)],
			Width:    []int{0, 9, 80}[Choice(name+"w", 3)],
			SortKeys: Choice(name+"s", 2) == 1,
		}))
	}
	jsonUse := func(c *snaps.Config, t *T) {
		c.MatchJSON(t, `{"b":[1,2,3],"a":{"d":"x","c":[10,200]}}`)
		c.MatchStandaloneJSON(t, `{"b":[1,2,3],"a":{"d":"x","c":[10,200]}}`)
	}
	reg("c12_json", Phase{nil, func() {
		jsonUse(jsonOf("y", path("b")), NewT("TestJ"))
	}}, Phase{nil, func() {
		switch Choice("x", 3) {
		case 0:
			jsonUse(jsonOf("x", path("o")), NewT("TestJ"))
		case 1:
			snaps.WithConfig(snaps.Dir(path("o")), snaps.Filename("f")).MatchJSON(NewT("TestJ"), `{"b":[1,2,3],"a":1}`)
		case 2:
			x, t := jsonOf("x", path("o")), NewT("TestJ")
			c := jsonOf("y", path("a"))
			jsonUse(x, t)
			jsonUse(c, NewT("TestJ"))
			Assert(sameTree(path("a"), path("b")), "a config used before decides the format of another")
			return
		}
		jsonUse(jsonOf("y", path("a")), NewT("TestJ"))
		Assert(sameTree(path("a"), path("b")), "a config used before decides the format of another")
	}})
	// two configs built in any order of making and applying their options, each
	// does what its own options say
	reg("c12_own", Phase{nil, func() {
		for _, d := range []string{"a", "b"} {
			for _, f := range []string{"f", "g"} {
				for _, u := range []string{"TestX", "TestY"} {
					t := NewT(u)
					c := snaps.WithConfig(snaps.Dir(path(d)), snaps.Filename(f))
					c.MatchJSON(t, `{"a":0}`)
					t.Finish()
				}
			}
		}
	}}, Phase{func() {
		if Choice("env", 2) == 1 {
			Setenv("UPDATE_SNAPS", "true")
		}
	}, func() {
		dirs, fns, inds := []string{"a", "b"}, []string{"f", "g"}, []string{" ", "\t", "  ", ""}
		var o [2][]func(*snaps.Config)
		upd := [2]int{Choice("updx", 3), Choice("updy", 3)}
		js := [2]int{Choice("jsonx", 5), Choice("jsony", 5)}
		same := Choice("same", 2) == 1
		mk := func(i int) {
			o[i] = make([]func(*snaps.Config), 0, 8)
			o[i] = append(o[i], snaps.Dir(path(dirs[i])))
			if same {
				o[i] = append(o[i], snaps.Filename("f"))
			} else {
				o[i] = append(o[i], snaps.Filename(fns[i]))
			}
			if upd[i] > 0 {
				o[i] = append(o[i], snaps.Update(upd[i] == 2))
			}
			if js[i] > 0 {
				o[i] = append(o[i], snaps.JSON(snaps.JSONConfig{Indent: inds[js[i]-1], Width: []int{0, 7, 0, 80}[js[i]-1], SortKeys: js[i] == 4}))
			}
		}
		var c [2]*snaps.Config
		switch Choice("order", 4) {
		case 0:
			mk(0)
			mk(1)
			c[0], c[1] = snaps.WithConfig(o[0]...), snaps.WithConfig(o[1]...)
		case 1:
			mk(0)
			mk(1)
			c[1], c[0] = snaps.WithConfig(o[1]...), snaps.WithConfig(o[0]...)
		case 2:
			mk(0)
			c[0] = snaps.WithConfig(o[0]...)
			mk(1)
			c[1] = snaps.WithConfig(o[1]...)
		case 3: // options applied twice, the second time for nothing
			mk(1)
			mk(0)
			c[0], c[1] = snaps.WithConfig(o[0]...), snaps.WithConfig(o[1]...)
			snaps.WithConfig(append(o[0], snaps.Dir(path("z")), snaps.Filename("z"), snaps.Ext(".z"), snaps.Update(true), snaps.JSON(snaps.JSONConfig{Indent: "zz"}))...)
			snaps.Update(false)
			snaps.JSON(snaps.JSONConfig{})
		}
		first := Choice("first", 2)
		for n := 0; n < 2; n++ {
			i := (first + n) % 2
			test := []string{"TestX", "TestY"}[i]
			t := NewT(test)
			c[i].MatchJSON(t, `{"a":1}`)
			f := "f"
			if !same {
				f = fns[i]
			}
			can := upd[i] == 2 || upd[i] == 0 && Choice("env", 2) == 1
			want, text := "error", "{\n \"a\": 0\n}"
			if can {
				want = "log"
				text = "{\n" + append([]string{" "}, inds...)[js[i]] + "\"a\": 1\n}"
			}
			Assert(outcome(t) == want, "a config does not follow its own Update option")
			b, k := find(mustParse(mustRead(path(dirs[i], f+".snap"))), test+" - 1")
			Assert(k == 1 && b == text, "a config does not follow its own options")
		}
		Assert(len(tree()) == 4, "a config stores elsewhere")
	}})
}
