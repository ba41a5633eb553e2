package zzverif

import (
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

func cfgF() *snaps.Config { return snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f")) }

// recordReplay: phase 1 runs prog and must succeed; phase 2 runs it again and
// must be silent and write nothing.
func recordReplay(prog func(test func(name string, f func(t *T)))) []Phase {
	return []Phase{
		{nil, func() {
			prog(func(name string, f func(t *T)) {
				t := Test(name, f)
				Assert(len(t.Errors) == 0, "recording a new value fails")
			})
			for _, f := range tree() {
				Observe(f, mustRead(path(f)))
			}
			Assert(len(tree()) > 0, "nothing was recorded")
		}},
		{nil, func() {
			names := tree()
			var before []string
			for _, f := range names {
				before = append(before, mustRead(path(f)))
			}
			FSMark()
			prog(func(name string, f func(t *T)) {
				t := Test(name, f)
				Assert(len(t.Errors) == 0, "replaying the recorded value fails")
				Assert(t.quiet(), "a replayed call logs to the test")
			})
			Assert(FSTouched() == "", "replay writes to the snapshot directory")
			for i, f := range names {
				Assert(mustRead(path(f)) == before[i], "replay changes the snapshot file")
			}
		}},
	}
}

type testFn = func(name string, f func(t *T))

func init() {
	one := func(val func() []any) []Phase {
		return recordReplay(func(test testFn) {
			v := val()
			Assume(!crEOL(fmtText(v...)))
			test("TestA", func(t *T) { cfgF().MatchSnapshot(t, v...) })
		})
	}
	reg("c01_bytes", one(func() []any { return []any{SymString("v", 0, 3)} })...)
	reg("c01_bytes4", one(func() []any { return []any{SymString("v", 4, 5)} })...)
	// lines over the bytes that matter to the format
	reg("c01_alpha", one(func() []any { return []any{SymAlpha("v", 0, 8, "\n-/ [")} })...)
	reg("c01_lines", one(func() []any { return []any{symLines("v", 3, 0, 1, 3, 7, 8, 11)} })...)
	// several operands, and non-string operands
	reg("c01_operands", one(func() []any {
		n := SymInt("n", -3, 3)
		return [][]any{
			{SymString("a", 0, 2), SymString("b", 0, 2)},
			{SymString("a", 0, 1), 10, SymString("b", 0, 1)},
			{n, true, nil},
			{[]byte(SymString("a", 0, 2))},
			{map[string]int{"k": 1, "j": 2}, []string{SymString("a", 0, 2), "---"}},
			{struct {
				A string
				B *int
			}{SymString("a", 0, 2), nil}},
			{strings.NewReplacer},
		}[Choice("form", 6)]
	})...)
	// several calls of two tests share the file; the values contain headers of
	// other entries, terminators, blank lines
	reg("c01_calls", recordReplay(func(test testFn) {
		vals := func(k string) string { return symLines(k, 2, 0, 3, 11) }
		test("TestA", func(t *T) {
			cfgF().MatchSnapshot(t, vals("p"))
			cfgF().MatchSnapshot(t, vals("q"))
		})
		test("TestB", func(t *T) { cfgF().MatchSnapshot(t, "x") })
	})...)
	// a mix of APIs in one file
	docs := func(api int, k string) string {
		switch api {
		case apiJSON:
			w := word(k, 2)
			return []string{`{"b":"` + w + `","a":[1,2,{}]}`, `["` + w + ` - 1"]`, `"---` + w + `"`, `12`}[Choice(k+"#doc", 4)]
		case apiYAML:
			w := word(k, 1)
			return []string{"---\na: " + w + "\n---\nb: 1\n", "# c\n- " + w, "[TestA - 2]\n", "a: |\n  ---\n\n  " + w + "\n\n", "---\n---\n"}[Choice(k+"#doc", 5)]
		}
		return []string{"---", "\n\n", "[TestA - " + string(byte('1'+SymInt(k+"#i", 0, 8))) + "]\nx\n---", ""}[Choice(k+"#doc", 4)]
	}
	reg("c01_mix", recordReplay(func(test testFn) {
		test("TestA", func(t *T) {
			for i := 0; i < 2; i++ {
				k := "c" + string(rune('1'+i))
				api := Choice(k, 3)
				do(cfgF(), t, api, docs(api, k))
			}
		})
		test("TestA/sub", func(t *T) {
			api := Choice("c3", 3)
			do(cfgF(), t, api, []string{"---", `{"a":"---"}`, "a: b\n---\nc: d"}[api])
		})
	})...)
	reg("c01_mix3", recordReplay(func(test testFn) {
		test("TestA", func(t *T) {
			for i := 0; i < 3; i++ {
				k := "c" + string(rune('1'+i))
				api := Choice(k, 3)
				do(cfgF(), t, api, docs(api, k))
			}
		})
	})...)
	// more than nine calls of one test: ordinals of two digits
	reg("c01_many", recordReplay(func(test testFn) {
		test("TestA", func(t *T) {
			for i := 0; i < 12; i++ {
				v := "v"
				if i == 0 {
					v = "[TestA - " + string(SymBytes("d", 2)) + "]"
					Assume(!crEOL(v) && fmtText(v) == v)
				}
				if i == 10 {
					v = SymAlpha("w", 0, 3, "-\n")
				}
				cfgF().MatchSnapshot(t, v)
			}
		})
	})...)
	// a line far beyond the default limit of bufio.Scanner (64 KiB) and the
	// initial buffer sizes
	reg("c01_long", recordReplay(func(test testFn) {
		n := []int{4095, 4096, 65535, 65536, 70000, 200000}[Choice("n", 6)]
		long := strings.Repeat("x", n)
		test("TestA", func(t *T) {
			cfgF().MatchSnapshot(t, long+SymAlpha("w", 0, 2, "-\nx"))
			cfgF().MatchSnapshot(t, SymAlpha("u", 0, 1, "-\n")+long)
			cfgF().MatchSnapshot(t, "end")
		})
	})...)
	reg("c01_huge", recordReplay(func(test testFn) {
		n := []int{1<<20 + 1, 3 << 20}[Choice("n", 2)]
		v := strings.Repeat("x", n) + SymAlpha("w", 0, 1, "-\n")
		test("TestA", func(t *T) {
			switch Choice("api", 3) {
			case 0:
				cfgF().MatchSnapshot(t, v)
			case 1:
				cfgF().MatchStandaloneSnapshot(t, v)
			case 2:
				cfgF().MatchSnapshot(t, strings.Repeat(strings.Repeat("x", 50000)+"\n", n/50000), v[n:])
			}
			cfgF().MatchSnapshot(t, "end")
		})
	})...)
	// an entry after very many lines, or after very many entries
	reg("c01_rows", recordReplay(func(test testFn) {
		n := []int{5000, 40000, 140000}[Choice("n", 3)]
		kind := Choice("kind", 3)
		test("TestA", func(t *T) {
			switch kind {
			case 0:
				cfgF().MatchSnapshot(t, strings.Repeat("a\n", n))
			case 1:
				cfgF().MatchSnapshot(t, strings.Repeat("\n", n)+"---\n"+SymAlpha("w", 0, 1, "-\n"))
			case 2:
				cfgF().MatchYAML(t, strings.Repeat("- 1\n", n/20))
			}
			cfgF().MatchSnapshot(t, "second")
			cfgF().MatchJSON(t, "3")
		})
		test("TestB", func(t *T) { cfgF().MatchSnapshot(t, "end") })
	})...)
}
