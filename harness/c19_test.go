package zzverif

import (
	"errors"
	"strings"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
)

func cfgS(opts ...func(*snaps.Config)) *snaps.Config {
	return snaps.WithConfig(append(opts, snaps.Dir(path("s")))...)
}

// wholeFile: the file of a standalone call is the formatted value and nothing
// else; it replays silently; a changed value replaces the file wholesale.
func wholeFile(val func(name string) any) []Phase {
	check := func(v any, msg string) {
		f := fmtText(v)
		if s, ok := v.(string); ok && !strings.ContainsAny(s, "\t\v\f\xff") {
			Assert(f == s, "the formatted value of a text is another text")
		}
		Assert(files() == "s/TestA_1.snap", "a standalone call does not create its file")
		Assert(mustRead(path("s", "TestA_1.snap")) == f, msg)
	}
	call := func(v any, opts ...func(*snaps.Config)) *T {
		return Test("TestA", func(t *T) { cfgS(opts...).MatchStandaloneSnapshot(t, v) })
	}
	return []Phase{{nil, func() {
		t := call(val("a"))
		Assert(len(t.Errors) == 0, "recording a new value fails")
		check(val("a"), "the file is not exactly the formatted value")
		Observe("file", mustRead(path("s", "TestA_1.snap")))
	}}, {nil, func() {
		FSMark()
		t := call(val("a"))
		Assert(len(t.Errors) == 0, "replaying the recorded value fails")
		Assert(t.quiet() && FSTouched() == "", "replaying writes")
		a, b := fmtText(val("a")), fmtText(val("b"))
		t = call(val("b"))
		Assert((len(t.Errors) == 0) == (a == b), "a changed value passes, or an equal one fails")
		Assert(FSTouched() == "", "a failing call writes")
		t = call(val("b"), snaps.Update(true))
		Assert(len(t.Errors) == 0, "updating fails")
		check(val("b"), "an update does not replace the file by exactly the new value")
		FSMark()
		t = call(val("b"))
		Assert(t.quiet() && FSTouched() == "", "replaying the updated value fails or writes")
	}}}
}

func init() {
	bytesOf := func(lo, hi int) func(string) any {
		return func(n string) any {
			if n == "b" {
				return SymString("b", 0, 1)
			}
			return SymString(n, lo, hi)
		}
	}
	reg("c19_bytes1", wholeFile(bytesOf(0, 1))...)
	reg("c19_bytes", wholeFile(func(n string) any {
		if n == "b" {
			return ""
		}
		return SymString(n, 2, 2)
	})...)
	reg("c19_bytes3", wholeFile(func(n string) any {
		if n == "b" {
			return ""
		}
		return SymAlpha(n, 3, 4, "a\r\n\t\v\xff\x00")
	})...)
	reg("c19_cr", wholeFile(func(n string) any { return SymAlpha(n, 0, 3, "\r\n-") })...)
	reg("c19_alpha", wholeFile(func(n string) any {
		if n == "b" {
			return SymAlpha("b", 0, 3, "\n-")
		}
		return SymAlpha("a", 0, 6, "\n-/")
	})...)
	special := []string{"", "\n", "\r\n", "---", "---\n", "/-/-/-/", "\n[TestA - 1]\nx\n---\n", "[TestA - 1]", " ", "\n\n\n", "a\r\nb\r\n", "\r", "\ufeffbom", "\x00", "%d %s", "a\n---\nb\n", "é\xff", "tab\tbed\n\tx", "x\n "}
	reg("c19_special", wholeFile(func(n string) any {
		return special[Choice(n, len(special))] + []string{"", "q"}[Choice("q"+n, 2)]
	})...)
	reg("c19_long", wholeFile(func(n string) any {
		l := []int{1, 4095, 4096, 65536, 200000}[Choice("n"+n, 5)]
		return strings.Repeat("x", l) + alphaN(n, 1, "\r\nx")
	})...)
	reg("c19_values", wholeFile(func(n string) any {
		s := "\n"
		if n == "a" {
			s = SymString("s", 0, 1)
		}
		return []any{
			SymInt(n+"i", -3, 3), true, nil, []byte(s), []string{s, "---"}, map[string]int{"k" + s: 1, "j": 2}, struct {
				A string
				B *int
			}{s, nil}, errors.New("e" + s), &struct{ X []any }{[]any{1, s}}, 1.5, [2]byte{1, 2},
		}[Choice("kind"+n, 11)]
	})...)
	// MatchStandaloneJSON: the file is the canonical pretty JSON, what MatchJSON
	// stores, without a final newline
	jsonFile := func(in func(n string) any, ms ...match.JSONMatcher) []Phase {
		call := func(v any, opts ...func(*snaps.Config)) *T {
			return Test("TestA", func(t *T) { cfgS(opts...).MatchStandaloneJSON(t, v, ms...) })
		}
		canon := func(v any, d string) string {
			t := Test("TestA", func(t *T) {
				snaps.WithConfig(snaps.Dir(path(d)), snaps.Filename("f")).MatchJSON(t, v, ms...)
			})
			Assume(len(t.Errors) == 0)
			return mustParse(mustRead(path(d, "f.snap")))[0].body
		}
		check := func(v any, want string) {
			got := mustRead(path("s", "TestA_1.snap.json"))
			Assert(got == want, "the file is not exactly the canonical pretty JSON")
			n := readJSON(got)
			Assert(n != nil, "the file is not valid JSON")
			if len(ms) == 0 {
				switch j := v.(type) {
				case string:
					Assert(sameJSON(n, readJSON(j), false), "the file holds another JSON value")
				case []byte:
					Assert(sameJSON(n, readJSON(string(j)), false), "the file holds another JSON value")
				}
			}
			Assert(len(got) > 0 && !strings.HasSuffix(got, "\n"), "the file ends in an added newline")
		}
		return []Phase{{nil, func() {
			v := in("a")
			if j, ok := v.(string); ok {
				if n := readJSON(j); n != nil {
					Assume(!dupKeys(n)) // which value such a document has is undefined
				}
			}
			t := call(v)
			if len(t.Errors) > 0 {
				Assert(len(tree()) == 0, "a failing call writes")
				Unreachable()
			}
			check(v, canon(v, "o"))
			Observe("file", mustRead(path("s", "TestA_1.snap.json")))
		}}, {nil, func() {
			FSMark()
			t := call(in("a"))
			Assert(t.quiet() && FSTouched() == "", "replaying the recorded document fails or writes")
			w := canon(in("b"), "p")
			t = call(in("b"), snaps.Update(true))
			Assert(len(t.Errors) == 0, "updating fails")
			check(in("b"), w)
		}}}
	}
	reg("c19_json", jsonFile(func(n string) any {
		if n == "b" {
			return `[1, {"b":2, "a":"a longer text than that of the first document"}]`
		}
		d := jdocs[Choice("d"+n, len(jdocs))]
		s := d.pre + jvalN(n, 1) + d.post
		Assume(d.path != "a" || d.post != `,"a":1}`) // duplicate members have no defined value
		if Choice("form"+n, 2) == 1 {
			return []byte(s)
		}
		return s
	})...)
	reg("c19_jsonalpha", jsonFile(func(n string) any {
		if n == "b" {
			return `{"longer": ["than", "the", "first", 1]}`
		}
		return SymAlpha("a", 0, 4, "{}[]\",:1 n")
	})...)
	reg("c19_jsonvals", jsonFile(func(n string) any {
		if n == "b" {
			return map[string]any{"z": []int{1}}
		}
		w := printable(n, 0, 2)
		return []any{map[string]any{"b": w, "a": nil}, []string{w, "<&>"}, 12, nil, true, w, struct {
			Z string `json:"z"`
			A []int  `json:"a,omitempty"`
		}{Z: w}, []any{}, map[string]any{}, 1.5}[Choice("k"+n, 10)]
	})...)
	reg("c19_jsonmask", jsonFile(func(n string) any {
		return `{"z":1,"a":{"c":"` + word(n, 1) + `","b":2}}`
	}, match.Any("a.b", "z"))...)
	// the k-th call maps to file k, with every option
	kth := func(n int) []Phase {
		opts := func() []func(*snaps.Config) {
			var o []func(*snaps.Config)
			if Choice("file", 2) == 1 {
				o = append(o, snaps.Filename("n%d"))
			}
			if Choice("ext", 2) == 1 {
				o = append(o, snaps.Ext(".txt"))
			}
			return o
		}
		name := func(k int, json bool) string {
			s := []string{"TestA_x", "n%d"}[Choice("file", 2)] + "_" + itoa(k) + ".snap"
			if Choice("ext", 2) == 1 {
				return s + ".txt"
			}
			if json {
				return s + ".json"
			}
			return s
		}
		return []Phase{{nil, func() {
			c := cfgS(opts()...)
			json := Choice("json", 2) == 1
			n := n
			val := func(k int) string { return `"` + alphaN("v"+itoa(k%3), 1, "xy") + itoa(k) + `"` }
			for run := 0; run < 2; run++ {
				ends := Choice("ends", n+1) // the test ends after this many calls, and runs again
				if run == 1 {
					ends = n
				}
				t := Test("TestA/x", func(t *T) {
					for k := 1; k <= ends; k++ {
						if json {
							c.MatchStandaloneJSON(t, val(k))
						} else {
							c.MatchStandaloneSnapshot(t, val(k))
						}
					}
				})
				Assert(len(t.Errors) == 0, "a standalone call does not map to its file")
			}
			Assert(len(tree()) == n, "calls and files don't match")
			for k := 1; k <= n; k++ {
				s, ok := readFile(path("s", name(k, json)))
				Assert(ok && s == val(k), "the k-th call does not map to file k")
			}
		}}, {nil, func() {
			// a changed value updates its file only
			c := cfgS(append(opts(), snaps.Update(true))...)
			json := Choice("json", 2) == 1
			at := 1 + Choice("at", n)
			val := func(k int) string {
				if k == at {
					return `"other"`
				}
				return `"` + alphaN("v"+itoa(k%3), 1, "xy") + itoa(k) + `"`
			}
			FSMark()
			t := Test("TestA/x", func(t *T) {
				for k := 1; k <= n; k++ {
					if json {
						c.MatchStandaloneJSON(t, val(k))
					} else {
						c.MatchStandaloneSnapshot(t, val(k))
					}
				}
			})
			Assert(len(t.Errors) == 0 && len(t.Logs) == 1, "an update of one file does not log once")
			for k := 1; k <= n; k++ {
				Assert(mustRead(path("s", name(k, json))) == val(k), "an update changes another file")
			}
			Assert(len(tree()) == n, "an update creates files")
		}}}
	}
	reg("c19_kth", kth(3)...)
	reg("c19_kth12", kth(12)...)
	// whatever the file held before, an update replaces it wholesale
	reg("c19_stale", Phase{nil, func() {
		old := SymAlpha("old", 0, 2, "a\n-\r") + []string{"", "\n---\n", "\r\ntail"}[Choice("tail", 3)]
		v := SymAlpha("v", 0, 2, "a\n-\r")
		json := Choice("json", 2) == 1
		f := "TestA_1.snap"
		if json {
			f, v = "TestA_1.snap.json", `"`+alphaN("w", 1, "wx")+`"`
		}
		writeFile(path("s", f), old)
		t := Test("TestA", func(t *T) {
			c := cfgS(snaps.Update(true))
			if json {
				c.MatchStandaloneJSON(t, v)
			} else {
				c.MatchStandaloneSnapshot(t, v)
			}
		})
		Assert(len(t.Errors) == 0, "updating fails")
		Assert(mustRead(path("s", f)) == fmtText(v), "an update does not replace the file wholesale")
	}})
	// a file that is the value but for a few bytes around it is another value
	reg("c19_around", Phase{nil, func() {
		pre := SymAlpha("pre", 0, 2, " \n\r\t")
		post := SymAlpha("post", 0, 2, " \n\r\t")
		json := Choice("json", 2) == 1
		upd := Choice("update", 2) == 1
		f, v := "TestA_1.snap", "v"
		want := "v"
		if json {
			f, v = "TestA_1.snap.json", `{"a":1}`
			want = "{\n \"a\": 1\n}"
		}
		old := pre + want + post
		writeFile(path("s", f), old)
		FSMark()
		t := Test("TestA", func(t *T) {
			c := cfgS(snaps.Update(upd))
			if json {
				c.MatchStandaloneJSON(t, v)
			} else {
				c.MatchStandaloneSnapshot(t, v)
			}
		})
		same := old == want
		if upd {
			Assert(len(t.Errors) == 0, "updating fails")
			Assert(mustRead(path("s", f)) == want, "an update does not leave the value")
		} else {
			Assert((len(t.Errors) == 0) == same, "a file that is not the value passes or one that is fails")
			Assert(mustRead(path("s", f)) == old, "a call that does not update changes the file")
		}
		if same || !upd {
			Assert(FSTouched() == "", "a call that has nothing to change writes")
		}
	}})
}
