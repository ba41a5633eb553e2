package zzverif

import (
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

// blocks splits a snapshot file written by the library into its entries, as
// raw text including the leading blank line. The k-th block belongs to ids[k].
func blocks(s string, ids []string) ([]string, bool) {
	var r []string
	for i, id := range ids {
		h := "\n[" + id + "]\n"
		if !strings.HasPrefix(s, h) {
			return nil, false
		}
		end := len(s)
		if i+1 < len(ids) {
			// the header of the next entry follows a terminator
			j := strings.Index(s, "\n---\n\n["+ids[i+1]+"]\n")
			if j < 0 {
				return nil, false
			}
			end = j + len("\n---\n")
		}
		r = append(r, s[:end])
		s = s[end:]
	}
	return r, s == ""
}

// updateRun: phase 1 records the old values, phase 2 updates to the new ones,
// phase 3 (reading) must pass without writing. ids lists the slots in order of
// creation; call performs the calls of slot i with the given value.
func updateRun(ids []string, call func(c *snaps.Config, t *T, i int, v string), old, new func(i int) string, viaEnv bool) []Phase {
	run := func(c *snaps.Config, val func(i int) string, each func(t *T, i int, f func())) {
		live := map[string]*T{}
		var order []string
		for i, id := range ids {
			name := id[:strings.Index(id, " - ")]
			if live[name] == nil {
				live[name] = NewT(name)
				order = append(order, name)
			}
			t := live[name]
			each(t, i, func() { call(c, t, i, val(i)) })
		}
		for _, n := range order {
			live[n].Finish()
		}
	}
	file := func() string { return path("s", "f.snap") }
	return []Phase{
		{nil, func() {
			run(cfgF(), old, func(t *T, i int, f func()) {
				Assume(!crEOL(old(i)) && !crEOL(new(i)))
				f()
				Assert(len(t.Errors) == 0, "recording fails")
			})
		}},
		{func() {
			if viaEnv {
				Setenv("UPDATE_SNAPS", "true")
			}
		}, func() {
			c := cfgF()
			if !viaEnv {
				c = snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"), snaps.Update(true))
			}
			before, ok := blocks(mustRead(file()), ids)
			Assert(ok, "the recorded file does not consist of one entry per call")
			run(c, new, func(t *T, i int, f func()) {
				l := len(t.Logs)
				FSMark()
				f()
				Assert(len(t.Errors) == 0, "an updating call fails")
				if old(i) == new(i) {
					Assert(len(t.Logs) == l, "an unchanged value is reported as updated")
					Assert(FSTouched() == "", "a call whose value matches writes")
				} else {
					Assert(len(t.Logs) == l+1, "a changed value is not updated")
				}
			})
			after, ok := blocks(mustRead(file()), ids)
			Assert(ok, "after updating the file does not consist of the same entries in the same order")
			for i := range ids {
				if old(i) == new(i) {
					Assert(after[i] == before[i], "an entry whose value did not change was rewritten")
				}
			}
			Stash("after", mustRead(file()))
			Observe("after", mustRead(file()))
			Assert(len(tree()) == 1, "updating creates other files")
			// later executions (-count) of the same process: the new values again,
			// with and without updating, then the old ones and back
			ro := snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"), snaps.Update(false))
			for _, x := range []*snaps.Config{c, ro} {
				FSMark()
				run(x, new, func(t *T, i int, f func()) {
					f()
					Assert(t.quiet(), "a call does not pass when the test is executed again after updating")
				})
				Assert(FSTouched() == "", "executing the test again writes")
			}
			run(c, old, func(t *T, i int, f func()) {
				f()
				Assert(len(t.Errors) == 0, "updating back fails")
			})
			b, ok := blocks(mustRead(file()), ids)
			Assert(ok, "after updating back the file does not consist of the same entries in the same order")
			for i := range ids {
				Assert(b[i] == before[i], "updating back does not restore the entries")
			}
			run(c, new, func(t *T, i int, f func()) {
				f()
				Assert(len(t.Errors) == 0, "updating a third time fails")
			})
			Assert(mustRead(file()) == Load("after"), "updating a third time leaves other content")
		}},
		{nil, func() {
			FSMark()
			run(cfgF(), new, func(t *T, i int, f func()) {
				f()
				Assert(t.quiet(), "a call does not pass after updating")
			})
			Assert(FSTouched() == "", "the run after updating writes")
			// the order of calls of different tests does not matter; a file written
			// from scratch with the new values holds the same entries
			Assert(mustRead(file()) == Load("after"), "the run after updating changes the file")
		}},
		// recording the new values from scratch gives the same file
		{nil, func() {
			c := snaps.WithConfig(snaps.Dir(path("fresh")), snaps.Filename("f"))
			run(c, new, func(t *T, i int, f func()) { f() })
			Assert(mustRead(path("fresh", "f.snap")) == Load("after"), "updating leaves other content than recording the new values")
		}},
	}
}

func init() {
	snap := func(c *snaps.Config, t *T, i int, v string) { c.MatchSnapshot(t, v) }
	ids3 := []string{"TestA - 1", "TestA - 2", "TestB - 1"}
	// one slot changes to any short text; its neighbours hold texts that look like headers and terminators
	hairy := []string{"[TestA - 2]\n\n---\n", "[TestB - 1]", "\n\n[TestA - 1]\n/-/-/-/"}
	one := func(lo, hi int, alpha string) (func(i int) string, func(i int) string) {
		o := func(i int) string {
			if i == Choice("at", 3) {
				return SymAlpha("old", 0, 2, alpha)
			}
			return hairy[i]
		}
		n := func(i int) string {
			if i == Choice("at", 3) {
				return SymAlpha("new", lo, hi, alpha)
			}
			return hairy[i]
		}
		return o, n
	}
	o, n := one(0, 2, "\n-a")
	reg("c04_one", updateRun(ids3, snap, o, n, true)...)
	o, n = one(0, 4, "\n-/[")
	reg("c04_one4", updateRun(ids3, snap, o, n, false)...)
	// from and to lines around the terminator and its escapes
	special := []string{"", "\n", "---", "---\n---", "/-/-/-/", "/-/-/-//", "[TestA - 1]", "[TestB - 1]\n---\n", "\n[TestA - 2]\nx\n---\n", " ", "a\n\n\n", strings.Repeat("long line ", 20)}
	reg("c04_special", updateRun(ids3, snap,
		func(i int) string {
			if i == Choice("at", 3) {
				return special[Choice("o", len(special))]
			}
			return "v" + strconv.Itoa(i)
		}, func(i int) string {
			if i == Choice("at", 3) {
				return special[Choice("n", len(special))]
			}
			return "v" + strconv.Itoa(i)
		}, true)...)
	// from and to texts that mean something to templates, replacements, patterns and format strings
	refs := []string{"v", "costs $1", "${0}$", "$$", `\\1 \\0 \\n`, "100% %s %!d(x)", "{{.}}", "& a(b)*", "[[:alpha:]]+", "^.*$"}
	ref := func(nm string) func(i int) string {
		return func(i int) string {
			if i == Choice("at", 3) {
				return refs[Choice(nm, len(refs))]
			}
			return "v" + strconv.Itoa(i)
		}
	}
	reg("c04_refs", updateRun(ids3, snap, ref("o"), ref("n"), true)...)
	reg("c04_refsjson", updateRun(ids3, func(c *snaps.Config, t *T, i int, v string) {
		c.MatchJSON(t, map[string]any{"k": v})
	}, ref("o"), ref("n"), false)...)
	// entries of more than 64 KiB, from and to values of the same length and others
	long := func(k int) string {
		x := strings.Repeat("x", 70000)
		return []string{"v", x + "1", x + "2", "lead\n" + x, strings.Repeat(strings.Repeat("line ", 20)+"\n", 700)}[k]
	}
	huge := func(k int) string {
		x := strings.Repeat(strings.Repeat("x", 1<<17)+"\n", 9)
		return []string{"v", x + "1", x + "12", strings.ReplaceAll(x, "\n", "") + "1"}[k]
	}
	reg("c04_huge", updateRun(ids3, snap,
		func(i int) string {
			if i == 0 {
				return huge(Choice("o", 4))
			}
			return "v" + strconv.Itoa(i)
		}, func(i int) string {
			if i == Choice("at", 2) {
				return huge(Choice("n", 4))
			}
			if i == 0 {
				return huge(Choice("o", 4))
			}
			return "v" + strconv.Itoa(i)
		}, true)...)
	reg("c04_long", updateRun(ids3, snap,
		func(i int) string {
			if i == Choice("at", 3) {
				return long(Choice("o", 5))
			}
			return "v" + strconv.Itoa(i)
		}, func(i int) string {
			if i == Choice("at", 3) {
				return long(Choice("n", 5))
			}
			return "v" + strconv.Itoa(i)
		}, true)...)
	// any subset of the entries changes, to longer or shorter values
	reg("c04_subset", updateRun([]string{"TestA - 1", "TestB - 1", "TestA - 2", "TestA/s - 1"}, snap,
		func(i int) string { return "old" + strconv.Itoa(i) },
		func(i int) string {
			k := strconv.Itoa(i)
			return []string{"old" + k, "", "n\n---", strings.Repeat("x", 5000)}[Choice("n"+k, 4)]
		}, false)...)
	// arbitrary bytes
	reg("c04_bytes", updateRun([]string{"TestA - 1", "TestB - 1"}, snap,
		func(i int) string {
			if i == 0 {
				v := string(SymBytes("old", 1))
				Assume(fmtText(v) == v)
				return v
			}
			return "x"
		},
		func(i int) string {
			if i == 0 {
				v := "a" + string(SymBytes("new", 1)) + "b"
				Assume(fmtText(v) == v)
				return v
			}
			return "x"
		}, true)...)
	// a file with more than nine entries of a test
	var ids12 []string
	for i := 1; i <= 12; i++ {
		ids12 = append(ids12, "TestA - "+strconv.Itoa(i))
	}
	reg("c04_many", updateRun(ids12, snap,
		func(i int) string { return "v" + strconv.Itoa(i) },
		func(i int) string {
			if i == []int{0, 1, 9, 10, 11}[Choice("at", 5)] {
				return "v" + SymAlpha("new", 0, 2, "01\n")
			}
			return "v" + strconv.Itoa(i)
		}, true)...)
	// a mix of the three APIs
	mixv := func(tag string) func(i int) string {
		return func(i int) string {
			w := "k"
			if Choice("at", 3) == i {
				w = word(tag, 1)
			}
			return []string{`{"a": "` + w + `"}`, "---\na: " + w + "\n---\n", "[TestA - 1]\n" + w + "\n---"}[i]
		}
	}
	// MatchJSON formats the document; compare through a canonical form
	reg("c04_mix", updateRun(ids3, func(c *snaps.Config, t *T, i int, v string) {
		do(c, t, []int{apiJSON, apiYAML, apiSnap}[i], v)
	}, mixv("old"), mixv("new"), true)...)
	// an entry with a carriage return at a line end next to the updated one
	reg("c04_cr", Phase{nil, func() {
		t := Test("TestA", func(t *T) {
			cfgF().MatchSnapshot(t, "a\r\nb"+[]string{"", "\r"}[Choice("end", 2)])
			cfgF().MatchSnapshot(t, "x")
		})
		Assume(len(t.Errors) == 0)
	}}, Phase{func() { Setenv("UPDATE_SNAPS", "true") }, func() {
		before := mustRead(path("s", "f.snap"))
		t := Test("TestA", func(t *T) {
			cfgF().MatchJSON(t, "{")
			cfgF().MatchSnapshot(t, "y")
		})
		after := mustRead(path("s", "f.snap"))
		Assert(len(t.Errors) == 1, "updating fails")
		Assert(strings.ReplaceAll(after, "\r", "") == strings.ReplaceAll(strings.Replace(before, "\nx\n", "\ny\n", 1), "\r", ""), "updating one entry changes more than carriage returns of others")
		AssertKnown(after == strings.Replace(before, "\nx\n", "\ny\n", 1), "updating one entry drops carriage returns of another", "CR", true)
	}})
	// standalone snapshots are replaced wholesale
	const first = "first"
	alone := func(val func(string) string, call func(c *snaps.Config, t *T, v string), store func(v string) string, ext string) []Phase {
		return []Phase{{nil, func() {
			v := val("old")
			t := Test("TestA", func(t *T) {
				c := snaps.WithConfig(snaps.Dir(path("s")))
				call(c, t, first)
				call(c, t, v)
			})
			Assume(len(t.Errors) == 0)
		}}, {func() {
			if Choice("env", 2) == 1 {
				Setenv("UPDATE_SNAPS", "true")
			}
		}, func() {
			v, old := val("new"), val("old")
			c := snaps.WithConfig(snaps.Dir(path("s")))
			if Choice("env", 2) == 0 {
				c = snaps.WithConfig(snaps.Dir(path("s")), snaps.Update(true))
			}
			t := Test("TestA", func(t *T) {
				FSMark()
				call(c, t, first)
				Assert(t.quiet() && FSTouched() == "", "a call whose value matches writes")
				FSMark()
				call(c, t, v)
				Assert(len(t.Errors) == 0, "an updating call fails")
				if v == old {
					Assert(len(t.Logs) == 0 && FSTouched() == "", "a call whose value matches writes")
				} else {
					Assert(len(t.Logs) == 1, "a changed value is not updated")
				}
			})
			Assert(mustRead(path("s", "TestA_2.snap"+ext)) == store(v), "the updated file does not hold exactly the new value")
			Assert(mustRead(path("s", "TestA_1.snap"+ext)) == store(first), "another file was rewritten")
			Assert(len(t.Errors) == 0, "an updating call fails")
			// executed again (-count) in the same process
			both := func(c *snaps.Config, v string) *T {
				return Test("TestA", func(t *T) {
					call(c, t, first)
					call(c, t, v)
				})
			}
			ro := snaps.WithConfig(snaps.Dir(path("s")), snaps.Update(false))
			for _, x := range []*snaps.Config{c, ro} {
				FSMark()
				Assert(both(x, v).quiet() && FSTouched() == "", "executing the test again after updating does not pass silently")
			}
			Assert(len(both(c, old).Errors) == 0, "updating back fails")
			Assert(mustRead(path("s", "TestA_2.snap"+ext)) == store(old), "updating back does not restore the file")
			Assert(len(both(c, v).Errors) == 0, "updating a third time fails")
			Assert(mustRead(path("s", "TestA_2.snap"+ext)) == store(v), "updating a third time leaves other content")
		}}, {nil, func() {
			v := val("new")
			FSMark()
			t := Test("TestA", func(t *T) {
				c := snaps.WithConfig(snaps.Dir(path("s")))
				call(c, t, first)
				call(c, t, v)
			})
			Assert(t.quiet() && FSTouched() == "", "the run after updating does not pass silently")
		}}}
	}
	reg("c04_alone", alone(symUpd, func(c *snaps.Config, t *T, v string) { c.MatchStandaloneSnapshot(t, v) }, func(v string) string { return v }, "")...)
	reg("c04_alonejson", alone(func(n string) string {
		return `"` + []string{word(n, 2), strings.Repeat("x", 5000), strings.Repeat("x", 3000) + word(n, 1), ""}[Choice(n+"#k", 4)] + `"`
	}, func(c *snaps.Config, t *T, v string) {
		if v == first {
			v = `"first"`
		}
		c.MatchStandaloneJSON(t, `{"b": [`+v+`], "a": "---"}`)
	}, func(v string) string {
		if v == first {
			v = `"first"`
		}
		return "{\n \"a\": \"---\",\n \"b\": [\n  " + v + "\n ]\n}"
	}, ".json")...)
}

func symUpd(n string) string {
	switch Choice(n+"#k", 3) {
	case 0:
		v := SymString(n, 0, 1)
		Assume(fmtText(v) == v)
		return v
	case 1:
		return strings.Repeat("x", 5000) + SymAlpha(n, 0, 1, "\r\n-")
	}
	return "a\n" + SymAlpha(n, 0, 2, "-\n\r")
}
