package zzverif

import (
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
)

// times calls test n times (kind) with value v.
func (w *world) times(kind int, test string, n int, v string) {
	Test(test, func(t *T) {
		for i := 0; i < n; i++ {
			w.call(kind, t, v)
		}
	})
	w.end(test)
}

// escaped is how a body with terminator lines is stored.
func escaped(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if l == "---" {
			ls[i] = "/-/-/-/"
		}
	}
	return strings.Join(ls, "\n")
}

// callCount is how often TestA calls in the file harnesses.
func callCount(max int) int { return Choice("calls", max+1) }

func init() {
	f := func() string { return path("s", "f.snap") }
	pool := []string{"TestA - 1", "TestA - 2", "TestA - 3", "TestA/s - 1", "TestB - 1", "TestB - 10", "TestAx - 1", "FuzzX - 1", "TestA - 02", "TestA#01 - 1"}
	// files of n entries out of the pool (duplicates included), TestA calls
	// 0..2 times, TestB once
	entries := func(n, calls int, pool []string) Phase {
		return Phase{cleanModeEnv, func() {
			w, sort := newWorld()
			var es []entry
			for i := 0; i < n; i++ {
				s := strconv.Itoa(i)
				es = append(es, entry{pool[Choice("e"+s, len(pool))], "b" + s})
			}
			writeFile(f(), render(es))
			w.times(kShared, "TestA", callCount(calls), "v")
			w.times(kShared, "TestB", 1, "v")
			w.twice(sort)
		}}
	}
	reg("c09_entries2", entries(2, 2, pool))
	reg("c09_entries3", entries(3, 1, pool[:7]))
	reg("c09_entries3all", entries(3, 2, pool))
	reg("c09_entries4", entries(4, 1, pool[:5]))
	// the only calls on a file are rejected: its slots are addressed, it may hold
	// no live entry, or nothing
	hollow := []string{"TestA - 1", "TestA - 2", "TestA - 3", "TestB - 1"}
	reg("c09_hollow", Phase{cleanModeEnv, func() {
		w, sort := newWorld()
		var es []entry
		for i := 0; i < Choice("n", 4); i++ {
			s := strconv.Itoa(i)
			es = append(es, entry{hollow[Choice("e"+s, len(hollow))], "b" + s})
		}
		writeFile(f(), render(es))
		writeFile(path("s", "g.snap"), "")
		Test("TestA", func(t *T) {
			for i := 0; i < 1+Choice("calls", 2); i++ {
				w.address(place(kShared, "TestA", w.next(f(), "TestA")))
				switch Choice("bad", 3) {
				case 0:
					cfgF().MatchJSON(t, "{")
				case 1:
					cfgF().MatchYAML(t, "a: [")
				case 2:
					cfgF().MatchJSON(t, "{}", match.Any("a"))
				}
			}
			Assert(len(t.Errors) == 1+Choice("calls", 2), "a rejected call does not fail")
		})
		w.end("TestA")
		w.twice(sort)
	}})
	// ids with symbolic characters
	symID := func(nm string, n, d int) string {
		b := SymBytes(nm, n)
		for _, c := range b {
			Assume(c > 0x20 && c < 0x7f)
		}
		num := SymBytes(nm+"n", d)
		for _, c := range num {
			Assume(c >= '0' && c <= '9')
		}
		return string(b) + " - " + string(num)
	}
	symIDs := func(n, d int, pre string) Phase {
		return Phase{cleanModeEnv, func() {
			w, sort := newWorld()
			es := []entry{{pre + symID("x", n, d), "b0"}, {"TestA - 1", "b1"}, {pre + symID("y", n, 1), "b2"}}
			es = es[:2+Choice("n", 2)]
			writeFile(f(), render(es))
			w.times(kShared, "TestA", 1+Choice("calls", 2)*9, "v")
			w.clean(sort)
		}}
	}
	reg("c09_symid1", symIDs(1, 1, "Test"))
	reg("c09_symid12", symIDs(1, 2, "Test"))
	reg("c09_symid2", symIDs(2, 1, "Test"))
	reg("c09_symid3", symIDs(3, 1, ""))

	// directory contents: any two further files next to an addressed one
	names := []string{"old.snap", "old.snap.txt", "TestZ_1.snap", "TestA_2.snap", "TestA_1.snap.json", "TestA_01.snap", "c_1.snap", "x.snapshot", ".snap", "a.snap.bak", "my.snap.go",
		"notes.txt", "snap", "a.sna", "f.Snap", "data.json", "a snap"}
	contents := []string{"\n[TestQ - 1]\nx\n---\n", "", "plain text", "\n[TestA - 1]\nx\n---\n", "\n[TestQ - 1]\nnever closed\n"}
	dir := func(n int) Phase {
		return Phase{cleanModeEnv, func() {
			w, sort := newWorld()
			for i := 0; i < n; i++ {
				s := strconv.Itoa(i)
				nm := names[Choice("name"+s, len(names))]
				writeFile(path("s", nm), contents[Choice("content"+s, len(contents))])
			}
			// never touched
			writeFile(path("s", "sub", "old.snap"), "\n[TestQ - 1]\nx\n---\n")
			writeFile(path("s", "dir.snap", "TestZ_1.snap"), "x")
			writeFile(path("other", "old.snap"), "\n[TestQ - 1]\nx\n---\n")
			writeFile(path("old.snap"), "\n[TestQ - 1]\nx\n---\n")
			switch Choice("addr", 3) {
			case 0:
				w.times(kAlone, "TestA", 1, "v")
			case 1:
				w.times(kShared, "TestA", 1, "v")
			case 2:
				w.times(kJSON, "TestA", 1, "v")
			}
			w.twice(sort)
		}}
	}
	reg("c09_dir1", dir(1))
	reg("c09_dir2", dir(2))
	// file names made of tokens
	tokens := []string{"", ".snap", ".", "snap", "_1", "a", "TestA", ".json", "f", "-", "\u00e9"}
	tokenName := func(n int) Phase {
		return Phase{cleanModeEnv, func() {
			w, sort := newWorld()
			nm := ""
			for i := 0; i < n; i++ {
				nm += tokens[Choice("t"+strconv.Itoa(i), len(tokens))]
			}
			if nm == "" || nm == "." || nm == ".." || nm == "f.snap" || nm == "TestA_1.snap" {
				Unreachable()
			}
			if Choice("isdir", 2) == 1 {
				mkdir(path("s", nm))
			} else {
				writeFile(path("s", nm), "x")
			}
			w.times(kShared, "TestA", 1, "v")
			w.times(kAlone, "TestA", 1, "v")
			w.clean(sort)
			if Choice("isdir", 2) == 1 {
				Assert(isDir(path("s", nm)), "Clean removes a directory")
			}
		}}
	}
	reg("c09_tokens2", tokenName(2))
	reg("c09_tokens3", tokenName(3))
	reg("c09_tokens4", tokenName(4))
	// symbolic file names
	symName := func(pre, n int) Phase {
		return Phase{func() {
			if Choice("mode", 2) == 1 {
				Setenv("UPDATE_SNAPS", "clean")
			}
		}, func() {
			sym := func(nm string, k int) string {
				b := SymBytes(nm, k)
				for _, c := range b {
					Assume(c > 0x20 && c < 0x7f && c != '/')
				}
				return string(b)
			}
			nm := []string{"a" + sym("x", n) + "snap" + sym("y", 1), sym("x", n) + ".snap", "TestA_" + sym("x", n) + ".snap", "a.sna" + sym("x", n) + "p", "." + sym("x", n) + "nap"}[pre]
			writeFile(path("s", nm), "x")
			w, _ := newWorld()
			w.times(kAlone, "TestA", 2, "v")
			out := summaryOf(clean())
			_, kept := readFile(path("s", nm))
			stale := strings.Contains(nm, ".snap") && nm != "TestA_1.snap" && nm != "TestA_2.snap"
			if stale {
				Assert(len(out.items) == 1 && out.items[0] == path("s", nm), "Clean does not report a stale file")
			} else {
				Assert(len(out.items) == 0, "Clean reports something that is not stale")
			}
			Assert(kept == (!stale || Choice("mode", 2) == 0), "Clean removes the wrong files")
		}}
	}
	for i := 0; i < 5; i++ {
		reg("c09_symname"+strconv.Itoa(i), symName(i, 1))
		reg("c09_symname2"+strconv.Itoa(i), symName(i, 2))
	}

	// executions (-count): each of two tests makes 0..2 calls in each execution
	count := func(execs int, kinds []int, record bool) []Phase {
		// what earlier processes stored
		rec := Phase{nil, func() {
			w := &world{}
			k := kinds[Choice("kind", len(kinds))]
			w.times(k, "TestA", 3, "v")
			w.times(k, "TestA/s", 2, "v")
			w.times(k, "TestB", 1, "v")
		}}
		main := Phase{func() { cleanModeEnv(); SetFlag("test.count", strconv.Itoa(execs)) }, func() {
			w, sort := newWorld()
			k := kinds[Choice("kind", len(kinds))]
			for e := 0; e < execs; e++ {
				s := strconv.Itoa(e)
				w.times(k, "TestA", Choice("a"+s, 3), "v")
				w.times(k, "TestA/s", Choice("b"+s, 3), "v")
				if e == 0 || execs < 3 {
					w.times(k, "TestB", 1, "v")
				}
			}
			w.twice(sort)
		}}
		replay := Phase{func() { Setenv("CI", "true") }, func() {
			w := &world{}
			k := kinds[Choice("kind", len(kinds))]
			a, b := 0, 0
			for e := 0; e < execs; e++ {
				s := strconv.Itoa(e)
				a, b = max(a, Choice("a"+s, 3)), max(b, Choice("b"+s, 3))
			}
			for i, n := range []int{a, b, 1} {
				test := []string{"TestA", "TestA/s", "TestB"}[i]
				t := Test(test, func(t *T) {
					for j := 0; j < n; j++ {
						w.call(k, t, "v")
					}
				})
				Assert(t.quiet(), "an addressed snapshot does not replay after Clean")
			}
		}}
		return []Phase{rec, main, replay}
	}
	reg("c09_count1", count(1, []int{kShared, kAlone, kOwn, kJSON, kExt, kOther, kInner, kCustom, kAlone2, kUnclean, kUncleanAlone}, true)...)
	reg("c09_countodd", count(1, []int{kOdd, kOddAlone}, true)...)
	reg("c09_count2", count(2, []int{kShared, kAlone}, true)...)
	reg("c09_count3", count(3, []int{kShared, kAlone}, true)...)

	// overlapping executions: any order of calls and ends of two live tests
	ops := func(n int, kinds []int) []Phase {
		run := func(w *world, replay bool) {
			ts := []*T{NewT("TestA"), NewT("TestB")}
			check := func(t *T) {
				if replay {
					Assert(t.quiet(), "an addressed snapshot does not replay after Clean")
				}
			}
			for i := 0; i < n; i++ {
				op := Choice("op"+strconv.Itoa(i), 2*len(kinds)+2)
				if op < 2*len(kinds) {
					w.call(kinds[op/2], ts[op%2], "v")
					continue
				}
				t := ts[op-2*len(kinds)]
				check(t)
				t.Finish()
				w.end(t.Name())
				ts[op-2*len(kinds)] = NewT(t.Name())
			}
			for _, t := range ts {
				check(t)
				t.Finish()
			}
		}
		return []Phase{{nil, func() {
			w := &world{}
			for _, k := range kinds {
				w.times(k, "TestA", n, "v")
				w.times(k, "TestB", n, "v")
				w.times(k, "TestC", 1, "v")
			}
		}}, {cleanModeEnv, func() {
			w, sort := newWorld()
			run(w, false)
			w.clean(sort)
		}}, {func() { Setenv("CI", "true") }, func() { run(&world{}, true) }}}
	}
	reg("c07_ops3", ops(3, []int{kShared, kAlone})...)
	reg("c07_ops4", ops(4, []int{kShared, kAlone})...)
	reg("c07_ops3all", ops(3, []int{kShared, kJSON, kOther, kExt})...)
	reg("c07_ops5", ops(5, []int{kShared})...)

	// calls that fail address their slot all the same
	reg("c07_fail", []Phase{{nil, func() {
		w := &world{}
		for _, k := range []int{kShared, kAlone, kJSON} {
			w.times(k, "TestA", 3, "v")
		}
	}}, {cleanModeEnv, func() {
		w, sort := newWorld()
		d := snaps.Dir(path("s"))
		fn := snaps.Filename("f")
		kind := Choice("kind", 3)
		bad := Choice("bad", 4)
		Test("TestA", func(t *T) {
			n := 1 + Choice("n", 3)
			for i := 1; i <= n; i++ {
				if Choice("at", 3)+1 != i {
					w.call([]int{kShared, kAlone, kJSON}[kind], t, "v")
					continue
				}
				k := []int{kShared, kAlone, kJSON}[kind]
				c, _ := place(k, "TestA", 0)
				w.address(place(k, "TestA", w.next(c, "TestA")))
				switch kind {
				case 0:
					c := snaps.WithConfig(d, fn, snaps.Update(false))
					switch bad {
					case 0:
						c.MatchSnapshot(t, "other")
					case 1:
						c.MatchJSON(t, "{")
					case 2:
						c.MatchYAML(t, "a: [")
					case 3:
						c.MatchJSON(t, "{}", match.Any("a"))
					}
				case 1:
					snaps.WithConfig(d, snaps.Update(false)).MatchStandaloneSnapshot(t, "other")
				case 2:
					c := snaps.WithConfig(d, snaps.Update(false))
					switch bad {
					case 0:
						c.MatchStandaloneJSON(t, `"other"`)
					case 1:
						c.MatchStandaloneJSON(t, "{")
					default:
						c.MatchStandaloneJSON(t, "{}", match.Any("a"))
					}
				}
			}
		})
		w.clean(sort)
	}}, {func() { Setenv("CI", "true") }, func() {
		w := &world{}
		t := Test("TestA", func(t *T) {
			for i := 0; i < 1+Choice("n", 3); i++ {
				w.call([]int{kShared, kAlone, kJSON}[Choice("kind", 3)], t, "v")
			}
		})
		Assert(t.quiet(), "the snapshot of a failing call does not replay after Clean")
	}}}...)

	// calls spread over several places, every order of maps
	spread := func(n int, kinds []int) []Phase {
		return []Phase{{nil, func() {
			w := &world{}
			for _, k := range kinds {
				w.times(k, "TestA", 2, "v")
				w.times(k, "TestB", 1, "v")
			}
		}}, {cleanModeEnv, func() {
			w, sort := newWorld()
			at := 0
			for i := 0; i < n; i++ {
				if i < n {
					at += Choice("k"+strconv.Itoa(i)+"_"+strconv.Itoa(at), len(kinds)-at)
				}
				w.times(kinds[at], []string{"TestA", "TestB"}[i%2], 1, "v")
			}
			w.twice(sort)
		}}}
	}
	reg("c07_dirs", spread(3, []int{kShared, kOwn, kAlone, kJSON, kOther, kExt, kInner, kCustom})...)
	reg("c07_spell", spread(2, []int{kShared, kAlone, kOther, kAlone2, kUnclean, kUncleanAlone, kJSON, kOdd, kOddAlone})...)
	reg("c07_spell3", spread(3, []int{kShared, kAlone, kOther, kAlone2, kUnclean, kUncleanAlone, kJSON, kOdd, kOddAlone})...)
	reg("c07_order", []Phase{{nil, func() {
		w := &world{}
		for _, k := range []int{kShared, kOther, kAlone, kInner} {
			w.times(k, "TestA", 2, "v")
		}
	}}, {cleanModeEnv, func() {
		w, sort := newWorld()
		a, b, c := Choice("k0", 3), Choice("k1", 3), Choice("k2", 3)
		ks := []int{kShared, kOther, kAlone}
		w.times(ks[a], "TestA", 1, "v")
		w.times(ks[b], "TestB", 1, "v")
		w.times(ks[c], "TestC", 1, "v")
		ExploreMapOrder(true)
		w.clean(sort)
		ExploreMapOrder(false)
	}}}...)

	// ---- C10 ----

	body := func(nm string, n, lo, hi int, alpha string) string {
		s := ""
		for i := 0; i < n; i++ {
			if i > 0 {
				s += "\n"
			}
			s += SymAlpha(nm+strconv.Itoa(i), lo, hi, alpha)
		}
		return s
	}
	special := []string{"", "[TestA - 2]", "\n[TestB - 1]\nx\n", "/-/-/-/", "--- ", " ---", "----", "[TestZ - 9]", "a\n\n\nb", "\n", "[ - ]", "[x - 1", "x - 1]"}
	// bodies: entries of live, stale and other tests in all orders
	bodies := func(mk func(nm string) string, n int) Phase {
		return Phase{cleanModeEnv, func() {
			w, sort := newWorld()
			ids := []string{"TestA - 1", "TestB - 1", "TestA - 10", "TestA - 2"}[:n]
			var es []entry
			left := append([]string(nil), ids...)
			for i := range ids {
				j := Choice("p"+strconv.Itoa(i), len(left))
				es = append(es, entry{left[j], mk("b" + strconv.Itoa(i))})
				left = append(left[:j:j], left[j+1:]...)
			}
			writeFile(f(), render(es))
			w.times(kShared, "TestA", callCount(2), "v")
			if Choice("b", 2) == 1 {
				w.times(kShared, "TestB", 1, "v")
			}
			if len(w.slots) == 0 {
				w.times(kShared, "TestC", 1, "v")
			}
			w.twice(sort)
		}}
	}
	reg("c10_bodies", bodies(func(nm string) string { return special[Choice(nm, len(special))] }, 2))
	reg("c10_bodies3", bodies(func(nm string) string { return special[Choice(nm, len(special))] }, 3))
	reg("c10_alpha", bodies(func(nm string) string { return escaped(body(nm, 1, 0, 3, "\n-/[")) }, 2))
	reg("c10_lines", bodies(func(nm string) string {
		if nm != "b1" {
			return "x"
		}
		s := symLines(nm, 2, 0, 1, 3, 7, 11)
		for _, l := range strings.Split(s, "\n") {
			Assume(l != "---")
		}
		return s
	}, 3))
	reg("c10_bytes", bodies(func(nm string) string {
		if nm != "b1" {
			return "x"
		}
		s := SymString(nm, 0, 3)
		Assume(!hasLine(s, "---") && !crEOL(s))
		return s
	}, 3))
	reg("c10_long", bodies(func(nm string) string {
		if nm != "b1" {
			return "x"
		}
		return strings.Repeat("y", []int{4095, 65536, 70000}[Choice("len", 3)]) + SymAlpha("e", 0, 2, "\n-y")
	}, 3))
	reg("c10_huge", bodies(func(nm string) string {
		if nm != "b0" {
			return "x"
		}
		x := strings.Repeat("y", 1<<18)
		if Choice("lines", 2) == 1 {
			x += "\n"
		}
		return strings.Repeat(x, 5) + "y"
	}, 2))
	// order of ids: symbolic names and numbers, both directions
	order := func(mk func(nm string) string, n int) Phase {
		return Phase{nil, func() {
			w := &world{}
			var es []entry
			for i := 0; i < n; i++ {
				id := mk("x" + strconv.Itoa(i))
				for _, e := range es {
					// ids of the same rank have no order of their own
					if e.id != id && !natLess(e.id, id) && !natLess(id, e.id) {
						Unreachable()
					}
				}
				es = append(es, entry{id, "b" + strconv.Itoa(i)})
			}
			writeFile(f(), render(es))
			w.times(kShared, "TestZ", 1, "v")
			w.clean(true)
			FSMark()
			w.clean(true)
			Assert(FSTouched() == "", "a second Clean changes something")
		}}
	}
	reg("c10_order1", order(func(nm string) string { return "Test" + symID(nm, 1, 1) }, 3))
	reg("c10_order2", order(func(nm string) string { return "Test" + symID(nm, 2, 1) }, 2))
	reg("c10_ordernum", order(func(nm string) string { return "TestA" + symID(nm, 1, 1+Choice(nm+"d", 3)) }, 2))
	reg("c10_ordernum5", order(func(nm string) string {
		d := "TestA" + []string{" - ", "/b - "}[Choice("lvl", 2)]
		switch Choice(nm+"d", 4) {
		case 0:
			return d + "9" + SymAlpha(nm, 3, 3, "09")
		case 1:
			return d + "1" + SymAlpha(nm, 4, 4, "09")
		case 2:
			return d + "4294967" + SymAlpha(nm, 3, 3, "29")
		}
		return d + "9" + SymAlpha(nm, 0, 2, "09")
	}, 2))
	reg("c10_orderpre", order(func(nm string) string {
		return []string{"Test", "Fuzz", "Benchmark", "test", "TestA/", "1"}[Choice(nm+"p", 6)] + symID(nm, 1, 1)
	}, 2))
	reg("c10_ordersub", order(func(nm string) string {
		return "TestA" + SymAlpha(nm, 1, 4, "/a19_") + " - 1"
	}, 2))
	reg("c10_order3", order(func(nm string) string {
		return "TestA" + SymAlpha(nm, 2, 2, "/a19") + " - " + SymAlpha(nm+"n", 1, 1, "19")
	}, 3))
	// many entries in several initial orders, more than the insertion sort range
	reg("c10_many", Phase{cleanModeEnv, func() {
		w, sort := newWorld()
		n := []int{13, 40, 120}[Choice("n", 3)]
		var es []entry
		step := []int{1, n - 1, 7, 11}[Choice("step", 4)]
		at := 0
		for i := 0; i < n; i++ {
			es = append(es, entry{"TestM - " + strconv.Itoa(at+1), "b" + strconv.Itoa(at)})
			at = (at + step) % n
		}
		writeFile(f(), render(es))
		w.times(kShared, "TestM", []int{1, n / 2, n}[Choice("calls", 3)], "v")
		w.twice(sort)
	}})
	// several files, pruning and sorting in different ones
	reg("c10_files", Phase{cleanModeEnv, func() {
		w, sort := newWorld()
		files := []int{kShared, kOther, kExt, kInner}
		for i, k := range files {
			file, _ := place(k, "x", 1)
			perm := Choice("p"+strconv.Itoa(i), 4)
			s := strconv.Itoa(i)
			es := []entry{{"TestA - 1", "b" + s}, {"TestA - 2", "[TestA - 1]\n" + s}, {"TestB - 1", "\n" + s}}
			switch perm {
			case 1:
				es[0], es[2] = es[2], es[0]
			case 2:
				es = es[:2]
			case 3:
				es = []entry{es[1], es[0]}
			}
			writeFile(file, render(es))
			w.times(k, "TestA", 2, "v")
		}
		w.twice(sort)
	}})
	// two files that share ids, different ones of them stale, duplicates
	reg("c10_pair", Phase{cleanModeEnv, func() {
		w, sort := newWorld()
		for i, k := range []int{kShared, kExt} {
			s := strconv.Itoa(i)
			file, _ := place(k, "x", 1)
			pool := []string{"TestA - 1", "TestA - 2", "TestB - 1"}
			var es []entry
			for j := 0; j < 1+Choice("n"+s, 3-i); j++ {
				js := s + strconv.Itoa(j)
				es = append(es, entry{pool[Choice("id"+js, len(pool))], "body " + js})
			}
			writeFile(file, render(es))
			w.times(k, "TestA", 1+Choice("calls"+s, 2), "v")
		}
		w.twice(sort)
	}})
	// files that were edited or torn: other separators between entries, text
	// outside of entries, an entry without its end; they do not spill into each
	// other
	loose := func(i int) (file string, call func(t *T, v string)) {
		s := strconv.Itoa(i)
		return path("s", "l"+s+".snap"), func(t *T, v string) {
			snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("l"+s)).MatchSnapshot(t, v)
		}
	}
	looseVal := func(i, k int) string { return "v" + strconv.Itoa(i) + strconv.Itoa(k) + "\n\nend" }
	reg("c10_torn", []Phase{{cleanModeEnv, func() {
		_, _, sort := modeOfClean(Choice("mode", numModes))
		w, _ := newWorld()
		stale := make([]bool, 2)
		for i := 0; i < 2; i++ {
			s := strconv.Itoa(i)
			file, call := loose(i)
			sep := "\n"
			switch Choice("sep"+s, 4-2*i) {
			case 1:
				sep = ""
			case 2:
				sep = "\n\n"
			case 3:
				sep = "a comment\n"
			}
			order := []string{"TestB - 1", "TestA - 1"}
			if i == 0 || Choice("order", 2) == 1 {
				order = []string{"TestA - 1", "TestB - 1"}
			}
			stale[i] = Choice("stale"+s, 2) == 1
			text := ""
			for k, id := range order {
				if k == 1 && stale[i] {
					text += sep + "[TestAGone - 1]\nx\n---\n"
				}
				text += sep + "[" + id + "]\n" + looseVal(i, int(id[4]-'A')) + "\n---\n"
			}
			switch 3 - Choice("tail"+s, 4-2*i) {
			case 1:
				text += sep + "[TestC - 1]\n"
			case 2:
				text += sep + "[TestC - 1]\ntorn\n"
			case 3:
				text += sep + "[TestC - 1]\nto\nrn"
			}
			writeFile(file, text)
			for k, n := range []string{"TestA", "TestB"} {
				t := Test(n, func(t *T) { call(t, looseVal(i, k)) })
				Assert(t.quiet(), "an entry of an edited file does not replay")
			}
			// addresses TestC - 1 without touching the file
			Test("TestC", func(t *T) {
				snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("l"+s)).MatchJSON(t, "{")
			})
		}
		var before []string
		for i := 0; i < 2; i++ {
			file, _ := loose(i)
			before = append(before, mustRead(file))
		}
		run := func() summ {
			var o []snaps.CleanOpts
			if sort {
				o = append(o, snaps.CleanOpts{Sort: true})
			}
			return summaryOf(clean(o...))
		}
		r := run()
		n := 0
		for i := 0; i < 2; i++ {
			file, _ := loose(i)
			if stale[i] {
				n++
			}
			if i == 0 || Choice("order", 2) == 1 || !sort || w.ci {
				Assert(stale[i] && w.removing || mustRead(file) == before[i], "Clean changes a file that needs no change")
			}
			Assert(strings.Contains(mustRead(file), "[TestAGone - 1]") == (stale[i] && !w.removing), "Clean does not remove exactly the stale entry")
		}
		Assert(r.tests == n && r.files == 0 && len(r.items) == n, "Clean does not report exactly the stale entries")
		FSMark()
		run()
		Assert(FSTouched() == "", "a second Clean changes something")
	}}, {func() { Setenv("CI", "true") }, func() {
		for i := 0; i < 2; i++ {
			_, call := loose(i)
			for k, n := range []string{"TestA", "TestB"} {
				t := Test(n, func(t *T) { call(t, looseVal(i, k)) })
				Assert(t.quiet(), "a kept value does not replay")
			}
		}
	}}}...)
	// an entry without any line of text holds the empty text
	noLine := func() {
		for _, n := range []string{"TestA", "TestB", "TestC"} {
			v := ""
			if n == "TestB" {
				v = "b"
			}
			t := Test(n, func(t *T) { cfgF().MatchSnapshot(t, v) })
			Assert(t.quiet(), "an entry without text does not replay")
		}
	}
	reg("c10_noline", []Phase{{cleanModeEnv, func() {
		w, sort := newWorld()
		p := permutation("p", 4)
		es := []string{"[TestB - 1]\nb\n---\n", "[TestA - 1]\n---\n", "[TestC - 1]\n\n---\n", "[TestGone - 1]\n---\n"}
		text := ""
		for _, i := range p {
			if i < 3 || Choice("gone", 2) == 1 {
				text += "\n" + es[i]
			}
		}
		writeFile(path("s", "f.snap"), text)
		if Choice("skip", 2) == 1 {
			Test("TestB", func(t *T) { cfgF().MatchSnapshot(t, "b") })
			Test("TestA", func(t *T) { snaps.Skip(t) })
			Test("TestC", func(t *T) { snaps.Skip(t) })
		} else {
			noLine()
		}
		run := func() summ {
			if sort {
				return summaryOf(clean(snaps.CleanOpts{Sort: true}))
			}
			return summaryOf(clean())
		}
		r := run()
		Assert(r.tests == Choice("gone", 2) && len(r.items) == r.tests, "Clean does not report exactly the stale entry")
		now := mustRead(path("s", "f.snap"))
		for i, id := range []string{"[TestB - 1]", "[TestA - 1]", "[TestC - 1]", "[TestGone - 1]"} {
			n := strings.Count(now, id)
			if i == 3 && (w.removing || Choice("gone", 2) == 0) {
				Assert(n == 0, "a stale entry stays")
			} else {
				Assert(n == 1, "an entry is dropped or duplicated")
			}
		}
		FSMark()
		run()
		Assert(FSTouched() == "", "a second Clean changes something")
	}}, {func() { Setenv("CI", "true") }, noLine}}...)
	// one Clean sorts, a later process replays
	reg("c10_replay", []Phase{{nil, func() {
		w := &world{}
		w.times(kShared, "TestB", 2, "b"+SymAlpha("v", 0, 3, "\n-/["))
		w.times(kShared, "TestA", 11, "v"+SymAlpha("v", 0, 3, "\n-/["))
		w.times(kShared, "TestC", 1, SymAlpha("v", 0, 3, "\n-/["))
	}}, {cleanModeEnv, func() {
		w, sort := newWorld()
		w.times(kShared, "TestB", 1, "b"+SymAlpha("v", 0, 3, "\n-/["))
		w.times(kShared, "TestA", 11, "v"+SymAlpha("v", 0, 3, "\n-/["))
		w.clean(sort)
	}}, {func() { Setenv("CI", "true") }, func() {
		w := &world{}
		t := Test("TestB", func(t *T) { w.call(kShared, t, "b"+SymAlpha("v", 0, 3, "\n-/[")) })
		Assert(t.quiet(), "a kept value does not replay")
		t = Test("TestA", func(t *T) {
			for i := 0; i < 11; i++ {
				w.call(kShared, t, "v"+SymAlpha("v", 0, 3, "\n-/["))
			}
		})
		Assert(t.quiet(), "a kept value does not replay")
	}}}...)
}
