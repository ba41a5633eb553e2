package zzverif

import (
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
)

// plain drops the colour sequences.
func plain(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b && i+1 < len(s) && s[i+1] == '[' {
			i += 2
			for i < len(s) && (s[i] < 'A' || s[i] > 'z') {
				i++
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// summ is what a Snapshot Summary says.
type summ struct {
	n     map[string]int
	twice bool
	items []string
	files int
	tests int
	verb  string
}

func number(s string) (int, bool) {
	for _, w := range strings.Split(s, " ") {
		if n, err := strconv.Atoi(w); err == nil {
			return n, true
		}
	}
	return 0, false
}

// summaryOf reads the output of Clean: "<symbol> <n> snapshot(s) <outcome>",
// "<symbol> <n> snapshot file(s)/test(s) obsolete/removed" and the items below.
func summaryOf(out string) summ {
	r := summ{n: map[string]int{}}
	for _, l := range strings.Split(plain(out), "\n") {
		if i := strings.Index(l, "• "); i >= 0 {
			r.items = append(r.items, l[i+len("• "):])
			continue
		}
		n, ok := number(l)
		if !ok {
			continue
		}
		ws := strings.Split(l, " ")
		switch verb := ws[len(ws)-1]; verb {
		case "passed", "failed", "added", "updated", "skipped":
			if _, dup := r.n[verb]; dup {
				r.twice = true
			}
			r.n[verb] = n
		case "obsolete", "removed":
			r.verb = verb
			if strings.Contains(l, "file") {
				r.files += n
			} else {
				r.tests += n
			}
		}
	}
	return r
}

type tally struct{ passed, failed, added, updated, skipped int }

func (r summ) is(w tally) bool {
	return !r.twice && r.n["passed"] == w.passed && r.n["failed"] == w.failed && r.n["added"] == w.added &&
		r.n["updated"] == w.updated && r.n["skipped"] == w.skipped
}

// lists: the items are exactly files and tests, in any order.
func (r summ) lists(files, tests []string) bool {
	want := append(append([]string(nil), files...), tests...)
	if len(want) != len(r.items) || r.files != len(files) || r.tests != len(tests) {
		return false
	}
	have := append([]string(nil), r.items...)
	for _, w := range want {
		found := false
		for i, h := range have {
			if h == w {
				have = append(have[:i], have[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func clean(opts ...snaps.CleanOpts) string {
	return CaptureStdout(func() { snaps.Clean(nil, opts...) })
}

// outcome classes of one call
const (
	oPass = iota
	oAdd
	oUpdate
	oDiff    // stored text differs
	oMissing // nothing stored and no permission to create
	oInput   // input that is no document
	oMatcher // a matcher fails
	oWrite   // the snapshot can't be written
	oMulti   // several matchers fail at once
)

var good = []string{"val", `"val"`, "val", "val", `"val"`}

// call performs one call of an api that ends in the given outcome and adds it
// to the tally. name must be fresh.
func call(c func(opts ...func(*snaps.Config)) *snaps.Config, name string, api, out int, w *tally) {
	prep(name, api, out)
	act(c, name, api, out, w)
}

// prep stores what a call that ends in out needs.
func prep(name string, api, out int) {
	multi := api <= apiYAML
	store := func(s string) {
		if multi {
			old, _ := readFile(path("s", name+".snap"))
			writeFile(path("s", name+".snap"), old+"\n["+name+" - 1]\n"+s+"\n---\n")
		} else if api == apiAloneJSON {
			writeFile(path("s", name+"_1.snap.json"), s)
		} else {
			writeFile(path("s", name+"_1.snap"), s)
		}
	}
	switch out {
	case oPass:
		store(good[api])
	case oUpdate, oDiff:
		store("old")
	case oWrite:
		// a file where the directory should be
		writeFile(path("blocked"), "")
	}
}

func act(c func(opts ...func(*snaps.Config)) *snaps.Config, name string, api, out int, w *tally) {
	var opts []func(*snaps.Config)
	if api <= apiYAML {
		opts = append(opts, snaps.Filename(name))
	}
	cfg := func(o ...func(*snaps.Config)) *snaps.Config { return c(append(opts, o...)...) }
	t := NewT(name)
	want := "error"
	switch out {
	case oPass:
		do(cfg(), t, api, good[api])
		want = ""
		w.passed++
	case oAdd:
		do(cfg(snaps.Update(true)), t, api, good[api])
		want = "log"
		w.added++
	case oUpdate:
		do(cfg(snaps.Update(true)), t, api, good[api])
		want = "log"
		w.updated++
	case oDiff:
		do(cfg(snaps.Update(false)), t, api, good[api])
		w.failed++
	case oMissing:
		do(cfg(snaps.Update(false)), t, api, good[api])
		w.failed++
	case oInput:
		switch api {
		case apiJSON, apiAloneJSON:
			do(cfg(), t, api, "{")
		case apiYAML:
			do(cfg(), t, api, "a: [")
		default:
			Unreachable()
		}
		w.failed++
	case oMatcher, oMulti:
		ps := []string{"a"}
		if out == oMulti {
			ps = []string{"a", "b"}
		}
		switch api {
		case apiJSON:
			cfg().MatchJSON(t, "{}", match.Any(ps...), match.Any("c"))
		case apiAloneJSON:
			cfg().MatchStandaloneJSON(t, "{}", match.Any(ps...), match.Any("c"))
		case apiYAML:
			for i := range ps {
				ps[i] = "$." + ps[i]
			}
			cfg().MatchYAML(t, "z: 1", match.Any(ps...), match.Any("$.c"))
		default:
			Unreachable()
		}
		w.failed++
	case oWrite:
		do(snaps.WithConfig(snaps.Dir(path("blocked", "d")), snaps.Filename(name), snaps.Update(true)), t, api, good[api])
		w.failed++
	}
	t.Finish()
	Assert(outcome(t) == want, "a call does not signal exactly its outcome")
	if out == oAdd {
		Assert(strings.Contains(t.Logs[0], "added"), "an added snapshot is not logged as added")
	}
	if out == oUpdate {
		Assert(strings.Contains(t.Logs[0], "updated"), "an updated snapshot is not logged as updated")
	}
}

// skip performs one Skip* call.
func skip(name string, kind int, w *tally) {
	t := Test(name, func(t *T) {
		switch kind {
		case 0:
			snaps.Skip(t, "because")
		case 1:
			snaps.Skipf(t, "%d", 1)
		case 2:
			snaps.SkipNow(t)
		}
		Assert(false, "a skipped test goes on")
	})
	Assert(t.Skipped && len(t.Errors) == 0, "a skip wrapper does not skip")
	w.skipped++
}

// step performs operation op; skips are ops beyond the outcomes.
func step(i, op int, api int, w *tally) {
	name := "TestOp" + strconv.Itoa(i)
	if op > oMulti {
		skip(name, op-oMulti-1, w)
		return
	}
	call(cfgS, name, api, op, w)
}

// checkSummary runs Clean in a mode and compares.
func checkSummary(w tally, files, tests []string) {
	var o []snaps.CleanOpts
	if Choice("sort", 2) == 1 {
		o = append(o, snaps.CleanOpts{Sort: true})
	}
	out := clean(o...)
	r := summaryOf(out)
	Assert(r.is(w), "the summary does not show the totals of the outcomes")
	Assert(r.lists(files, tests), "the summary does not list exactly the obsolete items")
	if len(files)+len(tests) > 0 {
		removed := Choice("env", 3) > 0
		Assert((r.verb == "removed") == removed, "the summary does not say whether the obsolete items were removed")
	}
	if (w == tally{}) && len(files)+len(tests) == 0 {
		Assert(len(r.n) == 0, "a summary of nothing")
	} else {
		Assert(strings.Contains(out, "Summary"), "no summary")
	}
}

func cleanEnv() {
	if e := Choice("env", 3); e > 0 {
		Setenv("UPDATE_SNAPS", []string{"", "clean", "true"}[e])
	}
}

func init() {
	all := []int{oPass, oAdd, oUpdate, oDiff, oMissing, oInput, oMatcher, oWrite, oMulti, oMulti + 1, oMulti + 2, oMulti + 3}
	// every outcome of every api, alone
	reg("c20_one", Phase{cleanEnv, func() {
		var w tally
		step(0, all[Choice("op", len(all))], Choice("api", 5), &w)
		checkSummary(w, nil, nil)
	}})
	// sequences
	seq := func(n int, apis bool) []Phase {
		env := cleanEnv
		if n == 4 {
			env = nil
		}
		return []Phase{{env, func() {
			var w tally
			for i := 0; i < n; i++ {
				nm := strconv.Itoa(i)
				op := all[Choice("op"+nm, len(all))]
				api := apiJSON
				if op <= oMulti && apis {
					api = []int{apiJSON, apiAloneJSON, apiYAML}[Choice("api"+nm, 3)]
				}
				step(i, op, api, &w)
			}
			if env == nil {
				Assert(summaryOf(clean()).is(w), "the summary does not show the totals of the outcomes")
				return
			}
			checkSummary(w, nil, nil)
		}}}
	}
	reg("c20_two", seq(2, true)...)
	reg("c20_three", seq(3, false)...)
	reg("c20_four", seq(4, false)...)
	// the outcome is decided by the values: one file, one test, symbolic stored
	// and received values
	reg("c20_values", Phase{nil, func() {
		var w tally
		var file string
		vs := make([]string, 4)
		for i := range vs {
			n := strconv.Itoa(i)
			vs[i] = word("stored"+n, 1)
			if i != 2 {
				file += "\n[TestV - " + strconv.Itoa(i+1) + "]\n" + vs[i] + "\n---\n"
			}
		}
		writeFile(path("s", "f.snap"), file)
		t := NewT("TestV")
		for i := range vs {
			v := word("v"+strconv.Itoa(i), 1)
			upd := Choice("upd"+strconv.Itoa(i), 3)
			o := []func(*snaps.Config){snaps.Filename("f")}
			if upd > 0 {
				o = append(o, snaps.Update(upd == 2))
			}
			n := len(t.Events)
			cfgS(o...).MatchSnapshot(t, v)
			ev := t.Events[n:]
			switch {
			case i == 2 && upd != 1:
				w.added++
				Assert(len(ev) == 1 && ev[0] == "log", "a call does not signal exactly its outcome")
			case i != 2 && v == vs[i]:
				w.passed++
				Assert(len(ev) == 0, "a call does not signal exactly its outcome")
			case i != 2 && upd == 2:
				w.updated++
				Assert(len(ev) == 1 && ev[0] == "log", "a call does not signal exactly its outcome")
			default:
				w.failed++
				Assert(len(ev) == 1 && ev[0] == "error", "a call does not signal exactly its outcome")
			}
		}
		t.Finish()
		Assert(summaryOf(clean()).is(w), "the summary does not show the totals of the outcomes")
	}})
	// many calls of one outcome
	reg("c20_many", Phase{nil, func() {
		var w tally
		k := []int{9, 10, 11, 99, 100, 101, 130}[Choice("n", 7)]
		op := []int{oPass, oAdd, oUpdate, oDiff, oMulti + 1}[Choice("op", 5)]
		for i := 0; i < k; i++ {
			step(i, op, apiAlone, &w)
		}
		Assert(summaryOf(clean()).is(w), "the summary does not show the totals of the outcomes")
	}})
	// hundreds of calls
	reg("c20_tally", Phase{nil, func() {
		var w tally
		n := []int{255, 256, 257, 999, 1000, 1024}[Choice("n", 6)]
		op := Choice("op", 3)
		for i := 0; i < n; i++ {
			switch op {
			case 0:
				Test("TestP", func(t *T) { cfgS(snaps.Filename("f")).MatchSnapshot(t, "v") })
			case 1:
				Test("TestF", func(t *T) { cfgS(snaps.Filename("f")).MatchJSON(t, "{") })
			case 2:
				Test("TestS", func(t *T) { snaps.SkipNow(t) })
			}
		}
		switch op {
		case 0:
			w.added, w.passed = 1, n-1
		case 1:
			w.failed = n
		case 2:
			w.skipped = n
		}
		Assert(summaryOf(clean()).is(w), "the summary does not show the totals of the outcomes")
	}})
	// long lists of obsolete items
	reg("c20_list", Phase{cleanEnv, func() {
		var w tally
		var fs, ts []string
		for i := 0; i < []int{0, 1, 50, 130}[Choice("files", 4)]; i++ {
			f := path("s", "old"+strconv.Itoa(i)+".snap")
			writeFile(f, "")
			fs = append(fs, f)
		}
		s := "\n[TestA - 1]\nv\n---\n"
		for i := 0; i < []int{0, 1, 50, 130}[Choice("entries", 4)]; i++ {
			id := "TestA - " + strconv.Itoa(i+2)
			s += "\n[" + id + "]\nold\n---\n"
			ts = append(ts, id)
		}
		writeFile(path("s", "f.snap"), s)
		t := Test("TestA", func(t *T) { cfgS(snaps.Filename("f")).MatchSnapshot(t, "v") })
		Assert(t.quiet(), "an equal value does not pass")
		w.passed = 1
		checkSummary(w, fs, ts)
	}})
	// one shared config, package level functions, sub-tests, repeated executions
	reg("c20_again", Phase{nil, func() {
		var w tally
		c := cfgS(snaps.Filename("f"))
		for i := 0; i < 3; i++ {
			v := word("v"+strconv.Itoa(i), 1)
			sk := Choice("skip"+strconv.Itoa(i), 2) == 1
			t := Test("TestR", func(t *T) {
				c.MatchSnapshot(t, "same")
				c.MatchStandaloneSnapshot(t, "w")
				if sk {
					snaps.SkipNow(t)
				}
				c.MatchSnapshot(t, v)
			})
			if i == 0 {
				w.added += 2
			} else {
				w.passed += 2
			}
			if sk {
				w.skipped++
				continue
			}
			switch outcome(t) {
			case "log", "log,log,log":
				w.added++
			case "":
				w.passed++
			case "error":
				w.failed++
			default:
				Assert(false, "a call does not signal exactly its outcome")
			}
		}
		r := summaryOf(clean())
		Assert(r.is(w), "the summary does not show the totals of the outcomes")
	}})
	// obsolete items: any subset of stale entries and files, in files of two directories
	reg("c20_obsolete", Phase{cleanEnv, func() {
		var w tally
		var fs, ts []string
		d2 := path("d2")
		entries := func(nm string, live, name string) string {
			k := Choice(nm, 4)
			s := ""
			if k&1 == 1 {
				s += "\n[TestOld - 1]\nold\n---\n"
				ts = append(ts, "TestOld - 1")
			}
			s += "\n[" + live + " - 1]\nv\n---\n"
			if k&2 == 2 {
				s += "\n[" + live + " - 2]\nold\n---\n"
				ts = append(ts, live+" - 2")
			}
			return s
		}
		writeFile(path("s", "f.snap"), entries("e1", "TestA", "f"))
		writeFile(path("d2", "g.snap"), entries("e2", "TestB", "g"))
		for i, f := range []string{"s/old.snap", "s/TestOld_1.snap", "d2/old.snap.json", "s/TestA_1.snap.txt"} {
			if Choice("f"+strconv.Itoa(i), 2) == 1 {
				body := "x"
				if i == 0 {
					body = "\n[TestGone - 1]\nx\n---\n\n[TestGone - 2]\nx\n---\n"
				}
				writeFile(path(f), body)
				fs = append(fs, path(f))
			}
		}
		writeFile(path("s", "notes.txt"), "x")
		writeFile(path("s", "sub", "old.snap"), "x")
		a := Test("TestA", func(t *T) { cfgS(snaps.Filename("f")).MatchSnapshot(t, "v") })
		b := Test("TestB", func(t *T) {
			snaps.WithConfig(snaps.Dir(d2), snaps.Filename("g")).MatchSnapshot(t, "v")
		})
		Assert(a.quiet() && b.quiet(), "an equal value does not pass")
		w.passed = 2
		checkSummary(w, fs, ts)
	}})
	// only obsolete items or only skips
	reg("c20_only", Phase{cleanEnv, func() {
		var w tally
		var fs []string
		if Choice("skip", 2) == 1 {
			skip("TestS", Choice("kind", 3), &w)
		}
		checkSummary(w, fs, nil)
	}})
	// concurrent calls
	conc := func(n, preempt int, apis, ops []int) Phase {
		return Phase{nil, func() {
			ws := make([]tally, n)
			op := make([]int, n)
			for i := range op {
				op[i] = ops[Choice("op"+strconv.Itoa(i), len(ops))]
				if i > 0 && op[i] < op[i-1] {
					Unreachable() // symmetric
				}
			}
			api := apis[Choice("api", len(apis))]
			for i := range op {
				if op[i] <= oMulti {
					prep("TestOp"+strconv.Itoa(i), api, op[i])
				}
			}
			DetectRaces()
			ExploreSchedules(preempt)
			for i := 0; i < n; i++ {
				i := i
				Go(func() {
					name := "TestOp" + strconv.Itoa(i)
					if op[i] > oMulti {
						skip(name, op[i]-oMulti-1, &ws[i])
					} else {
						act(cfgS, name, api, op[i], &ws[i])
					}
				})
			}
			WaitAll()
			StopSchedules()
			var w tally
			for _, x := range ws {
				w.passed += x.passed
				w.failed += x.failed
				w.added += x.added
				w.updated += x.updated
				w.skipped += x.skipped
			}
			Assert(summaryOf(clean()).is(w), "the summary does not show the totals of the outcomes")
		}}
	}
	ops := []int{oPass, oAdd, oUpdate, oDiff, oMulti + 1}
	reg("c20_par", conc(2, -1, []int{apiAlone}, ops))
	reg("c20_parsnap", conc(2, -1, []int{apiSnap, apiJSON}, append(ops, oInput)))
	reg("c20_par3", conc(3, -1, []int{apiAlone}, []int{oPass, oAdd, oMulti + 1}))
	reg("c20_par3ops", conc(3, -1, []int{apiAlone}, ops))
}
