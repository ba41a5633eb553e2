package zzverif

import (
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

var ciEnvs = []struct {
	vars []string
	ci   bool
}{
	{nil, false},
	{[]string{"CI", "true"}, true},
	{[]string{"GITHUB_ACTIONS", "true"}, true},
	{[]string{"CI", "false"}, false},
	{[]string{"BUILD_NUMBER", "7"}, true},
	{[]string{"CI", "", "CONTINUOUS_INTEGRATION", ""}, true},
	{[]string{"CI", "false", "TRAVIS", "1"}, false},
}

func modeEnv(envs int) func() {
	return func() {
		e := ciEnvs[Choice("ci", envs)]
		for i := 0; i < len(e.vars); i += 2 {
			Setenv(e.vars[i], e.vars[i+1])
		}
		if Choice("set", 2) == 1 {
			v := updVar()
			Setenv("UPDATE_SNAPS", v)
		}
	}
}

// updVar: any value of UPDATE_SNAPS.
func updVar() string {
	if Choice("set", 2) == 0 {
		return ""
	}
	v := SymString("upd", 0, 6)
	for i := 0; i < len(v); i++ {
		Assume(v[i] != 0)
	}
	return v
}

type mode struct{ create, update, remove, sort bool }

func modeOf(envs int) mode {
	off := !ciEnvs[Choice("ci", envs)].ci
	v := updVar()
	opt := Choice("opt", 3)
	m := mode{create: off && opt != 1, update: off && opt == 2, remove: off && (v == "true" || v == "clean"), sort: off && Choice("sort", 2) == 1}
	if opt == 0 {
		m.update = off && v == "true"
	}
	return m
}

func modeCfg(extra ...func(*snaps.Config)) *snaps.Config {
	o := append([]func(*snaps.Config){snaps.Dir(path("s"))}, extra...)
	if opt := Choice("opt", 3); opt > 0 {
		o = append(o, snaps.Update(opt == 2))
	}
	return snaps.WithConfig(o...)
}

func outcome(t *T) string { return strings.Join(t.Events, ",") }

// modeTable: one call of the api in one of three states, then Clean.
func modeTable(envs int, apis []int) []Phase {
	return []Phase{{modeEnv(envs), func() {
		m := modeOf(envs)
		api := apis[Choice("api", len(apis))]
		state := Choice("state", 3) // missing, equal, different
		in := []string{"val", `"val"`, "val", "val", `"val"`}[api]
		stored := in
		if state == 2 {
			stored = "other"
		}
		multi := api <= apiYAML
		entry := "\n[TestM - 1]\n" + stored + "\n---\n"
		if state == 0 {
			entry = ""
		}
		// an addressed file in unsorted order with an obsolete entry
		head := "\n[TestZ - 1]\nz\n---\n\n[TestOld - 1]\nold\n---\n"
		writeFile(path("s", "f.snap"), head+entry)
		writeFile(path("s", "gone.snap"), "\n[TestGone - 1]\nx\n---\n")
		writeFile(path("s", "TestGone_1.snap"), "x")
		writeFile(path("s", "notes.txt"), "x")
		if !multi {
			writeFile(path("s", "f.snap"), head)
			if state != 0 {
				writeFile(path("s", alone(api)), stored)
			}
		}
		before := tree()
		FSMark()
		z := Test("TestZ", func(t *T) {
			snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f")).MatchSnapshot(t, "z")
		})
		Assert(z.quiet() && FSTouched() == "", "a matching call is not silent")
		var opts []func(*snaps.Config)
		if multi {
			opts = append(opts, snaps.Filename("f"))
		}
		c := modeCfg(opts...)
		t := Test("TestM", func(t *T) { do(c, t, api, in) })
		touched := FSTouched()
		wrote := false
		switch {
		case state == 1:
			Assert(t.quiet(), "an equal value does not pass")
		case state == 0 && m.create || state == 2 && m.update:
			Assert(outcome(t) == "log", "a permitted write does not happen or is not logged")
			wrote = true
		default:
			Assert(outcome(t) == "error", "a call that may not write does not fail with one error")
		}
		if !wrote {
			Assert(touched == "", "a call writes although the mode forbids it")
		} else {
			stored = in
			if multi {
				entry = "\n[TestM - 1]\n" + in + "\n---\n"
				Assert(mustRead(path("s", "f.snap")) == head+entry, "a permitted write stores something else")
			} else {
				Assert(mustRead(path("s", alone(api))) == in, "a permitted write stores something else")
			}
		}
		// Clean
		FSMark()
		out := CaptureStdout(func() {
			if Choice("sort", 2) == 1 {
				snaps.Clean(nil, snaps.CleanOpts{Sort: true})
			} else {
				snaps.Clean(nil)
			}
		})
		Assert(strings.Contains(out, "TestOld - 1") && strings.Contains(out, "gone.snap"), "an obsolete item is not reported")
		touched = FSTouched()
		if !m.remove && !m.sort {
			Assert(touched == "", "Clean writes although the mode forbids it")
		}
		Assert(exists(path("s", "gone.snap")) == !m.remove, "obsolete files are not handled as the mode says")
		Assert(exists(path("s", "TestGone_1.snap")) == !m.remove, "obsolete files are not handled as the mode says")
		Assert(exists(path("s", "notes.txt")), "Clean removes a foreign file")
		z1, old1 := "\n[TestZ - 1]\nz\n---\n", "\n[TestOld - 1]\nold\n---\n"
		if !multi {
			entry = ""
		}
		want := z1 + old1 + entry
		switch {
		case m.remove && m.sort:
			want = entry + z1
		case m.remove:
			want = z1 + entry
		case m.sort:
			want = entry + old1 + z1
		}
		Assert(mustRead(path("s", "f.snap")) == want, "entries are not pruned and sorted as the mode says")
		if !multi && (state != 0 || wrote) {
			Assert(mustRead(path("s", alone(api))) == stored, "Clean touches an addressed standalone snapshot")
		}
		if m.create || m.remove {
			return
		}
		for i, f := range tree() {
			Assert(f == before[i], "files appear or disappear")
		}
	}}}
}

func alone(api int) string {
	if api == apiAloneJSON {
		return "TestM_1.snap.json"
	}
	return "TestM_1.snap"
}

func init() {
	reg("c05_all", modeTable(len(ciEnvs), []int{0, 1, 2, 3, 4})...)
	// nothing exists yet: no directory is created where nothing may be written;
	// the package level functions follow the same table
	reg("c05_empty", Phase{modeEnv(3), func() {
		m := modeOf(3)
		FSMark()
		c := modeCfg(snaps.Filename("f"))
		api := Choice("api", 5)
		t := Test("TestM", func(t *T) { do(c, t, api, []string{"val", `"val"`, "val", "val", `"val"`}[api]) })
		if m.create {
			Assert(outcome(t) == "log" && len(tree()) == 1, "a missing snapshot is not created")
		} else {
			Assert(outcome(t) == "error", "a missing snapshot does not fail")
			Assert(FSTouched() == "", "something is created although the mode forbids it")
		}
		FSMark()
		CaptureStdout(func() { snaps.Clean(nil, snaps.CleanOpts{Sort: true}) })
		Assert(FSTouched() == "", "Clean writes with nothing to remove or sort")
	}})
	// several options and configs: the last option wins, configs do not affect each other
	reg("c05_opts", Phase{modeEnv(2), func() {
		ci := ciEnvs[Choice("ci", 2)].ci
		upd := updVar() == "true"
		writeFile(path("s", "f.snap"), "\n[TestM - 1]\nold\n---\n\n[TestM - 2]\nold\n---\n\n[TestM - 3]\nold\n---\n")
		a := snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"), snaps.Update(true))
		b := snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"), snaps.Update(true), snaps.Update(false))
		c := cfgF()
		t := NewT("TestM")
		a.MatchSnapshot(t, "new")
		b.MatchSnapshot(t, "new")
		c.MatchSnapshot(t, "new")
		ev := []string{"log", "error", "error"}
		w := []string{"new", "old", "old"}
		if upd {
			ev[2], w[2] = "log", "new"
		}
		if ci {
			ev = []string{"error", "error", "error"}
			w = []string{"old", "old", "old"}
		}
		Assert(outcome(t) == strings.Join(ev, ","), "the Update option of a config is not followed")
		Assert(mustRead(path("s", "f.snap")) == "\n[TestM - 1]\n"+w[0]+"\n---\n\n[TestM - 2]\n"+w[1]+"\n---\n\n[TestM - 3]\n"+w[2]+"\n---\n", "the Update option of a config is not followed")
	}})
	// other environment variables decide nothing
	reg("c05_solely", Phase{func() {
		v := []string{"UPDATE", "UPDATE_SNAP", "update_snaps", "NO_COLOR", "GOFLAGS", "TERM"}[Choice("var", 6)]
		Setenv(v, []string{"true", "clean"}[Choice("val", 2)])
	}, func() {
		writeFile(path("s", "f.snap"), "\n[TestM - 2]\nold\n---\n\n[TestM - 1]\nold\n---\n")
		writeFile(path("s", "g.snap"), "\n[TestG - 1]\nold\n---\n")
		FSMark()
		t := Test("TestM", func(t *T) { cfgF().MatchSnapshot(t, "new") })
		CaptureStdout(func() { snaps.Clean(nil) })
		Assert(outcome(t) == "error" && FSTouched() == "", "an unrelated variable permits writing")
	}})
}
