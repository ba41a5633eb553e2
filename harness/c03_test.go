package zzverif

import (
	"errors"
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
)

// slots is the reference model of one snapshot file: (name, ordinal) -> value
// in order of creation.
type slots struct {
	ord   map[string]int
	ids   []string
	vals  map[string]string
	alone bool
}

func newSlots(alone bool) *slots {
	return &slots{ord: map[string]int{}, vals: map[string]string{}, alone: alone}
}

func (s *slots) add(id, v string) {
	s.ids = append(s.ids, id)
	s.vals[id] = v
}

// next returns the slot the next call of the test addresses.
func (s *slots) next(name string) string {
	s.ord[name]++
	return name + " - " + strconv.Itoa(s.ord[name])
}

// checkFile compares the snapshot file with the model, byte for byte.
func (s *slots) checkFile(file, what string) {
	got, _ := readFile(file)
	want := ""
	for _, id := range s.ids {
		want += "\n[" + id + "]\n" + s.vals[id] + "\n---\n"
	}
	Assert(got == want, what)
}

func (s *slots) checkAlone(dir, what string) {
	Assert(len(treeOf(dir)) == len(s.ids), what)
	for _, id := range s.ids {
		i := len(id) - 1
		for id[i] != ' ' {
			i--
		}
		name := []byte(id[:i-2])
		for j := range name {
			if name[j] == '/' {
				name[j] = '_'
			}
		}
		Assert(mustRead(dir+"/"+string(name)+"_"+id[i+1:]+".snap") == s.vals[id], what)
	}
}

// ops runs n operations (calls of three live tests, ends of executions) chosen
// freely; every outcome and the final file are compared with the model.
func ops(n int, alone, update bool) []Phase {
	return []Phase{{nil, func() {
		names := []string{"TestA", "TestB", "TestA/s"}
		live := map[string]*T{}
		m := newSlots(alone)
		c := cfgF()
		if alone {
			c = snaps.WithConfig(snaps.Dir(path("s")))
		}
		if update {
			if alone {
				c = snaps.WithConfig(snaps.Dir(path("s")), snaps.Update(true))
			} else {
				c = snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"), snaps.Update(true))
			}
		}
		if Choice("pre", 2) == 1 {
			m.add("TestA - 2", "x")
			m.add("TestO - 1", "[TestA - 1]")
			m.add("TestA/s - 1", "y")
			if alone {
				writeFile(path("s", "TestA_2.snap"), "x")
				writeFile(path("s", "TestO_1.snap"), "[TestA - 1]")
				writeFile(path("s", "TestA_s_1.snap"), "y")
			} else {
				writeFile(path("s", "f.snap"), "\n[TestA - 2]\nx\n---\n\n[TestO - 1]\n[TestA - 1]\n---\n\n[TestA/s - 1]\ny\n---\n")
			}
		}
		for i := 0; i < n; i++ {
			k := string(rune('0' + i))
			op := Choice("op"+k, 5)
			if op >= 3 {
				name := names[op-3]
				if live[name] != nil {
					live[name].Finish()
					delete(live, name)
					m.ord[name] = 0
				}
				continue
			}
			name := names[op]
			if live[name] == nil {
				live[name] = NewT(name)
			}
			t := live[name]
			v := string(SymBytes("v"+k, 1))
			Assume(v == "x" || v == "y" || v == "z")
			id := m.next(name)
			e, l := len(t.Errors), len(t.Logs)
			if alone {
				c.MatchStandaloneSnapshot(t, v)
			} else {
				c.MatchSnapshot(t, v)
			}
			old, has := m.vals[id]
			switch {
			case !has:
				Assert(len(t.Errors) == e && len(t.Logs) == l+1, "a new slot is not created")
				m.add(id, v)
			case old == v:
				Assert(len(t.Errors) == e && len(t.Logs) == l, "a call does not match its own slot")
			case update:
				Assert(len(t.Errors) == e && len(t.Logs) == l+1, "a changed slot is not updated")
				m.vals[id] = v
			default:
				Assert(len(t.Errors) == e+1 && len(t.Logs) == l, "a changed value of a slot is not reported")
			}
		}
		if alone {
			m.checkAlone(path("s"), "the standalone files do not hold the values of the calls")
		} else {
			m.checkFile(path("s", "f.snap"), "the file does not hold the entries of the calls in order")
		}
	}}}
}

func init() {
	reg("c03_ops3", ops(3, false, false)...)
	reg("c03_ops4", ops(4, false, false)...)
	reg("c03_ops5", ops(5, false, false)...)
	reg("c03_upd4", ops(4, false, true)...)
	reg("c03_upd5", ops(5, false, true)...)
	reg("c03_alone3", ops(3, true, false)...)
	reg("c03_alone4", ops(4, true, false)...)
	reg("c03_aloneupd4", ops(4, true, true)...)
	// two tests with arbitrary different names share the file
	nameChar := func(b byte) bool { return b > ' ' && b < 0x7f }
	names := func(n int, calls int, alone bool) []Phase {
		get := func() (string, string) {
			a, b := "Test"+string(SymBytes("a", n)), "Test"+SymString("b", n-1, n)
			for _, s := range []string{a, b} {
				for i := 4; i < len(s); i++ {
					Assume(nameChar(s[i]))
				}
			}
			Assume(a != b)
			if alone {
				for i := 4; i < len(a); i++ {
					Assume(a[i] != '/')
				}
				for i := 4; i < len(b); i++ {
					Assume(b[i] != '/')
				}
			}
			return a, b
		}
		prog := func(c *snaps.Config) (ta, tb *T) {
			a, b := get()
			ta, tb = NewT(a), NewT(b)
			for i := 0; i < calls; i++ {
				if alone {
					c.MatchStandaloneSnapshot(ta, "a"+strconv.Itoa(i))
					c.MatchStandaloneSnapshot(tb, "b"+strconv.Itoa(i))
				} else {
					c.MatchSnapshot(ta, "a"+strconv.Itoa(i))
					c.MatchSnapshot(tb, "b"+strconv.Itoa(i))
				}
			}
			ta.Finish()
			tb.Finish()
			return
		}
		cfg := func() *snaps.Config {
			if alone {
				return snaps.WithConfig(snaps.Dir(path("s")))
			}
			return cfgF()
		}
		return []Phase{
			{nil, func() {
				ta, tb := prog(cfg())
				Assert(len(ta.Errors)+len(tb.Errors) == 0, "a call of one test hits a slot of another")
				Assert(len(ta.Logs) == calls && len(tb.Logs) == calls, "a call of one test hits a slot of another")
				m := newSlots(alone)
				for i := 0; i < calls; i++ {
					m.add(ta.Name()+" - "+strconv.Itoa(i+1), "a"+strconv.Itoa(i))
					m.add(tb.Name()+" - "+strconv.Itoa(i+1), "b"+strconv.Itoa(i))
				}
				if alone {
					Assert(len(treeOf(path("s"))) == 2*calls, "two slots share a file")
				} else {
					m.checkFile(path("s", "f.snap"), "the file does not hold one entry per slot")
				}
			}},
			// again, twice in one process (-count=2)
			{nil, func() {
				for i := 0; i < 2; i++ {
					ta, tb := prog(cfg())
					Assert(ta.quiet() && tb.quiet(), "a replayed call hits another slot")
				}
			}},
		}
	}
	reg("c03_names2", names(2, 2, false)...)
	reg("c03_names3", names(3, 1, false)...)
	reg("c03_nalone", names(1, 1, true)...)
	reg("c03_nalone2", names(2, 1, true)...)
	// a failing call consumes its ordinal, whatever makes it fail
	fails := []func(c *snaps.Config, t *T){
		func(c *snaps.Config, t *T) { c.MatchSnapshot(t, "changed") },
		func(c *snaps.Config, t *T) { c.MatchJSON(t, `{"a":`) },
		func(c *snaps.Config, t *T) { c.MatchJSON(t, `{"a":1}`, match.Any("b")) },
		func(c *snaps.Config, t *T) { c.MatchJSON(t, func() {}) },
		func(c *snaps.Config, t *T) { c.MatchYAML(t, "a: [") },
		func(c *snaps.Config, t *T) { c.MatchYAML(t, "a: 1", match.Type[string]("$.a")) },
		func(c *snaps.Config, t *T) {
			c.MatchJSON(t, `{"a":1}`, match.Custom("a", func(any) (any, error) { return nil, errors.New("no") }))
		},
	}
	reg("c03_fail", Phase{nil, func() {
		t := Test("TestA", func(t *T) {
			for i := 1; i <= 3; i++ {
				cfgF().MatchSnapshot(t, "v"+strconv.Itoa(i))
			}
		})
		Assume(len(t.Errors) == 0)
	}}, Phase{nil, func() {
		at := 1 + Choice("at", 3)
		kind := Choice("kind", len(fails))
		before := mustRead(path("s", "f.snap"))
		c := cfgF()
		for round := 0; round < 2; round++ {
			t := Test("TestA", func(t *T) {
				for i := 1; i <= 3; i++ {
					if i == at {
						fails[kind](c, t)
						continue
					}
					c.MatchSnapshot(t, "v"+strconv.Itoa(i))
				}
			})
			Assert(len(t.Errors) == 1, "the failing call shifts the slots of later calls")
			Assert(len(t.Logs) == 0, "a failing call makes another one create an entry")
		}
		Assert(mustRead(path("s", "f.snap")) == before, "a failing call writes")
	}})
	// the same for standalone snapshots
	sfails := []func(c *snaps.Config, t *T){
		func(c *snaps.Config, t *T) { c.MatchStandaloneJSON(t, `"changed"`) },
		func(c *snaps.Config, t *T) { c.MatchStandaloneJSON(t, `{"a":`) },
		func(c *snaps.Config, t *T) { c.MatchStandaloneJSON(t, `{"a":1}`, match.Any("b")) },
		func(c *snaps.Config, t *T) { c.MatchStandaloneJSON(t, func() {}) },
	}
	reg("c03_failalone", Phase{nil, func() {
		t := Test("TestA", func(t *T) {
			for i := 1; i <= 3; i++ {
				snaps.WithConfig(snaps.Dir(path("s"))).MatchStandaloneJSON(t, i)
			}
		})
		Assume(len(t.Errors) == 0)
	}}, Phase{nil, func() {
		at := 1 + Choice("at", 3)
		kind := Choice("kind", len(sfails))
		c := snaps.WithConfig(snaps.Dir(path("s")))
		FSMark()
		for round := 0; round < 2; round++ {
			t := Test("TestA", func(t *T) {
				for i := 1; i <= 3; i++ {
					if i == at {
						sfails[kind](c, t)
						continue
					}
					c.MatchStandaloneJSON(t, i)
				}
			})
			Assert(len(t.Errors) == 1, "the failing call shifts the slots of later calls")
			Assert(len(t.Logs) == 0, "a failing call makes another one create an entry")
		}
		Assert(FSTouched() == "", "a failing call writes")
	}})
	// missing snapshots on CI: the failing calls still count
	reg("c03_ci", Phase{nil, func() {
		writeFile(path("s", "f.snap"), "\n[TestA - 2]\nv2\n---\n")
	}}, Phase{func() { Setenv("CI", "true") }, func() {
		miss := Choice("at", 2)
		t := Test("TestA", func(t *T) {
			if miss == 0 {
				cfgF().MatchSnapshot(t, "v1")
			} else {
				cfgF().MatchJSON(t, "1")
			}
			Assert(len(t.Errors) == 1, "a missing snapshot passes on CI")
			cfgF().MatchSnapshot(t, "v2")
			Assert(len(t.Errors) == 1, "a failed call on CI did not consume its ordinal")
			cfgF().MatchSnapshot(t, "v2")
			Assert(len(t.Errors) == 2, "a call addresses the slot of an earlier one")
		})
		_ = t
	}})
	// one test, calls on two files: ordinals are per file
	reg("c03_files", recordReplay(func(test testFn) {
		for round := 0; round < 2; round++ {
			test("TestA", func(t *T) {
				for i := 0; i < 4; i++ {
					k := strconv.Itoa(i)
					c := snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename([]string{"f", "g"}[Choice("file"+k, 2)]))
					if Choice("alone"+k, 2) == 1 {
						c.MatchStandaloneSnapshot(t, "v"+k)
					} else {
						c.MatchSnapshot(t, "v"+k)
					}
				}
			})
		}
	})...)
	// calls made while the test is being cleaned up
	reg("c03_cleanup", Phase{nil, func() {
		order := Choice("order", 2)
		t := Test("TestA", func(t *T) {
			in := func() { cfgF().MatchSnapshot(t, "cleanup") }
			if order == 0 {
				t.Cleanup(in)
			}
			cfgF().MatchSnapshot(t, "one")
			cfgF().MatchSnapshot(t, "two")
			if order == 1 {
				t.Cleanup(in)
			}
		})
		AssertKnown(len(t.Errors) == 0 && len(t.Logs) == 3, "a call made by a cleanup function does not address its own slot", "CLEANUP", order == 0)
	}})
	// two live tests whose standalone calls share the file name, or not
	reg("c03_shared", Phase{nil, func() {
		n := Choice("names", 4)
		c := sharedCfg(n)
		t := Test(sharedA[n], func(t *T) {
			c.MatchStandaloneSnapshot(t, "1")
			c.MatchStandaloneSnapshot(t, "2")
		})
		Assume(len(t.Errors) == 0)
	}}, Phase{nil, func() {
		n := Choice("names", 4)
		c := sharedCfg(n)
		ta, tb := NewT(sharedA[n]), NewT([]string{"TestB", "TestA_b", "TestA/b", "TestB"}[n])
		c.MatchStandaloneSnapshot(ta, "1")
		c.MatchStandaloneSnapshot(tb, "1")
		if Choice("end", 2) == 1 {
			tb.Finish()
		}
		c.MatchStandaloneSnapshot(ta, "2")
		AssertKnown(ta.quiet(), "another live test shifts the standalone slots of a test", "SHARED", n < 3)
	}})
}

var sharedA = []string{"TestA", "TestA/b", "TestA", "TestA"}

func sharedCfg(n int) *snaps.Config {
	if n == 1 || n == 3 {
		return snaps.WithConfig(snaps.Dir(path("s")))
	}
	return snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"))
}

func init() {
	// entries whose text holds lines that look like the header of any entry
	ids := []string{"TestA - 1", "TestA - 2", "TestB - 1", "TestA/s - 1", "TestA - 10"}
	host := func(nm string, upd bool) string {
		if upd {
			h := "[" + []string{"TestA", "TestB", "TestA/s"}[Choice(nm+"name", 3)] + " - " + SymAlpha(nm, 1, 1, "0123") + "]"
			return []string{h, "\n" + h + "\n\n---\n", "---\n\n" + h + "\nz\n---"}[Choice(nm+"form", 3)]
		}
		h := "[" + []string{"TestA", "TestB", "TestA/s"}[Choice(nm+"name", 3)] + " - " + []string{"", "1"}[Choice(nm+"ten", 2)] + SymAlpha(nm, 1, 1, "0123") + "]"
		return []string{h, "x\n" + h + "\ny", "\n" + h + "\n\n---\n", h + "\n" + h, "---\n\n" + h + "\nz\n---", "[z]\n\n" + h}[Choice(nm+"form", 6)]
	}
	hosts := func(upd bool) []Phase {
		val := func(i int, second bool) string {
			if i == Choice("host", len(ids)) {
				return host("h", upd)
			}
			if second && i == Choice("guest", len(ids)) {
				return "x\n[" + ids[Choice("host", len(ids))] + "]\n" + SymAlpha("g", 0, 1, "-\n") + "\n---"
			}
			return "v" + strconv.Itoa(i)
		}
		run := func(c *snaps.Config, second bool, each func(t *T, i int, f func())) {
			live := map[string]*T{}
			order := []string{}
			for i, id := range ids {
				k := len(id) - 1
				for id[k] != ' ' {
					k--
				}
				name := id[:k-2]
				if live[name] == nil {
					live[name] = NewT(name)
					order = append(order, name)
				}
				t := live[name]
				if id == "TestA - 10" {
					for j := 3; j < 10; j++ {
						c.MatchJSON(t, "{") // takes a slot and stores nothing
					}
				}
				v := val(i, second)
				each(t, i, func() { c.MatchSnapshot(t, v) })
			}
			for _, n := range order {
				live[n].Finish()
			}
		}
		check := func(second bool, what string) {
			m := newSlots(false)
			for i, id := range ids {
				m.add(id, escaped(val(i, second)))
			}
			m.checkFile(path("s", "f.snap"), what)
		}
		quiet := func(second bool) func() {
			return func() {
				FSMark()
				run(cfgF(), second, func(t *T, i int, f func()) {
					e, l := len(t.Errors), len(t.Logs)
					f()
					Assert(len(t.Errors) == e && len(t.Logs) == l, "a call does not match its own slot")
				})
				Assert(FSTouched() == "", "replaying writes")
			}
		}
		ps := []Phase{{nil, func() {
			Assume(Choice("host", len(ids)) != Choice("guest", len(ids)))
			run(cfgF(), false, func(t *T, i int, f func()) {
				l := len(t.Logs)
				f()
				Assert(len(t.Logs) == l+1, "a new slot is not created")
			})
			check(false, "the file does not hold the entries of the calls in order")
		}}, {nil, quiet(false)}}
		if !upd {
			return ps
		}
		return append(ps, Phase{nil, func() {
			run(snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"), snaps.Update(true)), true, func(t *T, i int, f func()) {
				e, l := len(t.Errors), len(t.Logs)
				f()
				n := 0
				if val(i, true) != val(i, false) {
					n = 1
				}
				Assert(len(t.Errors) == e && len(t.Logs) == l+n, "a call updates another slot than its own")
			})
			check(true, "an update changes another slot")
		}}, Phase{nil, quiet(true)})
	}
	reg("c03_hosts", hosts(false)...)
	reg("c03_hostsupd", hosts(true)...)
	// entries stored in any order whose ids are prefixes of each other
	reg("c03_prefix", Phase{func() {
		ids := []string{"TestA - 10", "TestA - 1", "TestA - 11", "TestA - 2", "TestA/b - 1", "TestAb - 1", "TestA - 100", "Test - 1"}
		rot, drop, rev := Choice("rot", len(ids)), Choice("drop", len(ids)+1), Choice("rev", 2)
		s := ""
		for i := range ids {
			k := (i + rot) % len(ids)
			if rev == 1 {
				k = len(ids) - 1 - k
			}
			if k != drop {
				s += "\n[" + ids[k] + "]\nold " + ids[k] + "\n---\n"
			}
		}
		writeFile(path("s", "f.snap"), s)
	}, func() {
		c := snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"))
		upd := Choice("update", 2) == 1
		if upd {
			c = snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"), snaps.Update(true))
		}
		change := 0
		if upd {
			change = Choice("change", 4)
		}
		before := mustParse(mustRead(path("s", "f.snap")))
		var want []entry
		want = append(want, before...)
		for _, test := range []string{"TestAb", "TestA", "TestA/b", "Test"} {
			n := 1
			if test == "TestA" {
				n = 11
			}
			t := NewT(test)
			for k := 1; k <= n; k++ {
				id := test + " - " + strconv.Itoa(k)
				v := "old " + id
				if change > 0 && id == []string{"", "TestA - 1", "TestA - 10", "TestA - 2"}[change] {
					v = "a new value"
				}
				b, have := find(want, id)
				e, l := len(t.Errors), len(t.Logs)
				c.MatchSnapshot(t, v)
				Assert(len(t.Errors) == e, "a slot replays the value of another")
				switch {
				case have == 0:
					Assert(len(t.Logs) == l+1 && t.Logs[l] != "" && strings.Contains(t.Logs[l], "added"), "a new slot is not created")
					want = append(want, entry{id, v})
				case b == v:
					Assert(len(t.Logs) == l, "a slot replays the value of another")
				default:
					Assert(len(t.Logs) == l+1 && strings.Contains(t.Logs[l], "updated"), "a slot is not rewritten")
					for i := range want {
						if want[i].id == id {
							want[i].body = v
						}
					}
				}
			}
			t.Finish()
		}
		got := mustParse(mustRead(path("s", "f.snap")))
		Assert(len(got) == len(want), "slots are lost or added")
		for i := range want {
			Assert(got[i].id == want[i].id && got[i].body == want[i].body, "another slot changed or moved")
		}
	}})
}
