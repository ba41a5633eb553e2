package zzverif

import (
	"fmt"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
)

// both is a matcher for JSON and YAML.
type both interface {
	match.JSONMatcher
	match.YAMLMatcher
}

// pathFor spells a path (dots and digits) for the api.
func pathFor(api int, p string) string {
	if api != apiYAML {
		return p
	}
	r := "$"
	for i := 0; i < len(p); {
		j := i
		for j < len(p) && p[j] != '.' {
			j++
		}
		if digit(p[i]) {
			r += "[" + p[i:j] + "]"
		} else {
			r += "." + p[i:j]
		}
		i = j + 1
	}
	return r
}

func doWith(c *snaps.Config, t *T, api int, in string, ms []both) {
	switch api {
	case apiYAML:
		var l []match.YAMLMatcher
		for _, m := range ms {
			l = append(l, m)
		}
		c.MatchYAML(t, in, l...)
	default:
		var l []match.JSONMatcher
		for _, m := range ms {
			l = append(l, m)
		}
		if api == apiJSON {
			c.MatchJSON(t, in, l...)
		} else {
			c.MatchStandaloneJSON(t, in, l...)
		}
	}
}

func konst(v any) func(any) (any, error) { return func(any) (any, error) { return v, nil } }

// maskSet is a set of matchers and the holes they cover.
type maskSet struct {
	covers string // of "012u"
	make   func(p func(string) string) []both
}

var maskSets = []maskSet{
	{"0", func(p func(string) string) []both { return []both{match.Any(p("m"))} }},
	{"012", func(p func(string) string) []both { return []both{match.Any(p("m"), p("o.m"), p("l.1"))} }},
	{"02", func(p func(string) string) []both { return []both{match.Any(p("l.1")), match.Any(p("m"))} }},
	{"1", func(p func(string) string) []both { return []both{match.Type[string](p("o.m"))} }},
	{"012", func(p func(string) string) []both {
		return []both{match.Type[string](p("m"), p("o.m")), match.Any(p("l.1"))}
	}},
	{"01", func(p func(string) string) []both {
		return []both{match.Custom(p("m"), konst("const")), match.Type[string](p("o.m"))}
	}},
	{"0", func(p func(string) string) []both {
		return []both{match.Any(p("nope"), p("m")).Placeholder("x\n\"é").ErrOnMissingPath(false)}
	}},
	{"1u", func(p func(string) string) []both { return []both{match.Any(p("o"))} }},
	{"2", func(p func(string) string) []both { return []both{match.Any(p("l")).Placeholder([]int{1})} }},
	{"", func(p func(string) string) []both { return nil }},
	{"", func(p func(string) string) []both { return []both{match.Any(p("c")), match.Custom(p("k"), konst(3))} }},
	{"012", func(p func(string) string) []both {
		return []both{match.Custom(p("l.1"), konst(map[string]any{"a": []int{1}})), match.Custom(p("o.m"), konst(nil)), match.Custom(p("m"), konst(1.5))}
	}},
}

func maskDoc(api int, h [3]string, u string) string {
	if api == apiYAML {
		return "m: " + h[0] + " # c\nc: x\no:\n  m: " + h[1] + "\n  u: " + u + "\nl:\n  - 1\n  - " + h[2] + "\n  - y\nk: 7\n"
	}
	return `{"m":` + h[0] + `,"c":"x","o":{"m":` + h[1] + `, "u":` + u + `},"l":[1,` + h[2] + `,"y"],"k":7}`
}

// different values, valid in JSON and in YAML.
var maskVals = []string{`1`, `"1"`, `null`, `{}`, `[]`, `[1,2]`, `[2,1]`, `""`, `" "`, `"\n"`, `12345678901234567890`, `12345678901234567891`, `true`, `false`, `"a  b"`, `"a b"`,
	`{"a": 1, "b": 2}`, `{"a": 1, "b": 3}`, `[{"m": "x"}]`, `"---"`, `"/-/-/-/"`, `"` + "a very long string so that the placeholder fits in its place many times over" + `"`, `"[TestA - 1]"`, `1.5`, `1.50001`, `"é"`, `"e"`, `"\\"`}

func covers(s string, c byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return true
		}
	}
	return false
}

var maskAPIs = []int{apiJSON, apiYAML, apiAloneJSON}

// masked: same is computed by docs, which returns the two documents and
// whether they differ only where masked.
func masked(docs func(api int, set maskSet) (a, b string, same bool)) []Phase {
	pick := func() (int, []both, string, string, bool) {
		api := maskAPIs[Choice("api", len(maskAPIs))]
		set := maskSets[Choice("set", len(maskSets))]
		a, b, same := docs(api, set)
		return api, set.make(func(p string) string { return pathFor(api, p) }), a, b, same
	}
	conf := func(d string) *snaps.Config { return snaps.WithConfig(snaps.Dir(path(d)), snaps.Filename("f")) }
	return []Phase{
		{nil, func() {
			api, ms, a, b, same := pick()
			ta := Test("TestA", func(t *T) { doWith(conf("sa"), t, api, a, ms) })
			tb := Test("TestA", func(t *T) { doWith(conf("sb"), t, api, b, ms) })
			if len(ta.Errors) > 0 {
				Log(ta.Errors[0])
			}
			Assert(len(ta.Errors) == 0 && len(tb.Errors) == 0, "matchers that are satisfied fail")
			fa, fb := treeOf(path("sa")), treeOf(path("sb"))
			Assert(len(fa) == 1 && len(fb) == 1, "not one file per directory")
			x, y := mustRead(path("sa", fa[0])), mustRead(path("sb", fb[0]))
			if same && x != y {
				Log(fmt.Sprintf("%q %q", x, y))
			}
			Assert(!same || x == y, "inputs that differ only where masked store different snapshots")
			Assert(same || x != y, "inputs that differ where not masked store the same snapshot")
		}},
		{func() { Setenv("CI", "true") }, func() {
			api, ms, a, b, same := pick()
			FSMark()
			ta := Test("TestA", func(t *T) { doWith(conf("sb"), t, api, a, ms) })
			tb := Test("TestA", func(t *T) { doWith(conf("sa"), t, api, b, ms) })
			for _, t := range []*T{ta, tb} {
				if same {
					Assert(t.quiet(), "an input that differs only where masked does not pass")
				} else {
					Assert(len(t.Errors) == 1 && len(t.Logs) == 0, "an input that differs where not masked passes")
				}
			}
			Assert(FSTouched() == "", "comparing writes")
		}},
	}
}

func printable(name string, lo, hi int) string {
	s := SymString(name, lo, hi)
	for i := 0; i < len(s); i++ {
		Assume(s[i] >= ' ' && s[i] < 0x7f && s[i] != '"' && s[i] != '\\')
	}
	return s
}

func init() {
	fixed := [3]string{`"m0"`, `"m1"`, `"m2"`}
	// strings with symbolic characters in one hole
	str := func(lo, hi int) func(api int, set maskSet) (string, string, bool) {
		return func(api int, set maskSet) (string, string, bool) {
			i := Choice("hole", 4)
			va, vb := `"`+printable("a", lo, hi)+`"`, `"`+printable("b", lo, hi)+`"`
			Assume(va != vb)
			if i == 3 {
				return maskDoc(api, fixed, va), maskDoc(api, fixed, vb), covers(set.covers, 'u')
			}
			x, y := fixed, fixed
			x[i], y[i] = va, vb
			return maskDoc(api, x, "1"), maskDoc(api, y, "1"), covers(set.covers, "012"[i])
		}
	}
	reg("c16_str", masked(str(0, 1))...)
	reg("c16_str2", masked(str(2, 2))...)
	// values of all types in one hole
	vals := func(near bool) func(api int, set maskSet) (string, string, bool) {
		return func(api int, set maskSet) (string, string, bool) {
			i := Choice("hole", 4)
			j := Choice("a", len(maskVals))
			k := 0
			if near {
				k = (j + 1) % len(maskVals)
			} else {
				k = Choice("b", len(maskVals))
				Assume(j < k)
			}
			va, vb := maskVals[j], maskVals[k]
			if i == 3 {
				return maskDoc(api, fixed, va), maskDoc(api, fixed, vb), covers(set.covers, 'u')
			}
			x, y := fixed, fixed
			x[i], y[i] = va, vb
			// Type[string] has to be satisfied
			n := Choice("set", len(maskSets))
			if n == 3 || n == 5 {
				Assume(i != 1 || va[0] == '"' && vb[0] == '"')
			}
			if n == 4 {
				Assume(i == 2 || va[0] == '"' && vb[0] == '"')
			}
			return maskDoc(api, x, "1"), maskDoc(api, y, "1"), covers(set.covers, "012"[i])
		}
	}
	reg("c16_vals", masked(vals(true))...)
	reg("c16_valsall", masked(vals(false))...)
	// any subset of the holes differs
	reg("c16_multi", masked(func(api int, set maskSet) (string, string, bool) {
		x, u := fixed, "1"
		same := true
		n := 0
		for i := 0; i < 3; i++ {
			if Choice("d"+itoa(i), 2) == 1 {
				x[i] = []string{`"other"`, `"---"`, `"m0"`}[i]
				same = same && covers(set.covers, "012"[i])
				n++
			}
		}
		if Choice("du", 2) == 1 {
			u = `{"m":"m1"}`
			same = same && covers(set.covers, 'u')
			n++
		}
		Assume(n > 0)
		return maskDoc(api, fixed, "1"), maskDoc(api, x, u), same
	})...)
	// the shape outside the masked paths differs: members, elements, keys
	reg("c16_shape", masked(func(api int, set maskSet) (string, string, bool) {
		a := maskDoc(api, fixed, "1")
		var bs []string
		if api == apiYAML {
			bs = []string{a + "extra: 1\n", a + "mm: \"m0\"\n", "z: 1\n" + a, a[:len(a)-len("k: 7\n")] + "k: 7.0\n", a[:len(a)-len("k: 7\n")] + "K: 7\nk: 7\n", a[:len(a)-len("  - y\nk: 7\n")] + "  - y\n  - y\nk: 7\n",
				a[:len(a)-len("  - y\nk: 7\n")] + "k: 7\n", a + "---\nm: 1\n"}
		} else {
			e := a[:len(a)-1]
			l := len(`,"y"],"k":7}`)
			bs = []string{e + `,"extra":1}`, e + `,"mm":"m0"}`, `{"z":1,` + a[1:], e + `.0}`, e + `,"K":7}`, a[:len(a)-l] + `,"y","y"],"k":7}`, a[:len(a)-l] + `],"k":7}`, `[` + a + `]`}
		}
		k := Choice("shape", len(bs))
		// lists masked as a whole, and paths that a wrapped document does not have
		n := Choice("set", len(maskSets))
		Assume(n != 8 || k != 5 && k != 6)
		Assume(k != 7 || api == apiYAML || n == 9)
		Assume(k != 7 || api != apiYAML || !covers(set.covers, '0'))
		Assume(k != 3 || n != 10)
		return a, bs[k], false
	})...)
	// Type of an interface type is satisfied by values of different dynamic types
	reg("c16_typeany", Phase{nil, func() {
		api := maskAPIs[Choice("api", len(maskAPIs))]
		j, k := Choice("a", len(maskVals)), Choice("b", len(maskVals))
		Assume(j < k && maskVals[j] != "null" && maskVals[k] != "null")
		var st [2]string
		for i, v := range []string{maskVals[j], maskVals[k]} {
			h := [3]string{v, `"m1"`, `"m2"`}
			c := snaps.WithConfig(snaps.Dir(path("s"+itoa(i))), snaps.Filename("f"))
			t := Test("TestA", func(t *T) { doWith(c, t, api, maskDoc(api, h, "1"), []both{match.Type[any](pathFor(api, "m"))}) })
			Assert(len(t.Errors) == 0, "matchers that are satisfied fail")
			st[i] = mustRead(path("s"+itoa(i), treeOf(path("s" + itoa(i)))[0]))
		}
		AssertKnown(st[0] == st[1], "inputs that differ only where masked store different snapshots", "TYPEANY", typeOf(maskVals[j]) != typeOf(maskVals[k]) || api == apiYAML)
	}})
}
