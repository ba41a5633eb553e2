package zzverif

import (
	"fmt"
	"sort"
	"strings"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/goccy/go-yaml"
)

// ydoc is a YAML document with a hole at the target path.
type ydoc struct {
	pre, post, path string
	at              []any
}

var ydocs = []ydoc{
	{"a: ", "\nb:\n  c: 1\n  d: [true, null]\n", "$.a", []any{"a"}},
	{"# first\nb: x # note\na: ", "\n# last", "$.a", []any{"a"}},
	{"b:\n  c: \"x\"\n  d: ", "\n  e: 'it''s'\nd: 7\n", "$.b.d", []any{"b", "d"}},
	{"l:\n  - 1\n  - ", "\n  - y\nm: {}\n", "$.l[1]", []any{"l", 1}},
	{"- ", "\n- k: []\n", "$[0]", []any{0}},
	{"- k: 0\n- - ", "\n  - 2\n", "$[1][0]", []any{1, 0}},
	{"t: |\n  multi\n  line\na: ", "\nu: >-\n  folded\n  text\n", "$.a", []any{"a"}},
	{"a: {x: 1, y: ", ", z: [1, 2]}\n", "$.a.y", []any{"a", "y"}},
	{"k: &anchor\n  v: 1\nr: *anchor\na: ", "\n", "$.a", []any{"a"}},
	{"a b: ", "\n\"q\": 1\n\n\nz: 1.50\n", "$.'a b'", []any{"a b"}},
	{"---\na: ", "\nb: 2\n---\nc: 3\n", "$.a", []any{"a"}},
	{"c: 3\n---\nx: ", "\nb: 2\n", "$.x", []any{"x"}},
	{"a: ", "\nbig: 12345678901234567890\nhex: 0x1F\ndate: 2024-01-02\nyes: yes\nempty:\ntilde: ~\n", "$.a", []any{"a"}},
	{"a: \"\\u00e9\\n\"\ne: é\nv: ", "", "$.v", []any{"v"}},
	{"l:\n- a: 1\n  b: ", "\n- a: 2\n  b: 3\n", "$.l[0].b", []any{"l", 0, "b"}},
}

// ynext are members next to the target.
var ynext = []string{
	"n: !!str 12", "n: &x {k: 1}\nm: *x", "base: &b\n  k: 1\nn:\n  <<: *b\n  z: 2", "? n\n: 1", "n: |+\n  keep\n\nz: 1", "n: |-\n  strip\nz: 1",
	"n: |2\n   indented\nz: 1", "n: >\n  folded\n  text\n\n  more\nz: 1", "n: \"multi\n  line\"", "n: plain\n  multi line", "n:\n- 1\n- - 2\n  - 3\n-\n  k: v\n  l: [1,\n    2]",
	"n:\n    deep:\n          x: 1\n          y: 2", "1: one\ntrue: yes\nnull: z", "\"n: 1\": 'x: y'", "n: 0o14\nm: 1e3\no: .inf\np: .nan\nq: 1_000", "n: 2001-12-14t21:59:43.10-05:00",
	"n: !!binary aGVsbG8=", "n: \"\\x41\\u00e9\\t\\\\ \\\" end\"", "n: [a, [b, {c: d}], \"e, f\"]", "n: {\"a\": 1, b: [1, 2], 'c d': ~}", "n: http://x.y/z?q=1#frag", "n: a#b", "n:\n  # comment\n  k: 1 # c2\n\n  # c3\n  l: 2",
	"n: ''", "n: \"\"", "n:", "n: '# not a comment'", "n: '- x'", "n: |\n  # not a comment\n  k: v\n    indented\n\n  last", "n: \ttab", "n: {}", "n: []", "n: -1", "n: +1", "n: 0.10", "n: '0.10'", "n: é世界", "n: \"\\u4e16\"", "n: x\n...",
	"n:\n  - |\n    lit\n  - >-\n    fold\n    ed\n  - x",
}

// yval is a one line value with symbolic characters.
func yval(name string) string {
	switch Choice(name+"#kind", 8) {
	case 0:
		s := SymString(name, 0, 2)
		for i := 0; i < len(s); i++ {
			Assume(s[i] >= ' ' && s[i] < 0x7f && s[i] != '"' && s[i] != '\\')
		}
		return `"` + s + `"`
	case 1:
		b := SymBytes(name, 2)
		Assume(b[0] >= '1' && b[0] <= '9' && digit(b[1]))
		return string(b)
	case 2:
		return []string{"true", "null", "-0.5", "plain text", "~"}[Choice(name+"#lit", 5)]
	case 3:
		return `{in: [1, {x: y}], q: null}`
	case 4:
		return `[]`
	case 5:
		s := SymString(name, 1, 2)
		for i := 0; i < len(s); i++ {
			Assume(s[i] >= 'a' && s[i] <= 'z')
		}
		return s
	case 6:
		return `'single '' quoted: # text'`
	}
	return `"é\t\x41 a much longer string than the placeholder"`
}

func yplace(name string) any { return yplaceN(name, 1) }

func yplaceN(name string, max int) any {
	switch Choice(name+"#p", 8) {
	case 0:
		s := SymString(name, 0, max)
		for i := 0; i < len(s); i++ {
			Assume(s[i] >= ' ' && s[i] < 0x7f)
		}
		return s
	case 1:
		return []string{"two\nlines", "trailing newline\n", "# no comment", "- dash", "a: b", "true", "12", "é<&>",
			"---", "--- a", "? a", ".nan", "\n", "- a", "-", "\t", "...", "%A", "a\n---\nb"}[Choice(name+"#s", 19)]
	case 2:
		return nil
	case 3:
		return []any{10, -1.5, true, uint64(1) << 60}[Choice(name+"#n", 4)]
	case 4:
		return []any{map[string]any{"k": "v", "a": []int{1, 2}}, map[string]any{"k": "- v", "l": []any{"---", "\t", "? x"}}}[Choice(name+"#m", 2)]
	case 5:
		return struct {
			Z int `yaml:"z"`
			A []string
		}{Z: 1, A: []string{"x"}}
	case 6:
		return []string{}
	}
	return []any{map[string]any{"x": 1, "y": "z"}, "w"}
}

// checkYMasked: out must be the document with exactly the target replaced.
func checkYMasked(out string, d ydoc, val string, want any) {
	Assert(readYAML(out) != nil, "applying a matcher yields invalid YAML")
	if !yamlMasked(out, d, val, want) {
		Log(fmt.Sprintf("stored %q", out))
		Assert(false, "applying a matcher does not yield the document with exactly the target replaced")
	}
}

func yamlMasked(out string, d ydoc, val string, want any) bool {
	docs := readYAML(d.pre + val + d.post)
	if len(docs) == 0 {
		Unreachable() // the template with this value is not a document
	}
	n := 0
	for i := range docs {
		if hasYAML(docs[i], d.at) {
			docs[i] = setYAML(docs[i], d.at, yamlOf(want))
			n++
		}
	}
	Assert(n == 1, "harness: the template has its path once")
	got := readYAML(out)
	same := len(got) == len(docs)
	for i := 0; same && i < len(docs); i++ {
		same = sameYAML(got[i], docs[i])
	}
	return same
}

func hasYAML(doc any, p []any) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	getYAML(doc, p)
	return true
}

// storeYAML returns what MatchYAML stores for the input.
func storeYAML(in any, ms ...match.YAMLMatcher) (string, *T) {
	c := snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"))
	t := Test("TestA", func(t *T) { c.MatchYAML(t, in, ms...) })
	s, ok := readFile(path("s", "f.snap"))
	if !ok {
		return "", t
	}
	es, ok := parse(s)
	Assert(ok && len(es) == 1, "the snapshot file is malformed")
	return unesc(es[0].body), t
}

func init() {
	doc := func() ydoc { return ydocs[Choice("doc", len(ydocs))] }
	anyH := func(symVal, symPlace bool) []Phase {
		return []Phase{{nil, func() {
			d := doc()
			val := `"value"`
			if symVal {
				val = yval("v")
			}
			var place any = "<Any value>"
			m := match.Any(d.path)
			if symPlace {
				place = yplace("p")
				m = m.Placeholder(place)
			}
			in := d.pre + val + d.post
			buf := append(make([]byte, 0, len(in)+64), in...)
			s, t := storeYAML(buf, m)
			Assert(len(t.Errors) == 0, "a matcher on an existing path fails")
			Assert(string(buf) == in && string(buf[:cap(buf)][len(in):]) == string(make([]byte, 64)), "the bytes of the caller are modified")
			checkYMasked(s, d, val, place)
		}}}
	}
	reg("c15_yplace2", Phase{nil, func() {
		d := doc()
		place := yplaceN("p", 2)
		out, errs := match.Any(d.path).Placeholder(place).YAML([]byte(d.pre + "value" + d.post))
		Assert(len(errs) == 0, "a matcher on an existing path fails")
		checkYMasked(string(out), d, "value", place)
	}})
	reg("c15_yany", anyH(true, false)...)
	reg("c15_yplace", anyH(false, true)...)
	reg("c15_yanyplace", anyH(true, true)...)
	// everything next to the target keeps its value and position
	reg("c15_ynext", Phase{nil, func() {
		sym := func() string {
			s := SymString("s", 0, 2)
			for i := 0; i < len(s); i++ {
				Assume(s[i] >= ' ' && s[i] < 0x7f)
			}
			return s
		}
		var n, v string
		k := Choice("next", 8+len(ynext))
		switch k {
		case 0:
			n = "n: \"" + sym() + "\""
		case 1:
			n = "n: '" + sym() + "'"
		case 2:
			v = sym()
			n = "n: " + v
		case 3:
			n = "n: [" + sym() + ", 1]"
		case 4:
			v = sym()
			n = "n: {x: " + v + "}"
		case 5:
			n = "n: |\n  x" + sym() + "\n  y"
		case 6:
			n = "n: 1 #" + sym()
		case 7:
			v = sym()
			n = v + ": 1"
		default:
			n = ynext[k-8]
		}
		d := ydoc{"a: ", "\n" + n + "\n", "$.a", []any{"a"}}
		if Choice("order", 2) == 1 {
			d = ydoc{n + "\na: ", "\n", "$.a", []any{"a"}}
		}
		s, t := storeYAML(d.pre+"x"+d.post, match.Any("$.a"))
		if readYAML(d.pre+"x"+d.post) == nil {
			Unreachable()
		}
		// the renderer of the YAML library does not reproduce properties and
		// block scalar headers without content
		odd := false
		if w := strings.TrimLeft(v, " "); len(w) > 0 {
			switch w[0] {
			case '!', '&', '|', '>':
				odd = true
			case ',':
				odd = k == 4
			}
		}
		if len(t.Errors) > 0 {
			Assert(odd || k == 7 && len(v) > 0 && v[len(v)-1] == '#', "a matcher on an existing path fails")
			Assert(len(t.Errors) == 1 && len(tree()) == 0, "a failing matcher writes a snapshot")
			return
		}
		AssertKnown(yamlMasked(s, d, "x", "<Any value>"), "applying a matcher does not yield the document with exactly the target replaced", "YAMLRENDER", odd)
	}})
	// Type: the right type masks, any other one is an error and changes nothing
	reg("c15_ytype", Phase{nil, func() {
		d := doc()
		val := yval("v")
		k := Choice("type", 7)
		names := []string{"string", "float64", "bool", "map[string]interface {}", "[]interface {}", "uint64", "any"}
		m := []match.YAMLMatcher{match.Type[string](d.path), match.Type[float64](d.path), match.Type[bool](d.path), match.Type[map[string]any](d.path),
			match.Type[[]any](d.path), match.Type[uint64](d.path), match.Type[any](d.path)}[k]
		docs := readYAML(d.pre + val + d.post)
		if len(docs) == 0 {
			Unreachable()
		}
		var v any
		for i := range docs {
			if hasYAML(docs[i], d.at) {
				v = getYAML(docs[i], d.at)
			}
		}
		typ := fmt.Sprintf("%T", v)
		if typ == "yaml.MapSlice" {
			typ = "map[string]interface {}"
		}
		s, t := storeYAML(d.pre+val+d.post, m)
		if !(names[k] == typ || k == 6 && v != nil) {
			Assert(len(t.Errors) == 1 && len(tree()) == 0, "a value of another type is accepted")
			return
		}
		Assert(len(t.Errors) == 0, "a value of the right type is rejected")
		checkYMasked(s, d, val, "<Type:"+typ+">")
	}})
	// Custom: the callback sees the value and its result replaces it
	customH := func(symVal, symPlace bool) []Phase {
		return []Phase{{nil, func() {
			d := doc()
			val, res := `{in: [1, {x: y}], q: null}`, any("one")
			if symVal {
				val = yval("v")
			}
			if symPlace {
				res = yplace("p")
			}
			docs := readYAML(d.pre + val + d.post)
			if len(docs) == 0 {
				Unreachable()
			}
			var want any
			for i := range docs {
				if hasYAML(docs[i], d.at) {
					want = getYAML(docs[i], d.at)
				}
			}
			var seen any
			calls := 0
			s, t := storeYAML(d.pre+val+d.post, match.Custom(d.path, func(v any) (any, error) { seen = v; calls++; return res, nil }))
			Assert(len(t.Errors) == 0 && calls == 1, "a custom matcher is not called once")
			Assert(sameValue(seen, want), "the callback gets another value")
			checkYMasked(s, d, val, res)
		}}}
	}
	reg("c15_ycustom", customH(true, false)...)
	reg("c15_yresult", customH(false, true)...)
	// several matchers take effect left to right; several paths in one matcher; paths with several targets
	reg("c15_yorder", Phase{nil, func() {
		v := yval("v")
		in := "a: secret # c\nb:\n  c: 1\n  d:\n    - 1\n    - 2\nz: " + v + "\n"
		var seen []any
		cb := func(r any) func(any) (any, error) {
			return func(v any) (any, error) { seen = append(seen, v); return r, nil }
		}
		var s string
		var t *T
		want := ""
		switch Choice("case", 8) {
		case 0:
			s, t = storeYAML(in, match.Custom("$.a", cb("one")), match.Custom("$.a", cb(2)))
			Assert(len(seen) == 2 && seen[0] == "secret" && seen[1] == "one", "matchers do not take effect left to right")
			want = "a: 2\nb: {c: 1, d: [1, 2]}\nz: " + v
		case 1:
			s, t = storeYAML(in, match.Any("$.a", "$.b.c", "$.b.d[1]", "$.z"))
			want = "a: <Any value>\nb: {c: <Any value>, d: [1, <Any value>]}\nz: <Any value>"
		case 2:
			s, t = storeYAML(in, match.Custom("$.a", cb(map[string]any{"n": []int{7}})), match.Any("$.a.n[0]"))
			want = "a: {n: [<Any value>]}\nb: {c: 1, d: [1, 2]}\nz: " + v
		case 3:
			s, t = storeYAML(in, match.Any("$.b"), match.Any("$.b.c").ErrOnMissingPath(false))
			want = "a: secret\nb: <Any value>\nz: " + v
		case 4:
			s, t = storeYAML(in, match.Any("$.b.c"), match.Type[string]("$.b.c"))
			want = "a: secret\nb: {c: \"<Type:string>\", d: [1, 2]}\nz: " + v
		case 5:
			m := match.Any("$.b.d[0]").Placeholder("longer than the original value")
			s, t = storeYAML(in, m, m)
			want = "a: secret\nb: {c: 1, d: [longer than the original value, 2]}\nz: " + v
		case 6:
			s, t = storeYAML(in, match.Any("$.b.d[*]"))
			want = "a: secret\nb: {c: 1, d: [<Any value>, <Any value>]}\nz: " + v
		case 7:
			s, t = storeYAML("l:\n  - id: 1\n    n: x\n  - id: 2\n    n: y\nid: 3\n", match.Any("$.l[*].id"))
			want = "l: [{id: <Any value>, n: x}, {id: <Any value>, n: y}]\nid: 3"
		}
		Assert(len(t.Errors) == 0, "matchers on existing paths fail")
		g, w := readYAML(s), readYAML(want)
		Assert(len(g) == 1 && len(w) == 1 && sameYAML(g[0], w[0]), "several matchers do not yield the expected document")
	}})
	// the root of the document
	reg("c15_yroot", Phase{nil, func() {
		in := []string{"a: 1\nb:\n  - x # c\n", "# c\nplain\n", "- 1\n- {k: v}\n", "|\n  block\n", "[]", "---\na: 1\n", "7"}[Choice("doc", 7)]
		place := yplace("p")
		s, t := storeYAML(in, match.Any("$").Placeholder(place))
		Assert(len(t.Errors) == 0, "a matcher on the root of a document fails")
		g := readYAML(s)
		Assert(len(g) == 1 && sameYAML(g[0], yamlOf(place)) || len(g) == 0 && place == nil && strings.Contains(s, "null"), "a matcher on the root does not replace the document")
	}})
	// paths over the alphabet of path syntax: whatever the callback got is replaced, and nothing else
	symPath := func(max int) []Phase {
		return []Phase{{nil, func() {
			in := []string{
				"a:\n  b: 4\n  \"0\": 6\nl:\n  - b: 8\n  - b: 9\n    a: 5\n\"*\": 11\n\"a.b\": 13\n\"\": 14\n\"0\": 15\n",
				"- x\n- b: 1\n  l: 2\n- [3, ~]\n- b: 4\n",
				"- - b: 1\n  - b: 2\n    a: {b: 3}\n- - a: 4\n",
				"b: {a: 1, b: {b: 2}}\n",
			}[Choice("doc", 4)]
			p := "$" + SymAlpha("p", 0, max, "abl01.[]*'-")
			var seen any
			calls := 0
			s, t := storeYAML(in, match.Custom(p, func(v any) (any, error) { seen = v; calls++; return "<new>", nil }))
			if len(t.Errors) > 0 {
				Assert(len(t.Errors) == 1 && len(tree()) == 0, "a failing matcher writes a snapshot")
				return
			}
			g, w := readYAML(s), readYAML(in)
			Assert(len(g) == 1, "applying a matcher yields invalid YAML")
			old := replacedYAML(w[0], g[0], "<new>")
			Assert(calls == 1 && len(old) > 0, "a matcher on an existing path replaces nothing")
			ok := len(old) == 1 && sameValue(seen, old[0])
			if !ok && (strings.Contains(p, "*") || strings.Contains(p, "..")) {
				l, isList := seen.([]any)
				ok = isList && sameLeaves(l, old, strings.Contains(p, ".."))
			}
			Assert(ok, "a matcher replaces something else than the value at its path")
		}}}
	}
	reg("c15_ysympath", symPath(6)...)
	reg("c15_ysympath8", symPath(8)...)
}

// replacedYAML collects the values of a that b has replaced by p.
func replacedYAML(a, b, p any) (old []any) {
	if sameYAML(a, b) {
		return nil
	}
	switch x := a.(type) {
	case yaml.MapSlice:
		y, ok := b.(yaml.MapSlice)
		if ok && len(x) == len(y) {
			for i := range x {
				if !sameYAML(x[i].Key, y[i].Key) {
					return []any{a}
				}
				old = append(old, replacedYAML(x[i].Value, y[i].Value, p)...)
			}
			return old
		}
	case []any:
		y, ok := b.([]any)
		if ok && len(x) == len(y) {
			for i := range x {
				old = append(old, replacedYAML(x[i], y[i], p)...)
			}
			return old
		}
	}
	return []any{a}
}

// sameLeaves: what a callback got for a path with wildcards are the replaced
// values in order; lists of matches may be nested, values may be lists; a
// recursive path lists matches inside of matches too.
func sameLeaves(l []any, old []any, nested bool) bool {
	var r, o []any
	var walk func(any)
	walk = func(v any) {
		switch x := v.(type) {
		case []any:
			for _, e := range x {
				walk(e)
			}
		case map[string]any:
			ks := []string{}
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				walk(x[k])
			}
		case yaml.MapSlice:
			m := map[string]any{}
			for _, i := range x {
				m[fmt.Sprint(i.Key)] = i.Value
			}
			walk(m)
		default:
			r = append(r, v)
		}
	}
	walk(l)
	r, o = nil, r
	for _, v := range old {
		walk(v)
	}
	for _, v := range r {
		for nested && len(o) > 0 && fmt.Sprint(v) != fmt.Sprint(o[0]) {
			o = o[1:]
		}
		if len(o) == 0 || fmt.Sprint(v) != fmt.Sprint(o[0]) {
			return false
		}
		o = o[1:]
	}
	return nested || len(o) == 0
}
