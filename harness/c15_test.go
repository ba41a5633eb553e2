package zzverif

import (
	"encoding/json"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
)

// jdoc is a document with a hole at the target path.
type jdoc struct{ pre, post, path string }

var jdocs = []jdoc{
	{`{"a":`, `,"b":{"c":1,"d":[true,null]}}`, "a"},
	{`{"b":1.50,"a":`, `}`, "a"},
	{"{ \"x\" : [ 1 ] ,\n \"a\" :  ", " , \"z\" : \"é\\u00e9\" }\n", "a"},
	{`{"b":{"c":"x","d":`, `,"c2":{}},"d":7}`, "b.d"},
	{`{"l":[1,`, `,"y"],"m":[]}`, "l.1"},
	{`[`, `,{"k":[]}]`, "0"},
	{`[{"k":0},[`, `]]`, "1.0"},
	{`{"e.f":`, `,"e":{"f":2}}`, `e\.f`},
	{`{"1":`, `,"l":[]}`, "1"},
	{`{"é":`, `,"e":2}`, "é"},
	{`{"a":`, `,"a":1}`, "a"},
	{`{"a b":`, `}`, "a b"},
	{`{"o":{"p":{"q":`, `}},"big":12345678901234567890}`, "o.p.q"},
}

// jval is a value at the target path; the symbolic bytes are valid inside a string.
func jval(name string) string { return jvalN(name, 3) }

func jvalN(name string, max int) string {
	switch Choice(name+"#kind", 7) {
	case 0:
		s := SymString(name, 0, max)
		for i := 0; i < len(s); i++ {
			Assume(s[i] >= ' ' && s[i] < 0x7f && s[i] != '"' && s[i] != '\\')
		}
		return `"` + s + `"`
	case 1:
		b := SymBytes(name, 2)
		Assume(b[0] >= '1' && b[0] <= '9' && digit(b[1]) && (max > 1 || b[0] == '4' && b[1] < '2'))
		return string(b)
	case 2:
		return []string{"true", "null", "-0.5e+3", "123456789012345678901234567890"}[Choice(name+"#lit", 4)]
	case 3:
		return `{"in":[1,{"x":"y"}],"a":null}`
	case 4:
		return `[]`
	case 5:
		return `"` + string([]byte{'\\', []byte("nt\"\\/u")[Choice(name+"#esc", 6)]}) + `0041 long enough to hold the placeholder"`
	}
	return `"é` + "\xe2\x80\xa8" + ` a much longer string than the placeholder"`
}

// jplace is a placeholder.
func jplace(name string) any { return jplaceN(name, 2) }

func jplaceN(name string, max int) any {
	switch Choice(name+"#p", 7) {
	case 0:
		s := SymString(name, 0, max)
		for i := 0; i < len(s); i++ {
			Assume(s[i] < 0x80)
		}
		return s
	case 1:
		return "é<&>\u2028"
	case 2:
		return nil
	case 3:
		return []any{10, -1.5, true, int64(1) << 60, uint8(3), float32(0.5)}[Choice(name+"#n", 6)]
	case 4:
		return map[string]any{"k": "v", "a": []int{1}}
	case 5:
		return struct {
			Z int    `json:"z"`
			A string `json:"a,omitempty"`
		}{Z: 1}
	}
	return []string{}
}

func keepOrder() func(*snaps.Config) {
	return snaps.JSON(snaps.JSONConfig{Width: 80, Indent: " ", SortKeys: false})
}

// stored returns what MatchJSON stores for the input.
func storeJSON(file string, in any, ms ...match.JSONMatcher) (string, *T) {
	c := snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename(file), keepOrder())
	t := Test("TestA", func(t *T) { c.MatchStandaloneJSON(t, in, ms...) })
	s, _ := readFile(path("s", file+"_1.snap.json"))
	return s, t
}

// checkMasked: stored must be the document with the hole filled by want.
func checkMasked(stored string, d jdoc, want any) {
	w, err := json.Marshal(want)
	if err != nil {
		panic(err)
	}
	got := readJSON(stored)
	Assert(got != nil, "applying a matcher yields invalid JSON")
	Assert(sameJSON(got, readJSON(d.pre+string(w)+d.post), true), "applying a matcher does not yield the document with exactly the target replaced")
}

// value is what a callback gets for the node.
func (n *jnode) value() any {
	switch n.kind {
	case 's':
		return n.text
	case 'n':
		f, _ := strconv.ParseFloat(n.text, 64)
		return f
	case 'o':
		m := map[string]any{}
		for i, k := range n.kids {
			m[n.keys[i]] = k.value()
		}
		return m
	case 'a':
		l := []any{}
		for _, k := range n.kids {
			l = append(l, k.value())
		}
		return l
	}
	return map[byte]any{'t': true, 'f': false}[n.kind]
}

func sameAny(a, b any) bool { return reflect.DeepEqual(a, b) }

// leaves is a list of the leaves of nested lists.
func leaves(l []any) any {
	var r []any
	for _, e := range l {
		if k, ok := e.([]any); ok {
			k, _ := leaves(k).([]any)
			r = append(r, k...)
			continue
		}
		r = append(r, e)
	}
	return r
}

func typeOf(v string) string {
	switch v[0] {
	case '"':
		return "string"
	case '{':
		return "map[string]interface {}"
	case '[':
		return "[]interface {}"
	case 't', 'f':
		return "bool"
	case 'n':
		return "<nil>"
	}
	return "float64"
}

func typeMatcher(k int, p string) match.JSONMatcher {
	switch k {
	case 0:
		return match.Type[string](p)
	case 1:
		return match.Type[float64](p)
	case 2:
		return match.Type[bool](p)
	case 3:
		return match.Type[map[string]any](p)
	case 4:
		return match.Type[[]any](p)
	}
	return match.Type[any](p)
}

var typeNames = []string{"string", "float64", "bool", "map[string]interface {}", "[]interface {}", ""}

func init() {
	doc := func() jdoc { return jdocs[Choice("doc", len(jdocs))] }
	// Any with every kind of placeholder, at every place; input as string and as bytes
	anyH := func(symVal, symPlace bool) []Phase {
		return []Phase{{nil, func() {
			d := doc()
			val := `"value"`
			if symVal {
				val = jval("v")
				if symPlace {
					val = jvalN("v#", 1)
				}
			}
			var place any = "<Any value>"
			m := match.Any(d.path)
			if symPlace {
				place = jplace("p")
				if symVal {
					place = jplaceN("p#", 0)
				}
				m = m.Placeholder(place)
			}
			in := d.pre + val + d.post
			if Choice("bytes", 2) == 1 {
				buf := append(make([]byte, 0, len(in)+64), in...)
				s, t := storeJSON("f", buf, m)
				Assert(len(t.Errors) == 0, "a matcher on an existing path fails")
				checkMasked(s, d, place)
				Assert(string(buf) == in && string(buf[:cap(buf)][len(in):]) == string(make([]byte, 64)), "the bytes of the caller are modified")
			} else {
				s, t := storeJSON("f", in, m)
				Assert(len(t.Errors) == 0, "a matcher on an existing path fails")
				checkMasked(s, d, place)
				Observe("stored", s)
			}
		}}}
	}
	reg("c15_any", anyH(true, false)...)
	reg("c15_place", anyH(false, true)...)
	// Type: the right type masks, any other one is an error and changes nothing
	reg("c15_type", Phase{nil, func() {
		d := doc()
		val := jval("v")
		k := Choice("type", 6)
		s, t := storeJSON("f", d.pre+val+d.post, typeMatcher(k, d.path))
		ok := typeNames[k] == typeOf(val) || k == 5 && typeOf(val) != "<nil>"
		if k == 5 {
			// a nil value does not satisfy any interface type
			ok = val[0] != 'n'
		}
		if !ok {
			Assert(len(t.Errors) == 1 && len(tree()) == 0, "a value of another type is accepted")
			return
		}
		Assert(len(t.Errors) == 0, "a value of the right type is rejected")
		checkMasked(s, d, "<Type:"+typeOf(val)+">")
	}})
	// Custom: the callback sees the value and its result replaces it
	customH := func(symVal, symPlace bool) []Phase {
		return []Phase{{nil, func() {
			d := doc()
			val, res := `{"in":[1,{"x":"y"}],"a":null}`, any("one")
			if symVal {
				val = jvalN("v", 1)
			}
			if symPlace {
				res = jplace("p")
			}
			var seen any
			calls := 0
			in := d.pre + val + d.post
			s, t := storeJSON("f", in, match.Custom(d.path, func(v any) (any, error) { seen = v; calls++; return res, nil }))
			Assert(len(t.Errors) == 0 && calls == 1, "a custom matcher is not called once")
			var want any
			if json.Unmarshal([]byte(val), &want) == nil {
				a, _ := json.Marshal(seen)
				b, _ := json.Marshal(want)
				Assert(string(a) == string(b), "the callback gets another value")
			}
			checkMasked(s, d, res)
		}}}
	}
	reg("c15_custom", customH(true, false)...)
	reg("c15_result", customH(false, true)...)
	// several matchers take effect left to right; several paths in one matcher
	reg("c15_order", Phase{nil, func() {
		in := `{"a":"secret","b":{"c":1,"d":[1,2]},"z":` + jval("v") + `}`
		var seen []any
		cb := func(r any) func(any) (any, error) {
			return func(v any) (any, error) { seen = append(seen, v); return r, nil }
		}
		var s string
		var t *T
		want := ""
		switch Choice("case", 6) {
		case 0: // the second matcher sees the first one's result
			s, t = storeJSON("f", in, match.Custom("a", cb("one")), match.Custom("a", cb(2)))
			Assert(len(seen) == 2 && seen[0] == "secret" && seen[1] == "one", "matchers do not take effect left to right")
			want = `{"a":2,"b":{"c":1,"d":[1,2]},"z":` + jval("v") + `}`
		case 1:
			s, t = storeJSON("f", in, match.Any("a", "b.c", "b.d.1", "z"))
			want = `{"a":"<Any value>","b":{"c":"<Any value>","d":[1,"<Any value>"]},"z":"<Any value>"}`
		case 2: // the result of a callback is addressable by the next matcher
			s, t = storeJSON("f", in, match.Custom("a", cb(map[string]any{"n": []int{7}})), match.Any("a.n.0"))
			want = `{"a":{"n":["<Any value>"]},"b":{"c":1,"d":[1,2]},"z":` + jval("v") + `}`
		case 3: // masking the parent hides the child from later matchers
			s, t = storeJSON("f", in, match.Any("b"), match.Any("b.c").ErrOnMissingPath(false))
			want = `{"a":"secret","b":"<Any value>","z":` + jval("v") + `}`
		case 4: // Type after Any sees the placeholder
			s, t = storeJSON("f", in, match.Any("b.c"), match.Type[string]("b.c"))
			want = `{"a":"secret","b":{"c":"<Type:string>","d":[1,2]},"z":` + jval("v") + `}`
		case 5: // the same matcher value used again
			m := match.Any("b.d.0").Placeholder("longer than the original value")
			s, t = storeJSON("f", in, m, m)
			want = `{"a":"secret","b":{"c":1,"d":["longer than the original value",2]},"z":` + jval("v") + `}`
		}
		Assert(len(t.Errors) == 0, "matchers on existing paths fail")
		Assert(sameJSON(readJSON(s), readJSON(want), true), "several matchers do not yield the expected document")
	}})
	// unusual paths either fail or replace exactly one value
	reg("c15_paths", Phase{nil, func() {
		in := `{"a":1,"b":{"c":"x","d":[1,2]},"bb":2,"l":[{"k":"v"},{"k":"w"},[5]],"e.f":3,"e":{"f":4},"":{"":7},"1":8,"01":9,"@this":10,"#":11,"a\\":12}`
		paths := []string{"l.#", "l.-1", "*", "b*", "b.?", "a|b", "b|c", "@this", "@reverse", "b.@this", `l.#(k=="v")`, `l.#(k=="v").k`, "l.#.k", "{a,b}", "[a]", `!"x"`,
			"..0", "..0.a", "l.:1", "l.1", "l.01", "l.1.0", "l.2.0", "l.3", "", ".", "a.", ".a", "b..c", "b.c.", "e.f", `e\.f`, "1", "01", ":1", "#", `\@this`, `\#`, `a\\`, `a\`, "b.d.1e0", "b.d.+1", "b.d.1 ", " a", "a\x00", "B.c", "l.0.k|@this", "b.d|0"}
		p := paths[Choice("path", len(paths))]
		custom := Choice("matcher", 2) == 1
		var m match.JSONMatcher = match.Any(p)
		if custom {
			m = match.Custom(p, func(v any) (any, error) { return "<Any value>", nil })
		}
		s, t := storeJSON("f", in, m)
		if len(t.Errors) > 0 {
			Assert(len(t.Errors) == 1 && len(tree()) == 0, "a failing matcher writes a snapshot")
			return
		}
		got := readJSON(s)
		Assert(got != nil, "applying a matcher yields invalid JSON")
		n, ok := replacedJSON(readJSON(in), got, readJSON(quote("<Any value>")))
		Assert(ok && (n == 1 || n == 2 && p == "l.#.k"), "a matcher on an unusual path does not replace exactly one value")
	}})
	// paths over the alphabet of path syntax: whatever the callback got is replaced, and nothing else
	symPath := func(max int) []Phase {
		return []Phase{{nil, func() {
			in := []string{
				`{":1":1,"1":2,":a":3,"a":{"b":4,"":5,"0":6},"":7,"l":[{"b":8},[9],10],"#":11,"{":12,"@a":13}`,
				`[null,{"b":1,"@":2},[3,null],{"b":4}]`,
				`[[1,1],[1]]`,
			}[Choice("doc", 3)]
			p := SymAlpha("p", 1, max, "abl01:#@.{}[]*?|\\!~-")
			var seen any
			calls := 0
			s, t := storeJSON("f", in, match.Custom(p, func(v any) (any, error) { seen = v; calls++; return "<new>", nil }))
			if len(t.Errors) > 0 {
				Assert(len(t.Errors) == 1 && len(tree()) == 0, "a failing matcher writes a snapshot")
				return
			}
			got := readJSON(s)
			Assert(got != nil, "applying a matcher yields invalid JSON")
			old := replacedOld(readJSON(in), got, readJSON(`"<new>"`))
			Assert(calls == 1 && len(old) > 0, "a matcher on an existing path replaces nothing")
			var olds []any
			for _, o := range old {
				olds = append(olds, o.value())
			}
			ok := len(olds) == 1 && sameAny(olds[0], seen)
			if !ok && strings.Contains(p, "#") {
				l, isList := seen.([]any)
				ok = isList && sameAny(leaves(olds), leaves(l))
			}
			Assert(ok, "a matcher replaces something else than the value at its path")
		}}}
	}
	reg("c15_sympath", symPath(4)...)
	reg("c15_sympath5", symPath(5)...)
	// values without a representation
	reg("c15_bad", Phase{nil, func() {
		d := jdocs[Choice("doc", len(jdocs))]
		nan := math.NaN()
		v := []any{nan, math.Inf(1), math.Inf(-1), float32(nan), make(chan int), func() {}, complex(1, 2), map[string]any{"a": nan}, []any{math.Inf(1)}, json.RawMessage("{"), json.Number("x")}[Choice("value", 11)]
		var m match.JSONMatcher = match.Any(d.path).Placeholder(v)
		if Choice("matcher", 2) == 1 {
			m = match.Custom(d.path, func(any) (any, error) { return v, nil })
		}
		s, t := storeJSON("f", d.pre+`"x"`+d.post, m)
		if len(t.Errors) > 0 {
			Assert(len(t.Errors) == 1 && len(tree()) == 0, "a failing matcher writes a snapshot")
			return
		}
		checkMasked(s, d, v)
	}})
}

// pnode is a member of the document of c15_pairs.
type pnode struct {
	key, path, ypath, leaf string
	list                   bool
	kids                   []*pnode
}

func pairsDoc(leaf string) *pnode {
	return &pnode{kids: []*pnode{
		{key: "a", path: "a", ypath: "$.a", kids: []*pnode{
			{key: "b", path: "a.b", ypath: "$.a.b", kids: []*pnode{{key: "c", path: "a.b.c", ypath: "$.a.b.c", leaf: leaf}}},
			{key: "d", path: "a.d", ypath: "$.a.d", leaf: `"a.b"`},
		}},
		{key: "l", path: "l", ypath: "$.l", list: true, kids: []*pnode{
			{path: "l.0", ypath: "$.l[0]", kids: []*pnode{{key: "k", path: "l.0.k", ypath: "$.l[0].k", leaf: "7"}}},
			{path: "l.1", ypath: "$.l[1]", leaf: `"l.0"`},
		}},
		{key: "z", path: "z", ypath: "$.z", leaf: leaf},
	}}
}

func (n *pnode) each(f func(*pnode)) {
	for _, k := range n.kids {
		f(k)
		k.each(f)
	}
}

// render writes the document with the masked members replaced.
func (n *pnode) render(with map[string]string) string {
	if w, ok := with[n.path]; ok && n.path != "" {
		return w
	}
	if n.leaf != "" {
		return n.leaf
	}
	s := ""
	for i, k := range n.kids {
		if i > 0 {
			s += ","
			s += " "
		}
		if !n.list {
			s += `"` + k.key + `": `
		}
		s += k.render(with)
	}
	if n.list {
		return "[" + s + "]"
	}
	return "{" + s + "}"
}

func init() {
	// two paths of one matcher or of two matchers where one may contain the
	// other or equal it: the second one sees the document the first one left
	pairs := func(yaml bool) []Phase {
		return []Phase{{nil, func() {
			leaf := `"` + word("v", 2) + `"`
			doc := pairsDoc(leaf)
			var all []*pnode
			doc.each(func(n *pnode) { all = append(all, n) })
			p, q := all[Choice("p", len(all))], all[Choice("q", len(all))]
			missing := Choice("missing", 2) == 1
			pp, qp := p.path, q.path
			if yaml {
				pp, qp = p.ypath, q.ypath
			}
			with := map[string]string{}
			exists := !strings.HasPrefix(q.path, p.path+".")
			how := Choice("how", 4)
			var ms []both
			switch how {
			case 0:
				ms = []both{match.Any(pp, qp).ErrOnMissingPath(!missing)}
			case 1:
				ms = []both{match.Any(pp).Placeholder("one"), match.Any(qp).Placeholder("two").ErrOnMissingPath(!missing)}
			case 2:
				ms = []both{match.Any(pp), match.Type[string](qp).ErrOnMissingPath(!missing)}
			case 3:
				ms = []both{match.Custom(pp, konst("one")), match.Custom(qp, konst(nil)).ErrOnMissingPath(!missing)}
			}
			ph := [][2]string{{`"<Any value>"`, `"<Any value>"`}, {`"one"`, `"two"`}, {`"<Any value>"`, `"<Type:string>"`}, {`"one"`, `null`}}[how]
			with[p.path] = ph[0]
			isString := p == q || q.leaf != "" && q.leaf[0] == '"'
			fails := !exists && !missing || exists && how == 2 && !isString
			if exists {
				with[q.path] = ph[1]
				if strings.HasPrefix(p.path, q.path+".") {
					delete(with, p.path)
				}
			}
			in := doc.render(nil)
			var jms []match.JSONMatcher
			var yms []match.YAMLMatcher
			for _, m := range ms {
				jms, yms = append(jms, m), append(yms, m)
			}
			var s string
			var t *T
			if yaml {
				s, t = storeYAML(in+"\n", yms...)
			} else {
				s, t = storeJSON("f", in, jms...)
			}
			if fails {
				Assert(len(t.Errors) == 1 && len(tree()) == 0, "a path below a value that was replaced by an earlier path does not fail")
				return
			}
			if len(t.Errors) == 1 && yaml && !exists {
				// a path below a scalar is an error of its own in YAML
				Assert(len(tree()) == 0, "a failing matcher writes a snapshot")
				return
			}
			Assert(len(t.Errors) == 0, "matchers on existing paths fail")
			want := doc.render(with)
			if yaml {
				g, w := readYAML(s), readYAML(want)
				Assert(len(g) == 1 && sameYAML(g[0], w[0]), "two paths do not yield the document with exactly the targets replaced")
			} else {
				Assert(sameJSON(readJSON(s), readJSON(want), true), "two paths do not yield the document with exactly the targets replaced")
			}
		}}}
	}
	reg("c15_pairs", pairs(false)...)
	reg("c15_ypairs", pairs(true)...)
}
