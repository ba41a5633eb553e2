package zzverif

import (
	"strings"
	"time"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/goccy/go-yaml"
)

// verbatim: the document is stored exactly as given and replays; ok reports
// whether the document is known to be valid (1), invalid (-1) or either (0).
func verbatim(doc func() (string, int), ms ...match.YAMLMatcher) []Phase {
	return verbatimCR(false, doc, ms...)
}

// verbatimCR with cr: documents with carriage returns at line ends, which are
// stored as given (that they don't replay is a documented limitation).
func verbatimCR(cr bool, doc func() (string, int), ms ...match.YAMLMatcher) []Phase {
	run := func() (in string, valid int, t *T) {
		in, valid = doc()
		Assume(cr || !crEOL(in))
		form := Choice("form", 3)
		t = Test("TestA", func(t *T) {
			switch form {
			case 0:
				cfgF().MatchYAML(t, in, ms...)
			case 1:
				b := append(make([]byte, 0, len(in)+32), in...)
				cfgF().MatchYAML(t, b, ms...)
				Assert(string(b) == in && string(b[:cap(b)][len(in):]) == string(make([]byte, 32)), "the bytes of the caller are modified")
			case 2: // second in the file, after and before other entries
				cfgF().MatchSnapshot(t, "---\nfirst")
				cfgF().MatchYAML(t, in, ms...)
				cfgF().MatchYAML(t, "last: 1\n")
			}
		})
		return
	}
	return []Phase{{nil, func() {
		in, valid, t := run()
		es, ok := parse(readAny(path("s", "f.snap")))
		id, n := "TestA - 1", 1
		if Choice("form", 3) == 2 {
			id, n = "TestA - 2", 3
		}
		Assert(ok, "the snapshot file is malformed")
		if len(t.Errors) > 0 {
			AssertKnown(valid <= 0, "a valid YAML document is rejected", "YAMLLIB", in == "[TestA - 1]: x\n")
			Assert(len(t.Errors) == 1, "more than one error")
			Assert(len(es) == n-1, "an invalid document writes a snapshot")
			_, k := find(es, id)
			Assert(k == 0, "an invalid document writes a snapshot")
			return
		}
		AssertKnown(valid >= 0, "a document that is not valid YAML is accepted", "YAMLLIB", in == "}" || in == "a: \"\\x\"")
		b, k := find(es, id)
		Assert(len(es) == n && k == 1, "the document is not stored")
		Assert(unesc(b) == in, "the document is not stored exactly as given")
		Observe("body", b)
	}}, {nil, func() {
		if cr {
			return
		}
		FSMark()
		in, _, t := run()
		_ = in
		Assert(FSTouched() == "", "replay writes to the snapshot directory")
		if len(t.Errors) == 0 {
			Assert(t.quiet(), "replaying a document logs")
		} else {
			_, k := find(mustParse(readAny(path("s", "f.snap"))), []string{"TestA - 1", "TestA - 1", "TestA - 2"}[Choice("form", 3)])
			Assert(k == 0, "replaying a document fails")
		}
	}}}
}

// readAny is the content of a file, or "" when there is none.
func readAny(p string) string {
	s, _ := readFile(p)
	return s
}

func mustParse(s string) []entry {
	es, ok := parse(s)
	Assert(ok, "the snapshot file is malformed")
	return es
}

var yvalid = []string{
	"", "\n", "a: 1", "a: 1\n", "a: 1\n\n\n", "\n\na: 1\n", "# only a comment\n", "# comment\na: 1 # note\n# last", "a: 1\n# last\n",
	"---\na: 1\n", "--- # note\na: 1\n...\n", "a: 1\n---\nb: 2\n", "a: 1\n---\nb: 2\n---\n- c\n", "---\na: 1\n---\n---\nb: 2", "---\n", "---", "---\n---\n",
	"z: 1\na: 2\nm: 3\n", "a:   1\nb:      2   \n", "a: [1,   2,3 ]\n", "{z: 1,    a: 2}", "'q': \"x\"\n", "a: |\n  t\n\n   u\nb: >-\n  v\n  w\n", "a: |+\n  t\n\n\n", "a: |\n  ---\n  x\n",
	"- 1\n-   2\n-\n  - 3\n", "a: &x 1\nb: *x\n", "base: &b {k: 1}\nn:\n  <<: *b\n", "a: 0x1F\nb: 1.50\nc: 1e3\nd: ~\ne: yes\nf: 2024-01-02\n", "plain", "\"quoted\"\n", "12", "a:\n    deep:\n          x: 1\n", "é: 世界\n", "a: \"\\u00e9\\n\"\n", "? a\n: 1\n", "[TestA - 1]\n", "[TestA - 1]: x\n", "/-/-/-/\n", "a: |\n  /-/-/-/\n", "a: 1\n---\n/-/-/-/\n---\n/-/-/-//\n", "  a: 1\n  b: 2\n", "a: |-\n  [TestA - 2]\n  ---\n", "a: x\\ny\n", "%YAML 1.2\n---\na: 1\n", "a: x%s %d %%\n",
	"a: 12345678901234567890\n", "a: 'it''s'\n", "\"a\": 1\n'b': 2\n", "a:\n- 1\n- 2\n", "a: \"x\ty\"\n", "a: {b: {c: []}}\n",
}

var yinvalid = []string{
	"a: [1", "a: {b: 1", "a: \"x", "a: 'x", "a: b: c", "a: 1\n b: 2\n  c: 3\n- d", "a:\n\t- 1\n", "a: 1\n---\nb: [\n", "]", "}", "a: ]", "a: *undefined\n", "a: [1, 2]]", "- a\nb: 1\n", "key: - a\n", "\"a\" b: 1", "a: \"\\x\"", "a: %s\n", "a: @x\n", "a: `x\n", "a: [b, c\nd: 1\n", "a: {b: 1]\n", "a: !!int x\n---\n\"\n",
}

func init() {
	// documents that are valid, with a symbolic word somewhere
	reg("c18_docs", verbatim(func() (string, int) {
		return yvalid[Choice("doc", len(yvalid))], 1
	})...)
	// lines that end in a carriage return and a newline, all or some of them,
	// and a byte order mark
	reg("c18_crlf", verbatimCR(true, func() (string, int) {
		d := yvalid[Choice("doc", len(yvalid))]
		i := strings.IndexByte(d, '\n')
		if i < 0 {
			Unreachable()
		}
		switch Choice("which", 3) {
		case 0:
			return strings.ReplaceAll(d, "\n", "\r\n"), 0
		case 1:
			return d[:i] + "\r" + d[i:], 0
		}
		return "\ufeff" + d, 0
	})...)
	reg("c18_big", verbatimCR(true, func() (string, int) {
		d := yvalid[[]int{2, 22, 41}[Choice("doc", 3)]]
		eol := []string{"\n", "\r\n"}[Choice("eol", 2)]
		size := []int{5000, 70000}[Choice("size", 2)]
		pad := ""
		switch Choice("pad", 4) {
		case 0:
			pad = "# " + strings.Repeat("c", size) + eol
		case 1:
			pad = strings.Repeat("# some  comment \t"+eol, size/17)
		case 2:
			pad = "pad: |" + eol + strings.Repeat("  line é"+eol+eol, size/12)
		case 3:
			pad = "pad: \"" + strings.Repeat("x", size) + "\"" + eol
		}
		if Choice("after", 2) == 1 && strings.HasSuffix(d, "\n") {
			return d + pad, 0
		}
		return pad + d, 0
	})...)
	reg("c18_invalid", verbatim(func() (string, int) {
		return yinvalid[Choice("doc", len(yinvalid))], -1
	})...)
	// templates of C15 with symbolic values
	reg("c18_vals", verbatim(func() (string, int) {
		d := ydocs[Choice("d", len(ydocs))]
		return d.pre + yval("v") + d.post, 1
	})...)
	reg("c18_next", verbatim(func() (string, int) {
		s := ynext[Choice("d", len(ynext))]
		w := word("w", 2)
		return []string{s, "a: " + w + "\n" + s + "\n", "# " + w + "\n" + s + "\n# " + w}[Choice("where", 3)], 0
	})...)
	// every text over the characters that matter
	reg("c18_alpha3", verbatim(func() (string, int) { return SymAlpha("v", 0, 3, "a:\n -#"), 0 })...)
	reg("c18_alpha4", verbatim(func() (string, int) { return SymAlpha("v", 4, 4, "a:\n -"), 0 })...)
	// comments, separators, spacing and final newlines with symbolic characters
	reg("c18_comments", verbatim(func() (string, int) {
		c := printable("c", 0, 2)
		fin := []string{"", "\n", "\n\n"}[Choice("fin", 3)]
		switch Choice("tpl", 5) {
		case 0:
			return "#" + c + "\na: 1" + fin, 1
		case 1:
			return "a: 1 #" + c + "\nb: 2" + fin, 1
		case 2:
			return "a: 1\n---\n#" + c + "\nb: 2" + fin, 1
		case 3:
			return "a: |\n  x" + c + "\n  ---\nb: 2" + fin, 1
		}
		return "a: 1\n#" + c + fin, 1
	})...)
	reg("c18_seps", verbatim(func() (string, int) {
		s := ""
		for i := 0; i < 3; i++ {
			s += []string{"", "---\n", "/-/-/-/\n", "a" + itoa(i) + ": 1\n", "# x\n"}[Choice("l"+itoa(i), 5)]
		}
		return s + []string{"", "z: 1", "---"}[Choice("fin", 3)], 0
	})...)
	reg("c18_seps5", verbatim(func() (string, int) {
		s := ""
		for i := 0; i < 5; i++ {
			s += []string{"", "---\n", "/-/-/-/\n", "a" + itoa(i) + ": 1\n", "# x\n"}[Choice("l"+itoa(i), 5)]
		}
		return s + []string{"", "z: 1", "---"}[Choice("fin", 3)], 0
	})...)
	// a matcher that targets a missing path which it may ignore is no exception
	// Go values: the same text every time, whatever the order maps are built or walked in
	reg("c18_values", goValues()...)
	// MatchYAML of a value and of its text
	reg("c18_one", Phase{nil, func() {
		w := word("w", 2)
		v := map[string]any{"b": w, "a": []int{1, 2}, "c": map[string]any{"y": "p: q", "x": nil}}
		t := Test("TestA", func(t *T) { cfgF().MatchYAML(t, v) })
		Assert(len(t.Errors) == 0, "a marshalable value is rejected")
		b, _ := find(mustParse(mustRead(path("s", "f.snap"))), "TestA - 1")
		docs := readYAML(unesc(b))
		Assert(len(docs) == 1 && sameYAML(docs[0], readYAML("a: [1, 2]\nb: \"" + w + "\"\nc: {x: null, y: \"p: q\"}\n")[0]), "the text of a Go value is not its YAML")
	}})
	// what can't be marshalled fails
	reg("c18_unmarshalable", Phase{nil, func() {
		v := noYAML{}
		t := Test("TestA", func(t *T) { cfgF().MatchYAML(t, v); cfgF().MatchYAML(t, "a: 1\n") })
		Assert(len(t.Errors) == 1, "a value that can't be marshalled doesn't fail once")
		es := mustParse(readAny(path("s", "f.snap")))
		Assert(len(es) == 1 && es[0].id == "TestA - 2" && es[0].body == "a: 1\n", "a value that can't be marshalled writes a snapshot")
	}})
}

type noYAML struct{}

func (noYAML) MarshalYAML() ([]byte, error) { return nil, errFail }

type failErr struct{}

func (failErr) Error() string { return "can't marshal" }

var errFail error = failErr{}

type ystruct struct {
	Zeta  string `yaml:"zeta"`
	Alpha *int   `yaml:"alpha,omitempty"`
	M     map[string]int
	L     []any `yaml:"l,flow"`
	t     int
}

// goValue builds a Go value; the maps are filled in one of two orders.
func goValue(kind int, w string, rev bool) any {
	fill := func(m map[string]any, ks ...string) map[string]any {
		for i := range ks {
			k := ks[i]
			if rev {
				k = ks[len(ks)-1-i]
			}
			m[k] = "v" + k
		}
		return m
	}
	n := 3
	switch kind {
	case 0:
		return fill(map[string]any{}, "c", "a", "b"+w)
	case 1:
		return map[string]any{"o": fill(map[string]any{}, "k", w), "l": []any{fill(map[string]any{}, "y", "x")}}
	case 2:
		return ystruct{Zeta: w + "\n---\n", Alpha: &n, M: map[string]int{"q": 1, "p": 2}, L: []any{1, "a: b", nil, map[string]any{"b": 1, "a": 2}}}
	case 3:
		return map[int]string{3: w, 1: "---", 2: "x\ny"}
	case 4:
		return []any{true, 1.5, "12", "null", w, time.Duration(90) * time.Second, uint8(1), []byte("ab")}
	case 5:
		return yaml.MapSlice{{Key: "z", Value: w}, {Key: "a", Value: 1}}
	case 6:
		return map[any]any{"b": 1, 2: w, true: "x"}
	case 7:
		return &ystruct{M: map[string]int{"k" + w: 1, "j": 2, "i": 3}}
	}
	return struct {
		Map map[string]map[string]int `yaml:",inline"`
	}{map[string]map[string]int{"b": {"y": 1, "x": 2}, "a": {w: 1}}}
}

func goValues() []Phase {
	get := func(rev bool) any { return goValue(Choice("kind", 9), word("w", 1), rev) }
	return []Phase{{nil, func() {
		ExploreMapOrder(Choice("order1", 2) == 1)
		c := cfgF()
		t := Test("TestA", func(t *T) { c.MatchYAML(t, get(false)) })
		ExploreMapOrder(false)
		Assert(len(t.Errors) == 0, "a marshalable value is rejected")
		b, _ := find(mustParse(mustRead(path("s", "f.snap"))), "TestA - 1")
		Assert(readYAML(unesc(b)) != nil, "the text of a Go value is not YAML")
		// one newline ends the text of a value
		Assert(strings.HasSuffix(b, "\n"), "the text of a Go value has no final newline")
		Observe("body", b)
	}}, {nil, func() {
		FSMark()
		ExploreMapOrder(Choice("order2", 2) == 1)
		rev := Choice("rev", 2) == 1
		t := Test("TestA", func(t *T) { snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f")).MatchYAML(t, get(rev)) })
		ExploreMapOrder(false)
		Assert(len(t.Errors) == 0, "a Go value is not marshalled to the same text every time")
		Assert(t.quiet() && FSTouched() == "", "replaying a Go value writes")
	}}}
}
