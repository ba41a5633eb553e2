package zzverif

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

func colourEnv() {
	if Choice("nocolor", 2) == 1 {
		Setenv("NO_COLOR", "1")
	}
}

// mismatch: phase 1 stores text a with the api, phase 2 passes b, whose
// formatted text differs.
func mismatch(api int, a, b func() string, differ func(a, b string) bool) []Phase {
	if api < 0 {
		return mismatchOf(func() int {
			if api == -1 {
				return []int{apiJSON, apiAloneJSON, apiSnap, apiAlone}[Choice("api", 4)]
			}
			return []int{apiYAML, apiSnap, apiAlone}[Choice("api", 3)]
		}, a, b, differ)
	}
	return mismatchOf(func() int { return api }, a, b, differ)
}

var jsonSpellings = [][]string{
	{"1", "1.0", "1e0", "10e-1", "1.00", "1E0", "1e+0"}, {"0", "-0", "0.0", "0e5", "-0.0"}, {"100", "1e2", "1E2", "1e+2", "100.0", "1e02"},
	{"9007199254740992", "9007199254740993", "9007199254740992.0", "9007199254740992.5"}, {"18446744073709551615", "18446744073709551616", "1.8446744073709552e19"},
	{"0.1", "0.10", "0.1000000000000000055511151231257827", "1e-1"}, {"1e400", "2e400", "-1e400"}, {"1e-400", "0", "2e-400"},
	{`"a"`, `"\u0061"`}, {`"/"`, `"\/"`}, {`"é"`, `"\u00e9"`, `"\u00E9"`}, {`"\ud800"`, `"\udc00"`, `"\ufffd"`, "\"\xff\"", "\"\xfe\""}, {`"\t"`, `"\u0009"`}, {`"<"`, `"\u003c"`},
	{`null`, `[]`, `{}`, `""`, `0`, `false`, `"null"`}, {`{"a":null}`, `{}`}, {`[[]]`, `[]`, `[null]`}, {`{"b":1,"b":2}`, `{"b":2}`, `{"b":2,"b":2}`}, {`{"a":1,"A":1}`, `{"A":1}`},
}

var yamlSpellings = [][]string{
	{"a: 1", "a:  1", "a: 1 # c", "{a: 1}", "\"a\": 1", "a: 0x1", "a: +1", "a: 1\n", "---\na: 1", "# c\na: 1", "a: 1\n...", "? a\n: 1", "\na: 1", "a: !!int 1", "a: 1.0"},
	{"a: x", "a: 'x'", "a: \"x\"", "a: |-\n  x", "a: >-\n  x", "a: |-\n    x", "a: \"\\x78\"", "a: !!str x", "a: x\n\n"},
	{"a: ~", "a: null", "a:", "a: Null", "a: \"\""}, {"a: true", "a: True", "a: \"true\"", "a: yes"},
	{"- 1\n- 2", "[1, 2]", "-  1\n-  2", "[1,2]", "[1, 2,]"}, {"a: 1\nb: 2", "b: 2\na: 1", "{a: 1, b: 2}", "a: 1\n\nb: 2"}, {"a: 1.0", "a: 1.00", "a: 1e0"},
	{"a: &x 1\nb: *x", "a: 1\nb: 1", "a: &y 1\nb: *y"}, {"a: 9007199254740992", "a: 9007199254740993", "a: 9007199254740992.0"}, {"---\na: 1\n---\nb: 2", "a: 1\n---\nb: 2", "a: 1\n--- # c\nb: 2"},
	{"{\"a\":1}", "{\"a\": 1}", "{\"a\" :1}", "{ \"a\":1}"}, {"a:\n  - 1", "a:\n- 1", "a: [1]"}, {"a: x y", "a: x  y", "a: x\n  y"},
}

// spelled is one of the spellings, a and b are of the same family.
func spelled(l [][]string, n string) string {
	f := l[Choice("family", len(l))]
	i := Choice("i", len(f))
	if n == "b" {
		i = (i + 1 + Choice("j", len(f)-1)) % len(f)
	}
	if len(l) == len(yamlSpellings) {
		return f[i]
	}
	switch Choice("in", 3) {
	case 1:
		return "[" + f[i] + "]"
	case 2:
		return `{"k":` + f[i] + `}`
	}
	return f[i]
}

func mismatchOf(of func() int, a, b func() string, differ func(a, b string) bool) []Phase {
	return []Phase{
		{nil, func() {
			api := of()
			v := a()
			Assume(differ(v, b()))
			t := Test("TestA", func(t *T) { do(cfgF(), t, api, v) })
			Assume(len(t.Errors) == 0)
		}},
		{colourEnv, func() {
			api := of()
			v, w := a(), b()
			names := tree()
			before := mustRead(path(names[0]))
			FSMark()
			t := Test("TestA", func(t *T) { do(cfgF(), t, api, w) })
			cr := false
			if api == apiSnap || api == apiYAML {
				cr = readBack(fmtText(v)) == fmtText(w)
			}
			AssertKnown(len(t.Errors) > 0, "a changed value passes silently", "CR", cr)
			Assert(len(t.Errors) == 1, "a changed value reports more than one error")
			Assert(len(t.Logs) == 0, "a mismatch also logs")
			Assert(FSTouched() == "", "a mismatch writes to the snapshot directory")
			Assert(mustRead(path(names[0])) == before, "a mismatch changes the stored snapshot")
			Observe("err", t.Errors...)
		}},
	}
}

func init() {
	textDiffer := func(a, b string) bool { return fmtText(a) != fmtText(b) }
	raw := func(a, b string) bool { return a != b }
	sym := func(n string, lo, hi int) func() string {
		return func() string { return SymString(n, lo, hi) }
	}
	ab := func(f func(n string) string) (func() string, func() string) {
		return func() string { return f("a") }, func() string { return f("b") }
	}
	// one value in several spellings, or values that common number types do not tell apart
	reg("c02_jsonsame", mismatch(-1, func() string { return spelled(jsonSpellings, "a") }, func() string { return spelled(jsonSpellings, "b") }, raw)...)
	reg("c02_yamlsame", mismatch(-2, func() string { return spelled(yamlSpellings, "a") }, func() string { return spelled(yamlSpellings, "b") }, raw)...)
	reg("c02_bytes1", mismatch(apiSnap, sym("a", 0, 1), sym("b", 0, 1), textDiffer)...)
	reg("c02_alone1", mismatch(apiAlone, sym("a", 0, 1), sym("b", 0, 1), textDiffer)...)
	reg("c02_bytes", mismatch(apiSnap, sym("a", 0, 2), sym("b", 0, 2), textDiffer)...)
	reg("c02_bytes3", mismatch(apiSnap, sym("a", 0, 3), sym("b", 0, 3), textDiffer)...)
	reg("c02_alone", mismatch(apiAlone, sym("a", 0, 2), sym("b", 0, 2), textDiffer)...)
	// one byte differs inside otherwise equal text, any two bytes
	ctx := []string{"", "line one\n", "ab", "a\n\n---\n"}
	reg("c02_one", mismatch(apiSnap, func() string {
		i := Choice("ctx", 4)
		return ctx[i] + string(SymBytes("a", 1)) + ctx[Choice("post", 4)]
	}, func() string {
		i := Choice("ctx", 4)
		return ctx[i] + string(SymBytes("b", 1)) + ctx[Choice("post", 4)]
	}, textDiffer)...)
	// two letters differ next to long equal text: no shortcut (length, checksum,
	// prefix) stands for the comparison
	for _, api := range []int{apiSnap, apiAlone} {
		pad := func(n string) func() string {
			return func() string {
				v := SymString(n, 2, 2)
				for i := 0; i < len(v); i++ {
					Assume(v[i] >= 'A' && v[i] <= 'z')
				}
				p := []string{strings.Repeat("x", 100), strings.Repeat("y\n", 60), strings.Repeat("line of text\n", 400)}[Choice("pad", 3)]
				return []string{p + v, v + p, p + v + "\n" + p}[Choice("where", 3)]
			}
		}
		reg("c02_pad"+strconv.Itoa(api), mismatch(api, pad("a"), pad("b"), raw)...)
	}
	// two bytes: multi-byte runes and invalid UTF-8
	reg("c02_runes", mismatch(apiSnap, func() string {
		return "x" + string(SymBytes("a", 2)) + []string{"", "\n", "y\nz"}[Choice("post", 3)]
	}, func() string {
		return "x" + string(SymBytes("b", 2)) + []string{"", "\n", "y\nz"}[Choice("post", 3)]
	}, func(a, b string) bool {
		for _, s := range []string{a, b} {
			Assume(s[1] >= 0x80 && s[2] >= 0x80)
		}
		return textDiffer(a, b)
	})...)
	// one line near the terminator and its escapes
	a, b := ab(func(n string) string {
		return alphaN(n, []int{0, 3, 7, 8}[Choice(n+"#n", 4)], "-/")
	})
	reg("c02_escape", mismatch(apiSnap, a, b, raw)...)
	// the terminator and its escapes, one of them with one byte changed
	near := func(n string) string {
		t := []string{"---", "/-/-/-/", "/-/-/-//", "/-/-/-///"}[Choice(n+"#t", 4)]
		if (Choice("mut", 2) == 1) == (n == "a") {
			b := []byte(t)
			b[Choice(n+"#at", len(b))] = SymBytes(n, 1)[0]
			t = string(b)
		}
		return []string{"", "x\n"}[Choice("pre", 2)] + t + []string{"", "\ny"}[Choice("post", 2)]
	}
	a, b = ab(near)
	reg("c02_near", mismatch(apiSnap, a, b, textDiffer)...)
	// every printable line, two lines
	a, b = ab(func(n string) string { return symLines(n, 1, 0, 3, 7, 8, 9) })
	reg("c02_printable", mismatch(apiSnap, a, b, raw)...)
	a, b = ab(func(n string) string { return symLines(n, 2, 0, 3, 7) })
	reg("c02_lines", mismatch(apiSnap, a, b, raw)...)
	a, b = ab(func(n string) string { return SymAlpha(n, 0, 3, "\n -") })
	reg("c02_blank", mismatch(apiSnap, a, b, raw)...)
	a, b = ab(func(n string) string { return SymAlpha(n, 0, 4, "\n a") })
	reg("c02_blank_alone", mismatch(apiAlone, a, b, raw)...)
	// long lines: a symbolic byte after n equal ones
	for _, api := range []int{apiSnap, apiAlone} {
		long := func(n string) string {
			return strings.Repeat("x", []int{4096, 65536, 70000, 1<<20 + 1}[Choice("n", 4)]) + SymAlpha(n, 0, 1, "xy\n")
		}
		a, b = ab(long)
		reg("c02_long"+strconv.Itoa(api), mismatch(api, a, b, raw)...)
	}
	// large texts of one length that differ in a byte at either distance from
	// either end, or in the middle
	for _, api := range []int{apiSnap, apiAlone} {
		inside := func(n string) string {
			size := []int{70000, 140000, 300000}[Choice("n", 3)]
			w := Choice("at", 31)
			at := size / 2
			switch {
			case w < 10: // 2^9 .. 2^18
				at = 1<<(9+w) + 5
			case w < 20:
				at = size - 1<<(w-1) - 5
			case w < 30:
				at = size/10*(w-20) + 77
			}
			if at < 0 || at >= size {
				Unreachable()
			}
			b := []byte(strings.Repeat("x", size))
			return string(b[:at]) + SymAlpha(n, 1, 1, "xy") + string(b[at+1:])
		}
		a, b = ab(inside)
		reg("c02_inside"+strconv.Itoa(api), mismatch(api, a, b, raw)...)
	}
	// one Go value whose content changes between two executions of a test
	reg("c02_mutated", Phase{colourEnv, func() {
		type inner struct{ N []int }
		type rec struct {
			A string
			M map[string]int
			P *inner
		}
		x, y := word("x", 1), word("y", 1)
		Assume(x != y)
		r := &rec{A: x, M: map[string]int{"m": 1}, P: &inner{[]int{1}}}
		m := map[string]any{"k": x, "l": []any{x}}
		l := []*rec{r}
		b := []byte(`"` + x + `"`)
		mut := Choice("mut", 3)
		var v any
		kind := Choice("kind", 5)
		switch kind {
		case 0:
			v = r
		case 1:
			v = m
		case 2:
			v = l
		case 3:
			v = &m
		case 4:
			v = b
		}
		change := func() {
			switch {
			case kind == 4:
				b[1] = y[0]
			case kind == 1 || kind == 3:
				if mut == 0 {
					m["k"] = y
				} else {
					m["l"].([]any)[0] = y
				}
			case mut == 0:
				r.A = y
			case mut == 1:
				r.M["m"] = 2
			case mut == 2:
				r.P.N[0] = 2
			}
		}
		api := Choice("api", 5)
		upd := Choice("upd", 2) == 1
		call := func(t *T) {
			c := cfgF()
			if upd {
				c = snaps.WithConfig(snaps.Dir(path("s")), snaps.Filename("f"), snaps.Update(true))
			}
			switch api {
			case apiSnap:
				c.MatchSnapshot(t, v)
			case apiJSON:
				c.MatchJSON(t, v)
			case apiYAML:
				c.MatchYAML(t, v)
			case apiAlone:
				c.MatchStandaloneSnapshot(t, v)
			case apiAloneJSON:
				c.MatchStandaloneJSON(t, v)
			}
		}
		t := Test("TestA", call)
		Assert(outcome(t) == "log", "the first value is not stored")
		t = Test("TestA", call)
		Assert(t.quiet(), "the same value does not pass")
		before := mustRead(path(tree()[0]))
		change()
		t = Test("TestA", call)
		after := mustRead(path(tree()[0]))
		if upd {
			Assert(outcome(t) == "log" && after != before, "a value that changed is not updated")
		} else {
			Assert(outcome(t) == "error" && after == before, "a value that changed passes silently")
		}
	}})
	// many lines (over 200: the differ's popular-line heuristic), one differs
	many := func(n string) string {
		cnt := []int{12, 250}[Choice("n", 2)]
		ls := make([]string, cnt)
		for i := range ls {
			ls[i] = "same"
			if i%50 == 7 {
				ls[i] = "l" + strconv.Itoa(i)
			}
		}
		at := []int{0, 5, 11}[Choice("at", 3)]
		ls[at] = SymAlpha(n, 1, 2, "sa ")
		return strings.Join(ls, "\n")
	}
	a, b = ab(many)
	reg("c02_many", mismatch(apiSnap, a, b, raw)...)
	// JSON: same shape, different leaf / member / order in arrays
	docs := func(n string) string {
		w := string(SymBytes(n, 2))
		switch Choice("tpl", 5) {
		case 0:
			for i := 0; i < 2; i++ {
				Assume(w[i] >= ' ' && w[i] != '"' && w[i] != '\\' && w[i] < 0x7f)
			}
			return `{"k":"` + w + `","z":[1,2]}`
		case 1:
			Assume(w[0] >= '1' && w[0] <= '9' && w[1] >= '0' && w[1] <= '9')
			return `[` + w + `,null]`
		case 2:
			Assume(w[0] >= 'a' && w[0] <= 'c' && w[1] >= 'a' && w[1] <= 'c')
			return `{"` + w[:1] + `":1,"n":{"` + w[1:] + `":true}}`
		case 3:
			Assume(w[0] >= '0' && w[0] <= '9' && w[1] == '0' || w[1] == '1')
			return `[` + w[:1] + `,` + w[1:] + `]`
		}
		Assume(w[0] >= '0' && w[0] <= '9' && w[1] >= '0' && w[1] <= '9')
		return `"` + `\u00` + w + `"`
	}
	for _, api := range []int{apiJSON, apiAloneJSON} {
		a, b = ab(docs)
		reg("c02_json"+strconv.Itoa(api), mismatch(api, a, b, raw)...)
	}
	yamls := func(n string) string {
		w := word(n, 1)
		switch Choice("tpl", 5) {
		case 0:
			return "a: " + w + "\nb: 1\n"
		case 1:
			return "# " + w + "\na: b"
		case 2:
			return "a: b\n---\nc: " + w + "\n"
		case 3:
			return []string{"a: b", "a: b\n", "a:  b", "a: b # c", "\na: b", "---\na: b", "a: b\n---\n"}[Choice(n+"form", 7)]
		}
		return "- " + w + "\n- |\n  x\n"
	}
	a, b = ab(yamls)
	reg("c02_yaml", mismatch(apiYAML, a, b, raw)...)
	// texts a normalisation could take for equal: two members of one family,
	// every ? any digit
	for _, api := range []int{apiSnap, apiJSON, apiYAML, apiAlone, apiAloneJSON} {
		noise := func(n string) string {
			f := noisy[Choice("family", len(noisy))]
			t := []byte(f[Choice(n+"#member", len(f))])
			k := 0
			for i, c := range t {
				if c == '?' {
					d := SymBytes(n+strconv.Itoa(k), 1)[0]
					Assume(d >= '0' && d <= '9')
					t[i] = d
					k++
				}
			}
			return around(api, string(t), Choice("where", 2))
		}
		a, b = ab(noise)
		differ := raw
		if api == apiSnap || api == apiAlone {
			differ = textDiffer // tabs are formatted
		}
		reg("c02_noise"+strconv.Itoa(api), mismatch(api, a, b, differ)...)
	}
}

// around puts a text into a value of an API.
func around(api int, t string, where int) string {
	switch api {
	case apiJSON, apiAloneJSON:
		q, err := json.Marshal(t)
		if err != nil {
			panic(err)
		}
		if where == 0 {
			return "[" + string(q) + "]"
		}
		return `{"a":1,"k":` + string(q) + `}`
	case apiYAML:
		if where == 0 {
			q, err := json.Marshal(t)
			if err != nil {
				panic(err)
			}
			return "a: 1\nk: " + string(q) + "\n"
		}
		return "a: 1\nk: |-\n  x" + strings.ReplaceAll(t, "\n", "\n  ") + "\n"
	}
	if where == 0 {
		return t
	}
	return "first line\nx " + t + " y\nlast line\n"
}

var noisy = [][]string{
	{"w", "\x1b[0mw", "w\x1b[0m", "\x1b[3?mw\x1b[0m", "\x1b[1;3?mw\x1b[m", "\x1b[Kw", "\x1b]0;t\aw"},
	{"0xc00001234?", "0xc0000abc?0", "0x?", "(*T)(0xc00001200?)", "&{0xc00001200?}"},
	{"2024-01-0?T03:04:05Z", "2024-01-02T03:04:0?Z", "2024-01-02T03:04:05.00?Z", "2024-01-02 03:04:05", "03:04:0?"},
	{"1?.2s", "?.2ms", "(0.0?s)", "1m?s", "?ns"},
	{"6ba7b810-9dad-11d1-80b4-00c04fd430c?", "6ba7b81?-9dad-11d1-80b4-00c04fd430c8"},
	{"goroutine ? [running]:", "goroutine 1? [running]:", "main.go:?", "main.go:1? +0x1d", "main.go:1?:2"},
	{"/tmp/dir?/f", "/tmp/dir?/g", "C:\\dir?\\f", "C:/dir?/f", "/tmp//dir?/f", "/tmp/dir?/./f"},
	{"é", "e\u0301", "e", "É", "è"},
	{"a b", "a\u00a0b", "a\u200bb", "ab", "a\tb", "a  b", "a\u2028b", "a\u3000b", "a\nb", "a\vb", "a\fb", "a\rb", "a\u0085b", "a\bb"},
	{"\ufeffa", "a", "a\ufeff", "\u2060a", "\u200ea", "a\u00ad", "a\x00", "a\x7f"},
	{"A", "a", "\uff21", "\u0410", "ss", "\u00df", "ﬁ", "fi", "\u0130", "i", "\u0131", "K", "\u212a", "k"},
	{"1", "1.0", "+1", "01", "1e0", "1.", "1.0?", "0.?", "-0", "0", "1_000", "1000", "1,000"},
	{"map[a:1 b:?]", "map[b:? a:1]", "map[a:1 b:?] ", "[a b]", "[b a]", "[]", "map[]", "{}", "<nil>", "nil", "null", ""},
	{"\\n", "\n", "\\\\n", "\\t", "\t", "\\u0041", "A", "&amp;", "&", "%41", "%", "%%"},
	{"'a'", "\"a\"", "`a`", "“a”", "a", "\\\"a\\\""},
	{"a // ?", "a", "a # ?", "a /* ? */", "a <!-- ? -->", "a;", "a,", "a."},
	{"\xef\xbf\xbd", "?", "\u00ff", "\u00fe"},
	{"Test - ?", "[Test - ?]", "[Test - 0?]", "[ Test - ?]", "[TestA - 1]", "[TestA - ?] "},
	{"- a", "+ a", "  a", "a", "@@ -1 +1 @@", "* a", "> a"},
	{strings.Repeat("-", 79), strings.Repeat("-", 80), strings.Repeat("-", 81), strings.Repeat("-", 4), strings.Repeat("-", 2)},
	{"aGVsbG8=", "aGVsbG8", "aGVsbG8=\n", "68656c6c6f", "68656C6C6F"},
	{"tok_12345678", "tok_1234567?", "Bearer abc?", "password=?", "****"},
}
