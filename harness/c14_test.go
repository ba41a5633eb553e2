package zzverif

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

func fileConf(d string, opts ...func(*snaps.Config)) *snaps.Config {
	return snaps.WithConfig(append(opts, snaps.Dir(path(d)), snaps.Filename("f"))...)
}

// recordJSON stores the input in its own directory with the api; the stored
// text, and whether there is one.
func recordJSON(d string, api int, in any, opts ...func(*snaps.Config)) (string, bool, *T) {
	c := fileConf(d, opts...)
	t := Test("TestA", func(t *T) {
		if api == apiJSON {
			c.MatchJSON(t, in)
		} else {
			c.MatchStandaloneJSON(t, in)
		}
	})
	fs := treeOf(path(d))
	if len(fs) == 0 {
		return "", false, t
	}
	Assert(len(fs) == 1, "one call creates several files")
	s := mustRead(path(d, fs[0]))
	if api != apiJSON {
		return s, true, t
	}
	es, ok := parse(s)
	Assert(ok && len(es) == 1 && es[0].id == "TestA - 1", "the snapshot file is malformed")
	return es[0].body, true, t
}

// format: every combination of the format options.
func format() []func(*snaps.Config) { return formatOf(Choice("sort", 2) == 1) }

func formatOf(sorted bool) []func(*snaps.Config) {
	return []func(*snaps.Config){snaps.JSON(snaps.JSONConfig{
		Width:    []int{0, 1, 7, 80, 100000, -1}[Choice("width", 6)],
		Indent:   []string{"", " ", "\t", "    "}[Choice("indent", 4)],
		SortKeys: sorted,
	})}
}

func jsonAPI() int { return []int{apiJSON, apiAloneJSON}[Choice("api", 2)] }

// dupDecoded reports an object with keys that are spelled differently but equal.
func dupKeys(n *jnode) bool {
	for i, k := range n.keys {
		for _, l := range n.keys[:i] {
			if k == l {
				return true
			}
		}
	}
	for _, k := range n.kids {
		if dupKeys(k) {
			return true
		}
	}
	return false
}

// anyJSON: an input is rejected and leaves no trace, or stored without loss;
// as string and as bytes.
func anyJSON(in func() string, conf ...func() []func(*snaps.Config)) []Phase {
	return []Phase{{nil, func() {
		api, s := jsonAPI(), in()
		n := readJSON(s)
		var v any = s
		if Choice("form", 2) == 1 {
			v = []byte(s)
		}
		var o []func(*snaps.Config)
		for _, f := range conf {
			o = f()
		}
		got, has, t := recordJSON("s", api, v, o...)
		if n == nil {
			Assert(len(t.Errors) == 1 && len(t.Logs) == 0, "invalid JSON does not fail the test")
			Assert(!has && len(tree()) == 0, "invalid JSON writes a snapshot")
			return
		}
		Assert(len(t.Errors) == 0 && len(t.Logs) == 1 && has, "valid JSON is rejected")
		Reach("valid")
		AssertKnown(sameJSON(n, readJSON(got), false), "the stored text is not the same JSON value", "DUPKEYS", dupKeys(n))
		Observe("stored", got)
	}}}
}

// sameStored: all inputs store the same text, which reads back as the first.
func sameStored(f func() []any, conf ...func() []func(*snaps.Config)) []Phase {
	return []Phase{{nil, func() {
		api := jsonAPI()
		ins := f()
		want := ""
		var o []func(*snaps.Config)
		for _, f := range conf {
			o = f()
		}
		for i, in := range ins {
			got, has, t := recordJSON("s"+itoa(i), api, in, o...)
			Assert(len(t.Errors) == 0 && has, "valid JSON is rejected")
			if i == 0 {
				want = got
				if s, ok := in.(string); ok {
					Assert(sameJSON(readJSON(s), readJSON(got), false), "the stored text is not the same JSON value")
				}
			}
			if got != want {
				Log(want + " / " + got)
			}
			Assert(got == want, "the same document stores different texts")
		}
		Observe("stored", want)
	}}}
}

type person struct {
	Name  string            `json:"name"`
	Age   int               `json:"age,omitempty"`
	Tags  []string          `json:"tags"`
	Inner *person           `json:"inner,omitempty"`
	Extra map[string]any    `json:"extra,omitempty"`
	M     map[string]string `json:"-"`
	B     []byte
	F     float64
	I     any
}

type marshaler struct{ s string }

func (m marshaler) MarshalJSON() ([]byte, error) {
	if m.s == "" {
		return nil, errors.New("marshal error")
	}
	return []byte(m.s), nil
}

type rawNamed json.RawMessage

type texter struct{ s string }

func (m texter) MarshalText() ([]byte, error) { return []byte("<" + m.s + ">"), nil }

type named string

// values whose methods do not take part in the JSON encoding
type stringer struct {
	S string `json:"s"`
}

func (m stringer) String() string   { return `{"string":1}` }
func (m stringer) Error() string    { return `{"error":1}` }
func (m stringer) GoString() string { return `{"go":1}` }
func (m stringer) Bytes() []byte    { return []byte(`{"bytes":1}`) }
func (m stringer) JSON() string     { return `{"json":1}` }

func (m stringer) MarshalYAML() ([]byte, error)     { return []byte("yaml: 1"), nil }
func (m *stringer) Read(b []byte) (int, error)      { return copy(b, `{"read":1}`), io.EOF }
func (m *stringer) MarshalBinary() ([]byte, error)  { return []byte(`{"bin":1}`), nil }
func (m stringer) WriteTo(io.Writer) (int64, error) { return 0, nil }

type namedBytes []byte

type numbers int

func (n numbers) String() string { return "[1]" }

// permutation of n things by choices.
func permutation(name string, n int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	var r []int
	for len(left) > 0 {
		i := Choice(name+itoa(len(left)), len(left))
		r = append(r, left[i])
		left = append(left[:i:i], left[i+1:]...)
	}
	return r
}

func init() {
	alpha := func(lo, hi int, a, pre, post string) func() string {
		return func() string { return pre + SymAlpha("s", lo, hi, a) + post }
	}
	reg("c14_bytes", anyJSON(func() string { return SymString("s", 0, 2) })...)
	reg("c14_bytes3", anyJSON(func() string { return SymString("s", 3, 3) })...)
	reg("c14_bytes4", anyJSON(func() string { return SymString("s", 4, 4) })...)
	reg("c14_array", anyJSON(alpha(0, 6, "[]1, ", "", ""))...)
	reg("c14_object", anyJSON(alpha(0, 5, "{\"a:1,}", "{\"", ""))...)
	reg("c14_object7", anyJSON(alpha(6, 7, "{\"a:1,}", "{\"", ""))...)
	reg("c14_number", anyJSON(alpha(0, 4, "-+0.e1", "", ""))...)
	reg("c14_number6", anyJSON(alpha(5, 6, "-+0.e1", "", ""))...)
	reg("c14_string", anyJSON(func() string { return "[\"" + SymString("s", 0, 2) + "\"]" })...)
	reg("c14_string4", anyJSON(func() string { return "{\"" + SymString("s", 4, 4) + "\":[]}" })...)
	reg("c14_string3", anyJSON(func() string { return "[\"" + SymString("s", 3, 3) + "\"]" })...)
	reg("c14_escape", anyJSON(alpha(0, 5, "u0Dg\\\"", "[\"\\", "\"]"))...)
	// what other readers of JSON put up with
	lax := []string{"\ufeff", "\x00", "\u00a0", "\u2028", "\u200b", "\v", "\f", "\x1e", "\x1a", "\xff\xfe", "//c\n", "/*c*/", "#c\n", "<!--c-->", ")]}',\n", "\\n", "'", "`", "\"", ";", ",", ":", "=", "+", ".", "_", "0x1", "01", "1.", ".5", "+1", "1_0", "Infinity", "-Infinity", "NaN",
		"undefined", "True", "NULL", "nul", "{}", "1", "null", "\r\n", "\t", "data: ", "---\n", "\n...\n", "{a:1}", "{'a':1}", "{\"a\":1,}", "[1,]", "[,]", "['a']", "\"\t\"", "\"\\x41\"", "\"\\\n\"", "\"\\'\"", "1e", "1e+", "--1", "\"a", "[", "}", "(1)"}
	reg("c14_lax", anyJSON(func() string {
		x := lax[Choice("token", len(lax))]
		switch Choice("where", 9) {
		case 1:
			return x + "{}"
		case 2:
			return "{}" + x
		case 3:
			return "[1" + x + ",2]"
		case 4:
			return "[" + x + "]"
		case 5:
			return "{\"a\"" + x + ":1}"
		case 6:
			return "{" + x + "\"a\":1}"
		case 7:
			return " " + x + "\n[]"
		case 8:
			return "{\"a\":" + x + "}"
		}
		return x
	})...)
	reg("c14_literal", anyJSON(func() string {
		l := []string{"true", "false", "null", "\"a\"", "{}", "[]", "-0", "1e5"}[Choice("lit", 8)]
		i := Choice("at", len(l)+1)
		b := SymString("s", 0, 1)
		if Choice("ins", 2) == 1 && i < len(l) {
			return l[:i] + b + l[i+1:]
		}
		return l[:i] + b + l[i:]
	})...)
	docs := []string{
		`[` + strings.Repeat(`"word",`, 30) + `1]`, `[[],{},[[]],[{}],{"a":[]},{"a":{}}]`, `{"a":{"b":{"c":{"d":[{"e":[1,[2,[3,[4]]]]}]}}}}`,
		`[12345678901234567890123,1.0,1.50,1e400,-0,-0.0,1E+2,0.1e-7]`, `["\u0000\u001f\"\\\/\b\f\n\r\t\u2028é\ud83d\ude00\ud800"]`, `{"":1,"a":{"":{}}}`,
		`{"b":1,"a":2,"B":3,"A":4,"ab":5,"a b":6,"é":7,"10":8,"9":9,"a\"":10,"a\\":11}`, `{"a":1,"b":2,"a":3}`, `{"a":[{"z":1,"y":[{"x":1,"w":2}]}]}`,
		"\t{ \"a\" : [ 1 , 2 ] }\r\n", `"---"`, `["---","[TestA - 1]","/-/-/-/",""," "]`, `{"long":"` + strings.Repeat("x", 5000) + `"}`, `[` + strings.Repeat(`[`, 60) + strings.Repeat(`]`, 60) + `]`,
		`{"k":` + strings.Repeat(`{"k":`, 40) + `1` + strings.Repeat(`}`, 40) + `}`, `[` + strings.Repeat(`1,`, 200) + `1]`, `{"arr":["` + strings.Repeat("y", 100) + `",1]}`, "\"a\xffb\"", `{"a":1,"\u0061":2,"\u0061":3,"a":4}`, `{"b":0,"a":1,"d":0,"a":2,"e":0,"f":0,"a":3,"g":0,"h":0,"i":0,"j":0,"a":4,"k":0,"l":0,"m":0,"n":0,"o":0,"a":5,"p":0,"b":1,"q":[],"r":{},"s":0}`, `{"\"":1,"\\":2,"\/":3,"/":4}`, `"<>&"`, `{"<>&":"\u003c"}`,
	}
	reg("c14_docs", anyJSON(func() string {
		d := docs[Choice("doc", len(docs))]
		if Choice("wrap", 2) == 1 {
			d = `{"z":` + d + `,"a":[` + d + `]}`
		}
		return d
	})...)
	// the format options
	reg("c14_confdocs", anyJSON(func() string {
		d := docs[Choice("doc", len(docs))]
		return []string{d, `{"z":` + d + `,"a":[` + d + `]}`, `[` + d + `,1,"a",` + d + `]`}[Choice("wrap", 3)]
	}, format)...)
	reg("c14_confarray", anyJSON(alpha(0, 4, "[]1, ", "", ""), format)...)
	reg("c14_confobject", anyJSON(alpha(0, 5, "{\"a:1,}", "{\"", ""), format)...)
	reg("c14_confstring", anyJSON(func() string { return "{\"b" + SymString("s", 0, 1) + "\":[1,\"" + SymString("t", 0, 1) + "\"]}" }, format)...)
	// small documents next to long ones
	reg("c14_big", anyJSON(func() string {
		pad := []string{`"` + strings.Repeat("x", 500) + `"`, `"` + strings.Repeat("x", 5000) + `"`, `"` + strings.Repeat("x", 70000) + `"`, `[` + strings.Repeat(`{"k":1},`, 500) + `[]]`, strings.Repeat(" \n", 3000) + "1"}[Choice("pad", 5)]
		d := ""
		if Choice("kind", 2) == 0 {
			d = `["\\` + SymAlpha("s", 0, 3, "/\"nu\\") + `"]`
		} else {
			d = docs[2+Choice("doc", len(docs)-2)]
		}
		return `{"b":` + pad + `,"a":[` + d + `,1]}`
	})...)
	// insignificant white space
	tokens := []string{"{", `"b"`, ":", "[", "1", ",", `"x y"`, "]", ",", `"a"`, ":", "{", "}", "}"}
	space := func(max int) func() []any {
		return func() []any {
			i, j := Choice("i", len(tokens)+1), Choice("j", len(tokens)+1)
			Assume(i <= j)
			x, y := SymAlpha("x", 0, max, " \t\n\r"), SymAlpha("y", 0, 1, " \t\n\r")
			s := ""
			for k := 0; k <= len(tokens); k++ {
				if k == i {
					s += x
				}
				if k == j {
					s += y
				}
				if k < len(tokens) {
					s += tokens[k]
				}
			}
			return []any{strings.Join(tokens, ""), s, []byte(s)}
		}
	}
	reg("c14_space", sameStored(space(1))...)
	reg("c14_space2", sameStored(space(2))...)
	reg("c14_confspace", sameStored(space(1), func() []func(*snaps.Config) {
		return []func(*snaps.Config){snaps.JSON(snaps.JSONConfig{Width: []int{1, 80}[Choice("width", 2)], Indent: []string{"", "\t"}[Choice("width", 2)], SortKeys: Choice("sort", 2) == 1})}
	})...)
	reg("c14_bigspace", sameStored(func() []any {
		n := []int{500, 5000, 70000}[Choice("size", 3)]
		d := docs[2+Choice("doc", 8)]
		x := SymAlpha("x", 0, 1, " \t\n\r")
		a, b := `"`+strings.Repeat("x", n)+`"`, strings.Repeat(" ", n)
		return []any{
			`{"a":` + a + `,"b":` + d + `}`,
			b + `{` + x + `"b"` + b + `:` + x + d + `,` + b + `"a"` + x + `:` + a + `}` + x,
			[]byte(`{"b": ` + d + `, ` + x + `"a":` + a + b + `}` + x),
		}
	})...)
	// the order of members
	reg("c14_order", sameStored(func() []any {
		k := []string{word("k", 1), "m", "m" + word("l", 1)}
		Assume(k[0] != k[1])
		obj := func(p []int, inner string) string {
			m := []string{quote(k[0]) + ":1", quote(k[1]) + ":" + inner, quote(k[2]) + `:"x"`}
			r := ""
			for _, i := range p {
				r += "," + m[i]
			}
			return "{" + r[1:] + "}"
		}
		id := []int{0, 1, 2}
		return []any{obj(id, obj(id, "[]")), obj(permutation("p", 3), obj(permutation("q", 3), "[]"))}
	})...)
	reg("c14_conforder", sameStored(func() []any {
		m := []string{`"b":[1,2,"` + word("w", 1) + `"]`, `"a":[{"y":1,"x":2}]`, `"10":{}`}
		p := permutation("p", 3)
		r := ""
		for _, i := range p {
			r += "," + m[i]
		}
		return []any{"{" + strings.Join(m, ",") + "}", "{ " + r[1:] + "\n}"}
	}, func() []func(*snaps.Config) { return formatOf(true) })...)
	reg("c14_order4", sameStored(func() []any {
		m := []string{`"b":1`, `"a":[{"y":1,"x":2}]`, `"10":{}`, `"9":null`, `"B":"b"`}
		p := permutation("p", 5)
		r := ""
		for _, i := range p {
			r += "," + m[i]
		}
		return []any{"{" + strings.Join(m, ",") + "}", "{ " + r[1:] + "\n}", `{"9":null,"10":{},"B":"b","a":[{"x":2,"y":1}],"b":1}`}
	})...)
	// escaped keys sort consistently
	reg("c14_orderesc", sameStored(func() []any {
		keys := []string{`"a"`, `"\u0062"`, `"\"q"`, `"é"`, `"\u00e8"`, `""`, `"a\\"`, `"\n"`}
		i, j := Choice("i", len(keys)), Choice("j", len(keys))
		Assume(i < j)
		return []any{`{` + keys[i] + `:1,` + keys[j] + `:2}`, `{` + keys[j] + `:2,` + keys[i] + `:1}`}
	})...)
	// the three forms of one document
	forms := func(max int) func() []any {
		return func() []any {
			s := SymString("s", 0, max)
			for i := 0; i < len(s); i++ {
				Assume(s[i] < 0x80)
			}
			var v any
			switch Choice("v", 34) {
			case 26:
				v = json.RawMessage(nil)
			case 27:
				v = (*json.RawMessage)(nil)
			case 28:
				v = (*person)(nil)
			case 29:
				v = []any{map[string]int(nil), []string(nil), []byte(nil), []byte{}, json.RawMessage(nil), [0]int{}}
			case 30:
				v = map[string]any(nil)
			case 31:
				v = []string(nil)
			case 32:
				v = rawNamed("{" + s)
			case 33:
				v = map[string]json.RawMessage{"a": json.RawMessage(" [1 ,2]"), s: nil}
			case 14:
				v = stringer{s}
			case 15:
				v = &stringer{s}
			case 16:
				v = namedBytes(`{"a":"` + s + `"}`)
			case 17:
				v = numbers(len(s))
			case 18:
				v = named(`{"a":1}`)
			case 19:
				x := `{"a":"` + s + `"}`
				v = &x
			case 20:
				x := []byte(`{"a":1}` + s)
				v = &x
			case 21:
				v = []any{stringer{s}, numbers(3), map[string]any{s: stringer{}}, json.Number("1.50"), namedBytes(s)}
			case 22:
				v = []*person{nil, {Name: s, I: (*person)(nil)}}
			case 23:
				v = map[string]stringer{s: {s}}
			case 24:
				x := json.RawMessage("[ " + quote(s) + " ]")
				v = &x
			case 25:
				v = bytes.NewBufferString(s)
			case 0:
				v = map[string]any{"b": s, "a": []any{1, 2.5, nil, true, "x"}}
			case 1:
				v = person{Name: s, Tags: []string{"<", s}, Inner: &person{Age: 3}, B: []byte("bytes"), F: 1e21, I: map[string]int{"y": 1, "x": 2}}
			case 2:
				v = &person{Extra: map[string]any{s: 1, "zz": s}}
			case 3:
				v = []string{s, ""}
			case 4:
				v = map[int]string{10: s, 9: "nine"}
			case 5:
				v = json.RawMessage(` {"z": [1 ] ,` + "\n" + `"a":` + quote(s) + `}`)
			case 6:
				v = named(s)
			case 7:
				v = marshaler{`{"b":` + quote(s) + `,  "a":1}`}
			case 8:
				v = texter{s}
			case 9:
				v = []any{int8(-5), uint64(math.MaxUint64), float32(0.1), 1e-9, math.MaxFloat64}
			case 10:
				v = 42
			case 11:
				v = nil
			case 12:
				v = [2]bool{true, false}
			case 13:
				v = struct {
					person
					Z string `json:"z"`
				}{person{Name: s}, s}
			}
			enc, err := json.Marshal(v)
			Assume(err == nil)
			return []any{string(enc), enc, v}
		}
	}
	reg("c14_forms", sameStored(forms(1))...)
	reg("c14_confforms", sameStored(forms(0), format)...)
	reg("c14_forms2", sameStored(forms(2))...)
	// values that decoding and encoding again would change, in containers of all
	// kinds
	reg("c14_leaves", sameStored(func() []any {
		leaves := []any{
			int64(9007199254740993), uint64(math.MaxUint64), -int64(9007199254740993), 1e21, 1e20, float32(0.1), json.Number("1.0"), json.Number("-0"), json.Number("12345678901234567890"),
			json.Number("1E5"), json.RawMessage("1.50"), json.RawMessage(`"\u00e9\/"`), json.RawMessage(`{"b":1,"a":2,"b":3}`), "<&>\u2028", "\xff", []byte("x"), texter{"t"}, marshaler{`{"z":1e2,  "a":"\u003c"}`},
			map[string]any{"n": int64(9007199254740993)}, []any{int64(9007199254740993), json.RawMessage("10.0")}, named("n"), struct{}{}, [0]int{}, (*int)(nil),
		}
		x := leaves[Choice("leaf", len(leaves))]
		var v any
		switch Choice("in", 10) {
		case 0:
			switch x.(type) {
			case string, []byte:
				Unreachable() // these are JSON texts, not Go values
			}
			v = x
		case 1:
			v = map[string]any{"b": x, "a": 1}
		case 2:
			v = []any{x, x}
		case 3:
			v = &map[string]any{"k": x}
		case 4:
			v = struct{ A any }{x}
		case 5:
			v = map[string][]any{"l": {1, x}}
		case 6:
			v = &struct {
				B any `json:"b"`
				A any `json:"a,omitempty"`
			}{x, x}
		case 7:
			v = map[int]any{10: x, 9: x}
		case 8:
			v = []map[string]any{{"m": x}, nil}
		case 9:
			v = &x
		}
		enc, err := json.Marshal(v)
		Assume(err == nil)
		return []any{string(enc), enc, v}
	})...)
	// Go values that cannot be marshalled
	reg("c14_novalue", Phase{nil, func() {
		v := []any{make(chan int), func() {}, math.NaN(), math.Inf(1), marshaler{""}, marshaler{"{"}, map[string]any{"a": make(chan int)}, []any{complex(1, 2)}, map[bool]int{true: 1},
			json.RawMessage(""), json.RawMessage("{a:1}"), map[string]any{"a": json.RawMessage("1 2")}, json.Number("x")}[Choice("v", 13)]
		api := jsonAPI()
		_, has, t := recordJSON("s", api, v)
		Assert(len(t.Errors) == 1 && len(t.Logs) == 0 && !has && len(tree()) == 0, "a value that cannot be marshalled does not fail the test or writes")
	}})
	// invalid input between valid ones, in every mode
	reg("c14_slots", Phase{nil, func() {
		if Choice("state", 2) == 1 {
			c := fileConf("s")
			Test("TestA", func(t *T) { three(c, t, jsonAPI(), "1", "2", "3") })
		}
	}}, Phase{func() {
		if Choice("mode", 3) == 2 {
			Setenv("CI", "true")
		}
	}, func() {
		c := fileConf("s")
		if Choice("mode", 3) == 1 {
			c = fileConf("s", snaps.Update(true))
		}
		api := jsonAPI()
		state, mode := Choice("state", 2), Choice("mode", 3)
		bad := []string{"", "{", "{\"a\":1,}", "[1 2]", "tru", "\"\n\"", "1 1", "'a'", "{a:1}", "\x00"}[Choice("bad", 10)]
		Test("TestA", func(t *T) {
			do(c, t, api, "1")
			FSMark()
			e := len(t.Errors)
			l := len(t.Logs)
			do(c, t, api, bad)
			Assert(len(t.Errors) == e+1 && len(t.Logs) == l, "invalid JSON does not fail the test")
			Assert(FSTouched() == "", "invalid JSON writes")
			do(c, t, api, "3")
			if state == 1 {
				Assert(len(t.Errors) == e+1 && len(t.Logs) == l, "the call after one with invalid JSON does not address its slot")
			} else if mode != 2 {
				Assert(len(t.Logs) == l+1, "the call after one with invalid JSON does not store")
				if api == apiAloneJSON {
					Assert(files() == "s/f_1.snap.json s/f_3.snap.json", "the call after one with invalid JSON does not address its slot")
				} else {
					es, ok := parse(mustRead(path("s", "f.snap")))
					Assert(ok && len(es) == 2 && es[1].id == "TestA - 3", "the call after one with invalid JSON does not address its slot")
				}
			}
		})
	}})
}

func three(c *snaps.Config, t *T, api int, vs ...string) {
	for _, v := range vs {
		do(c, t, api, v)
	}
}
