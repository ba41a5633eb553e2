package zzverif

import (
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/internal/difflib"
	"github.com/gkampitakis/go-snaps/snaps"
)

func noColour() { Setenv("NO_COLOR", "1") }

// trailingInt is the number after the last space of s.
func trailingInt(s string) int {
	n, err := strconv.Atoi(s[strings.LastIndexByte(s, ' ')+1:])
	if err != nil {
		return -1
	}
	return n
}

type hunk struct {
	ranged       bool
	s1, l1       int
	s2, l2       int
	kind         []byte
	text         []string
	olds, news   []string
	nDel, nIns   int
	malformedMsg string
}

// parseRange: "5,3" or "5" (length 1), as start (0-based) and length.
func parseRange(s string) (int, int) {
	i := strings.IndexByte(s, ',')
	if i < 0 {
		n, _ := strconv.Atoi(s)
		return n - 1, 1
	}
	n, _ := strconv.Atoi(s[:i])
	l, _ := strconv.Atoi(s[i+1:])
	if l > 0 {
		n--
	}
	return n, l
}

// checkReport decides C13's report clauses for stored text a and received text b.
func checkReport(rep, a, b string) {
	ls := strings.Split(rep, "\n")
	Assert(len(ls) >= 7 && ls[0] == "" && strings.HasPrefix(ls[1], "- Snapshot ") && strings.HasPrefix(ls[2], "+ Received ") && ls[3] == "", "the report has no header")
	n := len(ls)
	Assert(ls[n-1] == "" && strings.HasPrefix(ls[n-2], "at ") && ls[n-3] == "", "the report has no footer")
	del, ins := trailingInt(ls[1]), trailingInt(ls[2])
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	var hs []hunk
	body := ls[4 : n-3]
	for i := 0; i < len(body); i++ {
		l := body[i]
		if len(l) >= 2 && l[:2] == "@@" && len(al)+len(bl) > 11 {
			f := strings.Split(l, " ")
			Assert(len(f) == 4 && f[3] == "@@" && i+1 < len(body) && body[i+1] == "", "malformed range line")
			h := hunk{ranged: true}
			h.s1, h.l1 = parseRange(f[1][1:])
			h.s2, h.l2 = parseRange(f[2][1:])
			hs = append(hs, h)
			i++
			continue
		}
		if len(hs) == 0 {
			hs = append(hs, hunk{})
		}
		h := &hs[len(hs)-1]
		Assert(len(l) >= 2 && l[1] == ' ' && (l[0] == '-' || l[0] == '+' || l[0] == ' '), "a report line has no prefix")
		switch l[0] {
		case '-':
			h.olds = append(h.olds, l[2:])
			h.nDel++
		case '+':
			h.news = append(h.news, l[2:])
			h.nIns++
		}
		h.kind = append(h.kind, l[0])
		h.text = append(h.text, l[2:])
	}
	var dels, inss []string
	for _, h := range hs {
		dels = append(dels, h.olds...)
		inss = append(inss, h.news...)
	}
	Assert(del == len(dels), "the header does not count the - lines")
	Assert(ins == len(inss), "the header does not count the + lines")
	Assert(del+ins > 0, "a report without any changed line")
	if len(hs) > 0 && hs[0].ranged {
		// exact: every hunk lies where it says and everything outside is equal
		i, j := 0, 0
		for _, h := range hs {
			Assert(h.s1 >= i && h.s2 >= j && h.s1-i == h.s2-j && h.s1+h.l1 <= len(al) && h.s2+h.l2 <= len(bl), "hunk ranges do not fit the texts")
			for ; i < h.s1; i, j = i+1, j+1 {
				Assert(al[i] == bl[j], "a changed line is omitted")
			}
			for k, t := range h.text {
				switch h.kind[k] {
				case '-':
					Assert(i < len(al) && al[i] == t, "a - line is not the line of the stored text")
					i++
				case '+':
					Assert(j < len(bl) && bl[j] == t, "a + line is not the line of the received text")
					j++
				default:
					Assert(i < len(al) && j < len(bl) && al[i] == bl[j] && (al[i] == t || al[i] == "" && t == "↵"), "a context line is not a line of both texts")
					i, j = i+1, j+1
				}
			}
			Assert(i == h.s1+h.l1 && j == h.s2+h.l2, "a hunk does not cover its range")
		}
		Assert(len(al)-i == len(bl)-j, "a changed line is omitted")
		for ; i < len(al); i, j = i+1, j+1 {
			Assert(al[i] == bl[j], "a changed line is omitted")
		}
		return
	}
	Assert(removable(al, bl, dels, inss), "the - and + lines do not turn the stored text into the received text")
}

// removable: taking d out of a and i out of b (in order) leaves the same lines.
func removable(a, b, d, i []string) bool {
	if len(a)-len(d) != len(b)-len(i) {
		return false
	}
	// dead[x][y][z]: no solution from a[x:], b[y:], d[z:]
	type st struct{ x, y, z int }
	dead := map[st]bool{}
	var rec func(x, y, z int) bool
	rec = func(x, y, z int) bool {
		w := y - (x - z) // inserted so far
		if x == len(a) && y == len(b) {
			return z == len(d) && w == len(i)
		}
		if dead[st{x, y, z}] {
			return false
		}
		if z < len(d) && x < len(a) && a[x] == d[z] && rec(x+1, y, z+1) {
			return true
		}
		if w < len(i) && y < len(b) && b[y] == i[w] && rec(x, y+1, z) {
			return true
		}
		if x < len(a) && y < len(b) && a[x] == b[y] && rec(x+1, y+1, z) {
			return true
		}
		dead[st{x, y, z}] = true
		return false
	}
	return rec(0, 0, 0)
}

// report compares stored text a with received text b through a standalone snapshot.
func report(a, b string) {
	Assume(fmtText(b) == b)
	writeFile(path("s", "TestA_1.snap"), a)
	t := Test("TestA", func(t *T) { snaps.WithConfig(snaps.Dir(path("s"))).MatchStandaloneSnapshot(t, b) })
	if len(t.Errors) == 0 {
		Assert(a == b, "the report of different texts is empty")
		Assert(t.quiet(), "identical texts are reported")
		return
	}
	Assert(a != b, "identical texts are reported")
	Assert(len(t.Errors) == 1, "more than one error")
	Observe("report", t.Errors[0])
	checkReport(t.Errors[0], a, b)
}

func init() {
	rep := func(env func(), a, b func() string) []Phase {
		return []Phase{{env, func() { report(a(), b()) }}}
	}
	al := func(n string, lo, hi int, alpha string) func() string {
		return func() string { return SymAlpha(n, lo, hi, alpha) }
	}
	reg("c13_text", rep(noColour, al("a", 0, 3, "\nab"), al("b", 0, 3, "\nab"))...)
	reg("c13_text4", rep(noColour, al("a", 0, 4, "\n-a"), al("b", 0, 4, "\n-a"))...)
	reg("c13_signs", rep(noColour, al("a", 0, 3, "\n-+@ "), al("b", 0, 3, "\n-+@ "))...)
	// lines of one letter out of three
	oneLetter := func(name string, lo, hi int) func() string {
		return func() string {
			n := lo
			if hi > lo {
				n += Choice(name+"#n", hi-lo+1)
			}
			ls := make([]string, n)
			for i := range ls {
				ls[i] = alphaN(name+strconv.Itoa(i), 1, "xyz")
			}
			return strings.Join(ls, "\n")
		}
	}
	reg("c13_lines", rep(noColour, oneLetter("a", 1, 3), oneLetter("b", 1, 4))...)
	reg("c13_lines5", rep(noColour, oneLetter("a", 3, 5), oneLetter("b", 3, 5))...)
	// arbitrary bytes in a few contexts, escape sequences included
	ctx := []string{"", "\x1b[0m", "l\nm\n", "é"}
	one := func(n string) func() string {
		return func() string {
			return ctx[Choice("pre", 4)] + string(SymBytes(n, 1)) + ctx[Choice("post", 4)]
		}
	}
	reg("c13_bytes", rep(noColour, one("a"), one("b"))...)
	two := func(n string) func() string {
		return func() string { return SymString(n, 0, 2) }
	}
	reg("c13_bytes2", rep(noColour, two("a"), two("b"))...)
	// with colours: empty exactly for identical texts
	reg("c13_colour", Phase{nil, func() {
		a, b := SymString("a", 0, 2), SymString("b", 0, 1)
		if Choice("ctx", 2) == 1 {
			a, b = "x\n"+a, "x\n"+b
		}
		Assume(fmtText(b) == b)
		writeFile(path("s", "TestA_1.snap"), a)
		t := Test("TestA", func(t *T) { snaps.WithConfig(snaps.Dir(path("s"))).MatchStandaloneSnapshot(t, b) })
		Assert((len(t.Errors) == 0) == (a == b), "empty report for different texts or a report for identical ones")
	}})
	// texts of more than ten lines: several hunks with ranges; k edits at chosen places
	edit := func(total, k int, distinct bool) []Phase {
		return []Phase{{noColour, func() {
			var ls []string
			for i := 0; i < total; i++ {
				s := "line" + strconv.Itoa(i)
				if !distinct && i%3 != 0 {
					s = []string{"", "same"}[i%2]
				}
				ls = append(ls, s)
			}
			a := strings.Join(ls, "\n")
			at := 0
			for e := 0; e < k; e++ {
				n := strconv.Itoa(e)
				at += Choice("skip"+n, total/k)
				if at >= len(ls) {
					at = len(ls) - 1
				}
				w := alphaN("w"+n, 1, "lsx")
				switch Choice("kind"+n, 4) {
				case 0: // change
					ls[at] = w
				case 1: // insert
					ls = append(ls[:at], append([]string{w}, ls[at:]...)...)
				case 2: // delete
					ls = append(ls[:at], ls[at+1:]...)
				case 3: // duplicate
					ls = append(ls[:at], append([]string{ls[at]}, ls[at:]...)...)
				}
				at++
			}
			if Choice("dir", 2) == 1 {
				report(strings.Join(ls, "\n"), a)
			} else {
				report(a, strings.Join(ls, "\n"))
			}
		}}}
	}
	reg("c13_hunks", edit(16, 2, true)...)
	reg("c13_hunks12", edit(12, 2, false)...)
	reg("c13_hunks3", edit(24, 3, false)...)
	// 200 and more lines: popular lines
	reg("c13_popular", Phase{noColour, func() {
		n := []int{199, 200, 203, 301}[Choice("n", 4)]
		var ls []string
		for i := 0; i < n; i++ {
			s := "pop"
			if i%41 == 3 {
				s = "u" + strconv.Itoa(i)
			}
			ls = append(ls, s)
		}
		m := append([]string(nil), ls...)
		m[[]int{0, 100, 3, n - 1}[Choice("at", 4)]] = alphaN("w", 1, "px") + "op"
		if Choice("cut", 3) > 0 {
			i := []int{0, 50, 120}[Choice("cut", 3)]
			m = append(m[:i], m[i+Choice("cut", 3):]...)
		}
		if Choice("dir", 2) == 1 {
			ls, m = m, ls
		}
		report(strings.Join(ls, "\n"), strings.Join(m, "\n"))
	}})
	// the header's padding for counts of different widths
	reg("c13_counts", Phase{noColour, func() {
		da, db := []int{0, 1, 9, 10, 11, 100}[Choice("a", 6)], []int{0, 1, 9, 10, 11, 100}[Choice("b", 6)]
		var a, b []string
		for i := 0; i < da; i++ {
			a = append(a, "a"+strconv.Itoa(i))
		}
		for i := 0; i < db; i++ {
			b = append(b, "b"+strconv.Itoa(i))
		}
		t := alphaN("t", 1, "xy")
		report(strings.Join(append(a, t), "\n"), strings.Join(append(b, "x"), "\n"))
	}})
	// multi entry snapshots: the report shows the text as it was given, not as it is stored
	reg("c13_snap", Phase{noColour, func() {
		a := escText("a")
		t := Test("TestA", func(t *T) { cfgF().MatchSnapshot(t, a) })
		Assume(len(t.Errors) == 0)
	}}, Phase{noColour, func() {
		a, b := escText("a"), escText("b")
		t := Test("TestA", func(t *T) { cfgF().MatchSnapshot(t, b) })
		Assert((len(t.Errors) == 0) == (a == b), "empty report for different texts or a report for identical ones")
		if a != b {
			checkReport(t.Errors[0], a, b)
		}
	}})
	// the document APIs: stored text against received text, in this order
	for _, api := range []int{apiJSON, apiYAML, apiAloneJSON} {
		doc := func(n string) string {
			w := word(n, 1)
			form := Choice(n+"#form", 6)
			if api == apiYAML {
				switch form {
				case 0:
					return "a: 1\nb: " + w + "\n"
				case 1:
					return "a: 1\nb: " + w
				case 2:
					return "# " + w + "\na: 1\n---\nb: 2\n"
				case 3:
					return "a: 1\nb: x\nc:\n- " + w + "\n- y\n"
				case 4:
					return "l:\n" + strings.Repeat("- 1\n", 12) + "z: " + w + "\n"
				}
				return w
			}
			switch form {
			case 0:
				return `{"a":1,"b":"` + w + `"}`
			case 1:
				return `{"b":"` + w + `","c":[{"x":1},{"y":"x"}]}`
			case 2:
				return `["x","` + w + `"]`
			case 3:
				return `{"` + w + `":1,"n":{}}`
			case 4:
				return "[" + strings.Repeat("1,", 12) + `"` + w + `"]`
			}
			return `"` + w + `"`
		}
		var texts [2]string
		reg("c13_api"+strconv.Itoa(api), Phase{noColour, func() {
			a := doc("a")
			t := Test("TestA", func(t *T) { do(cfgF(), t, api, a) })
			Assume(len(t.Errors) == 0)
			if api != apiYAML {
				for i, d := range []string{a, doc("b")} {
					Test("TestT", func(t *T) {
						snaps.WithConfig(snaps.Dir(path("t"+strconv.Itoa(i)))).MatchStandaloneJSON(t, d)
					})
				}
			}
		}}, Phase{noColour, func() {
			texts = [2]string{doc("a"), doc("b")}
			if api != apiYAML {
				for i := range texts {
					texts[i] = mustRead(path("t"+strconv.Itoa(i), "TestT_1.snap.json"))
				}
			}
			t := Test("TestA", func(t *T) { do(cfgF(), t, api, doc("b")) })
			Assert((len(t.Errors) == 0) == (texts[0] == texts[1]), "empty report for different texts or a report for identical ones")
			if texts[0] != texts[1] {
				checkReport(t.Errors[0], texts[0], texts[1])
			}
		}})
	}
	// the edit script itself
	script := func(na, nb int, letters string, popular bool) []Phase {
		return []Phase{{nil, func() {
			mk := func(n string, max int) []string {
				ls := make([]string, Choice(n+"#n", max+1))
				for i := range ls {
					ls[i] = alphaN(n+strconv.Itoa(i), 1, letters)
				}
				if popular {
					for i := 0; i < 205; i++ {
						ls = append(ls, []string{"x", "p" + strconv.Itoa(i)}[i%2])
					}
				}
				return ls
			}
			a, b := mk("a", na), mk("b", nb)
			Assume(len(a)+len(b) > 0)
			checkScript(a, b)
		}}}
	}
	reg("c13_script", script(3, 4, "xyz", false)...)
	reg("c13_script5", script(5, 5, "xy", false)...)
	reg("c13_scriptpop", script(2, 2, "xy", true)...)
	// long runs of equal lines between changes: grouping
	reg("c13_group", Phase{nil, func() {
		var a, b []string
		for i := 0; i < 3; i++ {
			k := strconv.Itoa(i)
			for j := 0; j < Choice("run"+k, 9); j++ {
				a, b = append(a, "e"), append(b, "e")
			}
			switch Choice("op"+k, 3) {
			case 0:
				a = append(a, "d"+k)
			case 1:
				b = append(b, "i"+k)
			}
		}
		Assume(len(a)+len(b) > 0)
		checkScript(a, b)
	}})
}

func escText(n string) string {
	return []string{"", "x\n"}[Choice("pre", 2)] + alphaN(n, []int{0, 3, 7}[Choice(n+"#n", 3)], "-/") + []string{"", "\ny"}[Choice("post", 2)]
}

// checkScript checks the edit script difflib computes for two lists of lines.
func checkScript(a, b []string) {
	same := len(a) == len(b)
	for i := 0; same && i < len(a); i++ {
		same = a[i] == b[i]
	}
	// with unlimited context the script tiles both lists
	i, j := 0, 0
	var out []string
	changed := false
	for _, g := range difflib.NewMatcher(a, b).GetGroupedOpCodes(1 << 30) {
		for _, c := range g {
			Assert(c.I1 == i && c.J1 == j && c.I2 >= i && c.J2 >= j && c.I2 <= len(a) && c.J2 <= len(b), "the script does not tile the texts")
			i, j = c.I2, c.J2
			switch c.Tag {
			case difflib.OpEqual:
				Assert(c.I2-c.I1 == c.J2-c.J1, "an equal range has different lengths")
				for k := 0; k < c.I2-c.I1; k++ {
					Assert(a[c.I1+k] == b[c.J1+k], "different lines are marked as equal")
				}
				out = append(out, a[c.I1:c.I2]...)
			case difflib.OpDelete:
				Assert(c.I2 > c.I1 && c.J1 == c.J2, "malformed deletion")
				changed = true
			case difflib.OpInsert:
				Assert(c.J2 > c.J1 && c.I1 == c.I2, "malformed insertion")
				out = append(out, b[c.J1:c.J2]...)
				changed = true
			case difflib.OpReplace:
				Assert(c.I2 > c.I1 && c.J2 > c.J1, "malformed replacement")
				out = append(out, b[c.J1:c.J2]...)
				changed = true
			default:
				Assert(false, "unknown operation")
			}
		}
	}
	if changed || !same {
		Assert(i == len(a) && j == len(b), "the script does not tile the texts")
		Assert(len(out) == len(b), "the script does not turn the first text into the second")
		for k := range out {
			Assert(out[k] == b[k], "the script does not turn the first text into the second")
		}
		Assert(changed == !same, "the script of different texts has no change, or that of identical ones has")
	}
	// with limited context nothing changed is omitted
	for _, n := range []int{0, 1, 3} {
		i, j := 0, 0
		for _, g := range difflib.NewMatcher(a, b).GetGroupedOpCodes(n) {
			for x, c := range g {
				if x == 0 {
					Assert(c.I1 >= i && c.I1-i == c.J1-j, "hunks do not advance in both texts alike")
					for ; i < c.I1; i, j = i+1, j+1 {
						Assert(a[i] == b[j], "a hunk omits a changed line")
					}
				}
				Assert(c.I1 == i && c.J1 == j, "a hunk is not contiguous")
				if c.Tag == difflib.OpEqual && !same {
					for k := 0; k < c.I2-c.I1; k++ {
						Assert(a[c.I1+k] == b[c.J1+k], "different lines are marked as equal")
					}
				}
				i, j = c.I2, c.J2
			}
		}
		if !same {
			Assert(len(a)-i == len(b)-j, "hunks omit a changed line")
			for ; i < len(a); i, j = i+1, j+1 {
				Assert(a[i] == b[j], "hunks omit a changed line")
			}
		}
	}
}

func init() {
	// long lines: two symbolic characters after n equal ones, another text behind
	reg("c13_long", Phase{noColour, func() {
		n := []int{60, 130, 260, 520, 1030, 5000, 66000}[Choice("n", 7)]
		x := strings.Repeat("x", n)
		ctx := Choice("ctx", 3)
		mk := func(name string) string {
			l := []string{x + alphaN(name, 2, "xy"), alphaN(name, 2, "xy") + x, x + alphaN(name, 2, "xy") + x}[Choice("where", 3)]
			return []string{l, "a\n" + l + "\nb", "a\n" + l + "\n" + x + "\nb\nc\nd\ne\nf\ng\nh\ni\nj"}[ctx]
		}
		report(mk("a"), mk("b"))
	}})
	// any subset of eight places changes, dist lines apart
	reg("c13_places", Phase{noColour, func() {
		dist := []int{4, 7, 9}[Choice("dist", 3)]
		var a, b []string
		for i := 0; i < 8; i++ {
			n := strconv.Itoa(i)
			for j := 0; j < dist; j++ {
				a, b = append(a, n+"-"+strconv.Itoa(j)), append(b, n+"-"+strconv.Itoa(j))
			}
			if SymBool("at" + n) {
				switch i % 3 {
				case 0:
					a, b = append(a, "old"+n), append(b, "new"+n)
				case 1:
					a = append(a, "old"+n)
				case 2:
					b = append(b, "new"+n)
				}
			}
		}
		report(strings.Join(a, "\n"), strings.Join(b, "\n"))
	}})
	// many hunks
	reg("c13_many", Phase{noColour, func() {
		n := []int{5, 10, 20, 50}[Choice("n", 4)]
		var a, b []string
		skip := Choice("skip", 3)
		for i := 0; i < n; i++ {
			for j := 0; j < 8; j++ {
				l := "l" + strconv.Itoa(i*10+j)
				a, b = append(a, l), append(b, l)
			}
			k := strconv.Itoa(i)
			switch {
			case i%5 == skip+2:
				a = append(a, "gone", "gone too")
			case i%3 == skip:
				b = append(b, "new "+k, "")
			case i == n-1:
				a, b = append(a, alphaN("a", 1, "ab")), append(b, alphaN("b", 1, "ab"))
			default:
				a, b = append(a, "", "x"+k), append(b, "y"+k)
			}
		}
		report(strings.Join(a, "\n"), strings.Join(b, "\n"))
	}})
}
