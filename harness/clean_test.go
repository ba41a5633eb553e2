package zzverif

import (
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

// ---- reference model of Clean ----

type slotAt struct{ file, id string } // id is empty for a standalone file

// world: what a run addressed, and to whom the other items belong.
type world struct {
	dirs   []string
	multi  []string
	slots  []slotAt
	counts []countAt

	// belongs to a test that did not run for a legitimate reason
	protFile func(path string) bool
	protID   func(file, id string) bool
	known    func(path string) string // a known finding about the file
	may      bool                     // stale items need not be reported (-run)
	ci       bool
	removing bool

	lastItems []string
}

type countAt struct {
	file, test string
	n          int
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (w *world) addressed(file, id string) bool {
	for _, s := range w.slots {
		if s.file == file && s.id == id {
			return true
		}
	}
	return false
}

// end of an execution of a test
func (w *world) end(test string) {
	for i := range w.counts {
		if w.counts[i].test == test {
			w.counts[i].n = 0
		}
	}
}

func (w *world) next(file, test string) int {
	for i := range w.counts {
		if w.counts[i].file == file && w.counts[i].test == test {
			w.counts[i].n++
			return w.counts[i].n
		}
	}
	w.counts = append(w.counts, countAt{file, test, 1})
	return 1
}

// kinds of places a call stores to
const (
	kShared       = iota // s/f.snap
	kOwn                 // s/<test>.snap
	kAlone               // s/<test>_k.snap
	kJSON                // s/<test>_k.snap.json
	kOther               // s2/f.snap
	kExt                 // s/f.snap.txt
	kInner               // s/in/f.snap
	kCustom              // s/c<test>_k.snap, standalone with a Filename
	kAlone2              // s2/<test>_k.snap
	kUnclean             // s/f.snap, Dir spelled in another way, MatchYAML
	kUncleanAlone        // s2/<test>_k.snap, the same
	numKinds
	kOdd      // s%d[a] b/f%s*.snap
	kOddAlone // s%d[a] b/c%v_k.snap.%dx, standalone
)

func flat(test string) string { return strings.ReplaceAll(test, "/", "_") }

func kindDir(kind int) string {
	switch kind {
	case kOther, kAlone2, kUncleanAlone:
		return path("s2")
	case kInner:
		return path("s", "in")
	case kOdd, kOddAlone:
		return path("s%d[a] b")
	}
	return path("s")
}

// place is the location model of one call (C11 decides it for the library).
func place(kind int, test string, k int) (file, id string) {
	d := kindDir(kind) + "/"
	n := strconv.Itoa(k)
	switch kind {
	case kShared, kOther, kInner, kUnclean:
		return d + "f.snap", test + " - " + n
	case kOwn:
		return d + "o" + flat(test) + ".snap", test + " - " + n
	case kExt:
		return d + "f.snap.txt", test + " - " + n
	case kAlone, kAlone2, kUncleanAlone:
		return d + flat(test) + "_" + n + ".snap", ""
	case kJSON:
		return d + flat(test) + "_" + n + ".snap.json", ""
	case kCustom:
		return d + "c" + flat(test) + "_" + n + ".snap", ""
	case kOdd:
		return d + "f%s*.snap", test + " - " + n
	case kOddAlone:
		return d + "c%v" + flat(test) + "_" + n + ".snap.%dx", ""
	}
	return "", ""
}

func isAlone(kind int) bool {
	return kind == kAlone || kind == kAlone2 || kind == kUncleanAlone || kind == kJSON || kind == kCustom || kind == kOddAlone
}

func kindCall(kind int, t *T, v string) {
	d := snaps.Dir(kindDir(kind))
	switch kind {
	case kShared, kOther, kInner:
		snaps.WithConfig(d, snaps.Filename("f")).MatchSnapshot(t, v)
	case kOwn:
		snaps.WithConfig(d, snaps.Filename("o"+flat(t.Name()))).MatchSnapshot(t, v)
	case kExt:
		snaps.WithConfig(d, snaps.Filename("f"), snaps.Ext(".txt")).MatchSnapshot(t, v)
	case kUnclean:
		snaps.WithConfig(snaps.Dir(path("s")+"//x/.././"), snaps.Filename("f")).MatchYAML(t, v)
	case kUncleanAlone:
		snaps.WithConfig(snaps.Dir(path("s2")+"/")).MatchStandaloneSnapshot(t, v)
	case kAlone, kAlone2:
		snaps.WithConfig(d).MatchStandaloneSnapshot(t, v)
	case kJSON:
		snaps.WithConfig(d).MatchStandaloneJSON(t, strconv.Quote(v))
	case kCustom:
		snaps.WithConfig(d, snaps.Filename("c"+flat(t.Name()))).MatchStandaloneSnapshot(t, v)
	case kOdd:
		snaps.WithConfig(d, snaps.Filename("f%s*")).MatchSnapshot(t, v)
	case kOddAlone:
		snaps.WithConfig(d, snaps.Filename("c%v"+flat(t.Name())), snaps.Ext(".%dx")).MatchStandaloneSnapshot(t, v)
	}
}

// call performs one call and notes what it addresses.
func (w *world) call(kind int, t *T, v string) {
	counter, _ := place(kind, t.Name(), 0)
	k := w.next(counter, t.Name())
	file, id := place(kind, t.Name(), k)
	w.address(file, id)
	kindCall(kind, t, v)
}

func (w *world) address(file, id string) {
	w.slots = append(w.slots, slotAt{file, id})
	if d := file[:strings.LastIndex(file, "/")]; !has(w.dirs, d) {
		w.dirs = append(w.dirs, d)
	}
	if id != "" && !has(w.multi, file) {
		w.multi = append(w.multi, file)
	}
}

// natLess: natural order, numbers by value and everything else by bytes.
func natLess(a, b string) bool {
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	num := func(s string) (string, string) {
		i := 0
		for i < len(s) && digit(s[i]) {
			i++
		}
		d := s[:i]
		for len(d) > 1 && d[0] == '0' {
			d = d[1:]
		}
		return d, s[i:]
	}
	for a != "" && b != "" {
		if digit(a[0]) && digit(b[0]) {
			x, ra := num(a)
			y, rb := num(b)
			if len(x) != len(y) {
				return len(x) < len(y)
			}
			if x != y {
				return x < y
			}
			a, b = ra, rb
			continue
		}
		if a[0] != b[0] {
			return a[0] < b[0]
		}
		a, b = a[1:], b[1:]
	}
	return a == "" && b != ""
}

func natSorted(es []entry) bool {
	for i := 1; i < len(es); i++ {
		if natLess(es[i].id, es[i-1].id) {
			return false
		}
	}
	return true
}

// natSort sorts a copy; entries with the same id keep their order.
func natSort(es []entry) []entry {
	r := append([]entry(nil), es...)
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && natLess(r[j].id, r[j-1].id); j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

// tied: different ids have the same rank.
func tied(es []entry) bool {
	for i := range es {
		for j := range es[:i] {
			if es[i].id != es[j].id && !natLess(es[i].id, es[j].id) && !natLess(es[j].id, es[i].id) {
				return true
			}
		}
	}
	return false
}

// byRank sorts by id and body, to compare as sets.
func byRank(es []entry) []entry {
	r := append([]entry(nil), es...)
	less := func(a, b entry) bool { return a.id < b.id || a.id == b.id && a.body < b.body }
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && less(r[j], r[j-1]); j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func sameEntries(a, b []entry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func render(es []entry) string {
	s := ""
	for _, e := range es {
		s += "\n[" + e.id + "]\n" + e.body + "\n---\n"
	}
	return s
}

func dirName(p string) string  { return p[:strings.LastIndex(p, "/")] }
func baseName(p string) string { return p[strings.LastIndex(p, "/")+1:] }

// clean runs Clean and compares what it reports and does with the model.
func (w *world) clean(sort bool) {
	root := path("")
	names := treeOf(root)
	before := make([]string, len(names))
	for i, n := range names {
		before[i] = mustRead(root + "/" + n)
	}
	FSMark()
	var o []snaps.CleanOpts
	if sort {
		o = append(o, snaps.CleanOpts{Sort: true})
	}
	out := clean(o...)
	touched := strings.Split(FSTouched(), "\n")
	r := summaryOf(out)
	items := append([]string(nil), r.items...)
	w.lastItems = append([]string(nil), r.items...)
	listed := func(s string) bool {
		for i, x := range items {
			if x == s {
				items = append(items[:i], items[i+1:]...)
				return true
			}
		}
		return false
	}
	var changed []string
	nf, nt := 0, 0
	for i, n := range names {
		p := root + "/" + n
		now, there := readFile(p)
		d, base := dirName(p), baseName(p)
		switch {
		case !has(w.dirs, d) || !strings.Contains(base, ".snap"):
			Assert(there && now == before[i], "Clean touches an unrelated file")
			Assert(!listed(p), "Clean lists an unrelated file")
		case has(w.multi, p):
			es, ok := parse(before[i])
			Assert(ok, "the snapshot file is malformed")
			var kept []entry
			for _, e := range es {
				if w.addressed(p, e.id) {
					kept = append(kept, e)
					continue
				}
				if w.protID != nil && w.protID(p, e.id) {
					kept = append(kept, e)
					continue
				}
				stale := listed(e.id)
				Assert(stale || w.may, "Clean does not report a stale entry")
				if stale {
					nt++
				}
				if !stale || !w.removing {
					kept = append(kept, e)
				}
			}
			if sort && !w.ci {
				if tied(kept) {
					// several orders are natural ones
					got, ok := parse(now)
					Assert(there && ok && natSorted(got) && sameEntries(byRank(got), byRank(kept)), "Clean does not keep the entries it should, in the order it should")
					changed = append(changed, "~"+n)
					continue
				}
				kept = natSort(kept)
			}
			Assert(there, "Clean removes a file a test addressed")
			if sameEntries(kept, es) {
				Assert(now == before[i], "Clean changes a file that needs no change")
				continue
			}
			changed = append(changed, "~"+n)
			got, ok := parse(now)
			Assert(ok, "Clean leaves a malformed file")
			Assert(sameEntries(got, kept), "Clean does not keep the entries it should, in the order it should")
		case w.addressed(p, ""):
			Assert(there && now == before[i], "Clean touches a standalone file a test addressed")
		case w.protFile != nil && w.protFile(p):
			l := listed(p)
			if w.known != nil && w.known(p) != "" {
				AssertKnown(!l && there && now == before[i], "Clean lists a file of a test that did not run", w.known(p), true)
			}
			Assert(there && now == before[i], "Clean touches a file of a test that did not run")
			Assert(!l, "Clean lists a file of a test that did not run")
		default:
			stale := listed(p)
			Assert(stale || w.may, "Clean does not report a stale file")
			if stale {
				nf++
			}
			if stale && w.removing {
				Assert(!there, "Clean does not remove a stale file")
				changed = append(changed, "-"+n)
			} else {
				Assert(there && now == before[i], "Clean touches a file it does not report or should not remove")
			}
		}
	}
	Assert(len(items) == 0, "Clean lists something that is not stale")
	Assert(r.files == nf && r.tests == nt, "the numbers of obsolete items are wrong")
	Assert(nf+nt == 0 || (r.verb == "removed") == w.removing, "the summary does not say whether items were removed")
	for _, t := range touched {
		Assert(t == "" || has(changed, t), "Clean touches something else")
	}
	Assert(len(treeOf(root)) <= len(names), "Clean creates files")
}

// twice runs Clean and then Clean again, which must change nothing.
func (w *world) twice(sort bool) {
	w.clean(sort)
	first := w.lastItems
	if w.removing {
		first = nil
	}
	FSMark()
	w.clean(sort)
	Assert(FSTouched() == "", "a second Clean changes something")
	Assert(len(w.lastItems) == len(first), "a second Clean reports something else")
}

// modes: how Clean is asked to behave.
const numModes = 7

func modeOfClean(i int) (update string, ci, sort bool) {
	switch i {
	case 0:
		return "", false, false
	case 1:
		return "clean", false, false
	case 2:
		return "", false, true
	case 3:
		return "clean", false, true
	case 4:
		return "true", false, true
	case 5:
		return "clean", true, true
	}
	return "false", false, true
}

func cleanModeEnv() {
	u, ci, _ := modeOfClean(Choice("mode", numModes))
	if u != "" {
		Setenv("UPDATE_SNAPS", u)
	}
	if ci {
		Setenv("CI", "true")
	}
	Setenv("NO_COLOR", "1")
}

func newWorld() (*world, bool) {
	u, ci, sort := modeOfClean(Choice("mode", numModes))
	return &world{ci: ci, removing: !ci && (u == "true" || u == "clean")}, sort
}
