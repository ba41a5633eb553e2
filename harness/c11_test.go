package zzverif

import (
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zzverif/deep/er"
)

// where is the reference for the location: dir and base describe the test file.
func where(testDir, testBase, test string, api, k int, dir, fn, ext string) string {
	d := testDir + "/__snapshots__"
	if dir != "" {
		d = dir
		if dir[0] != '/' {
			d = testDir + "/" + dir
		}
	}
	name := testBase
	if api >= apiAlone {
		name = strings.ReplaceAll(test, "/", "_")
	}
	if fn != "" {
		name = fn
	}
	if api == apiAloneJSON && ext == "" {
		ext = ".json"
	}
	if api >= apiAlone {
		name += "_" + strconv.Itoa(k)
	}
	return filepath.Clean(d + "/" + name + ".snap" + ext)
}

func opts(dir, fn, ext string) *snaps.Config {
	var o []func(*snaps.Config)
	if dir != "" {
		o = append(o, snaps.Dir(dir))
	}
	if fn != "" {
		o = append(o, snaps.Filename(fn))
	}
	if ext != "" {
		o = append(o, snaps.Ext(ext))
	}
	if o == nil {
		return nil
	}
	return snaps.WithConfig(o...)
}

// valueOf: a value for the k-th call, and what is stored for it.
func valueOf(api, k int) (in, stored string) {
	n := strconv.Itoa(k)
	switch api {
	case apiJSON, apiAloneJSON:
		return `{"a":` + n + `}`, "{\n \"a\": " + n + "\n}"
	case apiYAML:
		return "a: " + n, "a: " + n
	}
	return "v" + n, "v" + n
}

// holds: the file at p holds value k of test (alone for the standalone calls).
func holds(p, test string, api, k int) bool {
	text, ok := readFile(p)
	if !ok {
		return false
	}
	_, want := valueOf(api, k)
	if api >= apiAlone {
		return text == want
	}
	b, n := find(mustParse(text), test+" - "+strconv.Itoa(k))
	return n == 1 && b == want
}

// lastAt is the path of the footer of a failure report.
func lastAt(report string) string {
	i := strings.LastIndex(report, "\nat ")
	if i < 0 {
		return ""
	}
	s := report[i+4:]
	if j := strings.IndexByte(s, '\n'); j >= 0 {
		s = s[:j]
	}
	if j := strings.LastIndexByte(s, ':'); j >= 0 {
		s = s[:j]
	}
	return s
}

func rel(from, to string) string {
	r, err := filepath.Rel(from, to)
	if err != nil {
		Unreachable()
	}
	return r
}

// dirOf: the i-th kind of Dir; all of them lie in the scratch directory or in
// the default directory.
const dirKinds = 8

func dirOf(i int, from string) string {
	switch i {
	case 1:
		return path("s")
	case 2:
		return path("s") + "//t/../u/"
	case 3:
		return path("a%d%s b")
	case 4:
		return rel(from, path("s"))
	case 5:
		return "./" + rel(from, path("s")) + "/x/./y%v/"
	case 6:
		return "__snapshots__/more"
	case 7:
		return "__snapshots__"
	}
	return ""
}

type viaBox struct{ f func() }

func (b *viaBox) Less(i, j int) bool { b.once(); return false }
func (b *viaBox) Swap(i, j int)      {}
func (b *viaBox) Len() int           { return 2 }
func (b *viaBox) once() {
	if f := b.f; f != nil {
		b.f = nil
		f()
	}
}

const shapes = 16

// via runs f below the frames of the i-th shape.
func via(i int, f func()) {
	switch i {
	case 0:
		f()
	case 1:
		func() { func() { func() { f() }() }() }()
	case 2:
		er.Via(3, f)
	case 3:
		viaLocal(5, f)
	case 4:
		(&er.Runner{F: f}).Run()
	case 5:
		g := er.Runner{F: f}.Val
		g()
	case 6:
		er.Each([]int{1}, func(int) { f() })
	case 7:
		defer f()
	case 8:
		func() {
			defer func() {
				recover()
				f()
			}()
			panic("x")
		}()
	case 9:
		sort.Sort(&viaBox{f})
	case 10:
		var o sync.Once
		o.Do(f)
	case 11:
		reflect.ValueOf(f).Call(nil)
	case 12:
		var w sync.WaitGroup
		w.Add(1)
		go func() {
			defer w.Done()
			f()
		}()
		w.Wait()
	case 13:
		strings.Map(func(r rune) rune { f(); return r }, "x")
	case 14:
		viaLine(f)
	case 15:
		er.Allocs(f)
	}
}

func init() {
	// every configuration, two calls, second process replays from a file with
	// other frames in between
	fns := []string{"", "f", "f.x %s%d", "sub/f%"}
	exts := []string{"", ".txt", "%d", ".snap"}
	names := []string{"TestA", "TestA/b_c/d%d_1", "TestB.x/#01"}
	config := func(dirs []int, trim bool, nfn, next int) []Phase {
		run := func(second bool) func() {
			return func() {
				wd, _ := os.Getwd()
				from := HarnessDir()
				if trim {
					from = wd
				}
				api := Choice("api", 5)
				dir := dirOf(dirs[Choice("dir", len(dirs))], from)
				fn, ext := fns[Choice("fn", nfn)], exts[Choice("ext", next)]
				test := names[Choice("test", len(names))]
				c := opts(dir, fn, ext)
				t := NewT(test)
				for k := 1; k <= 2; k++ {
					in, _ := valueOf(api, k)
					if second && k == 2 {
						in, _ = valueOf(api, 3)
					}
					er.Do(c, t, api, in)
				}
				w1 := where(from, "c11_test", test, api, 1, dir, fn, ext)
				w2 := where(from, "c11_test", test, api, 2, dir, fn, ext)
				if !second {
					Assert(outcome(t) == "log,log", "two new snapshots are not created: "+outcome(t))
				} else {
					Assert(outcome(t) == "error", "a second process does not find the snapshots: "+outcome(t))
					at := lastAt(t.Errors[0])
					if !filepath.IsAbs(at) {
						at = filepath.Join(from, at)
					}
					Assert(at == w2, "the report names another location")
				}
				Assert(holds(w1, test, api, 1), "the first snapshot is not at its location")
				Assert(holds(w2, test, api, 2), "the second snapshot is not at its location")
				n := 1
				if api >= apiAlone {
					n = 2
				}
				Assert(len(treeOf(path("")))+len(treeOf(from+"/__snapshots__")) == n, "other files were created")
			}
		}
		env := func() {
			Setenv("NO_COLOR", "1")
			if trim {
				SetTrimpath(true)
			}
		}
		return []Phase{{env, run(false)}, {env, run(true)}}
	}
	reg("c11_config", config([]int{0, 1, 2, 3, 4, 5, 6, 7}, false, 4, 4)...)
	reg("c11_trim", config([]int{0, 1, 2, 3, 4, 5, 6, 7}, true, 4, 4)...)

	// call shapes: pairs of them, between the test and the call
	shape := func(n int, trim bool) []Phase {
		return []Phase{{func() {
			if trim {
				SetTrimpath(true)
			}
		}, func() {
			wd, _ := os.Getwd()
			from := HarnessDir()
			if trim {
				from = wd
			}
			api := Choice("api", 5)
			dir := dirOf([]int{0, 1, 4}[Choice("dir", 3)], from)
			c := opts(dir, "", "")
			t := NewT("TestA/b")
			in, _ := valueOf(api, 1)
			f := func() { er.Do(c, t, api, in) }
			if Choice("leaf", 2) == 1 {
				if c == nil {
					Unreachable()
				}
				f = func() { do(c, t, api, in) }
			}
			for i := 0; i < n; i++ {
				s, g := Choice("shape"+strconv.Itoa(i), shapes), f
				f = func() { via(s, g) }
			}
			f()
			Assert(outcome(t) == "log", "the snapshot is not created")
			Assert(holds(where(from, "c11_test", "TestA/b", api, 1, dir, "", ""), "TestA/b", api, 1), "the location depends on the frames between the test and the call")
			Assert(len(treeOf(path("")))+len(treeOf(from+"/__snapshots__")) == 1, "other files were created")
		}}}
	}
	reg("c11_shape", shape(1, false)...)
	reg("c11_shapes", shape(2, false)...)
	reg("c11_shapes3", shape(3, false)...)
	reg("c11_shapetrim", shape(2, true)...)

	// test files anywhere below the package (//line directives), called
	// directly or through the same non test helper
	reg("c11_files", Phase{nil, func() {
		api := Choice("api", 5)
		i := Choice("file", len(lineFiles))
		from := HarnessDir()
		if d := filepath.Dir(lineFiles[i]); d != "." {
			from += "/" + d
		}
		base := strings.TrimSuffix(filepath.Base(lineFiles[i]), ".go")
		dir := dirOf([]int{0, 1, 4}[Choice("dir", 3)], from)
		fn := []string{"", "f"}[Choice("fn", 2)]
		c := opts(dir, fn, "")
		t := NewT("TestA/b")
		in, _ := valueOf(api, 1)
		lineCalls[i](Choice("how", 3), c, t, api, in)
		Assert(outcome(t) == "log", "the snapshot is not created")
		Assert(holds(where(from, base, "TestA/b", api, 1, dir, fn, ""), "TestA/b", api, 1), "the location is not that of the test file")
	}})

	// two calls of one test from two test files
	reg("c11_files2", Phase{nil, func() {
		test := []string{"TestA", "TestA/b", "TestA/b/c", "TestA/b#01/c/d/e"}[Choice("test", 4)]
		api := Choice("api", 5)
		kind := Choice("config", 3)
		fn := []string{"", "f", ""}[kind]
		t := NewT(test)
		var c *snaps.Config
		first := ""
		for n := 0; n < 2; n++ {
			i := Choice([]string{"x", "y"}[n], len(lineFiles))
			from := HarnessDir()
			if d := filepath.Dir(lineFiles[i]); d != "." {
				from += "/" + d
			}
			base := strings.TrimSuffix(filepath.Base(lineFiles[i]), ".go")
			dir := []string{"", "", "../snaps dir"}[kind]
			if n == 0 {
				c = opts(dir, fn, "")
			}
			k := 1
			p := where(from, base, test, api, 1, dir, fn, "")
			if n == 0 {
				first = p
			} else if p == first {
				k = 2
				p = where(from, base, test, api, 2, dir, fn, "")
			}
			in, _ := valueOf(api, k)
			lineCalls[i]((i+api+n)%3, c, t, api, in)
			Assert(outcome(t) == []string{"log", "log,log"}[n], "the snapshot is not created")
			Assert(holds(p, test, api, k), "the location is not that of the calling test file")
		}
	}})

	// the working directory changes before, between and after the calls
	cwd := func(trim bool) []Phase {
		run := func(second bool) func() {
			return func() {
				wd, _ := os.Getwd()
				from := HarnessDir()
				if trim {
					from = wd
				}
				os.MkdirAll(path("w", "x"), 0o755)
				to := path("w", "x")
				api := Choice("api", 5)
				dir := dirOf(Choice("dir", dirKinds), from)
				fn := []string{"", "f"}[Choice("fn", 2)]
				c := opts(dir, fn, "")
				at := Choice("at", 3)
				if second {
					at = Choice("at2", 3)
				}
				t := NewT("TestA")
				for k := 1; k <= 2; k++ {
					if k == at {
						Assert(os.Chdir(to) == nil, "chdir")
					}
					in, _ := valueOf(api, k)
					er.Do(c, t, api, in)
				}
				if !second {
					Assert(outcome(t) == "log,log", "two new snapshots are not created: "+outcome(t))
				} else {
					Assert(outcome(t) == "", "a second process does not find the snapshots: "+outcome(t))
				}
				for k := 1; k <= 2; k++ {
					Assert(holds(where(from, "c11_test", "TestA", api, k, dir, fn, ""), "TestA", api, k), "the location depends on the working directory")
				}
				os.Chdir(wd)
			}
		}
		env := func() {
			Setenv("NO_COLOR", "1")
			if trim {
				SetTrimpath(true)
			}
		}
		return []Phase{{env, run(false)}, {env, run(true)}}
	}
	reg("c11_cwd", cwd(false)...)
	reg("c11_cwdtrim", cwd(true)...)

	// symbolic option values and names
	printable := func(name string, n int, slash bool) string {
		b := SymBytes(name, n)
		for _, x := range b {
			Assume(x >= 0x20 && x < 0x7f)
			if !slash {
				Assume(x != '/')
			}
		}
		return string(b)
	}
	sym := func(which, n int) []Phase {
		return []Phase{{nil, func() {
			api := Choice("api", 5)
			dir, fn, ext, test := path("s"), "", "", "TestA"
			switch which {
			case 0:
				fn = printable("fn", n, false)
				if Choice("ext", 2) == 1 {
					ext = ".txt"
				}
			case 1:
				ext = printable("ext", n, false)
				if Choice("fn", 2) == 1 {
					fn = "f"
				}
			case 2:
				d := printable("dir", n, false)
				if Choice("rel", 2) == 1 {
					dir = rel(HarnessDir(), path("s")) + "/" + d
				} else {
					dir = path("s") + "/" + d
				}
			case 3:
				test = "Test" + printable("test", n, true)
				Assume(test[len(test)-1] != '/')
			}
			c := opts(dir, fn, ext)
			t := NewT(test)
			for k := 1; k <= 2; k++ {
				in, _ := valueOf(api, k)
				er.Do(c, t, api, in)
			}
			Assert(outcome(t) == "log,log", "two new snapshots are not created: "+outcome(t))
			m := 1
			if api >= apiAlone {
				m = 2
			}
			for k := 1; k <= 2; k++ {
				p := where(HarnessDir(), "c11_test", test, api, k, dir, fn, ext)
				if api >= apiAlone {
					text, ok := readFile(p)
					_, want := valueOf(api, k)
					Assert(ok && text == want, "a snapshot is not at its location")
				} else {
					_, ok := readFile(p)
					Assert(ok, "a snapshot is not at its location")
				}
			}
			Assert(FileCount() == m, "other files were created")
		}}}
	}
	reg("c11_symfn", sym(0, 1)...)
	reg("c11_symfn2", sym(0, 2)...)
	reg("c11_symext", sym(1, 1)...)
	reg("c11_symext2", sym(1, 2)...)
	reg("c11_symdir", sym(2, 1)...)
	reg("c11_symdir2", sym(2, 2)...)
	reg("c11_symtest", sym(3, 1)...)
	reg("c11_symtest2", sym(3, 2)...)
	for i, n := range []string{"fn", "ext", "dir", "test"} {
		reg("c11_sym"+n+"4", sym(i, 4)...)
	}

	// the k-th standalone call, k up to 12
	reg("c11_many", Phase{nil, func() {
		api := apiAlone + Choice("api", 2)
		c := opts(path("s"), []string{"", "f_1", "9"}[Choice("fn", 3)], []string{"", ".1"}[Choice("ext", 2)])
		fn, ext := []string{"", "f_1", "9"}[Choice("fn", 3)], []string{"", ".1"}[Choice("ext", 2)]
		t := NewT("TestA")
		for k := 1; k <= 12; k++ {
			in, _ := valueOf(api, k)
			er.Do(c, t, api, in)
		}
		for k := 1; k <= 12; k++ {
			Assert(holds(where("", "", "TestA", api, k, path("s"), fn, ext), "TestA", api, k), "the k-th standalone snapshot is not at its location")
		}
		Assert(FileCount() == 12, "other files were created")
	}})
}
