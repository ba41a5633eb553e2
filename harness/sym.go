// Package zzverif holds the verification harnesses. They are executed
// symbolically by /verif/engine (which intercepts the functions of this file)
// and natively (this file's bodies) to replay solver models against the real
// code.
package zzverif

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Input is a solver model (or any assignment) for a harness.
type Input struct {
	Harness string            `json:"harness"`
	Tier    int               `json:"tier"`
	Vars    map[string]uint64 `json:"vars"`
	Known   []string          `json:"known"`
	Sched   []string          `json:"sched,omitempty"`
}

// Result is what a native run reports.
type Result struct {
	Obs       []Obs    `json:"obs"`
	Violation string   `json:"violation"`
	Known     string   `json:"known"`
	Assumed   bool     `json:"assumed"`
	Panic     string   `json:"panic"`
	Reached   []string `json:"reached"`
	Done      bool     `json:"done"`
	Logs      []string `json:"logs"`
}

type Obs struct {
	Label string
	Vals  [][]byte
}

var (
	nat     Input
	natRes  Result
	natMu   sync.Mutex
	natInit sync.Once
)

type stop struct{ kind, msg string }

func load() {
	natInit.Do(func() {
		b, err := os.ReadFile(os.Getenv("VERIF_INPUT"))
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &nat); err != nil {
			panic(err)
		}
		if b, err := os.ReadFile(os.Getenv("VERIF_OUT")); err == nil {
			json.Unmarshal(b, &natRes)
		}
	})
}

func save() {
	natMu.Lock()
	defer natMu.Unlock()
	b, _ := json.Marshal(natRes)
	if err := os.WriteFile(os.Getenv("VERIF_OUT"), b, 0o644); err != nil {
		panic(err)
	}
}

func end(kind, msg string) {
	natMu.Lock()
	if natRes.Violation == "" && natRes.Known == "" && !natRes.Assumed {
		switch kind {
		case "violation":
			natRes.Violation = msg
		case "known":
			natRes.Known = msg
		case "assume":
			natRes.Assumed = true
		case "panic":
			natRes.Panic = msg
		}
	}
	natMu.Unlock()
	save()
	os.Exit(0)
}

func v(name string) uint64 { load(); return nat.Vars[name] }

// SymBytes: n arbitrary bytes.
func SymBytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

// SymString: arbitrary bytes of every length lo..hi.
func SymString(name string, lo, hi int) string {
	n := lo
	if hi > lo {
		n = lo + int(v(name+"#len"))
	}
	return string(SymBytes(name, n))
}

// SymInt: any integer lo..hi (symbolic).
func SymInt(name string, lo, hi int) int { return int(int64(v(name))) }

// SymBool: symbolic boolean.
func SymBool(name string) bool { return v(name)&1 == 1 }

// Choice: every value 0..n-1 (explored separately).
func Choice(name string, n int) int { return int(v(name)) }

func Assume(c bool) {
	if !c {
		end("assume", "")
	}
}

func Assert(c bool, label string) {
	if !c {
		load()
		end("violation", label)
	}
}

func AssertKnown(c bool, label, id string, isKnown bool) {
	load()
	if c {
		return
	}
	for _, k := range nat.Known {
		if k == id && isKnown {
			end("known", id+"\x00"+label)
		}
	}
	end("violation", label)
}

func Reach(label string) {
	load()
	natMu.Lock()
	defer natMu.Unlock()
	for _, r := range natRes.Reached {
		if r == label {
			return
		}
	}
	natRes.Reached = append(natRes.Reached, label)
}

func Observe(label string, vals ...string) {
	load()
	o := Obs{Label: label}
	for _, s := range vals {
		o.Vals = append(o.Vals, []byte(s))
	}
	natMu.Lock()
	natRes.Obs = append(natRes.Obs, o)
	natMu.Unlock()
}

// Log is only recorded natively (it explains a replay).
func Log(s string) {
	load()
	natMu.Lock()
	natRes.Logs = append(natRes.Logs, s)
	natMu.Unlock()
}

func Symbolic() bool { return false }

func Tier() int { load(); return nat.Tier }

// Root is the scratch directory all harness files live in.
func Root() string { return os.Getenv("VERIF_ROOT") }

// HarnessDir is the directory of the harness sources as the compiler saw it.
func HarnessDir() string { return os.Getenv("VERIF_SRC") }

var natEnv = map[string]string{}

func Setenv(k, val string) { natEnv["E"+k] = val }
func Unsetenv(k string)    { delete(natEnv, "E"+k) }

func SetFlag(k, val string) { natEnv["F"+k] = val }

func SetTrimpath(b bool) {
	if b {
		natEnv["T"] = "1"
	}
}

func Stash(k, val string) {
	if err := os.WriteFile(filepath.Join(os.Getenv("VERIF_KV"), k), []byte(val), 0o644); err != nil {
		panic(err)
	}
}

func Load(k string) string {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_KV"), k))
	if err != nil {
		return ""
	}
	return string(b)
}

func CaptureStdout(f func()) string {
	tmp, err := os.CreateTemp(os.Getenv("VERIF_KV"), "stdout")
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = tmp
	f()
	os.Stdout = old
	tmp.Close()
	b, _ := os.ReadFile(tmp.Name())
	os.Remove(tmp.Name())
	return string(b)
}

// set by shim/hooks in the build that replays schedules
var (
	schedHook func(on bool)
	goHook    func(f, done func())
	waitHook  func(block func())
	started   sync.WaitGroup
)

// ExploreSchedules: from here on every interleaving of the visible operations
// of the goroutines started by Go is explored (preempt -1), or those with at
// most that many preemptions.
func ExploreSchedules(preempt int) {
	if schedHook != nil {
		schedHook(true)
	}
}

func StopSchedules() {
	if schedHook != nil {
		schedHook(false)
	}
}

// Go starts a goroutine.
func Go(f func()) {
	started.Add(1)
	if goHook != nil {
		goHook(f, started.Done)
		return
	}
	go func() {
		defer started.Done()
		f()
	}()
}

// WaitAll waits for the goroutines started by Go.
func WaitAll() {
	if waitHook != nil {
		waitHook(started.Wait)
		return
	}
	started.Wait()
}

func DetectRaces()            {}
func ExploreMapOrder(on bool) {}
func ExactPretty()            {}
func StepLimit(n int)         {}

func Unreachable() { end("assume", "") }

var (
	markTime  = time.Unix(1500000000, 0)
	markFiles map[string]bool
)

func walkRoot(f func(rel, abs string, fi os.FileInfo)) {
	root := Root()
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == root {
			return nil
		}
		f(p[len(root)+1:], p, fi)
		return nil
	})
}

// FileCount counts the files below Root.
func FileCount() int {
	n := 0
	walkRoot(func(rel, abs string, fi os.FileInfo) {
		if !fi.IsDir() {
			n++
		}
	})
	return n
}

// FSMark starts a write-detection window.
func FSMark() {
	markFiles = map[string]bool{}
	walkRoot(func(rel, abs string, fi os.FileInfo) {
		markFiles[rel] = true
		if !fi.IsDir() {
			os.Chtimes(abs, markTime, markTime)
		}
	})
}

// FSTouched lists what was created (+), written (~) or removed (-) since FSMark.
func FSTouched() string {
	var r []string
	seen := map[string]bool{}
	walkRoot(func(rel, abs string, fi os.FileInfo) {
		seen[rel] = true
		if !markFiles[rel] {
			r = append(r, "+"+rel)
		} else if !fi.IsDir() && !fi.ModTime().Equal(markTime) {
			r = append(r, "~"+rel)
		}
	})
	for rel := range markFiles {
		if !seen[rel] {
			r = append(r, "-"+rel)
		}
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

// nativeMain drives one stage of a native replay (see native_test.go).
func nativeMain(run func() int) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				end(s.kind, s.msg)
			}
			load()
			end("panic", fmt.Sprint(r)+"\n"+string(debug.Stack()))
		}
	}()
	_ = flag.Args
	run()
}
