package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// native builds the harness against a scratch copy of the current source and
// runs solver models on it.
type native struct {
	repo, harness string
	dir           string
	exe, exeTrim  string
	exeRace       string
	exeSched      string // follows a recorded schedule (shim)
	schedErr      string
	n             atomic.Int64
	excl          sync.Mutex
	goVersion     string
}

type NatInput struct {
	Harness string            `json:"harness"`
	Tier    int               `json:"tier"`
	Vars    map[string]uint64 `json:"vars"`
	Known   []string          `json:"known"`
	Sched   []string          `json:"sched,omitempty"`
}

type NatObs struct {
	Label string
	Vals  [][]byte
}

type NatResult struct {
	Obs       []NatObs `json:"obs"`
	Violation string   `json:"violation"`
	Known     string   `json:"known"`
	Assumed   bool     `json:"assumed"`
	Panic     string   `json:"panic"`
	Reached   []string `json:"reached"`
	Done      bool     `json:"done"`
	Logs      []string `json:"logs"`
	Timeout   bool     `json:"-"`
	Output    string   `json:"-"`
}

func newNative(repo, harness string) *native {
	dir, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		panic(err)
	}
	return &native{repo: repo, harness: harness, dir: dir}
}

func (n *native) cleanup() { os.RemoveAll(n.dir) }

func copyTree(src, dst string, skip func(rel string) bool) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if rel != "." && skip(rel) {
			if fi.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		t := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(t, 0o755)
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, b, 0o644)
	})
}

func (n *native) build(trim, race, sched bool) error {
	rc := filepath.Join(n.dir, "repo")
	if err := copyTree(n.repo, rc, func(rel string) bool {
		return rel == ".git" || rel == "images" || strings.HasSuffix(rel, ".gif") || strings.HasSuffix(rel, ".png")
	}); err != nil {
		return err
	}
	if err := copyTree(n.harness, filepath.Join(rc, "zzverif"), func(rel string) bool { return false }); err != nil {
		return err
	}
	if sched {
		if err := n.shim(filepath.Join(n.dir, "repos"), rc); err != nil {
			return err
		}
	}
	one := func(out string, args ...string) error {
		a := append([]string{"test", "-c", "-vet=off", "-tags=verif", "-o", out}, args...)
		c := exec.Command("go", append(a, "./zzverif")...)
		c.Dir = rc
		if strings.HasSuffix(out, "zs.test") {
			c.Dir = filepath.Join(n.dir, "repos")
		}
		c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
		if b, err := c.CombinedOutput(); err != nil {
			return fmt.Errorf("%v: %s", err, b)
		}
		return nil
	}
	type job struct {
		f    *string
		name string
		args []string
		on   bool
	}
	jobs := []job{{&n.exe, "z.test", nil, true}, {&n.exeTrim, "zt.test", []string{"-trimpath"}, trim}, {&n.exeRace, "zr.test", []string{"-race"}, race},
		{&n.exeSched, "zs.test", nil, sched}}
	errs := make(chan error, len(jobs))
	cnt := 0
	for _, j := range jobs {
		if !j.on {
			continue
		}
		cnt++
		*j.f = filepath.Join(n.dir, j.name)
		go func() {
			err := one(*j.f, j.args...)
			if err != nil && j.name == "zs.test" {
				// schedules are not replayed, only tried
				n.exeSched, n.schedErr = "", err.Error()
				err = nil
			}
			errs <- err
		}()
	}
	var err error
	for i := 0; i < cnt; i++ {
		if e := <-errs; e != nil {
			err = e
		}
	}
	return err
}

// shim copies the scratch tree rc to dst and makes the module's code and the
// harnesses use the packages of /verif/shim instead of os, sync and sync/atomic.
func (n *native) shim(dst, rc string) error {
	shims := filepath.Join(filepath.Dir(n.harness), "shim")
	if err := copyTree(rc, dst, func(rel string) bool { return false }); err != nil {
		return err
	}
	for _, d := range []string{"sched", "os", "sync", "atomic"} {
		if err := copyTree(filepath.Join(shims, d), filepath.Join(dst, "zzshim", d), func(string) bool { return false }); err != nil {
			return err
		}
	}
	repl := map[string]string{`"os"`: "os", `"sync"`: "sync", `"sync/atomic"`: "atomic"}
	err := filepath.Walk(dst, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dst, p)
		if fi.IsDir() {
			if rel == "zzshim" || strings.HasPrefix(rel, "examples") {
				return filepath.SkipDir
			}
			return nil
		}
		hz := strings.HasPrefix(rel, "zzverif/")
		if !strings.HasSuffix(p, ".go") || !hz && strings.HasSuffix(p, "_test.go") || rel == "zzverif/sym.go" || rel == "zzverif/native_test.go" {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, src, parser.ImportsOnly)
		if err != nil {
			return err
		}
		for i := len(f.Imports) - 1; i >= 0; i-- {
			im := f.Imports[i].Path
			if r, ok := repl[im.Value]; ok {
				at := int(im.Pos()) - 1
				src = append(src[:at:at], append([]byte(`"`+modPath+"/zzshim/"+r+`"`), src[at+len(im.Value):]...)...)
			}
		}
		return os.WriteFile(p, src, 0o644)
	})
	if err != nil {
		return err
	}
	return copyTree(filepath.Join(shims, "hooks"), filepath.Join(dst, "zzverif"), func(string) bool { return false })
}

// run executes all phases of the harness natively under the given assignment.
func (n *native) run(in *NatInput, h HarnessSpec, race bool) (*NatResult, error) {
	exe := n.exe
	if race && n.exeRace != "" {
		exe = n.exeRace
	} else if len(in.Sched) > 0 && n.exeSched != "" {
		exe = n.exeSched
	}
	if h.Excl {
		n.excl.Lock()
		defer n.excl.Unlock()
		n.cleanDefault()
		defer n.cleanDefault()
	}
	id := n.n.Add(1)
	base := filepath.Join(n.dir, fmt.Sprintf("r%d", id))
	root := filepath.Join(base, "root")
	kv := filepath.Join(base, "kv")
	for _, d := range []string{root, kv} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			return nil, err
		}
	}
	defer os.RemoveAll(base)
	inF, outF := filepath.Join(base, "in.json"), filepath.Join(base, "out.json")
	b, _ := json.Marshal(in)
	os.WriteFile(inF, b, 0o644)
	env := []string{"VERIF_INPUT=" + inF, "VERIF_OUT=" + outF, "VERIF_ROOT=" + root, "VERIF_KV=" + kv, "VERIF_EXE_TRIM=" + n.exeTrim,
		"VERIF_SRC=" + filepath.Join(n.dir, "repo", "zzverif")}
	if exe == n.exeSched {
		env[len(env)-1] = "VERIF_SRC=" + filepath.Join(n.dir, "repos", "zzverif")
	}
	exec1 := func(stage string, phase int) (string, error) {
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		c := exec.CommandContext(ctx, exe, "-test.run=^TestPhase$")
		c.Dir = base
		c.Env = append(append([]string{}, env...), "VERIF_STAGE="+stage, fmt.Sprintf("VERIF_PHASE=%d", phase))
		out, err := c.CombinedOutput()
		if ctx.Err() != nil {
			return string(out), context.DeadlineExceeded
		}
		return string(out), err
	}
	out, err := exec1("count", 0)
	if err != nil {
		return nil, fmt.Errorf("native: %v: %s", err, out)
	}
	cnt := 0
	fmt.Sscan(out, &cnt)
	res := &NatResult{}
	for i := 0; i < cnt; i++ {
		o, err := exec1("env", i)
		*res = NatResult{}
		if b, e := os.ReadFile(outF); e == nil {
			json.Unmarshal(b, res)
		}
		res.Output = o
		if err == context.DeadlineExceeded {
			res.Timeout = true
			return res, nil
		}
		if strings.Contains(o, "WARNING: DATA RACE") {
			res.Violation = "data race"
			res.Output = o
			return res, nil
		}
		if err != nil && res.Violation == "" && res.Panic == "" {
			res.Panic = "process died: " + err.Error() + " " + tail(o, 2000)
		}
		if res.Violation != "" || res.Panic != "" || res.Known != "" || res.Assumed {
			return res, nil
		}
		if i < cnt-1 {
			res.Done = false
		}
	}
	return res, nil
}

// cleanDefault removes the default snapshot directories of the scratch copies.
func (n *native) cleanDefault() {
	for _, r := range []string{"repo", "repos"} {
		filepath.Walk(filepath.Join(n.dir, r, "zzverif"), func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() && fi.Name() == "__snapshots__" {
				os.RemoveAll(p)
				return filepath.SkipDir
			}
			return nil
		})
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// confirm replays a counterexample; true if the real code shows it.
func (n *native) confirm(in *NatInput, h HarnessSpec, v PathResult) (bool, string) {
	tries := 1
	race := strings.HasPrefix(v.msg, "data race")
	sched := !race && len(in.Sched) > 0
	if race {
		tries = 20
	} else if sched && n.exeSched == "" {
		tries = 40
	}
	last := ""
	for i := 0; i < tries; i++ {
		r, err := n.run(in, h, race)
		if err != nil {
			return false, err.Error()
		}
		switch v.kind {
		case "known":
			if r.Known != "" {
				return true, strings.ReplaceAll(r.Known, "\x00", ": ")
			}
		case "limit":
			if r.Timeout {
				return true, "the call does not terminate within 20 s"
			}
		}
		if v.kind != "known" {
			if r.Violation != "" {
				return true, r.Violation + logs(r)
			}
			if r.Panic != "" {
				return true, "panic: " + r.Panic
			}
			if r.Timeout && v.kind != "limit" && (!sched || strings.HasPrefix(v.msg, "deadlock")) {
				return true, "the call does not terminate within 20 s"
			}
		}
		last = fmt.Sprintf("native run: done=%v assumed=%v known=%q violation=%q panic=%q", r.Done, r.Assumed, r.Known, r.Violation, tail(r.Panic, 200))
	}
	return false, last
}

func logs(r *NatResult) string {
	if len(r.Logs) == 0 {
		return ""
	}
	return " [" + strings.Join(r.Logs, "; ") + "]"
}

func compareObs(sym []obsOut, nat []NatObs, n *native, repo string) string {
	norm := func(s string) string {
		s = relRoot.ReplaceAllString(s, "../../vtmp")
		for {
			i := strings.Index(s, n.dir+"/r")
			if i < 0 {
				break
			}
			j := i + len(n.dir) + 2
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			if !strings.HasPrefix(s[j:], "/root") {
				s = s[:i] + "/vdir" + s[j:]
				continue
			}
			s = s[:i] + "/vtmp" + s[j+5:]
		}
		return s
	}
	if len(sym) != len(nat) {
		return fmt.Sprintf("%d observations predicted, %d made", len(sym), len(nat))
	}
	for i := range sym {
		if sym[i].Label != nat[i].Label || len(sym[i].Vals) != len(nat[i].Vals) {
			return fmt.Sprintf("observation %d: %s/%d vs %s/%d", i, sym[i].Label, len(sym[i].Vals), nat[i].Label, len(nat[i].Vals))
		}
		for k := range sym[i].Vals {
			a, b := norm2(sym[i].Vals[k], repo), norm(strings.ReplaceAll(string(nat[i].Vals[k]), filepath.Join(n.dir, "repo"), "/repo"))
			if a != b {
				return fmt.Sprintf("observation %q: predicted %q, real %q", sym[i].Label, a, b)
			}
		}
	}
	return ""
}

// relRoot matches the scratch directory of a native run relative to the harness.
var relRoot = regexp.MustCompile(`\.\./\.\./r[0-9]+/root`)

func norm2(s, repo string) string {
	if repo != "/repo" {
		return strings.ReplaceAll(s, repo, "/repo")
	}
	return s
}

func (d *driver) replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Property, Violation, Kind string
		Input                     NatInput
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	n := newNative(d.repo, filepath.Join(d.verif, "harness"))
	defer n.cleanup()
	if err := n.build(true, strings.HasPrefix(r.Violation, "data race"), len(r.Input.Sched) > 0); err != nil {
		fmt.Println(err)
		return 2
	}
	ok, desc := n.confirm(&r.Input, HarnessSpec{}, PathResult{kind: r.Kind, msg: r.Violation})
	fmt.Println("reproduced:", ok, desc)
	if ok {
		return 1
	}
	return 0
}
