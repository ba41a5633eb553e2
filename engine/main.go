package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

// HarnessSpec is one entry of checks.json.
type HarnessSpec struct {
	Name     string   `json:"name"`
	Bounds   string   `json:"bounds"`
	Quick    int      `json:"quick"`    // seconds of exploration
	Thorough int      `json:"thorough"` // seconds
	Tier     string   `json:"tier"`     // "" both, "thorough"
	Race     bool     `json:"race"`     // replay with the race detector
	Trim     bool     `json:"trim"`     // replay needs the -trimpath binary
	Sched    bool     `json:"sched"`    // replay with the recorded schedule
	Excl     bool     `json:"excl"`     // uses the default snapshot directory: native runs one at a time
	Samples  int      `json:"samples"`
	Optional []string `json:"optional_labels"`
}

type CheckSpec struct {
	Harnesses   []HarnessSpec `json:"harnesses"`
	Assumptions []string      `json:"assumptions"`
}

type Finding struct {
	Property, ID, Text string
}

// readFindings parses known_findings.txt: lines
// "known: property=<id> id=<K> <text>" and "fixed: property=<id> <commit> <text>".
func readFindings(path string) []Finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []Finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(l[7:], " ", 3)
		if len(f) < 3 || !strings.HasPrefix(f[0], "property=") || !strings.HasPrefix(f[1], "id=") {
			continue
		}
		r = append(r, Finding{f[0][9:], f[1][3:], f[2]})
	}
	return r
}

type harnessReport struct {
	Name          string         `json:"harness"`
	Bounds        string         `json:"bounds"`
	Exhaustive    bool           `json:"bound_exhausted"`
	Paths         int            `json:"paths"`
	PathKinds     map[string]int `json:"path_kinds"`
	Instrs        int64          `json:"ssa_instructions"`
	Branches      int64          `json:"symbolic_branches"`
	Forks         int64          `json:"forks"`
	Queries       int            `json:"smt_queries"`
	SMTSat        int            `json:"smt_sat"`
	SMTUnsat      int            `json:"smt_unsat"`
	SMTUnknown    int            `json:"smt_unknown"`
	CacheHits     int            `json:"smt_cache_hits"`
	DomainDecided int            `json:"byte_domain_decisions"`
	CrossChecked  int            `json:"byte_domain_decisions_cross_checked_with_smt"`
	SolverS       float64        `json:"solver_seconds"`
	WallS         float64        `json:"wall_s"`
	SymVars       int            `json:"max_symbolic_variables"`
	Asserts       map[string]any `json:"assertions"`
	Reach         map[string]int `json:"reachability_witnesses"`
	Reduced       map[string]int `json:"paths_outside_the_verdict,omitempty"`
	Native        int            `json:"traces_validated_against_impl"`
	Mismatch      []string       `json:"encoding_discrepancies,omitempty"`
	Spurious      []string       `json:"counterexamples_not_reproduced,omitempty"`
	Stubs         []string       `json:"stubs_used,omitempty"`
}

func main() {
	debug.SetGCPercent(500)
	debug.SetMemoryLimit(8 << 30)
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("property", "", "property to check")
	name := flag.String("name", "", "run one harness only (development)")
	nw := flag.Int("w", 8, "workers")
	lim := flag.Duration("t", 60*time.Second, "time limit with -name")
	cpu := flag.String("cpu", "", "")
	tier := flag.String("tier", "", "")
	solver := flag.String("solver", "z3", "")
	replay := flag.String("replay", "", "replay a stored counterexample natively")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	d := &driver{repo: *repo, verif: *verif, tier: *tier, nw: *nw, solver: *solver, prop: *prop, dev: *name != "", devLimit: *lim}
	if *replay != "" {
		os.Exit(d.replayFile(*replay))
	}
	rc := d.main(*name)
	pprof.StopCPUProfile()
	os.Exit(rc)
}

type driver struct {
	repo, verif, tier, solver, prop string
	nw                              int
	dev                             bool
	devLimit                        time.Duration
	p                               *Program
	ms                              []*Machine
	nat                             *native
	t0                              time.Time
	findings                        []Finding
	knownIDs                        map[string]bool
	viols                           int
	out                             string
}

func (d *driver) main(only string) int {
	d.t0 = time.Now()
	var specs map[string]CheckSpec
	b, err := os.ReadFile(filepath.Join(d.verif, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &specs)
	}
	if err != nil {
		fmt.Println("checks.json:", err)
		return 2
	}
	spec := specs[d.prop]
	if only != "" {
		var hs []HarnessSpec
		for p, s := range specs {
			for _, h := range s.Harnesses {
				if h.Name == only {
					h.Quick, h.Thorough = int(d.devLimit.Seconds()), int(d.devLimit.Seconds())
					h.Tier = ""
					hs = append(hs, h)
					d.prop = p
				}
			}
		}
		if hs == nil {
			hs = []HarnessSpec{{Name: only, Quick: int(d.devLimit.Seconds()), Thorough: int(d.devLimit.Seconds())}}
			if d.prop == "" {
				d.prop = "dev"
			}
		}
		spec.Harnesses = hs[:1]
	}
	d.knownIDs = map[string]bool{}
	for _, f := range readFindings(filepath.Join(d.verif, "known_findings.txt")) {
		if f.Property == d.prop {
			d.findings = append(d.findings, f)
			d.knownIDs[f.ID] = true
		}
	}
	if len(spec.Harnesses) == 0 {
		fmt.Println("no harness for property", d.prop)
		return 2
	}
	needTrim, needRace, needSched := false, false, false
	for _, h := range spec.Harnesses {
		needTrim = needTrim || h.Trim
		needRace = needRace || h.Race
		needSched = needSched || h.Sched
	}
	d.nat = newNative(d.repo, filepath.Join(d.verif, "harness"))
	defer d.nat.cleanup()
	natErr := make(chan error, 1)
	go func() { natErr <- d.nat.build(needTrim, needRace, needSched) }()
	d.p, err = loadProgram(d.repo, filepath.Join(d.verif, "harness"))
	if err != nil {
		fmt.Println("load:", err)
		return 2
	}
	var wg sync.WaitGroup
	errs := make([]error, d.nw)
	d.ms = make([]*Machine, d.nw)
	argv := []string{d.solver}
	if strings.HasPrefix(d.solver, "z3") {
		argv = append(argv, "-in")
	} else {
		argv = append(argv, "--incremental", "--produce-models", "--lang=smt2")
	}
	for i := range d.ms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d.ms[i] = newMachine(d.p, i, argv)
			errs[i] = d.ms[i].bootInit()
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			fmt.Println(e)
			return 2
		}
	}
	if err := <-natErr; err != nil {
		fmt.Println("native build:", err)
		return 2
	}
	if d.nat.schedErr != "" {
		fmt.Println("schedules are not replayed exactly:", tail(d.nat.schedErr, 600))
	}
	tLoad := time.Since(d.t0)
	d.out = filepath.Join(d.verif, "out", d.prop)
	os.RemoveAll(d.out)
	os.MkdirAll(d.out, 0o755)

	var reps []harnessReport
	var samples []any
	knownSeen := map[string]string{}
	var lines, skipped []string
	// the short ones first: a violation ends a quick run
	sort.SliceStable(spec.Harnesses, func(i, j int) bool { return spec.Harnesses[i].Quick < spec.Harnesses[j].Quick })
	for _, h := range spec.Harnesses {
		if h.Tier == "thorough" && d.tier != "thorough" {
			continue
		}
		if len(lines) > 0 && d.tier != "thorough" && !d.dev {
			// violated already: the remaining harnesses would not change the answer
			skipped = append(skipped, h.Name)
			continue
		}
		rep, ls, smp := d.runHarness(h, knownSeen)
		reps = append(reps, rep)
		lines = append(lines, ls...)
		samples = append(samples, smp...)
		if d.dev || os.Getenv("VERIF_VERBOSE") != "" {
			j, _ := json.MarshalIndent(rep, "", " ")
			fmt.Println(string(j))
		}
		fmt.Printf("%s: %d paths %v, exhausted=%v, %d smt queries (%.1fs), %d domain decisions, %d validated, %.1fs\n", h.Name, rep.Paths, rep.PathKinds, rep.Exhaustive, rep.Queries, rep.SolverS, rep.DomainDecided, rep.Native, rep.WallS)
		for _, s := range rep.Mismatch {
			fmt.Println("  encoding discrepancy:", s)
		}
		for _, s := range rep.Spurious {
			fmt.Println("  not reproduced:", s)
		}
		for k, n := range rep.Reduced {
			fmt.Println("  outside the verdict:", n, k)
		}
	}
	if len(skipped) > 0 {
		fmt.Println("not run after the violation:", strings.Join(skipped, " "))
	}
	brDump()
	for _, m := range d.ms {
		m.sol.stop()
	}
	for _, f := range d.findings {
		if w, ok := knownSeen[f.ID]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s id=%s %s (reproduced: %s)\n", d.prop, f.ID, f.Text, w)
		}
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if !d.dev {
		d.writeEvidence(spec, reps, samples, tLoad, knownSeen)
	}
	if len(lines) > 0 {
		return 1
	}
	return 0
}

func (d *driver) runHarness(h HarnessSpec, knownSeen map[string]string) (rep harnessReport, viol []string, samples []any) {
	t0 := time.Now()
	x := newExplorer(d.p)
	x.verbose = d.dev
	x.known = d.knownIDs
	x.root = "/vtmp"
	sec := h.Quick
	if d.tier == "thorough" {
		sec = h.Thorough
		x.tier = 1
	}
	if sec == 0 {
		sec = 20
	}
	x.deadline = time.Now().Add(time.Duration(sec) * time.Second)
	x.entry = func(m *Machine) { m.runHarness(h.Name) }
	x.run(d.ms)
	rep = harnessReport{Name: h.Name, Bounds: h.Bounds, Paths: x.nPaths, PathKinds: x.byKind, Instrs: x.instrs, Branches: x.branches,
		Forks: x.forks, Queries: x.queries, SMTSat: x.sat, SMTUnsat: x.unsat, SMTUnknown: x.unknown, CacheHits: x.hits, DomainDecided: x.nDom, CrossChecked: x.nCross,
		SolverS: x.solTime.Seconds(), SymVars: x.symCount, Asserts: map[string]any{}, Reach: x.reached, Reduced: map[string]int{}}
	for k, a := range x.asserts {
		rep.Asserts[k] = map[string]int{"paths": a.Reached, "discharged_by_unsat": a.Solver, "constant_true_on_path": a.Constant}
	}
	for k, n := range x.unsup {
		rep.Reduced[k] = n
	}
	for k, n := range x.incompl {
		rep.Reduced["incomplete: "+k] = n
	}
	if x.timedOut {
		rep.Reduced[fmt.Sprintf("exploration stopped at the time limit (%ds); unexplored branches", sec)] = len(x.queue)
	}
	if x.byKind["ok"]+x.byKind["violation"]+x.byKind["known"]+x.byKind["panic"] == 0 {
		rep.Reduced["VACUOUS: no path reached the end"] = 1
	}
	rep.Exhaustive = !x.timedOut && len(x.unsup) == 0 && len(x.incompl) == 0 && len(x.viol) == 0
	for s := range x.stubs {
		rep.Stubs = append(rep.Stubs, s)
	}
	sort.Strings(rep.Stubs)

	// counterexamples: replay natively
	perLabel := map[string]int{}
	for _, v := range x.viol {
		key := v.kind + v.msg
		if perLabel[key] >= 1 {
			continue
		}
		in := d.input(h, x.tier, v)
		r, desc := d.nat.confirm(in, h, v)
		if !r {
			rep.Spurious = append(rep.Spurious, fmt.Sprintf("%s %s: %s model=%v", v.kind, v.msg, desc, v.model))
			continue
		}
		perLabel[key]++
		f := d.writeReplay(in, v, desc)
		viol = append(viol, fmt.Sprintf("VIOLATION property=%s replay=%s\n  harness %s: %s\n  input: %s", d.prop, f, h.Name, desc, describe(v)))
		d.viols++
	}
	for id, rs := range x.knownHit {
		for _, v := range rs {
			in := d.input(h, x.tier, v)
			if ok, desc := d.nat.confirm(in, h, v); ok {
				if knownSeen[id] == "" {
					knownSeen[id] = h.Name + ": " + describe(v)
				}
				_ = desc
				break
			} else {
				rep.Spurious = append(rep.Spurious, "known finding "+id+" not reproduced: "+desc)
			}
		}
	}
	// validate the encoding on passing paths
	n := h.Samples
	if n == 0 {
		n = 8
	}
	if d.tier == "thorough" {
		n *= 5
	}
	sel := pickSamples(x.samples, n)
	type res struct {
		ok   bool
		msg  string
		viol bool
	}
	rs := make([]res, len(sel))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i, s := range sel {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			in := d.input(h, x.tier, s)
			nr, err := d.nat.run(in, h, false)
			if err != nil {
				rs[i] = res{msg: err.Error()}
				return
			}
			if nr.Violation != "" || nr.Panic != "" {
				rs[i] = res{msg: nr.Violation + nr.Panic, viol: true}
				return
			}
			if diff := compareObs(s.obs, nr.Obs, d.nat, d.repo); diff != "" || !nr.Done {
				rs[i] = res{msg: fmt.Sprintf("%s (done=%v assumed=%v) model=%v", diff, nr.Done, nr.Assumed, s.model)}
				return
			}
			rs[i] = res{ok: true}
		}()
	}
	wg.Wait()
	for i, r := range rs {
		switch {
		case r.ok:
			rep.Native++
			if len(samples) < 2 {
				samples = append(samples, map[string]any{"harness": h.Name, "model_of_an_explored_path": renderModel(sel[i].model), "schedule": sel[i].sched})
			}
		case r.viol:
			// the real code violates the property on an input the encoding passes
			if perLabel["native"+r.msg] > 0 {
				continue
			}
			perLabel["native"+r.msg]++
			in := d.input(h, x.tier, sel[i])
			if nr, err := d.nat.run(in, h, false); err == nil && nr.Violation+nr.Panic == r.msg {
				f := d.writeReplay(in, sel[i], r.msg)
				viol = append(viol, fmt.Sprintf("VIOLATION property=%s replay=%s\n  harness %s (native run of a path model): %s\n  input: %s", d.prop, f, h.Name, r.msg, describe(sel[i])))
				d.viols++
			}
		default:
			rep.Mismatch = append(rep.Mismatch, r.msg)
		}
	}
	rep.WallS = time.Since(t0).Seconds()
	return
}

func pickSamples(all []PathResult, n int) []PathResult {
	if len(all) <= n {
		return all
	}
	var r []PathResult
	for i := 0; i < n; i++ {
		r = append(r, all[i*len(all)/n])
	}
	return r
}

func (d *driver) input(h HarnessSpec, tier int, v PathResult) *NatInput {
	in := &NatInput{Harness: h.Name, Tier: tier, Vars: v.model, Sched: v.sched}
	for id := range d.knownIDs {
		in.Known = append(in.Known, id)
	}
	sort.Strings(in.Known)
	return in
}

func (d *driver) writeReplay(in *NatInput, v PathResult, desc string) string {
	f := filepath.Join(d.out, fmt.Sprintf("%s-%d.json", in.Harness, d.viols))
	b, _ := json.MarshalIndent(map[string]any{"property": d.prop, "violation": v.msg, "kind": v.kind, "description": desc,
		"input": in, "readable": renderModel(v.model), "how": "bin/gosym -replay " + f}, "", " ")
	os.WriteFile(f, b, 0o644)
	return f
}

// renderModel groups the byte variables of a model into strings.
func renderModel(m map[string]uint64) map[string]any {
	r := map[string]any{}
	strs := map[string]map[int]byte{}
	for k, v := range m {
		if i := strings.LastIndexByte(k, '['); i > 0 && k[len(k)-1] == ']' {
			var n int
			if _, err := fmt.Sscanf(k[i:], "[%d]", &n); err == nil {
				if strs[k[:i]] == nil {
					strs[k[:i]] = map[int]byte{}
				}
				strs[k[:i]][n] = byte(v)
				continue
			}
		}
		r[k] = v
	}
	for k, bs := range strs {
		var b []byte
		for i := 0; i < len(bs); i++ {
			b = append(b, bs[i])
		}
		r[k] = fmt.Sprintf("%q", b)
	}
	return r
}

func describe(v PathResult) string {
	b, _ := json.Marshal(renderModel(v.model))
	s := string(b)
	if len(v.sched) > 0 {
		s += " schedule=" + strings.Join(v.sched, ",")
	}
	return s
}

func (d *driver) writeEvidence(spec CheckSpec, reps []harnessReport, samples []any, tLoad time.Duration, known map[string]string) {
	var states, native, queries int
	var trans int64
	var sol float64
	exh := true
	for _, r := range reps {
		states += r.Paths
		trans += r.Instrs
		native += r.Native
		queries += r.Queries
		sol += r.SolverS
		exh = exh && r.Exhaustive
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	var fns []string
	d.p.fnUsed.Range(func(k, v any) bool { fns = append(fns, k.(string)); return true })
	sort.Strings(fns)
	if len(samples) == 0 {
		samples = append(samples, "no path sample")
	}
	ev := map[string]any{
		"property": d.prop, "tier": d.tier, "seed": seed, "level": "model_checking",
		"wall_s": time.Since(d.t0).Seconds(), "violations": d.viols,
		"assumptions": append([]string{
			"verdicts hold only within the bounds listed per harness",
			"operating system, clock, environment, reflect, sync, atomic, runtime.Caller are the engine's stubs (DESIGN.md section 3); everything else is executed from source",
		}, spec.Assumptions...),
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": native, "samples": samples,
			"states_are":      "feasible symbolic paths explored to their end (each stands for every input satisfying its path condition)",
			"transitions_are": "SSA instructions executed symbolically",
			"exhaustive":      exh, "queries_discharged": queries, "solver_seconds": sol, "solver": d.solver,
			"functions_encoded": fns, "harnesses": reps, "load_and_build_s": tLoad.Seconds(), "known_findings_reproduced": known,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(d.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(d.verif, "evidence", d.prop+".json"), b, 0o644)
}
