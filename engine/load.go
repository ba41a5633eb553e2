package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/gkampitakis/go-snaps"

// loadProgram loads /repo's current source plus the harness (overlay) and
// builds SSA for everything reachable.
func loadProgram(repo, harnessDir string) (*Program, error) {
	overlay, pkgs, err := harnessOverlay(repo, harnessDir)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Tests:      true,
		Overlay:    overlay,
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off"),
		BuildFlags: []string{"-tags=verif"},
	}
	ps, err := packages.Load(cfg, pkgs...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	// keep the test variants of the harness packages
	var roots []*packages.Package
	for _, p := range ps {
		if strings.HasSuffix(p.ID, ".test") {
			continue
		}
		hasTest := false
		for _, f := range p.GoFiles {
			if strings.HasSuffix(f, "_test.go") {
				hasTest = true
			}
		}
		if hasTest {
			roots = append(roots, p)
		}
	}
	if len(roots) == 0 {
		return nil, fmt.Errorf("no harness package loaded")
	}
	prog, spkgs := ssautil.AllPackages(roots, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fset: prog.Fset, globalIdx: map[*ssa.Global]int{}, isMod: map[*ssa.Package]bool{}, repo: repo}
	p.goroot = goEnvRoot()
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, pk := range all {
		path := pk.Pkg.Path()
		if path == modPath || strings.HasPrefix(path, modPath+"/") || path == "github.com/gkampitakis/ciinfo" {
			p.isMod[pk] = true
		}
		for _, mem := range sortedMembers(pk) {
			if g, ok := mem.(*ssa.Global); ok {
				p.globalIdx[g] = len(p.globals)
				p.globals = append(p.globals, g)
			}
		}
	}
	for i, r := range roots {
		if r.PkgPath == modPath+"/zzverif" {
			p.harness = spkgs[i]
		}
	}
	if p.harness == nil {
		return nil, fmt.Errorf("harness package missing")
	}
	if tr := prog.ImportedPackage("testing"); tr != nil {
		p.rootFn = p.getFn(tr.Func("tRunner"))
	}
	p.order = initOrder(p.harness)
	return p, nil
}

func sortedMembers(pk *ssa.Package) []ssa.Member {
	var names []string
	for n := range pk.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	var r []ssa.Member
	for _, n := range names {
		r = append(r, pk.Members[n])
	}
	return r
}

// initOrder lists the packages reachable from root in dependency order.
func initOrder(root *ssa.Package) []*ssa.Package {
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(tp *types.Package)
	visit = func(tp *types.Package) {
		if seen[tp] {
			return
		}
		seen[tp] = true
		imps := append([]*types.Package(nil), tp.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			visit(i)
		}
		if sp := root.Prog.Package(tp); sp != nil {
			order = append(order, sp)
		}
	}
	visit(root.Pkg)
	return order
}

// harnessOverlay maps the harness sources into the module tree.
func harnessOverlay(repo, dir string) (map[string][]byte, []string, error) {
	ov := map[string][]byte{}
	pk := map[string]bool{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ov[filepath.Join(repo, "zzverif", rel)] = b
		pk["./"+filepath.Join("zzverif", filepath.Dir(rel))] = true
		return nil
	})
	var l []string
	for k := range pk {
		l = append(l, k)
	}
	sort.Strings(l)
	return ov, l, err
}

func (p *Program) fnByName(pkg, name string) *Fn {
	pk := p.prog.ImportedPackage(pkg)
	if pk == nil {
		panic(pathEnd{"unsupported", "package not loaded: " + pkg})
	}
	f := pk.Func(name)
	if f == nil {
		panic(pathEnd{"unsupported", "function not found: " + pkg + "." + name})
	}
	return p.getFn(f)
}

func (p *Program) typeByName(pkg, name string) types.Type {
	pk := p.prog.ImportedPackage(pkg)
	if pk == nil {
		panic(pathEnd{"unsupported", "package not loaded: " + pkg})
	}
	t := pk.Type(name)
	if t == nil {
		panic(pathEnd{"unsupported", "type not found: " + pkg + "." + name})
	}
	return t.Type()
}

func (p *Program) position(pos token.Pos) (string, int) {
	ps := p.fset.Position(pos)
	return ps.Filename, ps.Line
}

// ---- machine boot ----

func newMachine(p *Program, id int, solver []string) *Machine {
	m := &Machine{P: p, id: id, ctx: newECtx(), methCache: map[methKey]*Fn{}, implCache: map[implKey]bool{},
		killAck: make(chan struct{}), fnSeen: map[*Fn]struct{}{}, asserts: map[string]*assertStat{}, maxInstr: 1 << 62, defMaxInstr: 400_000_000}
	m.sol = newSolver(m.ctx, solver)
	m.globals = make([]*Value, len(p.globals))
	for i, g := range p.globals {
		v := new(Value)
		*v = zero(deref(g.Type()))
		m.globals[i] = v
	}
	return m
}

// packages whose initialisers are not executed (runtime internals; the parts
// of their state that matter are provided by intrinsics).
var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "internal/runtime/sys": true, "runtime/debug": true,
	"internal/godebug": true, "runtime/metrics": true, "runtime/pprof": true, "internal/poll": true,
	"reflect": true, "internal/reflectlite": true, "os/signal": true, "internal/sysinfo": true, "runtime/trace": true,
	"internal/abi": true, "internal/syscall/unix": true, "internal/syscall/execenv": true, "testing": true,
	"internal/testlog": true, "crypto": true, "net": true, "os/exec": true, "math/rand": true, "math/rand/v2": true,
	"compress/flate": true, "compress/gzip": true, "context": false, "internal/sync": true, "unique": true,
	"text/template": true, "html/template": true, "internal/coverage": true, "testing/internal/testdeps": true,
	"hash/crc32": true, "hash/maphash": true, "internal/chacha8rand": true, "runtime/coverage": true, "internal/fuzz": true,
	"crypto/sha256": true, "crypto/subtle": true, "internal/race": true, "internal/bisect": true, "vendor/golang.org/x/sys/cpu": true,
}

func (p *Program) initSkipped(path string) bool {
	if skipInit[path] {
		return true
	}
	if strings.HasPrefix(path, "internal/runtime/") || strings.HasPrefix(path, "crypto/internal/") || strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "net/") {
		return true
	}
	return false
}

// bootInit runs the initialisers of all non-module packages once.
func (m *Machine) bootInit() (err error) {
	m.initPath(work{})
	m.boot = true
	defer func() {
		m.boot = false
		if r := recover(); r != nil {
			switch r := r.(type) {
			case goPanic:
				err = fmt.Errorf("boot: %s (package %s)", m.panicString(r), m.bootPkg)
			case pathEnd:
				err = fmt.Errorf("boot: %s %s (package %s)", r.kind, r.msg, m.bootPkg)
			default:
				panic(r)
			}
		}
	}()
	for _, pk := range m.P.order {
		if m.P.isMod[pk] {
			continue
		}
		m.bootPkg = pk.Pkg.Path()
		if !m.P.initSkipped(m.bootPkg) {
			m.runInit(pk)
		}
		m.setInitGuard(pk)
	}
	m.afterBoot()
	return nil
}

func (m *Machine) setInitGuard(pk *ssa.Package) {
	if g, ok := pk.Members["init$guard"].(*ssa.Global); ok {
		*m.globals[m.P.globalIdx[g]] = true
	}
}

func (m *Machine) runInit(pk *ssa.Package) {
	m.call(nil, m.P.getFn(pk.Func("init")), nil, nil)
}

// phaseInit resets and re-initialises the module packages (a new process).
func (m *Machine) phaseInit() {
	for i, g := range m.P.globals {
		if m.P.isMod[g.Pkg] {
			v := new(Value)
			*v = zero(deref(g.Type()))
			m.globals[i] = v
		}
	}
	m.mutexes = map[*Value]*mutexState{}
	for _, pk := range m.P.order {
		if m.P.isMod[pk] {
			m.runInit(pk)
			m.setInitGuard(pk)
		}
	}
	if h := m.getGlobal(modPath+"/zzverif", "harnesses"); m.registered == nil {
		m.registered = *h
	} else {
		*h = m.registered
	}
}

func (m *Machine) setGlobal(pkg, name string, v Value) {
	pk := m.P.prog.ImportedPackage(pkg)
	if pk == nil {
		return
	}
	g, ok := pk.Members[name].(*ssa.Global)
	if !ok {
		return
	}
	*m.globals[m.P.globalIdx[g]] = v
}

func (m *Machine) getGlobal(pkg, name string) *Value {
	pk := m.P.prog.ImportedPackage(pkg)
	if pk == nil {
		return nil
	}
	g, ok := pk.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	return m.globals[m.P.globalIdx[g]]
}

func goEnvRoot() string {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return os.Getenv("GOROOT")
	}
	return strings.TrimSpace(string(out))
}
