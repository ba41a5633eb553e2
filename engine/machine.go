package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// ---- Program (shared, read-only after load) ----

type Program struct {
	prog      *ssa.Program
	fset      *token.FileSet
	pkgs      map[string]*ssa.Package
	globalIdx map[*ssa.Global]int
	globals   []*ssa.Global
	fns       sync.Map // *ssa.Function -> *Fn
	harness   *ssa.Package
	modPkgs   []*ssa.Package // re-initialised per phase
	isMod     map[*ssa.Package]bool

	tmu      sync.Mutex
	tids     typeutil.Map // types.Type -> int
	rtypes   typeutil.Map // types.Type -> *rtypeObj
	nextTID  int
	fnUsed   sync.Map // names of module functions executed symbolically
	trimpath bool
	repo     string
	goroot   string
	rootFn   *Fn
	order    []*ssa.Package
}

func (p *Program) typeID(t types.Type) int {
	p.tmu.Lock()
	defer p.tmu.Unlock()
	if v := p.tids.At(t); v != nil {
		return v.(int)
	}
	p.nextTID++
	p.tids.Set(t, p.nextTID)
	return p.nextTID
}

type instrFn func(fr *Frame)
type termFn func(fr *Frame) int // successor index, or -1 return

type block struct {
	phis   []phi
	code   []instrFn
	term   termFn
	succs  []int
	preds  []int
	ninstr int
}

type phi struct {
	dst   int
	edges []opnd
}

type Fn struct {
	f      *ssa.Function
	name   string
	intr   intrinsic
	once   sync.Once
	blocks []block
	nregs  int
	params []int
	frees  []int
	hasDef bool
	recov  int // recover block index, -1 none
	wrap   bool
	inMod  bool
	used   bool
	nparam int
	owner  *Program
	noRace bool
}

type intrinsic func(m *Machine, caller *Frame, fn *Fn, args []Value) Value

type notHandledT struct{}

var notHandled Value = notHandledT{}

type deferred struct {
	run  func()
	next *deferred
}

type Frame struct {
	m      *Machine
	fn     *Fn
	regs   []Value
	caller *Frame
	pos    token.Pos
	defers *deferred
	result Value
	block  int
	prev   int
	// panic state
	panicking bool
	panicVal  any
	g         *G
	depth     int
}

// ---- control panics ----

type goPanic struct {
	v Value // Iface
}
type pathEnd struct {
	kind string // "assume", "violation", "unsupported", "limit", "error", "killed", "exit"
	msg  string
}
type goexitPanic struct{}

// ---- goroutines ----

type G struct {
	id      int
	ch      chan struct{}
	done    bool
	blocked func() bool // non-nil: blocked until it returns true
	vc      []int32
	name    string
	started bool
	op      func() schedOp // what it does when resumed
}

// ---- decisions ----

type Dec uint8 // bit0: direction, bit1: forced (no constraint added)

type group struct {
	vars []int32
	cs   []*Expr
}

type work struct {
	prefix []Dec
	model  map[string]uint64
}

type obs struct {
	label string
	vals  []Value
}

type assertStat struct {
	Reached  int // times reached
	Solver   int // discharged by an unsat answer
	Constant int // condition evaluated to constant true on the path
}

// Machine is one worker.
type Machine struct {
	curFr   *Frame // last frame entered, for diagnostics
	P       *Program
	X       *Explorer
	ctx     *ECtx
	sol     *Solver
	globals []*Value
	id      int

	// per path
	prefix       []Dec
	pos          int
	trace        []Dec
	model        []uint64
	groups       map[int32]*group
	doms         map[int32]*dom
	nDom         int
	nCross       int
	nInstr       int64
	symName      map[string]int
	syms         []symDecl
	env          map[string]Value
	flags        map[string]Value
	fs           *FS
	gs           []*G
	cur          *G
	pending      *pathEnd
	obs          []obs
	reached      map[string]bool
	stdout       []Value
	races        *raceState
	sched        bool  // explore schedules
	registered   Value // the registered harnesses
	preempt      int   // remaining preemptions (-1 unlimited)
	nsched       int
	sleep        map[*G]schedOp
	mapOrd       bool
	nmapord      int
	addrs        map[*Value]uint64
	boot         bool
	aux          map[any]any
	kv           map[string]Value
	notes        []string
	mutexes      map[*Value]*mutexState
	clock        uint64
	asserts      map[string]*assertStat
	schedLog     []string
	incomplete   string
	methCache    map[methKey]*Fn
	rtErrT       types.Type
	stubs        map[string]bool
	nBranches    int64
	nForks       int64
	pendingModel map[string]uint64
	implCache    map[implKey]bool
	killing      bool
	killAck      chan struct{}
	multi        bool
	fnSeen       map[*Fn]struct{}
	ctxOf        *Explorer // harness the expression context belongs to
	maxInstr     int64
	defMaxInstr  int64
	smtOnly      bool
	bootPkg      string
	pcs          []pcInfo
	trimpath     bool
	noPretty     bool
	entropy      uint64
}

type symDecl struct {
	name string
	w    uint8
	e    *Expr
	kind string
}

type methKey struct {
	t  types.Type
	id string
}

func (p *Program) getFn(f *ssa.Function) *Fn {
	if v, ok := p.fns.Load(f); ok {
		return v.(*Fn)
	}
	fn := &Fn{f: f, name: f.String(), owner: p, recov: -1}
	if f.Parent() == nil {
		fn.intr = lookupIntrinsic(f)
		if strings.HasPrefix(f.Name(), "init#") && f.Pkg != nil && f.Pkg.Pkg.Path()+"." == symPkg {
			// the harnesses are registered once per worker
			fn.intr = func(m *Machine, caller *Frame, fn *Fn, args []Value) Value {
				if m.registered != nil {
					return nil
				}
				return notHandled
			}
		}
	}
	if f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "range-over-func") && !strings.HasPrefix(f.Synthetic, "instance") &&
		f.Synthetic != "package initializer" {
		fn.wrap = true
	}
	root := f
	for root.Parent() != nil {
		root = root.Parent()
	}
	if pk := root.Package(); pk != nil {
		fn.inMod = p.isMod[pk]
	} else if o := root.Origin(); o != nil && o.Package() != nil {
		fn.inMod = p.isMod[o.Package()]
	}
	v, _ := p.fns.LoadOrStore(f, fn)
	return v.(*Fn)
}

func (fn *Fn) prepare() {
	fn.once.Do(func() { compileFn(fn) })
}

// ---- errors ----

func (m *Machine) rtErr(msg string) goPanic {
	if m.rtErrT == nil {
		rp := m.P.prog.ImportedPackage("runtime")
		m.rtErrT = rp.Type("errorString").Object().Type()
	}
	return goPanic{Iface{m.rtErrT, msg}}
}

func (m *Machine) plainErr(msg string) goPanic { return m.rtErr(msg) }

func (m *Machine) unsupported(format string, a ...any) pathEnd {
	return pathEnd{"unsupported", fmt.Sprintf(format, a...)}
}

// ---- branching ----

func (m *Machine) branchV(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Expr:
		return m.branch(v)
	}
	panic(fmt.Sprintf("branchV %T", v))
}

func (m *Machine) addConstraint(c *Expr) {
	if c.isConst() {
		return
	}
	if !m.ctx.byteVar(c) {
		if c.op == OAnd {
			m.addConstraint(c.a)
			m.addConstraint(c.b)
			return
		}
		if c.op == ONot && c.a.op == OOr {
			m.addConstraint(m.ctx.Not(c.a.a))
			m.addConstraint(m.ctx.Not(c.a.b))
			return
		}
	}
	if m.ctx.byteVar(c) {
		d := m.dom(c.vars[0])
		t := m.ctx.table(c)
		for i := range t {
			d.bits[i] &= t[i]
		}
	}
	var g *group
	for _, v := range c.vars {
		h := m.groups[v]
		if h == nil || h == g {
			continue
		}
		if g == nil {
			g = h
			continue
		}
		// merge smaller into larger
		if len(h.cs) > len(g.cs) {
			g, h = h, g
		}
		g.cs = append(g.cs, h.cs...)
		g.vars = mergeVars(g.vars, h.vars)
		for _, x := range h.vars {
			m.groups[x] = g
		}
	}
	if g == nil {
		g = &group{}
	}
	g.cs = append(g.cs, c)
	g.vars = mergeVars(g.vars, c.vars)
	for _, v := range g.vars {
		m.groups[v] = g
	}
}

func (m *Machine) slice(c *Expr) []*Expr {
	var res []*Expr
	seen := map[*group]bool{}
	for _, v := range c.vars {
		g := m.groups[v]
		if g != nil && !seen[g] {
			seen[g] = true
			res = append(res, g.cs...)
		}
	}
	return append(res, c)
}

func (m *Machine) query(c *Expr) cacheEnt {
	return m.sol.check(m.slice(c))
}

func (m *Machine) applyModel(ent cacheEnt) {
	for i, v := range ent.vars {
		for int(v) >= len(m.model) {
			m.model = append(m.model, 0)
		}
		m.model[v] = ent.model[i]
	}
}

func (m *Machine) modelWith(ent cacheEnt) map[string]uint64 {
	r := map[string]uint64{}
	for i, v := range m.model {
		if v != 0 {
			r[m.ctx.vars[i].name] = v
		}
	}
	for i, v := range ent.vars {
		r[m.ctx.vars[v].name] = ent.model[i]
	}
	return r
}

func (m *Machine) evalB(c *Expr) bool { return m.ctx.eval(c, m.model) != 0 }

// dom is the set of values the single-variable constraints of the path
// leave for a byte variable.
type dom struct {
	bits [4]uint64
}

func (m *Machine) dom(v int32) *dom {
	d := m.doms[v]
	if d == nil {
		d = &dom{bits: [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}}
		m.doms[v] = d
	}
	return d
}

// feasible decides whether the path condition allows c. The byte-domain layer
// answers exactly when a domain is empty (infeasible) or when a concrete
// witness of the whole slice is found (feasible); everything else goes to the
// SMT solver. A sample of the layer's decisions is cross-checked with SMT.
func (m *Machine) feasible(c *Expr) cacheEnt {
	if m.smtOnly {
		return m.query(c)
	}
	cands, empty := m.candidates(c, true)
	ent := cacheEnt{r: resUnsat}
	if !empty {
		w, ok := m.witness(c, cands)
		if !ok {
			return m.query(c)
		}
		ent = w
	}
	m.nDom++
	if m.nDom%256 == 17 {
		m.nCross++
		if r := m.query(c); r.r != resUnknown && r.r != ent.r {
			panic(fmt.Sprintf("solver disagreement on %s: domain %v, smt %v", m.ctx.str(c), ent.r, r.r))
		}
	}
	return ent
}

type asg struct {
	v int32
	x uint64
}

// candidates proposes assignments that satisfy c (pol) or its negation;
// empty means no value of the variables' domains does.
func (m *Machine) candidates(c *Expr, pol bool) (r [][]asg, empty bool) {
	if m.ctx.byteVar(c) {
		d := m.dom(c.vars[0])
		t := m.ctx.table(c)
		var in [4]uint64
		any := false
		for i := range in {
			x := t[i]
			if !pol {
				x = ^x
			}
			in[i] = d.bits[i] & x
			any = any || in[i] != 0
		}
		if !any {
			return nil, true
		}
		for k := 0; k < 4; k++ {
			x := pickByte(&in)
			r = append(r, []asg{{c.vars[0], x}})
			in[x>>6] &^= 1 << (x & 63)
			if in == [4]uint64{} {
				break
			}
		}
		return r, false
	}
	switch c.op {
	case OConst:
		if (c.k != 0) == pol {
			return [][]asg{nil}, false
		}
		return nil, true
	case ONot:
		return m.candidates(c.a, !pol)
	case OAnd, OOr:
		x, e1 := m.candidates(c.a, pol)
		y, e2 := m.candidates(c.b, pol)
		if (c.op == OAnd) == pol {
			if e1 || e2 {
				return nil, true
			}
			for _, a := range x {
				for _, b := range y {
					if len(r) >= 4 {
						return r, false
					}
					r = append(r, append(append([]asg(nil), a...), b...))
				}
			}
			return r, false
		}
		if e1 && e2 {
			return nil, true
		}
		r = append(append([][]asg(nil), x...), y...)
		if len(r) > 6 {
			r = append(r[:3:3], r[len(r)-3:]...)
		}
		return r, false
	}
	return nil, false
}

// witness checks candidate assignments against c and the constraints it is
// connected with.
func (m *Machine) witness(c *Expr, cands [][]asg) (cacheEnt, bool) {
	if len(cands) == 0 {
		return cacheEnt{}, false
	}
	cs := m.slice(c)
	for _, as := range cands {
		old := make([]uint64, len(as))
		for i, a := range as {
			for int(a.v) >= len(m.model) {
				m.model = append(m.model, 0)
			}
			old[i] = m.model[a.v]
			m.model[a.v] = a.x
		}
		ok := true
		m.ctx.epoch++
		for _, k := range cs {
			if m.ctx.ev(k, m.model) == 0 {
				ok = false
				break
			}
		}
		ent := cacheEnt{r: resSat}
		if ok {
			for _, a := range as {
				ent.vars = append(ent.vars, a.v)
				ent.model = append(ent.model, m.model[a.v])
			}
		}
		for i := len(as) - 1; i >= 0; i-- {
			m.model[as[i].v] = old[i]
		}
		if ok {
			return ent, true
		}
	}
	return cacheEnt{}, false
}

// pickByte chooses a member of the set, preferring printable ones.
func pickByte(s *[4]uint64) uint64 {
	for _, r := range [][2]int{{'a', 'z'}, {'0', '9'}, {' ', '~'}, {0, 255}} {
		for x := r[0]; x <= r[1]; x++ {
			if s[x>>6]>>(x&63)&1 != 0 {
				return uint64(x)
			}
		}
	}
	return 0
}

// branch decides a symbolic condition, forking the exploration if both
// outcomes are feasible.
func (m *Machine) branch(c *Expr) bool {
	if c.op == OConst {
		return c.k != 0
	}
	if m.boot {
		panic("symbolic branch during boot")
	}
	m.nBranches++
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		dir := d&1 != 0
		if d&2 == 0 {
			if dir {
				m.addConstraint(c)
			} else {
				m.addConstraint(m.ctx.Not(c))
			}
		}
		return dir
	}
	dir := m.evalB(c)
	lit, alt := c, m.ctx.Not(c)
	if !dir {
		lit, alt = alt, lit
	}
	ent := m.feasible(alt)
	d := Dec(0)
	if dir {
		d = 1
	}
	switch ent.r {
	case resUnsat:
		m.trace = append(m.trace, d|2)
		m.pos++
		m.prefix = m.trace
		return dir
	case resUnknown:
		m.incomplete = "solver returned unknown on a branch condition"
		m.trace = append(m.trace, d)
	default:
		np := make([]Dec, len(m.trace)+1)
		copy(np, m.trace)
		np[len(m.trace)] = d ^ 1
		m.X.push(work{np, m.modelWith(ent)})
		m.nForks++
		if brProf {
			m.noteFork(c)
		}
		m.trace = append(m.trace, d)
	}
	m.pos++
	m.prefix = m.trace
	m.addConstraint(lit)
	return dir
}

// assume adds c to the path condition; ends the path if infeasible.
func (m *Machine) assume(v Value) {
	c, ok := v.(*Expr)
	if !ok {
		if !v.(bool) {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	// behave like a branch whose false side is dropped
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		if d&2 == 0 {
			m.addConstraint(c)
		}
		return
	}
	if !m.evalB(c) {
		ent := m.feasible(c)
		if ent.r != resSat {
			if ent.r == resUnknown {
				m.incomplete = "solver returned unknown on an assumption"
			}
			panic(pathEnd{"assume", ""})
		}
		m.applyModel(ent)
	}
	m.trace = append(m.trace, 1)
	m.pos++
	m.prefix = m.trace
	m.addConstraint(c)
}

// concretize forks over all feasible values of e (binary descent, most
// significant bit first).
func (m *Machine) concretize(e *Expr) uint64 {
	if e.op == OConst {
		return e.k
	}
	if r, ok := m.aux[concKey{e.id}]; ok {
		return r.(uint64)
	}
	var v uint64
	if e.w == 0 {
		if m.branch(e) {
			v = 1
		}
	} else if m.byteVars(e) {
		// enumerating the bytes needs no solver
		for _, x := range e.vars {
			m.concretize(m.ctx.vars[x].e)
		}
		v = m.ctx.eval(e, m.model)
	} else {
		// most values are small: decide the high part at once
		if e.w > 8 && m.branch(m.ctx.Cmp(OUlt, e, m.ctx.Const(256, e.w))) {
			v = m.descend(e, 7, 0)
		} else {
			v = m.descend(e, int(e.w)-1, 0)
		}
	}
	m.aux[concKey{e.id}] = v
	return v
}

// byteVars reports whether e is a wide value of 2 to 4 symbolic bytes, such as
// a number parsed from digits.
func (m *Machine) byteVars(e *Expr) bool {
	if len(e.vars) < 2 || len(e.vars) > 4 || e.w < 32 {
		return false
	}
	for _, x := range e.vars {
		if m.ctx.vars[x].w != 8 {
			return false
		}
	}
	return true
}

func (m *Machine) descend(e *Expr, hi, lo int) uint64 {
	var v uint64
	for b := hi; b >= lo; b-- {
		bit := m.ctx.Not(m.ctx.Eq(m.ctx.Bin(OBAnd, e, m.ctx.Const(1<<uint(b), e.w)), m.ctx.Const(0, e.w)))
		if m.branch(bit) {
			v |= 1 << uint(b)
		}
	}
	return v
}

type concKey struct{ id int32 }

func (m *Machine) concV(v Value) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case *Expr:
		return m.concretize(v)
	}
	panic(fmt.Sprintf("concV %T", v))
}

func (m *Machine) concInt(v Value) int { return int(int64(m.concV(v))) }

// concStr concretises a symbolic string (forks over all contents).
func (m *Machine) concStr(v Value) string {
	if s, ok := goStr(v); ok {
		return s
	}
	cells := strCells(v)
	b := make([]byte, len(cells))
	for i, c := range cells {
		b[i] = byte(m.concV(c))
	}
	return string(b)
}

// ---- path driver ----

type PathResult struct {
	kind       string // ok, assume, violation, unsupported, limit, error
	msg        string
	stack      string
	model      map[string]uint64
	syms       []symDecl
	obs        []obsOut
	reached    map[string]bool
	label      string
	instrs     int64
	sched      []string
	incomplete string
	kv         map[string]string
}

type obsOut struct {
	Label string
	Vals  []string
}

func (m *Machine) initPath(w work) {
	m.prefix, m.pos, m.trace = w.prefix, 0, make([]Dec, 0, len(w.prefix)+16)
	for i := range m.model {
		m.model[i] = 0
	}
	for name, v := range w.model {
		if e, ok := m.ctx.byName[name]; ok {
			m.setModel(e, v)
		}
	}
	m.pendingModel = w.model
	m.groups = map[int32]*group{}
	m.doms = map[int32]*dom{}
	m.nInstr = 0
	m.symName = map[string]int{}
	m.syms = nil
	m.env = map[string]Value{}
	m.flags = map[string]Value{"test.run": "", "test.count": "1", "test.v": "false", "test.skip": ""}
	m.fs = newFS()
	m.obs = nil
	m.reached = map[string]bool{}
	m.stdout = nil
	m.sched = false
	m.nsched = 0
	m.sleep = map[*G]schedOp{}
	m.preempt = -1
	m.mapOrd = false
	m.nmapord = 0
	m.addrs = map[*Value]uint64{}
	m.aux = map[any]any{}
	m.kv = map[string]Value{}
	m.notes = nil
	m.mutexes = map[*Value]*mutexState{}
	m.clock = 1000
	m.races = nil
	m.pending = nil
	m.schedLog = nil
	m.incomplete = ""
	m.multi = false
	m.killing = false
	m.pcs = nil
	m.trimpath = false
	m.noPretty = false
	m.entropy = 0
	m.maxInstr = m.defMaxInstr
	m.stubs = map[string]bool{}
	g := &G{id: 0, ch: make(chan struct{}), name: "main", started: true}
	m.gs = []*G{g}
	m.cur = g
}

func (m *Machine) setModel(e *Expr, v uint64) {
	id := int(e.k)
	for id >= len(m.model) {
		m.model = append(m.model, 0)
	}
	m.model[id] = v
}

// symVar declares (or returns) the symbolic variable of that name on this path.
func (m *Machine) symVar(name string, w uint8, kind string) *Expr {
	known := m.ctx.byName[name] != nil
	e := m.ctx.Var(name, w)
	if !known {
		if v, ok := m.pendingModel[name]; ok {
			m.setModel(e, v)
		}
	}
	if _, ok := m.symName[name]; !ok {
		m.symName[name] = len(m.syms)
		m.syms = append(m.syms, symDecl{name, w, e, kind})
	}
	return e
}

func (m *Machine) runPath(w work, entry func(m *Machine)) (res PathResult) {
	if len(m.ctx.tab) > 1500000 || m.ctxOf != m.X {
		m.ctxOf = m.X
		m.ctx = newECtx()
		m.sol.stop()
		m.sol.ctx = m.ctx
		m.sol.cache = map[string]cacheEnt{}
		m.model = nil
	}
	if len(m.sol.cache) > 400000 {
		m.sol.cache = map[string]cacheEnt{}
	}
	m.initPath(w)
	defer func() {
		r := recover()
		res.instrs = m.nInstr
		res.reached = m.reached
		res.syms = m.syms
		res.incomplete = m.incomplete
		res.sched = m.schedLog
		m.killOthers()
		switch r := r.(type) {
		case nil:
			if res.kind == "" {
				res.kind = "ok"
			}
		case pathEnd:
			res.kind, res.msg = r.kind, r.msg
			if r.kind == "unsupported" {
				res.stack = m.curStack()
			}
		case goPanic:
			res.kind, res.msg = "panic", m.panicString(r)
		case goexitPanic:
			res.kind = "ok"
		default:
			res.kind = "error"
			res.msg = fmt.Sprint(r)
			res.stack = m.curStack() + string(debug.Stack())
		}
		if res.kind == "violation" {
			res.label = res.msg
		}
		res.model = m.namedModel()
		res.obs = m.evalObs()
	}()
	entry(m)
	if m.pending != nil {
		panic(*m.pending)
	}
	return
}

func (m *Machine) panicString(p goPanic) string {
	i, ok := p.v.(Iface)
	if !ok {
		return m.show(p.v)
	}
	return "panic: " + m.show(i)
}

func (m *Machine) namedModel() map[string]uint64 {
	r := map[string]uint64{}
	for _, d := range m.syms {
		r[d.name] = m.ctx.eval(d.e, m.model)
	}
	return r
}

func (m *Machine) evalObs() []obsOut {
	var r []obsOut
	for _, o := range m.obs {
		oo := obsOut{Label: o.label}
		for _, v := range o.vals {
			oo.Vals = append(oo.Vals, m.concreteBytes(v))
		}
		r = append(r, oo)
	}
	return r
}

// concreteBytes evaluates a string value under the current model.
func (m *Machine) concreteBytes(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	cells := strCells(v)
	b := make([]byte, len(cells))
	for i, c := range cells {
		switch c := c.(type) {
		case uint64:
			b[i] = byte(c)
		case *Expr:
			b[i] = byte(m.ctx.eval(c, m.model))
		}
	}
	return string(b)
}

// ---- Explorer ----

type Explorer struct {
	P                                  *Program
	mu                                 sync.Mutex
	cond                               *sync.Cond
	queue                              []work
	active                             int
	stopped                            bool
	nPaths                             int
	byKind                             map[string]int
	viol                               []PathResult
	unsup                              map[string]int
	samples                            []PathResult
	reached                            map[string]int
	instrs                             int64
	branches                           int64
	deadline                           time.Time
	maxPaths                           int
	timedOut                           bool
	maxInstr                           int64
	entry                              func(m *Machine)
	asserts                            map[string]*assertStat
	incompl                            map[string]int
	maxViol                            int
	queries, hits, sat, unsat, unknown int
	solTime                            time.Duration
	symCount                           int
	nDom, nCross                       int
	forks                              int64
	stubs                              map[string]bool
	sampleEvery                        int
	verbose                            bool
	violSeen                           map[string]int
	known                              map[string]bool
	knownHit                           map[string][]PathResult
	root                               string
	tier                               int
}

func (x *Explorer) push(w work) {
	x.mu.Lock()
	x.queue = append(x.queue, w)
	x.cond.Signal()
	x.mu.Unlock()
}

func (x *Explorer) next() (work, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stopped {
			return work{}, false
		}
		if n := len(x.queue); n > 0 {
			w := x.queue[n-1]
			x.queue = x.queue[:n-1]
			x.active++
			return w, true
		}
		if x.active == 0 {
			x.stopped = true
			x.cond.Broadcast()
			return work{}, false
		}
		x.cond.Wait()
	}
}

func (x *Explorer) done(r PathResult, m *Machine) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.active--
	x.nPaths++
	x.byKind[r.kind]++
	x.instrs += r.instrs
	if len(r.syms) > x.symCount {
		x.symCount = len(r.syms)
	}
	if r.kind != "assume" && r.kind != "redundant" {
		for k := range r.reached {
			x.reached[k]++
		}
	}
	for k := range m.stubs {
		x.stubs[k] = true
	}
	if r.incomplete != "" {
		x.incompl[r.incomplete]++
	}
	switch r.kind {
	case "violation", "panic":
		key := r.kind + ":" + r.msg
		x.violSeen[key]++
		if x.verbose && os.Getenv("GOSYM_ALL") != "" {
			fmt.Fprintf(os.Stderr, "ALL %.60s %v\n", r.msg, r.model)
		}
		if x.violSeen[key] <= 3 {
			x.viol = append(x.viol, r)
			// the verdict is no longer "holds": look for other kinds of
			// violation for a while, then stop
			if t := time.Now().Add(45 * time.Second); len(x.viol) == 1 && t.Before(x.deadline) {
				x.deadline = t
			}
		}
		if len(x.viol) >= x.maxViol {
			x.stopped = true
		}
	case "known":
		id := strings.SplitN(r.msg, "\x00", 2)[0]
		if len(x.knownHit[id]) < 2 {
			x.knownHit[id] = append(x.knownHit[id], r)
		}
	case "unsupported", "error", "limit":
		x.unsup[r.kind+": "+r.msg]++
		if x.verbose && x.unsup[r.kind+": "+r.msg] == 1 {
			fmt.Fprintf(os.Stderr, "  [%s] %s\n%s\n", r.kind, r.msg, r.stack)
		}
		if r.kind == "limit" {
			if x.violSeen["limit"]++; x.violSeen["limit"] <= 2 {
				x.viol = append(x.viol, r)
			}
			if x.violSeen["limit"] >= 50 {
				x.stopped = true
			}
		}
	case "ok":
		// reservoir-free deterministic spread of samples
		if len(x.samples) < 400 {
			x.samples = append(x.samples, r)
		} else if x.nPaths%97 == 0 {
			x.samples[x.nPaths/97%400] = r
		}
	}
	if x.maxPaths > 0 && x.nPaths >= x.maxPaths {
		x.timedOut = x.timedOut || len(x.queue) > 0 || x.active > 0
		x.stopped = true
	}
	if time.Now().After(x.deadline) && (len(x.queue) > 0 || x.active > 0) {
		x.timedOut = true
		x.stopped = true
	}
	x.cond.Broadcast()
}

func newExplorer(p *Program) *Explorer {
	x := &Explorer{P: p, byKind: map[string]int{}, unsup: map[string]int{}, reached: map[string]int{},
		asserts: map[string]*assertStat{}, incompl: map[string]int{}, maxViol: 12, stubs: map[string]bool{}, violSeen: map[string]int{}, known: map[string]bool{}, knownHit: map[string][]PathResult{}, root: "/vtmp"}
	x.cond = sync.NewCond(&x.mu)
	return x
}

func (x *Explorer) run(machines []*Machine) {
	x.queue = []work{{}}
	var wg sync.WaitGroup
	for _, m := range machines {
		m.X = x
		m.asserts = map[string]*assertStat{}
		m.nBranches, m.nForks, m.nDom, m.nCross = 0, 0, 0, 0
		q0, h0, s0, u0, k0, t0 := m.sol.Queries, m.sol.Hits, m.sol.Sat, m.sol.Unsat, m.sol.Unknown, m.sol.Time
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				w, ok := x.next()
				if !ok {
					break
				}
				r := m.runPath(w, x.entry)
				x.done(r, m)
			}
			x.mu.Lock()
			x.queries += m.sol.Queries - q0
			x.hits += m.sol.Hits - h0
			x.sat += m.sol.Sat - s0
			x.unsat += m.sol.Unsat - u0
			x.unknown += m.sol.Unknown - k0
			x.solTime += m.sol.Time - t0
			x.branches += m.nBranches
			x.forks += m.nForks
			x.nDom += m.nDom
			x.nCross += m.nCross
			for fn := range m.fnSeen {
				x.P.fnUsed.Store(fn.name, true)
			}
			for k, a := range m.asserts {
				b := x.asserts[k]
				if b == nil {
					b = &assertStat{}
					x.asserts[k] = b
				}
				b.Reached += a.Reached
				b.Solver += a.Solver
				b.Constant += a.Constant
			}
			x.mu.Unlock()
		}()
	}
	wg.Wait()
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// curStack is the interpreted stack of the frame that ran last.
func (m *Machine) curStack() string {
	var sb strings.Builder
	for f, n := m.curFr, 0; f != nil && n < 12; f, n = f.caller, n+1 {
		p := m.P.fset.Position(f.pos)
		fmt.Fprintf(&sb, "@ %s %s:%d\n", f.fn.name, p.Filename, p.Line)
	}
	return sb.String()
}

// development: where paths fork
var (
	brProf = os.Getenv("GOSYM_BR") != ""
	brMu   sync.Mutex
	brCnt  = map[string]int{}
)

func (m *Machine) noteFork(c *Expr) {
	k := strings.ReplaceAll(m.curStack(), "\n", " ")
	if len(k) > 500 {
		k = k[:500]
	}
	for _, v := range c.vars {
		k = m.ctx.vars[v].name + " " + k
	}
	brMu.Lock()
	brCnt[k]++
	brMu.Unlock()
}

func brDump() {
	var ks []string
	for k := range brCnt {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return brCnt[ks[i]] > brCnt[ks[j]] })
	for i, k := range ks {
		if i < 25 {
			fmt.Println("FORK", brCnt[k], k)
		}
	}
}
