package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opnd is a compiled operand.
type opnd struct {
	kind uint8 // 0 register, 1 constant, 2 global
	idx  int
	val  Value
}

func (o *opnd) get(fr *Frame) Value {
	switch o.kind {
	case 0:
		return fr.regs[o.idx]
	case 1:
		return o.val
	}
	return fr.m.globals[o.idx]
}

type compiler struct {
	fn   *Fn
	p    *Program
	regs map[ssa.Value]int
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := len(c.regs)
	c.regs[v] = r
	return r
}

func constValue(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return zero(t)
	}
	if w, _, ok := intType(t); ok {
		if w == 0 {
			w = 64
		}
		if u, exact := constant.Uint64Val(constant.ToInt(k.Value)); exact {
			return u & mask(w)
		}
		i, _ := constant.Int64Val(constant.ToInt(k.Value))
		return uint64(i) & mask(w)
	}
	switch {
	case isBool(t):
		return constant.BoolVal(k.Value)
	case isString(t):
		if k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		i, _ := constant.Int64Val(k.Value)
		return string(rune(i))
	case isFloat(t):
		f, _ := constant.Float64Val(k.Value)
		if isFloat32(t) {
			f = float64(float32(f))
		}
		return f
	case isComplex(t):
		re, _ := constant.Float64Val(constant.Real(k.Value))
		im, _ := constant.Float64Val(constant.Imag(k.Value))
		return complex(re, im)
	}
	panic(fmt.Sprintf("constValue %v %v", k, t))
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{kind: 1, val: constValue(v)}
	case *ssa.Global:
		i, ok := c.p.globalIdx[v]
		if !ok {
			panic("unknown global " + v.String())
		}
		return opnd{kind: 2, idx: i}
	case *ssa.Function:
		return opnd{kind: 1, val: &Closure{fn: c.p.getFn(v)}}
	case *ssa.Builtin:
		return opnd{kind: 1, val: nil}
	}
	return opnd{kind: 0, idx: c.reg(v)}
}

func compileFn(fn *Fn) {
	f := fn.f
	c := &compiler{fn: fn, p: fn.owner, regs: map[ssa.Value]int{}}
	for _, p := range f.Params {
		fn.params = append(fn.params, c.reg(p))
	}
	for _, p := range f.FreeVars {
		fn.frees = append(fn.frees, c.reg(p))
	}
	fn.nparam = len(f.Params)
	fn.blocks = make([]block, len(f.Blocks))
	for bi, b := range f.Blocks {
		blk := &fn.blocks[bi]
		for si, s := range b.Succs {
			blk.succs = append(blk.succs, s.Index)
			// which predecessor slot of s are we?
			occ := 0
			for k := 0; k < si; k++ {
				if b.Succs[k] == s {
					occ++
				}
			}
			pi := -1
			for k, p := range s.Preds {
				if p == b {
					if occ == 0 {
						pi = k
						break
					}
					occ--
				}
			}
			blk.preds = append(blk.preds, pi)
		}
		for _, ins := range b.Instrs {
			blk.ninstr++
			if ph, ok := ins.(*ssa.Phi); ok {
				e := phi{dst: c.reg(ph)}
				for _, x := range ph.Edges {
					e.edges = append(e.edges, c.op(x))
				}
				blk.phis = append(blk.phis, e)
				continue
			}
			if t := c.term(ins); t != nil {
				blk.term = t
				continue
			}
			if i := c.instr(ins); i != nil {
				blk.code = append(blk.code, i)
			}
		}
		if blk.term == nil {
			blk.term = func(fr *Frame) int { panic("block without terminator") }
		}
	}
	if f.Recover != nil {
		fn.recov = f.Recover.Index
	}
	fn.nregs = len(c.regs)
	if fn.inMod && !fn.wrap && f.Synthetic == "" {
		fn.used = true
	}
}

func (c *compiler) term(ins ssa.Instruction) termFn {
	switch ins := ins.(type) {
	case *ssa.Jump:
		return func(fr *Frame) int { return 0 }
	case *ssa.If:
		cond := c.op(ins.Cond)
		pos := ins.Cond.Pos()
		return func(fr *Frame) int {
			switch v := cond.get(fr).(type) {
			case bool:
				if v {
					return 0
				}
				return 1
			case *Expr:
				if pos.IsValid() {
					fr.pos = pos
				}
				if fr.m.branch(v) {
					return 0
				}
				return 1
			}
			panic("if: bad condition")
		}
	case *ssa.Return:
		switch len(ins.Results) {
		case 0:
			return func(fr *Frame) int { fr.result = nil; return -1 }
		case 1:
			o := c.op(ins.Results[0])
			return func(fr *Frame) int { fr.result = o.get(fr); return -1 }
		}
		os := make([]opnd, len(ins.Results))
		for i, r := range ins.Results {
			os[i] = c.op(r)
		}
		return func(fr *Frame) int {
			t := make(Tuple, len(os))
			for i := range os {
				t[i] = os[i].get(fr)
			}
			fr.result = t
			return -1
		}
	case *ssa.Panic:
		o := c.op(ins.X)
		pos := ins.Pos()
		return func(fr *Frame) int {
			fr.pos = pos
			v := o.get(fr)
			if i, ok := v.(Iface); ok && i.t == nil {
				panic(fr.m.rtErr("panic called with nil argument"))
			}
			panic(goPanic{v})
		}
	}
	return nil
}

func (c *compiler) instr(ins ssa.Instruction) instrFn {
	switch ins := ins.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		dst := c.reg(ins)
		t := deref(ins.Type())
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return func(fr *Frame) {
				p := new(Value)
				*p = zero(t)
				fr.regs[dst] = p
			}
		}
		z := zero(t)
		return func(fr *Frame) {
			p := new(Value)
			*p = z
			fr.regs[dst] = p
		}
	case *ssa.UnOp:
		return c.unop(ins)
	case *ssa.BinOp:
		return c.binop(ins)
	case *ssa.Store:
		a, v := c.op(ins.Addr), c.op(ins.Val)
		pos := ins.Pos()
		return func(fr *Frame) {
			switch p := a.get(fr).(type) {
			case *Value:
				if p == nil {
					fr.pos = pos
					panic(fr.m.nilDeref())
				}
				if fr.m.races != nil {
					fr.pos = pos
					fr.m.raceWrite(fr, p)
				}
				storeInto(p, v.get(fr))
			case *SymPtr:
				fr.m.symStore(p, v.get(fr))
			default:
				panic(fmt.Sprintf("store to %T", p))
			}
		}
	case *ssa.FieldAddr:
		dst, x, i := c.reg(ins), c.op(ins.X), ins.Field
		pos := ins.Pos()
		st := ins.X.Type().Underlying().(*types.Pointer).Elem()
		return func(fr *Frame) {
			p, _ := x.get(fr).(*Value)
			if p == nil {
				fr.pos = pos
				panic(fr.m.nilDeref())
			}
			s, ok := (*p).(Struct)
			if !ok {
				switch (*p).(type) {
				case string, *SymStr, []Value: // header punning, read only
					s = fr.m.punLoad(st, *p).(Struct)
				default:
					panic(pathEnd{"unsupported", fmt.Sprintf("field address of %T in %s", *p, fr.fn.name)})
				}
			}
			fr.regs[dst] = &s[i]
		}
	case *ssa.Field:
		dst, x, i := c.reg(ins), c.op(ins.X), ins.Field
		return func(fr *Frame) { fr.regs[dst] = x.get(fr).(Struct)[i] }
	case *ssa.IndexAddr:
		return c.indexAddr(ins)
	case *ssa.Index:
		return c.index(ins)
	case *ssa.Lookup:
		dst, x, k := c.reg(ins), c.op(ins.X), c.op(ins.Index)
		et := ins.X.Type().Underlying().(*types.Map).Elem()
		commaOk := ins.CommaOk
		pos := ins.Pos()
		return func(fr *Frame) {
			mp, _ := x.get(fr).(*Map)
			key := k.get(fr)
			if fr.m.races != nil && mp != nil {
				fr.pos = pos
				fr.m.raceRead(fr, &mp.shadow)
			}
			fr.pos = pos
			i := fr.m.mapFind(mp, key)
			var v Value
			if i >= 0 {
				v = copyVal(mp.ents[i].v)
			} else {
				v = zero(et)
			}
			if commaOk {
				fr.regs[dst] = Tuple{v, i >= 0}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		x, k, v := c.op(ins.Map), c.op(ins.Key), c.op(ins.Value)
		pos := ins.Pos()
		return func(fr *Frame) {
			fr.pos = pos
			mp, _ := x.get(fr).(*Map)
			if fr.m.races != nil && mp != nil {
				fr.m.raceWrite(fr, &mp.shadow)
			}
			fr.m.mapSet(mp, k.get(fr), v.get(fr))
		}
	case *ssa.MakeMap:
		dst := c.reg(ins)
		kt := ins.Type().Underlying().(*types.Map).Key()
		return func(fr *Frame) { fr.regs[dst] = newMap(kt) }
	case *ssa.MakeChan:
		dst, n := c.reg(ins), c.op(ins.Size)
		return func(fr *Frame) { fr.regs[dst] = &Chan{cap: fr.m.concInt(n.get(fr))} }
	case *ssa.MakeSlice:
		dst, l, cp := c.reg(ins), c.op(ins.Len), c.op(ins.Cap)
		et := ins.Type().Underlying().(*types.Slice).Elem()
		pos := ins.Pos()
		return func(fr *Frame) {
			fr.pos = pos
			n, k := fr.m.concInt(l.get(fr)), fr.m.concInt(cp.get(fr))
			fr.regs[dst] = fr.m.makeSlice(et, n, k)
		}
	case *ssa.MakeInterface:
		dst, x := c.reg(ins), c.op(ins.X)
		t := ins.X.Type()
		return func(fr *Frame) { fr.regs[dst] = Iface{t, x.get(fr)} }
	case *ssa.ChangeInterface:
		dst, x := c.reg(ins), c.op(ins.X)
		return func(fr *Frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.ChangeType:
		dst, x := c.reg(ins), c.op(ins.X)
		return func(fr *Frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.Convert:
		return c.convert(ins.X, ins, ins.Pos())
	case *ssa.MultiConvert:
		return c.convert(ins.X, ins, ins.Pos())
	case *ssa.SliceToArrayPointer:
		dst, x := c.reg(ins), c.op(ins.X)
		n := int(deref(ins.Type()).Underlying().(*types.Array).Len())
		return func(fr *Frame) {
			s, _ := x.get(fr).([]Value)
			if len(s) < n {
				panic(fr.m.rtErr("cannot convert slice to array pointer: length too short"))
			}
			if s == nil {
				fr.regs[dst] = nilPtr
				return
			}
			p := new(Value)
			*p = Array(s[:n:n])
			fr.regs[dst] = p
		}
	case *ssa.MakeClosure:
		dst := c.reg(ins)
		f := c.p.getFn(ins.Fn.(*ssa.Function))
		bs := make([]opnd, len(ins.Bindings))
		for i, b := range ins.Bindings {
			bs[i] = c.op(b)
		}
		return func(fr *Frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[dst] = &Closure{fn: f, env: env}
		}
	case *ssa.Extract:
		dst, x, i := c.reg(ins), c.op(ins.Tuple), ins.Index
		return func(fr *Frame) { fr.regs[dst] = x.get(fr).(Tuple)[i] }
	case *ssa.Slice:
		return c.slice(ins)
	case *ssa.TypeAssert:
		return c.typeAssert(ins)
	case *ssa.Range:
		dst, x := c.reg(ins), c.op(ins.X)
		_, isMap := ins.X.Type().Underlying().(*types.Map)
		inMod := c.fn.inMod
		pos := ins.Pos()
		return func(fr *Frame) {
			if isMap {
				mp, _ := x.get(fr).(*Map)
				it := &mapIter{mp: mp}
				if mp != nil && fr.m.races != nil {
					fr.pos = pos
					fr.m.raceRead(fr, &mp.shadow)
				}
				if inMod && fr.m.mapOrd {
					it.order = fr.m.mapOrder(mp)
				}
				fr.regs[dst] = it
				return
			}
			fr.regs[dst] = &strIter{s: x.get(fr)}
		}
	case *ssa.Next:
		dst, x := c.reg(ins), c.op(ins.Iter)
		tt := ins.Type().(*types.Tuple)
		isStr := ins.IsString
		var kt, vt types.Type = tt.At(1).Type(), tt.At(2).Type()
		return func(fr *Frame) {
			if isStr {
				it := x.get(fr).(*strIter)
				if it.i >= strLen(it.s) {
					fr.regs[dst] = Tuple{false, uint64(0), uint64(0)}
					return
				}
				r, n := fr.m.decodeRune(fr, it.s, it.i)
				fr.regs[dst] = Tuple{true, uint64(it.i), r}
				it.i += n
				return
			}
			it := x.get(fr).(*mapIter)
			k, v, ok := it.next()
			if !ok {
				fr.regs[dst] = Tuple{false, zeroOrNil(kt), zeroOrNil(vt)}
				return
			}
			fr.regs[dst] = Tuple{true, copyVal(k), copyVal(v)}
		}
	case *ssa.Call:
		return c.call(ins)
	case *ssa.Defer:
		return c.deferI(ins)
	case *ssa.Go:
		return c.goI(ins)
	case *ssa.RunDefers:
		c.fn.hasDef = true
		return func(fr *Frame) { fr.runDefers() }
	case *ssa.Send:
		ch, x := c.op(ins.Chan), c.op(ins.X)
		return func(fr *Frame) {
			h, _ := ch.get(fr).(*Chan)
			fr.m.chanSend(h, x.get(fr))
		}
	case *ssa.Select:
		return c.selectI(ins)
	}
	s := fmt.Sprintf("instruction %T", ins)
	return func(fr *Frame) { panic(pathEnd{"unsupported", s}) }
}

func zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

type mapIter struct {
	mp    *Map
	i     int
	order []int
}

func (it *mapIter) next() (k, v Value, ok bool) {
	if it.mp == nil {
		return
	}
	if it.order != nil {
		for it.i < len(it.order) {
			e := &it.mp.ents[it.order[it.i]]
			it.i++
			if !e.dead {
				return e.k, e.v, true
			}
		}
		return
	}
	for it.i < len(it.mp.ents) {
		e := &it.mp.ents[it.i]
		it.i++
		if !e.dead {
			return e.k, e.v, true
		}
	}
	return
}

type strIter struct {
	s Value
	i int
}

// mapOrder picks an iteration order nondeterministically (maps of up to 4 entries: every order).
func (m *Machine) mapOrder(mp *Map) []int {
	if mp == nil || mp.count < 2 {
		return nil
	}
	var live []int
	for i := range mp.ents {
		if !mp.ents[i].dead {
			live = append(live, i)
		}
	}
	if len(live) > 4 {
		// reversal only
		e := m.symVar(fmt.Sprintf("maporder%d", m.nmapord), 8, "choice")
		m.nmapord++
		if m.branch(m.ctx.Eq(m.ctx.Bin(OBAnd, e, m.ctx.Const(1, 8)), m.ctx.Const(1, 8))) {
			for i, j := 0, len(live)-1; i < j; i, j = i+1, j-1 {
				live[i], live[j] = live[j], live[i]
			}
		}
		return live
	}
	var order []int
	for len(live) > 1 {
		e := m.symVar(fmt.Sprintf("maporder%d", m.nmapord), 8, "choice")
		m.nmapord++
		k := m.choose(e, len(live))
		order = append(order, live[k])
		live = append(append([]int{}, live[:k]...), live[k+1:]...)
	}
	return append(order, live[0])
}

// choose forks over 0..n-1 for e (values >= n are folded on n-1).
func (m *Machine) choose(e *Expr, n int) int {
	for k := 0; k < n-1; k++ {
		if m.branch(m.ctx.Eq(e, m.ctx.Const(uint64(k), e.w))) {
			return k
		}
	}
	return n - 1
}

func (m *Machine) nilDeref() goPanic {
	return m.rtErr("invalid memory address or nil pointer dereference")
}

func (m *Machine) makeSlice(et types.Type, n, k int) Value {
	if n < 0 || k < n {
		panic(m.rtErr("makeslice: len out of range"))
	}
	if k > 1<<28 {
		panic(m.unsupported("makeslice of %d elements", k))
	}
	s := make([]Value, k)
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range s {
			s[i] = zero(et)
		}
	default:
		z := zero(et)
		for i := range s {
			s[i] = z
		}
	}
	return s[:n]
}

// ---- indexing ----

// checkIndex resolves an index against length n; returns either a concrete
// index or a symbolic (64-bit) in-range index.
func (m *Machine) checkIndex(v Value, t types.Type, n int) (int, *Expr) {
	switch v := v.(type) {
	case uint64:
		w, signed, _ := intType(t)
		i := int64(v)
		if signed {
			i = sext(v, w)
		}
		if i < 0 || i >= int64(n) {
			panic(m.rtErr(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
		}
		return int(i), nil
	case *Expr:
		w, signed, _ := intType(t)
		var e *Expr
		if signed {
			e = m.ctx.SExt(v, 64)
		} else {
			e = m.ctx.ZExt(v, 64)
		}
		_ = w
		if e.isConst() {
			return m.checkIndex(e.k, types.Typ[types.Int], n)
		}
		if !m.branch(m.ctx.Cmp(OUlt, e, m.ctx.Const(uint64(n), 64))) {
			panic(m.rtErr(fmt.Sprintf("index out of range [symbolic] with length %d", n)))
		}
		return 0, e
	}
	panic(fmt.Sprintf("index %T", v))
}

func (c *compiler) indexAddr(ins *ssa.IndexAddr) instrFn {
	dst, x, ix := c.reg(ins), c.op(ins.X), c.op(ins.Index)
	it := ins.Index.Type()
	et := deref(ins.Type())
	_, scalar := scalarWidth(et)
	pos := ins.Pos()
	_, signed, _ := intType(it)
	iw, _, _ := intType(it)
	return func(fr *Frame) {
		var cells []Value
		switch v := x.get(fr).(type) {
		case []Value:
			cells = v
		case *Value:
			if v == nil {
				fr.pos = pos
				panic(fr.m.nilDeref())
			}
			a, ok := (*v).(Array)
			if !ok {
				panic(pathEnd{"unsupported", fmt.Sprintf("index address of %T in %s", *v, fr.fn.name)})
			}
			cells = a
		default:
			panic(fmt.Sprintf("indexaddr of %T in %s", v, fr.fn.name))
		}
		iv := ix.get(fr)
		if k, ok := iv.(uint64); ok {
			i := int64(k)
			if signed && iw < 64 {
				i = sext(k, iw)
			}
			if i < 0 || i >= int64(len(cells)) {
				fr.pos = pos
				panic(fr.m.rtErr(fmt.Sprintf("index out of range [%d] with length %d", i, len(cells))))
			}
			fr.regs[dst] = &cells[i]
			return
		}
		fr.pos = pos
		i, e := fr.m.checkIndex(iv, it, len(cells))
		if e != nil {
			if scalar {
				fr.regs[dst] = &SymPtr{arr: cells, idx: e, elem: et}
				return
			}
			i = int(fr.m.concretize(e))
		}
		fr.regs[dst] = &cells[i]
	}
}

func (c *compiler) index(ins *ssa.Index) instrFn {
	dst, x, ix := c.reg(ins), c.op(ins.X), c.op(ins.Index)
	it := ins.Index.Type()
	_, signed, _ := intType(it)
	iw, _, _ := intType(it)
	et := ins.Type()
	w, scalar := scalarWidth(et)
	pos := ins.Pos()
	return func(fr *Frame) {
		xv := x.get(fr)
		var n int
		var cells []Value
		isStr := false
		switch v := xv.(type) {
		case string:
			n, isStr = len(v), true
		case *SymStr:
			n, isStr, cells = len(v.b), true, v.b
		case Array:
			n, cells = len(v), v
		default:
			panic(fmt.Sprintf("index of %T", xv))
		}
		iv := ix.get(fr)
		var i int64
		if k, ok := iv.(uint64); ok {
			i = int64(k)
			if signed && iw < 64 {
				i = sext(k, iw)
			}
			if i < 0 || i >= int64(n) {
				fr.pos = pos
				panic(fr.m.rtErr(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
			}
		} else {
			fr.pos = pos
			j, e := fr.m.checkIndex(iv, it, n)
			if e != nil {
				if isStr && cells == nil {
					cells = strCells(xv)
				}
				if scalar {
					fr.regs[dst] = fr.m.selectCell(cells, e, w)
					return
				}
				j = int(fr.m.concretize(e))
			}
			i = int64(j)
		}
		if s, ok := xv.(string); ok {
			fr.regs[dst] = uint64(s[i])
			return
		}
		fr.regs[dst] = cells[i]
	}
}

// selectCell builds the ite term for cells[e].
func (m *Machine) selectCell(cells []Value, e *Expr, w uint8) Value {
	// when the index depends on few values, restrict: idx = zext(byte)
	n := len(cells)
	if x := e; x.op == OZExt && x.a.w < 64 {
		if lim := uint64(1) << x.a.w; uint64(n) > lim {
			n = int(lim)
		}
	}
	// runs of equal values
	type run struct {
		end int
		v   *Expr
	}
	var runs []run
	for i := 0; i < n; i++ {
		v := m.toExpr(cells[i], w)
		if k := len(runs); k > 0 && runs[k-1].v == v {
			runs[k-1].end = i + 1
		} else {
			runs = append(runs, run{i + 1, v})
		}
	}
	r := runs[len(runs)-1].v
	for i := len(runs) - 2; i >= 0; i-- {
		r = m.ctx.Ite(m.ctx.Cmp(OUlt, e, m.ctx.Const(uint64(runs[i].end), 64)), runs[i].v, r)
	}
	return fromExpr(r)
}

func (m *Machine) symStore(p *SymPtr, v Value) {
	w, _ := scalarWidth(p.elem)
	nv := m.toExpr(v, w)
	for i := range p.arr {
		p.arr[i] = fromExpr(m.ctx.Ite(m.ctx.Eq(p.idx, m.ctx.Const(uint64(i), 64)), nv, m.toExpr(p.arr[i], w)))
	}
}

func (c *compiler) slice(ins *ssa.Slice) instrFn {
	dst, x := c.reg(ins), c.op(ins.X)
	var lo, hi, mx *opnd
	get := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := c.op(v)
		return &o
	}
	lo, hi, mx = get(ins.Low), get(ins.High), get(ins.Max)
	pos := ins.Pos()
	return func(fr *Frame) {
		fr.pos = pos
		m := fr.m
		idx := func(o *opnd, def int) int {
			if o == nil {
				return def
			}
			return m.concInt(o.get(fr))
		}
		xv := x.get(fr)
		var cells []Value
		switch v := xv.(type) {
		case string, *SymStr:
			n := strLen(v)
			l, h := idx(lo, 0), idx(hi, n)
			if l < 0 || h < l || h > n {
				panic(m.rtErr(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n)))
			}
			fr.regs[dst] = strSlice(v, l, h)
			return
		case []Value:
			cells = v
		case *Value:
			if v == nil {
				panic(m.nilDeref())
			}
			cells = []Value((*v).(Array))
		default:
			panic(fmt.Sprintf("slice of %T", xv))
		}
		l := idx(lo, 0)
		h := idx(hi, len(cells))
		k := idx(mx, cap(cells))
		if l < 0 || h < l || k < h || k > cap(cells) {
			panic(m.rtErr(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, k, cap(cells))))
		}
		if cells == nil {
			fr.regs[dst] = []Value(nil)
			return
		}
		fr.regs[dst] = cells[l:h:k]
	}
}

// ---- type assertions ----

func (p *Program) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := m.implCache[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	m.implCache[k] = v
	return v
}

func (c *compiler) typeAssert(ins *ssa.TypeAssert) instrFn {
	dst, x := c.reg(ins), c.op(ins.X)
	at := ins.AssertedType
	commaOk := ins.CommaOk
	it, isI := at.Underlying().(*types.Interface)
	pos := ins.Pos()
	return func(fr *Frame) {
		v := x.get(fr).(Iface)
		ok := false
		var r Value
		if v.t != nil {
			if isI {
				if fr.m.implements(v.t, it) {
					ok, r = true, v
				}
			} else if sameType(v.t, at) {
				ok, r = true, v.v
			}
		}
		if commaOk {
			if !ok {
				r = zero(at)
			}
			fr.regs[dst] = Tuple{r, ok}
			return
		}
		if !ok {
			fr.pos = pos
			ts := "nil"
			if v.t != nil {
				ts = v.t.String()
			}
			panic(fr.m.rtErr(fmt.Sprintf("interface conversion: interface is %s, not %s", ts, at)))
		}
		fr.regs[dst] = r
	}
}

// ---- calls ----

func (m *Machine) lookupMethod(t types.Type, meth *types.Func) *Fn {
	k := methKey{t, meth.Id()}
	if f, ok := m.methCache[k]; ok {
		return f
	}
	f := m.P.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	if f == nil {
		panic(fmt.Sprintf("no method %s on %s", meth.Name(), t))
	}
	fn := m.P.getFn(f)
	m.methCache[k] = fn
	return fn
}

type callee struct {
	static *Fn
	dyn    opnd
	invoke *types.Func
	bi     *ssa.Builtin
	args   []opnd
	call   *ssa.CallCommon
	pos    token.Pos
	inMod  bool
}

func (c *compiler) callee(cc *ssa.CallCommon, pos token.Pos) *callee {
	r := &callee{call: cc, pos: pos, inMod: c.fn.inMod}
	if cc.IsInvoke() {
		r.invoke = cc.Method
		r.dyn = c.op(cc.Value)
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		r.bi = b
	} else if f := cc.StaticCallee(); f != nil {
		if _, isClosure := cc.Value.(*ssa.MakeClosure); isClosure {
			r.dyn = c.op(cc.Value)
		} else {
			r.static = c.p.getFn(f)
		}
	} else {
		r.dyn = c.op(cc.Value)
	}
	for _, a := range cc.Args {
		r.args = append(r.args, c.op(a))
	}
	return r
}

// resolve evaluates the callee and arguments.
func (k *callee) resolve(fr *Frame) (fn *Fn, cl *Closure, args []Value) {
	if k.invoke != nil {
		recv := k.dyn.get(fr).(Iface)
		if recv.t == nil {
			fr.pos = k.pos
			panic(fr.m.nilDeref())
		}
		args = make([]Value, 0, len(k.args)+1)
		args = append(args, recv.v)
		for i := range k.args {
			args = append(args, k.args[i].get(fr))
		}
		return fr.m.lookupMethod(recv.t, k.invoke), nil, args
	}
	args = make([]Value, len(k.args))
	for i := range k.args {
		args[i] = k.args[i].get(fr)
	}
	if k.static != nil {
		return k.static, nil, args
	}
	cl, _ = k.dyn.get(fr).(*Closure)
	if cl == nil {
		fr.pos = k.pos
		panic(fr.m.nilDeref())
	}
	return cl.fn, cl, args
}

func (m *Machine) invoke(fr *Frame, fn *Fn, cl *Closure, args []Value) Value {
	if cl != nil {
		if cl.native != nil {
			return cl.native(m, fr, args)
		}
		return m.call(fr, cl.fn, args, cl.env)
	}
	return m.call(fr, fn, args, nil)
}

func (c *compiler) call(ins *ssa.Call) instrFn {
	dst := c.reg(ins)
	k := c.callee(&ins.Call, ins.Pos())
	if k.bi != nil {
		return c.builtin(k, dst)
	}
	if k.static != nil {
		fn := k.static
		args := k.args
		pos := k.pos
		return func(fr *Frame) {
			av := make([]Value, len(args))
			for i := range args {
				av[i] = args[i].get(fr)
			}
			fr.pos = pos
			fr.regs[dst] = fr.m.call(fr, fn, av, nil)
		}
	}
	return func(fr *Frame) {
		fn, cl, args := k.resolve(fr)
		fr.pos = k.pos
		fr.regs[dst] = fr.m.invoke(fr, fn, cl, args)
	}
}

func (c *compiler) deferI(ins *ssa.Defer) instrFn {
	c.fn.hasDef = true
	k := c.callee(&ins.Call, ins.Pos())
	var ds *opnd
	if ins.DeferStack != nil {
		o := c.op(ins.DeferStack)
		ds = &o
	}
	return func(fr *Frame) {
		target := fr
		if ds != nil {
			target = ds.get(fr).(*Frame)
		}
		var run func()
		if k.bi != nil {
			args := make([]Value, len(k.args))
			for i := range k.args {
				args[i] = k.args[i].get(fr)
			}
			run = func() { fr.m.callBuiltin(target, k, args) }
		} else {
			fn, cl, args := k.resolve(fr)
			run = func() { fr.m.invoke(target, fn, cl, args) }
		}
		target.defers = &deferred{run: run, next: target.defers}
	}
}

func (fr *Frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *Frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if isInternal(r) {
				panic(r)
			}
			fr.panicking = true
			fr.panicVal = r
		}
	}()
	d.run()
	ok = true
}

func isInternal(r any) bool {
	switch r.(type) {
	case goPanic, goexitPanic:
		return false
	}
	return true
}

func (m *Machine) call(caller *Frame, fn *Fn, args []Value, env []Value) Value {
	if fn.intr != nil {
		if r := fn.intr(m, caller, fn, args); r != notHandled {
			return r
		}
	}
	fn.prepare()
	if len(fn.blocks) == 0 {
		panic(m.unsupported("call of external function %s", fn.name))
	}
	fr := &Frame{m: m, fn: fn, caller: caller, regs: make([]Value, fn.nregs)}
	if caller != nil {
		fr.g = caller.g
		fr.depth = caller.depth + 1
		if fr.depth > 4000 {
			panic(pathEnd{"limit", "call depth exceeds 4000 in " + fn.name})
		}
	} else {
		fr.g = m.cur
	}
	for i, r := range fn.params {
		fr.regs[r] = args[i]
	}
	for i, r := range fn.frees {
		fr.regs[r] = env[i]
	}
	if fn.used && !m.boot {
		if _, ok := m.fnSeen[fn]; !ok {
			m.fnSeen[fn] = struct{}{}
		}
	}
	if !fn.hasDef {
		return m.loop(fr)
	}
	for {
		if m.runProtected(fr) {
			return fr.result
		}
	}
}

// runProtected executes the frame body from fr.block; returns true when finished.
func (m *Machine) runProtected(fr *Frame) (done bool) {
	defer func() {
		if done {
			return
		}
		r := recover()
		if isInternal(r) {
			panic(r)
		}
		fr.panicking = true
		fr.panicVal = r
		fr.runDefers() // re-panics unless recovered
		// recovered
		if fr.fn.recov >= 0 {
			fr.block = fr.fn.recov
			fr.prev = 0
			done = false
			return
		}
		fr.result = m.zeroResult(fr.fn)
		done = true
	}()
	m.loop(fr)
	return true
}

func (m *Machine) zeroResult(fn *Fn) Value {
	res := fn.f.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func (m *Machine) loop(fr *Frame) Value {
	fn := fr.fn
	b := fr.block
	for {
		blk := &fn.blocks[b]
		m.curFr = fr
		m.nInstr += int64(blk.ninstr)
		if m.nInstr > m.maxInstr {
			panic(pathEnd{"limit", "instruction limit in " + fn.name})
		}
		if n := len(blk.phis); n > 0 {
			if n == 1 {
				fr.regs[blk.phis[0].dst] = blk.phis[0].edges[fr.prev].get(fr)
			} else {
				var tmp [8]Value
				vals := tmp[:0]
				for i := range blk.phis {
					vals = append(vals, blk.phis[i].edges[fr.prev].get(fr))
				}
				for i := range blk.phis {
					fr.regs[blk.phis[i].dst] = vals[i]
				}
			}
		}
		for _, f := range blk.code {
			f(fr)
		}
		s := blk.term(fr)
		if s < 0 {
			return fr.result
		}
		fr.prev = blk.preds[s]
		b = blk.succs[s]
		fr.block = b
	}
}

// doRecover implements the recover builtin called from frame fr (the deferred function).
func (fr *Frame) doRecover() Value {
	p := fr.caller
	if p != nil && p.panicking && !fr.panicking {
		if gp, ok := p.panicVal.(goPanic); ok {
			p.panicking = false
			p.panicVal = nil
			return gp.v
		}
	}
	return Iface{}
}

// ---- builtins ----

func (c *compiler) builtin(k *callee, dst int) instrFn {
	name := k.bi.Name()
	switch name {
	case "len":
		a := k.args[0]
		return func(fr *Frame) { fr.regs[dst] = uint64(fr.m.lenOf(a.get(fr))) }
	case "recover":
		return func(fr *Frame) { fr.regs[dst] = fr.doRecover() }
	case "ssa:deferstack":
		return func(fr *Frame) { fr.regs[dst] = fr }
	}
	return func(fr *Frame) {
		args := make([]Value, len(k.args))
		for i := range k.args {
			args[i] = k.args[i].get(fr)
		}
		fr.pos = k.pos
		fr.regs[dst] = fr.m.callBuiltin(fr, k, args)
	}
}

func (m *Machine) lenOf(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	case []Value:
		return len(v)
	case *Map:
		if v == nil {
			return 0
		}
		return v.count
	case *Chan:
		if v == nil {
			return 0
		}
		return len(v.buf)
	case Array:
		return len(v)
	case *Value:
		return len((*v).(Array))
	}
	panic(fmt.Sprintf("len of %T", v))
}

func (m *Machine) appendSlice(a, b []Value) []Value {
	n := len(a) + len(b)
	if n <= cap(a) {
		r := a[:n]
		for i, x := range b {
			if _, ok := x.(Struct); ok {
				storeAt(r, len(a), b)
				return r
			}
			if _, ok := x.(Array); ok {
				storeAt(r, len(a), b)
				return r
			}
			_ = i
			break
		}
		copy(r[len(a):], b)
		return r
	}
	// growth policy close to the runtime's
	nc := cap(a)
	if nc < 256 {
		nc = 2 * nc
	} else {
		nc += (nc + 3*256) / 4
	}
	if nc < n {
		nc = n
	}
	if nc < 8 && nc > 0 {
		nc = 8
	}
	r := make([]Value, n, nc)
	for i, x := range a {
		r[i] = copyVal(x)
	}
	for i, x := range b {
		r[len(a)+i] = copyVal(x)
	}
	var z Value
	if n > 0 {
		z = r[0]
	}
	// spare capacity needs properly typed zero cells
	full := r[:nc]
	for i := n; i < nc; i++ {
		full[i] = zeroLike(z)
	}
	return r
}

func storeAt(dst []Value, off int, src []Value) {
	tmp := make([]Value, len(src))
	for i := range src {
		tmp[i] = copyVal(src[i])
	}
	for i := range tmp {
		if dst[off+i] == nil {
			dst[off+i] = tmp[i]
		} else {
			storeInto(&dst[off+i], tmp[i])
		}
	}
}

// zeroLike returns a zero value of the same shape.
func zeroLike(v Value) Value {
	switch v := v.(type) {
	case nil:
		return nil
	case uint64:
		return zeroInt
	case bool:
		return zeroBool
	case *Expr:
		if v.w == 0 {
			return zeroBool
		}
		return zeroInt
	case string, *SymStr:
		return zeroStr
	case float64:
		return zeroFloat
	case complex128:
		return complex128(0)
	case *Value:
		return zeroPtr
	case *SymPtr:
		return zeroPtr
	case []Value:
		return zeroSlice
	case Struct:
		r := make(Struct, len(v))
		for i := range v {
			r[i] = zeroLike(v[i])
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i := range v {
			r[i] = zeroLike(v[i])
		}
		return r
	case *Map:
		return zeroMap
	case *Chan:
		return zeroChan
	case *Closure:
		return zeroFunc
	case Iface:
		return zeroIface
	}
	return nil
}

func cellsOf(v Value) []Value {
	switch v := v.(type) {
	case []Value:
		return v
	case string, *SymStr:
		return strCells(v)
	case nil:
		return nil
	}
	panic(fmt.Sprintf("cellsOf %T", v))
}

func (m *Machine) raceRange(fr *Frame, s []Value, write bool) {
	if m.races == nil {
		return
	}
	for i := range s {
		if write {
			m.raceWrite(fr, &s[i])
		} else {
			m.raceRead(fr, &s[i])
		}
	}
}

func (m *Machine) callBuiltin(fr *Frame, k *callee, args []Value) Value {
	switch k.bi.Name() {
	case "len":
		return uint64(m.lenOf(args[0]))
	case "cap":
		switch v := args[0].(type) {
		case []Value:
			return uint64(cap(v))
		case *Chan:
			if v == nil {
				return uint64(0)
			}
			return uint64(v.cap)
		default:
			return uint64(m.lenOf(v))
		}
	case "append":
		a, _ := args[0].([]Value)
		b := cellsOf(args[1])
		if len(b) == 0 {
			return args[0]
		}
		if m.races != nil {
			m.raceRange(fr, b, false)
			if len(a)+len(b) <= cap(a) {
				m.raceRange(fr, a[len(a):len(a)+len(b)], true)
			} else {
				m.raceRange(fr, a, false)
			}
		}
		return m.appendSlice(a, b)
	case "copy":
		d, _ := args[0].([]Value)
		s := cellsOf(args[1])
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		if n > 0 {
			switch d[0].(type) {
			case Struct, Array:
				storeAt(d[:n], 0, s[:n])
			default:
				m.raceRange(fr, s[:n], false)
				m.raceRange(fr, d[:n], true)
				copy(d, s[:n])
			}
		}
		return uint64(n)
	case "delete":
		mp, _ := args[0].(*Map)
		if mp != nil && m.races != nil {
			m.raceWrite(fr, &mp.shadow)
		}
		m.mapDelete(mp, args[1])
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *Map:
			m.mapClear(v)
		case []Value:
			for i := range v {
				storeInto(&v[i], zeroLike(v[i]))
			}
		}
		return nil
	case "close":
		ch, _ := args[0].(*Chan)
		m.chanClose(ch)
		return nil
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		return fr.doRecover()
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := k.call.Args[0].Type()
		for _, a := range args[1:] {
			var less Value
			if k.bi.Name() == "min" {
				less = m.binop(fr, token.LSS, t, t, a, r)
			} else {
				less = m.binop(fr, token.LSS, t, t, r, a)
			}
			if m.branchV(less) {
				r = a
			}
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "Sizeof":
		return uint64(types.SizesFor("gc", "amd64").Sizeof(k.call.Args[0].Type()))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			panic(m.rtErr(fmt.Sprintf("value method %s.%s called using nil pointer", m.show(args[1]), m.show(args[2]))))
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := m.concInt(args[1])
		p, _ := args[0].(*Value)
		if p == nil || n == 0 {
			return ""
		}
		return &SymStr{unsafeCells(p, n)}
	case "StringData":
		switch s := args[0].(type) {
		case string:
			if len(s) == 0 {
				return nilPtr
			}
			c := strCells(s)
			return &c[0]
		case *SymStr:
			if len(s.b) == 0 {
				return nilPtr
			}
			return &s.b[0]
		}
	case "SliceData":
		s, _ := args[0].([]Value)
		if s == nil {
			return nilPtr
		}
		if cap(s) == 0 {
			p := new(Value)
			return p
		}
		return &s[:1][0]
	case "Slice":
		n := m.concInt(args[1])
		p, _ := args[0].(*Value)
		if p == nil {
			return []Value(nil)
		}
		return unsafeCells(p, n)
	case "Add", "Offsetof", "Alignof":
	}
	panic(m.unsupported("builtin %s in %s", k.bi.Name(), fr.fn.name))
}

// ---- unary ----

func (c *compiler) unop(ins *ssa.UnOp) instrFn {
	dst, x := c.reg(ins), c.op(ins.X)
	t := ins.X.Type()
	pos := ins.Pos()
	switch ins.Op {
	case token.MUL:
		et := deref(t)
		w, _ := scalarWidth(et)
		agg := false
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
			agg = true
		}
		isStr := isString(et)
		isHdr := headerLike(et)
		_, isSl := et.Underlying().(*types.Slice)
		return func(fr *Frame) {
			switch p := x.get(fr).(type) {
			case *Value:
				if p == nil {
					fr.pos = pos
					panic(fr.m.nilDeref())
				}
				if fr.m.races != nil {
					fr.pos = pos
					fr.m.raceRead(fr, p)
				}
				v := *p
				if agg {
					if isHdr {
						if _, ok := v.(Struct); !ok {
							v = fr.m.punLoad(et, v)
						}
					}
					v = copyVal(v)
				} else if isStr { // *(*string)(unsafe.Pointer(&bytes))
					switch v.(type) {
					case []Value, Struct:
						v = fr.m.punLoad(et, v)
					}
				} else if isSl {
					switch v.(type) {
					case string, *SymStr, Struct:
						v = fr.m.punLoad(et, v)
					}
				}
				fr.regs[dst] = v
			case *SymPtr:
				fr.regs[dst] = fr.m.selectCell(p.arr, p.idx, w)
			default:
				panic(pathEnd{"unsupported", fmt.Sprintf("load from %T in %s", p, fr.fn.name)})
			}
		}
	case token.NOT:
		return func(fr *Frame) { fr.regs[dst] = fr.m.notV(x.get(fr)) }
	case token.SUB:
		w, _, isInt := intType(t)
		f32 := isFloat32(t)
		return func(fr *Frame) {
			switch v := x.get(fr).(type) {
			case uint64:
				fr.regs[dst] = (-v) & mask(w)
			case float64:
				r := -v
				if f32 {
					r = float64(float32(r))
				}
				fr.regs[dst] = r
			case complex128:
				fr.regs[dst] = -v
			case *Expr:
				_ = isInt
				fr.regs[dst] = fromExpr(fr.m.ctx.Bin(OSub, fr.m.ctx.Const(0, w), v))
			default:
				panic(fmt.Sprintf("neg %T", v))
			}
		}
	case token.XOR:
		w, _, _ := intType(t)
		return func(fr *Frame) {
			switch v := x.get(fr).(type) {
			case uint64:
				fr.regs[dst] = (^v) & mask(w)
			case *Expr:
				fr.regs[dst] = fromExpr(fr.m.ctx.Bin(OBXor, v, fr.m.ctx.Const(mask(w), w)))
			}
		}
	case token.ARROW:
		et := t.Underlying().(*types.Chan).Elem()
		commaOk := ins.CommaOk
		return func(fr *Frame) {
			ch, _ := x.get(fr).(*Chan)
			v, ok := fr.m.chanRecv(ch, et)
			if commaOk {
				fr.regs[dst] = Tuple{v, ok}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	panic("unop " + ins.Op.String())
}

// ---- binary ----

func (c *compiler) binop(ins *ssa.BinOp) instrFn {
	dst, x, y := c.reg(ins), c.op(ins.X), c.op(ins.Y)
	t, yt := ins.X.Type(), ins.Y.Type()
	op := ins.Op
	pos := ins.Pos()
	w, signed, isInt := intType(t)
	slow := func(fr *Frame, a, b Value) {
		fr.pos = pos
		fr.regs[dst] = fr.m.binop(fr, op, t, yt, a, b)
	}
	if isInt && w == 64 && signed {
		var f func(a, b int64) Value
		switch op {
		case token.ADD:
			f = func(a, b int64) Value { return uint64(a + b) }
		case token.SUB:
			f = func(a, b int64) Value { return uint64(a - b) }
		case token.LSS:
			f = func(a, b int64) Value { return a < b }
		case token.LEQ:
			f = func(a, b int64) Value { return a <= b }
		case token.GTR:
			f = func(a, b int64) Value { return a > b }
		case token.GEQ:
			f = func(a, b int64) Value { return a >= b }
		case token.EQL:
			f = func(a, b int64) Value { return a == b }
		case token.NEQ:
			f = func(a, b int64) Value { return a != b }
		}
		if f != nil {
			return func(fr *Frame) {
				a, b := x.get(fr), y.get(fr)
				if p, ok := a.(uint64); ok {
					if q, ok := b.(uint64); ok {
						fr.regs[dst] = f(int64(p), int64(q))
						return
					}
				}
				slow(fr, a, b)
			}
		}
	}
	if isInt && (op == token.EQL || op == token.NEQ) {
		neg := op == token.NEQ
		return func(fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			if p, ok := a.(uint64); ok {
				if q, ok := b.(uint64); ok {
					fr.regs[dst] = (p == q) != neg
					return
				}
			}
			slow(fr, a, b)
		}
	}
	return func(fr *Frame) { slow(fr, x.get(fr), y.get(fr)) }
}

func (m *Machine) binop(fr *Frame, op token.Token, t, yt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return m.eqMixed(t, yt, x, y)
	case token.NEQ:
		return m.notV(m.eqMixed(t, yt, x, y))
	}
	if w, signed, ok := intType(t); ok {
		switch op {
		case token.SHL, token.SHR:
			return m.shift(op, w, signed, yt, x, y)
		}
		a, ok1 := x.(uint64)
		b, ok2 := y.(uint64)
		if ok1 && ok2 {
			return m.concBin(op, w, signed, a, b)
		}
		return m.symBin(op, w, signed, m.toExpr(x, w), m.toExpr(y, w))
	}
	switch {
	case isString(t):
		switch op {
		case token.ADD:
			return concat(x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a, ok := x.(string); ok {
				if b, ok := y.(string); ok {
					switch op {
					case token.LSS:
						return a < b
					case token.LEQ:
						return a <= b
					case token.GTR:
						return a > b
					default:
						return a >= b
					}
				}
			}
			a, b := strCells(x), strCells(y)
			switch op {
			case token.LSS:
				return m.ltCells(a, b, false)
			case token.LEQ:
				return m.ltCells(a, b, true)
			case token.GTR:
				return m.ltCells(b, a, false)
			default:
				return m.ltCells(b, a, true)
			}
		}
	case isFloat(t):
		a, b := x.(float64), y.(float64)
		var r float64
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
		if isFloat32(t) {
			r = float64(float32(r))
		}
		return r
	case isComplex(t):
		a, b := x.(complex128), y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	case isBool(t):
		switch op {
		case token.AND, token.LAND:
			return m.andV(x, y)
		case token.OR, token.LOR:
			return m.orV(x, y)
		}
	}
	panic(fmt.Sprintf("binop %v on %v", op, t))
}

// eqMixed compares values whose static types may be interface vs concrete.
func (m *Machine) eqMixed(t, yt types.Type, x, y Value) Value {
	_, xi := t.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi && !yi {
		if b, ok := yt.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return x.(Iface).t == nil
		}
		return m.eqIface(x.(Iface), Iface{yt, y})
	}
	if yi && !xi {
		return m.eqMixed(yt, t, y, x)
	}
	return m.eqv(t, x, y)
}

func (m *Machine) concBin(op token.Token, w uint8, signed bool, a, b uint64) Value {
	mk := mask(w)
	switch op {
	case token.ADD:
		return (a + b) & mk
	case token.SUB:
		return (a - b) & mk
	case token.MUL:
		return (a * b) & mk
	case token.QUO, token.REM:
		if b == 0 {
			panic(m.rtErr("integer divide by zero"))
		}
		if signed {
			p, q := sext(a, w), sext(b, w)
			if q == -1 {
				if op == token.QUO {
					return uint64(-p) & mk
				}
				return uint64(0)
			}
			if op == token.QUO {
				return uint64(p/q) & mk
			}
			return uint64(p%q) & mk
		}
		if op == token.QUO {
			return a / b
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.AND_NOT:
		return a &^ b
	}
	if signed {
		p, q := sext(a, w), sext(b, w)
		switch op {
		case token.LSS:
			return p < q
		case token.LEQ:
			return p <= q
		case token.GTR:
			return p > q
		case token.GEQ:
			return p >= q
		}
	}
	switch op {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic("concBin " + op.String())
}

func (m *Machine) symBin(op token.Token, w uint8, signed bool, a, b *Expr) Value {
	c := m.ctx
	lt, le := OUlt, OUle
	if signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.ADD:
		return fromExpr(c.Bin(OAdd, a, b))
	case token.SUB:
		return fromExpr(c.Bin(OSub, a, b))
	case token.MUL:
		return fromExpr(c.Bin(OMul, a, b))
	case token.QUO, token.REM:
		if m.branch(c.Eq(b, c.Const(0, w))) {
			panic(m.rtErr("integer divide by zero"))
		}
		o := OUDiv
		if op == token.REM {
			o = OURem
		}
		if signed {
			o = OSDiv
			if op == token.REM {
				o = OSRem
			}
		}
		return fromExpr(c.Bin(o, a, b))
	case token.AND:
		return fromExpr(c.Bin(OBAnd, a, b))
	case token.OR:
		return fromExpr(c.Bin(OBOr, a, b))
	case token.XOR:
		return fromExpr(c.Bin(OBXor, a, b))
	case token.AND_NOT:
		return fromExpr(c.Bin(OBAnd, a, c.Bin(OBXor, b, c.Const(mask(w), w))))
	case token.LSS:
		return fromExpr(c.Cmp(lt, a, b))
	case token.LEQ:
		return fromExpr(c.Cmp(le, a, b))
	case token.GTR:
		return fromExpr(c.Cmp(lt, b, a))
	case token.GEQ:
		return fromExpr(c.Cmp(le, b, a))
	}
	panic("symBin " + op.String())
}

func (m *Machine) shift(op token.Token, w uint8, signed bool, yt types.Type, x, y Value) Value {
	yw, ysigned, _ := intType(yt)
	a, ok1 := x.(uint64)
	b, ok2 := y.(uint64)
	if ok2 {
		if ysigned && sext(b, yw) < 0 {
			panic(m.rtErr("negative shift amount"))
		}
		if ok1 {
			if op == token.SHL {
				if b >= uint64(w) {
					return uint64(0)
				}
				return (a << b) & mask(w)
			}
			if signed {
				if b >= 64 {
					b = 63
				}
				return uint64(sext(a, w)>>b) & mask(w)
			}
			if b >= 64 {
				return uint64(0)
			}
			return a >> b
		}
	}
	ex := m.toExpr(x, w)
	var ey *Expr
	if ok2 {
		if b > 255 {
			b = 255
		}
		if b >= uint64(w) && w < 8 {
			b = uint64(w)
		}
		if b > mask(w) {
			b = mask(w)
		}
		ey = m.ctx.Const(b, w)
	} else {
		e := y.(*Expr)
		if ysigned {
			if m.branch(m.ctx.Cmp(OSlt, e, m.ctx.Const(0, yw))) {
				panic(m.rtErr("negative shift amount"))
			}
		}
		if yw > w {
			// saturate
			e = m.ctx.Ite(m.ctx.Cmp(OUlt, e, m.ctx.Const(uint64(w), yw)), e, m.ctx.Const(uint64(w), yw))
			ey = m.ctx.Trunc(e, w)
		} else {
			ey = m.ctx.ZExt(e, w)
		}
	}
	o := OShl
	if op == token.SHR {
		o = OLShr
		if signed {
			o = OAShr
		}
	}
	return fromExpr(m.ctx.Bin(o, ex, ey))
}

// ---- conversions ----

func (c *compiler) convert(xv ssa.Value, res ssa.Value, pos token.Pos) instrFn {
	dst, x := c.reg(res), c.op(xv)
	from, to := xv.Type(), res.Type()
	fw, fs, fi := intType(from)
	tw, _, ti := intType(to)
	if fi && ti {
		return func(fr *Frame) { fr.regs[dst] = fr.m.convInt(x.get(fr), fw, fs, tw) }
	}
	return func(fr *Frame) {
		fr.pos = pos
		fr.regs[dst] = fr.m.conv(fr, from, to, x.get(fr))
	}
}

func (m *Machine) convInt(v Value, fw uint8, fs bool, tw uint8) Value {
	switch v := v.(type) {
	case uint64:
		if tw <= fw {
			return v & mask(tw)
		}
		if fs {
			return uint64(sext(v, fw)) & mask(tw)
		}
		return v
	case *Expr:
		if tw <= fw {
			return fromExpr(m.ctx.Trunc(v, tw))
		}
		if fs {
			return fromExpr(m.ctx.SExt(v, tw))
		}
		return fromExpr(m.ctx.ZExt(v, tw))
	}
	switch p := v.(type) { // uintptr(unsafe.Pointer)
	case *Value:
		return m.addrOf(p)
	case *StrPtr:
		return p.addr()
	}
	panic(fmt.Sprintf("convInt %T", v))
}

func (m *Machine) addrOf(p *Value) uint64 {
	if p == nil {
		return 0
	}
	if a, ok := m.addrs[p]; ok {
		return a
	}
	a := uint64(0xc000000000) + uint64(len(m.addrs)+1)*4096
	m.addrs[p] = a
	return a
}

func (m *Machine) conv(fr *Frame, from, to types.Type, x Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fw, fs, fi := intType(from)
	tw, ts, ti := intType(to)
	switch {
	case fi && ti:
		return m.convInt(x, fw, fs, tw)
	case fi && isFloat(to):
		v := m.concV(x)
		var f float64
		if fs {
			f = float64(sext(v, fw))
		} else {
			f = float64(v)
		}
		if isFloat32(to) {
			f = float64(float32(f))
		}
		return f
	case isFloat(from) && ti:
		f := x.(float64)
		if ts {
			return uint64(int64(f)) & mask(tw)
		}
		if f < 0 {
			return uint64(int64(f)) & mask(tw)
		}
		return uint64(f) & mask(tw)
	case isFloat(from) && isFloat(to):
		f := x.(float64)
		if isFloat32(to) {
			f = float64(float32(f))
		}
		return f
	case isComplex(from) && isComplex(to):
		return x
	case isString(to):
		switch f := fu.(type) {
		case *types.Basic:
			if f.Info()&types.IsString != 0 {
				return x
			}
			if fi {
				return m.runeToStr(fr, x, fw, fs)
			}
		case *types.Slice:
			s, _ := x.([]Value)
			if w, _, _ := intType(f.Elem()); w == 8 {
				return mkStr(s)
			}
			return m.runesToStr(fr, s)
		}
	case isString(from):
		if sl, ok := tu.(*types.Slice); ok {
			if w, _, _ := intType(sl.Elem()); w == 8 {
				src := strCells(x)
				r := make([]Value, len(src))
				copy(r, src)
				return r
			}
			return m.strToRunes(fr, x)
		}
	}
	// unsafe.Pointer conversions keep the pointer
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if u, ok := x.(uint64); ok {
			if u == 0 {
				return nilPtr
			}
			for p, a := range m.addrs {
				if a == u {
					return p
				}
			}
			panic(m.unsupported("uintptr to unsafe.Pointer in %s", fr.fn.name))
		}
		return x
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if ti {
			return m.convInt(x, 64, false, 64)
		}
		return x
	}
	switch tu.(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Struct, *types.Array, *types.Interface:
		return x
	}
	panic(fmt.Sprintf("convert %v -> %v", from, to))
}

func (m *Machine) runeToStr(fr *Frame, x Value, fw uint8, fs bool) Value {
	if v, ok := x.(uint64); ok {
		i := int64(v)
		if fs {
			i = sext(v, fw)
		}
		if i < 0 || i > math.MaxInt32 {
			i = 0xFFFD
		}
		return string(rune(i))
	}
	var r Value
	if fw > 32 {
		if !m.branch(m.ctx.Cmp(OUle, x.(*Expr), m.ctx.Const(0x10FFFF, fw))) {
			return string(rune(0xFFFD))
		}
		r = m.convInt(x, fw, fs, 32)
	} else {
		r = m.convInt(x, fw, fs, 32)
	}
	return m.runesToStr(fr, []Value{r})
}

func (m *Machine) runesToStr(fr *Frame, rs []Value) Value {
	var out []Value
	for _, r := range rs {
		if v, ok := r.(uint64); ok {
			out = append(out, strCells(string(rune(int32(v))))...)
			continue
		}
		e := r.(*Expr)
		if m.branch(m.ctx.Cmp(OUlt, e, m.ctx.Const(0x80, 32))) {
			out = append(out, fromExpr(m.ctx.Trunc(e, 8)))
			continue
		}
		f := m.P.fnByName("unicode/utf8", "AppendRune")
		res := m.call(fr, f, []Value{[]Value(nil), e}, nil)
		out = append(out, res.([]Value)...)
	}
	return mkStr(out)
}

func (m *Machine) strToRunes(fr *Frame, s Value) Value {
	r := []Value{}
	n := strLen(s)
	for i := 0; i < n; {
		c, k := m.decodeRune(fr, s, i)
		r = append(r, c)
		i += k
	}
	return r
}

// decodeRune decodes the rune of s at offset i.
func (m *Machine) decodeRune(fr *Frame, s Value, i int) (Value, int) {
	b0 := strAt(s, i)
	switch b := b0.(type) {
	case uint64:
		if b < 0x80 {
			return b, 1
		}
	case *Expr:
		if m.branch(m.ctx.Cmp(OUlt, b, m.ctx.Const(0x80, 8))) {
			return fromExpr(m.ctx.ZExt(b, 32)), 1
		}
	}
	end := i + 4
	if n := strLen(s); end > n {
		end = n
	}
	sub := normStr(strSlice(s, i, end))
	if c, ok := sub.(string); ok {
		for _, r := range c {
			n := len(string(r))
			if r == 0xFFFD && !strings.HasPrefix(c, "\xef\xbf\xbd") {
				n = 1
			}
			return uint64(uint32(r)), n
		}
	}
	f := m.P.fnByName("unicode/utf8", "DecodeRuneInString")
	res := m.call(fr, f, []Value{sub}, nil).(Tuple)
	return res[0], m.concInt(res[1])
}
