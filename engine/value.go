package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	uint64            concrete integer (any kind, zero-extended to its width)
//	bool              concrete bool
//	*Expr             symbolic integer or bool
//	float64, complex128
//	string | *SymStr  string
//	*Value            pointer (nil pointer: (*Value)(nil))
//	*SymPtr           pointer to an array element at symbolic index
//	[]Value           slice
//	Array, Struct     aggregates
//	*Map, *Chan
//	*Closure          func value
//	Iface             interface value
//	Tuple
type Value any

type Array []Value
type Struct []Value
type Tuple []Value

type SymStr struct{ b []Value }

type SymPtr struct {
	arr  []Value
	idx  *Expr // 64 bit, already bounds-checked
	elem types.Type
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *Fn
	env []Value
	// native closure
	native func(m *Machine, caller *Frame, args []Value) Value
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	recvW  int // receivers waiting
	sent   int
	taken  int
	vc     []int32
}

type mapEnt struct {
	k, v Value
	dead bool
}

type Map struct {
	kt     types.Type
	ents   []mapEnt
	idx    map[string]int // concrete keys
	nsym   int
	count  int
	shadow Value // address for race detection
}

var nilPtr = (*Value)(nil)

func isSym(v Value) bool { _, ok := v.(*Expr); return ok }

// deref returns the pointee type of a pointer type.
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
	}
	panic(fmt.Sprintf("deref %v", t))
}

func basicWidth(k types.BasicKind) (w uint8, signed bool, ok bool) {
	switch k {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

// intType reports width and signedness of an integer type.
func intType(t types.Type) (w uint8, signed bool, ok bool) {
	if b, isB := t.Underlying().(*types.Basic); isB {
		return basicWidth(b.Kind())
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isComplex(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func scalarWidth(t types.Type) (uint8, bool) {
	if isBool(t) {
		return 0, true
	}
	w, _, ok := intType(t)
	return w, ok
}

var zeroInt Value = uint64(0)
var zeroBool Value = false
var zeroStr Value = ""
var zeroFloat Value = float64(0)
var zeroPtr Value = nilPtr
var zeroSlice Value = []Value(nil)
var zeroMap Value = (*Map)(nil)
var zeroChan Value = (*Chan)(nil)
var zeroFunc Value = (*Closure)(nil)
var zeroIface Value = Iface{}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			return zeroBool
		case info&types.IsInteger != 0:
			return zeroInt
		case info&types.IsFloat != 0:
			return zeroFloat
		case info&types.IsComplex != 0:
			return complex128(0)
		case info&types.IsString != 0:
			return zeroStr
		case u.Kind() == types.UnsafePointer:
			return zeroPtr
		case u.Kind() == types.UntypedNil:
			return zeroPtr
		}
	case *types.Pointer:
		return zeroPtr
	case *types.Slice:
		return zeroSlice
	case *types.Map:
		return zeroMap
	case *types.Chan:
		return zeroChan
	case *types.Signature:
		return zeroFunc
	case *types.Interface:
		return zeroIface
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a {
				a[i] = zero(u.Elem())
			}
		default:
			z := zero(u.Elem())
			for i := range a {
				a[i] = z
			}
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	}
	panic(fmt.Sprintf("zero: unexpected type %v (%T)", t, t.Underlying()))
}

// copyVal returns a deep copy of aggregates (value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

// storeInto assigns v to *addr preserving addresses of nested cells.
func storeInto(addr *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if dst, ok := (*addr).(Struct); ok && len(dst) == len(v) {
			for i := range v {
				storeInto(&dst[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	case Array:
		if dst, ok := (*addr).(Array); ok && len(dst) == len(v) {
			for i := range v {
				storeInto(&dst[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

// ---- scalars ----

func (m *Machine) toExpr(v Value, w uint8) *Expr {
	switch v := v.(type) {
	case uint64:
		return m.ctx.Const(v, w)
	case bool:
		return m.ctx.Bool(v)
	case *Expr:
		if v.w != w {
			panic(fmt.Sprintf("toExpr: width %d, want %d", v.w, w))
		}
		return v
	}
	panic(fmt.Sprintf("toExpr: %T", v))
}

func fromExpr(e *Expr) Value {
	if e.op == OConst {
		if e.w == 0 {
			return e.k != 0
		}
		return e.k
	}
	return e
}

func (m *Machine) notV(v Value) Value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Expr:
		return fromExpr(m.ctx.Not(v))
	}
	panic("notV")
}

func (m *Machine) andV(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return fromExpr(m.ctx.And(a.(*Expr), b.(*Expr)))
}

func (m *Machine) orV(a, b Value) Value {
	return m.notV(m.andV(m.notV(a), m.notV(b)))
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic(fmt.Sprintf("strAt %T", v))
}

// mkStr builds a (normalised, immutable) string from cells; the cells are copied.
func mkStr(b []Value) Value {
	buf := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(uint64)
		if !ok {
			cp := make([]Value, len(b))
			copy(cp, b)
			return &SymStr{cp}
		}
		buf[i] = byte(c)
	}
	return string(buf)
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		sub := s.b[lo:hi:hi]
		return &SymStr{sub}
	}
	panic("strSlice")
}

// norm turns an all-concrete SymStr into a Go string (only for fresh values).
func normStr(v Value) Value {
	if s, ok := v.(*SymStr); ok {
		for _, x := range s.b {
			if _, ok := x.(uint64); !ok {
				return v
			}
		}
		return mkStr(s.b)
	}
	return v
}

func strCells(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strCells %T", v))
}

// goStr returns the concrete Go string of v if fully concrete.
func goStr(v Value) (string, bool) {
	switch s := v.(type) {
	case string:
		return s, true
	case *SymStr:
		n := normStr(s)
		r, ok := n.(string)
		return r, ok
	}
	return "", false
}

func concat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	r := make([]Value, 0, strLen(a)+strLen(b))
	r = append(r, strCells(a)...)
	r = append(r, strCells(b)...)
	return &SymStr{r}
}

func (m *Machine) eqByte(a, b Value) Value {
	if x, ok := a.(uint64); ok {
		if y, ok := b.(uint64); ok {
			return x == y
		}
	}
	return fromExpr(m.ctx.Eq(m.toExpr(a, 8), m.toExpr(b, 8)))
}

func (m *Machine) eqCells(a, b []Value) Value {
	if len(a) != len(b) {
		return false
	}
	// fast fail on concrete mismatch
	for i := range a {
		if x, ok := a[i].(uint64); ok {
			if y, ok := b[i].(uint64); ok && x != y {
				return false
			}
		}
	}
	r := m.ctx.tru
	for i := range a {
		x, ok1 := a[i].(uint64)
		y, ok2 := b[i].(uint64)
		if ok1 && ok2 {
			if x != y {
				return false
			}
			continue
		}
		r = m.ctx.And(r, m.ctx.Eq(m.toExpr(a[i], 8), m.toExpr(b[i], 8)))
		if r == m.ctx.fl {
			return false
		}
	}
	return fromExpr(r)
}

func (m *Machine) eqStr(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	if strLen(a) != strLen(b) {
		return false
	}
	return m.eqCells(strCells(a), strCells(b))
}

// ltCells: lexicographic a<b (or a<=b if orEq).
func (m *Machine) ltCells(a, b []Value, orEq bool) Value {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	var tail bool
	if orEq {
		tail = len(a) <= len(b)
	} else {
		tail = len(a) < len(b)
	}
	// skip a concrete common prefix and find a concrete decision point
	end := n
	for i := 0; i < n; i++ {
		x, ok1 := a[i].(uint64)
		y, ok2 := b[i].(uint64)
		if ok1 && ok2 && x != y {
			end = i
			tail = x < y
			break
		}
	}
	r := m.ctx.Bool(tail)
	for i := end - 1; i >= 0; i-- {
		x, y := m.toExpr(a[i], 8), m.toExpr(b[i], 8)
		r = m.ctx.Or(m.ctx.Cmp(OUlt, x, y), m.ctx.And(m.ctx.Eq(x, y), r))
	}
	return fromExpr(r)
}

// ---- equality ----

func (m *Machine) eqv(t types.Type, x, y Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsString != 0:
			return m.eqStr(x, y)
		case info&types.IsFloat != 0:
			return x.(float64) == y.(float64)
		case info&types.IsComplex != 0:
			return x.(complex128) == y.(complex128)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return ptrEq(x, y)
		case info&types.IsBoolean != 0:
			if a, ok := x.(bool); ok {
				if b, ok := y.(bool); ok {
					return a == b
				}
			}
			return fromExpr(m.ctx.Eq(m.toExpr(x, 0), m.toExpr(y, 0)))
		default:
			if a, ok := x.(uint64); ok {
				if b, ok := y.(uint64); ok {
					return a == b
				}
			}
			w, _, _ := basicWidth(u.Kind())
			return fromExpr(m.ctx.Eq(m.toExpr(x, w), m.toExpr(y, w)))
		}
	case *types.Pointer:
		return ptrEq(x, y)
	case *types.Interface:
		return m.eqIface(x.(Iface), y.(Iface))
	case *types.Struct:
		a, b := x.(Struct), y.(Struct)
		var r Value = true
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = m.andV(r, m.eqv(u.Field(i).Type(), a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		a, b := x.(Array), y.(Array)
		var r Value = true
		for i := range a {
			r = m.andV(r, m.eqv(u.Elem(), a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Chan:
		return x.(*Chan) == y.(*Chan)
	case *types.Slice:
		a, _ := x.([]Value)
		b, _ := y.([]Value)
		if (a == nil) || (b == nil) {
			return (a == nil) == (b == nil)
		}
		panic(m.rtErr("comparing uncomparable type " + t.String()))
	case *types.Map:
		a, _ := x.(*Map)
		b, _ := y.(*Map)
		if a == nil || b == nil {
			return a == b
		}
		panic(m.rtErr("comparing uncomparable type " + t.String()))
	case *types.Signature:
		a, _ := x.(*Closure)
		b, _ := y.(*Closure)
		if a == nil || b == nil {
			return a == b
		}
		panic(m.rtErr("comparing uncomparable type " + t.String()))
	}
	panic(fmt.Sprintf("eqv: %v", t))
}

func ptrEq(x, y Value) bool {
	if a, ok := x.(*Value); ok {
		if b, ok := y.(*Value); ok {
			return a == b
		}
		return false
	}
	return x == y
}

func (m *Machine) eqIface(a, b Iface) Value {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	if !sameType(a.t, b.t) {
		return false
	}
	if _, ok := a.v.(*rtypeObj); ok {
		return a.v == b.v
	}
	switch a.t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Signature:
		panic(m.rtErr("comparing uncomparable type " + a.t.String()))
	}
	return m.eqv(a.t, a.v, b.v)
}

func sameType(a, b types.Type) bool {
	return a == b || types.Identical(a, b)
}

// ---- maps ----

// keyEnc encodes a fully concrete key; ok is false if symbolic.
func (m *Machine) keyEnc(t types.Type, k Value, sb *strings.Builder) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i := k.(Iface)
		if i.t == nil {
			sb.WriteString("nil;")
			return true
		}
		switch i.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			panic(m.rtErr("hash of unhashable type " + i.t.String()))
		}
		if r, ok := i.v.(*rtypeObj); ok {
			fmt.Fprintf(sb, "rt%d;", r.id)
			return true
		}
		fmt.Fprintf(sb, "%d:", m.P.typeID(i.t))
		return m.keyEnc(i.t, i.v, sb)
	case *types.Struct:
		s := k.(Struct)
		for i := range s {
			if !m.keyEnc(u.Field(i).Type(), s[i], sb) {
				return false
			}
		}
		return true
	case *types.Array:
		for _, e := range k.(Array) {
			if !m.keyEnc(u.Elem(), e, sb) {
				return false
			}
		}
		return true
	}
	switch v := k.(type) {
	case uint64:
		var b [8]byte
		for i := range b {
			b[i] = byte(v >> (8 * i))
		}
		sb.Write(b[:])
		return true
	case bool:
		if v {
			sb.WriteByte(1)
		} else {
			sb.WriteByte(0)
		}
		return true
	case string:
		fmt.Fprintf(sb, "%d:", len(v))
		sb.WriteString(v)
		return true
	case *SymStr:
		s, ok := goStr(v)
		if !ok {
			return false
		}
		fmt.Fprintf(sb, "%d:", len(s))
		sb.WriteString(s)
		return true
	case float64:
		if v == 0 {
			v = 0
		}
		fmt.Fprintf(sb, "f%x;", math.Float64bits(v))
		return true
	case complex128:
		fmt.Fprintf(sb, "c%v;", v)
		return true
	case *Value:
		fmt.Fprintf(sb, "p%x;", uintptr(unsafe.Pointer(v)))
		return true
	case *Chan:
		fmt.Fprintf(sb, "h%p;", v)
		return true
	case *rtypeObj:
		fmt.Fprintf(sb, "rt%d;", v.id)
		return true
	case *Expr:
		return false
	}
	panic(fmt.Sprintf("keyEnc: %T", k))
}

func newMap(kt types.Type) *Map {
	return &Map{kt: kt, idx: map[string]int{}}
}

// find returns the entry index for key or -1. May fork.
func (m *Machine) mapFind(mp *Map, k Value) int {
	if mp == nil {
		var sb strings.Builder
		m.keyEnc(types.Typ[types.Bool], true, &sb)
		return -1
	}
	var sb strings.Builder
	if m.keyEnc(mp.kt, k, &sb) {
		if i, ok := mp.idx[sb.String()]; ok {
			return i
		}
		if mp.nsym == 0 {
			return -1
		}
		for i := range mp.ents {
			e := &mp.ents[i]
			if e.dead {
				continue
			}
			var t strings.Builder
			if m.keyEnc(mp.kt, e.k, &t) {
				continue
			}
			if m.branchV(m.eqv(mp.kt, e.k, k)) {
				return i
			}
		}
		return -1
	}
	for i := range mp.ents {
		e := &mp.ents[i]
		if e.dead {
			continue
		}
		if m.branchV(m.eqv(mp.kt, e.k, k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	if mp == nil {
		panic(m.plainErr("assignment to entry in nil map"))
	}
	if i := m.mapFind(mp, k); i >= 0 {
		mp.ents[i].v = copyVal(v)
		return
	}
	var sb strings.Builder
	if m.keyEnc(mp.kt, k, &sb) {
		mp.idx[sb.String()] = len(mp.ents)
	} else {
		mp.nsym++
	}
	mp.ents = append(mp.ents, mapEnt{k: copyVal(k), v: copyVal(v)})
	mp.count++
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	if mp == nil {
		return
	}
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	var sb strings.Builder
	if m.keyEnc(mp.kt, mp.ents[i].k, &sb) {
		delete(mp.idx, sb.String())
	} else {
		mp.nsym--
	}
	mp.ents[i].dead = true
	mp.ents[i].k, mp.ents[i].v = nil, nil
	mp.count--
}

func (m *Machine) mapClear(mp *Map) {
	if mp == nil {
		return
	}
	for i := range mp.ents {
		mp.ents[i].dead = true
	}
	mp.idx = map[string]int{}
	mp.nsym = 0
	mp.count = 0
}

// ---- debug ----

func (m *Machine) show(v Value) string {
	return m.showD(v, 0)
}

func (m *Machine) showD(v Value, d int) string {
	if d > 4 {
		return "..."
	}
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case string:
		return fmt.Sprintf("%q", v)
	case *SymStr:
		b := make([]byte, len(v.b))
		for i, c := range v.b {
			switch c := c.(type) {
			case uint64:
				b[i] = byte(c)
			case *Expr:
				b[i] = byte(m.ctx.eval(c, m.model))
			}
		}
		return fmt.Sprintf("sym%q", b)
	case *Expr:
		return fmt.Sprintf("sym(%d)", m.ctx.eval(v, m.model))
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + m.showD(*v, d+1)
	case Struct:
		var p []string
		for _, x := range v {
			p = append(p, m.showD(x, d+1))
		}
		return "{" + strings.Join(p, ",") + "}"
	case []Value:
		var p []string
		for i, x := range v {
			if i > 40 {
				p = append(p, "...")
				break
			}
			p = append(p, m.showD(x, d+1))
		}
		return "[" + strings.Join(p, ",") + "]"
	case Iface:
		if v.t == nil {
			return "iface(nil)"
		}
		return v.t.String() + "(" + m.showD(v.v, d+1) + ")"
	case *Closure:
		if v == nil {
			return "func(nil)"
		}
		if v.fn != nil {
			return v.fn.name
		}
		return "func"
	}
	return fmt.Sprintf("%v", v)
}

var _ = ssa.BuilderMode(0)
