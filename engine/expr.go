package main

// Symbolic expressions: hash-consed bit-vector / boolean terms (QF_BV).
// Width 0 means Bool.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OZExt
	OSExt
	OExtract
)

var opSMT = [...]string{"", "", "not", "and", "or", "=", "ite", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem",
	"bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvult", "bvule", "bvslt", "bvsle", "", "", ""}

type Expr struct {
	op      Op
	w       uint8
	defd    bool // define-fun emitted to current solver process
	k       uint64
	a, b, c *Expr
	id      int32
	vars    []int32 // sorted ids of variables occurring in it
	evEp    uint32
	ev      uint64
	tt      *[4]uint64
}

type ekey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
}

type Var struct {
	name string
	w    uint8
	e    *Expr
	decl bool
}

// ECtx is an expression context, owned by one worker.
type ECtx struct {
	tab     map[ekey]*Expr
	vars    []*Var
	byName  map[string]*Expr
	nextID  int32
	tru, fl *Expr
	bytes   [256]*Expr
	epoch   uint32
	defs    int
	scratch []uint64
}

func newECtx() *ECtx {
	c := &ECtx{tab: map[ekey]*Expr{}, byName: map[string]*Expr{}}
	c.tru = c.mk(OConst, 0, 1, nil, nil, nil)
	c.fl = c.mk(OConst, 0, 0, nil, nil, nil)
	for i := range c.bytes {
		c.bytes[i] = c.mk(OConst, 8, uint64(i), nil, nil, nil)
	}
	return c
}

func eid(e *Expr) int32 {
	if e == nil {
		return -1
	}
	return e.id
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if &a[0] == &b[0] && len(a) == len(b) {
		return a
	}
	i, j := 0, 0
	sub := true // b subset of a
	for j < len(b) {
		for i < len(a) && a[i] < b[j] {
			i++
		}
		if i == len(a) || a[i] != b[j] {
			sub = false
			break
		}
		j++
	}
	if sub {
		return a
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		case a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	return r
}

func (c *ECtx) mk(op Op, w uint8, k uint64, x, y, z *Expr) *Expr {
	key := ekey{op, w, k, eid(x), eid(y), eid(z)}
	if e, ok := c.tab[key]; ok {
		return e
	}
	e := &Expr{op: op, w: w, k: k, a: x, b: y, c: z, id: c.nextID}
	c.nextID++
	if x != nil {
		e.vars = x.vars
	}
	if y != nil {
		e.vars = mergeVars(e.vars, y.vars)
	}
	if z != nil {
		e.vars = mergeVars(e.vars, z.vars)
	}
	c.tab[key] = e
	return e
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (c *ECtx) Const(v uint64, w uint8) *Expr {
	v &= mask(w)
	if w == 8 {
		return c.bytes[v]
	}
	if w == 0 {
		if v != 0 {
			return c.tru
		}
		return c.fl
	}
	return c.mk(OConst, w, v, nil, nil, nil)
}

func (c *ECtx) Bool(b bool) *Expr {
	if b {
		return c.tru
	}
	return c.fl
}

func (c *ECtx) Var(name string, w uint8) *Expr {
	if e, ok := c.byName[name]; ok {
		if e.w != w {
			panic(fmt.Sprintf("symbolic variable %s redeclared with width %d (was %d)", name, w, e.w))
		}
		return e
	}
	vid := int32(len(c.vars))
	e := c.mk(OVar, w, uint64(vid), nil, nil, nil)
	e.vars = []int32{vid}
	c.byName[name] = e
	c.vars = append(c.vars, &Var{name: name, w: w, e: e})
	return e
}

func (e *Expr) isConst() bool { return e.op == OConst }

func (c *ECtx) Not(x *Expr) *Expr {
	switch x.op {
	case OConst:
		return c.Bool(x.k == 0)
	case ONot:
		return x.a
	}
	return c.mk(ONot, 0, 0, x, nil, nil)
}

func (c *ECtx) And(x, y *Expr) *Expr {
	if x == c.fl || y == c.fl {
		return c.fl
	}
	if x == c.tru || x == y {
		return y
	}
	if y == c.tru {
		return x
	}
	if (x.op == ONot && x.a == y) || (y.op == ONot && y.a == x) {
		return c.fl
	}
	return c.mk(OAnd, 0, 0, x, y, nil)
}

func (c *ECtx) Or(x, y *Expr) *Expr {
	if x == c.tru || y == c.tru {
		return c.tru
	}
	if x == c.fl || x == y {
		return y
	}
	if y == c.fl {
		return x
	}
	if (x.op == ONot && x.a == y) || (y.op == ONot && y.a == x) {
		return c.tru
	}
	return c.mk(OOr, 0, 0, x, y, nil)
}

func (c *ECtx) Eq(x, y *Expr) *Expr {
	if x == y {
		return c.tru
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", x.w, y.w))
	}
	if x.isConst() {
		x, y = y, x
	}
	if x.isConst() {
		return c.Bool(x.k == y.k)
	}
	if x.w == 0 {
		if y == c.tru {
			return x
		}
		if y == c.fl {
			return c.Not(x)
		}
	}
	if y.isConst() {
		switch x.op {
		case OZExt:
			if y.k&^mask(x.a.w) != 0 {
				return c.fl
			}
			return c.Eq(x.a, c.Const(y.k, x.a.w))
		case OIte:
			if x.b.isConst() && x.c.isConst() {
				p, q := x.b.k == y.k, x.c.k == y.k
				switch {
				case p && q:
					return c.tru
				case p:
					return x.a
				case q:
					return c.Not(x.a)
				default:
					return c.fl
				}
			}
			if x.b.isConst() && x.b.k != y.k {
				return c.And(c.Not(x.a), c.Eq(x.c, y))
			}
			if x.c.isConst() && x.c.k != y.k {
				return c.And(x.a, c.Eq(x.b, y))
			}
		case OAdd:
			if x.b.isConst() {
				return c.Eq(x.a, c.Const(y.k-x.b.k, x.w))
			}
		}
	}
	if x.op == OZExt && y.op == OZExt && x.a.w == y.a.w {
		return c.Eq(x.a, y.a)
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return c.mk(OEq, 0, 0, x, y, nil)
}

func (c *ECtx) Ite(cond, x, y *Expr) *Expr {
	if cond == c.tru || x == y {
		return x
	}
	if cond == c.fl {
		return y
	}
	if cond.op == ONot {
		cond, x, y = cond.a, y, x
	}
	if x.w == 0 {
		if x.isConst() && y.isConst() {
			if x == c.tru {
				return cond
			}
			return c.Not(cond)
		}
		if x == c.tru {
			return c.Or(cond, y)
		}
		if x == c.fl {
			return c.And(c.Not(cond), y)
		}
		if y == c.tru {
			return c.Or(c.Not(cond), x)
		}
		if y == c.fl {
			return c.And(cond, x)
		}
	}
	return c.mk(OIte, x.w, 0, cond, x, y)
}

func (c *ECtx) ZExt(x *Expr, w uint8) *Expr {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return c.Const(x.k, w)
	}
	if x.op == OZExt {
		return c.ZExt(x.a, w)
	}
	return c.mk(OZExt, w, 0, x, nil, nil)
}

func (c *ECtx) SExt(x *Expr, w uint8) *Expr {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return c.Const(uint64(sext(x.k, x.w)), w)
	}
	if x.op == OZExt {
		return c.ZExt(x.a, w)
	}
	return c.mk(OSExt, w, 0, x, nil, nil)
}

// Extract low w bits.
func (c *ECtx) Trunc(x *Expr, w uint8) *Expr {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return c.Const(x.k, w)
	}
	switch x.op {
	case OZExt, OSExt:
		if x.a.w == w {
			return x.a
		}
		if x.a.w > w {
			return c.Trunc(x.a, w)
		}
		if x.op == OZExt {
			return c.ZExt(x.a, w)
		}
		return c.SExt(x.a, w)
	case OExtract:
		return c.Trunc(x.a, w)
	case OIte:
		if x.b.isConst() && x.c.isConst() {
			return c.Ite(x.a, c.Trunc(x.b, w), c.Trunc(x.c, w))
		}
	case OAdd, OSub, OBAnd, OBOr, OBXor, OMul:
		if x.b.isConst() || x.a.isConst() || x.a.op == OZExt || x.a.op == OSExt {
			return c.Bin(x.op, c.Trunc(x.a, w), c.Trunc(x.b, w))
		}
	}
	return c.mk(OExtract, w, 0, x, nil, nil)
}

func evalBin(op Op, x, y uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		a := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(a>>y) & m
	}
	panic("evalBin")
}

func evalCmp(op Op, x, y uint64, w uint8) bool {
	switch op {
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sext(x, w) < sext(y, w)
	case OSle:
		return sext(x, w) <= sext(y, w)
	}
	panic("evalCmp")
}

func (c *ECtx) Bin(op Op, x, y *Expr) *Expr {
	w := x.w
	if x.w != y.w {
		panic(fmt.Sprintf("Bin width mismatch op %d: %d %d", op, x.w, y.w))
	}
	if x.isConst() && y.isConst() {
		return c.Const(evalBin(op, x.k, y.k, w), w)
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if x.isConst() {
			x, y = y, x
		}
	}
	if y.isConst() {
		k := y.k
		switch op {
		case OAdd:
			if k == 0 {
				return x
			}
			if x.op == OAdd && x.b.isConst() {
				return c.Bin(OAdd, x.a, c.Const(x.b.k+k, w))
			}
		case OSub:
			return c.Bin(OAdd, x, c.Const(-k, w))
		case OMul:
			if k == 0 {
				return y
			}
			if k == 1 {
				return x
			}
			if bits.OnesCount64(k) == 1 {
				return c.Bin(OShl, x, c.Const(uint64(bits.TrailingZeros64(k)), w))
			}
		case OBAnd:
			if k == 0 {
				return y
			}
			if k == mask(w) {
				return x
			}
			if x.op == OZExt {
				if k&mask(x.a.w) == mask(x.a.w) {
					return x
				}
				return c.ZExt(c.Bin(OBAnd, x.a, c.Const(k, x.a.w)), w)
			}
			if x.op == OBAnd && x.b.isConst() {
				return c.Bin(OBAnd, x.a, c.Const(k&x.b.k, w))
			}
		case OBOr:
			if k == 0 {
				return x
			}
		case OBXor:
			if k == 0 {
				return x
			}
		case OShl:
			if k == 0 {
				return x
			}
			if k >= uint64(w) {
				return c.Const(0, w)
			}
		case OLShr:
			if k == 0 {
				return x
			}
			if k >= uint64(w) {
				return c.Const(0, w)
			}
			if x.op == OZExt {
				if k >= uint64(x.a.w) {
					return c.Const(0, w)
				}
				return c.ZExt(c.Bin(OLShr, x.a, c.Const(k, x.a.w)), w)
			}
		case OAShr:
			if k == 0 {
				return x
			}
		case OUDiv, OSDiv:
			if k == 1 {
				return x
			}
		}
	}
	if x.isConst() && x.k == 0 {
		switch op {
		case OShl, OLShr, OAShr:
			return x
		}
	}
	if x == y {
		switch op {
		case OSub, OBXor:
			return c.Const(0, w)
		case OBAnd, OBOr:
			return x
		}
	}
	return c.mk(op, w, 0, x, y, nil)
}

func (c *ECtx) Cmp(op Op, x, y *Expr) *Expr {
	w := x.w
	if x.w != y.w {
		panic("Cmp width mismatch")
	}
	if x.isConst() && y.isConst() {
		return c.Bool(evalCmp(op, x.k, y.k, w))
	}
	if x == y {
		return c.Bool(op == OUle || op == OSle)
	}
	// zext on one side against const / zext on both sides
	if x.op == OZExt && y.op == OZExt && x.a.w == y.a.w {
		return c.Cmp(unsig(op), x.a, y.a)
	}
	if x.op == OZExt && y.isConst() {
		xm := mask(x.a.w)
		if (op == OSlt || op == OSle) && sext(y.k, w) < 0 {
			return c.fl
		}
		if y.k > xm {
			return c.tru
		}
		return c.Cmp(unsig(op), x.a, c.Const(y.k, x.a.w))
	}
	if y.op == OZExt && x.isConst() {
		ym := mask(y.a.w)
		if (op == OSlt || op == OSle) && sext(x.k, w) < 0 {
			return c.tru
		}
		if x.k > ym {
			return c.fl
		}
		return c.Cmp(unsig(op), c.Const(x.k, y.a.w), y.a)
	}
	if y.isConst() {
		switch op {
		case OUlt:
			if y.k == 0 {
				return c.fl
			}
			if y.k == 1 {
				return c.Eq(x, c.Const(0, w))
			}
		case OUle:
			if y.k == mask(w) {
				return c.tru
			}
			if y.k == 0 {
				return c.Eq(x, y)
			}
		}
	}
	if x.isConst() {
		switch op {
		case OUlt:
			if x.k == mask(w) {
				return c.fl
			}
		case OUle:
			if x.k == 0 {
				return c.tru
			}
		}
	}
	// ite with const arms
	if x.op == OIte && x.b.isConst() && x.c.isConst() && y.isConst() {
		return c.Ite(x.a, c.Cmp(op, x.b, y), c.Cmp(op, x.c, y))
	}
	// canonical: a<b  == not(b<=a)
	if op == OUle {
		return c.Not(c.mk(OUlt, 0, 0, y, x, nil))
	}
	if op == OSle {
		return c.Not(c.mk(OSlt, 0, 0, y, x, nil))
	}
	return c.mk(op, 0, 0, x, y, nil)
}

func unsig(op Op) Op {
	switch op {
	case OSlt:
		return OUlt
	case OSle:
		return OUle
	}
	return op
}

// ---- evaluation under a model ----

func (c *ECtx) eval(e *Expr, m []uint64) uint64 {
	c.epoch++
	return c.ev(e, m)
}

func (c *ECtx) ev(e *Expr, m []uint64) uint64 {
	switch e.op {
	case OConst:
		return e.k
	case OVar:
		if int(e.k) < len(m) {
			return m[e.k]
		}
		return 0
	}
	if e.evEp == c.epoch {
		return e.ev
	}
	var r uint64
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch e.op {
	case ONot:
		r = 1 ^ c.ev(e.a, m)
	case OAnd:
		if r = c.ev(e.a, m); r != 0 {
			r = c.ev(e.b, m)
		}
	case OOr:
		if r = c.ev(e.a, m); r == 0 {
			r = c.ev(e.b, m)
		}
	case OEq:
		r = b2(c.ev(e.a, m) == c.ev(e.b, m))
	case OIte:
		if c.ev(e.a, m) != 0 {
			r = c.ev(e.b, m)
		} else {
			r = c.ev(e.c, m)
		}
	case OUlt, OUle, OSlt, OSle:
		r = b2(evalCmp(e.op, c.ev(e.a, m), c.ev(e.b, m), e.a.w))
	case OZExt:
		r = c.ev(e.a, m)
	case OSExt:
		r = uint64(sext(c.ev(e.a, m), e.a.w)) & mask(e.w)
	case OExtract:
		r = c.ev(e.a, m) & mask(e.w)
	default:
		r = evalBin(e.op, c.ev(e.a, m), c.ev(e.b, m), e.w)
	}
	e.evEp, e.ev = c.epoch, r
	return r
}

// ---- SMT-LIB printing ----

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func (c *ECtx) ref(e *Expr) string {
	switch e.op {
	case OConst:
		return constSMT(e.k, e.w)
	case OVar:
		return fmt.Sprintf("v%d", e.k)
	}
	return fmt.Sprintf("e%d", e.id)
}

// emitDefs writes declare-const / define-fun commands for e (once per solver process).
func (c *ECtx) emitDefs(e *Expr, sb *strings.Builder) {
	switch e.op {
	case OConst:
		return
	case OVar:
		v := c.vars[e.k]
		if !v.decl {
			v.decl = true
			fmt.Fprintf(sb, "(declare-const v%d %s)\n", e.k, sortName(e.w))
		}
		return
	}
	if e.defd {
		return
	}
	e.defd = true
	c.defs++
	if e.a != nil {
		c.emitDefs(e.a, sb)
	}
	if e.b != nil {
		c.emitDefs(e.b, sb)
	}
	if e.c != nil {
		c.emitDefs(e.c, sb)
	}
	var body string
	switch e.op {
	case ONot:
		body = "(not " + c.ref(e.a) + ")"
	case OIte:
		body = "(ite " + c.ref(e.a) + " " + c.ref(e.b) + " " + c.ref(e.c) + ")"
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, c.ref(e.a))
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, c.ref(e.a))
	case OExtract:
		body = fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, c.ref(e.a))
	default:
		body = "(" + opSMT[e.op] + " " + c.ref(e.a) + " " + c.ref(e.b) + ")"
	}
	fmt.Fprintf(sb, "(define-fun e%d () %s %s)\n", e.id, sortName(e.w), body)
}

func (c *ECtx) resetSolverMarks() {
	for _, e := range c.tab {
		e.defd = false
	}
	for _, v := range c.vars {
		v.decl = false
	}
	c.defs = 0
}

func (c *ECtx) str(e *Expr) string {
	switch e.op {
	case OConst:
		return constSMT(e.k, e.w)
	case OVar:
		return c.vars[e.k].name
	}
	s := "(" + opSMT[e.op]
	if s == "(" {
		s = fmt.Sprintf("(op%d.%d", e.op, e.w)
	}
	for _, x := range []*Expr{e.a, e.b, e.c} {
		if x != nil {
			s += " " + c.str(x)
		}
	}
	return s + ")"
}

// table is the truth table of a boolean expression over its single byte variable.
func (c *ECtx) table(e *Expr) *[4]uint64 {
	if e.tt != nil {
		return e.tt
	}
	v := int(e.vars[0])
	for v >= len(c.scratch) {
		c.scratch = append(c.scratch, 0)
	}
	t := new([4]uint64)
	for x := 0; x < 256; x++ {
		c.scratch[v] = uint64(x)
		if c.eval(e, c.scratch) != 0 {
			t[x>>6] |= 1 << (x & 63)
		}
	}
	c.scratch[v] = 0
	e.tt = t
	return t
}

func (c *ECtx) byteVar(e *Expr) bool { return len(e.vars) == 1 && c.vars[e.vars[0]].w == 8 }
