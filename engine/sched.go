package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func unsafeCells(p *Value, n int) []Value { return unsafe.Slice(p, n) }

// ---- goroutines (baton passing; one runs at a time) ----

type killedT struct{}

func (m *Machine) goStart(fr *Frame, name string, run func(base *Frame)) *G {
	g := &G{id: len(m.gs), ch: make(chan struct{}), name: name}
	m.gs = append(m.gs, g)
	m.multi = true
	if m.races != nil {
		g.vc = append([]int32(nil), m.cur.vc...)
		m.vcTick(g)
		m.vcTick(m.cur)
	}
	base := &Frame{m: m, fn: m.P.rootFn, g: g}
	go func() {
		<-g.ch
		defer func() {
			r := recover()
			g.done = true
			switch r := r.(type) {
			case nil, goexitPanic:
			case killedT:
				m.killAck <- struct{}{}
				return
			case goPanic:
				m.setPending(pathEnd{"panic", m.panicString(r)})
			case pathEnd:
				m.setPending(r)
			default:
				m.setPending(pathEnd{"error", fmt.Sprint(r)})
			}
			m.passBaton()
		}()
		if m.killing {
			panic(killedT{})
		}
		g.started = true
		run(base)
	}()
	return g
}

func (m *Machine) setPending(p pathEnd) {
	if m.pending == nil {
		m.pending = &p
	}
}

// passBaton hands control to another goroutine when the current one has ended.
func (m *Machine) passBaton() {
	if m.pending != nil {
		m.cur = m.gs[0]
		m.gs[0].ch <- struct{}{}
		return
	}
	var next *G
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok {
					m.setPending(pe)
				} else {
					m.setPending(pathEnd{"error", fmt.Sprint(r)})
				}
			}
		}()
		next = m.pickNext(nil)
		if m.sched {
			m.schedLog = append(m.schedLog, next.name+"@end")
		}
	}()
	if m.pending != nil {
		next = m.gs[0]
	}
	m.cur = next
	next.ch <- struct{}{}
}

func (m *Machine) runnable() []*G {
	var r []*G
	for _, g := range m.gs {
		if g.done {
			continue
		}
		if g.blocked != nil && !g.blocked() {
			continue
		}
		r = append(r, g)
	}
	return r
}

// pickNext chooses the goroutine to run next. prefer is the running goroutine
// if it may continue.
func (m *Machine) pickNext(prefer *G) *G {
	rs := m.runnable()
	if len(rs) == 0 {
		var names []string
		for _, g := range m.gs {
			if !g.done {
				names = append(names, g.name)
			}
		}
		panic(pathEnd{"violation", "deadlock: all goroutines blocked (" + strings.Join(names, ",") + ")"})
	}
	if !m.sched {
		if prefer != nil {
			for _, g := range rs {
				if g == prefer {
					return g
				}
			}
		}
		// round robin from the current one
		for _, g := range rs {
			if m.cur != nil && g.id > m.cur.id {
				return g
			}
		}
		return rs[0]
	}
	// preferred first
	if prefer != nil {
		found := false
		for i, g := range rs {
			if g == prefer {
				copy(rs[1:i+1], rs[:i])
				rs[0] = g
				found = true
				break
			}
		}
		if !found {
			prefer = nil
		}
	}
	if m.preempt >= 0 {
		// bounded preemptions, no reduction
		if prefer != nil && m.preempt == 0 {
			return prefer
		}
		g := rs[m.schedChoice(len(rs))]
		if prefer != nil && g != prefer {
			m.preempt--
		}
		return g
	}
	// all interleavings up to commuting independent operations (sleep sets)
	var cand []*G
	for _, g := range rs {
		if _, asleep := m.sleep[g]; !asleep {
			cand = append(cand, g)
		}
	}
	if len(cand) == 0 {
		panic(pathEnd{"redundant", ""})
	}
	// an operation that is independent of everything needs no alternative
	for _, g := range cand {
		if g.pending().mode == 0 {
			return g
		}
	}
	k := m.schedChoice(len(cand))
	for _, g := range cand[:k] {
		m.sleep[g] = g.pending()
	}
	g := cand[k]
	op := g.pending()
	for s, o := range m.sleep {
		if dependent(o, op) {
			delete(m.sleep, s)
		}
	}
	return g
}

func (m *Machine) schedChoice(n int) int {
	if n == 1 {
		return 0
	}
	e := m.symVar(fmt.Sprintf("sched%d", m.nsched), 8, "sched")
	m.nsched++
	return m.choose(e, n)
}

// schedOp is the visible operation a goroutine performs when it is resumed.
type schedOp struct {
	obj  any    // mutex, channel, atomic cell
	path string // file operations
	mode byte   // r read, w write, s create/remove, l list, x anything, 0 nothing visible
}

func (g *G) pending() schedOp {
	if g.op == nil {
		return schedOp{}
	}
	return g.op()
}

func below(p, dir string) bool {
	return p == dir || strings.HasPrefix(p, dir+"/")
}

// dependent: the order of the two operations may matter.
func dependent(a, b schedOp) bool {
	if a.mode == 0 || b.mode == 0 {
		return false
	}
	if a.mode == 'x' || b.mode == 'x' {
		return true
	}
	rd := func(o schedOp) bool { return o.mode == 'r' || o.mode == 'l' }
	if rd(a) && rd(b) {
		return false
	}
	if a.path == "" || b.path == "" {
		return a.obj != nil && a.obj == b.obj
	}
	if a.mode != 's' {
		a, b = b, a
	}
	if a.mode == 's' {
		return below(b.path, a.path) || b.mode == 's' && below(a.path, b.path) || b.mode == 'l' && below(a.path, b.path)
	}
	return a.path == b.path
}

func (m *Machine) switchTo(g *G) {
	me := m.cur
	if g == me {
		return
	}
	m.cur = g
	g.ch <- struct{}{}
	<-me.ch
	if m.killing {
		panic(killedT{})
	}
	if me.id == 0 && m.pending != nil {
		panic(*m.pending)
	}
}

// modCall reports whether the code that performs an operation belongs to the
// module (or a harness); the library's own synchronisation is not a scheduling
// point.
func modCall(fr *Frame) bool {
	for f := fr; f != nil; f = f.caller {
		if f.fn == nil {
			return false
		}
		if f.fn.wrap || strings.HasPrefix(f.fn.name, "(*sync/atomic.") {
			continue
		}
		return f.fn.inMod
	}
	return false
}

// point is a scheduling point before a visible operation; cond (optional) is
// what the operation waits for.
func (m *Machine) point(what string, op func() schedOp, cond func() bool) {
	if m.boot || !m.multi || !m.sched {
		if cond != nil {
			m.waitFor(cond)
		}
		return
	}
	me := m.cur
	me.op = op
	me.blocked = cond
	g := m.pickNext(me)
	m.schedLog = append(m.schedLog, g.name+"@"+what)
	m.switchTo(g)
	me.blocked = nil
	me.op = nil
}

// objPoint: operation of module code on a synchronisation object.
func (m *Machine) objPoint(fr *Frame, what string, obj any, mode byte, cond func() bool) {
	if fr != nil && !modCall(fr) {
		if cond != nil {
			m.waitFor(cond)
		}
		return
	}
	m.point(what, func() schedOp { return schedOp{obj: obj, mode: mode} }, cond)
}

// fsPoint: operation of module code on a path; mode may depend on the state
// when the operation is performed.
func (m *Machine) fsPoint(fr *Frame, what string, p Value, mode func(s string) (string, byte)) {
	if m.boot || !m.multi || !m.sched || fr != nil && !modCall(fr) {
		return
	}
	m.point(what, func() schedOp {
		s, ok := p.(string)
		if !ok {
			return schedOp{mode: 'x'}
		}
		q, md := mode(s)
		return schedOp{path: q, mode: md}
	}, nil)
}

func fixedMode(b byte) func(string) (string, byte) {
	return func(s string) (string, byte) { return s, b }
}

func (m *Machine) hasPath(s string) bool { n := m.fs.byP[s]; return n != nil && !n.dead }

// waitFor blocks the current goroutine until cond holds.
func (m *Machine) waitFor(cond func() bool) {
	if cond() {
		return
	}
	me := m.cur
	me.blocked = cond
	me.op = func() schedOp { return schedOp{mode: 'x'} }
	g := m.pickNext(nil)
	if m.sched {
		m.schedLog = append(m.schedLog, g.name+"@block")
	}
	m.switchTo(g)
	for !cond() {
		// woken for pending/kill only; otherwise the condition holds
		g := m.pickNext(nil)
		m.switchTo(g)
	}
	me.blocked = nil
	me.op = nil
}

func (m *Machine) killOthers() {
	m.killing = true
	for _, g := range m.gs[1:] {
		if !g.done {
			g.ch <- struct{}{}
			<-m.killAck
			g.done = true
		}
	}
	m.killing = false
	m.multi = false
}

// ---- vector clocks / race detection ----

type racePos struct {
	fn  *Fn
	pos token.Pos
}

type raceRd struct {
	g, c int32
	pos  racePos
}

type raceCell struct {
	wg, wc int32 // last write: goroutine, clock
	wpos   racePos
	r      []raceRd // reads since then, one per goroutine
}

type raceState struct {
	cells map[*Value]*raceCell
	locks map[any][]int32
}

func vcGet(v []int32, i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func vcSet(v []int32, i int, x int32) []int32 {
	for len(v) <= i {
		v = append(v, 0)
	}
	v[i] = x
	return v
}

func vcJoin(a, b []int32) []int32 {
	for i, x := range b {
		if x > vcGet(a, i) {
			a = vcSet(a, i, x)
		}
	}
	return a
}

func (m *Machine) vcTick(g *G) { g.vc = vcSet(g.vc, g.id, vcGet(g.vc, g.id)+1) }

func (m *Machine) startRace() {
	m.races = &raceState{cells: map[*Value]*raceCell{}, locks: map[any][]int32{}}
	for _, g := range m.gs {
		m.vcTick(g)
	}
}

func (m *Machine) acquire(key any) {
	if m.races == nil {
		return
	}
	m.cur.vc = vcJoin(m.cur.vc, m.races.locks[key])
}

func (m *Machine) release(key any) {
	if m.races == nil {
		return
	}
	m.races.locks[key] = vcJoin(append([]int32(nil), m.races.locks[key]...), m.cur.vc)
	m.vcTick(m.cur)
}

func (m *Machine) where(fr *Frame) racePos {
	for f := fr; f != nil; f = f.caller {
		if f.fn != nil && f.fn.inMod && !f.fn.wrap && f.pos.IsValid() {
			return racePos{f.fn, f.pos}
		}
	}
	return racePos{fr.fn, token.NoPos}
}

func (m *Machine) posText(r racePos) string {
	if !r.pos.IsValid() {
		return r.fn.name
	}
	p := m.P.fset.Position(r.pos)
	return fmt.Sprintf("%s (%s:%d)", r.fn.name, p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line)
}

func (m *Machine) raceCellOf(p *Value) *raceCell {
	c := m.races.cells[p]
	if c == nil {
		c = &raceCell{wg: -1}
		m.races.cells[p] = c
	}
	return c
}

func (m *Machine) raceRead(fr *Frame, p *Value) {
	if !m.multi || m.P.raceIgnore(fr) {
		return
	}
	c := m.raceCellOf(p)
	g := m.cur
	if c.wg >= 0 && int(c.wg) != g.id && vcGet(g.vc, int(c.wg)) < c.wc {
		m.reportRace("write", c.wpos, "read", m.where(fr))
	}
	for i := range c.r {
		if c.r[i].g == int32(g.id) {
			c.r[i].c = vcGet(g.vc, g.id)
			return
		}
	}
	c.r = append(c.r, raceRd{int32(g.id), vcGet(g.vc, g.id), m.where(fr)})
}

func (m *Machine) raceWrite(fr *Frame, p *Value) {
	if !m.multi || m.P.raceIgnore(fr) {
		return
	}
	c := m.raceCellOf(p)
	g := m.cur
	if c.wg >= 0 && int(c.wg) != g.id && vcGet(g.vc, int(c.wg)) < c.wc {
		m.reportRace("write", c.wpos, "write", m.where(fr))
	}
	for _, r := range c.r {
		if int(r.g) != g.id && vcGet(g.vc, int(r.g)) < r.c {
			m.reportRace("read", r.pos, "write", m.where(fr))
		}
	}
	c.wg, c.wc, c.wpos = int32(g.id), vcGet(g.vc, g.id), m.where(fr)
	c.r = c.r[:0]
}

func (m *Machine) reportRace(k1 string, r1 racePos, k2 string, r2 racePos) {
	p1, p2 := m.posText(r1), m.posText(r2)
	panic(pathEnd{"violation", fmt.Sprintf("data race: %s at %s, %s at %s", k1, p1, k2, p2)})
}

// raceIgnore: accesses inside sync primitives' own code and the harness.
func (p *Program) raceIgnore(fr *Frame) bool {
	return fr.fn.noRace
}

// ---- mutexes ----

type mutexState struct {
	locked  bool
	readers int
}

func (m *Machine) mutex(p *Value) *mutexState {
	s := m.mutexes[p]
	if s == nil {
		s = &mutexState{}
		m.mutexes[p] = s
	}
	return s
}

// ---- channels ----

func (m *Machine) chanSend(ch *Chan, v Value) {
	m.objPoint(nil, "send", ch, 'w', nil)
	if ch == nil {
		m.waitFor(func() bool { return false })
	}
	m.release(ch)
	m.waitFor(func() bool { return ch.closed || len(ch.buf) < ch.cap || (ch.cap == 0 && ch.recvW > len(ch.buf)) })
	if ch.closed {
		panic(m.rtErr("send on closed channel"))
	}
	ch.buf = append(ch.buf, copyVal(v))
	ch.sent++
	n := ch.sent
	if ch.cap == 0 {
		m.waitFor(func() bool { return ch.taken >= n })
	}
	m.acquire(ch)
}

func (m *Machine) chanRecv(ch *Chan, et types.Type) (Value, bool) {
	m.objPoint(nil, "recv", ch, 'w', nil)
	if ch == nil {
		m.waitFor(func() bool { return false })
	}
	ch.recvW++
	m.release(ch)
	m.waitFor(func() bool { return len(ch.buf) > 0 || ch.closed })
	ch.recvW--
	m.acquire(ch)
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		ch.taken++
		return v, true
	}
	return zero(et), false
}

func (m *Machine) chanClose(ch *Chan) {
	m.objPoint(nil, "close", ch, 'w', nil)
	if ch == nil {
		panic(m.rtErr("close of nil channel"))
	}
	if ch.closed {
		panic(m.rtErr("close of closed channel"))
	}
	m.release(ch)
	ch.closed = true
}

func (c *compiler) selectI(ins *ssa.Select) instrFn {
	dst := c.reg(ins)
	type st struct {
		send bool
		ch   opnd
		v    opnd
		et   types.Type
	}
	var sts []st
	for _, s := range ins.States {
		x := st{send: s.Dir == types.SendOnly, ch: c.op(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if x.send {
			x.v = c.op(s.Send)
		}
		sts = append(sts, x)
	}
	blocking := ins.Blocking
	return func(fr *Frame) {
		m := fr.m
		m.objPoint(nil, "select", nil, 'x', nil)
		chs := make([]*Chan, len(sts))
		for i := range sts {
			chs[i], _ = sts[i].ch.get(fr).(*Chan)
			if chs[i] != nil && !sts[i].send {
				chs[i].recvW++
			}
		}
		ready := func() int {
			for i, ch := range chs {
				if ch == nil {
					continue
				}
				if sts[i].send {
					if ch.closed || len(ch.buf) < ch.cap || (ch.cap == 0 && ch.recvW > len(ch.buf)) {
						return i
					}
				} else if len(ch.buf) > 0 || ch.closed {
					return i
				}
			}
			return -1
		}
		k := ready()
		if k < 0 && blocking {
			m.waitFor(func() bool { return ready() >= 0 })
			k = ready()
		}
		for i := range sts {
			if chs[i] != nil && !sts[i].send {
				chs[i].recvW--
			}
		}
		res := Tuple{uint64(k), false}
		if k < 0 {
			res[0] = ^uint64(0)
		}
		var out []Value
		for i := range sts {
			if sts[i].send {
				continue
			}
			out = append(out, zero(sts[i].et))
			if i == k {
				v, ok := m.chanRecv(chs[i], sts[i].et)
				out[len(out)-1] = v
				res[1] = ok
			}
		}
		if k >= 0 && sts[k].send {
			m.chanSend(chs[k], sts[k].v.get(fr))
		}
		fr.regs[dst] = append(res, out...)
	}
}

func (c *compiler) goI(ins *ssa.Go) instrFn {
	k := c.callee(&ins.Call, ins.Pos())
	var pos token.Pos = ins.Pos()
	return func(fr *Frame) {
		fr.pos = pos
		if k.bi != nil {
			panic(fr.m.unsupported("go builtin"))
		}
		fn, cl, args := k.resolve(fr)
		m := fr.m
		m.goStart(fr, fmt.Sprintf("g%d", len(m.gs)), func(base *Frame) { m.invoke(base, fn, cl, args) })
		m.objPoint(nil, "go", nil, 0, nil)
	}
}
