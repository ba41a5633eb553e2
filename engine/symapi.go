package main

import (
	"fmt"
	"sort"
	"strings"
)

const symPkg = modPath + "/zzverif."

// Engine side of the harness API (package zzverif, sym.go).

func (m *Machine) symByteVar(name string, i int) *Expr {
	return m.symVar(fmt.Sprintf("%s[%d]", name, i), 8, "byte")
}

// harnessChoice forks over 0..n-1 for the named variable.
func (m *Machine) harnessChoice(name string, n int, kind string) int {
	e := m.symVar(name, 8, kind)
	m.assume(fromExpr(m.ctx.Cmp(OUlt, e, m.ctx.Const(uint64(n), 8))))
	return m.choose(e, n)
}

func (m *Machine) str(v Value) string {
	s, ok := goStr(v)
	if !ok {
		panic(pathEnd{"error", "harness: symbolic string where a constant is required"})
	}
	return s
}

func init() {
	reg := func(name string, f func(m *Machine, fr *Frame, a []Value) Value) {
		intrinsics[symPkg+name] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return f(m, fr, a) }
	}
	bytes := func(m *Machine, name string, n int) []Value {
		r := make([]Value, n)
		for i := range r {
			r[i] = m.symByteVar(name, i)
		}
		return r
	}
	// SymBytes(name, n): exactly n arbitrary bytes
	reg("SymBytes", func(m *Machine, fr *Frame, a []Value) Value {
		return bytes(m, m.str(a[0]), m.concInt(a[1]))
	})
	// SymString(name, lo, hi): arbitrary bytes, every length lo..hi
	reg("SymString", func(m *Machine, fr *Frame, a []Value) Value {
		name, lo, hi := m.str(a[0]), m.concInt(a[1]), m.concInt(a[2])
		n := lo
		if hi > lo {
			n = lo + m.harnessChoice(name+"#len", hi-lo+1, "len")
		}
		return mkStr(bytes(m, name, n))
	})
	// SymInt(name, lo, hi): symbolic int
	reg("SymInt", func(m *Machine, fr *Frame, a []Value) Value {
		lo, hi := int64(m.concV(a[1])), int64(m.concV(a[2]))
		e := m.symVar(m.str(a[0]), 64, "int")
		m.assume(m.andV(fromExpr(m.ctx.Cmp(OSle, m.ctx.Const(uint64(lo), 64), e)), fromExpr(m.ctx.Cmp(OSle, e, m.ctx.Const(uint64(hi), 64)))))
		return e
	})
	reg("SymBool", func(m *Machine, fr *Frame, a []Value) Value {
		e := m.symVar(m.str(a[0]), 8, "bool")
		return fromExpr(m.ctx.Eq(m.ctx.Bin(OBAnd, e, m.ctx.Const(1, 8)), m.ctx.Const(1, 8)))
	})
	// Choice(name, n): every value 0..n-1
	reg("Choice", func(m *Machine, fr *Frame, a []Value) Value {
		return intV(m.harnessChoice(m.str(a[0]), m.concInt(a[1]), "choice"))
	})
	reg("Assume", func(m *Machine, fr *Frame, a []Value) Value { m.assume(a[0]); return nil })
	assert := func(m *Machine, cond Value, label string, known string) {
		st := m.asserts[label]
		if st == nil {
			st = &assertStat{}
			m.asserts[label] = st
		}
		st.Reached++
		if e, ok := cond.(*Expr); ok {
			np := m.pos >= len(m.prefix)
			if m.branch(e) {
				if np && m.trace[len(m.trace)-1]&2 != 0 {
					st.Solver++
				}
				return
			}
		} else if cond.(bool) {
			st.Constant++
			return
		}
		if known != "" {
			panic(pathEnd{"known", known + "\x00" + label})
		}
		panic(pathEnd{"violation", label})
	}
	reg("Assert", func(m *Machine, fr *Frame, a []Value) Value {
		assert(m, a[0], m.str(a[1]), "")
		return nil
	})
	// AssertKnown(cond, label, id, isKnown): like Assert, but a failure of an
	// input in the class of the listed known finding id is reported as such.
	reg("AssertKnown", func(m *Machine, fr *Frame, a []Value) Value {
		id := m.str(a[2])
		if !m.X.known[id] {
			assert(m, a[0], m.str(a[1]), "")
			return nil
		}
		// the failing side is split by class membership
		label := m.str(a[1])
		if c, ok := a[0].(bool); ok && c {
			assert(m, c, label, "")
			return nil
		}
		st := m.asserts[label]
		if st == nil {
			st = &assertStat{}
			m.asserts[label] = st
		}
		ok := m.branchV(a[0])
		st.Reached++
		if ok {
			return nil
		}
		if m.branchV(a[3]) {
			panic(pathEnd{"known", id + "\x00" + label})
		}
		panic(pathEnd{"violation", label})
	})
	reg("Reach", func(m *Machine, fr *Frame, a []Value) Value { m.reached[m.str(a[0])] = true; return nil })
	reg("Observe", func(m *Machine, fr *Frame, a []Value) Value {
		vals := append([]Value(nil), sliceCells(a[1])...)
		m.obs = append(m.obs, obs{m.str(a[0]), vals})
		return nil
	})
	reg("Symbolic", func(m *Machine, fr *Frame, a []Value) Value { return true })
	reg("Tier", func(m *Machine, fr *Frame, a []Value) Value { return intV(m.X.tier) })
	reg("Root", func(m *Machine, fr *Frame, a []Value) Value { return m.X.root })
	reg("HarnessDir", func(m *Machine, fr *Frame, a []Value) Value {
		if m.trimpath {
			return modPath + "/zzverif"
		}
		return m.P.repo + "/zzverif"
	})
	reg("Setenv", func(m *Machine, fr *Frame, a []Value) Value { m.env[m.str(a[0])] = a[1]; return nil })
	reg("Unsetenv", func(m *Machine, fr *Frame, a []Value) Value { delete(m.env, m.str(a[0])); return nil })
	reg("SetFlag", func(m *Machine, fr *Frame, a []Value) Value { m.flags[m.str(a[0])] = a[1]; return nil })
	reg("SetTrimpath", func(m *Machine, fr *Frame, a []Value) Value { m.trimpath = m.branchV(a[0]); return nil })
	reg("Stash", func(m *Machine, fr *Frame, a []Value) Value { m.kv[m.str(a[0])] = a[1]; return nil })
	reg("Load", func(m *Machine, fr *Frame, a []Value) Value {
		if v, ok := m.kv[m.str(a[0])]; ok {
			return v
		}
		return ""
	})
	reg("CaptureStdout", func(m *Machine, fr *Frame, a []Value) Value {
		n := len(m.stdout)
		m.invoke(fr, nil, a[0].(*Closure), nil)
		return mkStr(append([]Value(nil), m.stdout[n:]...))
	})
	reg("ExploreSchedules", func(m *Machine, fr *Frame, a []Value) Value {
		m.sched = true
		m.preempt = m.concInt(a[0])
		return nil
	})
	reg("Go", func(m *Machine, fr *Frame, a []Value) Value {
		cl := a[0].(*Closure)
		m.goStart(fr, fmt.Sprintf("g%d", len(m.gs)), func(base *Frame) {
			m.invoke(base, nil, cl, nil)
			m.release(waitKey{})
		})
		m.objPoint(nil, "go", nil, 0, nil)
		return nil
	})
	reg("WaitAll", func(m *Machine, fr *Frame, a []Value) Value {
		me := m.cur
		m.waitFor(func() bool {
			for _, g := range m.gs {
				if g != me && !g.done {
					return false
				}
			}
			return true
		})
		m.acquire(waitKey{})
		return nil
	})
	reg("StopSchedules", func(m *Machine, fr *Frame, a []Value) Value { m.sched = false; return nil })
	reg("DetectRaces", func(m *Machine, fr *Frame, a []Value) Value { m.startRace(); return nil })
	reg("ExploreMapOrder", func(m *Machine, fr *Frame, a []Value) Value { m.mapOrd = m.branchV(a[0]); return nil })
	reg("ExactPretty", func(m *Machine, fr *Frame, a []Value) Value { m.noPretty = true; return nil })
	reg("StepLimit", func(m *Machine, fr *Frame, a []Value) Value {
		m.maxInstr = m.nInstr + int64(m.concInt(a[0]))
		return nil
	})
	reg("FileCount", func(m *Machine, fr *Frame, a []Value) Value {
		c := 0
		for _, n := range m.fs.nodes {
			if !n.dead && !n.dir && hasPrefixV(m, n.path, m.X.root+"/") {
				c++
			}
		}
		return intV(c)
	})
	reg("FSMark", func(m *Machine, fr *Frame, a []Value) Value {
		for _, n := range m.fs.nodes {
			n.mtime = 0
		}
		m.fs.marked = append([]*vnode(nil), m.fs.nodes...)
		m.fs.markDead = map[*vnode]bool{}
		for _, n := range m.fs.nodes {
			if n.dead {
				m.fs.markDead[n] = true
			}
		}
		return nil
	})
	// FSTouched lists (newline separated) what was created, written or removed since FSMark
	reg("FSTouched", func(m *Machine, fr *Frame, a []Value) Value {
		var r []string
		old := map[*vnode]bool{}
		for _, n := range m.fs.marked {
			old[n] = true
		}
		for _, n := range m.fs.nodes {
			p := m.concreteBytes(n.path)
			if !strings.HasPrefix(p, m.X.root+"/") {
				continue
			}
			p = p[len(m.X.root)+1:]
			switch {
			case !old[n]:
				if !n.dead {
					r = append(r, "+"+p)
				}
			case n.dead:
				if !m.fs.markDead[n] {
					r = append(r, "-"+p)
				}
			case n.mtime != 0 && !n.dir:
				r = append(r, "~"+p)
			}
		}
		sort.Strings(r)
		return strings.Join(r, "\n")
	})
	reg("Log", func(m *Machine, fr *Frame, a []Value) Value { return nil })
	reg("Unreachable", func(m *Machine, fr *Frame, a []Value) Value { panic(pathEnd{"assume", ""}) })
}

// runHarness drives all phases of a harness.
func (m *Machine) runHarness(name string) {
	pk := m.P.harness
	m.fs.addDir(m.X.root)
	m.fs.addDir(m.P.repo + "/zzverif")
	base := &Frame{m: m, fn: m.P.rootFn, g: m.cur}
	m.env = map[string]Value{}
	m.phaseInit()
	n := m.concInt(m.call(base, m.P.getFn(pk.Func("PhaseCount")), []Value{name}, nil))
	for i := 0; i < n; i++ {
		m.phaseReset()
		m.fs.cwd = m.P.repo + "/zzverif"
		m.call(base, m.P.getFn(pk.Func("PhaseEnv")), []Value{name, intV(i)}, nil)
		m.phaseInit()
		m.call(base, m.P.getFn(pk.Func("RunPhase")), []Value{name, intV(i)}, nil)
		if m.pending != nil {
			panic(*m.pending)
		}
	}
	m.reached["end"] = true
}

func (m *Machine) phaseReset() {
	m.env = map[string]Value{}
	m.flags = map[string]Value{"test.run": "", "test.count": "1", "test.v": "false", "test.skip": ""}
	m.stdout = nil
	m.sched = false
	m.mapOrd = false
	m.trimpath = false
}

func (m *Machine) afterBoot() {
}

func init() {
	// raw system calls: only issued by package initialisers (rlimit etc.)
	sys := func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		if !m.boot {
			panic(m.unsupported("raw system call"))
		}
		return Tuple{uint64(0), uint64(0), uint64(38)}
	}
	intrinsics["internal/runtime/syscall/linux.Syscall6"] = sys
}

type waitKey struct{}

// hasPrefixV: the bytes of s start with the concrete prefix p.
func hasPrefixV(m *Machine, s Value, p string) bool {
	switch s := s.(type) {
	case string:
		return strings.HasPrefix(s, p)
	case *SymStr:
		if len(s.b) < len(p) {
			return false
		}
		for i := range p {
			if !m.branchV(m.eqByte(s.b[i], uint64(p[i]))) {
				return false
			}
		}
		return true
	}
	return false
}
