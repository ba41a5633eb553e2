package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

func lookupIntrinsic(f *ssa.Function) intrinsic {
	n := f.String()
	if o := f.Origin(); o != nil {
		n = o.String()
	}
	if i, ok := intrinsics[n]; ok {
		return i
	}
	return nil
}

// StrPtr is the data pointer of a string (unsafe header punning).
type StrPtr struct{ s Value }

func (p *StrPtr) addr() uint64 {
	switch s := p.s.(type) {
	case string:
		return uint64(uintptr(unsafe.Pointer(unsafe.StringData(s))))
	case *SymStr:
		return uint64(uintptr(unsafe.Pointer(&s.b[0]))) >> 4
	case []Value:
		return uint64(uintptr(unsafe.Pointer(&s[0]))) >> 4
	}
	return 0
}

// punLoad reinterprets v as type et (string/slice headers).
func (m *Machine) punLoad(et types.Type, v Value) Value {
	switch u := et.Underlying().(type) {
	case *types.Struct:
		var n, c int
		switch s := v.(type) {
		case string, *SymStr:
			n = strLen(s)
			c = n
		case []Value:
			n, c = len(s), cap(s)
		default:
			panic(m.unsupported("unsafe load of %T as struct", v))
		}
		var p Value = nilPtr
		if n > 0 {
			p = &StrPtr{v}
		}
		r := Struct{p, uint64(n)}
		if u.NumFields() == 3 {
			r = append(r, uint64(c))
		}
		return r
	case *types.Slice:
		switch s := v.(type) {
		case string, *SymStr:
			return strCells(s)
		case Struct:
			n := m.concInt(s[1])
			sp, ok := s[0].(*StrPtr)
			if !ok {
				return []Value(nil)
			}
			switch x := sp.s.(type) {
			case []Value:
				return x[:n]
			default:
				return strCells(x)[:n]
			}
		}
	case *types.Basic:
		switch s := v.(type) {
		case []Value:
			return &SymStr{s}
		case Struct:
			n := m.concInt(s[1])
			sp, ok := s[0].(*StrPtr)
			if !ok {
				return ""
			}
			if x, ok := sp.s.([]Value); ok {
				return &SymStr{x[:n]}
			}
			return strSlice(sp.s, 0, n)
		}
	}
	panic(m.unsupported("unsafe load of %T as %s", v, et))
}

func headerLike(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || s.NumFields() < 2 || s.NumFields() > 3 {
		return false
	}
	b, ok := s.Field(0).Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.UnsafePointer {
		return false
	}
	for i := 1; i < s.NumFields(); i++ {
		if _, _, ok := intType(s.Field(i).Type()); !ok {
			return false
		}
	}
	return true
}

// indexCells: first position of sub in s, forking on symbolic comparisons.
func (m *Machine) indexCells(s, sub []Value) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if m.branchV(m.eqCells(s[i:i+n], sub)) {
			return i
		}
	}
	return -1
}

func (m *Machine) lastIndexCells(s, sub []Value) int {
	n := len(sub)
	for i := len(s) - n; i >= 0; i-- {
		if m.branchV(m.eqCells(s[i:i+n], sub)) {
			return i
		}
	}
	return -1
}

func sliceCells(v Value) []Value { r, _ := v.([]Value); return r }

func intV(i int) Value { return uint64(int64(i)) }

func (m *Machine) indexByte(s []Value, c Value) int {
	if k, ok := c.(uint64); ok {
		for i := range s {
			switch x := s[i].(type) {
			case uint64:
				if x == k {
					return i
				}
			default:
				if m.branchV(m.eqByte(x, c)) {
					return i
				}
			}
		}
		return -1
	}
	for i := range s {
		if m.branchV(m.eqByte(s[i], c)) {
			return i
		}
	}
	return -1
}

func (m *Machine) countByte(s []Value, c Value) int {
	n := 0
	for i := range s {
		if m.branchV(m.eqByte(s[i], c)) {
			n++
		}
	}
	return n
}

func (m *Machine) compareCells(a, b []Value) Value {
	if m.branchV(m.eqCells(a, b)) {
		return uint64(0)
	}
	if m.branchV(m.ltCells(a, b, false)) {
		return intV(-1)
	}
	return intV(1)
}

type pcInfo struct {
	name, file string
	line       int
	fr         *Frame
}

// goName converts an SSA function name into the runtime's name.
func goName(f *ssa.Function) string {
	n := f.String()
	// (*pkg.T).M -> pkg.(*T).M ; (pkg.T).M -> pkg.T.M
	if strings.HasPrefix(n, "(") {
		i := strings.IndexByte(n, ')')
		recv, rest := n[1:i], n[i+1:]
		star := strings.HasPrefix(recv, "*")
		recv = strings.TrimPrefix(recv, "*")
		slash := strings.LastIndexByte(recv, '/')
		dot := strings.IndexByte(recv[slash+1:], '.') + slash + 1
		if star {
			n = recv[:dot] + ".(*" + recv[dot+1:] + ")" + rest
		} else {
			n = recv + rest
		}
	}
	if i := strings.IndexByte(n, '['); i >= 0 {
		if j := strings.LastIndexByte(n, ']'); j > i {
			n = n[:i] + "[...]" + n[j+1:]
		}
	}
	if i := strings.IndexByte(n, '$'); i >= 0 {
		parts := strings.Split(n[i+1:], "$")
		n = n[:i] + ".func" + strings.Join(parts, ".")
	}
	return n
}

func (m *Machine) frameInfo(f *Frame) pcInfo {
	if f.fn == m.P.rootFn && f.fn.blocks == nil || f.caller == nil && f.fn == m.P.rootFn {
		file := m.P.goroot + "/src/testing/testing.go"
		if m.trimpath {
			file = "testing/testing.go"
		}
		return pcInfo{name: "testing.tRunner", file: file, line: 1690, fr: f}
	}
	file, line := m.P.position(f.pos)
	if m.trimpath {
		if strings.HasPrefix(file, m.P.repo+"/") {
			file = modPath + file[len(m.P.repo):]
		} else if strings.HasPrefix(file, m.P.goroot+"/src/") {
			file = file[len(m.P.goroot)+5:]
		} else if i := strings.Index(file, "/pkg/mod/"); i >= 0 {
			file = file[i+9:]
		}
	}
	return pcInfo{name: goName(f.fn.f), file: file, line: line, fr: f}
}

// stack lists the frames visible to runtime.Callers, innermost first.
func (m *Machine) stack(fr *Frame) []*Frame {
	var r []*Frame
	for f := fr; f != nil; f = f.caller {
		if f.fn.wrap {
			continue
		}
		r = append(r, f)
	}
	return r
}

func (m *Machine) pcOf(f *Frame) uint64 {
	m.pcs = append(m.pcs, m.frameInfo(f))
	return uint64(0x400000 + len(m.pcs))
}

func (m *Machine) pcLookup(v uint64) *pcInfo {
	i := int(v) - 0x400000 - 1
	if i < 0 || i >= len(m.pcs) {
		i++
		if i < 0 || i >= len(m.pcs) {
			return nil
		}
	}
	return &m.pcs[i]
}

func cellPtr(v Value) *Value { p := new(Value); *p = v; return p }

func (m *Machine) atomicPoint(p Value) *Value {
	c := p.(*Value)
	if c == nil {
		panic(m.nilDeref())
	}
	return c
}

func init() {
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	type F = intrinsic

	// ---- bytes and strings ----
	reg("internal/bytealg.IndexByte", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return intV(m.indexByte(sliceCells(a[0]), a[1]))
	})
	idxStr := func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(uint64); ok {
				return intV(strings.IndexByte(s, byte(c)))
			}
		}
		return intV(m.indexByte(strCells(a[0]), a[1]))
	}
	reg("internal/bytealg.IndexByteString", idxStr)
	reg("internal/stringslite.IndexByte", idxStr)
	reg("strings.IndexByte", idxStr)
	reg("bytes.IndexByte", intrinsics["internal/bytealg.IndexByte"])
	reg("internal/bytealg.LastIndexByte", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		s := sliceCells(a[0])
		for i := len(s) - 1; i >= 0; i-- {
			if m.branchV(m.eqByte(s[i], a[1])) {
				return intV(i)
			}
		}
		return intV(-1)
	})
	reg("internal/bytealg.LastIndexByteString", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		for i := strLen(a[0]) - 1; i >= 0; i-- {
			if m.branchV(m.eqByte(strAt(a[0], i), a[1])) {
				return intV(i)
			}
		}
		return intV(-1)
	})
	reg("internal/bytealg.Count", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return intV(m.countByte(sliceCells(a[0]), a[1]))
	})
	reg("internal/bytealg.CountString", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return intV(m.countByte(strCells(a[0]), a[1]))
	})
	index := func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if t, ok := a[1].(string); ok {
				return intV(strings.Index(s, t))
			}
		}
		return intV(m.indexCells(cellsOf(a[0]), cellsOf(a[1])))
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index", "strings.Index", "bytes.Index"} {
		reg(n, index)
	}
	lastIndex := func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if t, ok := a[1].(string); ok {
				return intV(strings.LastIndex(s, t))
			}
		}
		return intV(m.lastIndexCells(cellsOf(a[0]), cellsOf(a[1])))
	}
	reg("strings.LastIndex", lastIndex)
	reg("bytes.LastIndex", lastIndex)
	contains := func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if t, ok := a[1].(string); ok {
				return strings.Contains(s, t)
			}
		}
		return m.indexCells(cellsOf(a[0]), cellsOf(a[1])) >= 0
	}
	reg("strings.Contains", contains)
	reg("bytes.Contains", contains)
	equal := func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return m.eqCells(sliceCells(a[0]), sliceCells(a[1]))
	}
	reg("internal/bytealg.Equal", equal)
	reg("bytes.Equal", equal)
	hasPrefix := func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		x, y := m.lenOf(a[0]), m.lenOf(a[1])
		if x < y {
			return false
		}
		if s, ok := a[0].(string); ok {
			if t, ok := a[1].(string); ok {
				return strings.HasPrefix(s, t)
			}
		}
		return m.eqCells(cellsOf(a[0])[:y], cellsOf(a[1]))
	}
	hasSuffix := func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		x, y := m.lenOf(a[0]), m.lenOf(a[1])
		if x < y {
			return false
		}
		if s, ok := a[0].(string); ok {
			if t, ok := a[1].(string); ok {
				return strings.HasSuffix(s, t)
			}
		}
		return m.eqCells(cellsOf(a[0])[x-y:], cellsOf(a[1]))
	}
	for _, p := range []string{"strings", "bytes", "internal/stringslite"} {
		reg(p+".HasPrefix", hasPrefix)
		reg(p+".HasSuffix", hasSuffix)
	}
	compare := func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return m.compareCells(cellsOf(a[0]), cellsOf(a[1]))
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "internal/bytealg.abigen_runtime_cmpstring"} {
		reg(n, compare)
	}
	reg("internal/bytealg.MakeNoZero", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return m.makeSlice(types.Typ[types.Uint8], m.concInt(a[0]), m.concInt(a[0]))
	})
	reg("(*strings.Builder).String", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		p := a[0].(*Value)
		if p == nil {
			panic(m.nilDeref())
		}
		st := (*p).(Struct)
		return mkStr(sliceCells(st[len(st)-1]))
	})
	reg("strings.Clone", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return s
		}
		return mkStr(strCells(a[0]))
	})
	reg("internal/stringslite.Clone", intrinsics["strings.Clone"])
	conc1 := func(f func(s string) Value) F {
		return func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			if s, ok := a[0].(string); ok {
				return f(s)
			}
			return notHandled
		}
	}
	reg("strings.TrimSpace", conc1(func(s string) Value { return strings.TrimSpace(s) }))
	reg("strings.ToLower", conc1(func(s string) Value { return strings.ToLower(s) }))
	reg("strings.ToUpper", conc1(func(s string) Value { return strings.ToUpper(s) }))
	reg("unicode/utf8.RuneCountInString", conc1(func(s string) Value {
		n := 0
		for range s {
			n++
		}
		return intV(n)
	}))
	reg("strings.Split", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if t, ok := a[1].(string); ok {
				parts := strings.Split(s, t)
				r := make([]Value, len(parts))
				for i := range parts {
					r[i] = parts[i]
				}
				return r
			}
		}
		return notHandled
	})
	reg("strings.Join", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		parts := sliceCells(a[0])
		if fr != nil && m.races != nil {
			m.raceRange(fr, parts, false)
		}
		var r Value = ""
		allc := true
		for _, p := range parts {
			if _, ok := p.(string); !ok {
				allc = false
			}
		}
		if sep, ok := a[1].(string); ok && allc {
			ss := make([]string, len(parts))
			for i := range parts {
				ss[i] = parts[i].(string)
			}
			return strings.Join(ss, sep)
		}
		var out []Value
		for i, p := range parts {
			if i > 0 {
				out = append(out, strCells(a[1])...)
			}
			out = append(out, strCells(p)...)
		}
		r = mkStr(out)
		return r
	})

	// ---- unsafe helpers ----
	ident := func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return a[0] }
	for _, n := range []string{"internal/abi.NoEscape", "strings.noescape", "internal/abi.Escape", "reflect.noescape", "bytes.noescape"} {
		reg(n, ident)
	}
	nop := func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return nil }
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"runtime/debug.FreeOSMemory", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable", "internal/race.Read", "internal/race.Write",
		"internal/race.ReadRange", "internal/race.WriteRange", "internal/msan.Read", "internal/asan.Read", "internal/testlog.Getenv", "internal/testlog.Open", "internal/testlog.Stat",
		"runtime/debug.SetGCPercent", "internal/godebug.setUpdate", "internal/godebug.registerMetric", "internal/godebug.setNewIncNonDefault", "syscall.runtime_envs", "(*internal/godebug.Setting).IncNonDefault"} {
		reg(n, nop)
	}
	reg("(*internal/godebug.Setting).Value", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).Name", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return "" })
	reg("internal/godebug.New", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		t := m.P.typeByName("internal/godebug", "Setting")
		return cellPtr(zero(t))
	})
	reg("internal/race.Errors", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return uint64(0) })

	// ---- math ----
	f1 := func(f func(x float64) float64) F {
		return func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return f(a[0].(float64)) }
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt,
		"Abs": math.Abs, "Exp": math.Exp, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Round": math.Round,
		"archFloor": math.Floor, "archCeil": math.Ceil, "archTrunc": math.Trunc, "archSqrt": math.Sqrt, "archExp": math.Exp, "archLog": math.Log} {
		reg("math."+n, f1(f))
	}
	for n, f := range map[string]func(x, y float64) float64{"archMax": math.Max, "archMin": math.Min, "Max": math.Max, "Min": math.Min, "archHypot": math.Hypot, "archPow": math.Pow} {
		reg("math."+n, func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return f(a[0].(float64), a[1].(float64)) })
	}
	reg("math.Pow", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return math.Pow(a[0].(float64), a[1].(float64)) })
	reg("math.Mod", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return math.Mod(a[0].(float64), a[1].(float64)) })
	for _, n := range []string{"math.F", "internal/strconv.f"} {
		reg(n+"loat64bits", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return math.Float64bits(a[0].(float64)) })
		reg(n+"loat64frombits", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return math.Float64frombits(m.concV(a[0])) })
		reg(n+"loat32bits", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			return uint64(math.Float32bits(float32(a[0].(float64))))
		})
		reg(n+"loat32frombits", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			return float64(math.Float32frombits(uint32(m.concV(a[0]))))
		})
	}
	b1 := func(name string, f func(x uint64) int) {
		reg("math/bits."+name, func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			if x, ok := a[0].(uint64); ok {
				return intV(f(x))
			}
			return notHandled
		})
	}
	b1("Len", bits.Len64)
	b1("Len64", bits.Len64)
	b1("Len32", bits.Len64)
	b1("OnesCount64", bits.OnesCount64)
	b1("TrailingZeros64", bits.TrailingZeros64)
	b1("LeadingZeros64", bits.LeadingZeros64)

	// ---- runtime ----
	reg("runtime.Caller", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		skip := m.concInt(a[0])
		st := m.stack(fr)
		if skip < 0 || skip >= len(st) {
			return Tuple{uint64(0), "", uint64(0), false}
		}
		i := m.frameInfo(st[skip])
		return Tuple{m.pcOf(st[skip]), i.file, intV(i.line), true}
	})
	reg("runtime.Callers", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		skip := m.concInt(a[0]) - 1 // 0 = Callers itself
		st := m.stack(fr)
		out := sliceCells(a[1])
		n := 0
		if skip < 0 {
			skip = 0
		}
		for i := skip; i < len(st) && n < len(out); i++ {
			out[n] = m.pcOf(st[i]) + 1
			n++
		}
		return intV(n)
	})
	reg("runtime.FuncForPC", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		pc := m.concV(a[0])
		if m.pcLookup(pc) == nil {
			return nilPtr
		}
		return cellPtr(pc)
	})
	reg("(*runtime.Func).Name", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		p := a[0].(*Value)
		if p == nil {
			return ""
		}
		return m.pcLookup((*p).(uint64)).name
	})
	reg("(*runtime.Func).FileLine", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		i := m.pcLookup((*(a[0].(*Value))).(uint64))
		return Tuple{i.file, intV(i.line)}
	})
	reg("(*runtime.Func).Entry", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return (*(a[0].(*Value))).(uint64)
	})
	reg("runtime.CallersFrames", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return cellPtr(Struct{append([]Value(nil), sliceCells(a[0])...)})
	})
	reg("(*runtime.Frames).Next", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		p := a[0].(*Value)
		st := (*p).(Struct)
		pcs := sliceCells(st[0])
		t := m.P.typeByName("runtime", "Frame")
		f := zero(t).(Struct)
		if len(pcs) == 0 {
			return Tuple{f, false}
		}
		pc := m.concV(pcs[0]) - 1
		i := m.pcLookup(pc)
		ut := t.Underlying().(*types.Struct)
		for k := 0; k < ut.NumFields(); k++ {
			switch ut.Field(k).Name() {
			case "PC":
				f[k] = pc
			case "Function":
				f[k] = i.name
			case "File":
				f[k] = i.file
			case "Line":
				f[k] = intV(i.line)
			case "Func":
				f[k] = cellPtr(pc)
			}
		}
		st[0] = pcs[1:]
		return Tuple{f, len(pcs) > 1}
	})
	reg("runtime.GOROOT", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		if m.trimpath {
			return ""
		}
		return m.P.goroot
	})
	reg("runtime.Gosched", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { m.yieldNow(); return nil })
	reg("runtime.NumGoroutine", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return intV(len(m.runnable())) })
	reg("runtime.GOMAXPROCS", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return uint64(4) })
	reg("runtime.NumCPU", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return uint64(4) })
	reg("runtime.Goexit", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { panic(goexitPanic{}) })
	reg("(runtime.errorString).Error", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return concat("runtime error: ", a[0])
	})
	reg("runtime/debug.ReadBuildInfo", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		t := m.P.typeByName("runtime/debug", "BuildInfo")
		st := zero(t).(Struct)
		ut := t.Underlying().(*types.Struct)
		set := func(k string, v string) Value { return Struct{k, v} }
		for i := 0; i < ut.NumFields(); i++ {
			if ut.Field(i).Name() == "Settings" {
				s := []Value{set("-buildmode", "exe"), set("-compiler", "gc")}
				if m.trimpath {
					s = append(s, set("-trimpath", "true"))
				}
				st[i] = s
			}
		}
		return Tuple{cellPtr(st), true}
	})
	reg("runtime/debug.Stack", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return strCells("goroutine 1 [running]:\n") })
	reg("runtime/debug.PrintStack", nop)
	reg("runtime.Stack", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return uint64(0) })
	reg("runtime.Version", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return "go1.27" })
	reg("runtime.ReadMemStats", nop)

	// ---- time ----
	reg("time.Now", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		m.entropy++
		return m.timeVal(1760000000*1e9 + m.entropy*1e6)
	})
	reg("time.Since", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return uint64(1e6) })
	reg("time.Sleep", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { m.yieldNow(); return nil })
	reg("time.runtimeNano", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { m.entropy++; return m.entropy * 1e6 })
	reg("time.now", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		m.entropy++
		return Tuple{uint64(1760000000), uint64(0), m.entropy * 1e6}
	})

	// ---- sync ----
	lock := func(m *Machine, fr *Frame, p Value, excl bool) Value {
		c := p.(*Value)
		if c == nil {
			panic(m.nilDeref())
		}
		s := m.mutex(c)
		if excl {
			m.objPoint(fr, "lock", c, 'w', func() bool { return !s.locked && s.readers == 0 })
			s.locked = true
		} else {
			m.objPoint(fr, "rlock", c, 'r', func() bool { return !s.locked })
			s.readers++
		}
		m.acquire(c)
		if excl {
			m.acquire(rkey{c})
		}
		return nil
	}
	// unlocking is no scheduling point: what it enables is dependent on the
	// locking only (except for TryLock, see there)
	unlock := func(m *Machine, fr *Frame, p Value, excl bool) Value {
		c := p.(*Value)
		if c == nil {
			panic(m.nilDeref())
		}
		s := m.mutex(c)
		if excl {
			if !s.locked {
				panic(pathEnd{"violation", "fatal error: sync: unlock of unlocked mutex"})
			}
			m.release(c)
			s.locked = false
		} else {
			if s.readers == 0 {
				panic(pathEnd{"violation", "fatal error: sync: RUnlock of unlocked RWMutex"})
			}
			m.release(rkey{c})
			s.readers--
		}
		return nil
	}
	for _, n := range []string{"(*sync.Mutex)", "(*internal/sync.Mutex)", "(*sync.RWMutex)"} {
		reg(n+".Lock", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return lock(m, fr, a[0], true) })
		reg(n+".Unlock", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return unlock(m, fr, a[0], true) })
		reg(n+".TryLock", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			m.tryLock(fr, a[0].(*Value))
			s := m.mutex(a[0].(*Value))
			if s.locked || s.readers > 0 {
				return false
			}
			s.locked = true
			m.acquire(a[0].(*Value))
			m.acquire(rkey{a[0].(*Value)})
			return true
		})
	}
	reg("(*sync.RWMutex).RLock", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return lock(m, fr, a[0], false) })
	reg("(*sync.RWMutex).RUnlock", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return unlock(m, fr, a[0], false) })
	reg("(*sync.RWMutex).TryRLock", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		m.tryLock(fr, a[0].(*Value))
		s := m.mutex(a[0].(*Value))
		if s.locked {
			return false
		}
		s.readers++
		m.acquire(a[0].(*Value))
		return true
	})
	for _, n := range []string{"(*sync.Once).Do"} {
		reg(n, func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			m.objPoint(fr, "once", a[0].(*Value), 'w', nil)
			return notHandled
		})
	}
	reg("(*sync.WaitGroup).Add", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		s := m.mutex(a[0].(*Value))
		s.readers += m.concInt(a[1])
		if s.readers < 0 {
			panic(m.rtErr("sync: negative WaitGroup counter"))
		}
		m.release(a[0].(*Value))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		s := m.mutex(a[0].(*Value))
		m.release(a[0].(*Value))
		s.readers--
		if s.readers < 0 {
			panic(m.rtErr("sync: negative WaitGroup counter"))
		}
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		s := m.mutex(a[0].(*Value))
		m.waitFor(func() bool { return s.readers == 0 })
		m.acquire(a[0].(*Value))
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		p := a[0].(*Value)
		s := m.mutex(p)
		s.readers++
		cl := a[1].(*Closure)
		m.goStart(fr, fmt.Sprintf("g%d", len(m.gs)), func(base *Frame) {
			m.invoke(base, nil, cl, nil)
			m.release(p)
			s.readers--
		})
		m.objPoint(nil, "go", nil, 0, nil)
		return nil
	})
	reg("(*sync.Pool).Get", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		st := (*(a[0].(*Value))).(Struct)
		cl, _ := st[len(st)-1].(*Closure)
		if cl == nil {
			return Iface{}
		}
		return m.invoke(fr, nil, cl, nil)
	})
	reg("(*sync.Pool).Put", nop)
	// sync.Map: native map stored in the first cell of the struct
	smap := func(m *Machine, p Value) *Map {
		c := p.(*Value)
		if c == nil {
			panic(m.nilDeref())
		}
		st := (*c).(Struct)
		if mp, ok := st[0].(*Map); ok && mp != nil {
			return mp
		}
		mp := newMap(types.NewInterfaceType(nil, nil))
		st[0] = mp
		return mp
	}
	sync0 := func(m *Machine, fr *Frame, p Value) {
		m.objPoint(fr, "syncmap", p.(*Value), 'w', nil)
		m.acquire(p.(*Value))
		m.release(p.(*Value))
	}
	reg("(*sync.Map).Load", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		sync0(m, fr, a[0])
		mp := smap(m, a[0])
		if i := m.mapFind(mp, a[1]); i >= 0 {
			return Tuple{mp.ents[i].v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Store", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		sync0(m, fr, a[0])
		m.mapSet(smap(m, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		sync0(m, fr, a[0])
		mp := smap(m, a[0])
		if i := m.mapFind(mp, a[1]); i >= 0 {
			return Tuple{mp.ents[i].v, true}
		}
		m.mapSet(mp, a[1], a[2])
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).LoadAndDelete", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		sync0(m, fr, a[0])
		mp := smap(m, a[0])
		if i := m.mapFind(mp, a[1]); i >= 0 {
			v := mp.ents[i].v
			m.mapDelete(mp, a[1])
			return Tuple{v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Delete", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		sync0(m, fr, a[0])
		m.mapDelete(smap(m, a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).Swap", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		sync0(m, fr, a[0])
		mp := smap(m, a[0])
		var old Value = Iface{}
		ok := false
		if i := m.mapFind(mp, a[1]); i >= 0 {
			old, ok = mp.ents[i].v, true
		}
		m.mapSet(mp, a[1], a[2])
		return Tuple{old, ok}
	})
	reg("(*sync.Map).CompareAndSwap", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		sync0(m, fr, a[0])
		mp := smap(m, a[0])
		if i := m.mapFind(mp, a[1]); i >= 0 && m.branchV(m.eqIface(mp.ents[i].v.(Iface), a[2].(Iface))) {
			mp.ents[i].v = a[3]
			return true
		}
		return false
	})
	reg("(*sync.Map).Range", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		sync0(m, fr, a[0])
		mp := smap(m, a[0])
		ents := append([]mapEnt(nil), mp.ents...)
		for _, e := range ents {
			if e.dead {
				continue
			}
			if !m.branchV(m.invoke(fr, nil, a[1].(*Closure), []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	})
	reg("(*sync.Map).Clear", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		sync0(m, fr, a[0])
		m.mapClear(smap(m, a[0]))
		return nil
	})
	reg("sync.runtime_registerPoolCleanup", nop)
	reg("sync.runtime_notifyListCheck", nop)
	reg("sync.throw", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		panic(pathEnd{"violation", "fatal error: " + m.concStr(a[0])})
	})
	reg("sync.fatal", intrinsics["sync.throw"])
	reg("(*sync.noCopy).Lock", nop)

	// ---- sync/atomic ----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		at := func(m *Machine, fr *Frame, p Value) *Value {
			c := m.atomicPoint(p)
			m.objPoint(fr, "atomic", c, 'w', nil)
			m.acquire(c)
			m.release(c)
			return c
		}
		eq := func(m *Machine, x, y Value) bool {
			if ty == "Pointer" {
				return ptrEq(x, y)
			}
			if a, ok := x.(uint64); ok {
				if b, ok := y.(uint64); ok {
					return a == b
				}
			}
			return m.branch(m.ctx.Eq(m.toExpr(x, w), m.toExpr(y, w)))
		}
		reg("sync/atomic.Load"+ty, func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return *at(m, fr, a[0]) })
		reg("sync/atomic.Store"+ty, func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { *at(m, fr, a[0]) = a[1]; return nil })
		reg("sync/atomic.Swap"+ty, func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			c := at(m, fr, a[0])
			o := *c
			*c = a[1]
			return o
		})
		reg("sync/atomic.CompareAndSwap"+ty, func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			c := at(m, fr, a[0])
			if eq(m, *c, a[1]) {
				*c = a[2]
				return true
			}
			return false
		})
		reg("sync/atomic.Add"+ty, func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			c := at(m, fr, a[0])
			*c = m.arith(token.ADD, w, *c, a[1])
			return *c
		})
		reg("sync/atomic.And"+ty, func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			c := at(m, fr, a[0])
			o := *c
			*c = m.arith(token.AND, w, *c, a[1])
			return o
		})
		reg("sync/atomic.Or"+ty, func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			c := at(m, fr, a[0])
			o := *c
			*c = m.arith(token.OR, w, *c, a[1])
			return o
		})
	}
	av := func(m *Machine, fr *Frame, p Value) *Value {
		c := m.atomicPoint(p)
		m.objPoint(fr, "atomic", c, 'w', nil)
		m.acquire(c)
		m.release(c)
		st := (*c).(Struct)
		return &st[0]
	}
	reg("(*sync/atomic.Value).Load", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return *av(m, fr, a[0]) })
	reg("(*sync/atomic.Value).Store", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		if a[1].(Iface).t == nil {
			panic(m.rtErr("sync/atomic: store of nil value into Value"))
		}
		*av(m, fr, a[0]) = a[1]
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		c := av(m, fr, a[0])
		o := *c
		*c = a[1]
		return o
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		c := av(m, fr, a[0])
		if m.branchV(m.eqIface((*c).(Iface), a[1].(Iface))) {
			*c = a[2]
			return true
		}
		return false
	})

	// ---- errors ----
	reg("errors.Is", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		if e.t == nil || t.t == nil {
			return e.t == nil && t.t == nil
		}
		return m.call(fr, m.P.fnByName("errors", "is"), []Value{a[0], a[1], types.Comparable(t.t)}, nil)
	})
	reg("errors.As", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return m.errorsAs(fr, a[0].(Iface), a[1].(Iface))
	})

	// ---- flag / testing ----
	fl := func(m *Machine, name Value) Value {
		v, ok := m.flags[m.concStr(name)]
		if !ok {
			return nilPtr
		}
		ft := m.P.typeByName("flag", "Flag")
		st := zero(ft).(Struct)
		ut := ft.Underlying().(*types.Struct)
		key := flagKey{m.concStr(name)}
		cell, _ := m.aux[key].(*Value)
		if cell == nil {
			cell = cellPtr(v)
			m.aux[key] = cell
		}
		*cell = v
		for i := 0; i < ut.NumFields(); i++ {
			switch ut.Field(i).Name() {
			case "Name":
				st[i] = name
			case "Value":
				st[i] = Iface{types.NewPointer(m.P.typeByName("flag", "stringValue")), cell}
			}
		}
		return cellPtr(st)
	}
	reg("flag.Lookup", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return fl(m, a[0]) })
	reg("(*flag.FlagSet).Lookup", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return fl(m, a[1]) })
	reg("flag.Set", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		m.flags[m.concStr(a[0])] = a[1]
		return m.nilErr()
	})
	reg("flag.Parse", nop)
	reg("flag.Parsed", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return true })
	reg("testing.Testing", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return true })
	reg("testing.Verbose", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return false })
	reg("testing.Short", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return false })
	reg("testing.CoverMode", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return "" })
	reg("testing.RegisterTests", nop)

	// ---- kr/pretty on strings ----
	// pretty.Sprint(x) with a string operand writes it through text/tabwriter,
	// which is the identity on text without \t, \v, \f (decided by the solver
	// on every call; otherwise the real code is interpreted).
	reg("github.com/kr/pretty.Sprint", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		vs := sliceCells(a[0])
		if len(vs) != 1 || m.noPretty {
			return notHandled
		}
		i := vs[0].(Iface)
		if i.t == nil {
			return notHandled
		}
		if b, ok := i.t.(*types.Basic); !ok || b.Kind() != types.String {
			return notHandled
		}
		cells := strCells(i.v)
		for _, c := range cells {
			switch c := c.(type) {
			case uint64:
				if c == 9 || c == 11 || c == 12 || c == 0xff {
					return notHandled
				}
			}
		}
		special := m.ctx.fl
		for _, c := range cells {
			if e, ok := c.(*Expr); ok {
				for _, k := range []uint64{9, 11, 12, 0xff} {
					special = m.ctx.Or(special, m.ctx.Eq(e, m.ctx.Const(k, 8)))
				}
			}
		}
		if m.branch(special) {
			return notHandled
		}
		m.stubs["kr/pretty.Sprint(string without \\t \\v \\f \\xff) = identity"] = true
		return i.v
	})
}

type rkey struct{ p *Value }
type flagKey struct{ n string }

func (m *Machine) yieldNow() {
	if !m.multi {
		return
	}
	if m.sched {
		m.objPoint(nil, "yield", nil, 'x', nil)
		return
	}
	// cooperative: let others run
	rs := m.runnable()
	for _, g := range rs {
		if g != m.cur {
			m.switchTo(g)
			return
		}
	}
}

func (m *Machine) arith(op token.Token, w uint8, x, y Value) Value {
	a, ok1 := x.(uint64)
	b, ok2 := y.(uint64)
	if ok1 && ok2 {
		return m.concBin(op, w, false, a, b)
	}
	return m.symBin(op, w, false, m.toExpr(x, w), m.toExpr(y, w))
}

func (m *Machine) errorsAs(fr *Frame, err Iface, target Iface) Value {
	if err.t == nil {
		return false
	}
	et := deref(target.t)
	cell := target.v.(*Value)
	it, isI := et.Underlying().(*types.Interface)
	for {
		if isI && m.implements(err.t, it) {
			*cell = err
			return true
		}
		if !isI && sameType(err.t, et) {
			storeInto(cell, err.v)
			return true
		}
		ms := m.P.prog.MethodSets.MethodSet(err.t)
		if sel := ms.Lookup(nil, "As"); sel != nil {
			f := m.P.getFn(m.P.prog.MethodValue(sel))
			if m.branchV(m.call(fr, f, []Value{err.v, target}, nil)) {
				return true
			}
		}
		sel := ms.Lookup(nil, "Unwrap")
		if sel == nil {
			return false
		}
		f := m.P.getFn(m.P.prog.MethodValue(sel))
		r := m.call(fr, f, []Value{err.v}, nil)
		switch r := r.(type) {
		case Iface:
			if r.t == nil {
				return false
			}
			err = r
		case []Value:
			for _, e := range r {
				if e.(Iface).t != nil && m.branchV(m.errorsAs(fr, e.(Iface), target)) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func (m *Machine) tryLock(fr *Frame, c *Value) {
	if m.multi && m.sched && modCall(fr) {
		m.incomplete = "TryLock: not every position relative to an unlock is explored"
	}
	m.objPoint(fr, "trylock", c, 'w', nil)
}
