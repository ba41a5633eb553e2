package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Emulation of package reflect on interpreter values.

type rtypeObj struct {
	id int
	t  types.Type
}

type rval struct {
	t    types.Type
	v    Value  // when !addr
	addr *Value // addressable location
	ro   bool
	// method value
	recv *rval
	meth *Fn
}

func (r *rval) get() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func (m *Machine) rtype(t types.Type) Value {
	p := m.P
	p.tmu.Lock()
	defer p.tmu.Unlock()
	if v := p.rtypes.At(t); v != nil {
		return v.(*rtypeObj)
	}
	p.nextTID++
	r := &rtypeObj{id: p.nextTID, t: t}
	p.rtypes.Set(t, r)
	return r
}

func (m *Machine) rtypeIface(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	return Iface{types.NewPointer(m.P.typeByName("reflect", "rtype")), m.rtype(t)}
}

func (m *Machine) mkRV(r *rval) Value {
	if r == nil {
		return Struct{nilPtr, nilPtr, uint64(0)}
	}
	return Struct{r, nilPtr, uint64(1)}
}

func rv(v Value) *rval {
	s := v.(Struct)
	r, _ := s[0].(*rval)
	return r
}

func (m *Machine) mustRV(v Value, meth string) *rval {
	r := rv(v)
	if r == nil {
		panic(goPanic{Iface{types.NewPointer(m.P.typeByName("reflect", "ValueError")), cellPtr(Struct{"reflect.Value." + meth, uint64(0)})}})
	}
	return r
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// rtypeString renders a type as the runtime does.
func rtypeString(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		if t.Obj().Pkg() == nil {
			return t.Obj().Name()
		}
		return t.Obj().Pkg().Name() + "." + typeName(t)
	case *types.Basic:
		switch t.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		case types.UnsafePointer:
			return "unsafe.Pointer"
		}
		return t.Name()
	case *types.Pointer:
		return "*" + rtypeString(t.Elem())
	case *types.Slice:
		return "[]" + rtypeString(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), rtypeString(t.Elem()))
	case *types.Map:
		return "map[" + rtypeString(t.Key()) + "]" + rtypeString(t.Elem())
	case *types.Chan:
		switch t.Dir() {
		case types.SendOnly:
			return "chan<- " + rtypeString(t.Elem())
		case types.RecvOnly:
			return "<-chan " + rtypeString(t.Elem())
		}
		if c, ok := t.Elem().(*types.Chan); ok && c.Dir() == types.RecvOnly {
			return "chan (" + rtypeString(c) + ")"
		}
		return "chan " + rtypeString(t.Elem())
	case *types.Struct:
		if t.NumFields() == 0 {
			return "struct {}"
		}
		var p []string
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			x := f.Name() + " " + rtypeString(f.Type())
			if f.Embedded() {
				x = rtypeString(f.Type())
			}
			if tag := t.Tag(i); tag != "" {
				x += " " + strconv.Quote(tag)
			}
			p = append(p, x)
		}
		return "struct { " + strings.Join(p, "; ") + " }"
	case *types.Interface:
		if t.NumMethods() == 0 {
			return "interface {}"
		}
		var p []string
		for i := 0; i < t.NumMethods(); i++ {
			p = append(p, t.Method(i).Name()+rtypeSig(t.Method(i).Type().(*types.Signature)))
		}
		return "interface { " + strings.Join(p, "; ") + " }"
	case *types.Signature:
		return "func" + rtypeSig(t)
	}
	return typeString(t)
}

func rtypeSig(t *types.Signature) string {
	var in, out []string
	for i := 0; i < t.Params().Len(); i++ {
		pt := t.Params().At(i).Type()
		if t.Variadic() && i == t.Params().Len()-1 {
			in = append(in, "..."+rtypeString(pt.(*types.Slice).Elem()))
		} else {
			in = append(in, rtypeString(pt))
		}
	}
	for i := 0; i < t.Results().Len(); i++ {
		out = append(out, rtypeString(t.Results().At(i).Type()))
	}
	r := "(" + strings.Join(in, ", ") + ")"
	switch len(out) {
	case 0:
	case 1:
		r += " " + out[0]
	default:
		r += " (" + strings.Join(out, ", ") + ")"
	}
	return r
}

func typeName(t types.Type) string {
	switch t := t.(type) {
	case *types.Named:
		n := t.Obj().Name()
		if a := t.TypeArgs(); a != nil && a.Len() > 0 {
			var p []string
			for i := 0; i < a.Len(); i++ {
				p = append(p, types.TypeString(a.At(i), nil))
			}
			n += "[" + strings.Join(p, ",") + "]"
		}
		return n
	case *types.Basic:
		return t.Name()
	case *types.Alias:
		return typeName(types.Unalias(t))
	}
	return ""
}

func typePkgPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

// exportedMethods lists the exported methods of t sorted by name.
func (m *Machine) exportedMethods(t types.Type) []*types.Selection {
	ms := m.P.prog.MethodSets.MethodSet(t)
	var r []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			r = append(r, ms.At(i))
		}
	}
	return r
}

func (m *Machine) structField(st *types.Struct, i int, index []int) Value {
	ft := m.P.typeByName("reflect", "StructField")
	r := zero(ft).(Struct)
	ut := ft.Underlying().(*types.Struct)
	f := st.Field(i)
	for k := 0; k < ut.NumFields(); k++ {
		switch ut.Field(k).Name() {
		case "Name":
			r[k] = f.Name()
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				r[k] = f.Pkg().Path()
			}
		case "Type":
			r[k] = m.rtypeIface(f.Type())
		case "Tag":
			r[k] = st.Tag(i)
		case "Index":
			var ix []Value
			for _, x := range index {
				ix = append(ix, intV(x))
			}
			r[k] = ix
		case "Anonymous":
			r[k] = f.Embedded()
		}
	}
	return r
}

func (m *Machine) field(r *rval, i int) *rval {
	st := r.t.Underlying().(*types.Struct)
	f := st.Field(i)
	x := &rval{t: f.Type(), ro: r.ro || !f.Exported()}
	if r.addr != nil {
		x.addr = &(*r.addr).(Struct)[i]
	} else {
		x.v = r.v.(Struct)[i]
	}
	return x
}

func (m *Machine) elem(r *rval) *rval {
	switch u := r.t.Underlying().(type) {
	case *types.Interface:
		i := r.get().(Iface)
		if i.t == nil {
			return nil
		}
		return &rval{t: i.t, v: i.v, ro: r.ro}
	case *types.Pointer:
		switch p := r.get().(type) {
		case *Value:
			if p == nil {
				return nil
			}
			return &rval{t: u.Elem(), addr: p, ro: r.ro}
		case *rtypeObj:
			return &rval{t: u.Elem(), v: zero(u.Elem()), ro: true}
		}
	}
	panic(m.rtErr("reflect: call of reflect.Value.Elem on " + kindOf(r.t).String() + " Value"))
}

func (m *Machine) ifaceOf(r *rval) Iface {
	v := r.get()
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		return v.(Iface)
	}
	return Iface{r.t, copyVal(v)}
}

// assignTo converts x for storage in a location of type t.
func (m *Machine) assignTo(x *rval, t types.Type) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		if x == nil {
			return Iface{}
		}
		return m.ifaceOf(x)
	}
	return copyVal(x.get())
}

func (m *Machine) setRV(dst *rval, v Value) {
	if dst.addr == nil || dst.ro {
		panic(goPanic{Iface{types.Typ[types.String], "reflect: reflect.Value.Set using unaddressable value"}})
	}
	storeInto(dst.addr, v)
}

func (m *Machine) convertRV(fr *Frame, x *rval, t types.Type) *rval {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return &rval{t: t, v: m.ifaceOf(x)}
	}
	if types.Identical(x.t.Underlying(), t.Underlying()) {
		return &rval{t: t, v: copyVal(x.get())}
	}
	return &rval{t: t, v: m.conv(fr, x.t, t, x.get())}
}

func (m *Machine) rvBytes(r *rval) []Value {
	switch v := r.get().(type) {
	case []Value:
		return v
	case Array:
		return v
	}
	panic(m.rtErr("reflect.Value.Bytes of non-byte slice"))
}

func (m *Machine) methodRV(r *rval, sel *types.Selection) *rval {
	f := m.P.prog.MethodValue(sel)
	if f == nil { // interface method
		i := r.get().(Iface)
		f = m.P.prog.LookupMethod(i.t, sel.Obj().Pkg(), sel.Obj().Name())
		r = &rval{t: i.t, v: i.v}
	}
	fn := m.P.getFn(f)
	sig := sel.Type().(*types.Signature)
	nsig := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	recv := copyVal(r.get())
	cl := &Closure{native: func(m *Machine, caller *Frame, args []Value) Value {
		return m.call(caller, fn, append([]Value{recv}, args...), nil)
	}}
	return &rval{t: nsig, v: cl}
}

func (m *Machine) isZeroV(t types.Type, v Value) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i, f := range v.(Struct) {
			if !m.isZeroV(u.Field(i).Type(), f) {
				return false
			}
		}
		return true
	case *types.Array:
		for _, e := range v.(Array) {
			if !m.isZeroV(u.Elem(), e) {
				return false
			}
		}
		return true
	}
	switch v := v.(type) {
	case uint64:
		return v == 0
	case bool:
		return !v
	case *Expr:
		if v.w == 0 {
			return !m.branch(v)
		}
		return m.branch(m.ctx.Eq(v, m.ctx.Const(0, v.w)))
	case string, *SymStr:
		return strLen(v) == 0
	case float64:
		return v == 0
	case complex128:
		return v == 0
	case *Value:
		return v == nil
	case []Value:
		return v == nil
	case *Map:
		return v == nil
	case *Chan:
		return v == nil
	case *Closure:
		return v == nil
	case Iface:
		return v.t == nil
	}
	return false
}

func init() {
	type F = intrinsic
	reg := func(name string, f F) {
		intrinsics["(*reflect.rtype)."+name] = f
		intrinsics["(internal/reflectlite.rtype)."+name] = f
	}
	rt := func(f func(m *Machine, t types.Type, a []Value) Value) F {
		return func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			o, ok := a[0].(*rtypeObj)
			if !ok {
				if s, isS := a[0].(Struct); isS {
					o, ok = s[0].(*rtypeObj)
				}
			}
			if !ok {
				panic(m.nilDeref())
			}
			return f(m, o.t, a[1:])
		}
	}
	intrinsics["reflect.TypeOf"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return m.rtypeIface(a[0].(Iface).t) }
	intrinsics["reflect.ValueOf"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return m.mkRV(nil)
		}
		return m.mkRV(&rval{t: i.t, v: i.v})
	}
	intrinsics["reflect.TypeFor"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return m.rtypeIface(fn.f.TypeArgs()[0])
	}
	intrinsics["reflect.TypeAssert"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		r := rv(a[0])
		if r == nil || r.ro {
			panic(goPanic{Iface{types.Typ[types.String], "reflect.TypeAssert: bad value"}})
		}
		at, i := fn.f.TypeArgs()[0], m.ifaceOf(r)
		if it, ok := at.Underlying().(*types.Interface); ok {
			if i.t != nil && m.implements(i.t, it) {
				return Tuple{i, true}
			}
		} else if i.t != nil && sameType(i.t, at) {
			return Tuple{i.v, true}
		}
		return Tuple{zero(at), false}
	}
	intrinsics["internal/reflectlite.TypeOf"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		t := a[0].(Iface).t
		if t == nil {
			return Iface{}
		}
		return Iface{m.P.typeByName("internal/reflectlite", "rtype"), Struct{m.rtype(t)}}
	}
	intrinsics["internal/reflectlite.ValueOf"] = intrinsics["reflect.ValueOf"]
	swapper := func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		s := sliceCells(a[0].(Iface).v)
		return &Closure{native: func(m *Machine, caller *Frame, args []Value) Value {
			i, j := m.concInt(args[0]), m.concInt(args[1])
			x, y := copyVal(s[i]), copyVal(s[j])
			storeInto(&s[i], y)
			storeInto(&s[j], x)
			return nil
		}}
	}
	intrinsics["internal/reflectlite.Swapper"] = swapper
	intrinsics["reflect.Swapper"] = swapper
	intrinsics["(internal/reflectlite.Value).Len"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return intV(m.lenOf(rv(a[0]).get()))
	}

	reg("String", rt(func(m *Machine, t types.Type, a []Value) Value { return rtypeString(t) }))
	reg("Name", rt(func(m *Machine, t types.Type, a []Value) Value { return typeName(t) }))
	reg("PkgPath", rt(func(m *Machine, t types.Type, a []Value) Value { return typePkgPath(t) }))
	reg("Kind", rt(func(m *Machine, t types.Type, a []Value) Value { return uint64(kindOf(t)) }))
	reg("Size", rt(func(m *Machine, t types.Type, a []Value) Value {
		return uint64(types.SizesFor("gc", "amd64").Sizeof(t))
	}))
	reg("Bits", rt(func(m *Machine, t types.Type, a []Value) Value {
		return uint64(8 * types.SizesFor("gc", "amd64").Sizeof(t))
	}))
	reg("Comparable", rt(func(m *Machine, t types.Type, a []Value) Value { return types.Comparable(t) }))
	reg("Elem", rt(func(m *Machine, t types.Type, a []Value) Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return m.rtypeIface(u.Elem())
		case *types.Slice:
			return m.rtypeIface(u.Elem())
		case *types.Array:
			return m.rtypeIface(u.Elem())
		case *types.Map:
			return m.rtypeIface(u.Elem())
		case *types.Chan:
			return m.rtypeIface(u.Elem())
		}
		panic(goPanic{Iface{types.Typ[types.String], "reflect: Elem of invalid type " + rtypeString(t)}})
	}))
	reg("Key", rt(func(m *Machine, t types.Type, a []Value) Value {
		return m.rtypeIface(t.Underlying().(*types.Map).Key())
	}))
	reg("Len", rt(func(m *Machine, t types.Type, a []Value) Value {
		return intV(int(t.Underlying().(*types.Array).Len()))
	}))
	reg("NumField", rt(func(m *Machine, t types.Type, a []Value) Value {
		return intV(t.Underlying().(*types.Struct).NumFields())
	}))
	reg("Field", rt(func(m *Machine, t types.Type, a []Value) Value {
		i := m.concInt(a[0])
		return m.structField(t.Underlying().(*types.Struct), i, []int{i})
	}))
	reg("FieldByName", rt(func(m *Machine, t types.Type, a []Value) Value {
		name := m.concStr(a[0])
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return Tuple{m.structField(st, i, []int{i}), true}
			}
		}
		return Tuple{zero(m.P.typeByName("reflect", "StructField")), false}
	}))
	reg("FieldByIndex", rt(func(m *Machine, t types.Type, a []Value) Value {
		var r Value
		for _, x := range sliceCells(a[0]) {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			st := t.Underlying().(*types.Struct)
			i := m.concInt(x)
			r = m.structField(st, i, []int{i})
			t = st.Field(i).Type()
		}
		return r
	}))
	reg("NumMethod", rt(func(m *Machine, t types.Type, a []Value) Value {
		if it, ok := t.Underlying().(*types.Interface); ok {
			return intV(it.NumMethods())
		}
		return intV(len(m.exportedMethods(t)))
	}))
	reg("NumIn", rt(func(m *Machine, t types.Type, a []Value) Value {
		return intV(t.Underlying().(*types.Signature).Params().Len())
	}))
	reg("NumOut", rt(func(m *Machine, t types.Type, a []Value) Value {
		return intV(t.Underlying().(*types.Signature).Results().Len())
	}))
	reg("In", rt(func(m *Machine, t types.Type, a []Value) Value {
		return m.rtypeIface(t.Underlying().(*types.Signature).Params().At(m.concInt(a[0])).Type())
	}))
	reg("Out", rt(func(m *Machine, t types.Type, a []Value) Value {
		return m.rtypeIface(t.Underlying().(*types.Signature).Results().At(m.concInt(a[0])).Type())
	}))
	reg("IsVariadic", rt(func(m *Machine, t types.Type, a []Value) Value { return t.Underlying().(*types.Signature).Variadic() }))
	tArg := func(v Value) types.Type {
		i := v.(Iface)
		switch o := i.v.(type) {
		case *rtypeObj:
			return o.t
		case Struct:
			return o[0].(*rtypeObj).t
		}
		return nil
	}
	reg("Implements", rt(func(m *Machine, t types.Type, a []Value) Value {
		return m.implements(t, tArg(a[0]).Underlying().(*types.Interface))
	}))
	reg("AssignableTo", rt(func(m *Machine, t types.Type, a []Value) Value { return types.AssignableTo(t, tArg(a[0])) }))
	reg("ConvertibleTo", rt(func(m *Machine, t types.Type, a []Value) Value { return types.ConvertibleTo(t, tArg(a[0])) }))
	reg("MethodByName", rt(func(m *Machine, t types.Type, a []Value) Value {
		name := m.concStr(a[0])
		mt := m.P.typeByName("reflect", "Method")
		for i, s := range m.exportedMethods(t) {
			if s.Obj().Name() == name {
				z := zero(mt).(Struct)
				z[0] = name
				z[len(z)-1] = intV(i)
				return Tuple{z, true}
			}
		}
		return Tuple{zero(mt), false}
	}))

	// constructors
	typ := func(f func(a []Value, m *Machine) types.Type) F {
		return func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return m.rtypeIface(f(a, m)) }
	}
	intrinsics["reflect.PointerTo"] = typ(func(a []Value, m *Machine) types.Type { return types.NewPointer(tArg(a[0])) })
	intrinsics["reflect.PtrTo"] = intrinsics["reflect.PointerTo"]
	intrinsics["reflect.SliceOf"] = typ(func(a []Value, m *Machine) types.Type { return types.NewSlice(tArg(a[0])) })
	intrinsics["reflect.MapOf"] = typ(func(a []Value, m *Machine) types.Type { return types.NewMap(tArg(a[0]), tArg(a[1])) })
	intrinsics["reflect.New"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		t := tArg(a[0])
		return m.mkRV(&rval{t: types.NewPointer(t), v: cellPtr(zero(t))})
	}
	intrinsics["reflect.Zero"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		t := tArg(a[0])
		return m.mkRV(&rval{t: t, v: zero(t)})
	}
	intrinsics["reflect.MakeSlice"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		t := tArg(a[0])
		return m.mkRV(&rval{t: t, v: m.makeSlice(t.Underlying().(*types.Slice).Elem(), m.concInt(a[1]), m.concInt(a[2]))})
	}
	mkmap := func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		t := tArg(a[0])
		return m.mkRV(&rval{t: t, v: newMap(t.Underlying().(*types.Map).Key())})
	}
	intrinsics["reflect.MakeMap"] = mkmap
	intrinsics["reflect.MakeMapWithSize"] = mkmap
	intrinsics["reflect.Indirect"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		r := rv(a[0])
		if r != nil && kindOf(r.t) == reflect.Pointer {
			return m.mkRV(m.elem(r))
		}
		return a[0]
	}
	intrinsics["reflect.Append"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		r := rv(a[0])
		et := r.t.Underlying().(*types.Slice).Elem()
		s := sliceCells(r.get())
		for _, x := range sliceCells(a[1]) {
			s = m.appendSlice(s, []Value{m.assignTo(rv(x), et)})
		}
		return m.mkRV(&rval{t: r.t, v: s})
	}
	intrinsics["reflect.AppendSlice"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		r := rv(a[0])
		return m.mkRV(&rval{t: r.t, v: m.appendSlice(sliceCells(r.get()), sliceCells(rv(a[1]).get()))})
	}
	intrinsics["reflect.Copy"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		d, s := rv(a[0]).get(), rv(a[1]).get()
		if x, ok := d.(Array); ok {
			return intV(copy(x, cellsOf(s)))
		}
		return intV(copy(sliceCells(d), cellsOf(s)))
	}
	intrinsics["reflect.DeepEqual"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return m.deepEqual(a[0].(Iface), a[1].(Iface))
	}

	v := func(name string, f func(m *Machine, fr *Frame, r *rval, a []Value) Value) {
		intrinsics["(reflect.Value)."+name] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			return f(m, fr, m.mustRV(a[0], name), a[1:])
		}
	}
	intrinsics["(reflect.Value).IsValid"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return rv(a[0]) != nil }
	intrinsics["(reflect.Value).Kind"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		r := rv(a[0])
		if r == nil {
			return uint64(0)
		}
		return uint64(kindOf(r.t))
	}
	intrinsics["(reflect.Value).String"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		r := rv(a[0])
		if r == nil {
			return "<invalid Value>"
		}
		if kindOf(r.t) == reflect.String {
			return r.get()
		}
		return "<" + rtypeString(r.t) + " Value>"
	}
	v("Type", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return m.rtypeIface(r.t) })
	v("Interface", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		if r.ro {
			panic(goPanic{Iface{types.Typ[types.String], "reflect.Value.Interface: cannot return value obtained from unexported field or method"}})
		}
		return m.ifaceOf(r)
	})
	intrinsics["reflect.valueInterface"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return m.ifaceOf(rv(a[0])) }
	v("CanInterface", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return !r.ro })
	v("CanSet", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return r.addr != nil && !r.ro })
	v("CanAddr", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return r.addr != nil })
	v("Addr", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		return m.mkRV(&rval{t: types.NewPointer(r.t), v: r.addr, ro: r.ro})
	})
	v("Elem", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return m.mkRV(m.elem(r)) })
	v("IsNil", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		switch x := r.get().(type) {
		case *Value:
			return x == nil
		case []Value:
			return x == nil
		case *Map:
			return x == nil
		case *Chan:
			return x == nil
		case *Closure:
			return x == nil
		case Iface:
			return x.t == nil
		case *rtypeObj:
			return false
		}
		panic(m.rtErr("reflect: call of reflect.Value.IsNil on " + kindOf(r.t).String() + " Value"))
	})
	v("IsZero", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return m.isZeroV(r.t, r.get()) })
	v("Bool", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return r.get() })
	v("Int", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		w, s, ok := intType(r.t)
		if !ok || !s {
			panic(m.rtErr("reflect: call of reflect.Value.Int on " + kindOf(r.t).String() + " Value"))
		}
		return m.convInt(r.get(), w, true, 64)
	})
	v("Uint", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		w, _, _ := intType(r.t)
		return m.convInt(r.get(), w, false, 64)
	})
	can := func(name string, ks ...reflect.Kind) {
		intrinsics["(reflect.Value)."+name] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			r := rv(a[0])
			if r == nil {
				return false
			}
			for _, k := range ks {
				if kindOf(r.t) == k {
					return true
				}
			}
			return false
		}
	}
	can("CanInt", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	can("CanUint", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	can("CanFloat", reflect.Float32, reflect.Float64)
	can("CanComplex", reflect.Complex64, reflect.Complex128)
	v("Float", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return r.get() })
	v("Complex", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return r.get() })
	v("Bytes", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return m.rvBytes(r) })
	v("Len", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		x := r.get()
		if p, ok := r.t.Underlying().(*types.Pointer); ok {
			if at, ok := p.Elem().Underlying().(*types.Array); ok {
				return intV(int(at.Len()))
			}
		}
		return intV(m.lenOf(x))
	})
	v("Cap", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return intV(cap(sliceCells(r.get()))) })
	v("NumField", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		return intV(r.t.Underlying().(*types.Struct).NumFields())
	})
	v("Field", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return m.mkRV(m.field(r, m.concInt(a[0]))) })
	v("FieldByIndex", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		for _, x := range sliceCells(a[0]) {
			if kindOf(r.t) == reflect.Pointer {
				r = m.elem(r)
			}
			r = m.field(r, m.concInt(x))
		}
		return m.mkRV(r)
	})
	v("FieldByName", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		name := m.concStr(a[0])
		st := r.t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return m.mkRV(m.field(r, i))
			}
		}
		return m.mkRV(nil)
	})
	v("Index", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		i := m.concInt(a[0])
		switch x := r.get().(type) {
		case []Value:
			if i < 0 || i >= len(x) {
				panic(goPanic{Iface{types.Typ[types.String], "reflect: slice index out of range"}})
			}
			return m.mkRV(&rval{t: r.t.Underlying().(*types.Slice).Elem(), addr: &x[i], ro: r.ro})
		case Array:
			at := r.t.Underlying().(*types.Array)
			if r.addr != nil {
				return m.mkRV(&rval{t: at.Elem(), addr: &x[i], ro: r.ro})
			}
			return m.mkRV(&rval{t: at.Elem(), v: x[i], ro: r.ro})
		case string, *SymStr:
			return m.mkRV(&rval{t: types.Typ[types.Uint8], v: strAt(x, i), ro: r.ro})
		}
		panic(m.rtErr("reflect: call of reflect.Value.Index"))
	})
	v("Slice", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		i, j := m.concInt(a[0]), m.concInt(a[1])
		switch x := r.get().(type) {
		case []Value:
			return m.mkRV(&rval{t: r.t, v: x[i:j]})
		case Array:
			return m.mkRV(&rval{t: types.NewSlice(r.t.Underlying().(*types.Array).Elem()), v: []Value(x)[i:j]})
		default:
			return m.mkRV(&rval{t: r.t, v: strSlice(x, i, j)})
		}
	})
	v("MapKeys", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		mp, _ := r.get().(*Map)
		kt := r.t.Underlying().(*types.Map).Key()
		out := []Value{}
		it := &mapIter{mp: mp}
		for {
			k, _, ok := it.next()
			if !ok {
				return out
			}
			out = append(out, m.mkRV(&rval{t: kt, v: k, ro: r.ro}))
		}
	})
	v("MapIndex", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		mp, _ := r.get().(*Map)
		i := m.mapFind(mp, m.assignTo(rv(a[0]), mt.Key()))
		if i < 0 {
			return m.mkRV(nil)
		}
		return m.mkRV(&rval{t: mt.Elem(), v: copyVal(mp.ents[i].v), ro: r.ro})
	})
	v("SetMapIndex", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		mp, _ := r.get().(*Map)
		k := m.assignTo(rv(a[0]), mt.Key())
		if e := rv(a[1]); e == nil {
			m.mapDelete(mp, k)
		} else {
			m.mapSet(mp, k, m.assignTo(e, mt.Elem()))
		}
		return nil
	})
	// MapIter: struct{ m Value; hiter hiter }: native iterator kept in field 1
	v("MapRange", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		mp, _ := r.get().(*Map)
		return cellPtr(Struct{m.mkRV(r), &rmapIter{it: &mapIter{mp: mp}, t: r.t.Underlying().(*types.Map), ro: r.ro}})
	})
	mi := func(v Value) *rmapIter { return (*(v.(*Value))).(Struct)[1].(*rmapIter) }
	intrinsics["(*reflect.MapIter).Next"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		i := mi(a[0])
		var ok bool
		i.k, i.v, ok = i.it.next()
		return ok
	}
	intrinsics["(*reflect.MapIter).Key"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		i := mi(a[0])
		return m.mkRV(&rval{t: i.t.Key(), v: i.k, ro: i.ro})
	}
	intrinsics["(*reflect.MapIter).Value"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		i := mi(a[0])
		return m.mkRV(&rval{t: i.t.Elem(), v: i.v, ro: i.ro})
	}
	v("SetIterKey", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		i := mi(a[0])
		m.setRV(r, m.assignTo(&rval{t: i.t.Key(), v: i.k}, r.t))
		return nil
	})
	v("SetIterValue", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		i := mi(a[0])
		m.setRV(r, m.assignTo(&rval{t: i.t.Elem(), v: i.v}, r.t))
		return nil
	})
	v("Set", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		m.setRV(r, m.assignTo(rv(a[0]), r.t))
		return nil
	})
	v("SetZero", func(m *Machine, fr *Frame, r *rval, a []Value) Value { m.setRV(r, zero(r.t)); return nil })
	setInt := func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		w, _, _ := intType(r.t)
		m.setRV(r, m.convInt(a[0], 64, false, w))
		return nil
	}
	v("SetInt", setInt)
	v("SetUint", setInt)
	v("SetFloat", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		f := a[0].(float64)
		if isFloat32(r.t) {
			f = float64(float32(f))
		}
		m.setRV(r, f)
		return nil
	})
	for _, n := range []string{"SetString", "SetBool", "SetBytes", "SetComplex"} {
		v(n, func(m *Machine, fr *Frame, r *rval, a []Value) Value { m.setRV(r, a[0]); return nil })
	}
	v("SetLen", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		m.setRV(r, sliceCells(r.get())[:m.concInt(a[0])])
		return nil
	})
	v("SetCap", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return nil })
	v("Grow", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		s := sliceCells(r.get())
		n := m.concInt(a[0])
		if len(s)+n > cap(s) {
			ns := m.makeSlice(r.t.Underlying().(*types.Slice).Elem(), len(s)+n, 2*(len(s)+n)).([]Value)
			copy(ns, s)
			m.setRV(r, ns[:len(s)])
		}
		return nil
	})
	v("OverflowInt", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		w, _, _ := intType(r.t)
		x := m.concV(a[0])
		return uint64(sext(x&mask(w), w)) != x
	})
	v("OverflowUint", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		w, _, _ := intType(r.t)
		x := m.concV(a[0])
		return x&mask(w) != x
	})
	v("OverflowFloat", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return false })
	v("Convert", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return m.mkRV(m.convertRV(fr, r, tArg(a[0]))) })
	v("CanConvert", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return types.ConvertibleTo(r.t, tArg(a[0])) })
	v("Comparable", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return types.Comparable(r.t) })
	v("UnsafeAddr", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		if r.addr == nil {
			panic(m.rtErr("reflect.Value.UnsafeAddr of unaddressable value"))
		}
		return m.addrOf(r.addr)
	})
	v("Pointer", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		switch x := r.get().(type) {
		case *Value:
			return m.addrOf(x)
		case []Value:
			if len(x) == 0 {
				return uint64(0)
			}
			return m.addrOf(&x[0])
		case *Map:
			if x == nil {
				return uint64(0)
			}
			return m.addrOf(&x.shadow)
		}
		return uint64(0x1234)
	})
	intrinsics["(reflect.Value).UnsafePointer"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		switch x := rv(a[0]).get().(type) {
		case *Value:
			return x
		case []Value:
			if len(x) > 0 {
				return &x[0]
			}
		case *Map:
			if x != nil {
				return &x.shadow
			}
		}
		return nilPtr
	}
	v("NumMethod", func(m *Machine, fr *Frame, r *rval, a []Value) Value { return intV(len(m.exportedMethods(r.t))) })
	v("Method", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		return m.mkRV(m.methodRV(r, m.exportedMethods(r.t)[m.concInt(a[0])]))
	})
	v("MethodByName", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		name := m.concStr(a[0])
		for _, s := range m.exportedMethods(r.t) {
			if s.Obj().Name() == name {
				return m.mkRV(m.methodRV(r, s))
			}
		}
		return m.mkRV(nil)
	})
	v("Call", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		sig := r.t.Underlying().(*types.Signature)
		var args []Value
		in := sliceCells(a[0])
		n := sig.Params().Len()
		for i, x := range in {
			if sig.Variadic() && i >= n-1 {
				break
			}
			args = append(args, m.assignTo(rv(x), sig.Params().At(i).Type()))
		}
		if sig.Variadic() {
			et := sig.Params().At(n - 1).Type().(*types.Slice).Elem()
			var rest []Value
			for _, x := range in[n-1:] {
				rest = append(rest, m.assignTo(rv(x), et))
			}
			args = append(args, rest)
		}
		cl := r.get().(*Closure)
		res := m.invoke(fr, cl.fn, cl, args)
		out := []Value{}
		switch sig.Results().Len() {
		case 0:
		case 1:
			out = append(out, m.mkRV(&rval{t: sig.Results().At(0).Type(), v: res}))
		default:
			for i, x := range res.(Tuple) {
				out = append(out, m.mkRV(&rval{t: sig.Results().At(i).Type(), v: x}))
			}
		}
		return out
	})
	v("Equal", func(m *Machine, fr *Frame, r *rval, a []Value) Value {
		u := rv(a[0])
		return m.eqIface(m.ifaceOf(r), m.ifaceOf(u))
	})
	intrinsics["(reflect.StructTag).Get"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return reflect.StructTag(m.concStr(a[0])).Get(m.concStr(a[1]))
	}
	intrinsics["(reflect.StructTag).Lookup"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		s, ok := reflect.StructTag(m.concStr(a[0])).Lookup(m.concStr(a[1]))
		return Tuple{s, ok}
	}
	intrinsics["(reflect.Kind).String"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return reflect.Kind(m.concV(a[0])).String()
	}
	intrinsics["reflect.VisibleFields"] = func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		st := tArg(a[0]).Underlying().(*types.Struct)
		out := []Value{}
		for i := 0; i < st.NumFields(); i++ {
			out = append(out, m.structField(st, i, []int{i}))
		}
		return out
	}
}

type rmapIter struct {
	it   *mapIter
	t    *types.Map
	ro   bool
	k, v Value
}

func (m *Machine) deepEqual(a, b Iface) bool {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	if !sameType(a.t, b.t) {
		return false
	}
	return m.deepEq(a.t, a.v, b.v, 0)
}

func (m *Machine) deepEq(t types.Type, x, y Value, d int) bool {
	if d > 60 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		a, b := sliceCells(x), sliceCells(y)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !m.deepEq(u.Elem(), a[i], b[i], d+1) {
				return false
			}
		}
		return true
	case *types.Array:
		a, b := x.(Array), y.(Array)
		for i := range a {
			if !m.deepEq(u.Elem(), a[i], b[i], d+1) {
				return false
			}
		}
		return true
	case *types.Struct:
		a, b := x.(Struct), y.(Struct)
		for i := range a {
			if !m.deepEq(u.Field(i).Type(), a[i], b[i], d+1) {
				return false
			}
		}
		return true
	case *types.Pointer:
		a, ok1 := x.(*Value)
		b, ok2 := y.(*Value)
		if !ok1 || !ok2 || a == b || a == nil || b == nil {
			return x == y
		}
		return m.deepEq(u.Elem(), *a, *b, d+1)
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		return sameType(a.t, b.t) && m.deepEq(a.t, a.v, b.v, d+1)
	case *types.Map:
		a, b := x.(*Map), y.(*Map)
		if (a == nil) != (b == nil) {
			return false
		}
		if a == nil {
			return true
		}
		if a.count != b.count {
			return false
		}
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			j := m.mapFind(b, e.k)
			if j < 0 || !m.deepEq(u.Elem(), e.v, b.ents[j].v, d+1) {
				return false
			}
		}
		return true
	case *types.Signature:
		a, b := x.(*Closure), y.(*Closure)
		return a == nil && b == nil
	}
	return m.branchV(m.eqv(t, x, y))
}

var _ = strconv.Itoa
var _ = fmt.Sprint
var _ ssa.Value
