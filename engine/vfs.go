package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"syscall"
)

// Virtual file system: concrete tree, symbolic contents; paths may be symbolic.

type vnode struct {
	path  Value // clean absolute path
	dir   bool
	data  []Value
	mtime uint64
	mode  uint64
	dead  bool
	ino   int
	nlink int
}

type FS struct {
	nodes    []*vnode
	byP      map[string]*vnode
	nsym     int
	cwd      string
	ntmp     int
	umask    uint64
	ops      []fsop
	marked   []*vnode
	markDead map[*vnode]bool
}

type fsop struct {
	kind string
	path string
}

func newFS() *FS {
	f := &FS{byP: map[string]*vnode{}, cwd: "/cwd"}
	for _, d := range []string{"/", "/tmp", "/cwd"} {
		f.addDir(d)
	}
	return f
}

func (f *FS) addDir(p string) *vnode {
	if n := f.byP[p]; n != nil {
		return n
	}
	if i := strings.LastIndexByte(p, '/'); i > 0 {
		f.addDir(p[:i])
	}
	n := &vnode{path: p, dir: true, mode: 0755, ino: len(f.nodes) + 1}
	f.nodes = append(f.nodes, n)
	f.byP[p] = n
	return n
}

type vfile struct {
	n      *vnode
	name   Value
	off    int
	flags  int
	closed bool
	std    int // 1 stdout, 2 stderr, 0 stdin
	isStd  bool
	dirOff int
	hooked bool // opened by module code
}

// handlePoint: operation on an open file.
func (m *Machine) handlePoint(f *vfile, what string, mode byte) {
	if f.hooked {
		m.fsPoint(nil, what, f.n.path, fixedMode(mode))
	}
}

// absPath cleans a path; symbolic paths are cleaned by the interpreted
// path/filepath.Clean.
func (m *Machine) absPath(fr *Frame, p Value) Value {
	p = normStr(p)
	if s, ok := p.(string); ok {
		if s == "" {
			return ""
		}
		if s[0] != '/' {
			s = m.fs.cwd + "/" + s
		}
		return cleanPath(s)
	}
	if strLen(p) == 0 {
		return ""
	}
	if !m.branchV(m.eqByte(strAt(p, 0), uint64('/'))) {
		p = concat(m.fs.cwd+"/", p)
	}
	return normStr(m.call(fr, m.P.fnByName("path/filepath", "Clean"), []Value{p}, nil))
}

func cleanPath(s string) string {
	var out []string
	for _, c := range strings.Split(s, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, c)
		}
	}
	return "/" + strings.Join(out, "/")
}

func (m *Machine) lookup(p Value) *vnode {
	if s, ok := p.(string); ok {
		if n := m.fs.byP[s]; n != nil && !n.dead {
			return n
		}
		if m.fs.nsym == 0 {
			return nil
		}
	}
	for _, n := range m.fs.nodes {
		if n.dead {
			continue
		}
		if m.branchV(m.eqStr(n.path, p)) {
			return n
		}
	}
	return nil
}

func (m *Machine) parentPath(p Value) Value {
	if s, ok := p.(string); ok {
		i := strings.LastIndexByte(s, '/')
		if i <= 0 {
			return "/"
		}
		return s[:i]
	}
	for i := strLen(p) - 1; i > 0; i-- {
		if m.branchV(m.eqByte(strAt(p, i), uint64('/'))) {
			return normStr(strSlice(p, 0, i))
		}
	}
	return "/"
}

func (m *Machine) baseName(p Value) Value {
	par := m.parentPath(p)
	n := strLen(par)
	if n == 1 {
		return normStr(strSlice(p, 1, strLen(p)))
	}
	return normStr(strSlice(p, n+1, strLen(p)))
}

func (m *Machine) now() uint64 { m.clock++; return m.clock }

func (m *Machine) create(p Value, dir bool, mode uint64) *vnode {
	n := &vnode{path: p, dir: dir, mode: mode, mtime: m.now(), ino: len(m.fs.nodes) + 1}
	m.fs.nodes = append(m.fs.nodes, n)
	if s, ok := p.(string); ok {
		m.fs.byP[s] = n
	} else {
		m.fs.nsym++
	}
	return n
}

func (m *Machine) unlink(n *vnode) {
	n.dead = true
	if s, ok := n.path.(string); ok {
		if m.fs.byP[s] == n {
			delete(m.fs.byP, s)
		}
	} else {
		m.fs.nsym--
	}
}

func (m *Machine) children(p Value) []*vnode {
	var r []*vnode
	for _, n := range m.fs.nodes {
		if n.dead {
			continue
		}
		if s, ok := n.path.(string); ok {
			if s == "/" {
				continue
			}
		}
		if m.branchV(m.eqStr(m.parentPath(n.path), p)) {
			r = append(r, n)
		}
	}
	return r
}

// errno errors

func (m *Machine) errno(e syscall.Errno) Value {
	return Iface{m.P.typeByName("syscall", "Errno"), uint64(e)}
}

func (m *Machine) pathErr(op string, path Value, e syscall.Errno) Value {
	t := m.P.typeByName("io/fs", "PathError")
	cell := new(Value)
	*cell = Struct{op, path, m.errno(e)}
	return Iface{types.NewPointer(t), cell}
}

func (m *Machine) nilErr() Value { return Iface{} }

func (m *Machine) globalErr(pkg, name string) Value {
	g := m.getGlobal(pkg, name)
	if g == nil {
		return m.errno(syscall.EINVAL)
	}
	return *g
}

// checkName returns EINVAL for NUL, ENAMETOOLONG etc.
func (m *Machine) badPath(p Value) syscall.Errno {
	n := strLen(p)
	if n == 0 {
		return syscall.ENOENT
	}
	if s, ok := p.(string); ok {
		if strings.IndexByte(s, 0) >= 0 {
			return syscall.EINVAL
		}
		for _, c := range strings.Split(s, "/") {
			if len(c) > 255 {
				return syscall.ENAMETOOLONG
			}
		}
		return 0
	}
	for i := 0; i < n; i++ {
		if m.branchV(m.eqByte(strAt(p, i), uint64(0))) {
			return syscall.EINVAL
		}
	}
	return 0
}

// walk checks that all ancestors exist and are directories.
func (m *Machine) walk(p Value) syscall.Errno {
	par := m.parentPath(p)
	pn := m.lookup(par)
	if pn == nil {
		if s, ok := par.(string); ok && s == "/" {
			return syscall.ENOENT
		}
		if e := m.walk(par); e != 0 {
			return e
		}
		return syscall.ENOENT
	}
	if !pn.dir {
		return syscall.ENOTDIR
	}
	return 0
}

func (m *Machine) newOSFile(f *vfile) Value {
	inner := new(Value)
	*inner = f
	cell := new(Value)
	*cell = Struct{inner}
	return cell
}

func (m *Machine) vf(v Value) *vfile {
	p, _ := v.(*Value)
	if p == nil {
		return nil
	}
	in, _ := (*p).(Struct)[0].(*Value)
	if in == nil {
		return nil
	}
	f, _ := (*in).(*vfile)
	return f
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

func (m *Machine) openFile(fr *Frame, name Value, flags int, mode uint64) (*vfile, Value) {
	if e := m.badPath(name); e != 0 {
		return nil, m.pathErr("open", name, e)
	}
	p := m.absPath(fr, name)
	hooked := modCall(fr)
	m.fsPoint(fr, "open", p, func(s string) (string, byte) {
		switch {
		case flags&oCREATE != 0 && !m.hasPath(s):
			return s, 's'
		case flags&oTRUNC != 0:
			return s, 'w'
		}
		return s, 'r'
	})
	n := m.lookup(p)
	if n == nil {
		if e := m.walk(p); e != 0 {
			return nil, m.pathErr("open", name, e)
		}
		if flags&oCREATE == 0 {
			return nil, m.pathErr("open", name, syscall.ENOENT)
		}
		if e := m.fault("create", p); e != 0 {
			return nil, m.pathErr("open", name, e)
		}
		n = m.create(p, false, mode&0777)
		m.logOp("create", p)
		if pn := m.lookup(m.parentPath(p)); pn != nil {
			pn.mtime = m.now()
		}
	} else {
		if flags&(oCREATE|oEXCL) == oCREATE|oEXCL {
			return nil, m.pathErr("open", name, syscall.EEXIST)
		}
		if n.dir && flags&(oWRONLY|oRDWR) != 0 {
			return nil, m.pathErr("open", name, syscall.EISDIR)
		}
		if flags&oTRUNC != 0 {
			n.data = nil
			n.mtime = m.now()
			m.logOp("truncate", p)
		}
	}
	return &vfile{n: n, name: name, flags: flags, hooked: hooked}, m.nilErr()
}

func (m *Machine) fault(kind string, p Value) syscall.Errno {
	return 0
}

func (m *Machine) logOp(kind string, p Value) {
	m.fs.ops = append(m.fs.ops, fsop{kind, m.concreteBytes(p)})
}

func (m *Machine) fwrite(f *vfile, b []Value) syscall.Errno {
	if f.isStd {
		if f.std == 1 {
			m.stdoutWrite(b)
		}
		return 0
	}
	m.handlePoint(f, "write", 'w')
	if f.closed {
		return syscall.EBADF
	}
	if f.flags&(oWRONLY|oRDWR) == 0 {
		return syscall.EBADF
	}
	if len(b) == 0 {
		return 0
	}
	if f.flags&oAPPEND != 0 {
		f.off = len(f.n.data)
	}
	m.logOp("write", f.n.path)
	end := f.off + len(b)
	nd := f.n.data
	if end > len(nd) {
		nd = make([]Value, end)
		copy(nd, f.n.data)
		for i := len(f.n.data); i < f.off; i++ {
			nd[i] = zeroInt
		}
	} else {
		nd = append([]Value(nil), nd...)
	}
	copy(nd[f.off:], b)
	f.n.data = nd
	f.off = end
	f.n.mtime = m.now()
	return 0
}

func (m *Machine) stdoutWrite(b []Value) {
	m.stdout = append(m.stdout, b...)
}

func (m *Machine) timeVal(unixNano uint64) Value {
	// time.Time{wall uint64, ext int64, loc *Location}: no monotonic reading
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	return Struct{uint64(unixNano % 1e9), uint64(unixNano/1e9 + unixToInternal), nilPtr}
}

const fileModeDir = uint64(1) << 31

func (m *Machine) fileInfo(n *vnode, name Value) Value {
	t := m.P.typeByName("os", "fileStat")
	st := zero(t).(Struct)
	ut := t.Underlying().(*types.Struct)
	for i := 0; i < ut.NumFields(); i++ {
		switch ut.Field(i).Name() {
		case "name":
			st[i] = name
		case "size":
			st[i] = uint64(len(n.data))
		case "mode":
			md := n.mode
			if n.dir {
				md |= fileModeDir
			}
			st[i] = md
		case "modTime":
			st[i] = m.timeVal(1700000000*1e9 + n.mtime*1e6)
		case "sys":
			// Ino for os.SameFile
			su := ut.Field(i).Type().Underlying().(*types.Struct)
			for k := 0; k < su.NumFields(); k++ {
				if su.Field(k).Name() == "Ino" {
					st[i].(Struct)[k] = uint64(n.ino)
				}
			}
		}
	}
	cell := new(Value)
	*cell = st
	return Iface{types.NewPointer(t), cell}
}

func (m *Machine) dirEntries(fr *Frame, n *vnode) []Value {
	t := m.P.typeByName("os", "unixDirent")
	ut := t.Underlying().(*types.Struct)
	ch := m.children(n.path)
	type ent struct {
		name string
		n    *vnode
	}
	var es []ent
	for _, c := range ch {
		es = append(es, ent{m.concStr(m.baseName(c.path)), c})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].name < es[j].name })
	var out []Value
	for _, e := range es {
		st := zero(t).(Struct)
		for i := 0; i < ut.NumFields(); i++ {
			switch ut.Field(i).Name() {
			case "parent":
				st[i] = n.path
			case "name":
				st[i] = e.name
			case "typ":
				if e.n.dir {
					st[i] = fileModeDir
				}
			case "info":
				st[i] = m.fileInfo(e.n, e.name)
			}
		}
		cell := new(Value)
		*cell = st
		out = append(out, Iface{types.NewPointer(t), cell})
	}
	return out
}

func (m *Machine) mkdirAll(fr *Frame, name Value, mode uint64) Value {
	if e := m.badPath(name); e != 0 {
		return m.pathErr("mkdir", name, e)
	}
	p := m.absPath(fr, name)
	m.fsPoint(fr, "mkdir", p, func(s string) (string, byte) {
		if m.hasPath(s) {
			return s, 'r'
		}
		for {
			i := strings.LastIndexByte(s, '/')
			if i <= 0 || m.hasPath(s[:i]) {
				return s, 's'
			}
			s = s[:i]
		}
	})
	var rec func(p Value) syscall.Errno
	rec = func(p Value) syscall.Errno {
		if n := m.lookup(p); n != nil {
			if !n.dir {
				return syscall.ENOTDIR
			}
			return 0
		}
		if e := rec(m.parentPath(p)); e != 0 {
			return e
		}
		m.create(p, true, mode&0777)
		m.logOp("mkdir", p)
		return 0
	}
	if e := rec(p); e != 0 {
		return m.pathErr("mkdir", name, e)
	}
	return m.nilErr()
}

func init() {
	reg := func(name string, f intrinsic) { intrinsics[name] = f }

	open := func(m *Machine, fr *Frame, name Value, flags int, mode uint64) Value {
		f, err := m.openFile(fr, name, flags, mode)
		if f == nil {
			return Tuple{nilPtr, err}
		}
		return Tuple{m.newOSFile(f), err}
	}
	reg("os.OpenFile", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return open(m, fr, a[0], m.concInt(a[1]), m.concV(a[2]))
	})
	reg("os.Open", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return open(m, fr, a[0], 0, 0) })
	reg("os.Create", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return open(m, fr, a[0], oRDWR|oCREATE|oTRUNC, 0666)
	})
	reg("os.NewFile", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return m.newOSFile(&vfile{isStd: true, std: m.concInt(a[0]), name: a[1]})
	})
	reg("os.ReadFile", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		f, err := m.openFile(fr, a[0], 0, 0)
		if f == nil {
			return Tuple{[]Value(nil), err}
		}
		m.handlePoint(f, "read", 'r')
		if f.n.dir {
			return Tuple{[]Value(nil), m.pathErr("read", a[0], syscall.EISDIR)}
		}
		d := make([]Value, len(f.n.data))
		copy(d, f.n.data)
		return Tuple{d, m.nilErr()}
	})
	reg("os.WriteFile", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		f, err := m.openFile(fr, a[0], oWRONLY|oCREATE|oTRUNC, m.concV(a[2]))
		if f == nil {
			return err
		}
		b, _ := a[1].([]Value)
		if e := m.fwrite(f, b); e != 0 {
			return m.pathErr("write", a[0], e)
		}
		return m.nilErr()
	})
	reg("os.MkdirAll", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return m.mkdirAll(fr, a[0], m.concV(a[1])) })
	reg("os.Mkdir", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		if e := m.badPath(a[0]); e != 0 {
			return m.pathErr("mkdir", a[0], e)
		}
		p := m.absPath(fr, a[0])
		m.fsPoint(fr, "mkdir", p, fixedMode('s'))
		if m.lookup(p) != nil {
			return m.pathErr("mkdir", a[0], syscall.EEXIST)
		}
		if e := m.walk(p); e != 0 {
			return m.pathErr("mkdir", a[0], e)
		}
		m.create(p, true, m.concV(a[1])&0777)
		m.logOp("mkdir", p)
		return m.nilErr()
	})
	stat := func(op string) intrinsic {
		return func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			if e := m.badPath(a[0]); e != 0 {
				return Tuple{Iface{}, m.pathErr(op, a[0], e)}
			}
			p := m.absPath(fr, a[0])
			m.fsPoint(fr, "stat", p, fixedMode('r'))
			n := m.lookup(p)
			if n == nil {
				e := m.walk(p)
				if e == 0 {
					e = syscall.ENOENT
				}
				return Tuple{Iface{}, m.pathErr(op, a[0], e)}
			}
			return Tuple{m.fileInfo(n, m.baseName(p)), m.nilErr()}
		}
	}
	reg("os.Stat", stat("stat"))
	reg("os.Lstat", stat("lstat"))
	remove := func(m *Machine, fr *Frame, name Value) Value {
		if e := m.badPath(name); e != 0 {
			return m.pathErr("remove", name, e)
		}
		p := m.absPath(fr, name)
		m.fsPoint(fr, "remove", p, fixedMode('s'))
		n := m.lookup(p)
		if n == nil {
			e := m.walk(p)
			if e == 0 {
				e = syscall.ENOENT
			}
			return m.pathErr("remove", name, e)
		}
		if n.dir && len(m.children(p)) > 0 {
			return m.pathErr("remove", name, syscall.ENOTEMPTY)
		}
		m.unlink(n)
		m.logOp("remove", p)
		return m.nilErr()
	}
	reg("os.Remove", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return remove(m, fr, a[0]) })
	reg("os.RemoveAll", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		p := m.absPath(fr, a[0])
		m.fsPoint(fr, "remove", p, fixedMode('x'))
		var rec func(n *vnode)
		rec = func(n *vnode) {
			if n.dir {
				for _, c := range m.children(n.path) {
					rec(c)
				}
			}
			m.unlink(n)
			m.logOp("remove", n.path)
		}
		if n := m.lookup(p); n != nil {
			rec(n)
		}
		return m.nilErr()
	})
	reg("os.Rename", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		m.fsPoint(fr, "rename", "", fixedMode('x'))
		o, nw := m.absPath(fr, a[0]), m.absPath(fr, a[1])
		n := m.lookup(o)
		lerr := func(e syscall.Errno) Value {
			t := m.P.typeByName("os", "LinkError")
			cell := new(Value)
			*cell = Struct{"rename", a[0], a[1], m.errno(e)}
			return Iface{types.NewPointer(t), cell}
		}
		if n == nil {
			return lerr(syscall.ENOENT)
		}
		if e := m.walk(nw); e != 0 {
			return lerr(e)
		}
		if n.dir {
			panic(m.unsupported("rename of a directory"))
		}
		if t := m.lookup(nw); t != nil {
			if t == n {
				return m.nilErr()
			}
			if t.dir {
				return lerr(syscall.EEXIST)
			}
			m.unlink(t)
		}
		m.unlink(n)
		n.dead = false
		n.path = nw
		if s, ok := nw.(string); ok {
			m.fs.byP[s] = n
		} else {
			m.fs.nsym++
		}
		m.logOp("rename", nw)
		return m.nilErr()
	})
	reg("os.Truncate", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		p := m.absPath(fr, a[0])
		m.fsPoint(fr, "truncate", p, fixedMode('w'))
		n := m.lookup(p)
		if n == nil {
			return m.pathErr("truncate", a[0], syscall.ENOENT)
		}
		m.truncate(n, m.concInt(a[1]))
		return m.nilErr()
	})
	reg("os.ReadDir", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		if e := m.badPath(a[0]); e != 0 {
			return Tuple{[]Value(nil), m.pathErr("open", a[0], e)}
		}
		p := m.absPath(fr, a[0])
		m.fsPoint(fr, "readdir", p, fixedMode('l'))
		n := m.lookup(p)
		if n == nil {
			return Tuple{[]Value(nil), m.pathErr("open", a[0], syscall.ENOENT)}
		}
		if !n.dir {
			return Tuple{[]Value(nil), m.pathErr("readdirent", a[0], syscall.ENOTDIR)}
		}
		return Tuple{m.dirEntries(fr, n), m.nilErr()}
	})
	reg("os.Getwd", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return Tuple{m.fs.cwd, m.nilErr()} })
	reg("os.Chdir", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		p := m.absPath(fr, a[0])
		n := m.lookup(p)
		if n == nil || !n.dir {
			return m.pathErr("chdir", a[0], syscall.ENOENT)
		}
		m.fs.cwd = m.concStr(p)
		return m.nilErr()
	})
	reg("os.Chmod", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		p := m.absPath(fr, a[0])
		n := m.lookup(p)
		if n == nil {
			return m.pathErr("chmod", a[0], syscall.ENOENT)
		}
		n.mode = m.concV(a[1]) & 0777
		return m.nilErr()
	})
	reg("os.Chtimes", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return m.nilErr() })
	reg("os.TempDir", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return "/tmp" })
	tmp := func(dir bool) intrinsic {
		return func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			d := m.concStr(a[0])
			if d == "" {
				d = "/tmp"
			}
			pat := m.concStr(a[1])
			m.fs.ntmp++
			rnd := fmt.Sprintf("%09d", m.fs.ntmp)
			name := pat + rnd
			if i := strings.LastIndexByte(pat, '*'); i >= 0 {
				name = pat[:i] + rnd + pat[i+1:]
			}
			full := d + "/" + name
			if dir {
				if m.lookup(m.absPath(fr, d)) == nil {
					return Tuple{"", m.pathErr("mkdir", full, syscall.ENOENT)}
				}
				m.create(m.absPath(fr, full), true, 0700)
				return Tuple{full, m.nilErr()}
			}
			return open(m, fr, full, oRDWR|oCREATE|oEXCL, 0600)
		}
	}
	reg("os.CreateTemp", tmp(false))
	reg("os.MkdirTemp", tmp(true))
	reg("os.SameFile", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		x, y := a[0].(Iface).v, a[1].(Iface).v
		px, py := x.(*Value), y.(*Value)
		return m.show((*px).(Struct)[len((*px).(Struct))-1]) == m.show((*py).(Struct)[len((*py).(Struct))-1])
	})
	reg("path/filepath.EvalSymlinks", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		p := m.absPath(fr, a[0])
		if m.lookup(p) == nil {
			return Tuple{"", m.pathErr("lstat", a[0], syscall.ENOENT)}
		}
		return Tuple{normStr(m.call(fr, m.P.fnByName("path/filepath", "Clean"), []Value{a[0]}, nil)), m.nilErr()}
	})

	// env
	reg("os.Getenv", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		if v, ok := m.env[m.concStr(a[0])]; ok {
			return v
		}
		return ""
	})
	lookupEnv := func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		if v, ok := m.env[m.concStr(a[0])]; ok {
			return Tuple{v, true}
		}
		return Tuple{"", false}
	}
	reg("os.LookupEnv", lookupEnv)
	reg("syscall.Getenv", lookupEnv)
	reg("os.Setenv", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		m.env[m.concStr(a[0])] = a[1]
		return m.nilErr()
	})
	reg("os.Unsetenv", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		delete(m.env, m.concStr(a[0]))
		return m.nilErr()
	})
	reg("os.Environ", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		var r []Value
		for _, k := range sortedKeys(m.env) {
			r = append(r, concat(k+"=", m.env[k]))
		}
		return r
	})
	reg("os.Exit", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		panic(pathEnd{"violation", fmt.Sprintf("os.Exit(%d) called", m.concInt(a[0]))})
	})
	reg("os.Getpid", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return uint64(4242) })
	reg("os.Hostname", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return Tuple{"host", m.nilErr()} })
	reg("os.Getpagesize", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return uint64(4096) })
	reg("os.runtime_args", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return []Value{"test.bin"} })
	reg("os.runtime_beforeExit", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return nil })
	reg("os.checkPidfdOnce", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return m.nilErr() })

	// *os.File
	bad := func(m *Machine, op string, f *vfile) Value {
		if f == nil {
			return m.errno(syscall.EINVAL)
		}
		t := m.P.typeByName("io/fs", "PathError")
		cell := new(Value)
		*cell = Struct{op, f.name, m.globalErr("io/fs", "ErrClosed")}
		return Iface{types.NewPointer(t), cell}
	}
	reg("(*os.File).Name", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return m.vf(a[0]).name })
	reg("(*os.File).Fd", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		f := m.vf(a[0])
		if f.isStd {
			return uint64(f.std)
		}
		return uint64(10)
	})
	reg("(*os.File).Close", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		f := m.vf(a[0])
		if f == nil || f.closed {
			return bad(m, "close", f)
		}
		f.closed = true
		return m.nilErr()
	})
	reg("(*os.File).Sync", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return m.nilErr() })
	reg("(*os.File).Chmod", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		f := m.vf(a[0])
		f.n.mode = m.concV(a[1]) & 0777
		return m.nilErr()
	})
	write := func(m *Machine, fv Value, b []Value) Value {
		f := m.vf(fv)
		if f == nil || f.closed {
			return Tuple{uint64(0), bad(m, "write", f)}
		}
		if e := m.fwrite(f, b); e != 0 {
			return Tuple{uint64(0), m.pathErr("write", f.name, e)}
		}
		return Tuple{uint64(len(b)), m.nilErr()}
	}
	reg("(*os.File).Write", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		b, _ := a[1].([]Value)
		return write(m, a[0], b)
	})
	reg("(*os.File).WriteString", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		return write(m, a[0], strCells(a[1]))
	})
	reg("(*os.File).WriteAt", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		f := m.vf(a[0])
		b, _ := a[1].([]Value)
		old := f.off
		f.off = m.concInt(a[2])
		r := write(m, a[0], b)
		f.off = old
		return r
	})
	reg("(*os.File).ReadFrom", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		r := m.call(fr, m.P.fnByName("io", "ReadAll"), []Value{a[1]}, nil).(Tuple)
		b, _ := r[0].([]Value)
		w := write(m, a[0], b).(Tuple)
		if w[1].(Iface).t != nil {
			return w
		}
		return Tuple{w[0], r[1]}
	})
	reg("(*os.File).WriteTo", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		f := m.vf(a[0])
		d := append([]Value(nil), f.n.data[min(f.off, len(f.n.data)):]...)
		f.off = len(f.n.data)
		w := a[1].(Iface)
		meth := m.P.ioWriterWrite()
		return m.invoke(fr, m.lookupMethod(w.t, meth), nil, []Value{w.v, d})
	})
	read := func(m *Machine, f *vfile, b []Value, off int) (int, Value) {
		m.handlePoint(f, "read", 'r')
		if f.n.dir {
			return 0, m.pathErr("read", f.name, syscall.EISDIR)
		}
		if f.flags&3 == oWRONLY {
			return 0, m.pathErr("read", f.name, syscall.EBADF)
		}
		if len(b) == 0 {
			return 0, m.nilErr()
		}
		if off >= len(f.n.data) {
			return 0, m.globalErr("io", "EOF")
		}
		n := copy(b, f.n.data[off:])
		return n, m.nilErr()
	}
	reg("(*os.File).Read", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		f := m.vf(a[0])
		if f == nil || f.closed {
			return Tuple{uint64(0), bad(m, "read", f)}
		}
		if f.isStd {
			return Tuple{uint64(0), m.globalErr("io", "EOF")}
		}
		b, _ := a[1].([]Value)
		n, err := read(m, f, b, f.off)
		f.off += n
		return Tuple{uint64(n), err}
	})
	reg("(*os.File).ReadAt", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		f := m.vf(a[0])
		b, _ := a[1].([]Value)
		n, err := read(m, f, b, m.concInt(a[2]))
		if n < len(b) && err.(Iface).t == nil {
			err = m.globalErr("io", "EOF")
		}
		return Tuple{uint64(n), err}
	})
	reg("(*os.File).Seek", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		f := m.vf(a[0])
		if f == nil || f.closed {
			return Tuple{uint64(0), bad(m, "seek", f)}
		}
		o := m.concInt(a[1])
		switch m.concInt(a[2]) {
		case 1:
			o += f.off
		case 2:
			o += len(f.n.data)
		}
		if o < 0 {
			return Tuple{uint64(0), m.pathErr("seek", f.name, syscall.EINVAL)}
		}
		f.off = o
		return Tuple{uint64(o), m.nilErr()}
	})
	reg("(*os.File).Truncate", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		f := m.vf(a[0])
		if f == nil || f.closed {
			return bad(m, "truncate", f)
		}
		m.handlePoint(f, "truncate", 'w')
		if f.flags&(oWRONLY|oRDWR) == 0 {
			return m.pathErr("truncate", f.name, syscall.EINVAL)
		}
		m.truncate(f.n, m.concInt(a[1]))
		return m.nilErr()
	})
	reg("(*os.File).Stat", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
		f := m.vf(a[0])
		if f == nil || f.closed {
			return Tuple{Iface{}, bad(m, "stat", f)}
		}
		if f.isStd {
			n := &vnode{mode: 0620}
			return Tuple{m.fileInfo(n, f.name), m.nilErr()}
		}
		return Tuple{m.fileInfo(f.n, m.baseName(f.n.path)), m.nilErr()}
	})
	readdir := func(kind int) intrinsic {
		return func(m *Machine, fr *Frame, fn *Fn, a []Value) Value {
			f := m.vf(a[0])
			n := m.concInt(a[1])
			all := m.dirEntries(fr, f.n)
			all = all[min(f.dirOff, len(all)):]
			if n > 0 {
				if len(all) == 0 {
					return Tuple{[]Value(nil), m.globalErr("io", "EOF")}
				}
				all = all[:min(n, len(all))]
			}
			f.dirOff += len(all)
			if kind > 0 {
				for i := range all {
					st := (*(all[i].(Iface).v.(*Value))).(Struct)
					if kind == 1 {
						all[i] = st[1]
					} else {
						all[i] = st[len(st)-1]
					}
				}
			}
			return Tuple{all, m.nilErr()}
		}
	}
	reg("(*os.File).ReadDir", readdir(0))
	reg("(*os.File).Readdirnames", readdir(1))
	reg("(*os.File).Readdir", readdir(2))
	reg("syscall.Flock", func(m *Machine, fr *Frame, fn *Fn, a []Value) Value { return m.nilErr() })
}

func (m *Machine) truncate(n *vnode, size int) {
	if size < len(n.data) {
		n.data = append([]Value(nil), n.data[:size]...)
	} else if size > len(n.data) {
		d := make([]Value, size)
		copy(d, n.data)
		for i := len(n.data); i < size; i++ {
			d[i] = zeroInt
		}
		n.data = d
	}
	n.mtime = m.now()
	m.logOp("truncate", n.path)
}

func (p *Program) ioWriterWrite() *types.Func {
	it := p.typeByName("io", "Writer").Underlying().(*types.Interface)
	return it.Method(0)
}
