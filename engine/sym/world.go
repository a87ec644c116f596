package sym

import "go/types"

// fileState is an open file of the virtual file system.
type fileState struct {
	f    *vfile
	pos  int
	fd   int // 1 stdout, 2 stderr, 0 virtual file
	shut bool
}

type vfile struct {
	name   string
	data   []Val
	dir    bool
	failAt int    // reading fails once this many bytes were delivered; -1: never
	noOpen uint64 // opening it fails with this error
}

// world is the environment of one path: files, output streams, arguments.
type world struct {
	files     []*vfile
	out, err  []Val
	env       map[string]string
	noExit    string
	known     []string
	mapChoice bool
	quietOut  bool
}

func newWorld() *world { return &world{env: map[string]string{}} }

// namedType finds a named type by package path and name.
func (it *Interp) namedType(pkg, name string) types.Type {
	p := it.prog.ImportedPackage(pkg)
	if p == nil {
		it.unsupported("package %s not loaded", pkg)
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		it.unsupported("%s.%s not found", pkg, name)
	}
	return o.Type()
}

func (it *Interp) globalVal(pkg, name string) Val {
	p := it.prog.ImportedPackage(pkg)
	if p == nil {
		it.unsupported("package %s not loaded", pkg)
	}
	g := p.Var(name)
	if g == nil {
		it.unsupported("%s.%s not found", pkg, name)
	}
	return it.load(it.global(g))
}

func (it *Interp) newPtr(v Val) *Val {
	p := new(Val)
	*p = v
	return p
}

// pathError builds &fs.PathError{op, name, syscall.Errno(no)}.
func (it *Interp) pathError(op string, name Val, no uint64) iface {
	pt := it.namedType("io/fs", "PathError")
	et := it.namedType("syscall", "Errno")
	return iface{it.eng.ptrTo(pt), it.newPtr(structV{op, name, iface{et, no}})}
}

func (it *Interp) errorString(msg Val) iface {
	t := it.namedType("errors", "errorString")
	return iface{it.eng.ptrTo(t), it.newPtr(structV{msg})}
}

// openFile opens a virtual file.
func (it *Interp) openFile(name Val) (Val, iface) {
	w := it.world
	for _, f := range w.files {
		if it.truth(it.eq(name, f.name)) {
			if f.noOpen != 0 {
				return (*Val)(nil), it.pathError("open", name, f.noOpen)
			}
			cell := it.newCell(it.namedType("os", "File"))
			st := &fileState{f: f}
			it.cellFile[cell] = st
			it.trailFn(func() { delete(it.cellFile, cell) })
			return cell, iface{}
		}
	}
	return (*Val)(nil), it.pathError("open", name, 2)
}

func (it *Interp) fileRead(fv Val, b sliceV) (int, iface) {
	cell := it.ptr(fv)
	st := it.cellFile[cell]
	if st == nil || st.fd != 0 {
		it.unsupported("read of an unknown file")
	}
	if st.shut {
		return 0, it.pathError("read", st.f.name, 9)
	}
	if len(b.a) == 0 {
		return 0, iface{}
	}
	f := st.f
	if f.dir {
		return 0, it.pathError("read", f.name, 21)
	}
	n := len(f.data) - st.pos
	if f.failAt >= 0 && st.pos+n > f.failAt {
		n = f.failAt - st.pos
	}
	if n > len(b.a) {
		n = len(b.a)
	}
	if n <= 0 {
		if f.failAt >= 0 && st.pos >= f.failAt {
			return 0, it.pathError("read", f.name, 5)
		}
		return 0, it.globalVal("io", "EOF").(iface)
	}
	for i := 0; i < n; i++ {
		it.store(&b.a[i], f.data[st.pos+i])
	}
	old := st.pos
	st.pos += n
	it.trailFn(func() { st.pos = old })
	return n, iface{}
}

func (it *Interp) fileWrite(fv Val, b []Val) (int, iface) {
	cell := it.ptr(fv)
	st := it.cellFile[cell]
	if st == nil {
		it.unsupported("write to an unknown file")
	}
	cp := append([]Val{}, b...)
	switch st.fd {
	case 1:
		it.world.out = append(it.world.out, cp...)
	case 2:
		it.world.err = append(it.world.err, cp...)
	default:
		it.unsupported("write to a virtual file")
	}
	return len(b), iface{}
}
