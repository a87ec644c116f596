package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	kind byte // 0 none, 1 register, 2 constant, 3 global, 4 free var
	idx  int
	c    Val
	g    *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	ops []opnd
	// pre-resolved
	k     intKind
	isInt bool
	fn    *fnInfo // static callee
	fnv   *ssa.Function
}

type fnInfo struct {
	fn        *ssa.Function
	nregs     int
	blocks    [][]cinstr
	intr      intrinsic
	inited    bool
	repo      bool // declared in the repository under test (not harness, not library)
	harness   bool
	name      string
	touched   bool
	hasDefer  bool
	callCount int
}

type intrinsic func(it *Interp, fr *frame, fi *fnInfo, args []Val) Val

type deferred struct {
	fn   Val
	args []Val
	next *deferred
}

type frame struct {
	it        *Interp
	caller    *frame
	info      *fnInfo
	regs      []Val
	env       []Val
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    Val
	panicking bool
	panicV    interface{}
	recovered bool
	site      token.Pos
	depth     int
}

// goPanic is a Go-level panic travelling through interpreted frames.
type goPanic struct {
	v   iface
	rt  bool // run-time error
	pos string
}

type exitPanic struct{ code int }

type trailEnt struct {
	p   *Val
	old Val
	fn  func()
}

type Interp struct {
	w        *Worker
	eng      *Engine
	prog     *ssa.Program
	tb       *TB
	p        *Path
	fns      map[*ssa.Function]*fnInfo
	globals  map[*ssa.Global]*Val
	pkgState map[*ssa.Package]int // 0 not initialised, 1 running, 2 done
	trail    []trailEnt
	noTrail  int
	steps    int64
	maxSteps int64
	maxDepth int
	initing  int
	cur      *frame
	methods  map[methodKey]*ssa.Function
	implc    map[[2]types.Type]bool
	world    *world
	rtErrT   types.Type
	errStrT  types.Type
	mapOrder bool
	cellFile map[*Val]*fileState
	strName  map[types.Type]string
}

type methodKey struct {
	t types.Type
	m *types.Func
}

func (it *Interp) unsupported(f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	if it.cur != nil {
		msg += " at " + it.where()
	}
	panic(pathEnd{"unsupported", msg})
}

func (it *Interp) where() string {
	var l []string
	n := 0
	for f := it.cur; f != nil && n < 6; f = f.caller {
		l = append(l, f.info.name)
		n++
	}
	return strings.Join(l, " < ")
}

func (it *Interp) trailFn(f func()) {
	if it.noTrail == 0 {
		it.trail = append(it.trail, trailEnt{fn: f})
	}
}

func (it *Interp) set(p *Val, v Val) {
	if it.noTrail == 0 {
		it.trail = append(it.trail, trailEnt{p: p, old: *p})
	}
	*p = v
}

func (it *Interp) rollback() {
	for i := len(it.trail) - 1; i >= 0; i-- {
		e := it.trail[i]
		if e.p != nil {
			*e.p = e.old
		} else {
			e.fn()
		}
		it.trail[i] = trailEnt{}
	}
	it.trail = it.trail[:0]
}

// store writes v into *p in place, so that pointers to components stay valid.
func (it *Interp) store(p *Val, v Val) {
	switch x := v.(type) {
	case structV:
		if old, ok := (*p).(structV); ok && len(old) == len(x) {
			if len(x) > 0 && &old[0] == &x[0] {
				return
			}
			for i := range x {
				it.store(&old[i], x[i])
			}
			return
		}
		it.set(p, copyVal(v))
	case arrayV:
		if old, ok := (*p).(arrayV); ok && len(old) == len(x) {
			if len(x) > 0 && &old[0] == &x[0] {
				return
			}
			for i := range x {
				it.store(&old[i], x[i])
			}
			return
		}
		it.set(p, copyVal(v))
	default:
		it.set(p, v)
	}
}

func (it *Interp) load(p *Val) Val {
	switch (*p).(type) {
	case structV, arrayV:
		return copyVal(*p)
	}
	return *p
}

func (it *Interp) newCell(t types.Type) *Val {
	v := new(Val)
	*v = it.zero(t)
	return v
}

// ---- panics ----

func (it *Interp) goPanicRT(msg string) {
	panic(goPanic{v: iface{it.eng.rtErrT, msg}, rt: true, pos: it.where()})
}

func (it *Interp) goPanicStr(msg string) { it.goPanicRT(msg) }

func (it *Interp) truth(v Val) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return it.p.Decide(x)
	}
	panic(fmt.Sprintf("truth: %T", v))
}

// concInt makes an integer concrete, forking over its feasible values in [lo,hi].
func (it *Interp) concInt(v Val, lo, hi int64) (int64, bool) {
	switch x := v.(type) {
	case int64:
		return x, x >= lo && x <= hi
	case uint64:
		return int64(x), int64(x) >= lo && int64(x) <= hi
	case *Term:
		if hi-lo > 4096 {
			if l, h := it.p.ivl(x, 0); l != nil && h != nil && l.IsInt64() && h.IsInt64() {
				if l.Int64() > lo {
					lo = l.Int64()
				}
				if h.Int64() < hi {
					hi = h.Int64()
				}
			}
		}
		if hi-lo > 4096 {
			it.unsupported("concretisation over %d values", hi-lo)
		}
		for i := lo; i <= hi; i++ {
			if x.op == OVar && x.v.Small {
				if d := it.p.dom(x.v); !d.mayBe(x.v, i) {
					continue
				}
			}
			if it.p.Decide(it.tb.Eq(x, it.tb.Int(i))) {
				return i, true
			}
		}
		return 0, false
	}
	panic(fmt.Sprintf("concInt: %T", v))
}

// index concretises an index against a length, raising the bounds panic when out of range.
func (it *Interp) index(v Val, n int) int {
	switch x := v.(type) {
	case int64:
		if x < 0 || x >= int64(n) {
			it.goPanicRT(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return int(x)
	case uint64:
		if x >= uint64(n) {
			it.goPanicRT(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return int(x)
	case *Term:
		in := it.tb.And(it.tb.Le(it.tb.Int(0), x), it.tb.Lt(x, it.tb.Int(int64(n))))
		if !it.p.Decide(in) {
			it.goPanicRT(fmt.Sprintf("index out of range [symbolic] with length %d", n))
		}
		i, ok := it.concInt(x, 0, int64(n)-1)
		if !ok {
			it.p.end("infeasible", "")
		}
		return int(i)
	}
	panic(fmt.Sprintf("index: %T", v))
}

// ---- compilation ----

func (it *Interp) info(fn *ssa.Function) *fnInfo {
	fi := it.fns[fn]
	if fi == nil {
		fi = &fnInfo{fn: fn, name: fn.String()}
		it.fns[fn] = fi
		org := fn
		if fn.Origin() != nil {
			org = fn.Origin()
		}
		fi.intr = lookupIntrinsic(org.String(), fn)
		if pk := fnPkg(fn); pk != nil {
			path := pk.Pkg.Path()
			fi.repo, fi.harness = it.eng.classify(path, fn)
		}
	}
	return fi
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

func (it *Interp) compile(fi *fnInfo) {
	fn := fi.fn
	fi.inited = true
	regs := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		regs[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	fi.nregs = n
	free := map[ssa.Value]int{}
	for i, f := range fn.FreeVars {
		free[f] = i
	}
	res := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{}
		case *ssa.Const:
			return opnd{kind: 2, c: it.constVal(x)}
		case *ssa.Global:
			return opnd{kind: 3, g: x}
		case *ssa.Function:
			return opnd{kind: 2, c: x}
		case *ssa.Builtin:
			return opnd{kind: 2, c: x}
		case *ssa.FreeVar:
			return opnd{kind: 4, idx: free[x]}
		}
		i, ok := regs[v]
		if !ok {
			panic("no register for " + v.Name() + " in " + fn.String())
		}
		return opnd{kind: 1, idx: i}
	}
	for _, b := range fn.Blocks {
		var cs []cinstr
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				for _, e := range x.Edges {
					ci.ops = append(ci.ops, res(e))
				}
			case ssa.CallInstruction:
				c := x.Common()
				ci.ops = append(ci.ops, res(c.Value))
				for _, a := range c.Args {
					ci.ops = append(ci.ops, res(a))
				}
				if _, ok := in.(*ssa.Defer); ok {
					fi.hasDefer = true
				}
			case *ssa.BinOp:
				ci.ops = []opnd{res(x.X), res(x.Y)}
				ci.k, ci.isInt = kindOf(x.X.Type())
			case *ssa.MakeClosure:
				ci.fnv = x.Fn.(*ssa.Function)
				for _, e := range x.Bindings {
					ci.ops = append(ci.ops, res(e))
				}
			case *ssa.Slice:
				ci.ops = []opnd{res(x.X), res(x.Low), res(x.High), res(x.Max)}
			default:
				var rands []*ssa.Value
				for _, r := range in.Operands(rands) {
					ci.ops = append(ci.ops, res(*r))
				}
			}
			cs = append(cs, ci)
		}
		fi.blocks = append(fi.blocks, cs)
	}
}

func (it *Interp) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return it.zero(c.Type())
	}
	t := c.Type()
	if tp, ok := t.Underlying().(*types.Interface); ok {
		_ = tp
		it.unsupported("constant of interface type")
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		// type parameter instantiation leftovers
		panic("constVal: " + t.String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		k, _ := kindOf(t)
		if k.signed {
			return c.Int64()
		}
		return k.norm(c.Uint64())
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	}
	if b.Kind() == types.UnsafePointer {
		return (*Val)(nil)
	}
	panic("constVal: " + t.String())
}

func (fr *frame) get(o *opnd) Val {
	switch o.kind {
	case 1:
		return fr.regs[o.idx]
	case 2:
		return o.c
	case 3:
		return fr.it.global(o.g)
	case 4:
		return fr.env[o.idx]
	}
	return nil
}

// global returns the address of a package variable, initialising library packages on first use.
func (it *Interp) global(g *ssa.Global) *Val {
	if p := it.globals[g]; p != nil {
		if it.pkgState[g.Pkg] != 0 {
			return p
		}
	}
	it.ensureInit(g.Pkg)
	p := it.globals[g]
	if p == nil {
		p = it.newCell(g.Type().Underlying().(*types.Pointer).Elem())
		it.globals[g] = p
	}
	return p
}

// ensureInit runs a package's own initialisation (variables and init functions), outside the path's trail.
func (it *Interp) ensureInit(pk *ssa.Package) {
	if it.pkgState[pk] != 0 {
		return
	}
	it.pkgState[pk] = 1
	for _, m := range pk.Members {
		if g, ok := m.(*ssa.Global); ok && it.globals[g] == nil {
			it.globals[g] = it.newCell(g.Type().Underlying().(*types.Pointer).Elem())
		}
	}
	if special := specialInit[pk.Pkg.Path()]; special != nil {
		it.noTrail++
		special(it, pk)
		it.noTrail--
		it.pkgState[pk] = 2
		return
	}
	init := pk.Func("init")
	if init != nil && init.Blocks != nil {
		it.noTrail++
		it.initing++
		saveSteps, saveCur := it.steps, it.cur
		it.cur = nil
		it.callFn(nil, init, nil, nil)
		it.cur = saveCur
		it.steps = saveSteps
		it.initing--
		it.noTrail--
	}
	it.pkgState[pk] = 2
}

// call calls any function value.
func (it *Interp) call(caller *frame, fn Val, args []Val) Val {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			it.goPanicRT("invalid memory address or nil pointer dereference")
		}
		return it.callFn(caller, f, args, nil)
	case *closure:
		return it.callFn(caller, f.fn, args, f.env)
	case *hostFunc:
		return f.f(it, args)
	case *ssa.Builtin:
		it.unsupported("builtin %s as value", f.Name())
	}
	it.goPanicRT("invalid memory address or nil pointer dereference")
	return nil
}

func (it *Interp) callFn(caller *frame, fn *ssa.Function, args []Val, env []Val) Val {
	fi := it.info(fn)
	return it.callInfo(caller, fi, args, env)
}

func (it *Interp) callInfo(caller *frame, fi *fnInfo, args []Val, env []Val) Val {
	if fi.intr != nil {
		return fi.intr(it, caller, fi, args)
	}
	return it.interpFn(caller, fi, args, env)
}

// interpFn interprets the body of a function.
func (it *Interp) interpFn(caller *frame, fi *fnInfo, args []Val, env []Val) Val {
	fn := fi.fn
	if fn.Blocks == nil {
		it.unsupported("function without body: %s", fi.name)
	}
	if !fi.inited {
		it.compile(fi)
	}
	// package init chains are replaced by lazy initialisation
	if fn.Synthetic == "package initializer" && caller != nil {
		if fn.Pkg != nil && it.eng.eager(fn.Pkg.Pkg.Path()) {
			it.ensureInit(fn.Pkg)
		}
		return nil
	}
	fi.touched = true
	fr := &frame{it: it, caller: caller, info: fi, env: env}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > it.maxDepth {
		panic(pathEnd{"bound", "call depth exceeds " + itoa(it.maxDepth) + " in " + it.where()})
	}
	fr.regs = make([]Val, fi.nregs)
	copy(fr.regs, args)
	save := it.cur
	it.cur = fr
	if !fi.hasDefer && fn.Recover == nil {
		it.run(fr)
		it.cur = save
		return fr.result
	}
	it.runProtected(fr)
	it.cur = save
	return fr.result
}

// runProtected runs a frame that may defer and recover.
func (it *Interp) runProtected(fr *frame) {
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case goPanic:
				fr.panicking = true
				fr.panicV = x
			default:
				panic(r)
			}
		}()
		it.run(fr)
	}()
	if !fr.panicking {
		return
	}
	it.cur = fr
	it.runDefers(fr)
	if fr.panicking {
		panic(fr.panicV)
	}
	// recovered
	if fr.info.fn.Recover != nil {
		fr.prev, fr.block = nil, fr.info.fn.Recover
		fr.panicking = false
		it.run(fr)
	} else {
		fr.result = it.zero(fr.info.fn.Signature.Results())
		if t, ok := fr.result.(tupleV); ok {
			switch len(t) {
			case 0:
				fr.result = nil
			case 1:
				fr.result = t[0]
			}
		}
	}
}

func (it *Interp) runDefers(fr *frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				if x, ok := r.(goPanic); ok {
					fr.panicking = true
					fr.panicV = x
					it.cur = fr
					return
				}
				panic(r)
			}()
			it.call(fr, d.fn, d.args)
		}()
	}
}

func (it *Interp) run(fr *frame) {
	if fr.block == nil {
		fr.block = fr.info.fn.Blocks[0]
	}
	for {
		code := fr.info.blocks[fr.block.Index]
		i := 0
		// phis are evaluated in parallel
		if len(code) > 0 {
			if _, ok := code[0].in.(*ssa.Phi); ok {
				pi := -1
				for j, pr := range fr.block.Preds {
					if pr == fr.prev {
						pi = j
						break
					}
				}
				var tmp [16]Val
				vals := tmp[:0]
				for i < len(code) {
					if _, ok := code[i].in.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, fr.get(&code[i].ops[pi]))
					i++
				}
				for j, v := range vals {
					fr.regs[code[j].dst] = v
				}
			}
		}
		var next *ssa.BasicBlock
		for ; i < len(code); i++ {
			it.steps++
			ci := &code[i]
			switch in := ci.in.(type) {
			case *ssa.Jump:
				next = fr.block.Succs[0]
			case *ssa.If:
				if it.steps > it.maxSteps && it.initing == 0 {
					panic(pathEnd{"bound", "step bound exceeded in " + it.where()})
				}
				c := fr.get(&ci.ops[0])
				var t bool
				if b, ok := c.(bool); ok {
					t = b
				} else {
					fr.site = in.Pos()
					t = it.truth(c)
				}
				if t {
					next = fr.block.Succs[0]
				} else {
					next = fr.block.Succs[1]
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					r := make(tupleV, len(ci.ops))
					for j := range ci.ops {
						r[j] = fr.get(&ci.ops[j])
					}
					fr.result = r
				}
				return
			case *ssa.Panic:
				v := fr.get(&ci.ops[0]).(iface)
				panic(goPanic{v: v, pos: it.where()})
			default:
				it.exec(fr, ci)
			}
		}
		if it.steps > it.maxSteps && it.initing == 0 {
			panic(pathEnd{"bound", "step bound exceeded in " + it.where()})
		}
		if next == nil {
			panic("block fell through in " + fr.info.name)
		}
		fr.prev, fr.block = fr.block, next
	}
}
