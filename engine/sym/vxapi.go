package sym

import (
	"golang.org/x/tools/go/ssa"

	"fmt"
	"math/big"
	"strings"
)

func (it *Interp) inName(name string) string {
	p := it.p
	n := p.inNames[name]
	p.inNames[name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

// byteVar is a symbolic byte restricted to an alphabet.
func (it *Interp) byteVar(name string, alphabet string) Val {
	if len(alphabet) == 0 {
		it.unsupported("empty alphabet")
	}
	lo, hi := 255, 0
	for i := 0; i < len(alphabet); i++ {
		c := int(alphabet[i])
		if c < lo {
			lo = c
		}
		if c > hi {
			hi = c
		}
	}
	if lo == hi {
		it.p.inputs = append(it.p.inputs, InputVar{Name: name, Conc: int64(lo)})
		return uint64(lo)
	}
	v := it.tb.Var(name, big.NewInt(int64(lo)), big.NewInt(int64(hi)), true)
	var s Set
	for i := 0; i < len(alphabet); i++ {
		s.add(int(alphabet[i]) - lo)
	}
	it.p.inputs = append(it.p.inputs, InputVar{Name: name, T: v})
	it.p.add(it.tb.InSet(v, s))
	return v
}

func initVX() {
	V := VXPath + "."
	reg(func(it *Interp, a []Val) Val {
		name := it.inName(goStr(it, a[0]))
		lo, hi := a[1].(int64), a[2].(int64)
		if lo == hi {
			it.p.inputs = append(it.p.inputs, InputVar{Name: name, Conc: lo})
			return lo
		}
		v := it.tb.Var(name, big.NewInt(lo), big.NewInt(hi), true)
		it.p.inputs = append(it.p.inputs, InputVar{Name: name, T: v})
		return v
	}, V+"Int64")
	reg(func(it *Interp, a []Val) Val {
		return it.byteVar(it.inName(goStr(it, a[0])), goStr(it, a[1]))
	}, V+"Byte")
	reg(func(it *Interp, a []Val) Val {
		name := it.inName(goStr(it, a[0]))
		n := int(a[1].(int64))
		b := make([]Val, n)
		for i := range b {
			b[i] = it.byteVar(fmt.Sprintf("%s[%d]", name, i), goStr(it, a[2]))
		}
		return mkStr(b)
	}, V+"String")
	reg(func(it *Interp, a []Val) Val {
		name := it.inName(goStr(it, a[0]))
		n := int(a[1].(int64))
		c := it.p.Choose(n)
		it.p.inputs = append(it.p.inputs, InputVar{Name: name, Conc: int64(c)})
		return int64(c)
	}, V+"Choose")
	reg(func(it *Interp, a []Val) Val {
		switch c := a[0].(type) {
		case bool:
			if !c {
				it.p.end("assume", "")
			}
		case *Term:
			it.p.Assume(c)
		}
		return nil
	}, V+"Assume")
	reg(func(it *Interp, a []Val) Val {
		label := goStr(it, a[1])
		it.w.labels[label]++
		switch c := a[0].(type) {
		case bool:
			it.w.obligations++
			it.w.triviallyDischarged++
			if !c {
				it.w.violation(label, "at "+it.where())
				it.p.end("violation", label)
			}
		case *Term:
			if ok, _ := it.p.Assert(c); !ok {
				it.w.violation(label, "at "+it.where())
				it.p.end("violation", label)
			}
		}
		return nil
	}, V+"Assert")
	reg(func(it *Interp, a []Val) Val {
		it.w.covers[goStr(it, a[0])]++
		return nil
	}, V+"Cover")
	reg(func(it *Interp, a []Val) Val {
		it.p.observed = append(it.p.observed, Obs{goStr(it, a[0]), copyVal(a[1])})
		return nil
	}, V+"Observe")
	reg(func(it *Interp, a []Val) Val { return int64(it.w.run.opt.Tier) }, V+"Tier")
	reg(func(it *Interp, a []Val) Val { it.mapOrder = a[0].(bool); return nil }, V+"MapOrder")
	reg(func(it *Interp, a []Val) Val {
		it.world.noExit = goStr(it, a[0])
		return nil
	}, V+"MustNotExit")
	reg(func(it *Interp, a []Val) Val { return "/vx" }, V+"Dir")
	addFile := func(it *Interp, f *vfile) Val {
		w := it.world
		for i, o := range w.files {
			if o.name == f.name {
				w.files = append(append(append([]*vfile{}, w.files[:i]...), f), w.files[i+1:]...)
				return f.name
			}
		}
		w.files = append(w.files, f)
		return f.name
	}
	reg(func(it *Interp, a []Val) Val {
		return addFile(it, &vfile{name: "/vx/" + goStr(it, a[0]), data: strBytes(a[1]), failAt: -1})
	}, V+"WriteFile")
	reg(func(it *Interp, a []Val) Val {
		n, ok := a[2].(int64)
		if !ok {
			k, ok2 := it.concInt(a[2], 0, int64(strLen(a[1])))
			if !ok2 {
				it.p.end("infeasible", "")
			}
			n = k
		}
		return addFile(it, &vfile{name: "/vx/" + goStr(it, a[0]), data: strBytes(a[1]), failAt: int(n)})
	}, V+"WriteFailing")
	reg(func(it *Interp, a []Val) Val {
		return addFile(it, &vfile{name: "/vx/" + goStr(it, a[0]), noOpen: 40, failAt: -1})
	}, V+"Unopenable")
	reg(func(it *Interp, a []Val) Val {
		return addFile(it, &vfile{name: "/vx/" + goStr(it, a[0]), dir: true, failAt: -1})
	}, V+"Mkdir")
	bt := func(it *Interp, v Val) *Term {
		if t, ok := v.(*Term); ok {
			return t
		}
		if v.(bool) {
			return it.tb.T
		}
		return it.tb.F
	}
	bterms := func(it *Interp, v Val) []*Term {
		var l []*Term
		for _, x := range v.(sliceV).a {
			l = append(l, bt(it, x))
		}
		return l
	}
	reg(func(it *Interp, a []Val) Val { return boolVal(it.tb.And(bterms(it, a[0])...)) }, V+"And")
	reg(func(it *Interp, a []Val) Val { return boolVal(it.tb.Or(bterms(it, a[0])...)) }, V+"Or")
	reg(func(it *Interp, a []Val) Val { return boolVal(it.tb.Not(bt(it, a[0]))) }, V+"Not")
	reg(func(it *Interp, a []Val) Val {
		return boolVal(it.tb.Or(it.tb.Not(bt(it, a[0])), bt(it, a[1])))
	}, V+"Imp")
	reg(func(it *Interp, a []Val) Val {
		x, y := bt(it, a[0]), bt(it, a[1])
		return boolVal(it.tb.And(it.tb.Or(it.tb.Not(x), y), it.tb.Or(it.tb.Not(y), x)))
	}, V+"Iff")
	reg(func(it *Interp, a []Val) Val {
		switch c := a[0].(type) {
		case bool:
			if c {
				return a[1]
			}
			return a[2]
		case *Term:
			return fromTerm(it.tb.Ite(c, it.term(a[1]), it.term(a[2])))
		}
		return nil
	}, V+"Ite")
	// Try runs f and reports whether it panicked.
	intrinsics[V+"Try"] = func(it *Interp, fr *frame, fi *fnInfo, a []Val) (res Val) {
		save := it.cur
		defer func() {
			if r := recover(); r != nil {
				if gp, ok := r.(goPanic); ok {
					_ = gp
					it.cur = save
					res = true
					return
				}
				panic(r)
			}
		}()
		it.call(fr, a[0], nil)
		return false
	}
	intrinsics[V+"Setenv"] = func(it *Interp, fr *frame, fi *fnInfo, a []Val) (res Val) {
		it.world.env[goStr(it, a[0])] = goStr(it, a[1])
		return nil
	}
	// RunMain runs the ledger command as a fresh process would, RunTool the other one.
	intrinsics[V+"RunMain"] = func(it *Interp, fr *frame, fi *fnInfo, a []Val) (res Val) {
		return runProgram(it, fr, a, it.eng.Main, "ledger")
	}
	intrinsics[V+"RunTool"] = func(it *Interp, fr *frame, fi *fnInfo, a []Val) (res Val) {
		if it.eng.Tool == nil {
			it.unsupported("no tool loaded")
		}
		return runProgram(it, fr, a, it.eng.Tool, "tool")
	}
}

func runProgram(it *Interp, fr *frame, a []Val, prog *ssa.Package, name string) Val {
	{
		args := []Val{name}
		for _, x := range a[0].(sliceV).a {
			args = append(args, x)
		}
		w := it.world
		saveOut, saveErr, saveNoExit, saveCur := w.out, w.err, w.noExit, it.cur
		w.out, w.err, w.noExit = nil, nil, ""
		// package state of the repository is that of a new process
		saved := map[interface{}]interface{}{}
		for g, p := range it.globals {
			if it.eng.eager(g.Pkg.Pkg.Path()) && !strings.Contains(g.Pkg.Pkg.Path(), "/zzvx") {
				saved[g] = p
				delete(it.globals, g)
			}
		}
		savedState := map[interface{}]int{}
		for p, s := range it.pkgState {
			if it.eng.eager(p.Pkg.Path()) && !strings.Contains(p.Pkg.Path(), "/zzvx") {
				savedState[p] = s
				delete(it.pkgState, p)
			}
		}
		restore := func() {
			for g := range it.globals {
				if it.eng.eager(g.Pkg.Pkg.Path()) && !strings.Contains(g.Pkg.Pkg.Path(), "/zzvx") {
					delete(it.globals, g)
				}
			}
			for p := range it.pkgState {
				if it.eng.eager(p.Pkg.Path()) && !strings.Contains(p.Pkg.Path(), "/zzvx") {
					delete(it.pkgState, p)
				}
			}
			for g, p := range saved {
				it.setGlobal(g, p)
			}
			for p, s := range savedState {
				it.setPkgState(p, s)
			}
			it.cur = saveCur
		}
		code := 0
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				switch e := r.(type) {
				case exitPanic:
					code = e.code
				case goPanic:
					code = 2
					w.err = append(w.err, strBytes("panic\n")...)
				default:
					restore()
					w.out, w.err, w.noExit = saveOut, saveErr, saveNoExit
					panic(r)
				}
			}()
			it.ensureInit(prog)
			argsCell := it.global(it.osArgs())
			it.set(argsCell, sliceV{args})
			it.callFn(fr, prog.Func("main"), nil, nil)
		}()
		restore()
		o := mkStr(append([]Val{}, w.out...))
		e := mkStr(append([]Val{}, w.err...))
		_ = e
		w.out, w.err, w.noExit = saveOut, saveErr, saveNoExit
		return tupleV{o, int64(code)}
	}
}

// fromTerm is the int64 value of an integer term known to be in range.
func fromTerm(t *Term) Val {
	if t.op == OConst {
		return t.k.Int64()
	}
	return t
}
