package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// symPtr is the address of an element selected by a symbolic index (in range on this path).
type symPtr struct {
	a   []Val
	idx *Term
}

type rangeIter struct {
	str  Val
	pos  int
	m    *mapV
	rest []*mapEntry
	nd   bool // nondeterministic order
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (it *Interp) nilDeref() {
	it.goPanicRT("invalid memory address or nil pointer dereference")
}

func (it *Interp) ptr(v Val) *Val {
	switch p := v.(type) {
	case *Val:
		if p == nil {
			it.nilDeref()
		}
		return p
	case symPtr:
		i, ok := it.concInt(p.idx, 0, int64(len(p.a))-1)
		if !ok {
			it.p.end("infeasible", "")
		}
		return &p.a[i]
	case nil:
		it.nilDeref()
	}
	it.unsupported("pointer of %T", v)
	return nil
}

// selectVal reads a[idx] for a symbolic idx known to be in range.
func (it *Interp) selectVal(a []Val, idx *Term) Val {
	lo, hi := 0, len(a)-1
	if l, h := it.p.ivl(idx, 0); l != nil && h != nil {
		if l.IsInt64() && l.Int64() > int64(lo) {
			lo = int(l.Int64())
		}
		if h.IsInt64() && h.Int64() < int64(hi) {
			hi = int(h.Int64())
		}
	}
	// only integers and booleans are merged
	for i := lo; i <= hi; i++ {
		switch a[i].(type) {
		case int64, uint64, bool:
			continue
		case *Term:
			if !a[i].(*Term).real {
				continue
			}
		}
		k, ok := it.concInt(idx, int64(lo), int64(hi))
		if !ok {
			it.p.end("infeasible", "")
		}
		return a[k]
	}
	groups := map[int][]int{}
	var order []int
	var terms = map[int]*Term{}
	for i := lo; i <= hi; i++ {
		t := it.term(a[i])
		if _, ok := groups[t.id]; !ok {
			order = append(order, t.id)
			terms[t.id] = t
		}
		groups[t.id] = append(groups[t.id], i)
	}
	// the largest group is the default
	best := order[0]
	for _, g := range order {
		if len(groups[g]) > len(groups[best]) {
			best = g
		}
	}
	r := terms[best]
	for _, g := range order {
		if g == best {
			continue
		}
		var cs []*Term
		l := groups[g]
		for j := 0; j < len(l); j++ {
			k := j
			for k+1 < len(l) && l[k+1] == l[k]+1 {
				k++
			}
			if j == k {
				cs = append(cs, it.tb.Eq(idx, it.tb.Int(int64(l[j]))))
			} else {
				cs = append(cs, it.tb.And(it.tb.Le(it.tb.Int(int64(l[j])), idx), it.tb.Le(idx, it.tb.Int(int64(l[k])))))
			}
			j = k
		}
		r = it.tb.Ite(it.tb.Or(cs...), terms[g], r)
	}
	switch a[lo].(type) {
	case bool:
		return boolVal(r)
	case int64:
		return it.fromTerm(r, intKind{64, true})
	}
	if r.isB {
		return boolVal(r)
	}
	if r.op == OConst {
		if _, ok := a[lo].(uint64); ok {
			return r.k.Uint64()
		}
		return r.k.Int64()
	}
	return r
}

func (it *Interp) inRange(x *Term, n int) bool {
	in := it.tb.And(it.tb.Le(it.tb.Int(0), x), it.tb.Lt(x, it.tb.Int(int64(n))))
	return it.p.Decide(in)
}

func (it *Interp) exec(fr *frame, ci *cinstr) {
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		fr.regs[ci.dst] = it.newCell(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Store:
		addr := fr.get(&ci.ops[0])
		v := fr.get(&ci.ops[1])
		if p, ok := addr.(*Val); ok && p != nil {
			it.store(p, v)
			return
		}
		it.store(it.ptr(addr), v)
	case *ssa.UnOp:
		fr.regs[ci.dst] = it.unop(fr, in, fr.get(&ci.ops[0]))
	case *ssa.BinOp:
		fr.regs[ci.dst] = it.binop(in, ci, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Call:
		fr.site = in.Pos()
		fr.regs[ci.dst] = it.doCall(fr, in.Common(), ci)
	case *ssa.Defer:
		fn, args := it.prepCall(fr, in.Common(), ci)
		fr.defers = &deferred{fn: fn, args: args, next: fr.defers}
	case *ssa.RunDefers:
		it.runDefers(fr)
		if fr.panicking {
			panic(fr.panicV)
		}
	case *ssa.Go:
		it.unsupported("go statement")
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		it.unsupported("channel operation")
	case *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = it.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = it.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		it.unsupported("slice to array pointer")
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = iface{in.X.Type(), fr.get(&ci.ops[0])}
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = it.typeAssert(in, fr.get(&ci.ops[0]).(iface))
	case *ssa.Extract:
		fr.regs[ci.dst] = fr.get(&ci.ops[0]).(tupleV)[in.Index]
	case *ssa.Field:
		fr.regs[ci.dst] = fr.get(&ci.ops[0]).(structV)[in.Field]
	case *ssa.FieldAddr:
		p := it.ptr(fr.get(&ci.ops[0]))
		s, ok := (*p).(structV)
		if !ok {
			it.unsupported("field of %T", *p)
		}
		fr.regs[ci.dst] = &s[in.Field]
	case *ssa.Index:
		x, i := fr.get(&ci.ops[0]), fr.get(&ci.ops[1])
		switch a := x.(type) {
		case arrayV:
			if t, ok := i.(*Term); ok {
				if !it.inRange(t, len(a)) {
					it.goPanicRT("index out of range")
				}
				fr.regs[ci.dst] = it.selectVal(a, t)
				return
			}
			fr.regs[ci.dst] = a[it.index(i, len(a))]
		case string, *symStr:
			n := strLen(x)
			if t, ok := i.(*Term); ok {
				if !it.inRange(t, n) {
					it.goPanicRT("index out of range")
				}
				fr.regs[ci.dst] = it.selectVal(strBytes(x), t)
				return
			}
			fr.regs[ci.dst] = strAt(x, it.index(i, n))
		default:
			it.unsupported("index of %T", x)
		}
	case *ssa.IndexAddr:
		x, i := fr.get(&ci.ops[0]), fr.get(&ci.ops[1])
		var a []Val
		switch s := x.(type) {
		case sliceV:
			a = s.a
		default:
			p := it.ptr(x)
			arr, ok := (*p).(arrayV)
			if !ok {
				it.unsupported("indexaddr of %T", *p)
			}
			a = arr
		}
		if t, ok := i.(*Term); ok {
			if !it.inRange(t, len(a)) {
				it.goPanicRT(fmt.Sprintf("index out of range with length %d", len(a)))
			}
			fr.regs[ci.dst] = symPtr{a, t}
			return
		}
		fr.regs[ci.dst] = &a[it.index(i, len(a))]
	case *ssa.Lookup:
		x, k := fr.get(&ci.ops[0]), fr.get(&ci.ops[1])
		switch m := x.(type) {
		case string, *symStr:
			n := strLen(x)
			if t, ok := k.(*Term); ok {
				if !it.inRange(t, n) {
					it.goPanicRT("index out of range")
				}
				fr.regs[ci.dst] = it.selectVal(strBytes(x), t)
				return
			}
			fr.regs[ci.dst] = strAt(x, it.index(k, n))
		case *mapV:
			it.hashable(k)
			e := it.mapFind(m, k)
			var v Val
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = it.zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				fr.regs[ci.dst] = tupleV{v, e != nil}
			} else {
				fr.regs[ci.dst] = v
			}
		default:
			it.unsupported("lookup in %T", x)
		}
	case *ssa.MapUpdate:
		m := fr.get(&ci.ops[0]).(*mapV)
		k := fr.get(&ci.ops[1])
		it.hashable(k)
		it.mapSet(m, k, copyVal(fr.get(&ci.ops[2])))
	case *ssa.Range:
		x := fr.get(&ci.ops[0])
		switch m := x.(type) {
		case string, *symStr:
			fr.regs[ci.dst] = &rangeIter{str: x}
		case *mapV:
			r := &rangeIter{m: m, nd: it.mapOrder && fr.info.repo}
			if m != nil {
				for _, e := range m.ents {
					if !e.deleted {
						r.rest = append(r.rest, e)
					}
				}
			}
			fr.regs[ci.dst] = r
		default:
			it.unsupported("range over %T", x)
		}
	case *ssa.Next:
		fr.regs[ci.dst] = it.next(fr.get(&ci.ops[0]).(*rangeIter), in)
	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap()
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		n := it.sizeArg(fr.get(&ci.ops[0]))
		c := it.sizeArg(fr.get(&ci.ops[1]))
		if n < 0 {
			it.goPanicRT("makeslice: len out of range")
		}
		if c < n {
			it.goPanicRT("makeslice: cap out of range")
		}
		fr.regs[ci.dst] = it.makeSlice(et, n, c)
	case *ssa.MakeClosure:
		env := make([]Val, len(ci.ops))
		for i := range ci.ops {
			env[i] = fr.get(&ci.ops[i])
		}
		fr.regs[ci.dst] = &closure{ci.fnv, env}
	case *ssa.Slice:
		fr.regs[ci.dst] = it.slice(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), fr.get(&ci.ops[2]), fr.get(&ci.ops[3]))
	default:
		it.unsupported("instruction %T", in)
	}
}

func (it *Interp) sizeArg(v Val) int {
	switch x := v.(type) {
	case int64:
		if x > 1<<26 {
			it.unsupported("allocation of %d elements", x)
		}
		return int(x)
	case uint64:
		if x > 1<<26 {
			it.unsupported("allocation of %d elements", x)
		}
		return int(x)
	}
	i, ok := it.concInt(v, -1, 4095)
	if !ok {
		it.unsupported("symbolic allocation size")
	}
	return int(i)
}

func (it *Interp) makeSlice(et types.Type, n, c int) sliceV {
	a := make([]Val, c)
	if c > 0 {
		z := it.zero(et)
		switch z.(type) {
		case structV, arrayV:
			for i := range a {
				a[i] = copyVal(z)
			}
		default:
			for i := range a {
				a[i] = z
			}
		}
	}
	return sliceV{a[:n]}
}

func (it *Interp) hashable(k Val) {
	if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
		it.goPanicRT("hash of unhashable type " + i.t.String())
	}
}

func (it *Interp) next(r *rangeIter, in *ssa.Next) Val {
	if in.IsString {
		n := strLen(r.str)
		if r.pos >= n {
			return tupleV{false, int64(0), int64(0)}
		}
		pos := r.pos
		rn, w := it.decodeRune(r.str, pos)
		old := r.pos
		r.pos += w
		it.trailFn(func() { r.pos = old })
		return tupleV{true, int64(pos), rn}
	}
	tt := in.Type().(*types.Tuple)
	for {
		// drop deleted entries; entries added during iteration are not visited
		live := r.rest[:0:0]
		for _, e := range r.rest {
			if !e.deleted {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			var kz, vz Val
			if tt.At(1).Type() != types.Typ[types.Invalid] {
				kz = it.zero(tt.At(1).Type())
			}
			if tt.At(2).Type() != types.Typ[types.Invalid] {
				vz = it.zero(tt.At(2).Type())
			}
			return tupleV{false, kz, vz}
		}
		i := 0
		if r.nd && len(live) > 1 {
			it.world.mapChoice = true
			i = it.p.Choose(len(live))
		}
		e := live[i]
		rest := append(append([]*mapEntry{}, live[:i]...), live[i+1:]...)
		old := r.rest
		r.rest = rest
		it.trailFn(func() { r.rest = old })
		return tupleV{true, e.k, copyVal(e.v)}
	}
}

// decodeRune decodes the rune at s[pos:].
func (it *Interp) decodeRune(s Val, pos int) (Val, int) {
	c := strAt(s, pos)
	switch x := c.(type) {
	case uint64:
		if x < utf8.RuneSelf {
			return int64(x), 1
		}
	case *Term:
		if it.p.Decide(it.tb.Lt(x, it.tb.Int(utf8.RuneSelf))) {
			return x, 1
		}
	}
	// the classes of RFC 3629: lead bytes with the range of the second byte
	n := strLen(s) - pos
	tb := it.tb
	in := func(v Val, lo, hi int64) bool {
		switch x := v.(type) {
		case uint64:
			return int64(x) >= lo && int64(x) <= hi
		case *Term:
			return it.p.Decide(tb.And(tb.Le(tb.Int(lo), x), tb.Le(x, tb.Int(hi))))
		}
		panic("decodeRune")
	}
	term := func(v Val) *Term {
		switch x := v.(type) {
		case uint64:
			return tb.Int(int64(x))
		case *Term:
			return x
		}
		panic("decodeRune")
	}
	for _, k := range []struct {
		lo, hi, lo2, hi2 int64
		size             int
	}{
		{0xC2, 0xDF, 0x80, 0xBF, 2}, {0xE0, 0xE0, 0xA0, 0xBF, 3}, {0xE1, 0xEC, 0x80, 0xBF, 3}, {0xED, 0xED, 0x80, 0x9F, 3},
		{0xEE, 0xEF, 0x80, 0xBF, 3}, {0xF0, 0xF0, 0x90, 0xBF, 4}, {0xF1, 0xF3, 0x80, 0xBF, 4}, {0xF4, 0xF4, 0x80, 0x8F, 4},
	} {
		if k.size > n || !in(c, k.lo, k.hi) {
			continue
		}
		if !in(strAt(s, pos+1), k.lo2, k.hi2) {
			break
		}
		lead := int64(0xC0)
		if k.size == 3 {
			lead = 0xE0
		} else if k.size == 4 {
			lead = 0xF0
		}
		r := tb.AddK(term(c), big.NewInt(-lead))
		ok := true
		for i := 1; i < k.size; i++ {
			x := strAt(s, pos+i)
			if i > 1 && !in(x, 0x80, 0xBF) {
				ok = false
				break
			}
			r = tb.Lin(big.NewInt(-0x80), []*big.Int{big.NewInt(64), big.NewInt(1)}, []*Term{r, term(x)})
		}
		if !ok {
			break
		}
		if r.op == OConst {
			return r.k.Int64(), k.size
		}
		return r, k.size
	}
	return int64(utf8.RuneError), 1
}

// slice implements s[lo:hi:max] for strings, slices and pointers to arrays.
func (it *Interp) slice(x, lo, hi, max Val) Val {
	bound := func(v Val, def, lim int) int {
		if v == nil {
			return def
		}
		switch y := v.(type) {
		case int64:
			if y < 0 || y > int64(lim) {
				it.goPanicRT(fmt.Sprintf("slice bounds out of range [%d] with length %d", y, lim))
			}
			return int(y)
		case uint64:
			if y > uint64(lim) {
				it.goPanicRT(fmt.Sprintf("slice bounds out of range [%d] with length %d", y, lim))
			}
			return int(y)
		}
		t := v.(*Term)
		in := it.tb.And(it.tb.Le(it.tb.Int(0), t), it.tb.Le(t, it.tb.Int(int64(lim))))
		if !it.p.Decide(in) {
			it.goPanicRT("slice bounds out of range")
		}
		i, ok := it.concInt(t, 0, int64(lim))
		if !ok {
			it.p.end("infeasible", "")
		}
		return int(i)
	}
	switch s := x.(type) {
	case string, *symStr:
		n := strLen(x)
		h := bound(hi, n, n)
		l := bound(lo, 0, h)
		return strSlice(x, l, h)
	case sliceV:
		m := bound(max, cap(s.a), cap(s.a))
		h := bound(hi, len(s.a), m)
		l := bound(lo, 0, h)
		if s.a == nil {
			return sliceV{}
		}
		return sliceV{s.a[l:h:m]}
	}
	p := it.ptr(x)
	a := []Val((*p).(arrayV))
	m := bound(max, len(a), len(a))
	h := bound(hi, len(a), m)
	l := bound(lo, 0, h)
	return sliceV{a[l:h:m]}
}

func (it *Interp) unop(fr *frame, in *ssa.UnOp, x Val) Val {
	switch in.Op {
	case token.MUL:
		switch p := x.(type) {
		case *Val:
			if p == nil {
				it.nilDeref()
			}
			return it.load(p)
		case symPtr:
			return it.selectVal(p.a, p.idx)
		}
		return it.load(it.ptr(x))
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *Term:
			return boolVal(it.tb.Not(b))
		}
	case token.SUB:
		switch f := x.(type) {
		case float64:
			return -f
		case *Term:
			if f.real {
				return it.tb.RNeg(f)
			}
		}
		k, ok := kindOf(in.X.Type())
		if !ok {
			it.unsupported("negation of %s", in.X.Type())
		}
		if u, ok := rawBits(x); ok {
			return k.norm(-u)
		}
		return it.wrap(it.tb.Neg(it.term(x)), k)
	case token.XOR:
		k, _ := kindOf(in.X.Type())
		if u, ok := rawBits(x); ok {
			return k.norm(^u)
		}
		t := it.term(x)
		if k.signed {
			return it.fromTerm(it.tb.Lin(bigMinusOne, []*big.Int{bigMinusOne}, []*Term{t}), k)
		}
		return it.fromTerm(it.tb.Lin(k.max(), []*big.Int{bigMinusOne}, []*Term{t}), k)
	case token.ARROW:
		it.unsupported("channel receive")
	}
	it.unsupported("unop %s on %T", in.Op, x)
	return nil
}

func (it *Interp) binop(in *ssa.BinOp, ci *cinstr, x, y Val) Val {
	switch in.Op {
	case token.EQL:
		return it.eq(x, y)
	case token.NEQ:
		switch b := it.eq(x, y).(type) {
		case bool:
			return !b
		case *Term:
			return boolVal(it.tb.Not(b))
		}
	}
	if ci.isInt {
		return it.intOp(in.Op, ci.k, x, y, in.Y.Type())
	}
	switch a := x.(type) {
	case float64:
		if b, ok := y.(float64); ok {
			if bt, ok := in.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
				return f32(floatOp(in.Op, a, b))
			}
			return floatOp(in.Op, a, b)
		}
		return it.realOp(in.Op, it.rterm(x), it.rterm(y))
	case *Term:
		if a.real {
			return it.realOp(in.Op, a, it.rterm(y))
		}
		if a.isB { // &, | on booleans do not occur; kept for &^ patterns
			it.unsupported("boolean binop %s", in.Op)
		}
	case string, *symStr:
		if in.Op == token.ADD {
			return strCat(x, y)
		}
		return it.strCmp(in.Op, x, y)
	case complex128:
		it.unsupported("complex arithmetic")
	}
	it.unsupported("binop %s on %T", in.Op, x)
	return nil
}

func f32(v Val) Val {
	if f, ok := v.(float64); ok {
		return float64(float32(f))
	}
	return v
}

func floatOp(op token.Token, a, b float64) Val {
	switch op {
	case token.ADD:
		return a + b
	case token.SUB:
		return a - b
	case token.MUL:
		return a * b
	case token.QUO:
		return a / b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic("floatOp")
}

// strCmp is byte-wise lexicographic comparison.
func (it *Interp) strCmp(op token.Token, x, y Val) Val {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			switch op {
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
	}
	switch op {
	case token.GTR:
		return it.strCmp(token.LSS, y, x)
	case token.GEQ:
		return it.strCmp(token.LEQ, y, x)
	}
	a, b := strBytes(x), strBytes(y)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	var r *Term
	if op == token.LSS {
		r = it.tb.Bool(len(a) < len(b))
	} else {
		r = it.tb.Bool(len(a) <= len(b))
	}
	for i := n - 1; i >= 0; i-- {
		s, t := it.term(a[i]), it.term(b[i])
		r = it.tb.Or(it.tb.Lt(s, t), it.tb.And(it.tb.Eq(s, t), r))
	}
	return boolVal(r)
}

func isPow2m1(k *big.Int) (uint, bool) { // k == 2^n - 1
	if k.Sign() < 0 {
		return 0, false
	}
	n := uint(k.BitLen())
	m := new(big.Int).Sub(new(big.Int).Lsh(bigOne, n), bigOne)
	return n, m.Cmp(k) == 0
}

func (it *Interp) intOp(op token.Token, k intKind, x, y Val, yt types.Type) Val {
	a, ok1 := rawBits(x)
	b, ok2 := rawBits(y)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return k.norm(a + b)
		case token.SUB:
			return k.norm(a - b)
		case token.MUL:
			return k.norm(a * b)
		case token.QUO, token.REM:
			if b == 0 {
				it.goPanicRT("integer divide by zero")
			}
			if k.signed {
				if int64(b) == -1 {
					if op == token.QUO {
						return k.norm(-a)
					}
					return int64(0)
				}
				if op == token.QUO {
					return k.norm(uint64(int64(a) / int64(b)))
				}
				return k.norm(uint64(int64(a) % int64(b)))
			}
			if op == token.QUO {
				return k.norm(a / b)
			}
			return k.norm(a % b)
		case token.AND:
			return k.norm(a & b)
		case token.OR:
			return k.norm(a | b)
		case token.XOR:
			return k.norm(a ^ b)
		case token.AND_NOT:
			return k.norm(a &^ b)
		case token.SHL, token.SHR:
			if ky, _ := kindOf(yt); ky.signed && int64(b) < 0 {
				it.goPanicRT("negative shift amount")
			}
			if op == token.SHL {
				if b >= 64 {
					return k.norm(0)
				}
				return k.norm(a << b)
			}
			if k.signed {
				if b >= 64 {
					b = 63
				}
				return k.norm(uint64(int64(a) >> b))
			}
			if b >= 64 {
				return k.norm(0)
			}
			return k.norm(a >> b)
		case token.LSS:
			if k.signed {
				return int64(a) < int64(b)
			}
			return a < b
		case token.LEQ:
			if k.signed {
				return int64(a) <= int64(b)
			}
			return a <= b
		case token.GTR:
			if k.signed {
				return int64(a) > int64(b)
			}
			return a > b
		case token.GEQ:
			if k.signed {
				return int64(a) >= int64(b)
			}
			return a >= b
		}
		panic("intOp " + op.String())
	}
	s, t := it.term(x), it.term(y)
	tb := it.tb
	switch op {
	case token.ADD:
		return it.wrap(tb.Add(s, t), k)
	case token.SUB:
		return it.wrap(tb.Sub(s, t), k)
	case token.MUL:
		return it.wrap(tb.Mul(s, t), k)
	case token.LSS:
		return boolVal(tb.Lt(s, t))
	case token.LEQ:
		return boolVal(tb.Le(s, t))
	case token.GTR:
		return boolVal(tb.Lt(t, s))
	case token.GEQ:
		return boolVal(tb.Le(t, s))
	case token.QUO, token.REM:
		if !isConst(t) {
			if it.p.Decide(tb.Eq0(t)) {
				it.goPanicRT("integer divide by zero")
			}
		} else if t.k.Sign() == 0 {
			it.goPanicRT("integer divide by zero")
		}
		// decide the sign of the dividend when it is cheap to know it
		if isConst(t) && t.k.Sign() > 0 {
			lo, hi := it.p.ivl(s, 0)
			if lo != nil && lo.Sign() >= 0 {
				if op == token.QUO {
					return it.fromTerm(tb.Div(s, t.k), k)
				}
				return it.fromTerm(tb.Mod(s, t.k), k)
			}
			if hi != nil && hi.Sign() <= 0 {
				q := tb.Neg(tb.Div(tb.Neg(s), t.k))
				if op == token.QUO {
					return it.fromTerm(q, k)
				}
				return it.fromTerm(tb.Neg(tb.Mod(tb.Neg(s), t.k)), k)
			}
			if it.p.Decide(tb.Le0(tb.Neg(s))) {
				if op == token.QUO {
					return it.fromTerm(tb.Div(s, t.k), k)
				}
				return it.fromTerm(tb.Mod(s, t.k), k)
			}
			if op == token.QUO {
				return it.fromTerm(tb.Neg(tb.Div(tb.Neg(s), t.k)), k)
			}
			return it.fromTerm(tb.Neg(tb.Mod(tb.Neg(s), t.k)), k)
		}
		q := tb.Quo(s, t)
		if op == token.QUO {
			return it.wrap(q, k)
		}
		return it.wrap(tb.Sub(s, tb.Mul(q, t)), k)
	case token.SHL:
		n, ok := it.shiftAmount(y, yt)
		if !ok {
			return it.zeroOf(k)
		}
		return it.wrap(tb.MulK(s, new(big.Int).Lsh(bigOne, n)), k)
	case token.SHR:
		n, ok := it.shiftAmount(y, yt)
		if !ok {
			if k.signed {
				return it.fromTerm(tb.Ite(tb.Lt(s, tb.Int(0)), tb.Int(-1), tb.Int(0)), k)
			}
			return it.zeroOf(k)
		}
		return it.fromTerm(tb.Div(s, new(big.Int).Lsh(bigOne, n)), k)
	case token.AND:
		if isConst(s) {
			s, t = t, s
		}
		if isConst(t) {
			if t.k.Sign() == 0 {
				return it.zeroOf(k)
			}
			if n, ok := isPow2m1(t.k); ok {
				return it.fromTerm(tb.Mod(s, new(big.Int).Lsh(bigOne, n)), k)
			}
			if t.k.Sign() > 0 || !k.signed {
				return it.fromTerm(it.maskAnd(s, t.k), k)
			}
			// negative mask -2^n: clear low bits
			nk := new(big.Int).Neg(t.k)
			if n := nk.TrailingZeroBits(); new(big.Int).Lsh(bigOne, n).Cmp(nk) == 0 {
				m := new(big.Int).Lsh(bigOne, n)
				return it.fromTerm(tb.MulK(tb.Div(s, m), m), k)
			}
		}
		return it.bitConc(op, k, s, t)
	case token.AND_NOT:
		if isConst(t) && t.k.Sign() >= 0 {
			return it.fromTerm(tb.Sub(s, it.maskAnd(s, t.k)), k)
		}
		return it.bitConc(op, k, s, t)
	case token.OR:
		if isConst(s) {
			s, t = t, s
		}
		if isConst(t) && t.k.Sign() >= 0 {
			return it.fromTerm(tb.Add(s, tb.Sub(t, it.maskAnd(s, t.k))), k)
		}
		// disjoint ranges: s multiple of 2^n and 0 <= t < 2^n
		if r := it.orDisjoint(s, t); r != nil {
			return it.fromTerm(r, k)
		}
		if r := it.orDisjoint(t, s); r != nil {
			return it.fromTerm(r, k)
		}
		return it.bitConc(op, k, s, t)
	case token.XOR:
		if isConst(s) {
			s, t = t, s
		}
		if isConst(t) && t.k.Sign() >= 0 {
			m := it.maskAnd(s, t.k)
			return it.fromTerm(tb.Add(s, tb.Sub(t, tb.MulK(m, big.NewInt(2)))), k)
		}
		return it.bitConc(op, k, s, t)
	}
	it.unsupported("symbolic integer operation %s", op)
	return nil
}

func (it *Interp) zeroOf(k intKind) Val {
	if k.signed {
		return int64(0)
	}
	return uint64(0)
}

// maskAnd is s & m for a constant non-negative m: the sum of the selected bit runs.
func (it *Interp) maskAnd(s *Term, m *big.Int) *Term {
	tb := it.tb
	r := tb.Int(0)
	n := m.BitLen()
	for i := 0; i < n; i++ {
		if m.Bit(i) == 0 {
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		// bits [i,j)
		part := tb.Mod(tb.Div(s, new(big.Int).Lsh(bigOne, uint(i))), new(big.Int).Lsh(bigOne, uint(j-i)))
		r = tb.Add(r, tb.MulK(part, new(big.Int).Lsh(bigOne, uint(i))))
		i = j
	}
	return r
}

func (it *Interp) orDisjoint(s, t *Term) *Term {
	lo, hi := it.p.ivl(t, 0)
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return nil
	}
	n := uint(hi.BitLen())
	m := new(big.Int).Lsh(bigOne, n)
	if it.tb.Mod(s, m).op == OConst && it.tb.Mod(s, m).k.Sign() == 0 {
		return it.tb.Add(s, t)
	}
	return nil
}

// bitConc performs a bit operation on operands with few values by concretising one of them.
func (it *Interp) bitConc(op token.Token, k intKind, s, t *Term) Val {
	sz := func(x *Term) *big.Int {
		lo, hi := it.p.ivl(x, 0)
		if lo == nil || hi == nil {
			return nil
		}
		return new(big.Int).Sub(hi, lo)
	}
	a, b := sz(s), sz(t)
	lim := big.NewInt(300)
	var pick *Term
	if a != nil && a.Cmp(lim) < 0 {
		pick = s
	}
	if b != nil && b.Cmp(lim) < 0 && (pick == nil || b.Cmp(a) < 0) {
		pick = t
	}
	if pick == nil && op == token.AND {
		// not modelled bit by bit: any value up to the smaller operand, which includes the right one
		slo, shi := it.p.ivl(s, 0)
		tlo, thi := it.p.ivl(t, 0)
		if slo != nil && shi != nil && tlo != nil && thi != nil && slo.Sign() >= 0 && tlo.Sign() >= 0 {
			if thi.Cmp(shi) < 0 {
				shi = thi
			}
			it.p.fresh++
			r := it.tb.Var("and"+itoa(it.p.fresh), big.NewInt(0), shi, false)
			it.p.Assume(it.tb.Le(r, s))
			it.p.Assume(it.tb.Le(r, t))
			return it.fromTerm(r, k)
		}
	}
	if pick == nil {
		it.unsupported("symbolic bit operation %s", op)
	}
	lo, hi := it.p.ivl(pick, 0)
	v, ok := it.concInt(pick, lo.Int64(), hi.Int64())
	if !ok {
		it.p.end("infeasible", "")
	}
	var c Val = uint64(v)
	if k.signed {
		c = v
	}
	if pick == s {
		return it.intOp(op, k, c, it.fromTerm(t, k), types.Typ[types.Int])
	}
	return it.intOp(op, k, it.fromTerm(s, k), c, types.Typ[types.Int])
}

func (it *Interp) shiftAmount(y Val, yt types.Type) (uint, bool) {
	var n int64
	switch v := y.(type) {
	case int64:
		n = v
	case uint64:
		if v > 64 {
			return 0, false
		}
		n = int64(v)
	case *Term:
		if it.p.Decide(it.tb.Lt(v, it.tb.Int(0))) {
			it.goPanicRT("negative shift amount")
		}
		if !it.p.Decide(it.tb.Lt(v, it.tb.Int(64))) {
			return 0, false
		}
		n, _ = it.concInt(v, 0, 63)
	}
	if n < 0 {
		it.goPanicRT("negative shift amount")
	}
	if n >= 64 {
		return 0, false
	}
	return uint(n), true
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (it *Interp) convert(from, to types.Type, x Val) Val {
	ft, tt := from.Underlying(), to.Underlying()
	if isString(tt) {
		switch {
		case isString(ft):
			return x
		case isByteSlice(ft):
			s := x.(sliceV)
			b := make([]Val, len(s.a))
			copy(b, s.a)
			return mkStr(b)
		case isRuneSlice(ft):
			var r Val = ""
			for _, c := range x.(sliceV).a {
				r = strCat(r, it.runeStr(c))
			}
			return r
		}
		if _, ok := kindOf(ft); ok {
			return it.runeStr(x)
		}
	}
	if isString(ft) {
		if isByteSlice(tt) {
			b := strBytes(x)
			c := roundCap(len(b), 1)
			if len(b) <= 32 {
				c = 32 // runtime uses a 32-byte buffer for small non-escaping strings; capacity is unspecified
				if len(b) == 0 {
					c = 0
				}
				c = roundCap(len(b), 1)
			}
			a := make([]Val, c)
			copy(a, b)
			for i := len(b); i < c; i++ {
				a[i] = uint64(0)
			}
			return sliceV{a[:len(b)]}
		}
		if isRuneSlice(tt) {
			var a = []Val{}
			for i := 0; i < strLen(x); {
				r, w := it.decodeRune(x, i)
				a = append(a, r)
				i += w
			}
			return sliceV{a[:len(a):len(a)]}
		}
	}
	if tk, ok := kindOf(tt); ok {
		if _, ok := kindOf(ft); ok {
			if u, ok := rawBits(x); ok {
				return tk.norm(u)
			}
			return it.wrap(it.term(x), tk)
		}
		if isFloat(ft) {
			if f, ok := x.(float64); ok {
				if tk.signed {
					return tk.norm(uint64(int64(f)))
				}
				return tk.norm(uint64(f))
			}
			return it.realToInt(x.(*Term), tk)
		}
		if b, ok := ft.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return uint64(0x1000) // an address; only compared with itself in library code
		}
	}
	if isFloat(tt) {
		f32k := tt.(*types.Basic).Kind() == types.Float32
		if fk, ok := kindOf(ft); ok {
			if u, ok := rawBits(x); ok {
				var f float64
				if fk.signed {
					f = float64(int64(u))
				} else {
					f = float64(u)
				}
				if f32k {
					f = float64(float32(f))
				}
				return f
			}
			return it.intToReal(it.term(x))
		}
		if isFloat(ft) {
			if f, ok := x.(float64); ok && f32k {
				return float64(float32(f))
			}
			return x
		}
	}
	if b, ok := tt.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	if b, ok := ft.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	it.unsupported("conversion %s -> %s", from, to)
	return nil
}

func (it *Interp) runeStr(x Val) Val {
	switch v := x.(type) {
	case int64:
		if v < 0 || v > utf8.MaxRune {
			v = utf8.RuneError
		}
		return string(rune(v))
	case uint64:
		if v > utf8.MaxRune {
			v = utf8.RuneError
		}
		return string(rune(v))
	case *Term:
		if it.p.Decide(it.tb.And(it.tb.Le(it.tb.Int(0), v), it.tb.Lt(v, it.tb.Int(utf8.RuneSelf)))) {
			return mkStr([]Val{v})
		}
		return mkStr(it.encodeRune(v))
	}
	it.unsupported("rune to string")
	return nil
}

// encodeRune is the UTF-8 encoding of a rune which is not below RuneSelf.
func (it *Interp) encodeRune(r *Term) []Val {
	tb := it.tb
	in := func(lo, hi int64) bool {
		return it.p.Decide(tb.And(tb.Le(tb.Int(lo), r), tb.Le(r, tb.Int(hi))))
	}
	low := func(t *Term) Val { return tb.AddK(tb.Mod(t, big.NewInt(64)), big.NewInt(0x80)) }
	shr := func(n int64) *Term { return tb.Div(r, big.NewInt(n)) }
	var b []Val
	switch {
	case in(0x80, 0x7FF):
		b = []Val{tb.AddK(shr(64), big.NewInt(0xC0)), low(r)}
	case in(0x800, 0xD7FF) || in(0xE000, 0xFFFF):
		b = []Val{tb.AddK(shr(4096), big.NewInt(0xE0)), low(shr(64)), low(r)}
	case in(0x10000, 0x10FFFF):
		b = []Val{tb.AddK(shr(1<<18), big.NewInt(0xF0)), low(shr(4096)), low(shr(64)), low(r)}
	default:
		return []Val{uint64(0xEF), uint64(0xBF), uint64(0xBD)}
	}
	for i, x := range b {
		if t := x.(*Term); t.op == OConst {
			b[i] = t.k.Uint64()
		}
	}
	return b
}

func (it *Interp) implements(t types.Type, i *types.Interface) bool {
	k := [2]types.Type{t, i}
	if r, ok := it.implc[k]; ok {
		return r
	}
	r := types.Implements(t, i)
	it.implc[k] = r
	return r
}

func (it *Interp) typeAssert(in *ssa.TypeAssert, x iface) Val {
	ok := false
	var v Val
	if it2, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && it.implements(x.t, it2) {
			ok = true
			v = x
		}
	} else if x.t != nil && (x.t == in.AssertedType || types.Identical(x.t, in.AssertedType)) {
		ok = true
		v = x.v
	}
	if in.CommaOk {
		if !ok {
			v = it.zero(in.AssertedType)
		}
		return tupleV{v, ok}
	}
	if !ok {
		d := "nil"
		if x.t != nil {
			d = x.t.String()
		}
		it.goPanicRT("interface conversion: interface is " + d + ", not " + in.AssertedType.String())
	}
	return v
}

func (it *Interp) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m}
	if f := it.methods[k]; f != nil {
		return f
	}
	it.eng.mu.Lock()
	ms := it.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	var f *ssa.Function
	if sel != nil {
		f = it.prog.MethodValue(sel)
	}
	it.eng.mu.Unlock()
	if f == nil {
		it.unsupported("method %s of %s", m.Name(), t)
	}
	it.methods[k] = f
	return f
}

// prepCall resolves callee and arguments.
func (it *Interp) prepCall(fr *frame, c *ssa.CallCommon, ci *cinstr) (Val, []Val) {
	if c.IsInvoke() {
		recv := fr.get(&ci.ops[0]).(iface)
		if recv.t == nil {
			it.nilDeref()
		}
		args := make([]Val, 0, len(ci.ops))
		args = append(args, recv.v)
		for i := 1; i < len(ci.ops); i++ {
			args = append(args, fr.get(&ci.ops[i]))
		}
		return it.findMethod(recv.t, c.Method), args
	}
	args := make([]Val, 0, len(ci.ops)-1)
	for i := 1; i < len(ci.ops); i++ {
		args = append(args, fr.get(&ci.ops[i]))
	}
	fn := fr.get(&ci.ops[0])
	if b, ok := fn.(*ssa.Builtin); ok {
		// deferred builtin
		return &hostFunc{b.Name(), func(it *Interp, args []Val) Val { return it.builtin(fr, b, c, args) }}, args
	}
	return fn, args
}

func (it *Interp) doCall(fr *frame, c *ssa.CallCommon, ci *cinstr) Val {
	if !c.IsInvoke() {
		switch f := c.Value.(type) {
		case *ssa.Builtin:
			args := make([]Val, 0, len(ci.ops)-1)
			for i := 1; i < len(ci.ops); i++ {
				args = append(args, fr.get(&ci.ops[i]))
			}
			return it.builtin(fr, f, c, args)
		case *ssa.Function:
			if ci.fn == nil {
				ci.fn = it.info(f)
			}
			args := make([]Val, len(ci.ops)-1)
			for i := range args {
				args[i] = fr.get(&ci.ops[i+1])
			}
			return it.callInfo(fr, ci.fn, args, nil)
		}
	}
	fn, args := it.prepCall(fr, c, ci)
	return it.call(fr, fn, args)
}

// Go's allocator size classes (bytes), used to reproduce the capacity append gives.
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundCap(n, es int) int {
	if es == 0 {
		return n
	}
	b := n * es
	if b <= 32768 {
		for _, c := range sizeClasses {
			if c >= b {
				return c / es
			}
		}
	}
	pg := 8192
	return (b + pg - 1) / pg * pg / es
}

func growCap(oldCap, newLen, es int) int {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	return roundCap(nc, es)
}

func (it *Interp) appendVals(et types.Type, s sliceV, add []Val) sliceV {
	n := len(s.a)
	if len(add) == 0 {
		return s
	}
	if n+len(add) <= cap(s.a) {
		r := s.a[: n+len(add) : cap(s.a)]
		// source may overlap the destination
		tmp := make([]Val, len(add))
		for i, v := range add {
			tmp[i] = copyVal(v)
		}
		for i, v := range tmp {
			it.store(&r[n+i], v)
		}
		return sliceV{r}
	}
	es := int(it.eng.sizes.Sizeof(et))
	c := growCap(cap(s.a), n+len(add), es)
	if c < n+len(add) {
		c = n + len(add)
	}
	a := make([]Val, c)
	for i := 0; i < n; i++ {
		a[i] = copyVal(s.a[i])
	}
	for i, v := range add {
		a[n+i] = copyVal(v)
	}
	if c > n+len(add) {
		z := it.zero(et)
		for i := n + len(add); i < c; i++ {
			a[i] = copyVal(z)
		}
	}
	return sliceV{a[:n+len(add)]}
}

func (it *Interp) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val) Val {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *symStr:
			return int64(strLen(x))
		case sliceV:
			return int64(len(x.a))
		case arrayV:
			return int64(len(x))
		case *mapV:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case *Val:
			if a, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				return a.Elem().Underlying().(*types.Array).Len()
			}
			if x == nil {
				return int64(0)
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case sliceV:
			return int64(cap(x.a))
		case arrayV:
			return int64(len(x))
		case *Val:
			if a, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				return a.Elem().Underlying().(*types.Array).Len()
			}
		}
	case "append":
		s := args[0].(sliceV)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			return s
		}
		switch y := args[1].(type) {
		case sliceV:
			return it.appendVals(et, s, y.a)
		case string, *symStr:
			return it.appendVals(et, s, strBytes(y))
		}
	case "copy":
		d := args[0].(sliceV)
		var src []Val
		switch y := args[1].(type) {
		case sliceV:
			src = y.a
		default:
			src = strBytes(y)
		}
		n := len(d.a)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Val, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i, v := range tmp {
			it.store(&d.a[i], v)
		}
		return int64(n)
	case "delete":
		it.mapDelete(args[0].(*mapV), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapV:
			if x != nil {
				for _, e := range x.ents {
					if !e.deleted {
						it.mapDelete(x, e.k)
					}
				}
			}
		case sliceV:
			z := it.zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := range x.a {
				it.store(&x.a[i], z)
			}
		}
		return nil
	case "panic":
		panic(goPanic{v: args[0].(iface), pos: it.where()})
	case "recover":
		// called from a deferred function: the panicking frame is the caller of this frame
		if f := fr.caller; f != nil && f.panicking {
			f.panicking = false
			f.recovered = true
			gp := f.panicV.(goPanic)
			f.panicV = nil
			return gp.v
		}
		return iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = it.minmax(b.Name() == "min", c.Args[0].Type(), r, a)
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Val); ok && p == nil {
			it.goPanicRT(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "String": // unsafe.String
		n := int(args[1].(int64))
		switch p := args[0].(type) {
		case slicePtr:
			b := make([]Val, n)
			copy(b, p.a[:n])
			return mkStr(b)
		case strPtr:
			return strSlice(p.s, 0, n)
		case *Val:
			if n == 0 {
				return ""
			}
			if n == 1 {
				return mkStr([]Val{*p})
			}
		}
	case "StringData":
		return strPtr{args[0]}
	case "SliceData":
		return slicePtr{args[0].(sliceV).a}
	case "Slice": // unsafe.Slice
		n := int(args[1].(int64))
		switch p := args[0].(type) {
		case slicePtr:
			return sliceV{p.a[:n:n]}
		case strPtr:
			b := append([]Val{}, strBytes(p.s)[:n]...)
			return sliceV{b}
		}
	case "Add":
	}
	it.unsupported("builtin %s on %T", b.Name(), args)
	return nil
}

func (it *Interp) minmax(min bool, t types.Type, x, y Val) Val {
	k, ok := kindOf(t)
	if !ok {
		if a, ok := x.(float64); ok {
			if b, ok := y.(float64); ok {
				if min == (a < b) {
					return a
				}
				return b
			}
		}
		it.unsupported("min/max on %s", t)
	}
	lt := it.intOp(token.LSS, k, x, y, t)
	if it.truth(lt) == min {
		return x
	}
	return y
}
