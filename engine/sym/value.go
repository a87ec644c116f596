package sym

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a run-time value:
//
//	signed ints: int64   unsigned ints, uintptr: uint64   symbolic ints: *Term (value of the type, as a mathematical integer)
//	bool: bool or *Term  string: string or *symStr        float: float64 or *Term (real)
//	pointer: *Val        struct: structV  array: arrayV    slice: sliceV
//	interface: iface     map: *mapV       func: *closure, *ssa.Function, *hostFunc, *ssa.Builtin
//	tuple: tupleV        unsafe.Pointer: whatever was converted
type Val interface{}

type structV []Val
type arrayV []Val
type tupleV []Val
type sliceV struct{ a []Val } // a == nil: nil slice
type symStr struct{ b []Val } // bytes: uint64 or *Term; at least one symbolic
type iface struct {
	t types.Type
	v Val
}
type closure struct {
	fn  *ssa.Function
	env []Val
}
type hostFunc struct {
	name string
	f    func(it *Interp, args []Val) Val
}
type slicePtr struct{ a []Val } // unsafe.SliceData result
type strPtr struct{ s Val }     // unsafe.StringData result

type mapEntry struct {
	k, v    Val
	deleted bool
}
type mapV struct {
	ents []*mapEntry
	idx  map[interface{}]*mapEntry // concrete keys
	n    int
	nsym int // live entries with symbolic keys
}

func strBytes(v Val) []Val {
	switch s := v.(type) {
	case string:
		b := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = uint64(s[i])
		}
		return b
	case *symStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes: %T", v))
}

func mkStr(b []Val) Val {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &symStr{b}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.(uint64))
	}
	return string(r)
}

func strLen(v Val) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *symStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen: %T", v))
}

func strAt(v Val, i int) Val {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *symStr:
		return s.b[i]
	}
	panic("strAt")
}

func strSlice(v Val, lo, hi int) Val {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *symStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

func strCat(a, b Val) Val {
	if x, ok := a.(string); ok {
		if x == "" {
			return b
		}
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Val, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return mkStr(r)
}

// integer kinds
type intKind struct {
	bits   uint
	signed bool
}

func kindOf(t types.Type) (intKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intKind{64, true}, true
	case types.Int8:
		return intKind{8, true}, true
	case types.Int16:
		return intKind{16, true}, true
	case types.Int32, types.UntypedRune:
		return intKind{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false}, true
	case types.Uint8:
		return intKind{8, false}, true
	case types.Uint16:
		return intKind{16, false}, true
	case types.Uint32:
		return intKind{32, false}, true
	}
	return intKind{}, false
}

func (k intKind) min() *big.Int {
	if !k.signed {
		return bigZero
	}
	return new(big.Int).Neg(new(big.Int).Lsh(bigOne, k.bits-1))
}
func (k intKind) max() *big.Int {
	b := k.bits
	if k.signed {
		b--
	}
	return new(big.Int).Sub(new(big.Int).Lsh(bigOne, b), bigOne)
}

// norm truncates raw 64 bits to the kind.
func (k intKind) norm(u uint64) Val {
	if k.signed {
		s := 64 - k.bits
		return int64(u<<s) >> s
	}
	s := 64 - k.bits
	return u << s >> s
}

func rawBits(v Val) (uint64, bool) {
	switch x := v.(type) {
	case int64:
		return uint64(x), true
	case uint64:
		return x, true
	}
	return 0, false
}

// term converts an int or bool value to a term.
func (it *Interp) term(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case int64:
		return it.tb.Int(x)
	case uint64:
		return it.tb.Big(new(big.Int).SetUint64(x))
	case bool:
		return it.tb.Bool(x)
	}
	it.unsupported("term of %T", v)
	return nil
}

// fromTerm converts a constant term back to a concrete value of kind k.
func (it *Interp) fromTerm(t *Term, k intKind) Val {
	if t.op == OConst {
		if k.signed {
			return t.k.Int64()
		}
		return t.k.Uint64()
	}
	return t
}

func boolVal(t *Term) Val {
	switch t.op {
	case OTrue:
		return true
	case OFalse:
		return false
	}
	return t
}

// wrap reduces a mathematical integer to kind k (two's complement).
func (it *Interp) wrap(t *Term, k intKind) Val {
	min, max := k.min(), k.max()
	if t.lo != nil && t.hi != nil && t.lo.Cmp(min) >= 0 && t.hi.Cmp(max) <= 0 {
		return it.fromTerm(t, k)
	}
	if lo, hi := it.p.ivl(t, 0); lo != nil && hi != nil && lo.Cmp(min) >= 0 && hi.Cmp(max) <= 0 {
		return it.fromTerm(t, k)
	}
	if !t.hasR {
		lo, hi := it.p.ivl(t, 0)
		m := new(big.Int).Lsh(bigOne, k.bits)
		if t.hasNL || lo != nil && hi != nil && new(big.Int).Add(lo, m).Cmp(min) >= 0 && new(big.Int).Sub(hi, m).Cmp(max) <= 0 {
			// keep mod away from products and quotients, and from what can wrap around once at most: whether it does is
			// decided when the value matters
			w := it.tb.Wrap(t, min, m)
			it.p.noteWrap(w)
			return w
		}
	}
	m := new(big.Int).Lsh(bigOne, k.bits)
	if !k.signed {
		return it.fromTerm(it.tb.Mod(t, m), k)
	}
	half := new(big.Int).Neg(min)
	r := it.tb.AddK(it.tb.Mod(it.tb.AddK(t, half), m), min)
	return it.fromTerm(r, k)
}

func (it *Interp) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return false
		case types.String, types.UntypedString:
			return ""
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.UnsafePointer:
			return (*Val)(nil)
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return complex128(0)
		case types.UntypedNil:
			return nil
		}
		k, ok := kindOf(t)
		if !ok {
			panic("zero: " + t.String())
		}
		if k.signed {
			return int64(0)
		}
		return uint64(0)
	case *types.Pointer:
		return (*Val)(nil)
	case *types.Struct:
		s := make(structV, u.NumFields())
		for i := range s {
			s[i] = it.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(arrayV, u.Len())
		if u.Len() > 0 {
			z := it.zero(u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Slice:
		return sliceV{}
	case *types.Interface:
		return iface{}
	case *types.Map:
		return (*mapV)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Chan:
		return (*Val)(nil)
	case *types.Tuple:
		s := make(tupleV, u.Len())
		for i := range s {
			s[i] = it.zero(u.At(i).Type())
		}
		return s
	}
	panic("zero: " + t.String())
}

func copyVal(v Val) Val {
	switch x := v.(type) {
	case structV:
		r := make(structV, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	case arrayV:
		r := make(arrayV, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	}
	return v
}

func isNilFunc(v Val) bool {
	switch f := v.(type) {
	case nil:
		return true
	case *ssa.Function:
		return f == nil
	case *closure:
		return f == nil
	case *hostFunc:
		return f == nil
	}
	return false
}

// eq compares two values of the same static type; result bool or *Term.
func (it *Interp) eq(x, y Val) Val {
	switch a := x.(type) {
	case int64:
		if b, ok := y.(int64); ok {
			return a == b
		}
		return boolVal(it.tb.Eq(it.term(x), it.term(y)))
	case uint64:
		if b, ok := y.(uint64); ok {
			return a == b
		}
		return boolVal(it.tb.Eq(it.term(x), it.term(y)))
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return boolVal(it.tb.Eq(it.term(x), it.term(y)))
	case *Term:
		if a.real {
			return boolVal(it.tb.rcmp(OREq, a, it.rterm(y)))
		}
		if t, ok := y.(*Term); ok && t.real {
			return boolVal(it.tb.rcmp(OREq, it.rterm(x), t))
		}
		return boolVal(it.tb.Eq(a, it.term(y)))
	case float64:
		if b, ok := y.(float64); ok {
			return a == b
		}
		return boolVal(it.tb.rcmp(OREq, it.rterm(x), it.rterm(y)))
	case complex128:
		return a == y.(complex128)
	case string, *symStr:
		if s, ok := x.(string); ok {
			if t, ok := y.(string); ok {
				return s == t
			}
		}
		if strLen(x) != strLen(y) {
			return false
		}
		b, c := strBytes(x), strBytes(y)
		var ts []*Term
		for i := range b {
			e := it.eq(b[i], c[i])
			if e == false {
				return false
			}
			if e != true {
				ts = append(ts, e.(*Term))
			}
		}
		return boolVal(it.tb.And(ts...))
	case *Val:
		b, ok := y.(*Val)
		return ok && a == b
	case structV:
		b := y.(structV)
		return it.eqAll(a, b)
	case arrayV:
		b := y.(arrayV)
		return it.eqAll(a, b)
	case iface:
		b := y.(iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t && !types.Identical(a.t, b.t) {
			return false
		}
		if !types.Comparable(a.t) {
			it.goPanicStr("comparing uncomparable type " + a.t.String())
		}
		return it.eq(a.v, b.v)
	case *mapV:
		b, _ := y.(*mapV)
		return a == b
	case sliceV:
		b := y.(sliceV)
		return a.a == nil && b.a == nil
	case *ssa.Function, *closure, *hostFunc:
		return isNilFunc(x) && isNilFunc(y)
	case nil:
		return y == nil
	}
	it.unsupported("eq of %T", x)
	return nil
}

func (it *Interp) eqAll(a, b []Val) Val {
	var ts []*Term
	for i := range a {
		e := it.eq(a[i], b[i])
		if e == false {
			return false
		}
		if e != true {
			ts = append(ts, e.(*Term))
		}
	}
	return boolVal(it.tb.And(ts...))
}

// mapKey returns a comparable host key for a concrete key.
func mapKey(v Val) (interface{}, bool) {
	switch x := v.(type) {
	case int64, uint64, bool, string, *Val, float64, *mapV, *hostFunc:
		return x, true
	case iface:
		if x.t == nil {
			return "nil-iface", true
		}
		k, ok := mapKey(x.v)
		if !ok {
			return nil, false
		}
		return [3]interface{}{"iface", typeKey(x.t), k}, true
	case structV:
		return seqKey("s", x)
	case arrayV:
		return seqKey("a", x)
	}
	return nil, false
}

var typeKeyCache = newSyncMap()

func typeKey(t types.Type) string {
	return typeKeyCache.get(t)
}

func seqKey(tag string, xs []Val) (interface{}, bool) {
	var k interface{} = tag
	for _, x := range xs {
		kx, ok := mapKey(x)
		if !ok {
			return nil, false
		}
		k = [2]interface{}{k, kx}
	}
	return k, true
}

func (it *Interp) mapFind(m *mapV, k Val) *mapEntry {
	if m == nil {
		return nil
	}
	hk, ok := mapKey(k)
	if ok {
		if e := m.idx[hk]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if ok {
			if _, conc := mapKey(e.k); conc {
				continue
			}
		}
		if it.truth(it.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (it *Interp) mapSet(m *mapV, k, v Val) {
	if m == nil {
		it.goPanicStr("assignment to entry in nil map")
	}
	if e := it.mapFind(m, k); e != nil {
		old := e.v
		it.trailFn(func() { e.v = old })
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	hk, ok := mapKey(k)
	m.ents = append(m.ents, e)
	m.n++
	if ok {
		m.idx[hk] = e
	} else {
		m.nsym++
	}
	n := len(m.ents)
	it.trailFn(func() {
		m.ents = m.ents[:n-1]
		m.n--
		if ok {
			delete(m.idx, hk)
		} else {
			m.nsym--
		}
	})
}

func (it *Interp) mapDelete(m *mapV, k Val) {
	e := it.mapFind(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	hk, ok := mapKey(e.k)
	if ok {
		delete(m.idx, hk)
	} else {
		m.nsym--
	}
	it.trailFn(func() {
		e.deleted = false
		m.n++
		if ok {
			m.idx[hk] = e
		} else {
			m.nsym++
		}
	})
}

func newMap() *mapV { return &mapV{idx: map[interface{}]*mapEntry{}} }

// show renders a value for diagnostics.
func show(v Val) string {
	switch x := v.(type) {
	case *symStr:
		var sb strings.Builder
		sb.WriteByte('"')
		for _, c := range x.b {
			if u, ok := c.(uint64); ok {
				sb.WriteByte(byte(u))
			} else {
				sb.WriteByte('?')
			}
		}
		sb.WriteByte('"')
		return sb.String()
	case *Term:
		return x.String()
	case iface:
		if x.t == nil {
			return "nil"
		}
		return x.t.String() + "(" + show(x.v) + ")"
	}
	return fmt.Sprintf("%v", v)
}
