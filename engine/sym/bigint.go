package sym

import (
	"go/token"
	"math/big"
)

const lssTok = token.LSS
const addTok = token.ADD

// math/big.Int is modelled by a mathematical integer kept in the abs field of the struct.
type bigCell struct{ t *Term }

func (it *Interp) bigGet(v Val) *Term {
	p := it.ptr(v)
	s, ok := (*p).(structV)
	if !ok {
		it.unsupported("big.Int of %T", *p)
	}
	switch x := s[1].(type) {
	case bigCell:
		return x.t
	case sliceV:
		if len(x.a) == 0 {
			return it.tb.Int(0)
		}
	}
	it.unsupported("big.Int with explicit words")
	return nil
}

func (it *Interp) bigSet(v Val, t *Term) Val {
	p := it.ptr(v)
	it.set(&(*p).(structV)[1], bigCell{t})
	return v
}

func (it *Interp) bigNew(t *Term) Val {
	return it.newPtr(structV{false, bigCell{t}})
}

func initBig() {
	B := "(*math/big.Int)."
	k64, u64 := intKind{64, true}, intKind{64, false}
	reg(func(it *Interp, a []Val) Val { return it.bigNew(it.term(a[0])) }, "math/big.NewInt")
	reg(func(it *Interp, a []Val) Val { return it.bigSet(a[0], it.term(a[1])) }, B+"SetInt64", B+"SetUint64")
	reg(func(it *Interp, a []Val) Val { return it.bigSet(a[0], it.bigGet(a[1])) }, B+"Set")
	bin := func(n string, f func(it *Interp, x, y *Term) *Term) {
		reg(func(it *Interp, a []Val) Val { return it.bigSet(a[0], f(it, it.bigGet(a[1]), it.bigGet(a[2]))) }, B+n)
	}
	bin("Add", func(it *Interp, x, y *Term) *Term { return it.tb.Add(x, y) })
	bin("Sub", func(it *Interp, x, y *Term) *Term { return it.tb.Sub(x, y) })
	bin("Mul", func(it *Interp, x, y *Term) *Term { return it.tb.Mul(x, y) })
	nz := func(it *Interp, y *Term) {
		if it.truth(boolVal(it.tb.Eq0(y))) {
			it.goPanicRT("division by zero")
		}
	}
	bin("Quo", func(it *Interp, x, y *Term) *Term { nz(it, y); return it.tquo(x, y) })
	bin("Rem", func(it *Interp, x, y *Term) *Term {
		nz(it, y)
		return it.tb.Sub(x, it.tb.Mul(it.tquo(x, y), y))
	})
	bin("Div", func(it *Interp, x, y *Term) *Term { nz(it, y); return it.tb.EDiv(x, y) })
	bin("Mod", func(it *Interp, x, y *Term) *Term {
		nz(it, y)
		if isConst(y) {
			return it.tb.Mod(x, new(big.Int).Abs(y.k))
		}
		return it.tb.Sub(x, it.tb.Mul(it.tb.EDiv(x, y), y))
	})
	reg(func(it *Interp, a []Val) Val {
		x, y := it.bigGet(a[1]), it.bigGet(a[2])
		nz(it, y)
		q := it.tquo(x, y)
		it.bigSet(a[3], it.tb.Sub(x, it.tb.Mul(q, y)))
		it.bigSet(a[0], q)
		return tupleV{a[0], a[3]}
	}, B+"QuoRem")
	reg(func(it *Interp, a []Val) Val {
		x, y := it.bigGet(a[1]), it.bigGet(a[2])
		nz(it, y)
		q := it.tb.EDiv(x, y)
		it.bigSet(a[3], it.tb.Sub(x, it.tb.Mul(q, y)))
		it.bigSet(a[0], q)
		return tupleV{a[0], a[3]}
	}, B+"DivMod")
	reg(func(it *Interp, a []Val) Val { return it.bigSet(a[0], it.tb.Neg(it.bigGet(a[1]))) }, B+"Neg")
	abs := func(it *Interp, x *Term) *Term {
		neg := it.tb.Lt(x, it.tb.Int(0))
		switch it.p.quick(neg) {
		case 0:
			return x
		case 1:
			return it.tb.Neg(x)
		}
		return it.tb.Ite(neg, it.tb.Neg(x), x)
	}
	reg(func(it *Interp, a []Val) Val { return it.bigSet(a[0], abs(it, it.bigGet(a[1]))) }, B+"Abs")
	cmp := func(it *Interp, x, y *Term) Val {
		tb := it.tb
		return it.fromTerm(tb.Ite(tb.Lt(x, y), tb.Int(-1), tb.Ite(tb.Le(x, y), tb.Int(0), tb.Int(1))), k64)
	}
	reg(func(it *Interp, a []Val) Val { return cmp(it, it.bigGet(a[0]), it.bigGet(a[1])) }, B+"Cmp")
	reg(func(it *Interp, a []Val) Val { return cmp(it, abs(it, it.bigGet(a[0])), abs(it, it.bigGet(a[1]))) }, B+"CmpAbs")
	reg(func(it *Interp, a []Val) Val { return cmp(it, it.bigGet(a[0]), it.tb.Int(0)) }, B+"Sign")
	reg(func(it *Interp, a []Val) Val { return it.wrap(it.bigGet(a[0]), k64) }, B+"Int64")
	reg(func(it *Interp, a []Val) Val { return it.wrap(it.bigGet(a[0]), u64) }, B+"Uint64")
	in := func(it *Interp, t *Term, k intKind) Val {
		return boolVal(it.tb.And(it.tb.Le(it.tb.Big(k.min()), t), it.tb.Le(t, it.tb.Big(k.max()))))
	}
	reg(func(it *Interp, a []Val) Val { return in(it, it.bigGet(a[0]), k64) }, B+"IsInt64")
	reg(func(it *Interp, a []Val) Val { return in(it, it.bigGet(a[0]), u64) }, B+"IsUint64")
	reg(func(it *Interp, a []Val) Val { return it.signedDecimal(it.bigGet(a[0])) }, B+"String")
	reg(func(it *Interp, a []Val) Val {
		n, ok := a[2].(uint64)
		if !ok {
			it.unsupported("symbolic shift of big.Int")
		}
		return it.bigSet(a[0], it.tb.MulK(it.bigGet(a[1]), new(big.Int).Lsh(bigOne, uint(n))))
	}, B+"Lsh")
	reg(func(it *Interp, a []Val) Val {
		n, ok := a[2].(uint64)
		if !ok {
			it.unsupported("symbolic shift of big.Int")
		}
		return it.bigSet(a[0], it.tb.Div(it.bigGet(a[1]), new(big.Int).Lsh(bigOne, uint(n))))
	}, B+"Rsh")
	intrinsics[B+"SetString"] = func(it *Interp, fr *frame, fi *fnInfo, a []Val) Val {
		base, _ := a[2].(int64)
		if s, ok := a[1].(string); ok {
			k, ok := new(big.Int).SetString(s, int(base))
			if !ok {
				return tupleV{(*Val)(nil), false}
			}
			it.bigSet(a[0], it.tb.Big(k))
			return tupleV{a[0], true}
		}
		if base != 10 {
			it.unsupported("big.Int.SetString in base %d", base)
		}
		b := strBytes(a[1])
		neg := false
		if len(b) > 0 {
			if it.truth(it.eq(b[0], uint64('-'))) {
				neg = true
				b = b[1:]
			} else if it.truth(it.eq(b[0], uint64('+'))) {
				b = b[1:]
			}
		}
		if len(b) == 0 {
			return tupleV{(*Val)(nil), false}
		}
		n := it.tb.Int(0)
		for _, c := range b {
			t := it.term(c)
			if !it.p.Decide(it.tb.And(it.tb.Le(it.tb.Int('0'), t), it.tb.Le(t, it.tb.Int('9')))) {
				return tupleV{(*Val)(nil), false}
			}
			n = it.tb.Add(it.tb.MulK(n, big.NewInt(10)), it.tb.AddK(t, big.NewInt(-'0')))
		}
		if neg {
			n = it.tb.Neg(n)
		}
		it.bigSet(a[0], n)
		return tupleV{a[0], true}
	}
}

// tquo is truncated division, resolving the dividend's sign first for a constant divisor.
func (it *Interp) tquo(x, y *Term) *Term {
	if isConst(y) && !isConst(x) {
		d := y.k
		neg := d.Sign() < 0
		if neg {
			d = new(big.Int).Neg(d)
		}
		var q *Term
		if it.p.Decide(it.tb.Le0(it.tb.Neg(x))) {
			q = it.tb.Div(x, d)
		} else {
			q = it.tb.Neg(it.tb.Div(it.tb.Neg(x), d))
		}
		if neg {
			q = it.tb.Neg(q)
		}
		return q
	}
	return it.tb.Quo(x, y)
}
