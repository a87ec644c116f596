package sym

import (
	"go/token"
	"math"
	"math/big"
	"sort"
)

// Floating point is abstracted over the reals: every operation on a value that depends on
// the input yields the exact real result plus an error term e with |e| <= 2^-53 |exact|
// (round to nearest, no underflow or overflow within the stated bounds). A property shown for
// every such e holds for the machine's results.

func (it *Interp) rterm(v Val) *Term {
	switch x := v.(type) {
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			it.unsupported("NaN or infinity in symbolic arithmetic")
		}
		return it.tb.Rat(new(big.Rat).SetFloat64(x))
	case *Term:
		if x.real {
			return x
		}
		return it.tb.ToReal(x)
	}
	it.unsupported("real of %T", v)
	return nil
}

func (it *Interp) rounded(exact *Term) *Term {
	if exact.op == OReal {
		f, _ := exact.rat.Float64()
		return it.tb.Rat(new(big.Rat).SetFloat64(f))
	}
	tb := it.tb
	it.p.fresh++
	e := tb.RVar("e" + itoa(it.p.fresh))
	u := tb.Rat(new(big.Rat).SetFrac(bigOne, new(big.Int).Lsh(bigOne, 53)))
	zero := tb.Rat(new(big.Rat))
	abs := tb.Ite(tb.rcmp(ORLe, zero, exact), exact, tb.RNeg(exact))
	b := tb.rbin(ORMul, u, abs)
	n := &errNote{bounds: []*Term{tb.rcmp(ORLe, e, b), tb.rcmp(ORLe, tb.RNeg(b), e)}}
	if a := it.p.realLin(exact); a != nil {
		if lo, hi := it.p.realIvl(a); lo != nil {
			m := new(big.Rat).Abs(lo)
			if h := new(big.Rat).Abs(hi); h.Cmp(m) > 0 {
				m = h
			}
			n.max = m.Mul(m, u.rat)
		}
	}
	it.p.errs[e.id] = n
	return tb.rbin(ORAdd, exact, e)
}

// errNote is what is known of an error term; its bounds become constraints once it takes part in a decision.
type errNote struct {
	bounds []*Term
	max    *big.Rat // constant bound of its magnitude, or nil
	used   bool
}

// useErrs adds the bounds of the error terms in c to the path.
func (p *Path) useErrs(c *Term) {
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.hasR || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == ORVar {
			if n := p.errs[t.id]; n != nil && !n.used {
				n.used = true
				for _, b := range n.bounds {
					walk(b)
					p.add(b)
				}
				p.modelOK = false
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(c)
}

// realLin is k + sum of coefficients times integer terms + error, |error| <= err.
type linReal struct {
	k   *big.Rat
	t   map[*Term]*big.Rat
	err *big.Rat
}

func (p *Path) realLin(t *Term) *linReal {
	switch t.op {
	case OReal:
		return &linReal{k: t.rat, t: map[*Term]*big.Rat{}, err: new(big.Rat)}
	case OToReal:
		r := &linReal{k: new(big.Rat), t: map[*Term]*big.Rat{}, err: new(big.Rat)}
		if x := t.args[0]; x.op == OLin {
			r.k = new(big.Rat).SetInt(x.k)
			for i, a := range x.args {
				r.t[a] = new(big.Rat).SetInt(x.coefs[i])
			}
		} else {
			r.t[x] = big.NewRat(1, 1)
		}
		return r
	case ORVar:
		if n := p.errs[t.id]; n != nil && n.max != nil {
			return &linReal{k: new(big.Rat), t: map[*Term]*big.Rat{}, err: n.max}
		}
	case ORNeg:
		return p.realLin(t.args[0]).times(big.NewRat(-1, 1))
	case ORMul:
		x, y := t.args[0], t.args[1]
		if x.op == OReal {
			x, y = y, x
		}
		if y.op == OReal {
			return p.realLin(x).times(y.rat)
		}
	case ORAdd:
		x, y := p.realLin(t.args[0]), p.realLin(t.args[1])
		if x == nil || y == nil {
			return nil
		}
		r := &linReal{k: new(big.Rat).Add(x.k, y.k), t: map[*Term]*big.Rat{}, err: new(big.Rat).Add(x.err, y.err)}
		for a, c := range x.t {
			r.t[a] = c
		}
		for a, c := range y.t {
			if o := r.t[a]; o != nil {
				c = new(big.Rat).Add(o, c)
			}
			r.t[a] = c
			if c.Sign() == 0 {
				delete(r.t, a)
			}
		}
		return r
	}
	return nil
}

func (r *linReal) times(f *big.Rat) *linReal {
	if r == nil {
		return nil
	}
	n := &linReal{k: new(big.Rat).Mul(r.k, f), t: map[*Term]*big.Rat{}, err: new(big.Rat).Mul(r.err, new(big.Rat).Abs(f))}
	if f.Sign() != 0 {
		for a, c := range r.t {
			n.t[a] = new(big.Rat).Mul(c, f)
		}
	}
	return n
}

// realIvl bounds r, or returns nil.
func (p *Path) realIvl(r *linReal) (lo, hi *big.Rat) {
	lo = new(big.Rat).Sub(r.k, r.err)
	hi = new(big.Rat).Add(r.k, r.err)
	for a, c := range r.t {
		l, h := p.ivl(a, 0)
		if l == nil || h == nil {
			return nil, nil
		}
		x, y := new(big.Rat).Mul(c, new(big.Rat).SetInt(l)), new(big.Rat).Mul(c, new(big.Rat).SetInt(h))
		if c.Sign() < 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return
}

// integral says that x is an integer term plus an error below one half, and which integer term.
func (p *Path) integral(x *Term) *Term {
	r := p.realLin(x)
	if r == nil || !r.k.IsInt() || r.err.Cmp(big.NewRat(1, 2)) >= 0 {
		return nil
	}
	var ts []*Term
	for a, c := range r.t {
		if !c.IsInt() {
			return nil
		}
		ts = append(ts, a)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var cs []*big.Int
	for _, a := range ts {
		cs = append(cs, r.t[a].Num())
	}
	return p.b.Lin(r.k.Num(), cs, ts)
}

func (it *Interp) intToReal(t *Term) Val {
	lim := new(big.Int).Lsh(bigOne, 53)
	lo, hi := it.p.ivl(t, 0)
	r := it.tb.ToReal(t)
	if lo != nil && hi != nil && new(big.Int).Abs(lo).Cmp(lim) <= 0 && new(big.Int).Abs(hi).Cmp(lim) <= 0 {
		return r
	}
	return it.rounded(r)
}

func (it *Interp) realOp(op token.Token, x, y *Term) Val {
	tb := it.tb
	switch op {
	case token.ADD:
		return it.rounded(tb.rbin(ORAdd, x, y))
	case token.SUB:
		return it.rounded(tb.rbin(ORAdd, x, tb.RNeg(y)))
	case token.MUL:
		if x.op != OReal && y.op != OReal {
			it.unsupported("product of two symbolic floats")
		}
		return it.rounded(tb.rbin(ORMul, x, y))
	case token.QUO:
		if y.op == OToReal {
			if n, ok := it.concInt(y.args[0], -1<<53, 1<<53); ok {
				y = tb.Rat(new(big.Rat).SetInt64(n))
			}
		}
		if y.op != OReal {
			it.unsupported("division by a symbolic float %v", y)
		}
		if y.rat.Sign() == 0 {
			it.unsupported("float division by zero")
		}
		return it.rounded(tb.rbin(ORMul, x, tb.Rat(new(big.Rat).Inv(y.rat))))
	case token.LSS:
		return boolVal(tb.rcmp(ORLt, x, y))
	case token.LEQ:
		return boolVal(tb.rcmp(ORLe, x, y))
	case token.GTR:
		return boolVal(tb.rcmp(ORLt, y, x))
	case token.GEQ:
		return boolVal(tb.rcmp(ORLe, y, x))
	}
	it.unsupported("float operation %s", op)
	return nil
}

// realToInt truncates towards zero.
func (it *Interp) realToInt(x *Term, k intKind) Val {
	tb := it.tb
	if x.op == OToReal {
		return it.wrap(x.args[0], k)
	}
	zero := tb.Rat(new(big.Rat))
	var r *Term
	if it.p.Decide(tb.rcmp(ORLe, zero, x)) {
		r = tb.Floor(x)
	} else {
		r = tb.Neg(tb.Floor(tb.RNeg(x)))
	}
	min, max := tb.Big(k.min()), tb.Big(k.max())
	if !it.p.Decide(tb.And(tb.Le(min, r), tb.Le(r, max))) {
		it.unsupported("float to integer conversion out of range")
	}
	return it.fromTerm(r, k)
}

// roundHalfAway is math.Round.
func (it *Interp) roundHalfAway(x *Term) *Term {
	tb := it.tb
	if i := it.p.integral(x); i != nil {
		return tb.ToReal(i)
	}
	zero, half := tb.Rat(new(big.Rat)), tb.Rat(big.NewRat(1, 2))
	if it.p.Decide(tb.rcmp(ORLe, zero, x)) {
		return tb.ToReal(tb.Floor(tb.rbin(ORAdd, x, half)))
	}
	return tb.ToReal(tb.Neg(tb.Floor(tb.rbin(ORAdd, tb.RNeg(x), half))))
}
