// Package sym is a symbolic executor for Go SSA. term.go: hash-consed terms over
// mathematical integers and booleans (machine wrap-around is made explicit by the
// interpreter), with normalisation and interval information.
package sym

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // k
	OVar
	OLin  // k + sum coefs[i]*args[i]
	OMul  // args[0]*args[1], both non-constant
	ODiv  // floor(args[0] / k), k > 0
	OMod  // args[0] mod k, k > 0 (result in [0,k))
	OQuo  // truncated quotient args[0] / args[1] (args[1] != 0 on every path that builds it)
	OWrap // args[0] reduced to two's complement: k bits-modulus, coefs[0] minimum; resolved when it is used (Path.unwrap)
	OIte  // args[0] ? args[1] : args[2]
	OTrue // booleans
	OFalse
	OLe0 // args[0] <= 0
	OEq0 // args[0] == 0
	OAnd
	OOr
	ONot
	OInSet // args[0] is a small variable; its value is in set
	// reals (floating point abstraction)
	OReal   // rational constant
	OToReal // int -> real
	ORVar   // real variable (bounded error term)
	ORAdd   // a+b
	ORMul   // a*b
	ORDivC  // a / b
	OFloor  // real -> int floor
	ORLe    // a <= b
	ORLt    // a < b
	OREq    // a == b
	ORNeg   // -a
	ORIte   // ite on reals
	OAbsInvalid
)

type VarInfo struct {
	Name   string
	Lo, Hi *big.Int
	Small  bool // Hi-Lo < 256
	Input  bool // chosen by the harness (part of a replay), as opposed to derived
	Idx    int
}

type Set [4]uint64

func (s *Set) has(i int) bool { return s[i>>6]>>(uint(i)&63)&1 != 0 }
func (s *Set) add(i int)      { s[i>>6] |= 1 << (uint(i) & 63) }
func (s Set) and(t Set) Set {
	for i := range s {
		s[i] &= t[i]
	}
	return s
}
func (s Set) or(t Set) Set {
	for i := range s {
		s[i] |= t[i]
	}
	return s
}
func (s Set) empty() bool { return s == Set{} }

type Term struct {
	op    Op
	id    int
	args  []*Term
	coefs []*big.Int
	k     *big.Int
	rat   *big.Rat
	v     *VarInfo
	set   Set
	lo    *big.Int // static interval (nil: unbounded); ints only
	hi    *big.Int
	v1    *VarInfo // if exactly one variable occurs: that one
	nv    int      // 0, 1, 2 (= two or more)
	real  bool
	hasR  bool // reals occur inside
	hasNL bool // products or quotients of variables occur inside
	hasW  bool // unresolved wraps occur inside
	isB   bool
	lf    *linForm
}

// linForm says that a linear term is k + g * (a form with coprime coefficients, the first one positive).
type linForm struct {
	key string
	g   *big.Int
}

func (t *Term) IsBool() bool { return t.isB }

type termKey struct {
	op Op
	s  string
}

// TB builds and interns terms. Not safe for concurrent use: one per worker.
type TB struct {
	tab   map[termKey]*Term
	vars  map[string]*Term
	vlist []*Term
	canon map[int]*Term // results of canonSmall
	n     int
	T, F  *Term
}

func NewTB() *TB {
	b := &TB{tab: map[termKey]*Term{}, vars: map[string]*Term{}, canon: map[int]*Term{}}
	b.T = b.intern(&Term{op: OTrue, isB: true}, "")
	b.F = b.intern(&Term{op: OFalse, isB: true}, "")
	return b
}

func (b *TB) intern(t *Term, key string) *Term {
	k := termKey{t.op, key}
	if o, ok := b.tab[k]; ok {
		return o
	}
	t.id = b.n
	b.n++
	b.tab[k] = t
	if t.real || t.op >= OReal {
		t.hasR = true
	}
	t.hasNL = t.op == OMul || t.op == OQuo
	t.hasW = t.op == OWrap
	for _, a := range t.args {
		if a.hasR {
			t.hasR = true
		}
		if a.hasNL {
			t.hasNL = true
		}
		if a.hasW {
			t.hasW = true
		}
		if a.nv == 0 {
			continue
		}
		if t.nv == 0 {
			t.nv, t.v1 = a.nv, a.v1
		} else if a.nv == 2 || a.v1 != t.v1 {
			t.nv, t.v1 = 2, nil
		}
	}
	if t.op == OVar || t.op == ORVar {
		t.nv, t.v1 = 1, t.v
	}
	if t.nv == 2 {
		t.v1 = nil
	}
	return t
}

func ids(ts []*Term) string {
	var sb strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&sb, "%d,", t.id)
	}
	return sb.String()
}

var bigZero, bigOne, bigMinusOne = big.NewInt(0), big.NewInt(1), big.NewInt(-1)

func (b *TB) Big(k *big.Int) *Term {
	return b.intern(&Term{op: OConst, k: k, lo: k, hi: k}, k.String())
}
func (b *TB) Int(k int64) *Term { return b.Big(big.NewInt(k)) }
func (b *TB) Bool(v bool) *Term {
	if v {
		return b.T
	}
	return b.F
}

func (b *TB) Var(name string, lo, hi *big.Int, input bool) *Term {
	key := name + "|" + lo.String() + "|" + hi.String()
	if t, ok := b.vars[key]; ok {
		return t
	}
	d := new(big.Int).Sub(hi, lo)
	vi := &VarInfo{Name: name, Lo: lo, Hi: hi, Input: input, Idx: len(b.vlist)}
	vi.Small = d.IsInt64() && d.Int64() < 256
	t := b.intern(&Term{op: OVar, v: vi, lo: lo, hi: hi}, key)
	b.vars[key] = t
	b.vlist = append(b.vlist, t)
	return t
}

// RVar is a real variable in [-bound,bound] (rounding error of one operation).
func (b *TB) RVar(name string) *Term {
	key := name + "|R"
	if t, ok := b.vars[key]; ok {
		return t
	}
	vi := &VarInfo{Name: name, Idx: len(b.vlist)}
	t := b.intern(&Term{op: ORVar, v: vi, real: true}, key)
	b.vars[key] = t
	b.vlist = append(b.vlist, t)
	return t
}

func isConst(t *Term) bool { return t.op == OConst }

// Lin builds k + sum c_i*t_i in normal form.
func (b *TB) Lin(k *big.Int, cs []*big.Int, ts []*Term) *Term {
	type pr struct {
		t *Term
		c *big.Int
	}
	kk := new(big.Int).Set(k)
	m := map[int]int{}
	var l []pr
	var add func(c *big.Int, t *Term)
	add = func(c *big.Int, t *Term) {
		switch t.op {
		case OConst:
			kk.Add(kk, new(big.Int).Mul(c, t.k))
		case OLin:
			kk.Add(kk, new(big.Int).Mul(c, t.k))
			for i, a := range t.args {
				add(new(big.Int).Mul(c, t.coefs[i]), a)
			}
		default:
			if i, ok := m[t.id]; ok {
				l[i].c = new(big.Int).Add(l[i].c, c)
			} else {
				m[t.id] = len(l)
				l = append(l, pr{t, new(big.Int).Set(c)})
			}
		}
	}
	for i, t := range ts {
		add(cs[i], t)
	}
	n := 0
	for _, p := range l {
		if p.c.Sign() != 0 {
			l[n] = p
			n++
		}
	}
	l = l[:n]
	if n == 0 {
		return b.Big(kk)
	}
	if n == 1 && kk.Sign() == 0 && l[0].c.Cmp(bigOne) == 0 {
		return l[0].t
	}
	sort.Slice(l, func(i, j int) bool { return l[i].t.id < l[j].t.id })
	t := &Term{op: OLin, k: kk}
	var sb strings.Builder
	sb.WriteString(kk.String())
	lo, hi := new(big.Int).Set(kk), new(big.Int).Set(kk)
	okL, okH := true, true
	for _, p := range l {
		t.args = append(t.args, p.t)
		t.coefs = append(t.coefs, p.c)
		fmt.Fprintf(&sb, ";%s*%d", p.c.String(), p.t.id)
		a, c := p.t.lo, p.t.hi
		if p.c.Sign() < 0 {
			a, c = c, a
		}
		if a == nil {
			okL = false
		} else if okL {
			lo.Add(lo, new(big.Int).Mul(p.c, a))
		}
		if c == nil {
			okH = false
		} else if okH {
			hi.Add(hi, new(big.Int).Mul(p.c, c))
		}
	}
	if okL {
		t.lo = lo
	}
	if okH {
		t.hi = hi
	}
	return b.intern(t, sb.String())
}

// form is the linear form of a sum of two or more terms, nil for others.
func (t *Term) form() *linForm {
	if t.op != OLin || len(t.args) < 2 {
		return nil
	}
	if t.lf == nil {
		g := new(big.Int).Abs(t.coefs[0])
		for _, c := range t.coefs[1:] {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if t.coefs[0].Sign() < 0 {
			g.Neg(g)
		}
		var sb strings.Builder
		for i, a := range t.args {
			fmt.Fprintf(&sb, "%d*%s,", a.id, new(big.Int).Quo(t.coefs[i], g).String())
		}
		t.lf = &linForm{sb.String(), g}
	}
	return t.lf
}

func (b *TB) Add(x, y *Term) *Term {
	return b.Lin(bigZero, []*big.Int{bigOne, bigOne}, []*Term{x, y})
}
func (b *TB) Sub(x, y *Term) *Term {
	return b.Lin(bigZero, []*big.Int{bigOne, bigMinusOne}, []*Term{x, y})
}
func (b *TB) Neg(x *Term) *Term {
	return b.Lin(bigZero, []*big.Int{bigMinusOne}, []*Term{x})
}
func (b *TB) MulK(x *Term, k *big.Int) *Term {
	return b.Lin(bigZero, []*big.Int{k}, []*Term{x})
}
func (b *TB) AddK(x *Term, k *big.Int) *Term {
	return b.Lin(k, []*big.Int{bigOne}, []*Term{x})
}

func ivlMul(alo, ahi, blo, bhi *big.Int) (lo, hi *big.Int) {
	if alo == nil || ahi == nil || blo == nil || bhi == nil {
		return nil, nil
	}
	for _, x := range []*big.Int{alo, ahi} {
		for _, y := range []*big.Int{blo, bhi} {
			p := new(big.Int).Mul(x, y)
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	return
}

func (b *TB) Mul(x, y *Term) *Term {
	if isConst(x) {
		return b.MulK(y, x.k)
	}
	if isConst(y) {
		return b.MulK(x, y.k)
	}
	// pull out a common constant factor of a linear term without offset: (c*a)*y = c*(a*y)
	if x.op == OLin && x.k.Sign() == 0 && len(x.args) == 1 {
		return b.MulK(b.Mul(x.args[0], y), x.coefs[0])
	}
	if y.op == OLin && y.k.Sign() == 0 && len(y.args) == 1 {
		return b.MulK(b.Mul(x, y.args[0]), y.coefs[0])
	}
	if x.op == OLin && len(x.args) <= 4 {
		// distribute, so that equal products are recognised
		r := b.MulK(y, x.k)
		for i, a := range x.args {
			r = b.Add(r, b.MulK(b.Mul(a, y), x.coefs[i]))
		}
		return r
	}
	if y.op == OLin && len(y.args) <= 4 {
		return b.Mul(y, x)
	}
	if x.id > y.id {
		x, y = y, x
	}
	t := &Term{op: OMul, args: []*Term{x, y}}
	t.lo, t.hi = ivlMul(x.lo, x.hi, y.lo, y.hi)
	if x == y {
		if t.lo == nil || t.lo.Sign() < 0 {
			t.lo = bigZero
		}
	}
	return b.intern(t, ids(t.args))
}

func floorDiv(a, m *big.Int) *big.Int { // m > 0
	q, r := new(big.Int), new(big.Int)
	q.DivMod(a, m, r) // Euclidean == floor for m > 0
	return q
}

// splitMod splits t = m*A + B with the constant of B in [0,m).
func (b *TB) splitMod(t *Term, m *big.Int) (A, B *Term) {
	if t.op != OLin {
		return b.Int(0), t
	}
	var ac, bc []*big.Int
	var at, bt []*Term
	for i, a := range t.args {
		q, r := new(big.Int), new(big.Int)
		q.QuoRem(t.coefs[i], m, r)
		if r.Sign() == 0 {
			ac = append(ac, q)
			at = append(at, a)
		} else {
			bc = append(bc, t.coefs[i])
			bt = append(bt, a)
		}
	}
	if len(at) == 0 && t.k.Sign() >= 0 && t.k.Cmp(m) < 0 {
		return b.Int(0), t
	}
	q, r := new(big.Int), new(big.Int)
	q.DivMod(t.k, m, r)
	A = b.Lin(q, ac, at)
	B = b.Lin(r, bc, bt)
	return
}

func (b *TB) Div(x *Term, m *big.Int) *Term { // floor, m > 0
	if m.Cmp(bigOne) == 0 {
		return x
	}
	if isConst(x) {
		return b.Big(floorDiv(x.k, m))
	}
	A, B := b.splitMod(x, m)
	if A.op == OConst && A.k.Sign() == 0 {
		// nothing to split off: canonicalise by shifting whole interval
		if B.lo != nil && B.hi != nil {
			l, h := floorDiv(B.lo, m), floorDiv(B.hi, m)
			if l.Cmp(h) == 0 {
				return b.Big(l)
			}
		}
		// common factor of all coefficients and m
		if B.op == OLin {
			g := new(big.Int).Set(m)
			for _, c := range B.coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if g.Cmp(bigOne) > 0 {
				// floor((g*L + k)/ (g*m')) = floor((L + floor(k/g))/m')
				cs := make([]*big.Int, len(B.coefs))
				for i, c := range B.coefs {
					cs[i] = new(big.Int).Quo(c, g)
				}
				return b.Div(b.Lin(floorDiv(B.k, g), cs, B.args), new(big.Int).Quo(m, g))
			}
		}
		if B.op == ODiv {
			return b.Div(B.args[0], new(big.Int).Mul(B.k, m))
		}
		t := &Term{op: ODiv, args: []*Term{B}, k: m}
		if B.lo != nil {
			t.lo = floorDiv(B.lo, m)
		}
		if B.hi != nil {
			t.hi = floorDiv(B.hi, m)
		}
		return b.intern(t, fmt.Sprintf("%d/%s", B.id, m))
	}
	return b.Add(A, b.Div(B, m))
}

func (b *TB) Mod(x *Term, m *big.Int) *Term {
	if isConst(x) {
		return b.Big(new(big.Int).Mod(x.k, m))
	}
	_, B := b.splitMod(x, m)
	if isConst(B) {
		return b.Big(new(big.Int).Mod(B.k, m))
	}
	if B.lo != nil && B.hi != nil {
		l, h := floorDiv(B.lo, m), floorDiv(B.hi, m)
		if l.Cmp(h) == 0 {
			return b.AddK(B, new(big.Int).Neg(new(big.Int).Mul(l, m)))
		}
	}
	t := &Term{op: OMod, args: []*Term{B}, k: m, lo: bigZero, hi: new(big.Int).Sub(m, bigOne)}
	return b.intern(t, fmt.Sprintf("%d%%%s", B.id, m))
}

// Quo is truncated division (Go's / and big.Int.Quo). The divisor is non-zero on the path.
func (b *TB) Quo(x, y *Term) *Term {
	if isConst(y) {
		if y.k.Sign() < 0 {
			return b.Neg(b.Quo(x, b.Big(new(big.Int).Neg(y.k))))
		}
		if isConst(x) {
			return b.Big(new(big.Int).Quo(x.k, y.k))
		}
		if x.lo != nil && x.lo.Sign() >= 0 {
			return b.Div(x, y.k)
		}
		if x.hi != nil && x.hi.Sign() <= 0 {
			return b.Neg(b.Div(b.Neg(x), y.k))
		}
		return b.Ite(b.Le0(b.Neg(x)), b.Div(x, y.k), b.Neg(b.Div(b.Neg(x), y.k)))
	}
	t := &Term{op: OQuo, args: []*Term{x, y}}
	if x.lo != nil && x.hi != nil {
		m := new(big.Int).Abs(x.lo)
		if h := new(big.Int).Abs(x.hi); h.Cmp(m) > 0 {
			m = h
		}
		t.lo, t.hi = new(big.Int).Neg(m), m
		if x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() >= 0 {
			t.lo = bigZero
		}
	}
	return b.intern(t, ids(t.args))
}

// EDiv is Euclidean division (big.Int.Div): remainder in [0,|y|).
func (b *TB) EDiv(x, y *Term) *Term {
	if isConst(y) {
		if y.k.Sign() > 0 {
			return b.Div(x, y.k)
		}
		return b.Neg(b.Div(x, new(big.Int).Neg(y.k)))
	}
	q := b.Quo(x, y)
	r := b.Sub(x, b.Mul(q, y)) // |r|<|y|, sign of x
	// r < 0: adjust q by -sign(y)
	return b.Ite(b.Lt(r, b.Int(0)), b.Ite(b.Lt(b.Int(0), y), b.AddK(q, bigMinusOne), b.AddK(q, bigOne)), q)
}

// Wrap is x reduced to an integer kind with minimum min and modulus m, as a term of its own.
func (b *TB) Wrap(x *Term, min, m *big.Int) *Term {
	t := &Term{op: OWrap, args: []*Term{x}, k: m, coefs: []*big.Int{min}, lo: min}
	t.hi = new(big.Int).Add(min, new(big.Int).Sub(m, bigOne))
	return b.intern(t, ids(t.args)+"/"+min.String()+"/"+m.String())
}

func (b *TB) modWrap(x, min, m *big.Int) *big.Int {
	r := new(big.Int).Sub(x, min)
	return r.Add(r.Mod(r, m), min)
}

// ModWrap is the same by modular arithmetic.
func (b *TB) ModWrap(x *Term, min, m *big.Int) *Term {
	return b.AddK(b.Mod(b.AddK(x, new(big.Int).Neg(min)), m), min)
}

// replace rebuilds t with the terms of sub in place of those they stand for.
func (b *TB) replace(t *Term, sub map[int]*Term, memo map[int]*Term) *Term {
	if !t.hasW {
		return t
	}
	if r, ok := sub[t.id]; ok {
		return r
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		as[i] = b.replace(a, sub, memo)
		same = same && as[i] == a
	}
	r := t
	if !same {
		switch t.op {
		case OLin:
			r = b.Lin(t.k, t.coefs, as)
		case OMul:
			r = b.Mul(as[0], as[1])
		case ODiv:
			r = b.Div(as[0], t.k)
		case OMod:
			r = b.Mod(as[0], t.k)
		case OQuo:
			r = b.Quo(as[0], as[1])
		case OWrap:
			r = b.Wrap(as[0], t.coefs[0], t.k)
		case OIte, ORIte:
			r = b.Ite(as[0], as[1], as[2])
		case OLe0:
			r = b.Le0(as[0])
		case OEq0:
			r = b.Eq0(as[0])
		case OAnd:
			r = b.And(as...)
		case OOr:
			r = b.Or(as...)
		case ONot:
			r = b.Not(as[0])
		case OToReal:
			r = b.ToReal(as[0])
		case ORAdd, ORMul, ORDivC:
			r = b.rbin(t.op, as[0], as[1])
		case ORLe, ORLt, OREq:
			r = b.rcmp(t.op, as[0], as[1])
		case ORNeg:
			r = b.RNeg(as[0])
		case OFloor:
			r = b.Floor(as[0])
		}
	}
	memo[t.id] = r
	return r
}

func (b *TB) Ite(c, x, y *Term) *Term {
	if c == b.T || x == y {
		return x
	}
	if c == b.F {
		return y
	}
	if x.isB {
		return b.Or(b.And(c, x), b.And(b.Not(c), y))
	}
	t := &Term{op: OIte, args: []*Term{c, x, y}}
	if x.real || y.real {
		t.op = ORIte
		t.real = true
		return b.intern(t, ids(t.args))
	}
	if x.lo != nil && y.lo != nil {
		t.lo = x.lo
		if y.lo.Cmp(t.lo) < 0 {
			t.lo = y.lo
		}
	}
	if x.hi != nil && y.hi != nil {
		t.hi = x.hi
		if y.hi.Cmp(t.hi) > 0 {
			t.hi = y.hi
		}
	}
	return b.intern(t, ids(t.args))
}

// canonSmall turns a boolean over one small variable into a set membership.
func (b *TB) canonSmall(t *Term) *Term {
	if t.nv != 1 || t.v1 == nil || !t.v1.Small || t.op == OInSet || t.hasR {
		return t
	}
	if r, ok := b.canon[t.id]; ok {
		return r
	}
	vi := t.v1
	n := int(new(big.Int).Sub(vi.Hi, vi.Lo).Int64()) + 1
	var s Set
	if k, c, ok := smallLin(t); ok {
		// k + c*v compared with zero
		lo := vi.Lo.Int64()
		for i := 0; i < n; i++ {
			r := k + c*(lo+int64(i))
			if r == 0 || t.op == OLe0 && r < 0 {
				s.add(i)
			}
		}
		r := b.InSet(b.vlist[vi.Idx], s)
		b.canon[t.id] = r
		return r
	}
	for i := 0; i < n; i++ {
		x := new(big.Int).Add(vi.Lo, big.NewInt(int64(i)))
		if evalBool(t, func(*VarInfo) *big.Int { return x }) {
			s.add(i)
		}
	}
	r := b.InSet(b.vlist[vi.Idx], s)
	b.canon[t.id] = r
	return r
}

// smallLin says that t compares k + c*v with zero, for a variable v and numbers whose products fit.
func smallLin(t *Term) (k, c int64, ok bool) {
	if t.op != OLe0 && t.op != OEq0 || !t.v1.Lo.IsInt64() || t.v1.Lo.BitLen() > 30 {
		return 0, 0, false
	}
	a := t.args[0]
	if a.op == OVar {
		return 0, 1, true
	}
	if a.op != OLin || len(a.args) != 1 || a.args[0].op != OVar || a.k.BitLen() > 30 || a.coefs[0].BitLen() > 30 {
		return 0, 0, false
	}
	return a.k.Int64(), a.coefs[0].Int64(), true
}

func fullSet(vi *VarInfo) Set {
	n := int(new(big.Int).Sub(vi.Hi, vi.Lo).Int64()) + 1
	var s Set
	for i := 0; i < n; i++ {
		s.add(i)
	}
	return s
}

func (b *TB) InSet(v *Term, s Set) *Term {
	f := fullSet(v.v)
	s = s.and(f)
	if s.empty() {
		return b.F
	}
	if s == f {
		return b.T
	}
	return b.intern(&Term{op: OInSet, isB: true, args: []*Term{v}, set: s}, fmt.Sprintf("%d:%x", v.id, s))
}

// constIte says that t is a tree of conditionals over constants.
func constIte(t *Term) bool {
	return t.op == OConst || t.op == OIte && constIte(t.args[1]) && constIte(t.args[2])
}

// overIte applies f to the leaves of k + cf*t.
func (b *TB) overIte(t *Term, k, cf *big.Int, f func(*Term) *Term) *Term {
	if t.op == OConst {
		v := new(big.Int).Mul(cf, t.k)
		return f(b.Big(v.Add(v, k)))
	}
	return b.Ite(t.args[0], b.overIte(t.args[1], k, cf, f), b.overIte(t.args[2], k, cf, f))
}

func (b *TB) pushIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte && constIte(t) {
		return b.overIte(t, bigZero, bigOne, f)
	}
	if t.op == OLin && len(t.args) == 1 && t.args[0].op == OIte && constIte(t.args[0]) {
		return b.overIte(t.args[0], t.k, t.coefs[0], f)
	}
	return nil
}

func (b *TB) Le0(t *Term) *Term {
	if r := b.pushIte(t, b.Le0); r != nil {
		return r
	}
	if t.hi != nil && t.hi.Sign() <= 0 {
		return b.T
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return b.F
	}
	if t.op == OLin {
		g := new(big.Int)
		for _, c := range t.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			// g*L + k <= 0  <=>  L <= floor(-k/g)
			cs := make([]*big.Int, len(t.coefs))
			for i, c := range t.coefs {
				cs[i] = new(big.Int).Quo(c, g)
			}
			k := floorDiv(new(big.Int).Neg(t.k), g)
			return b.Le0(b.Lin(new(big.Int).Neg(k), cs, t.args))
		}
	}
	r := b.intern(&Term{op: OLe0, isB: true, args: []*Term{t}}, ids([]*Term{t}))
	return b.canonSmall(r)
}

func (b *TB) Eq0(t *Term) *Term {
	if r := b.pushIte(t, b.Eq0); r != nil {
		return r
	}
	if t.op == OConst {
		return b.Bool(t.k.Sign() == 0)
	}
	if (t.hi != nil && t.hi.Sign() < 0) || (t.lo != nil && t.lo.Sign() > 0) {
		return b.F
	}
	if t.op == OLin {
		g := new(big.Int)
		for _, c := range t.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			if new(big.Int).Rem(t.k, g).Sign() != 0 {
				return b.F
			}
			cs := make([]*big.Int, len(t.coefs))
			for i, c := range t.coefs {
				cs[i] = new(big.Int).Quo(c, g)
			}
			t = b.Lin(new(big.Int).Quo(t.k, g), cs, t.args)
		}
		if t.op == OLin && t.coefs[0].Sign() < 0 {
			t = b.Neg(t)
		}
	}
	r := b.intern(&Term{op: OEq0, isB: true, args: []*Term{t}}, ids([]*Term{t}))
	return b.canonSmall(r)
}

func (b *TB) Le(x, y *Term) *Term { return b.Le0(b.Sub(x, y)) }
func (b *TB) Lt(x, y *Term) *Term { return b.Le0(b.AddK(b.Sub(x, y), bigOne)) }
func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.isB || y.isB {
		return b.Or(b.And(x, y), b.And(b.Not(x), b.Not(y)))
	}
	return b.Eq0(b.Sub(x, y))
}

func (b *TB) Not(t *Term) *Term {
	switch t.op {
	case OTrue:
		return b.F
	case OFalse:
		return b.T
	case ONot:
		return t.args[0]
	case OInSet:
		f := fullSet(t.args[0].v)
		for i := range f {
			f[i] &^= t.set[i]
		}
		return b.InSet(t.args[0], f)
	case OLe0:
		// not (x <= 0)  <=>  x >= 1  <=>  1 - x <= 0
		return b.Le0(b.Lin(bigOne, []*big.Int{bigMinusOne}, []*Term{t.args[0]}))
	case ORLe:
		return b.rcmp(ORLt, t.args[1], t.args[0])
	case ORLt:
		return b.rcmp(ORLe, t.args[1], t.args[0])
	}
	return b.intern(&Term{op: ONot, isB: true, args: []*Term{t}}, ids([]*Term{t}))
}

func (b *TB) nary(op Op, unit, zero *Term, ts []*Term) *Term {
	var l []*Term
	sets := map[int]int{}
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if t.op == OInSet {
			v := t.args[0]
			if i, ok := sets[v.id]; ok {
				s := l[i].set
				if op == OAnd {
					s = s.and(t.set)
				} else {
					s = s.or(t.set)
				}
				n := b.InSet(v, s)
				if n == zero {
					return false
				}
				l[i] = n // may be unit; filtered below
				if n == unit {
					delete(sets, v.id)
				}
				return true
			}
			sets[v.id] = len(l)
			l = append(l, t)
			return true
		}
		if !seen[t.id] {
			seen[t.id] = true
			l = append(l, t)
		}
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	n := 0
	for _, t := range l {
		if t != unit {
			l[n] = t
			n++
		}
	}
	l = l[:n]
	for _, t := range l {
		if t.op == ONot && seen[t.args[0].id] {
			return zero
		}
	}
	if n == 0 {
		return unit
	}
	if n == 1 {
		return l[0]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return b.intern(&Term{op: op, isB: true, args: l}, ids(l))
}
func (b *TB) And(ts ...*Term) *Term { return b.nary(OAnd, b.T, b.F, ts) }
func (b *TB) Or(ts ...*Term) *Term  { return b.nary(OOr, b.F, b.T, ts) }

// ---- reals ----

func (b *TB) Rat(r *big.Rat) *Term {
	return b.intern(&Term{op: OReal, rat: r, real: true}, r.String())
}
func (b *TB) ToReal(t *Term) *Term {
	if isConst(t) {
		return b.Rat(new(big.Rat).SetInt(t.k))
	}
	return b.intern(&Term{op: OToReal, args: []*Term{t}, real: true}, ids([]*Term{t}))
}
func (b *TB) rbin(op Op, x, y *Term) *Term {
	if x.op == OReal && y.op == OReal {
		r := new(big.Rat)
		switch op {
		case ORAdd:
			return b.Rat(r.Add(x.rat, y.rat))
		case ORMul:
			return b.Rat(r.Mul(x.rat, y.rat))
		case ORDivC:
			return b.Rat(r.Quo(x.rat, y.rat))
		}
	}
	return b.intern(&Term{op: op, args: []*Term{x, y}, real: true}, ids([]*Term{x, y}))
}
func (b *TB) rcmp(op Op, x, y *Term) *Term {
	if x.op == OReal && y.op == OReal {
		c := x.rat.Cmp(y.rat)
		return b.Bool(op == ORLe && c <= 0 || op == ORLt && c < 0 || op == OREq && c == 0)
	}
	if x == y {
		return b.Bool(op != ORLt)
	}
	return b.intern(&Term{op: op, isB: true, args: []*Term{x, y}}, ids([]*Term{x, y}))
}
func (b *TB) RNeg(x *Term) *Term {
	if x.op == OReal {
		return b.Rat(new(big.Rat).Neg(x.rat))
	}
	return b.intern(&Term{op: ORNeg, args: []*Term{x}, real: true}, ids([]*Term{x}))
}
func (b *TB) Floor(x *Term) *Term {
	if x.op == OReal {
		return b.Big(floorDiv(x.rat.Num(), x.rat.Denom()))
	}
	if x.op == OToReal {
		return x.args[0]
	}
	return b.intern(&Term{op: OFloor, args: []*Term{x}}, ids([]*Term{x}))
}

// ---- concrete evaluation ----

type valuation func(*VarInfo) *big.Int

func evalInt(t *Term, val valuation) *big.Int { return evalIntM(t, val, nil) }

type memoT map[int]*big.Int

func evalIntM(t *Term, val valuation, m memoT) *big.Int {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return val(t.v)
	}
	if m != nil {
		if r, ok := m[t.id]; ok {
			return r
		}
	}
	var r *big.Int
	switch t.op {
	case OLin:
		r = new(big.Int).Set(t.k)
		x := new(big.Int)
		for i, a := range t.args {
			r.Add(r, x.Mul(t.coefs[i], evalIntM(a, val, m)))
		}
	case OMul:
		r = new(big.Int).Mul(evalIntM(t.args[0], val, m), evalIntM(t.args[1], val, m))
	case ODiv:
		r = floorDiv(evalIntM(t.args[0], val, m), t.k)
	case OMod:
		r = new(big.Int).Mod(evalIntM(t.args[0], val, m), t.k)
	case OQuo:
		d := evalIntM(t.args[1], val, m)
		if d.Sign() == 0 {
			r = new(big.Int)
		} else {
			r = new(big.Int).Quo(evalIntM(t.args[0], val, m), d)
		}
	case OWrap:
		r = (*TB)(nil).modWrap(evalIntM(t.args[0], val, m), t.coefs[0], t.k)
	case OIte:
		if evalBoolM(t.args[0], val, m) {
			r = evalIntM(t.args[1], val, m)
		} else {
			r = evalIntM(t.args[2], val, m)
		}
	default:
		panic(fmt.Sprintf("evalInt: op %d", t.op))
	}
	if m != nil {
		m[t.id] = r
	}
	return r
}

func evalBool(t *Term, val valuation) bool { return evalBoolM(t, val, nil) }
func evalBoolM(t *Term, val valuation, m memoT) bool {
	switch t.op {
	case OTrue:
		return true
	case OFalse:
		return false
	case OLe0:
		return evalIntM(t.args[0], val, m).Sign() <= 0
	case OEq0:
		return evalIntM(t.args[0], val, m).Sign() == 0
	case OInSet:
		v := t.args[0].v
		i := new(big.Int).Sub(val(v), v.Lo)
		if !i.IsInt64() || i.Int64() < 0 || i.Int64() > 255 {
			return false
		}
		return t.set.has(int(i.Int64()))
	case ONot:
		return !evalBoolM(t.args[0], val, m)
	case OAnd:
		for _, a := range t.args {
			if !evalBoolM(a, val, m) {
				return false
			}
		}
		return true
	case OOr:
		for _, a := range t.args {
			if evalBoolM(a, val, m) {
				return true
			}
		}
		return false
	}
	panic(fmt.Sprintf("evalBool: op %d", t.op))
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		return t.k.String()
	case OVar, ORVar:
		return t.v.Name
	case OLin:
		s := t.k.String()
		for i, a := range t.args {
			s += "+" + t.coefs[i].String() + "*" + a.String()
		}
		return "(" + s + ")"
	}
	s := fmt.Sprintf("op%d(", t.op)
	for _, a := range t.args {
		s += a.String() + " "
	}
	return s + ")"
}
