package sym

import (
	"fmt"
	"math/big"
	"sort"
)

// A decision is one resolved choice on a path; prefixes of decisions identify subtrees.
type Decision struct {
	Kind byte // 'b' branch (V=0/1), 'c' choice among N, 'a' assertion shown, 'f' forced branch
	V    int32
}

type dom struct {
	lo, hi    *big.Int
	set       Set
	small     bool
	entangled bool // occurs in a constraint with other variables, or in one not captured by the domain
}

// mayBe says whether i is in the domain of a small variable.
func (d *dom) mayBe(v *VarInfo, i int64) bool {
	if !d.small {
		return true
	}
	k := i - v.Lo.Int64()
	return k >= 0 && k < 256 && d.set.has(int(k))
}

// Path is the symbolic state that is not heap: constraints, domains, decisions.
type Path struct {
	w          *Worker
	b          *TB
	pc         []*Term
	pcSet      map[int]bool
	doms       map[int]*dom // by VarInfo.Idx
	decs       []Decision
	pos        int
	prefix     []Decision
	model      map[*VarInfo]*big.Int // satisfies pc when modelOK
	modelOK    bool
	inputs     []InputVar
	inNames    map[string]int
	fresh      int
	undecidedA bool // an assertion was left open
	undecided  int  // assertions or branches the solver left open
	covers     map[string]bool
	observed   []Obs
	dead       bool
	digs       map[string][]Val
	wraps      map[int]*wrapNote       // by term id
	errs       map[int]*errNote        // by id of the error term
	forms      map[string]*[2]*big.Int // bounds known of linear forms
}

type InputVar struct {
	Name string
	T    *Term // integer input, or nil
	Conc int64 // for choices
}

type Obs struct {
	Label string
	V     Val
}

func newPath(w *Worker, prefix []Decision) *Path {
	return &Path{w: w, b: w.tb, prefix: prefix, pcSet: map[int]bool{}, doms: map[int]*dom{}, modelOK: true,
		model: map[*VarInfo]*big.Int{}, inNames: map[string]int{}, covers: map[string]bool{}, digs: map[string][]Val{}, wraps: map[int]*wrapNote{}, errs: map[int]*errNote{}, forms: map[string]*[2]*big.Int{}}
}

func (p *Path) dom(v *VarInfo) *dom {
	d := p.doms[v.Idx]
	if d == nil {
		d = &dom{lo: v.Lo, hi: v.Hi, small: v.Small}
		if v.Small {
			d.set = fullSet(v)
		}
		p.doms[v.Idx] = d
	}
	return d
}

func (p *Path) ivl(t *Term, depth int) (lo, hi *big.Int) {
	switch t.op {
	case OConst:
		return t.k, t.k
	case OVar:
		d := p.dom(t.v)
		return d.lo, d.hi
	}
	if t.nv == 0 || depth > 6 {
		return t.lo, t.hi
	}
	lo, hi = t.lo, t.hi
	switch t.op {
	case OLin:
		l, h := new(big.Int).Set(t.k), new(big.Int).Set(t.k)
		okL, okH := true, true
		for i, a := range t.args {
			x, y := p.ivl(a, depth+1)
			if t.coefs[i].Sign() < 0 {
				x, y = y, x
			}
			if x == nil {
				okL = false
			} else {
				l.Add(l, new(big.Int).Mul(t.coefs[i], x))
			}
			if y == nil {
				okH = false
			} else {
				h.Add(h, new(big.Int).Mul(t.coefs[i], y))
			}
		}
		if okL {
			lo = l
		}
		if okH {
			hi = h
		}
		if len(p.forms) > 0 {
			if f := t.form(); f != nil {
				if b := p.forms[f.key]; b != nil {
					l, h := b[0], b[1]
					if f.g.Sign() < 0 {
						l, h = h, l
					}
					if l != nil {
						x := new(big.Int).Mul(f.g, l)
						if x.Add(x, t.k); lo == nil || x.Cmp(lo) > 0 {
							lo = x
						}
					}
					if h != nil {
						x := new(big.Int).Mul(f.g, h)
						if x.Add(x, t.k); hi == nil || x.Cmp(hi) < 0 {
							hi = x
						}
					}
				}
			}
		}
	case OMul:
		a, b := p.ivl(t.args[0], depth+1)
		c, d := p.ivl(t.args[1], depth+1)
		lo, hi = ivlMul(a, b, c, d)
		if t.args[0] == t.args[1] && (lo == nil || lo.Sign() < 0) {
			lo = bigZero
		}
	case ODiv:
		a, b := p.ivl(t.args[0], depth+1)
		if a != nil {
			lo = floorDiv(a, t.k)
		}
		if b != nil {
			hi = floorDiv(b, t.k)
		}
	case OQuo:
		a, b := p.ivl(t.args[0], depth+1)
		c, d := p.ivl(t.args[1], depth+1)
		if a != nil && b != nil {
			m := maxAbs(a, b)
			den := bigOne
			if c != nil && c.Sign() > 0 {
				den = c
			} else if d != nil && d.Sign() < 0 {
				den = new(big.Int).Neg(d)
			}
			hi = new(big.Int).Quo(m, den)
			lo = new(big.Int).Neg(hi)
			if c != nil && d != nil && (c.Sign() > 0 || d.Sign() < 0) {
				pos := c.Sign() > 0
				if a.Sign() >= 0 && pos || b.Sign() <= 0 && !pos {
					lo = bigZero
				} else if a.Sign() >= 0 && !pos || b.Sign() <= 0 && pos {
					hi = bigZero
				}
			}
		}
	case OIte:
		switch p.quick(t.args[0]) {
		case 1:
			return p.ivl(t.args[1], depth+1)
		case 0:
			return p.ivl(t.args[2], depth+1)
		}
		a, b := p.ivl(t.args[1], depth+1)
		c, d := p.ivl(t.args[2], depth+1)
		if a != nil && c != nil {
			lo = a
			if c.Cmp(lo) < 0 {
				lo = c
			}
		}
		if b != nil && d != nil {
			hi = b
			if d.Cmp(hi) > 0 {
				hi = d
			}
		}
	}
	return
}

// quick decides c from variable domains alone: 1 true, 0 false, -1 unknown.
func (p *Path) quick(c *Term) int {
	switch c.op {
	case OTrue:
		return 1
	case OFalse:
		return 0
	}
	if p.pcSet[c.id] {
		return 1
	}
	switch c.op {
	case OInSet:
		d := p.dom(c.args[0].v)
		i := d.set.and(c.set)
		if i.empty() {
			return 0
		}
		if i == d.set {
			return 1
		}
		return -1
	case OLe0:
		lo, hi := p.ivl(c.args[0], 0)
		if hi != nil && hi.Sign() <= 0 {
			return 1
		}
		if lo != nil && lo.Sign() > 0 {
			return 0
		}
	case OEq0:
		lo, hi := p.ivl(c.args[0], 0)
		if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
			return 1
		}
		if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
			return 0
		}
	case ONot:
		if q := p.quick(c.args[0]); q >= 0 {
			return 1 - q
		}
	case OAnd:
		all := true
		for _, a := range c.args {
			q := p.quick(a)
			if q == 0 {
				return 0
			}
			if q != 1 {
				all = false
			}
		}
		if all {
			return 1
		}
	case OOr:
		none := true
		for _, a := range c.args {
			q := p.quick(a)
			if q == 1 {
				return 1
			}
			if q != 0 {
				none = false
			}
		}
		if none {
			return 0
		}
	}
	if p.pcSet[p.b.Not(c).id] {
		return 0
	}
	return -1
}

// add records c as holding on this path.
func (p *Path) add(c *Term) {
	if c == p.b.T || p.pcSet[c.id] {
		return
	}
	if c.op == OAnd {
		for _, a := range c.args {
			p.add(a)
		}
		return
	}
	p.pcSet[c.id] = true
	p.pc = append(p.pc, c)
	unary := p.unaryFree(c)
	p.refine(c)
	if p.modelOK {
		if c.hasR {
			p.modelOK = false
		} else if !evalBoolM(c, p.modelVal, memoT{}) {
			if unary {
				p.model[c.v1] = p.dom(c.v1).lo // no other constraint mentions it
			} else {
				p.modelOK = false
			}
		}
	}
}

func (p *Path) refine(c *Term) {
	switch c.op {
	case OInSet:
		v := c.args[0].v
		d := p.dom(v)
		d.set = d.set.and(c.set)
		for i := 0; i < 256; i++ {
			if d.set.has(i) {
				d.lo = new(big.Int).Add(v.Lo, big.NewInt(int64(i)))
				break
			}
		}
		for i := 255; i >= 0; i-- {
			if d.set.has(i) {
				d.hi = new(big.Int).Add(v.Lo, big.NewInt(int64(i)))
				break
			}
		}
		return
	case OLe0, OEq0:
		t := c.args[0]
		if f := t.form(); f != nil {
			// k + g*form <= 0
			b := p.forms[f.key]
			if b == nil {
				b = &[2]*big.Int{}
				p.forms[f.key] = b
			}
			nk := new(big.Int).Neg(t.k)
			var l, h *big.Int
			if f.g.Sign() > 0 {
				h = floorDiv(nk, f.g)
				if c.op == OEq0 {
					l = new(big.Int).Neg(floorDiv(t.k, f.g))
				}
			} else {
				a := new(big.Int).Neg(f.g)
				l = new(big.Int).Neg(floorDiv(nk, a)) // form >= k/a
				if c.op == OEq0 {
					h = floorDiv(t.k, a)
				}
			}
			if l != nil && (b[0] == nil || l.Cmp(b[0]) > 0) {
				b[0] = l
			}
			if h != nil && (b[1] == nil || h.Cmp(b[1]) < 0) {
				b[1] = h
			}
		}
		if t.nv == 1 {
			var v *Term
			cf, k := bigOne, bigZero
			if t.op == OVar {
				v = t
			} else if t.op == OLin && len(t.args) == 1 && t.args[0].op == OVar {
				v, cf, k = t.args[0], t.coefs[0], t.k
			}
			if v != nil && !v.v.Small {
				d := p.dom(v.v)
				if c.op == OEq0 {
					q, r := new(big.Int), new(big.Int)
					q.QuoRem(new(big.Int).Neg(k), cf, r)
					if r.Sign() == 0 {
						d.lo, d.hi = q, q
						return
					}
				} else if cf.Sign() > 0 { // v <= floor(-k/cf)
					h := floorDiv(new(big.Int).Neg(k), cf)
					if h.Cmp(d.hi) < 0 {
						d.hi = h
					}
					return
				} else { // v >= ceil(k/|cf|)
					a := new(big.Int).Neg(cf)
					l := new(big.Int).Neg(floorDiv(new(big.Int).Neg(k), a))
					if l.Cmp(d.lo) > 0 {
						d.lo = l
					}
					return
				}
			}
		}
	}
	p.entangle(c, map[int]bool{})
}

func (p *Path) entangle(t *Term, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OVar {
		p.dom(t.v).entangled = true
		return
	}
	for _, a := range t.args {
		p.entangle(a, seen)
	}
}

// modelVal is the value of v in the current model; variables not mentioned so far get a
// value of their domain, which is then fixed in the model.
func (p *Path) modelVal(v *VarInfo) *big.Int {
	if x, ok := p.model[v]; ok {
		return x
	}
	x := p.dom(v).lo
	p.model[v] = x
	return x
}

type pathEnd struct {
	why string // "infeasible", "assume", "done", "violation", "unsupported", "bound"
	msg string
}

func (p *Path) end(why, msg string) {
	panic(pathEnd{why, msg})
}

func (p *Path) record(d Decision) { p.decs = append(p.decs, d); p.pos++ }

// unaryFree: c is over one variable whose domain is exact, so a mixed quick answer means both sides are feasible.
func (p *Path) unaryFree(c *Term) bool {
	if c.nv != 1 || c.v1 == nil {
		return false
	}
	d := p.dom(c.v1)
	if d.entangled {
		return false
	}
	if c.op == OInSet {
		return true
	}
	if c.op == OLe0 {
		t := c.args[0]
		return t.op == OVar || t.op == OLin && len(t.args) == 1 && t.args[0].op == OVar
	}
	return false
}

// wrapNote is what is known of a term under OWrap.
type wrapNote struct {
	seq  int
	w, r *Term // the term, and what it is on this path, if decided
}

func (p *Path) noteWrap(w *Term) {
	if p.wraps[w.id] == nil {
		p.wraps[w.id] = &wrapNote{seq: len(p.wraps), w: w}
	}
}

// unwrap decides the wraps inside c, which matters now, in the order they were made.
func (p *Path) unwrap(c *Term) *Term {
	for c.hasW {
		var l []*wrapNote
		seen := map[int]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if !t.hasW || seen[t.id] {
				return
			}
			seen[t.id] = true
			for _, a := range t.args {
				walk(a)
			}
			if t.op == OWrap && !t.args[0].hasW {
				p.noteWrap(t)
				l = append(l, p.wraps[t.id])
			}
		}
		walk(c)
		sort.Slice(l, func(i, j int) bool { return l[i].seq < l[j].seq })
		sub := map[int]*Term{}
		for _, n := range l {
			if n.r == nil {
				t, min, m := n.w.args[0], n.w.coefs[0], n.w.k
				max := n.w.hi
				in := p.b.And(p.b.Le0(p.b.Sub(p.b.Big(min), t)), p.b.Le0(p.b.Sub(t, p.b.Big(max))))
				if p.Decide(in) {
					n.r = t
				} else if lo, hi := p.ivl(t, 0); lo == nil || hi == nil || new(big.Int).Add(lo, m).Cmp(min) < 0 || new(big.Int).Sub(hi, m).Cmp(max) > 0 {
					n.r = p.b.ModWrap(t, min, m)
				} else if p.Decide(p.b.Lt(t, p.b.Big(min))) {
					n.r = p.b.AddK(t, m)
				} else {
					n.r = p.b.AddK(t, new(big.Int).Neg(m))
				}
			}
			sub[n.w.id] = n.r
		}
		c = p.b.replace(c, sub, map[int]*Term{})
	}
	return c
}

// Decide resolves a boolean term on this path, forking when both values are feasible.
func (p *Path) Decide(c *Term) bool {
	if c.hasW {
		c = p.unwrap(c)
	}
	if c.hasR {
		p.useErrs(c)
	}
	if q := p.quick(c); q >= 0 {
		return q == 1
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.Kind != 'b' && d.Kind != 'f' {
			panic(fmt.Sprintf("replay mismatch: want branch, have %c at %d", d.Kind, p.pos))
		}
		p.record(d)
		if d.V == 1 {
			p.add(c)
		} else {
			p.add(p.b.Not(c))
		}
		return d.V == 1
	}
	nc := p.b.Not(c)
	var canT, canF bool
	if p.unaryFree(c) {
		canT, canF = true, true
	} else {
		// use the current model to know one side for free
		if p.modelOK && !c.hasR {
			if evalBoolM(c, p.modelVal, memoT{}) {
				canT = true
			} else {
				canF = true
			}
		}
		if !canT {
			r, m := p.w.check(p.pc, c, true)
			switch r {
			case Sat:
				canT = true
				p.setModel(m)
			case Unknown:
				canT = true
				p.undecided++
				p.w.unknownBranch++
			}
		}
		if !canF {
			r, m := p.w.check(p.pc, nc, true)
			switch r {
			case Sat:
				canF = true
				if !canT {
					p.setModel(m)
				}
			case Unknown:
				canF = true
				p.undecided++
				p.w.unknownBranch++
			}
		}
	}
	if !canT && !canF {
		p.end("infeasible", "")
	}
	if canT && canF {
		alt := append(append([]Decision{}, p.decs...), Decision{'b', 0})
		p.w.pushAlt(alt)
		p.record(Decision{'b', 1})
		p.add(c)
		return true
	}
	if canT {
		p.record(Decision{'f', 1})
		p.add(c)
		return true
	}
	p.record(Decision{'f', 0})
	p.add(nc)
	return false
}

func (p *Path) setModel(m map[*VarInfo]*big.Int) {
	if m == nil {
		return
	}
	p.model = m
	p.modelOK = true
}

// Choose is an explicit n-way choice.
func (p *Path) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.Kind != 'c' {
			panic(fmt.Sprintf("replay mismatch: want choice, have %c at %d", d.Kind, p.pos))
		}
		p.record(d)
		return int(d.V)
	}
	for i := n - 1; i >= 1; i-- {
		p.w.pushAlt(append(append([]Decision{}, p.decs...), Decision{'c', int32(i)}))
	}
	p.record(Decision{'c', 0})
	return 0
}

// Assume restricts the path.
func (p *Path) Assume(c *Term) {
	if c.hasW {
		c = p.unwrap(c)
	}
	if c.hasR {
		p.useErrs(c)
	}
	switch p.quick(c) {
	case 1:
		return
	case 0:
		p.end("assume", "")
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.Kind != 'a' {
			panic(fmt.Sprintf("replay mismatch: want assume, have %c at %d", d.Kind, p.pos))
		}
		p.record(d)
		p.add(c)
		return
	}
	if !p.unaryFree(c) && !(p.modelOK && !c.hasR && evalBoolM(c, p.modelVal, memoT{})) {
		r, m := p.w.check(p.pc, c, true)
		switch r {
		case Unsat:
			p.end("assume", "")
		case Sat:
			p.setModel(m)
		case Unknown:
			p.undecided++
			p.w.unknownBranch++
		}
	}
	p.record(Decision{'a', 1})
	p.add(c)
}

// Assert returns true if c holds for every value on this path. Otherwise the model of a
// counterexample is left in p.model and false is returned. Undecided assertions count separately.
func (p *Path) Assert(c *Term) (ok bool, undecided bool) {
	if c.hasW {
		c = p.unwrap(c)
	}
	if c.hasR {
		p.useErrs(c)
	}
	p.w.obligations++
	switch p.quick(c) {
	case 1:
		p.w.triviallyDischarged++
		return true, false
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.Kind != 'a' {
			panic(fmt.Sprintf("replay mismatch: want assert, have %c at %d", d.Kind, p.pos))
		}
		p.record(d)
		if d.V == 1 && !c.hasNL {
			p.add(c)
		}
		return true, d.V != 1
	}
	nc := p.b.Not(c)
	if p.modelOK && !c.hasR && !evalBoolM(c, p.modelVal, memoT{}) {
		p.pinModel()
		return false, false
	}
	r, m := p.w.check(p.pc, nc, true)
	switch r {
	case Sat:
		p.add(nc)
		p.setModel(m)
		p.pinModel()
		return false, false
	case Unknown:
		r, m = p.w.checkFallback(p.pc, nc)
		if r == Sat {
			p.add(nc)
			p.setModel(m)
			p.pinModel()
			return false, false
		}
		if r == Unsat {
			break
		}
		p.undecided++
		p.undecidedA = true
		p.w.unknownAssert++
		p.record(Decision{'a', 0})
		return true, true
	}
	p.record(Decision{'a', 1})
	if !c.hasNL { // implied by the path condition: only worth keeping when it is cheap
		p.add(c)
	}
	return true, false
}

// pinModel makes p.model total by resolving defaults now.
func (p *Path) pinModel() {
	m := map[*VarInfo]*big.Int{}
	for _, in := range p.inputs {
		if in.T != nil && in.T.op == OVar {
			m[in.T.v] = p.modelVal(in.T.v)
		}
	}
	for k, v := range p.model {
		if _, ok := m[k]; !ok {
			m[k] = v
		}
	}
	p.model = m
}

// FinalModel returns an assignment satisfying the whole path condition (nil if none is known).
func (p *Path) FinalModel() map[*VarInfo]*big.Int {
	if !p.modelOK {
		r, m := p.w.check(p.pc, nil, true)
		if r != Sat {
			return nil
		}
		p.setModel(m)
	}
	p.pinModel()
	return p.model
}

func maxAbs(a, b *big.Int) *big.Int {
	x, y := new(big.Int).Abs(a), new(big.Int).Abs(b)
	if x.Cmp(y) > 0 {
		return x
	}
	return y
}
