package sym

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"
)

// lazyStr is an error message formatted only when looked at.
type lazyStr struct {
	format Val
	args   []Val
	done   Val
}

func (it *Interp) force(l *lazyStr) Val {
	if l.done == nil {
		l.done = it.sprintf(l.format, l.args)
	}
	return l.done
}

var pow10 = func() []*big.Int {
	r := []*big.Int{big.NewInt(1)}
	for i := 1; i < 60; i++ {
		r = append(r, new(big.Int).Mul(r[i-1], big.NewInt(10)))
	}
	return r
}()

// digits returns exactly n decimal digits (most significant first) of m, 0 <= m < 10^n on this path.
func (it *Interp) digits(m *Term, n int) []Val {
	out := make([]Val, n)
	if isConst(m) {
		s := m.k.String()
		s = strings.Repeat("0", n-len(s)) + s
		for i := range out {
			out[i] = uint64(s[i])
		}
		return out
	}
	m = it.p.unwrap(m)
	key := fmt.Sprintf("%d/%d", m.id, n)
	if d, ok := it.p.digs[key]; ok {
		return d
	}
	tb := it.tb
	p := it.p
	p.fresh++
	var cs []*big.Int
	var ts []*Term
	var mv *big.Int
	if p.modelOK && !m.hasR {
		mv = evalIntM(m, p.modelVal, memoT{})
	}
	for i := 0; i < n; i++ {
		d := tb.Var(fmt.Sprintf("dig%d.%d", p.fresh, i), big.NewInt('0'), big.NewInt('9'), false)
		if mv != nil {
			q := new(big.Int).Quo(mv, pow10[n-1-i])
			q.Mod(q, big.NewInt(10))
			p.model[d.v] = q.Add(q, big.NewInt('0'))
		}
		out[i] = d
		cs = append(cs, pow10[n-1-i])
		ts = append(ts, tb.AddK(d, big.NewInt(-'0')))
	}
	sum := tb.Lin(bigZero, cs, ts)
	p.add(tb.Eq(sum, m))
	p.digs[key] = out
	return out
}

// decimal returns the shortest decimal digits of m >= 0, forking on their number.
func (it *Interp) decimal(m *Term) []Val {
	if isConst(m) {
		return strBytes(m.k.String())
	}
	m = it.p.unwrap(m)
	n := 1
	for ; n < 25; n++ {
		if it.p.Decide(it.tb.Lt(m, it.tb.Big(pow10[n]))) {
			break
		}
	}
	d := it.digits(m, n)
	if n > 1 {
		if t, ok := d[0].(*Term); ok {
			it.p.add(it.tb.Not(it.tb.Eq(t, it.tb.Int('0'))))
		}
	}
	return d
}

// signedDecimal is strconv.FormatInt(t, 10).
func (it *Interp) signedDecimal(t *Term) Val {
	if isConst(t) {
		return t.k.String()
	}
	if it.p.Decide(it.tb.Lt(t, it.tb.Int(0))) {
		return strCat("-", mkStr(it.decimal(it.tb.Neg(t))))
	}
	return mkStr(it.decimal(t))
}

type fmtSpec struct {
	minus, plus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
	verb                            rune
}

func (f *fmtSpec) directive(verb rune) string {
	s := "%"
	if f.minus {
		s += "-"
	}
	if f.plus {
		s += "+"
	}
	if f.sharp {
		s += "#"
	}
	if f.space {
		s += " "
	}
	if f.zero {
		s += "0"
	}
	if f.hasWid {
		s += strconv.Itoa(f.wid)
	}
	if f.hasPrec {
		s += "." + strconv.Itoa(f.prec)
	}
	return s + string(verb)
}

// runeCount counts characters, deciding whether symbolic bytes are ASCII.
func (it *Interp) runeCount(s Val) int {
	if x, ok := s.(string); ok {
		return utf8.RuneCountInString(x)
	}
	n := 0
	for i := 0; i < strLen(s); {
		_, w := it.decodeRune(s, i)
		i += w
		n++
	}
	return n
}

func (it *Interp) truncRunes(s Val, n int) Val {
	c := 0
	for i := 0; i < strLen(s); {
		if c == n {
			return strSlice(s, 0, i)
		}
		_, w := it.decodeRune(s, i)
		i += w
		c++
	}
	return s
}

func (it *Interp) pad(s Val, f *fmtSpec) Val {
	if !f.hasWid {
		return s
	}
	n := it.runeCount(s)
	if n >= f.wid {
		return s
	}
	if f.minus {
		return strCat(s, strings.Repeat(" ", f.wid-n))
	}
	c := " "
	if f.zero {
		c = "0"
	}
	return strCat(strings.Repeat(c, f.wid-n), s)
}

func (it *Interp) fmtStr(s Val, f *fmtSpec) Val {
	if f.hasPrec {
		s = it.truncRunes(s, f.prec)
	}
	switch f.verb {
	case 'q':
		if c, ok := s.(string); ok {
			g := *f
			g.hasPrec = false
			return fmt.Sprintf(g.directive('q'), c)
		}
		// printable ASCII other than quote and backslash is copied
		b := strBytes(s)
		r := []Val{uint64('"')}
		for _, c := range b {
			if u, ok := c.(uint64); ok {
				r = append(r, strBytes(strings.Trim(strconv.Quote(string(rune(u))), `"`))...)
				continue
			}
			t := c.(*Term)
			pr := it.tb.And(it.tb.Le(it.tb.Int(32), t), it.tb.Lt(t, it.tb.Int(127)), it.tb.Not(it.tb.Eq(t, it.tb.Int('"'))), it.tb.Not(it.tb.Eq(t, it.tb.Int('\\'))))
			if !it.p.Decide(pr) {
				k, ok := it.concInt(t, 0, 255)
				if !ok || k > 127 {
					it.unsupported("%%q of non-ASCII symbolic byte")
				}
				q := strconv.Quote(string(rune(k)))
				r = append(r, strBytes(q[1:len(q)-1])...)
				continue
			}
			r = append(r, t)
		}
		r = append(r, uint64('"'))
		return it.pad(mkStr(r), f)
	case 'x', 'X':
		if c, ok := s.(string); ok {
			g := *f
			return fmt.Sprintf(g.directive(f.verb), c)
		}
		it.unsupported("%%x of a symbolic string")
	}
	g := *f
	g.zero = false
	return it.pad(s, &g)
}

func (it *Interp) fmtInt(v Val, k intKind, f *fmtSpec) Val {
	switch x := v.(type) {
	case int64:
		return fmt.Sprintf(f.directive(f.verb), x)
	case uint64:
		return fmt.Sprintf(f.directive(f.verb), x)
	case *Term:
		switch f.verb {
		case 'v', 'd':
			if f.plus || f.space || f.hasPrec || f.sharp {
				it.unsupported("integer format flags")
			}
			// zero padded to at least the maximal number of digits: no fork on the length
			if f.zero && f.hasWid && !f.minus {
				lo, hi := it.p.ivl(x, 0)
				if lo != nil && lo.Sign() >= 0 && hi != nil && f.wid < 50 && hi.Cmp(pow10[f.wid]) < 0 {
					return mkStr(it.digits(x, f.wid))
				}
				if it.p.Decide(it.tb.Lt(x, it.tb.Int(0))) {
					g := *f
					g.wid--
					return strCat("-", it.pad(mkStr(it.decimal(it.tb.Neg(x))), &g))
				}
				return it.pad(mkStr(it.decimal(x)), f)
			}
			g := *f
			g.zero = false
			return it.pad(it.signedDecimal(x), &g)
		case 'c':
			return it.fmtStr(it.runeStr(x), &fmtSpec{verb: 's', hasWid: f.hasWid, wid: f.wid, minus: f.minus})
		}
		it.unsupported("%%%c of a symbolic integer", f.verb)
	}
	it.unsupported("fmtInt of %T", v)
	return nil
}

// callStringer calls Error or String, with fmt's treatment of panics.
func (it *Interp) callStringer(a iface, name string) (res Val) {
	save := it.cur
	defer func() {
		if r := recover(); r != nil {
			gp, ok := r.(goPanic)
			if !ok {
				panic(r)
			}
			it.cur = save
			if p, ok := a.v.(*Val); ok && p == nil {
				res = "<nil>"
				return
			}
			res = "%!v(PANIC=" + name + " method: " + show(gp.v.v) + ")"
		}
	}()
	it.eng.mu.Lock()
	ms := it.prog.MethodSets.MethodSet(a.t)
	sel := ms.Lookup(nil, name)
	it.eng.mu.Unlock()
	m := it.findMethod(a.t, sel.Obj().(*types.Func))
	return it.callFn(it.cur, m, []Val{a.v}, nil)
}

func (it *Interp) stringerName(t types.Type) string {
	if n, ok := it.strName[t]; ok {
		return n
	}
	r := ""
	it.eng.mu.Lock()
	ms := it.prog.MethodSets.MethodSet(t)
	for _, name := range []string{"Format", "Error", "String"} {
		sel := ms.Lookup(nil, name)
		if sel == nil {
			continue
		}
		sig := sel.Obj().Type().(*types.Signature)
		if name == "Format" {
			if sig.Params().Len() == 2 && strings.Contains(sig.Params().At(0).Type().String(), "fmt.State") {
				r = name
				break
			}
			continue
		}
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
			r = name
			break
		}
	}
	it.eng.mu.Unlock()
	it.strName[t] = r
	return r
}

func (it *Interp) fmtArg(a iface, f *fmtSpec, depth int) Val {
	if a.t == nil {
		if f.verb == 'T' || f.verb == 'v' {
			return it.pad("<nil>", f)
		}
		return "%!" + string(f.verb) + "(<nil>)"
	}
	if f.verb == 'T' {
		return it.pad(types.TypeString(a.t, func(p *types.Package) string { return p.Name() }), f)
	}
	if f.verb == 'p' {
		return it.pad("0xc000010000", f)
	}
	if strings.ContainsRune("vsxXqw", f.verb) && !(f.sharp && f.verb == 'v') {
		if n := it.stringerName(a.t); n != "" {
			if n == "Format" {
				if c, ok := a.v.(structV); ok && len(c) == 2 {
					it.unsupported("custom formatter")
				}
			}
			s := it.callStringer(a, n)
			g := *f
			if g.verb == 'v' || g.verb == 'w' {
				g.verb = 's'
			}
			return it.fmtStr(s, &g)
		}
	}
	g := *f
	if g.verb == 'w' {
		g.verb = 'v'
	}
	bad := func() Val {
		h := fmtSpec{verb: 'v'}
		return strCat("%!"+string(f.verb)+"("+types.TypeString(a.t, func(p *types.Package) string { return p.Name() })+"=", strCat(it.fmtArg2(a, &h, depth), ")"))
	}
	switch u := a.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if !strings.ContainsRune("vsxXq", g.verb) {
				return bad()
			}
			if g.verb == 'v' {
				g.verb = 's'
				if g.sharp {
					g.verb = 'q'
					g.sharp = false
				}
			}
			return it.fmtStr(a.v, &g)
		case u.Info()&types.IsBoolean != 0:
			if g.verb != 'v' && g.verb != 't' {
				return bad()
			}
			return it.pad(fmt.Sprint(it.truth(a.v)), &g)
		case u.Info()&types.IsInteger != 0:
			if !strings.ContainsRune("vdbBoOxXcqU", g.verb) {
				return bad()
			}
			k, _ := kindOf(a.t)
			return it.fmtInt(a.v, k, &g)
		case u.Info()&types.IsFloat != 0:
			if !strings.ContainsRune("vbgGeEfFxX", g.verb) {
				return bad()
			}
			if x, ok := a.v.(float64); ok {
				if u.Kind() == types.Float32 {
					return fmt.Sprintf(g.directive(g.verb), float32(x))
				}
				return fmt.Sprintf(g.directive(g.verb), x)
			}
			if x, ok := a.v.(*Term); ok && x.real && (g.verb == 'f' || g.verb == 'F') && !g.plus && !g.sharp && !g.zero {
				return it.fmtReal(x, &g)
			}
			it.unsupported("format of a symbolic float")
		}
	default:
		_ = u
	}
	return it.fmtArg2(a, &g, depth)
}

// fmtReal is %f: the nearest decimal (either one when x is, up to its error term, in the middle).
func (it *Interp) fmtReal(x *Term, f *fmtSpec) Val {
	prec := 6
	if f.hasPrec {
		prec = f.prec
	}
	tb := it.tb
	zero := tb.Rat(new(big.Rat))
	neg := it.p.Decide(tb.rcmp(ORLt, x, zero))
	if neg {
		x = tb.RNeg(x)
	}
	n := tb.Floor(tb.rbin(ORAdd, tb.rbin(ORMul, x, tb.Rat(new(big.Rat).SetInt(pow10[prec]))), tb.Rat(big.NewRat(1, 2))))
	d := it.decimal(n)
	for len(d) <= prec {
		d = append([]Val{uint64('0')}, d...)
	}
	s := mkStr(append([]Val{}, d[:len(d)-prec]...))
	if prec > 0 {
		s = strCat(strCat(s, "."), mkStr(append([]Val{}, d[len(d)-prec:]...)))
	}
	switch {
	case neg:
		s = strCat("-", s)
	case f.space:
		s = strCat(" ", s)
	}
	return it.pad(s, f)
}

// fmtArg2 formats composite values without methods.
func (it *Interp) fmtArg2(a iface, f *fmtSpec, depth int) Val {
	switch u := a.t.Underlying().(type) {
	case *types.Basic:
		if f.verb == 'v' && depth < 10 {
			g := *f
			switch {
			case u.Info()&(types.IsString|types.IsBoolean|types.IsInteger|types.IsFloat) != 0:
				return it.fmtArg(iface{u, a.v}, &g, depth+1)
			}
		}
	case *types.Slice, *types.Array:
		var es []Val
		var et types.Type
		switch s := a.v.(type) {
		case sliceV:
			es, et = s.a, u.(*types.Slice).Elem()
		case arrayV:
			es, et = s, u.(*types.Array).Elem()
		}
		if isByteSlice(a.t) && (f.verb == 's' || f.verb == 'q' || f.verb == 'x') {
			return it.fmtStr(mkStr(append([]Val{}, es...)), f)
		}
		var r Val = "["
		for i, e := range es {
			if i > 0 {
				r = strCat(r, " ")
			}
			r = strCat(r, it.fmtElem(et, e, f, depth))
		}
		return strCat(r, "]")
	case *types.Struct:
		var r Val = "{"
		for i, e := range a.v.(structV) {
			if i > 0 {
				r = strCat(r, " ")
			}
			if f.plus {
				r = strCat(r, u.Field(i).Name()+":")
			}
			// unexported fields are printed without calling methods; close enough only for basic kinds
			r = strCat(r, it.fmtElem(u.Field(i).Type(), e, f, depth))
		}
		return strCat(r, "}")
	case *types.Pointer:
		p, _ := a.v.(*Val)
		if p == nil {
			return it.pad("<nil>", f)
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array:
				return strCat("&", it.fmtElem(u.Elem(), it.load(p), f, depth))
			}
		}
		return it.pad("0xc000010000", f)
	case *types.Map:
		m, _ := a.v.(*mapV)
		if m == nil || m.n == 0 {
			return "map[]"
		}
		it.unsupported("format of a map")
	case *types.Signature:
		return it.pad("0x100000", f)
	}
	it.unsupported("format %%%c of %s", f.verb, a.t)
	return nil
}

func (it *Interp) fmtElem(t types.Type, v Val, f *fmtSpec, depth int) Val {
	if types.IsInterface(t) {
		x := v.(iface)
		return it.fmtArg(x, f, depth+1)
	}
	return it.fmtArg(iface{t, v}, f, depth+1)
}

func (it *Interp) sprintf(format Val, args []Val) Val {
	fs, ok := format.(string)
	if !ok {
		it.unsupported("symbolic format string")
	}
	var out Val = ""
	n := 0
	reorder := false
	lit := 0
	for i := 0; i < len(fs); {
		if fs[i] != '%' {
			i++
			continue
		}
		if i > lit {
			out = strCat(out, fs[lit:i])
		}
		i++
		var f fmtSpec
	flags:
		for i < len(fs) {
			switch fs[i] {
			case '-':
				f.minus = true
				f.zero = false
			case '+':
				f.plus = true
			case '#':
				f.sharp = true
			case ' ':
				f.space = true
			case '0':
				f.zero = true
			default:
				break flags
			}
			i++
		}
		star := func() (int, bool) {
			if n >= len(args) {
				return 0, false
			}
			a := args[n].(iface)
			n++
			if a.t == nil {
				return 0, false
			}
			if _, ok := kindOf(a.t); !ok {
				return 0, false
			}
			k, ok := it.concInt(a.v, -1000, 100000)
			return int(k), ok
		}
		if i < len(fs) && fs[i] == '[' {
			it.unsupported("argument indexes in format")
		}
		if i < len(fs) && fs[i] == '*' {
			i++
			w, ok := star()
			if !ok {
				out = strCat(out, "%!(BADWIDTH)")
			} else {
				f.hasWid = true
				if w < 0 {
					w = -w
					f.minus = true
					f.zero = false
				}
				f.wid = w
			}
		} else {
			for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
				f.hasWid = true
				f.wid = f.wid*10 + int(fs[i]-'0')
				i++
			}
		}
		if i < len(fs) && fs[i] == '.' {
			i++
			f.hasPrec = true
			if i < len(fs) && fs[i] == '*' {
				i++
				p, ok := star()
				if !ok {
					f.hasPrec = false
					out = strCat(out, "%!(BADPREC)")
				} else if p < 0 {
					f.hasPrec = false
				} else {
					f.prec = p
				}
			} else {
				for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
					f.prec = f.prec*10 + int(fs[i]-'0')
					i++
				}
			}
		}
		if f.minus {
			f.zero = false
		}
		if i >= len(fs) {
			out = strCat(out, "%!(NOVERB)")
			lit = i
			break
		}
		r, w := utf8.DecodeRuneInString(fs[i:])
		i += w
		lit = i
		f.verb = r
		switch {
		case r == '%':
			out = strCat(out, "%")
		case n >= len(args):
			out = strCat(out, "%!"+string(r)+"(MISSING)")
		default:
			a := args[n].(iface)
			n++
			out = strCat(out, it.fmtArg(a, &f, 0))
		}
	}
	if lit < len(fs) {
		out = strCat(out, fs[lit:])
	}
	if !reorder && n < len(args) {
		out = strCat(out, "%!(EXTRA ")
		for j, x := range args[n:] {
			if j > 0 {
				out = strCat(out, ", ")
			}
			a := x.(iface)
			if a.t == nil {
				out = strCat(out, "<nil>")
			} else {
				out = strCat(out, types.TypeString(a.t, func(p *types.Package) string { return p.Name() })+"=")
				out = strCat(out, it.fmtArg(a, &fmtSpec{verb: 'v'}, 0))
			}
		}
		out = strCat(out, ")")
	}
	return out
}

func (it *Interp) sprint(args []Val, ln bool) Val {
	var out Val = ""
	prevStr := false
	for i, x := range args {
		a := x.(iface)
		isStr := false
		if a.t != nil {
			if b, ok := a.t.(*types.Basic); ok && b.Kind() == types.String {
				isStr = true
			} else if isString(a.t) {
				isStr = true
			}
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = strCat(out, " ")
		}
		out = strCat(out, it.fmtArg(a, &fmtSpec{verb: 'v'}, 0))
		prevStr = isStr
	}
	if ln {
		out = strCat(out, "\n")
	}
	return out
}
