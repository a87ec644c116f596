package sym

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}
var specialInit = map[string]func(it *Interp, pk *ssa.Package){}

func lookupIntrinsic(name string, fn *ssa.Function) intrinsic {
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if strings.HasPrefix(name, "internal/race.") || strings.HasPrefix(name, "internal/msan.") || strings.HasPrefix(name, "internal/asan.") {
		return nop
	}
	return nil
}

func nop(it *Interp, fr *frame, fi *fnInfo, args []Val) Val {
	r := fi.fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return it.zero(r.At(0).Type())
	}
	return it.zero(r)
}

func reg(f func(it *Interp, a []Val) Val, names ...string) {
	for _, n := range names {
		intrinsics[n] = func(it *Interp, fr *frame, fi *fnInfo, args []Val) Val { return f(it, args) }
	}
}

// regN registers a function computed natively when every argument is concrete and interpreted (or handled by alt) otherwise.
func regN(name string, f func(a []Val) Val, alt func(it *Interp, a []Val) (Val, bool)) {
	intrinsics[name] = func(it *Interp, fr *frame, fi *fnInfo, args []Val) Val {
		for _, a := range args {
			if !isConc(a) {
				if alt != nil {
					if v, ok := alt(it, args); ok {
						return v
					}
				}
				return it.interpFn(fr, fi, args, nil)
			}
		}
		return f(args)
	}
}

func isConc(v Val) bool {
	switch x := v.(type) {
	case *Term, *symStr:
		return false
	case sliceV:
		for _, e := range x.a {
			if !isConc(e) {
				return false
			}
		}
	}
	return true
}

func bytesOf(v Val) []Val {
	switch x := v.(type) {
	case sliceV:
		return x.a
	}
	return strBytes(v)
}

func goBytes(v Val) []byte {
	b := bytesOf(v)
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.(uint64))
	}
	return r
}

func goStr(it *Interp, v Val) string {
	s, ok := v.(string)
	if !ok {
		it.unsupported("symbolic string where a concrete one is needed: %s", show(v))
	}
	return s
}

func strSlice2(l []string) sliceV {
	a := make([]Val, len(l))
	for i, s := range l {
		a[i] = s
	}
	return sliceV{a}
}

// byteEq is the condition that two bytes are equal.
func (it *Interp) byteEq(a, b Val) Val { return it.eq(a, b) }

func (it *Interp) matchAt(s []Val, i int, sub []Val) Val {
	var ts []*Term
	for j := range sub {
		e := it.eq(s[i+j], sub[j])
		if e == false {
			return false
		}
		if t, ok := e.(*Term); ok {
			ts = append(ts, t)
		}
	}
	return boolVal(it.tb.And(ts...))
}

func (it *Interp) indexOf(s, sub []Val) int64 {
	for i := 0; i+len(sub) <= len(s); i++ {
		if it.truth(it.matchAt(s, i, sub)) {
			return int64(i)
		}
	}
	return -1
}

func (it *Interp) lastIndexOf(s, sub []Val) int64 {
	for i := len(s) - len(sub); i >= 0; i-- {
		if it.truth(it.matchAt(s, i, sub)) {
			return int64(i)
		}
	}
	return -1
}

func (it *Interp) containsSub(s, sub []Val) Val {
	var ts []*Term
	for i := 0; i+len(sub) <= len(s); i++ {
		m := it.matchAt(s, i, sub)
		if m == true {
			return true
		}
		if t, ok := m.(*Term); ok {
			ts = append(ts, t)
		}
	}
	return boolVal(it.tb.Or(ts...))
}

// pred1 builds a merged predicate over a symbolic integer with few values.
func (it *Interp) pred1(t *Term, f func(int64) bool) (Val, bool) {
	if t.nv == 1 && t.v1 != nil && t.v1.Small && !t.hasR {
		vi := t.v1
		n := int(new(big.Int).Sub(vi.Hi, vi.Lo).Int64()) + 1
		var s Set
		for i := 0; i < n; i++ {
			x := new(big.Int).Add(vi.Lo, big.NewInt(int64(i)))
			if f(evalInt(t, func(*VarInfo) *big.Int { return x }).Int64()) {
				s.add(i)
			}
		}
		return boolVal(it.tb.InSet(it.tb.vlist[vi.Idx], s)), true
	}
	return nil, false
}

func (it *Interp) fun1(t *Term, f func(int64) int64) (*Term, bool) {
	if t.nv == 1 && t.v1 != nil && t.v1.Small && !t.hasR {
		vi := t.v1
		n := int(new(big.Int).Sub(vi.Hi, vi.Lo).Int64()) + 1
		groups := map[int64]*Set{}
		var order []int64
		d := it.p.dom(vi)
		for i := 0; i < n; i++ {
			if !d.set.has(i) {
				continue
			}
			x := new(big.Int).Add(vi.Lo, big.NewInt(int64(i)))
			in := evalInt(t, func(*VarInfo) *big.Int { return x }).Int64()
			delta := f(in) - in
			if groups[delta] == nil {
				groups[delta] = &Set{}
				order = append(order, delta)
			}
			groups[delta].add(i)
		}
		r := it.tb.AddK(t, big.NewInt(order[0]))
		for _, dl := range order[1:] {
			r = it.tb.Ite(it.tb.InSet(it.tb.vlist[vi.Idx], *groups[dl]), it.tb.AddK(t, big.NewInt(dl)), r)
		}
		return r, true
	}
	return nil, false
}

func regPred(name string, f func(rune) bool) {
	intrinsics[name] = func(it *Interp, fr *frame, fi *fnInfo, args []Val) Val {
		if u, ok := rawBits(args[0]); ok {
			return f(rune(u))
		}
		if v, ok := it.pred1(args[0].(*Term), func(x int64) bool { return f(rune(x)) }); ok {
			return v
		}
		return it.interpFn(fr, fi, args, nil)
	}
}

func regRune(name string, f func(rune) rune) {
	intrinsics[name] = func(it *Interp, fr *frame, fi *fnInfo, args []Val) Val {
		if u, ok := rawBits(args[0]); ok {
			return int64(f(rune(u)))
		}
		if v, ok := it.fun1(args[0].(*Term), func(x int64) int64 { return int64(f(rune(x))) }); ok {
			return it.fromTerm(v, intKind{32, true})
		}
		return it.interpFn(fr, fi, args, nil)
	}
}

func (it *Interp) mapBytes(s Val, f func(byte) byte) (Val, bool) {
	b := strBytes(s)
	out := make([]Val, len(b))
	for i, c := range b {
		switch x := c.(type) {
		case uint64:
			out[i] = uint64(f(byte(x)))
		case *Term:
			// only sound byte-wise for ASCII
			if q := it.p.quick(it.tb.Lt(x, it.tb.Int(utf8.RuneSelf))); q != 1 {
				return nil, false
			}
			t, ok := it.fun1(x, func(v int64) int64 { return int64(f(byte(v))) })
			if !ok {
				return nil, false
			}
			out[i] = it.fromTerm(t, intKind{8, false})
		}
	}
	return mkStr(out), true
}

func allASCII(s Val) bool {
	for _, c := range strBytes(s) {
		if u, ok := c.(uint64); ok && u >= utf8.RuneSelf {
			return false
		}
	}
	return true
}

func init() {
	// ---- strings, bytes ----
	regN("strings.ToLower", func(a []Val) Val { return strings.ToLower(a[0].(string)) }, func(it *Interp, a []Val) (Val, bool) {
		if !allASCII(a[0]) {
			return nil, false
		}
		return it.mapBytes(a[0], func(c byte) byte {
			if c >= 'A' && c <= 'Z' {
				return c + 32
			}
			return c
		})
	})
	regN("strings.ToUpper", func(a []Val) Val { return strings.ToUpper(a[0].(string)) }, func(it *Interp, a []Val) (Val, bool) {
		if !allASCII(a[0]) {
			return nil, false
		}
		return it.mapBytes(a[0], func(c byte) byte {
			if c >= 'a' && c <= 'z' {
				return c - 32
			}
			return c
		})
	})
	repl := func(it *Interp, a []Val) (Val, bool) {
		o, ok1 := a[1].(string)
		n, ok2 := a[2].(string)
		if len(a) > 3 {
			k, ok := a[3].(int64)
			if !ok || k >= 0 {
				return nil, false
			}
		}
		if !ok1 || !ok2 || len(o) != 1 || len(n) != 1 {
			return nil, false
		}
		b := strBytes(a[0])
		out := make([]Val, len(b))
		for i, c := range b {
			switch x := c.(type) {
			case uint64:
				out[i] = x
				if byte(x) == o[0] {
					out[i] = uint64(n[0])
				}
			case *Term:
				t, ok := it.fun1(x, func(v int64) int64 {
					if byte(v) == o[0] {
						return int64(n[0])
					}
					return v
				})
				if !ok {
					return nil, false
				}
				out[i] = it.fromTerm(t, intKind{8, false})
			}
		}
		return mkStr(out), true
	}
	regN("strings.ReplaceAll", func(a []Val) Val { return strings.ReplaceAll(a[0].(string), a[1].(string), a[2].(string)) }, repl)
	regN("strings.Replace", func(a []Val) Val {
		return strings.Replace(a[0].(string), a[1].(string), a[2].(string), int(a[3].(int64)))
	}, repl)
	regN("strings.TrimSpace", func(a []Val) Val { return strings.TrimSpace(a[0].(string)) }, nil)
	regN("strings.Trim", func(a []Val) Val { return strings.Trim(a[0].(string), a[1].(string)) }, nil)
	regN("strings.TrimLeft", func(a []Val) Val { return strings.TrimLeft(a[0].(string), a[1].(string)) }, nil)
	regN("strings.TrimRight", func(a []Val) Val { return strings.TrimRight(a[0].(string), a[1].(string)) }, nil)
	regN("strings.Split", func(a []Val) Val { return strSlice2(strings.Split(a[0].(string), a[1].(string))) }, nil)
	regN("strings.SplitN", func(a []Val) Val {
		return strSlice2(strings.SplitN(a[0].(string), a[1].(string), int(a[2].(int64))))
	}, nil)
	regN("strings.Fields", func(a []Val) Val { return strSlice2(strings.Fields(a[0].(string))) }, nil)
	regN("strings.EqualFold", func(a []Val) Val { return strings.EqualFold(a[0].(string), a[1].(string)) }, nil)
	regN("strings.Repeat", func(a []Val) Val {
		n := a[1].(int64)
		if n < 0 {
			panic(goPanic{v: iface{types.Typ[types.String], "strings: negative Repeat count"}})
		}
		return strings.Repeat(a[0].(string), int(n))
	}, func(it *Interp, a []Val) (Val, bool) {
		n, ok := a[1].(int64)
		if !ok || n < 0 {
			return nil, false
		}
		var r Val = ""
		for i := int64(0); i < n; i++ {
			r = strCat(r, a[0])
		}
		return r, true
	})
	for _, n := range []string{"strings.Index", "internal/stringslite.Index", "internal/bytealg.IndexString", "bytes.Index", "internal/bytealg.Index"} {
		reg(func(it *Interp, a []Val) Val { return it.indexOf(bytesOf(a[0]), bytesOf(a[1])) }, n)
	}
	for _, n := range []string{"strings.LastIndex", "bytes.LastIndex"} {
		reg(func(it *Interp, a []Val) Val { return it.lastIndexOf(bytesOf(a[0]), bytesOf(a[1])) }, n)
	}
	for _, n := range []string{"strings.Contains", "bytes.Contains"} {
		reg(func(it *Interp, a []Val) Val { return it.containsSub(bytesOf(a[0]), bytesOf(a[1])) }, n)
	}
	for _, n := range []string{"strings.IndexByte", "internal/stringslite.IndexByte", "internal/bytealg.IndexByteString", "internal/bytealg.IndexByte", "bytes.IndexByte"} {
		reg(func(it *Interp, a []Val) Val {
			switch s := a[0].(type) {
			case string:
				if c, ok := a[1].(uint64); ok {
					return int64(strings.IndexByte(s, byte(c)))
				}
			case sliceV:
				if c, ok := a[1].(uint64); ok {
					for i, x := range s.a {
						if u, ok := x.(uint64); ok {
							if u == c {
								return int64(i)
							}
							continue
						}
						if it.truth(it.eq(x, c)) {
							return int64(i)
						}
					}
					return int64(-1)
				}
			}
			return it.indexOf(bytesOf(a[0]), []Val{a[1]})
		}, n)
	}
	for _, n := range []string{"strings.LastIndexByte", "internal/bytealg.LastIndexByteString", "internal/bytealg.LastIndexByte", "bytes.LastIndexByte"} {
		reg(func(it *Interp, a []Val) Val { return it.lastIndexOf(bytesOf(a[0]), []Val{a[1]}) }, n)
	}
	for _, n := range []string{"internal/bytealg.CountString", "internal/bytealg.Count"} {
		reg(func(it *Interp, a []Val) Val {
			var k int64
			for _, c := range bytesOf(a[0]) {
				if it.truth(it.eq(c, a[1])) {
					k++
				}
			}
			return k
		}, n)
	}
	reg(func(it *Interp, a []Val) Val {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		if len(x) != len(y) {
			return false
		}
		return it.matchAt(x, 0, y)
	}, "internal/bytealg.Equal", "bytes.Equal")
	reg(func(it *Interp, a []Val) Val {
		x, y := mkStr(append([]Val{}, bytesOf(a[0])...)), mkStr(append([]Val{}, bytesOf(a[1])...))
		if it.truth(it.eq(x, y)) {
			return int64(0)
		}
		if it.truth(it.strCmp(lssTok, x, y)) {
			return int64(-1)
		}
		return int64(1)
	}, "internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare", "bytes.Compare", "runtime.cmpstring")
	reg(func(it *Interp, a []Val) Val {
		// ContainsRune(s, r)
		if u, ok := rawBits(a[1]); ok {
			r := rune(u)
			if s, ok := a[0].(string); ok {
				return strings.ContainsRune(s, r)
			}
			return it.containsSub(strBytes(a[0]), strBytes(string(r)))
		}
		t := a[1].(*Term)
		if s, ok := a[0].(string); ok {
			if v, ok := it.pred1(t, func(x int64) bool { return strings.ContainsRune(s, rune(x)) }); ok {
				return v
			}
			var ts []*Term
			for _, c := range s {
				ts = append(ts, it.tb.Eq(t, it.tb.Int(int64(c))))
			}
			return boolVal(it.tb.Or(ts...))
		}
		var ts []*Term
		for _, c := range strBytes(a[0]) {
			ts = append(ts, it.term(it.eq(c, t)))
		}
		return boolVal(it.tb.Or(ts...))
	}, "strings.ContainsRune")
	intrinsics["strings.ContainsAny"] = func(it *Interp, fr *frame, fi *fnInfo, a []Val) Val {
		chars, ok := a[1].(string)
		if !ok {
			return it.interpFn(fr, fi, a, nil)
		}
		for i := 0; i < len(chars); i++ {
			if chars[i] >= utf8.RuneSelf {
				return it.interpFn(fr, fi, a, nil)
			}
		}
		var ts []*Term
		for _, c := range strBytes(a[0]) {
			if u, ok := c.(uint64); ok {
				if strings.IndexByte(chars, byte(u)) >= 0 {
					return true
				}
				continue
			}
			for j := 0; j < len(chars); j++ {
				ts = append(ts, it.term(it.eq(c, uint64(chars[j]))))
			}
		}
		return boolVal(it.tb.Or(ts...))
	}
	reg(func(it *Interp, a []Val) Val {
		n := int(a[0].(int64))
		b := make([]Val, roundCap(n, 1))
		for i := range b {
			b[i] = uint64(0)
		}
		return sliceV{b[:n]}
	}, "internal/bytealg.MakeNoZero")
	reg(func(it *Interp, a []Val) Val { return a[0] }, "strings.Clone", "internal/stringslite.Clone", "internal/abi.NoEscape", "internal/abi.Escape", "runtime.noescape", "internal/runtime/sys.NoEscape")
	intrinsics["(*strings.Builder).copyCheck"] = nop
	regN("unicode/utf8.RuneCountInString", func(a []Val) Val { return int64(utf8.RuneCountInString(a[0].(string))) }, func(it *Interp, a []Val) (Val, bool) { return int64(it.runeCount(a[0])), true })
	regN("unicode/utf8.ValidString", func(a []Val) Val { return utf8.ValidString(a[0].(string)) }, nil)
	regN("unicode/utf8.DecodeRuneInString", func(a []Val) Val {
		r, n := utf8.DecodeRuneInString(a[0].(string))
		return tupleV{int64(r), int64(n)}
	}, func(it *Interp, a []Val) (Val, bool) {
		if strLen(a[0]) == 0 {
			return tupleV{int64(utf8.RuneError), int64(0)}, true
		}
		r, n := it.decodeRune(a[0], 0)
		return tupleV{r, int64(n)}, true
	})

	// ---- unicode ----
	regPred("unicode.IsSpace", unicode.IsSpace)
	regPred("unicode.IsDigit", unicode.IsDigit)
	regPred("unicode.IsNumber", unicode.IsNumber)
	regPred("unicode.IsLetter", unicode.IsLetter)
	regPred("unicode.IsUpper", unicode.IsUpper)
	regPred("unicode.IsLower", unicode.IsLower)
	regPred("unicode.IsPunct", unicode.IsPunct)
	regPred("unicode.IsControl", unicode.IsControl)
	regPred("unicode.IsPrint", unicode.IsPrint)
	regPred("unicode.IsGraphic", unicode.IsGraphic)
	regPred("unicode.IsSymbol", unicode.IsSymbol)
	regRune("unicode.ToLower", unicode.ToLower)
	regRune("unicode.ToUpper", unicode.ToUpper)

	// ---- strconv ----
	regN("strconv.Itoa", func(a []Val) Val { return strconv.Itoa(int(a[0].(int64))) }, func(it *Interp, a []Val) (Val, bool) {
		return it.signedDecimal(a[0].(*Term)), true
	})
	fint := func(it *Interp, a []Val) (Val, bool) {
		t, ok := a[0].(*Term)
		if b, ok2 := a[1].(int64); !ok || !ok2 || b != 10 {
			return nil, false
		}
		return it.signedDecimal(t), true
	}
	regN("strconv.FormatInt", func(a []Val) Val { return strconv.FormatInt(a[0].(int64), int(a[1].(int64))) }, fint)
	regN("strconv.FormatUint", func(a []Val) Val { return strconv.FormatUint(a[0].(uint64), int(a[1].(int64))) }, fint)
	aint := func(it *Interp, a []Val) (Val, bool) {
		t, ok := a[1].(*Term)
		if b, ok2 := a[2].(int64); !ok || !ok2 || b != 10 {
			return nil, false
		}
		return it.appendVals(types.Typ[types.Byte], a[0].(sliceV), strBytes(it.signedDecimal(t))), true
	}
	intrinsics["strconv.AppendInt"] = func(it *Interp, fr *frame, fi *fnInfo, a []Val) Val {
		if v, ok := aint(it, a); ok {
			return v
		}
		return it.interpFn(fr, fi, a, nil)
	}
	regN("strconv.Quote", func(a []Val) Val { return strconv.Quote(a[0].(string)) }, func(it *Interp, a []Val) (Val, bool) {
		return it.fmtStr(a[0], &fmtSpec{verb: 'q'}), true
	})
	intrinsics["strconv.ParseFloat"] = parseFloat
	// time's integer formatting: digits without a loop over values
	intrinsics["time.appendInt"] = func(it *Interp, fr *frame, fi *fnInfo, a []Val) Val {
		t, ok := a[1].(*Term)
		w, ok2 := a[2].(int64)
		if !ok || !ok2 {
			return it.interpFn(fr, fi, a, nil)
		}
		f := &fmtSpec{verb: 'd', zero: w > 0, hasWid: w > 0, wid: int(w)}
		if it.truth(boolVal(it.tb.Lt(t, it.tb.Int(0)))) {
			s := strCat("-", it.fmtInt(it.tb.Neg(t), intKind{64, true}, f))
			return it.appendVals(types.Typ[types.Byte], a[0].(sliceV), strBytes(s))
		}
		return it.appendVals(types.Typ[types.Byte], a[0].(sliceV), strBytes(it.fmtInt(t, intKind{64, true}, f)))
	}

	// ---- math ----
	f1 := func(name string, f func(float64) float64) {
		intrinsics["math."+name] = func(it *Interp, fr *frame, fi *fnInfo, a []Val) Val {
			if x, ok := a[0].(float64); ok {
				return f(x)
			}
			x := a[0].(*Term)
			tb := it.tb
			switch name {
			case "Round":
				return it.roundHalfAway(x)
			case "Floor":
				return tb.ToReal(tb.Floor(x))
			case "Ceil":
				return tb.ToReal(tb.Neg(tb.Floor(tb.RNeg(x))))
			case "Trunc":
				if it.p.Decide(tb.rcmp(ORLe, tb.Rat(new(big.Rat)), x)) {
					return tb.ToReal(tb.Floor(x))
				}
				return tb.ToReal(tb.Neg(tb.Floor(tb.RNeg(x))))
			case "Abs":
				if it.p.Decide(tb.rcmp(ORLe, tb.Rat(new(big.Rat)), x)) {
					return x
				}
				return tb.RNeg(x)
			}
			it.unsupported("math.%s of a symbolic float", name)
			return nil
		}
	}
	f1("Round", math.Round)
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Trunc", math.Trunc)
	f1("Abs", math.Abs)
	f1("Sqrt", math.Sqrt)
	f1("Log", math.Log)
	f1("Exp", math.Exp)
	f1("Log10", math.Log10)
	reg(func(it *Interp, a []Val) Val { return it.sscanf(a) }, "fmt.Sscanf")
	reg(func(it *Interp, a []Val) Val {
		f, ok := a[0].(float64)
		k, ok2 := a[1].(uint64)
		if !ok || !ok2 {
			it.unsupported("strconv.FormatFloat of a symbolic float")
		}
		return strconv.FormatFloat(f, byte(k), int(a[2].(int64)), int(a[3].(int64)))
	}, "strconv.FormatFloat")
	reg(func(it *Interp, a []Val) Val { return math.Pow(a[0].(float64), a[1].(float64)) }, "math.Pow", "math.pow")
	reg(func(it *Interp, a []Val) Val { return math.Float64bits(a[0].(float64)) }, "math.Float64bits")
	reg(func(it *Interp, a []Val) Val { return math.Float64frombits(a[0].(uint64)) }, "math.Float64frombits")
	reg(func(it *Interp, a []Val) Val { return uint64(math.Float32bits(float32(a[0].(float64)))) }, "math.Float32bits")
	reg(func(it *Interp, a []Val) Val { return float64(math.Float32frombits(uint32(a[0].(uint64)))) }, "math.Float32frombits")
	reg(func(it *Interp, a []Val) Val { return math.IsNaN(a[0].(float64)) }, "math.IsNaN")
	intrinsics["math.IsInf"] = func(it *Interp, fr *frame, fi *fnInfo, a []Val) Val {
		if x, ok := a[0].(float64); ok {
			return math.IsInf(x, int(a[1].(int64)))
		}
		return false
	}
	intrinsics["math.IsNaN"] = func(it *Interp, fr *frame, fi *fnInfo, a []Val) Val {
		if x, ok := a[0].(float64); ok {
			return math.IsNaN(x)
		}
		return false
	}

	// ---- math/bits ----
	two64 := new(big.Int).Lsh(bigOne, 64)
	reg(func(it *Interp, a []Val) Val {
		x, ok1 := a[0].(uint64)
		y, ok2 := a[1].(uint64)
		if ok1 && ok2 {
			h, l := bits.Mul64(x, y)
			return tupleV{h, l}
		}
		p := it.tb.Mul(it.term(a[0]), it.term(a[1]))
		u := intKind{64, false}
		return tupleV{it.fromTerm(it.tb.Div(p, two64), u), it.fromTerm(it.tb.Mod(p, two64), u)}
	}, "math/bits.Mul64", "math/bits.Mul")
	reg(func(it *Interp, a []Val) Val {
		two32 := new(big.Int).Lsh(bigOne, 32)
		p := it.tb.Mul(it.term(a[0]), it.term(a[1]))
		u := intKind{32, false}
		return tupleV{it.fromTerm(it.tb.Div(p, two32), u), it.fromTerm(it.tb.Mod(p, two32), u)}
	}, "math/bits.Mul32")
	reg(func(it *Interp, a []Val) Val {
		s := it.tb.Add(it.tb.Add(it.term(a[0]), it.term(a[1])), it.term(a[2]))
		u := intKind{64, false}
		return tupleV{it.fromTerm(it.tb.Mod(s, two64), u), it.fromTerm(it.tb.Div(s, two64), u)}
	}, "math/bits.Add64", "math/bits.Add")
	reg(func(it *Interp, a []Val) Val {
		s := it.tb.Sub(it.tb.Sub(it.term(a[0]), it.term(a[1])), it.term(a[2]))
		u := intKind{64, false}
		return tupleV{it.fromTerm(it.tb.Mod(s, two64), u), it.fromTerm(it.tb.Neg(it.tb.Div(s, two64)), u)}
	}, "math/bits.Sub64", "math/bits.Sub")
	intrinsics["math/bits.Div64"] = func(it *Interp, fr *frame, fi *fnInfo, a []Val) Val {
		hi, lo, y := it.term(a[0]), it.term(a[1]), it.term(a[2])
		if it.truth(boolVal(it.tb.Eq0(y))) {
			it.goPanicRT("integer divide by zero")
		}
		if it.truth(boolVal(it.tb.Le(y, hi))) {
			it.goPanicRT("integer overflow")
		}
		n := it.tb.Add(it.tb.MulK(hi, two64), lo)
		q := it.tb.Quo(n, y)
		u := intKind{64, false}
		return tupleV{it.fromTerm(q, u), it.fromTerm(it.tb.Sub(n, it.tb.Mul(q, y)), u)}
	}
	bl := func(w uint, name string, f func(uint64) int) {
		intrinsics["math/bits."+name] = func(it *Interp, fr *frame, fi *fnInfo, a []Val) Val {
			if u, ok := rawBits(a[0]); ok {
				return int64(f(u))
			}
			t := a[0].(*Term)
			if r, ok := it.fun1(t, func(x int64) int64 { return int64(f(uint64(x))) }); ok {
				return it.fromTerm(r, intKind{64, true})
			}
			if strings.HasPrefix(name, "Len") {
				for i := uint(0); i <= w; i++ {
					if i == w || it.p.Decide(it.tb.Lt(t, it.tb.Big(new(big.Int).Lsh(bigOne, i)))) {
						return int64(i)
					}
				}
			}
			it.unsupported("bits.%s of a symbolic value", name)
			return nil
		}
	}
	bl(64, "Len64", bits.Len64)
	bl(64, "Len", func(u uint64) int { return bits.Len64(u) })
	bl(32, "Len32", func(u uint64) int { return bits.Len32(uint32(u)) })
	bl(16, "Len16", func(u uint64) int { return bits.Len16(uint16(u)) })
	bl(8, "Len8", func(u uint64) int { return bits.Len8(uint8(u)) })
	bl(64, "LeadingZeros64", bits.LeadingZeros64)
	bl(64, "TrailingZeros64", bits.TrailingZeros64)
	bl(64, "TrailingZeros", bits.TrailingZeros64)
	bl(32, "TrailingZeros32", func(u uint64) int { return bits.TrailingZeros32(uint32(u)) })
	bl(64, "OnesCount64", bits.OnesCount64)
	intrinsics["internal/runtime/sys.Len64"] = intrinsics["math/bits.Len64"]
	intrinsics["internal/runtime/sys.TrailingZeros64"] = intrinsics["math/bits.TrailingZeros64"]

	// ---- sync ----
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock", "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "(*sync.Pool).Put",
		"(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).register", "internal/godebugs.Lookup", "log.SetFlags", "log.SetPrefix", "log.SetOutput",
		"runtime.registerGodebugs", "internal/godebug.registerMetric", "internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault", "runtime/debug.SetGCPercent", "time.registerLoadFromEmbeddedTZData",
		"runtime.Callers", "internal/runtime/sys.Prefetch", "runtime.procyield", "sync.runtime_registerPoolCleanup", "sync.fatal", "sync.throw", "os.runtime_beforeExit", "internal/poll.runtime_Semrelease"} {
		intrinsics[n] = nop
	}
	reg(func(it *Interp, a []Val) Val { return true }, "(*sync.Mutex).TryLock")
	intrinsics["(*sync.Pool).Get"] = func(it *Interp, fr *frame, fi *fnInfo, a []Val) Val {
		st := (*it.ptr(a[0])).(structV)
		nf := st[len(st)-1]
		if isNilFunc(nf) {
			return iface{}
		}
		return it.call(fr, nf, nil)
	}
	load := func(it *Interp, a []Val) Val { return it.load(it.ptr(a[0])) }
	for _, p := range []string{"sync/atomic.Load", "internal/runtime/atomic.Load"} {
		for _, t := range []string{"", "Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer", "Acq", "64", "8", "p", "Acquintptr", "uintptr"} {
			reg(load, p+t)
		}
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg(func(it *Interp, a []Val) Val { it.store(it.ptr(a[0]), a[1]); return nil }, "sync/atomic.Store"+t)
		reg(func(it *Interp, a []Val) Val {
			p := it.ptr(a[0])
			o := it.load(p)
			it.store(p, a[1])
			return o
		}, "sync/atomic.Swap"+t)
		reg(func(it *Interp, a []Val) Val {
			p := it.ptr(a[0])
			if it.truth(it.eq(it.load(p), a[1])) {
				it.store(p, a[2])
				return true
			}
			return false
		}, "sync/atomic.CompareAndSwap"+t)
		k := intKind{64, t[0] == 'I'}
		if strings.HasSuffix(t, "32") {
			k.bits = 32
		}
		reg(func(it *Interp, a []Val) Val {
			p := it.ptr(a[0])
			v := it.intOp(addTok, k, it.load(p), a[1], types.Typ[types.Int])
			it.store(p, v)
			return v
		}, "sync/atomic.Add"+t)
	}

	// ---- runtime, reflectlite, errors ----
	reg(func(it *Interp, a []Val) Val { return "/usr/local/go" }, "runtime.GOROOT")
	reg(func(it *Interp, a []Val) Val { return int64(1700000000000000000) }, "time.runtimeNano", "runtime.nanotime")
	reg(func(it *Interp, a []Val) Val { return tupleV{uint64(0), "", int64(0), false} }, "runtime.Caller")
	reg(func(it *Interp, a []Val) Val { return tupleV{int64(1893456000), int64(0), int64(0)} }, "time.now", "time.runtimeNow", "time.runtime_now")
	reg(func(it *Interp, a []Val) Val { return nil }, "time.initLocal") // the checks run in UTC
	reg(func(it *Interp, a []Val) Val { return structV{nil, a[0], uint64(0)} }, "internal/reflectlite.ValueOf")
	reg(func(it *Interp, a []Val) Val {
		x := a[0].(structV)[1].(iface)
		switch s := x.v.(type) {
		case sliceV:
			return int64(len(s.a))
		case string, *symStr:
			return int64(strLen(s))
		}
		it.unsupported("reflectlite Len of %T", x.v)
		return nil
	}, "(internal/reflectlite.Value).Len")
	reg(func(it *Interp, a []Val) Val {
		s := a[0].(iface).v.(sliceV)
		return &hostFunc{"swapper", func(it *Interp, b []Val) Val {
			i, j := it.index(b[0], len(s.a)), it.index(b[1], len(s.a))
			x, y := copyVal(s.a[i]), copyVal(s.a[j])
			it.store(&s.a[i], y)
			it.store(&s.a[j], x)
			return nil
		}}
	}, "internal/reflectlite.Swapper", "reflect.Swapper")
	intrinsics["errors.Is"] = func(it *Interp, fr *frame, fi *fnInfo, a []Val) Val {
		e, target := a[0].(iface), a[1].(iface)
		for depth := 0; depth < 20; depth++ {
			if e.t == nil {
				return target.t == nil
			}
			if target.t != nil && types.Comparable(target.t) && it.truth(it.eq(e, target)) {
				return true
			}
			if m := it.methodNamed(e.t, "Is"); m != nil {
				if it.truth(it.callFn(fr, m, []Val{e.v, target}, nil)) {
					return true
				}
			}
			m := it.methodNamed(e.t, "Unwrap")
			if m == nil {
				return false
			}
			r, ok := it.callFn(fr, m, []Val{e.v}, nil).(iface)
			if !ok {
				it.unsupported("errors.Is over a list")
			}
			e = r
		}
		return false
	}
	reg(func(it *Interp, a []Val) Val {
		s := (*it.ptr(a[0])).(structV)
		if l, ok := s[0].(*lazyStr); ok {
			return it.force(l)
		}
		return s[0]
	}, "(*errors.errorString).Error")

	// ---- fmt, log ----
	va := func(v Val) []Val { return v.(sliceV).a }
	reg(func(it *Interp, a []Val) Val { return it.sprintf(a[0], va(a[1])) }, "fmt.Sprintf")
	reg(func(it *Interp, a []Val) Val { return it.sprint(va(a[0]), false) }, "fmt.Sprint")
	reg(func(it *Interp, a []Val) Val { return it.sprint(va(a[0]), true) }, "fmt.Sprintln")
	out := func(it *Interp, s Val) Val {
		it.world.out = append(it.world.out, strBytes(s)...)
		return tupleV{int64(strLen(s)), iface{}}
	}
	reg(func(it *Interp, a []Val) Val { return out(it, it.sprintf(a[0], va(a[1]))) }, "fmt.Printf")
	reg(func(it *Interp, a []Val) Val { return out(it, it.sprint(va(a[0]), false)) }, "fmt.Print")
	reg(func(it *Interp, a []Val) Val { return out(it, it.sprint(va(a[0]), true)) }, "fmt.Println")
	wr := func(it *Interp, w Val, s Val) Val {
		x := w.(iface)
		if x.t == nil {
			it.nilDeref()
		}
		if p, ok := x.v.(*Val); ok {
			if st := it.cellFile[p]; st != nil {
				n, e := it.fileWrite(p, strBytes(s))
				return tupleV{int64(n), e}
			}
		}
		m := it.methodNamed(x.t, "Write")
		b := strBytes(s)
		return it.callFn(it.cur, m, []Val{x.v, sliceV{append([]Val{}, b...)}}, nil)
	}
	reg(func(it *Interp, a []Val) Val { return wr(it, a[0], it.sprintf(a[1], va(a[2]))) }, "fmt.Fprintf")
	reg(func(it *Interp, a []Val) Val { return wr(it, a[0], it.sprint(va(a[1]), false)) }, "fmt.Fprint")
	reg(func(it *Interp, a []Val) Val { return wr(it, a[0], it.sprint(va(a[1]), true)) }, "fmt.Fprintln")
	reg(func(it *Interp, a []Val) Val {
		args := append([]Val{}, va(a[1])...)
		if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
			for _, x := range args {
				e := x.(iface)
				if e.t == nil {
					continue
				}
				if m := it.methodNamed(e.t, "Error"); m != nil {
					t := it.namedType("fmt", "wrapError")
					return iface{it.eng.ptrTo(t), it.newPtr(structV{it.sprintf(a[0], args), e})}
				}
			}
		}
		return it.errorString(&lazyStr{format: a[0], args: args})
	}, "fmt.Errorf")
	logf := func(it *Interp, a []Val) Val {
		f, _ := a[0].(string)
		it.world.err = append(it.world.err, strBytes(f+"\n")...)
		return nil
	}
	reg(logf, "log.Printf")
	reg(func(it *Interp, a []Val) Val { it.world.err = append(it.world.err, strBytes("log\n")...); return nil }, "log.Println", "log.Print")
	fatal := func(it *Interp, a []Val) Val {
		it.world.err = append(it.world.err, strBytes("fatal\n")...)
		panic(exitPanic{1})
	}
	reg(fatal, "log.Fatal", "log.Fatalf", "log.Fatalln")
	reg(func(it *Interp, a []Val) Val {
		panic(goPanic{v: iface{types.Typ[types.String], it.sprintf(a[0], va(a[1]))}, pos: it.where()})
	}, "log.Panicf")

	// ---- os ----
	specialInit["os"] = func(it *Interp, pk *ssa.Package) {
		ft := it.namedType("os", "File")
		for i, n := range []string{"Stdin", "Stdout", "Stderr"} {
			c := it.newCell(ft)
			it.cellFile[c] = &fileState{fd: i}
			if i == 0 {
				it.cellFile[c] = &fileState{f: &vfile{failAt: -1}}
			}
			*it.globals[pk.Var(n)] = c
		}
		for _, n := range []string{"ErrNotExist", "ErrExist", "ErrPermission", "ErrInvalid", "ErrClosed"} {
			if g := pk.Var(n); g != nil {
				*it.globals[g] = it.globalVal("io/fs", n)
			}
		}
		*it.globals[pk.Var("Args")] = sliceV{[]Val{"prog"}}
	}
	specialInit["syscall"] = func(it *Interp, pk *ssa.Package) {}
	specialInit["internal/godebug"] = func(it *Interp, pk *ssa.Package) {}
	specialInit["runtime"] = func(it *Interp, pk *ssa.Package) {}
	specialInit["internal/cpu"] = func(it *Interp, pk *ssa.Package) {}
	reg(func(it *Interp, a []Val) Val {
		f, e := it.openFile(a[0])
		return tupleV{f, e}
	}, "os.Open", "os.OpenFile")
	reg(func(it *Interp, a []Val) Val {
		n, e := it.fileRead(a[0], a[1].(sliceV))
		return tupleV{int64(n), e}
	}, "(*os.File).Read")
	reg(func(it *Interp, a []Val) Val {
		n, e := it.fileWrite(a[0], a[1].(sliceV).a)
		return tupleV{int64(n), e}
	}, "(*os.File).Write")
	reg(func(it *Interp, a []Val) Val {
		n, e := it.fileWrite(a[0], strBytes(a[1]))
		return tupleV{int64(n), e}
	}, "(*os.File).WriteString")
	reg(func(it *Interp, a []Val) Val {
		if p, ok := a[0].(*Val); ok && p != nil {
			if st := it.cellFile[p]; st != nil {
				old := st.shut
				st.shut = true
				it.trailFn(func() { st.shut = old })
			}
		}
		return iface{}
	}, "(*os.File).Close")
	reg(func(it *Interp, a []Val) Val {
		f, e := it.openFile(a[0])
		if e.t != nil {
			return tupleV{sliceV{}, e}
		}
		var all []Val
		buf := it.makeSlice(types.Typ[types.Byte], 512, 512)
		for {
			n, e := it.fileRead(f, buf)
			all = append(all, append([]Val{}, buf.a[:n]...)...)
			if e.t != nil {
				if it.truth(it.eq(e, it.globalVal("io", "EOF"))) {
					return tupleV{sliceV{all}, iface{}}
				}
				return tupleV{sliceV{all}, e}
			}
		}
	}, "os.ReadFile")
	reg(func(it *Interp, a []Val) Val { return it.world.env[goStr(it, a[0])] }, "os.Getenv")
	reg(func(it *Interp, a []Val) Val {
		v, ok := it.world.env[goStr(it, a[0])]
		return tupleV{v, ok}
	}, "os.LookupEnv")
	reg(func(it *Interp, a []Val) Val { return nil }, "(*flag.FlagSet).PrintDefaults") // help on the error output, through reflection
	reg(func(it *Interp, a []Val) Val {
		c, _ := a[0].(int64)
		panic(exitPanic{int(c)})
	}, "os.Exit")

	// ---- math/big ----
	initBig()
	initVX()
}

func (it *Interp) methodNamed(t types.Type, name string) *ssa.Function {
	it.eng.mu.Lock()
	ms := it.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(nil, name)
	it.eng.mu.Unlock()
	if sel == nil {
		return nil
	}
	return it.findMethod(t, sel.Obj().(*types.Func))
}

// parseFloat: decimal texts with symbolic digits become reals; everything else is interpreted or native.
func parseFloat(it *Interp, fr *frame, fi *fnInfo, a []Val) Val {
	if s, ok := a[0].(string); ok {
		f, err := strconv.ParseFloat(s, int(a[1].(int64)))
		if err == nil {
			return tupleV{f, iface{}}
		}
		return tupleV{f, it.errorString("strconv.ParseFloat: " + err.Error())}
	}
	b := strBytes(a[0])
	tb := it.tb
	fail := func() Val { return tupleV{float64(0), it.errorString("strconv.ParseFloat: invalid syntax")} }
	i := 0
	neg := false
	if it.truth(it.eq(b[0], uint64('-'))) {
		neg = true
		i++
	} else if it.truth(it.eq(b[0], uint64('+'))) {
		i++
	}
	num := tb.Int(0)
	digits, frac, dot := 0, 0, false
	for ; i < len(b); i++ {
		c := it.term(b[i])
		if it.p.Decide(tb.And(tb.Le(tb.Int('0'), c), tb.Le(c, tb.Int('9')))) {
			num = tb.Add(tb.MulK(num, big.NewInt(10)), tb.AddK(c, big.NewInt(-'0')))
			digits++
			if dot {
				frac++
			}
			continue
		}
		if !dot && it.p.Decide(tb.Eq(c, tb.Int('.'))) {
			dot = true
			continue
		}
		// exponents, underscores, hexadecimal, inf and nan are outside the bound
		if it.p.Decide(tb.Or(tb.Eq(c, tb.Int('e')), tb.Eq(c, tb.Int('E')), tb.Eq(c, tb.Int('_')), tb.Eq(c, tb.Int('x')), tb.Eq(c, tb.Int('X')),
			tb.Eq(c, tb.Int('i')), tb.Eq(c, tb.Int('I')), tb.Eq(c, tb.Int('n')), tb.Eq(c, tb.Int('N')), tb.Eq(c, tb.Int('p')), tb.Eq(c, tb.Int('P')))) {
			it.unsupported("ParseFloat of exponent, hexadecimal, infinity or NaN syntax")
		}
		return fail()
	}
	if digits == 0 {
		return fail()
	}
	if digits > 15 {
		it.unsupported("ParseFloat of more than 15 digits")
	}
	x := tb.ToReal(num)
	if neg {
		x = tb.RNeg(x)
	}
	if frac == 0 {
		return tupleV{realVal(x), iface{}}
	}
	x = tb.rbin(ORMul, x, tb.Rat(new(big.Rat).SetFrac(bigOne, pow10[frac])))
	return tupleV{realVal(it.rounded(x)), iface{}}
}

func realVal(t *Term) Val {
	if t.op == OReal {
		f, _ := t.rat.Float64()
		return f
	}
	return t
}

var _ = fmt.Sprint

func (it *Interp) setGlobal(g, p interface{})       { it.globals[g.(*ssa.Global)] = p.(*Val) }
func (it *Interp) setPkgState(p interface{}, s int) { it.pkgState[p.(*ssa.Package)] = s }

// sscanf is fmt.Sscanf of texts that do not depend on the input, into integers.
func (it *Interp) sscanf(a []Val) Val {
	text, ok1 := a[0].(string)
	format, ok2 := a[1].(string)
	if !ok1 || !ok2 {
		it.unsupported("fmt.Sscanf of a symbolic text")
	}
	var ptrs []*Val
	var real []interface{}
	for _, x := range a[2].(sliceV).a {
		i := x.(iface)
		p, ok := i.t.Underlying().(*types.Pointer)
		if !ok {
			it.unsupported("fmt.Sscanf into %s", i.t)
		}
		if b, ok := p.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
			it.unsupported("fmt.Sscanf into %s", i.t)
		}
		v := i.v.(*Val)
		n, ok := it.load(v).(int64)
		if !ok {
			it.unsupported("fmt.Sscanf into a symbolic integer")
		}
		k := int(n)
		ptrs = append(ptrs, v)
		real = append(real, &k)
	}
	n, err := fmt.Sscanf(text, format, real...)
	for i, p := range ptrs {
		it.set(p, int64(*real[i].(*int)))
	}
	if err != nil {
		return tupleV{int64(n), it.errorString(err.Error())}
	}
	return tupleV{int64(n), iface{}}
}

func (it *Interp) osArgs() *ssa.Global { return it.prog.ImportedPackage("os").Var("Args") }
