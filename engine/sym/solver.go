package sym

import (
	"bufio"
	"fmt"
	"io"
	"io/ioutil"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Errors int
	Fallback                             int
	Time                                 time.Duration
	Max                                  time.Duration
}

func (s *SolverStats) add(o SolverStats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Errors += o.Errors
	s.Fallback += o.Fallback
	s.Time += o.Time
	if o.Max > s.Max {
		s.Max = o.Max
	}
}

// Solver drives one SMT-LIB2 process; its assertion stack mirrors a path condition.
type Solver struct {
	argv    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	stack   []*Term // asserted, one scope each
	defs    []int   // term ids defined, in order
	defMark []int   // len(defs) at each scope
	defined map[int]string
	vars    []*Term // declared variables, in order (parallel marks)
	varMark []int
	Stats   SolverStats
	timeout time.Duration
	nl      *Solver // for queries with products or quotients of variables: asked from scratch, without scopes
	once    bool
}

func NewSolver(argv []string, timeout time.Duration) *Solver {
	return &Solver{argv: argv, timeout: timeout, defined: map[int]string{}}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.inc, s.out = bufio.NewWriterSize(w, 1<<16), w, bufio.NewReaderSize(r, 1<<16)
	s.stack, s.defs, s.defMark, s.vars, s.varMark = nil, nil, nil, nil, nil
	s.defined = map[int]string{}
	if strings.Contains(s.argv[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout.Milliseconds())
	} else {
		fmt.Fprintf(s.in, "(set-option :tlimit-per %d)\n(set-option :produce-models true)\n(set-logic ALL)\n", s.timeout.Milliseconds())
	}
	return nil
}

func (s *Solver) Close() {
	if s.nl != nil {
		s.nl.Close()
	}
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func smtInt(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func smtRat(r *big.Rat) string {
	n := smtInt(r.Num())
	if r.Sign() < 0 {
		return fmt.Sprintf("(- (/ %s.0 %s.0))", new(big.Int).Neg(r.Num()), r.Denom())
	}
	return fmt.Sprintf("(/ %s.0 %s.0)", n, r.Denom())
}

// ref returns an SMT expression for t, emitting declarations and definitions as needed.
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return smtInt(t.k)
	case OReal:
		return smtRat(t.rat)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	}
	if r, ok := s.defined[t.id]; ok {
		return r
	}
	switch t.op {
	case OVar:
		n := fmt.Sprintf("v%d", t.id)
		fmt.Fprintf(s.in, "(declare-const %s Int)\n(assert (and (<= %s %s) (<= %s %s)))\n", n, smtInt(t.v.Lo), n, n, smtInt(t.v.Hi))
		s.defined[t.id] = n
		s.defs = append(s.defs, t.id)
		s.vars = append(s.vars, t)
		return n
	case ORVar:
		n := fmt.Sprintf("r%d", t.id)
		fmt.Fprintf(s.in, "(declare-const %s Real)\n", n)
		s.defined[t.id] = n
		s.defs = append(s.defs, t.id)
		return n
	}
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = s.ref(a)
	}
	var e string
	sort := "Int"
	switch t.op {
	case OLin:
		var l []string
		if t.k.Sign() != 0 {
			l = append(l, smtInt(t.k))
		}
		for i, a := range as {
			if t.coefs[i].Cmp(bigOne) == 0 {
				l = append(l, a)
			} else {
				l = append(l, "(* "+smtInt(t.coefs[i])+" "+a+")")
			}
		}
		if len(l) == 1 {
			e = l[0]
		} else {
			e = "(+ " + strings.Join(l, " ") + ")"
		}
	case OMul:
		e = "(* " + as[0] + " " + as[1] + ")"
	case ODiv:
		e = "(div " + as[0] + " " + smtInt(t.k) + ")"
	case OMod:
		e = "(mod " + as[0] + " " + smtInt(t.k) + ")"
	case OQuo:
		// fresh quotient and remainder with the defining property of truncated division
		n := fmt.Sprintf("t%d", t.id)
		x, y := as[0], as[1]
		fmt.Fprintf(s.in, "(declare-const %s Int)\n(declare-const %sr Int)\n", n, n)
		fmt.Fprintf(s.in, "(assert (=> (not (= %s 0)) (and (= %s (+ (* %s %s) %sr)) (< (abs %sr) (abs %s)) (=> (>= %s 0) (>= %sr 0)) (=> (<= %s 0) (<= %sr 0)))))\n", y, x, n, y, n, n, y, x, n, x, n)
		fmt.Fprintf(s.in, "(assert (=> (= %s 0) (= %s 0)))\n", y, n)
		// consequences of the above which are linear
		for _, k := range []int64{1, 1 << 25} {
			fmt.Fprintf(s.in, "(assert (=> (>= (abs %s) %d) (<= (* %d (abs %s)) (abs %s))))\n", y, k, k, n, x)
		}
		s.defined[t.id] = n
		s.defs = append(s.defs, t.id)
		return n
	case OWrap:
		e = "(+ (mod (- " + as[0] + " " + smtInt(t.coefs[0]) + ") " + smtInt(t.k) + ") " + smtInt(t.coefs[0]) + ")"
	case OIte:
		e = "(ite " + strings.Join(as, " ") + ")"
	case OFloor:
		e = "(to_int " + as[0] + ")"
	case OLe0:
		e, sort = "(<= "+as[0]+" 0)", "Bool"
	case OEq0:
		e, sort = "(= "+as[0]+" 0)", "Bool"
	case OAnd:
		e, sort = "(and "+strings.Join(as, " ")+")", "Bool"
	case OOr:
		e, sort = "(or "+strings.Join(as, " ")+")", "Bool"
	case ONot:
		e, sort = "(not "+as[0]+")", "Bool"
	case OInSet:
		sort = "Bool"
		var l []string
		lo := t.args[0].v.Lo
		for i := 0; i < 256; i++ {
			if !t.set.has(i) {
				continue
			}
			j := i
			for j+1 < 256 && t.set.has(j+1) {
				j++
			}
			a, b := new(big.Int).Add(lo, big.NewInt(int64(i))), new(big.Int).Add(lo, big.NewInt(int64(j)))
			if i == j {
				l = append(l, "(= "+as[0]+" "+smtInt(a)+")")
			} else {
				l = append(l, "(and (<= "+smtInt(a)+" "+as[0]+") (<= "+as[0]+" "+smtInt(b)+"))")
			}
			i = j
		}
		if len(l) == 1 {
			e = l[0]
		} else {
			e = "(or " + strings.Join(l, " ") + ")"
		}
	case OToReal:
		e, sort = "(to_real "+as[0]+")", "Real"
	case ORAdd:
		e, sort = "(+ "+as[0]+" "+as[1]+")", "Real"
	case ORMul:
		e, sort = "(* "+as[0]+" "+as[1]+")", "Real"
	case ORDivC:
		e, sort = "(/ "+as[0]+" "+as[1]+")", "Real"
	case ORNeg:
		e, sort = "(- "+as[0]+")", "Real"
	case ORIte:
		e, sort = "(ite "+strings.Join(as, " ")+")", "Real"
	case ORLe:
		e, sort = "(<= "+as[0]+" "+as[1]+")", "Bool"
	case ORLt:
		e, sort = "(< "+as[0]+" "+as[1]+")", "Bool"
	case OREq:
		e, sort = "(= "+as[0]+" "+as[1]+")", "Bool"
	default:
		panic(fmt.Sprintf("smt: op %d", t.op))
	}
	n := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", n, sort, e)
	s.defined[t.id] = n
	s.defs = append(s.defs, t.id)
	return n
}

func (s *Solver) push() {
	fmt.Fprintln(s.in, "(push 1)")
	s.defMark = append(s.defMark, len(s.defs))
	s.varMark = append(s.varMark, len(s.vars))
}

func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	fmt.Fprintf(s.in, "(pop %d)\n", n)
	m := s.defMark[len(s.defMark)-n]
	for _, id := range s.defs[m:] {
		delete(s.defined, id)
	}
	s.defs = s.defs[:m]
	s.vars = s.vars[:s.varMark[len(s.varMark)-n]]
	s.defMark = s.defMark[:len(s.defMark)-n]
	s.varMark = s.varMark[:len(s.varMark)-n]
}

func (s *Solver) sync(pc []*Term) {
	i := 0
	for i < len(pc) && i < len(s.stack) && pc[i] == s.stack[i] {
		i++
	}
	s.pop(len(s.stack) - i)
	s.stack = append([]*Term{}, s.stack[:i]...)
	for ; i < len(pc); i++ {
		s.push()
		fmt.Fprintf(s.in, "(assert %s)\n", s.ref(pc[i]))
		s.stack = append(s.stack, pc[i])
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc /\ extra. With wantModel, a satisfying assignment of the variables is returned.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (Result, map[*VarInfo]*big.Int) {
	t0 := time.Now()
	q := s
	if strings.Contains(s.argv[0], "z3") && nonlinear(pc, extra) {
		if s.nl == nil {
			s.nl = NewSolver(s.argv, s.timeout)
			s.nl.once = true
		}
		q = s.nl
	}
	r, m := q.check(pc, extra, wantModel)
	if q != s {
		s.Stats.add(q.Stats)
		q.Stats = SolverStats{}
	}
	if r == Unknown {
		s.Stats.Unknown++
	}
	if dumpDir != "" && time.Since(t0) > 3*time.Second {
		dumpQuery(pc, extra, r)
	}
	return r, m
}

func nonlinear(pc []*Term, extra *Term) bool {
	if extra != nil && extra.hasNL {
		return true
	}
	for _, c := range pc {
		if c.hasNL {
			return true
		}
	}
	return false
}

// dumpDir is where to leave the slow queries, for study.
var dumpDir = os.Getenv("VX_DUMPQ")

func dumpQuery(pc []*Term, extra *Term, r Result) {
	f, err := ioutil.TempFile(dumpDir, r.String()+"*.smt2")
	if err != nil {
		return
	}
	defer f.Close()
	d := NewSolver(nil, 0)
	d.in = bufio.NewWriter(f)
	d.sync(pc)
	if extra != nil {
		fmt.Fprintf(d.in, "(assert %s)\n", d.ref(extra))
	}
	fmt.Fprintln(d.in, "(check-sat)")
	d.in.Flush()
}

func (s *Solver) check(pc []*Term, extra *Term, wantModel bool) (Result, map[*VarInfo]*big.Int) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.Stats.Errors++
			return Unknown, nil
		}
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Stats.Time += d
		if d > s.Stats.Max {
			s.Stats.Max = d
		}
	}()
	s.Stats.Queries++
	if s.once {
		fmt.Fprintf(s.in, "(reset)\n(set-option :timeout %d)\n", s.timeout.Milliseconds())
		s.defs, s.vars, s.defined = nil, nil, map[int]string{}
		for _, c := range pc {
			fmt.Fprintf(s.in, "(assert %s)\n", s.ref(c))
		}
	} else {
		s.sync(pc)
		s.push()
	}
	if extra != nil {
		fmt.Fprintf(s.in, "(assert %s)\n", s.ref(extra))
	}
	fmt.Fprintln(s.in, "(check-sat)")
	s.in.Flush()
	// watchdog: a solver that ignores its own limit is killed
	proc := s.cmd.Process
	wd := time.AfterFunc(s.timeout+10*time.Second, func() { proc.Kill() })
	l, err := s.readLine()
	for err == nil && strings.HasPrefix(l, "(error") {
		s.Stats.Errors++
		// a rejected command may have dropped an assertion: this answer is not trusted
		wd.Stop()
		s.Close()
		return Unknown, nil
	}
	wd.Stop()
	if err != nil {
		s.Stats.Errors++
		s.Close()
		return Unknown, nil
	}
	res := Unknown
	switch l {
	case "sat":
		res = Sat
		s.Stats.Sat++
	case "unsat":
		res = Unsat
		s.Stats.Unsat++
	case "unknown", "timeout":
	default:
		s.Stats.Errors++
		s.Close()
		return Unknown, nil
	}
	var model map[*VarInfo]*big.Int
	if res == Sat && wantModel {
		model = map[*VarInfo]*big.Int{}
		if len(s.vars) > 0 {
			var sb strings.Builder
			for _, v := range s.vars {
				fmt.Fprintf(&sb, " v%d", v.id)
			}
			fmt.Fprintf(s.in, "(get-value (%s))\n", sb.String())
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil || strings.HasPrefix(txt, "(error") {
				s.Stats.Errors++
				s.Close()
				return Unknown, nil
			}
			vals := parseValues(txt)
			for i, v := range s.vars {
				if i < len(vals) {
					model[v.v] = vals[i]
				}
			}
		}
	}
	if !s.once {
		s.pop(1)
	}
	return res, model
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			return strings.TrimSpace(sb.String()), nil
		}
	}
}

// parseValues parses ((v1 5) (v2 (- 3)) ...) into the values, in order.
func parseValues(txt string) []*big.Int {
	txt = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt)
	toks := strings.Fields(txt)
	var out []*big.Int
	neg := false
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		if t == "-" {
			neg = true
			continue
		}
		if t[0] >= '0' && t[0] <= '9' {
			k, ok := new(big.Int).SetString(t, 10)
			if ok {
				if neg {
					k.Neg(k)
				}
				out = append(out, k)
			}
			neg = false
		} else if t[0] == '-' && len(t) > 1 {
			k, ok := new(big.Int).SetString(t, 10)
			if ok {
				out = append(out, k)
			}
		}
	}
	return out
}
