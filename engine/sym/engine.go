package sym

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const Module = "github.com/cespedes/accounting"
const VXPath = Module + "/zzvx/vx"
const HPath = Module + "/zzvx/h"
const MainPath = Module + "/cmd/ledger"
const CmdPath = Module + "/cmd/"

// Engine holds the program under analysis, loaded from the repository's current source.
type Engine struct {
	prog   *ssa.Program
	pkgs   []*ssa.Package
	sizes  types.Sizes
	rtErrT types.Type
	mu     sync.Mutex
	ptrs   map[types.Type]types.Type
	H      *ssa.Package
	Main   *ssa.Package
	Tool   *ssa.Package // another command, where asked for
	Load   time.Duration
}

func (e *Engine) ptrTo(t types.Type) types.Type {
	e.mu.Lock()
	defer e.mu.Unlock()
	if p := e.ptrs[t]; p != nil {
		return p
	}
	p := types.NewPointer(t)
	e.ptrs[t] = p
	return p
}

func (e *Engine) classify(path string, fn *ssa.Function) (repo, harness bool) {
	if !strings.HasPrefix(path, Module) {
		return false, false
	}
	if strings.HasPrefix(path, Module+"/zzvx") {
		return false, true
	}
	if f := fn.Pos(); f.IsValid() {
		if strings.HasPrefix(baseName(e.prog.Fset.Position(f).Filename), "zz_vx") {
			return false, true
		}
	}
	return true, false
}

func baseName(s string) string { return s[strings.LastIndexByte(s, '/')+1:] }

func (e *Engine) eager(path string) bool { return strings.HasPrefix(path, Module) }

// LoadEngine loads cmd/ledger of the repository with the harness packages laid over it.
func LoadEngine(repo string, overlay map[string][]byte, tool string, flags []string) (*Engine, error) {
	t0 := time.Now()
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Overlay:    overlay,
		BuildFlags: flags,
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off"),
	}
	paths := []string{MainPath}
	if tool != "" {
		paths = append(paths, CmdPath+tool)
	}
	pkgs, err := packages.Load(cfg, paths...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			errs = append(errs, er.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: spkgs, ptrs: map[types.Type]types.Type{}, sizes: types.SizesFor("gc", "amd64")}
	for _, p := range prog.AllPackages() {
		switch p.Pkg.Path() {
		case HPath:
			e.H = p
		case MainPath:
			e.Main = p
		case CmdPath + tool:
			e.Tool = p
		}
	}
	if e.H == nil || e.Main == nil || tool != "" && e.Tool == nil {
		return nil, fmt.Errorf("harness package not loaded")
	}
	rt := prog.ImportedPackage("runtime")
	e.rtErrT = rt.Pkg.Scope().Lookup("errorString").Type()
	e.Load = time.Since(t0)
	return e, nil
}

// Violation is a counterexample found by the solver.
type Violation struct {
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
	Inputs  map[string]string `json:"inputs"` // name#n -> value
	MapDep  bool              `json:"map_order_dependent"`
	Detail  string            `json:"detail"`
}

// Sample is one explored path with concrete inputs and the observations the engine predicts.
type Sample struct {
	Inputs map[string]string `json:"inputs"`
	Obs    []string          `json:"obs"`
	End    string            `json:"end"`
	MapDep bool              `json:"map_order_dependent"`
	Decs   int               `json:"decisions"`
}

type Options struct {
	Workers    int
	MaxSteps   int64
	MaxDepth   int
	Deadline   time.Time
	Tier       int
	SampleN    int
	SolverTime time.Duration
	Z3         string
	Debug      bool
	MaxViol    int
	Seed       uint64
}

type Report struct {
	Harness     string
	Paths       int
	Ends        map[string]int
	Unsupported map[string]int
	Bounds      map[string]int
	EngineErrs  map[string]int
	Obligations int
	Trivial     int
	UnknownA    int
	UnknownB    int
	Forks       int
	Steps       int64
	Solver      SolverStats
	Covers      map[string]int
	Funcs       map[string]bool // repository functions executed symbolically
	Violations  []*Violation
	Probes      []*Violation // inputs of paths which the encoding could not follow to the end
	Samples     []*Sample
	Exhausted   bool
	Wall        time.Duration
	ByLabel     map[string]int
	DepthMax    int
}

// Worker explores paths with its own interpreter and solver.
type Worker struct {
	run                 *runState
	it                  *Interp
	tb                  *TB
	solver              *Solver
	fallback            *Solver
	unknownBranch       int
	unknownAssert       int
	tvars               map[int][]int
	unsat, sat          map[string]bool
	cached              int
	obligations         int
	triviallyDischarged int
	labels              map[string]int
	covers              map[string]int
}

type runState struct {
	eng    *Engine
	opt    Options
	fn     *ssa.Function
	mu     sync.Mutex
	cond   *sync.Cond
	stack  [][]Decision
	active int
	stop   bool
	rep    *Report
	viol   map[string]int
	probes map[string]int
	nprobe int
	nviol  int32
	forks  int64
	rnd    uint64
}

// varsOf lists the variables of t.
func (w *Worker) varsOf(t *Term) []int {
	if l, ok := w.tvars[t.id]; ok {
		return l
	}
	var l []int
	if t.op == OVar || t.op == ORVar {
		l = []int{t.id}
	} else if t.nv > 0 {
		set := map[int]bool{}
		for _, a := range t.args {
			for _, v := range w.varsOf(a) {
				if !set[v] {
					set[v] = true
					l = append(l, v)
				}
			}
		}
	}
	w.tvars[t.id] = l
	return l
}

// related returns the part of pc connected to c through shared variables.
func (w *Worker) related(pc []*Term, c *Term) []*Term {
	in := map[int]bool{}
	for _, v := range w.varsOf(c) {
		in[v] = true
	}
	used := make([]bool, len(pc))
	for again := true; again; {
		again = false
		for i, t := range pc {
			if used[i] {
				continue
			}
			for _, v := range w.varsOf(t) {
				if in[v] {
					used[i], again = true, true
					break
				}
			}
			if used[i] {
				for _, v := range w.varsOf(t) {
					in[v] = true
				}
			}
		}
	}
	var l []*Term
	for i, t := range pc {
		if used[i] {
			l = append(l, t)
		}
	}
	return l
}

func (w *Worker) check(pc []*Term, c *Term, model bool) (Result, map[*VarInfo]*big.Int) {
	if c != nil && nonlinear(pc, c) {
		// Such queries are dear. What is not connected to c cannot make it infeasible, and the same question comes up on
		// many paths.
		part := w.related(pc, c)
		l := make([]int, len(part))
		for i, t := range part {
			l[i] = t.id
		}
		sort.Ints(l)
		key := fmt.Sprint(l, c.id)
		if w.unsat[key] {
			w.cached++
			return Unsat, nil
		}
		if len(part) < len(pc) && !w.sat[key] {
			r, _ := w.solver.Check(part, c, false)
			switch r {
			case Unsat:
				w.unsat[key] = true
				return r, nil
			case Sat:
				w.sat[key] = true
			}
		}
		r, m := w.solver.Check(pc, c, model)
		if r == Unsat && len(part) == len(pc) {
			w.unsat[key] = true
		}
		return r, m
	}
	return w.solver.Check(pc, c, model)
}

// checkFallback asks a second solver.
func (w *Worker) checkFallback(pc []*Term, c *Term) (Result, map[*VarInfo]*big.Int) {
	if w.fallback == nil {
		w.fallback = NewSolver([]string{"cvc5", "--lang=smt2", "--incremental", "-q"}, w.run.opt.SolverTime)
	}
	w.fallback.Stats.Fallback++
	r, m := w.fallback.Check(pc, c, true)
	if m != nil {
		// cvc5 variables are the same VarInfo objects
		return r, m
	}
	return r, nil
}

func (w *Worker) pushAlt(d []Decision) {
	r := w.run
	r.mu.Lock()
	r.stack = append(r.stack, d)
	r.forks++
	r.cond.Signal()
	r.mu.Unlock()
}

// Run explores every path of harness function name within the options' bounds.
func (e *Engine) Run(name string, opt Options) (*Report, error) {
	fn := e.H.Func(name)
	if fn == nil {
		return nil, fmt.Errorf("no harness %s", name)
	}
	if opt.Workers == 0 {
		opt.Workers = 8
	}
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 4_000_000
	}
	if opt.MaxDepth == 0 {
		opt.MaxDepth = 2000
	}
	if opt.SolverTime == 0 {
		opt.SolverTime = 20 * time.Second
	}
	if opt.MaxViol == 0 {
		opt.MaxViol = 6
	}
	r := &runState{eng: e, opt: opt, fn: fn, viol: map[string]int{}, probes: map[string]int{}, rnd: opt.Seed}
	r.cond = sync.NewCond(&r.mu)
	r.stack = [][]Decision{nil}
	r.rep = &Report{Harness: name, Ends: map[string]int{}, Unsupported: map[string]int{}, Bounds: map[string]int{},
		EngineErrs: map[string]int{}, Covers: map[string]int{}, Funcs: map[string]bool{}, ByLabel: map[string]int{}}
	t0 := time.Now()
	var wg sync.WaitGroup
	for i := 0; i < opt.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(r)
			w.loop()
			w.finish()
		}()
	}
	wg.Wait()
	r.rep.Wall = time.Since(t0)
	r.rep.Exhausted = len(r.stack) == 0 && !r.stop
	r.rep.Forks = int(r.forks)
	return r.rep, nil
}

func newWorker(r *runState) *Worker {
	w := &Worker{run: r, tb: NewTB(), tvars: map[int][]int{}, unsat: map[string]bool{}, sat: map[string]bool{}, labels: map[string]int{}, covers: map[string]int{}}
	z3 := r.opt.Z3
	if z3 == "" {
		z3 = "z3-new"
	}
	w.solver = NewSolver([]string{z3, "-in"}, r.opt.SolverTime)
	it := &Interp{w: w, eng: r.eng, prog: r.eng.prog, tb: w.tb, fns: map[*ssa.Function]*fnInfo{},
		globals: map[*ssa.Global]*Val{}, pkgState: map[*ssa.Package]int{}, maxSteps: r.opt.MaxSteps, maxDepth: r.opt.MaxDepth,
		methods: map[methodKey]*ssa.Function{}, implc: map[[2]types.Type]bool{}, rtErrT: r.eng.rtErrT, cellFile: map[*Val]*fileState{}, strName: map[types.Type]string{}}
	w.it = it
	return w
}

func (w *Worker) loop() {
	r := w.run
	for {
		r.mu.Lock()
		for len(r.stack) == 0 && r.active > 0 && !r.stop {
			r.cond.Wait()
		}
		if r.stop || len(r.stack) == 0 {
			r.cond.Broadcast()
			r.mu.Unlock()
			return
		}
		if !r.opt.Deadline.IsZero() && time.Now().After(r.opt.Deadline) {
			r.stop = true
			r.cond.Broadcast()
			r.mu.Unlock()
			return
		}
		p := r.stack[len(r.stack)-1]
		r.stack = r.stack[:len(r.stack)-1]
		r.active++
		r.mu.Unlock()
		w.path(p)
		r.mu.Lock()
		r.active--
		r.cond.Broadcast()
		r.mu.Unlock()
	}
}

func (w *Worker) finish() {
	r := w.run
	r.mu.Lock()
	defer r.mu.Unlock()
	rep := r.rep
	rep.Solver.add(w.solver.Stats)
	w.solver.Close()
	if w.fallback != nil {
		rep.Solver.add(w.fallback.Stats)
		w.fallback.Close()
	}
	rep.Obligations += w.obligations
	rep.Trivial += w.triviallyDischarged
	rep.UnknownA += w.unknownAssert
	rep.UnknownB += w.unknownBranch
	for k, v := range w.labels {
		rep.ByLabel[k] += v
	}
	for k, v := range w.covers {
		rep.Covers[k] += v
	}
	for fn, fi := range w.it.fns {
		if fi.repo && fi.touched {
			rep.Funcs[fn.RelString(nil)] = true
		}
	}
}

// path executes one path from the start, following the decisions in prefix.
func (w *Worker) path(prefix []Decision) {
	it := w.it
	r := w.run
	p := newPath(w, prefix)
	it.p = p
	it.steps = 0
	it.world = newWorld()
	it.cur = nil
	it.mapOrder = true
	it.noTrail, it.initing = 0, 0
	end := pathEnd{why: "done"}
	func() {
		defer func() {
			x := recover()
			switch y := x.(type) {
			case nil:
			case pathEnd:
				end = y
			case goPanic:
				end = pathEnd{"panic", show(y.v) + " at " + y.pos}
			case exitPanic:
				end = pathEnd{"exit", itoa(y.code)}
			default:
				end = pathEnd{"engine", fmt.Sprint(x) + " at " + it.where()}
				if r.opt.Debug {
					fmt.Fprintf(os.Stderr, "engine error: %v\n%s\n%s\n", x, it.where(), debug.Stack())
				}
			}
		}()
		it.ensureInit(r.eng.H)
		it.callFn(nil, r.fn, nil, nil)
	}()
	switch {
	case end.why == "panic":
		w.violation("panic", end.msg)
		end.why = "violation"
	case end.why == "exit" && it.world.noExit != "":
		w.violation(it.world.noExit, "program exited with status "+end.msg)
		end.why = "violation"
	case end.why == "bound":
		w.violation("nontermination", end.msg)
	}
	switch {
	case end.why == "unsupported" || end.why == "engine":
		w.probe(end.msg)
	case p.undecidedA && end.why != "violation":
		w.probe("undecided assertion")
	}
	var sm *Sample
	if (end.why == "done" || end.why == "exit") && r.opt.SampleN > 0 && w.wantSample() {
		sm = w.sample(end.why)
	}
	steps := it.steps
	nd := len(p.decs)
	it.rollback()
	r.mu.Lock()
	rep := r.rep
	rep.Paths++
	rep.Ends[end.why]++
	rep.Steps += steps
	if nd > rep.DepthMax {
		rep.DepthMax = nd
	}
	switch end.why {
	case "unsupported":
		rep.Unsupported[end.msg]++
	case "bound":
		rep.Bounds[end.msg]++
	case "engine":
		rep.EngineErrs[end.msg]++
	}
	if sm != nil {
		if len(rep.Samples) < r.opt.SampleN {
			rep.Samples = append(rep.Samples, sm)
		} else {
			r.rnd = r.rnd*6364136223846793005 + 1442695040888963407
			if i := int(r.rnd>>33) % rep.Paths; i < len(rep.Samples) {
				rep.Samples[i] = sm
			}
		}
	}
	r.mu.Unlock()
}

func (w *Worker) wantSample() bool {
	r := w.run
	r.mu.Lock()
	defer r.mu.Unlock()
	n := r.rep.Paths
	if len(r.rep.Samples) < r.opt.SampleN {
		return true
	}
	r.rnd = r.rnd*6364136223846793005 + 1442695040888963407
	return int(r.rnd>>33)%(n+1) < r.opt.SampleN
}

func (w *Worker) inputs() map[string]string {
	m := map[string]string{}
	p := w.it.p
	for _, in := range p.inputs {
		if in.T == nil {
			m[in.Name] = fmt.Sprint(in.Conc)
			continue
		}
		m[in.Name] = evalIntM(in.T, p.modelVal, memoT{}).String()
	}
	return m
}

func (w *Worker) sample(end string) *Sample {
	p := w.it.p
	if p.FinalModel() == nil {
		return nil
	}
	s := &Sample{Inputs: w.inputs(), End: end, MapDep: w.it.world.mapChoice, Decs: len(p.decs)}
	for _, o := range p.observed {
		s.Obs = append(s.Obs, o.Label+"="+w.it.evalShow(o.V))
	}
	return s
}

// evalShow renders an observed value under the path's model.
func (it *Interp) evalShow(v Val) string {
	p := it.p
	switch x := v.(type) {
	case iface:
		if x.t == nil {
			return "<nil>"
		}
		return it.evalShow(x.v)
	case string:
		return fmt.Sprintf("%q", x)
	case *symStr:
		b := make([]byte, len(x.b))
		for i, c := range x.b {
			b[i] = byte(evalIntM(it.term(c), p.modelVal, memoT{}).Int64())
		}
		return fmt.Sprintf("%q", string(b))
	case *Term:
		if x.hasR {
			return "?"
		}
		if x.isB {
			return fmt.Sprint(evalBoolM(x, p.modelVal, memoT{}))
		}
		return evalIntM(x, p.modelVal, memoT{}).String()
	case int64, uint64, bool:
		return fmt.Sprint(x)
	}
	return "?"
}

// violation records a counterexample for the current path and model.
func (w *Worker) violation(label, detail string) {
	r := w.run
	it := w.it
	p := it.p
	r.mu.Lock()
	r.viol[label]++
	n := r.viol[label]
	r.mu.Unlock()
	if n > 40 {
		if atomic.AddInt32(&r.nviol, 1) > 400 {
			r.mu.Lock()
			r.stop = true
			r.mu.Unlock()
		}
		return
	}
	if p.FinalModel() == nil {
		return
	}
	v := &Violation{Harness: r.fn.Name(), Label: label, Inputs: w.inputs(), MapDep: it.world.mapChoice, Detail: detail}
	for _, o := range p.observed {
		v.Detail += "\n  " + o.Label + "=" + it.evalShow(o.V)
	}
	r.mu.Lock()
	r.rep.Violations = append(r.rep.Violations, v)
	r.mu.Unlock()
}

// probe records inputs that lead down the current path, which the encoding could not follow or decide to its end. Nothing is
// claimed about such a path. Replaying it on the real code may still show a failure, which is then a real one.
func (w *Worker) probe(msg string) {
	r := w.run
	p := w.it.p
	r.mu.Lock()
	ok := r.probes[msg] < 6 && r.nprobe < 40 && !r.stop
	if ok {
		r.probes[msg]++
		r.nprobe++
	}
	n := r.nprobe
	r.mu.Unlock()
	if !ok {
		return
	}
	defer func() { recover() }()
	if p.FinalModel() == nil {
		return
	}
	add := func() {
		v := &Violation{Harness: r.fn.Name(), Label: "probe: " + msg, Inputs: w.inputs(), MapDep: w.it.world.mapChoice}
		r.mu.Lock()
		r.rep.Probes = append(r.rep.Probes, v)
		r.mu.Unlock()
	}
	add()
	// Again with values near the ends of their ranges, or anywhere in them.
	rnd := uint64(n)*0x9E3779B97F4A7C15 + r.opt.Seed
	next := func(n uint64) uint64 {
		rnd = rnd*6364136223846793005 + 1442695040888963407
		return (rnd >> 33) % n
	}
	end := time.Now().Add(8 * time.Second)
	for round := 0; round < 4 && time.Now().Before(end); round++ {
		pc := append([]*Term{}, p.pc...)
		changed := false
		for _, in := range p.inputs {
			if in.T == nil || in.T.op != OVar || in.T.v.Small || in.T.v.Lo == nil || in.T.v.Hi == nil || time.Now().After(end) {
				continue
			}
			v := in.T.v
			span := new(big.Int).Sub(v.Hi, v.Lo)
			for try := 0; try < 3; try++ {
				x := new(big.Int).Mul(span, new(big.Int).SetUint64(next(1<<31)))
				x.Rsh(x, 31)
				switch k := next(3); k {
				case 0, 1:
					x.Rsh(x, uint(next(uint64(span.BitLen()))))
					if k == 1 {
						x.Sub(span, x)
					}
				}
				x.Add(x, v.Lo)
				c := p.b.Eq(in.T, p.b.Big(x))
				if res, m := w.solver.Check(pc, c, true); res == Sat {
					pc = append(pc, c)
					p.setModel(m)
					changed = true
					break
				}
			}
		}
		if !changed {
			return
		}
		p.pinModel()
		add()
	}
}

// Harnesses lists the harness functions whose name starts with prefix.
func (e *Engine) Harnesses(prefix string) []string {
	var l []string
	for n, m := range e.H.Members {
		if _, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prefix) {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return l
}

// DeclaredCovers lists the constant labels passed to vx.Cover in functions reachable from the harness within the harness package.
func (e *Engine) DeclaredCovers(name string) []string {
	labels := map[string]bool{}
	e.reach(name, func(c ssa.CallInstruction) {
		if cf := c.Common().StaticCallee(); cf != nil && cf.String() == VXPath+".Cover" {
			if k, ok := c.Common().Args[0].(*ssa.Const); ok {
				labels[strings.Trim(k.Value.ExactString(), `"`)] = true
			}
		}
	})
	var l []string
	for k := range labels {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (v *Violation) JSON() []byte {
	b, _ := json.MarshalIndent(v, "", " ")
	return b
}

// reach calls f for every call instruction in harness-package functions reachable from harness name.
func (e *Engine) reach(name string, f func(c ssa.CallInstruction)) {
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Blocks == nil {
			return
		}
		if p := fnPkg(fn); p == nil || p != e.H {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					f(c)
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if f2, ok := (*o).(*ssa.Function); ok {
						walk(f2)
					}
				}
			}
		}
	}
	walk(e.H.Func(name))
}

// UsesFault says whether the harness injects read failures.
func (e *Engine) UsesFault(name string) bool {
	r := false
	e.reach(name, func(c ssa.CallInstruction) {
		if cf := c.Common().StaticCallee(); cf != nil && cf.String() == VXPath+".WriteFailing" {
			r = true
		}
	})
	return r
}

// Doc is the harness's doc comment, which states its bounds.
func (e *Engine) Doc(name string) string {
	fn := e.H.Func(name)
	if fn == nil {
		return ""
	}
	if fd, ok := fn.Syntax().(*ast.FuncDecl); ok && fd.Doc != nil {
		return strings.TrimSpace(strings.TrimPrefix(strings.Join(strings.Fields(fd.Doc.Text()), " "), name))
	}
	return ""
}
