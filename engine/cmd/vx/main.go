// Command vx decides the properties of /repo by symbolic execution of its current source.
//
//	vx check -prop C01 -tier quick
//	vx run -h C01_book [-tier 0]
//	vx replay file.json
package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"vxengine/sym"
)

var (
	verif = "/verif"
	repo  = "/repo"
	seed  = 1
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vx: "+f+"\n", a...)
	os.Exit(2)
}

// overlayFiles maps paths under the repository to the harness files laid there.
func overlayFiles(native bool) map[string]string {
	m := map[string]string{}
	add := func(dir, sub string) {
		l, _ := filepath.Glob(filepath.Join(verif, "harness", dir, "*.go"))
		for _, f := range l {
			m[filepath.Join(repo, sub, filepath.Base(f))] = f
		}
	}
	add("vx", "zzvx/vx")
	add("h", "zzvx/h")
	if native {
		m[filepath.Join(repo, "cmd/ledger/zz_vx_main.go")] = filepath.Join(verif, "harness/main/zz_vx_main.go")
	} else {
		m[filepath.Join(repo, "cmd/ledger/zz_vx_engine.go")] = filepath.Join(verif, "harness/main/zz_vx_engine.go")
	}
	return m
}

// standIns lays in dir the module which stands in for the terminal that tacc shows its tables in.
func standIns(dir, tool string) ([]string, error) {
	if tool != "tacc" {
		return nil, nil
	}
	mod, err := ioutil.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, _ := ioutil.ReadFile(filepath.Join(repo, "go.sum"))
	src, err := ioutil.ReadFile(filepath.Join(verif, "harness/screen/tableview.go.txt"))
	if err != nil {
		return nil, err
	}
	t := filepath.Join(dir, "tableview")
	os.MkdirAll(t, 0755)
	mod = append(mod, "\nreplace github.com/cespedes/tableview => "+t+"\n"...)
	for f, b := range map[string][]byte{"tool.mod": mod, "tool.sum": sum, "tableview/tableview.go": src, "tableview/go.mod": []byte("module github.com/cespedes/tableview\n\ngo 1.13\n")} {
		if err := ioutil.WriteFile(filepath.Join(dir, f), b, 0644); err != nil {
			return nil, err
		}
	}
	return []string{"-modfile=" + filepath.Join(dir, "tool.mod")}, nil
}

func loadEngine(tool string) *sym.Engine {
	ov := map[string][]byte{}
	for to, from := range overlayFiles(false) {
		b, err := ioutil.ReadFile(from)
		if err != nil {
			fatal("%v", err)
		}
		ov[to] = b
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	flags, err := standIns(dir, tool)
	if err != nil {
		fatal("%v", err)
	}
	e, err := sym.LoadEngine(repo, ov, tool, flags)
	if err != nil {
		fatal("%v", err)
	}
	return e
}

// native is the replay build of the repository with the harnesses.
type native struct {
	dir  string
	once [2]sync.Once
	bin  [2]string
	err  [2]error
	eng  *sym.Engine

	toolOnce sync.Once
	tool     string
	toolErr  error
}

var osRead = regexp.MustCompile(`(?s)(func \(f \*File\) Read\(b \[\]byte\) \(n int, err error\) \{.*?\n\tn, e := f\.read\(b\)\n)\treturn n, f\.wrapErr\("read", e\)\n\}`)

func (n *native) build(fault bool) (string, error) {
	k := 0
	if fault {
		k = 1
	}
	n.once[k].Do(func() {
		ov := overlayFiles(true)
		var sb strings.Builder
		sb.WriteString("package hx\n\nimport \"" + sym.HPath + "\"\n\nvar Table = map[string]func(){\n")
		for _, h := range n.eng.Harnesses("C") {
			fmt.Fprintf(&sb, "\t%q: h.%s,\n", h, h)
		}
		sb.WriteString("}\n")
		tf := filepath.Join(n.dir, "table.go")
		ioutil.WriteFile(tf, []byte(sb.String()), 0644)
		ov[filepath.Join(repo, "zzvx/hx/table.go")] = tf
		args := []string{"build", "-o", filepath.Join(n.dir, fmt.Sprintf("native%d", k))}
		if fault {
			root, err := exec.Command("go", "env", "GOROOT").Output()
			if err != nil {
				n.err[k] = err
				return
			}
			src := filepath.Join(strings.TrimSpace(string(root)), "src/os/file.go")
			b, err := ioutil.ReadFile(src)
			if err != nil {
				n.err[k] = err
				return
			}
			nb := osRead.ReplaceAll(b, []byte("${1}\terr = f.wrapErr(\"read\", e)\n\tif VXReadHook != nil {\n\t\treturn VXReadHook(f.name, n, err)\n\t}\n\treturn n, err\n}\n\n// VXReadHook is called after every read.\nvar VXReadHook func(name string, n int, err error) (int, error)"))
			if string(nb) == string(b) {
				n.err[k] = fmt.Errorf("cannot instrument os.File.Read")
				return
			}
			ff := filepath.Join(n.dir, "os_file.go")
			ioutil.WriteFile(ff, nb, 0644)
			ov[src] = ff
			args = append(args, "-tags", "vxfault")
		}
		j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		of := filepath.Join(n.dir, fmt.Sprintf("overlay%d.json", k))
		ioutil.WriteFile(of, j, 0644)
		args = append(args, "-overlay", of, "./cmd/ledger")
		c := exec.Command("go", args...)
		c.Dir = repo
		c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off")
		if o, err := c.CombinedOutput(); err != nil {
			n.err[k] = fmt.Errorf("native build: %v\n%s", err, o)
			return
		}
		n.bin[k] = filepath.Join(n.dir, fmt.Sprintf("native%d", k))
	})
	return n.bin[k], n.err[k]
}

// toolOf is the command, other than ledger, that the harnesses of a property run.
func toolOf(s string) string {
	switch {
	case strings.HasPrefix(s, "C30"):
		return "muscular"
	case strings.HasPrefix(s, "C22"):
		return "acc"
	case strings.HasPrefix(s, "C34"):
		return "tacc"
	}
	return ""
}

// buildTool builds that command.
func (n *native) buildTool(name string) (string, error) {
	n.toolOnce.Do(func() {
		n.tool = filepath.Join(n.dir, "tool")
		flags, err := standIns(n.dir, name)
		if err != nil {
			n.toolErr = err
			return
		}
		c := exec.Command("go", append(append([]string{"build"}, flags...), "-o", n.tool, "./cmd/"+name)...)
		c.Dir = repo
		c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off")
		if o, err := c.CombinedOutput(); err != nil {
			n.toolErr = fmt.Errorf("native build: %v\n%s", err, o)
		}
	})
	return n.tool, n.toolErr
}

type outcome struct {
	obs     []string
	viol    string // label, "" if none
	why     string
	assume  bool
	missing bool
	done    bool
	stderr  string
}

// run executes harness h natively on the given inputs.
func (n *native) run(h string, in map[string]string, fault bool, tier int) (*outcome, error) {
	bin, err := n.build(fault)
	if err != nil {
		return nil, err
	}
	d, err := ioutil.TempDir(n.dir, "r")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(d)
	os.Mkdir(filepath.Join(d, "vx"), 0755)
	b, _ := json.Marshal(in)
	ioutil.WriteFile(filepath.Join(d, "in.json"), b, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 6000000; ulimit -f 200000; exec "+bin)
	c.Dir = d
	c.Env = []string{"VX_HARNESS=" + h, "VX_IN=" + filepath.Join(d, "in.json"), "VX_OUT=" + filepath.Join(d, "out.txt"), "VX_DIR=" + filepath.Join(d, "vx"),
		"VX_TIER=" + strconv.Itoa(tier), "HOME=/nonexistent", "PATH=/usr/bin:/bin", "GOMAXPROCS=2"}
	if name := toolOf(h); name != "" {
		t, err := n.buildTool(name)
		if err != nil {
			return nil, err
		}
		c.Env = append(c.Env, "VX_TOOL="+t)
	}
	ef, _ := os.Create(filepath.Join(d, "stderr"))
	c.Stderr = ef
	runErr := c.Run()
	ef.Close()
	timedOut := ctx.Err() != nil
	sb, _ := ioutil.ReadFile(filepath.Join(d, "stderr"))
	if len(sb) > 4000 {
		sb = sb[:4000]
	}
	o := &outcome{stderr: string(sb)}
	ob, _ := ioutil.ReadFile(filepath.Join(d, "out.txt"))
	noexit := ""
	for _, l := range strings.Split(string(ob), "\n") {
		switch {
		case strings.HasPrefix(l, "OBS "):
			o.obs = append(o.obs, l[4:])
		case strings.HasPrefix(l, "VIOL "):
			o.viol = l[5:]
		case l == "ASSUME":
			o.assume = true
		case strings.HasPrefix(l, "MISSING "):
			o.missing = true
		case strings.HasPrefix(l, "NOEXIT "):
			noexit = l[7:]
		case l == "NOEXIT":
			noexit = ""
		case l == "DONE":
			o.done = true
		}
	}
	if o.done || o.assume || o.viol != "" {
		return o, nil
	}
	switch {
	case timedOut:
		o.viol, o.why = "nontermination", "still running after 40 s"
	case strings.Contains(o.stderr, "stack overflow") || strings.Contains(o.stderr, "out of memory") || strings.Contains(o.stderr, "cannot allocate memory"):
		o.viol, o.why = "nontermination", firstLine(o.stderr)
	case strings.Contains(o.stderr, "panic:") || strings.Contains(o.stderr, "fatal error:"):
		o.viol, o.why = "panic", panicLine(o.stderr)
	case noexit != "":
		o.viol, o.why = noexit, "program exited: "+fmt.Sprint(runErr)+" "+firstLine(o.stderr)
	}
	return o, nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func panicLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "panic:") || strings.Contains(l, "fatal error:") {
			return l
		}
	}
	return firstLine(s)
}

// known is one line of known-findings.txt.
type known struct {
	prop, harness, label string
	match                *regexp.Regexp
	text                 string
}

// Lines: finding: property=<id> harness=<name> label=<label> observed=<regexp over the observations> :: text
func loadKnown() []known {
	b, err := ioutil.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) harness=(\S+) label=(\S+) observed=(\S+) :: (.*)$`)
	var l []known
	for _, s := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(s); m != nil {
			l = append(l, known{m[1], m[2], m[3], regexp.MustCompile(m[4]), m[5]})
		}
	}
	return l
}

type harnessEvidence struct {
	Harness     string         `json:"harness"`
	Bounds      string         `json:"bounds,omitempty"`
	Paths       int            `json:"paths"`
	Forks       int            `json:"forks"`
	Ends        map[string]int `json:"path_ends"`
	Steps       int64          `json:"ssa_instructions"`
	Obligations int            `json:"assertions_decided"`
	ByConst     int            `json:"assertions_decided_without_solver"`
	Labels      map[string]int `json:"assertions_by_label"`
	Queries     int            `json:"solver_queries"`
	SolverS     float64        `json:"solver_s"`
	Unknown     int            `json:"solver_unknown"`
	Exhausted   bool           `json:"exhausted"`
	Covers      map[string]int `json:"witnesses,omitempty"`
	NotCovered  []string       `json:"not_witnessed,omitempty"`
	Unsupported map[string]int `json:"unsupported_paths,omitempty"`
	BoundHits   map[string]int `json:"step_bound_hits,omitempty"`
	EngineErrs  map[string]int `json:"engine_errors,omitempty"`
	Probes      int            `json:"unfollowed_paths_replayed,omitempty"`
	Validated   int            `json:"traces_validated"`
	Mismatch    []string       `json:"trace_mismatches,omitempty"`
	WallS       float64        `json:"wall_s"`
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage")
	}
	if v := os.Getenv("VX_VERIF"); v != "" {
		verif = v
	}
	if v := os.Getenv("VX_REPO"); v != "" {
		repo = v
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = v
	}
	fs := flag.NewFlagSet("vx", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tierS := fs.String("tier", "quick", "tier")
	hn := fs.String("h", "", "harness")
	budget := fs.Int("budget", 0, "seconds")
	debug := fs.Bool("debug", false, "debug")
	workers := fs.Int("workers", runtime.NumCPU(), "workers")
	samples := fs.Int("samples", 0, "samples")
	fs.Parse(os.Args[2:])
	if f := os.Getenv("VX_PROF"); f != "" {
		w, err := os.Create(f)
		if err == nil && pprof.StartCPUProfile(w) == nil {
			time.AfterFunc(60*time.Second, pprof.StopCPUProfile)
		}
	}
	switch os.Args[1] {
	case "list":
		e := loadEngine("")
		for _, h := range e.Harnesses("C") {
			fmt.Println(h)
		}
	case "check":
		check(*prop, *tierS, *hn, *budget, *debug, *workers, *samples)
	case "replay":
		replay(fs.Arg(0))
	default:
		fatal("usage")
	}
}

func scratch() string {
	d, err := ioutil.TempDir("", "vx")
	if err != nil {
		fatal("%v", err)
	}
	return d
}

func replay(file string) {
	var v struct {
		sym.Violation
		Tier int `json:"tier"`
	}
	b, err := ioutil.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	n := &native{dir: scratch(), eng: loadEngine(toolOf(v.Harness))}
	defer os.RemoveAll(n.dir)
	o, err := n.run(v.Harness, v.Inputs, n.eng.UsesFault(v.Harness), v.Tier)
	if err != nil {
		fatal("%v", err)
	}
	for _, s := range o.obs {
		fmt.Println("  " + s)
	}
	fmt.Printf("violated: %q %s\n%s", o.viol, o.why, o.stderr)
}

func check(prop, tierS, only string, budget int, debug bool, workers, samplesN int) {
	t0 := time.Now()
	tier := 0
	if tierS == "thorough" {
		tier = 1
	}
	if budget == 0 {
		budget = 240
		if tier == 1 {
			budget = 780
		}
	}
	if samplesN == 0 {
		samplesN = 6
		if tier == 1 {
			samplesN = 12
		}
	}
	deadline := t0.Add(time.Duration(budget) * time.Second)
	e := loadEngine(toolOf(prop + only))
	nat := &native{dir: scratch(), eng: e}
	defer os.RemoveAll(nat.dir)
	go nat.build(false)
	var hs []string
	if only != "" {
		hs = []string{only}
		if prop == "" {
			prop = only[:3]
		}
	} else {
		hs = e.Harnesses(prop + "_")
	}
	if len(hs) == 0 {
		os.RemoveAll(nat.dir)
		fatal("no harness for %s", prop)
	}
	kn := loadKnown()
	var evs []harnessEvidence
	funcs := map[string]bool{}
	knownHit := map[string]bool{}
	var reported []string
	var unrepro []string
	var sampleOut []interface{}
	states, transitions, validated, obligations := 0, 0, 0, 0
	allEx := true
	var solverS float64
	queries, unknowns := 0, 0
	for i, h := range hs {
		left := time.Until(deadline)
		share := left / time.Duration(len(hs)-i)
		if i < len(hs)-1 {
			share = share * 3 / 2
			if share > left {
				share = left
			}
		}
		opt := sym.Options{Workers: workers, Tier: tier, SampleN: samplesN, Debug: debug, Deadline: time.Now().Add(share), Seed: uint64(seed)}
		rep, err := e.Run(h, opt)
		if err != nil {
			fatal("%v", err)
		}
		ev := harnessEvidence{Harness: h, Bounds: e.Doc(h), Paths: rep.Paths, Forks: rep.Forks, Ends: rep.Ends, Steps: rep.Steps, Obligations: rep.Obligations,
			ByConst: rep.Trivial, Labels: rep.ByLabel, Queries: rep.Solver.Queries, SolverS: rep.Solver.Time.Seconds(), Unknown: rep.UnknownA + rep.UnknownB,
			Exhausted: rep.Exhausted, Covers: rep.Covers, Unsupported: rep.Unsupported, BoundHits: rep.Bounds, EngineErrs: rep.EngineErrs, WallS: rep.Wall.Seconds()}
		for _, c := range e.DeclaredCovers(h) {
			if rep.Covers[c] == 0 {
				ev.NotCovered = append(ev.NotCovered, c)
			}
		}
		for f := range rep.Funcs {
			funcs[f] = true
		}
		fault := e.UsesFault(h)
		// counterexamples: replay against the real code
		sort.Slice(rep.Violations, func(a, b int) bool { return len(rep.Violations[a].Inputs) < len(rep.Violations[b].Inputs) })
		perLabel := map[string]int{}
		try := func(v *sym.Violation, probe bool) {
			if n := perLabel[v.Label]; n >= 12 && !probe || n >= 30 {
				return
			}
			perLabel[v.Label]++
			tries := 1
			var err error
			if v.MapDep {
				tries = 120
			}
			var o *outcome
			for t := 0; t < tries; t++ {
				o, err = nat.run(h, v.Inputs, fault, tier)
				if err != nil {
					fatal("%v", err)
				}
				if o.viol != "" {
					break
				}
			}
			if o.viol == "" && probe {
				return
			}
			if o.viol == "" {
				unrepro = append(unrepro, fmt.Sprintf("%s %s: %s", h, v.Label, v.Detail))
				fmt.Fprintf(os.Stderr, "note: counterexample not reproduced natively: %s label %q %v\n%s\n native obs: %v assume=%v done=%v missing=%v %s\n", h, v.Label, v.Inputs, v.Detail, o.obs, o.assume, o.done, o.missing, o.stderr)
				return
			}
			isKnown := false
			obs := strings.Join(o.obs, "\n")
			for _, k := range kn {
				if k.prop == prop && k.harness == h && k.label == o.viol && k.match.MatchString(obs) {
					isKnown = true
					if !knownHit[k.text] {
						knownHit[k.text] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
					}
				}
			}
			if isKnown {
				return
			}
			dir := filepath.Join(verif, "evidence", "replay")
			os.MkdirAll(dir, 0755)
			f := filepath.Join(dir, fmt.Sprintf("%s_%d.json", prop, len(reported)))
			j, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "harness": h, "label": o.viol, "engine_label": v.Label, "detail": v.Detail, "inputs": v.Inputs,
				"native_observations": o.obs, "native_reason": o.why, "native_stderr": o.stderr, "tier": tier, "map_order_dependent": v.MapDep,
				"how": "bin/vx replay " + f}, "", " ")
			ioutil.WriteFile(f, j, 0644)
			if len(reported) < 10 {
				fmt.Fprintf(os.Stderr, "%s: %s violated (%s)\n", h, o.viol, o.why)
				for _, s := range o.obs {
					fmt.Fprintln(os.Stderr, "   ", s)
				}
			}
			reported = append(reported, f)
		}
		for _, v := range rep.Violations {
			try(v, false)
		}
		// Paths which the encoding could not follow: only what the real code gets wrong counts.
		for _, v := range rep.Probes {
			try(v, true)
			ev.Probes++
		}
		// sampled paths: the model must predict what the real code does
		for _, s := range rep.Samples {
			tries := 1
			if s.MapDep {
				tries = 60
			}
			var o *outcome
			ok := false
			for t := 0; t < tries && !ok; t++ {
				o, err = nat.run(h, s.Inputs, fault, tier)
				if err != nil {
					fatal("%v", err)
				}
				ok = o.viol == "" && sameObs(o.obs, s.Obs) && (o.done || s.End == "exit")
			}
			if ok {
				ev.Validated++
				if len(sampleOut) < 12 {
					sampleOut = append(sampleOut, map[string]interface{}{"harness": h, "inputs": s.Inputs, "observed": s.Obs, "path_decisions": s.Decs})
				}
			} else if o.viol != "" && !isLabelKnown(kn, prop, h, o) {
				// the real execution itself violates the property
				ev.Mismatch = append(ev.Mismatch, fmt.Sprintf("%v: native violation %s %s", s.Inputs, o.viol, o.why))
				try(&sym.Violation{Harness: h, Label: "sampled path", Inputs: s.Inputs, MapDep: s.MapDep}, true)
			} else if o.viol == "" {
				ev.Mismatch = append(ev.Mismatch, fmt.Sprintf("%v: model %v, real %v", s.Inputs, s.Obs, o.obs))
			}
		}
		evs = append(evs, ev)
		states += rep.Paths
		transitions += rep.Forks
		validated += ev.Validated
		obligations += rep.Obligations
		solverS += ev.SolverS
		queries += ev.Queries
		unknowns += ev.Unknown
		if !rep.Exhausted || len(rep.Unsupported) > 0 || len(rep.Bounds) > 0 || ev.Unknown > 0 || len(rep.EngineErrs) > 0 {
			allEx = false
		}
		fmt.Fprintf(os.Stderr, "%-28s paths %d forks %d ends %v asserts %d (const %d) queries %d solver %.1fs unknown %d exhausted %v validated %d/%d viol %d wall %.1fs\n", h, rep.Paths, rep.Forks, rep.Ends,
			rep.Obligations, rep.Trivial, ev.Queries, ev.SolverS, ev.Unknown, rep.Exhausted, ev.Validated, len(rep.Samples), len(rep.Violations), ev.WallS)
		for k, v := range rep.Unsupported {
			fmt.Fprintf(os.Stderr, "   unsupported x%d: %s\n", v, k)
		}
		for k, v := range rep.Bounds {
			fmt.Fprintf(os.Stderr, "   bound x%d: %s\n", v, k)
		}
		for k, v := range rep.EngineErrs {
			fmt.Fprintf(os.Stderr, "   engine error x%d: %s\n", v, k)
		}
		for _, m := range ev.Mismatch {
			fmt.Fprintf(os.Stderr, "   MISMATCH %s\n", m)
		}
		if len(ev.NotCovered) > 0 {
			fmt.Fprintf(os.Stderr, "   not witnessed: %v\n", ev.NotCovered)
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	assume := []string{
		"Bounds: those stated per harness (coverage.harnesses[].bounds); nothing is claimed outside them.",
		"The executor's model of Go and of the standard-library functions it replaces (DESIGN.md) is trusted; sampled paths are replayed natively and compared.",
	}
	if !allEx {
		assume = append(assume, "Some paths were not decided in this run: see exhausted, unsupported_paths, step_bound_hits, solver_unknown per harness; the claim covers the decided ones.")
	}
	evid := map[string]interface{}{
		"property": prop, "tier": tierS, "seed": seed, "level": "model_checking", "wall_s": time.Since(t0).Seconds(), "violations": len(reported),
		"assumptions": assume,
		"coverage": map[string]interface{}{
			"states": states, "transitions": transitions, "traces_validated_against_impl": validated, "samples": sampleOut,
			"assertions_decided": obligations, "solver_queries": queries, "solver_s": solverS, "solver_unknown": unknowns,
			"exhaustive": allEx, "functions_encoded": fl, "harnesses": evs, "unreproduced_counterexamples": unrepro,
			"encoding":    fmt.Sprintf("SSA of %s built from the working tree in %.1fs", repo, e.Load.Seconds()),
			"explanation": "states = explored symbolic paths (each stands for every input satisfying its path condition); transitions = forks between them.",
		},
	}
	if sampleOut == nil {
		evid["coverage"].(map[string]interface{})["samples"] = []interface{}{}
	}
	j, _ := json.MarshalIndent(evid, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	ef := filepath.Join(verif, "evidence", prop+".json")
	if only != "" {
		ef = filepath.Join(verif, "evidence", "debug.json")
	}
	if err := ioutil.WriteFile(ef, j, 0644); err != nil {
		fatal("%v", err)
	}
	os.RemoveAll(nat.dir)
	if len(reported) > 0 {
		for i, f := range reported {
			if i < 5 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
			}
		}
		os.Exit(1)
	}
	fmt.Printf("property %s held on everything explored: %d paths, %d assertions, %d solver queries\n", prop, states, obligations, queries)
}

func isLabelKnown(kn []known, prop, h string, o *outcome) bool {
	obs := strings.Join(o.obs, "\n")
	for _, k := range kn {
		if k.prop == prop && k.harness == h && k.label == o.viol && k.match.MatchString(obs) {
			return true
		}
	}
	return false
}

func sameObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !strings.HasSuffix(b[i], "=?") {
			return false
		}
	}
	return true
}
