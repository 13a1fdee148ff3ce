package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the loaded program; it is shared by all workers.
type Engine struct {
	prog        *ssa.Program
	fset        *token.FileSet
	pkgs        map[string]*ssa.Package
	fns         sync.Map
	impl        sync.Map
	meths       sync.Map
	methMu      sync.Mutex
	rtErrType   types.Type
	watchPrefix string
	symPkg      string
	harnessMod  string
	repo        string
	maxSteps    int64
	memHigh     atomic.Bool
	debug       bool
	tier        string
	solverName  string
	crossName   string
	crossFirst  int
	crossEvery  int
	timeoutMS   int
	docs        map[string]string
	seed        int
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := e.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(e.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(filepath.Dir(f)) + "/" + filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) perPath(path string) bool {
	return strings.HasPrefix(path, e.watchPrefix) || strings.HasPrefix(path, e.harnessMod)
}

func load(dir string, patterns []string, e *Engine) (*ssa.Package, error) {
	e.fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Fset: e.fset,
		Env:  os.Environ(),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			errs = append(errs, er.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	e.prog = prog
	e.pkgs = map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	if rt := e.pkgs["runtime"]; rt != nil {
		if t := rt.Pkg.Scope().Lookup("errorString"); t != nil {
			e.rtErrType = t.Type()
		}
	}
	if e.rtErrType == nil {
		return nil, fmt.Errorf("runtime.errorString not found")
	}
	e.docs = map[string]string{}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
					e.docs[fd.Name.Name] = strings.TrimSpace(fd.Doc.Text())
				}
			}
		}
	}
	if len(spkgs) == 0 || spkgs[0] == nil {
		return nil, fmt.Errorf("no package")
	}
	return spkgs[0], nil
}

// explorer is the exploration of one harness.
type explorer struct {
	e        *Engine
	fn       *ssa.Function
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []Work
	active   int
	stop     bool
	deadline time.Time
	hardStop time.Time
	maxPaths int
	res      *HarnessResult
	fnSet    map[*fnInfo]bool
	violKeys map[string]int
	firstBad time.Time
}

// HarnessResult is what the engine reports about one harness.
type HarnessResult struct {
	Name        string         `json:"name"`
	Doc         string         `json:"doc"`
	Paths       int            `json:"paths"`
	Kinds       map[string]int `json:"kinds"`
	Why         map[string]int `json:"why,omitempty"`
	Reduced     map[string]int `json:"reduced,omitempty"`
	Asserts     map[string]int `json:"asserts"`
	Reached     map[string]int `json:"reached,omitempty"`
	Complete    bool           `json:"complete"`
	Unexplored  int            `json:"unexplored"`
	Violations  []*Violation   `json:"violations,omitempty"`
	Samples     []*Sample      `json:"samples,omitempty"`
	Steps       int64          `json:"steps"`
	MaxSteps    int64          `json:"max_path_steps"`
	MaxSolves   int            `json:"max_path_solves"`
	MaxThreads  int            `json:"max_threads"`
	Preempt     int            `json:"preempt"`
	Branches    int            `json:"decisions"`
	Queries     int            `json:"queries"`
	Sat         int            `json:"sat"`
	Unsat       int            `json:"unsat"`
	Unknown     int            `json:"unknown"`
	AssertQ     int            `json:"assert_queries"`
	Trivial     int            `json:"asserts_folded"`
	Cached      int            `json:"queries_answered_by_an_equal_one"`
	CrossChecks int            `json:"cross_checks"`
	CrossDiff   int            `json:"cross_disagree"`
	SolverTime  float64        `json:"solver_seconds"`
	Time        float64        `json:"seconds"`
	Functions   []FuncCover    `json:"functions"`
	Bounds      map[string]int `json:"bounds,omitempty"`
}

type FuncCover struct {
	Name   string `json:"name"`
	Pos    string `json:"pos"`
	Instrs int    `json:"ssa_instructions"`
}

// Sample is a completed path to be compared with the native build.
type Sample struct {
	Inputs   map[string]string `json:"inputs"`
	Observed []string          `json:"observed"`
}

type wstats struct {
	trivial, assertQ, cross, crossDiff, asked, cached int
}

// Worker executes paths one after the other.
type Worker struct {
	e          *Engine
	ctx        *Ctx
	harness    string
	stats      wstats
	stdGlobals map[*ssa.Global]*value
	stdInited  map[*ssa.Package]bool
	ex         *explorer
	solver     *Solver
	cross      *Solver
	n          int
	acc        *HarnessResult
	files      map[*value]string
	varMemo    map[*Term][]*Term
	verdicts   map[string]verdict
}

func newWorker(e *Engine) *Worker {
	w := &Worker{e: e}
	w.reset()
	return w
}

func (w *Worker) reset() {
	if w.solver != nil {
		w.flushSolver()
		w.solver.Close()
	}
	if w.cross != nil {
		w.cross.Close()
		w.cross = nil
	}
	w.solver = nil
	w.ctx = NewCtx()
	w.stdGlobals = map[*ssa.Global]*value{}
	w.stdInited = map[*ssa.Package]bool{}
	w.files = map[*value]string{}
	w.varMemo = map[*Term][]*Term{}
	w.verdicts = map[string]verdict{}
}

func (w *Worker) flushSolver() {
	if w.acc == nil || w.solver == nil {
		return
	}
	s := w.solver
	w.acc.Queries += s.Queries
	w.acc.Sat += s.Sat
	w.acc.Unsat += s.Unsat
	w.acc.Unknown += s.Unknown
	w.acc.SolverTime += s.Time.Seconds()
	s.Queries, s.Sat, s.Unsat, s.Unknown, s.Time = 0, 0, 0, 0, 0
}

func (w *Worker) check(pc []*Term, extra *Term, vars []*Term) (Result, Model) {
	for try := 0; try < 2; try++ {
		if w.solver == nil {
			s, err := NewSolver(w.e.solverName, w.e.timeoutMS)
			if err != nil {
				return Unknown, nil
			}
			w.solver = s
		}
		r, m, err := w.solver.Check(pc, extra, vars)
		if err == nil {
			return r, m
		}
		fmt.Fprintln(os.Stderr, "gosym: solver:", err)
		w.flushSolver()
		w.solver.Close()
		w.solver = nil
	}
	return Unknown, nil
}

// crossCheck asks a second solver for the verdict of a query. It is done for the first
// queries of each worker and for some of the others.
func (w *Worker) crossCheck(p *Path, pc []*Term, extra *Term, want Result) {
	if w.e.crossName == "" {
		return
	}
	if w.cross == nil {
		s, err := NewSolver(w.e.crossName, w.e.timeoutMS)
		if err != nil {
			return
		}
		w.cross = s
	}
	r, _, err := w.cross.Check(pc, extra, nil)
	if err != nil {
		w.cross.Close()
		w.cross = nil
		return
	}
	if r == Unknown {
		return
	}
	w.stats.cross++
	if r != want {
		w.stats.crossDiff++
		p.reduced["solvers disagree"]++
	}
}

func (w *Worker) push(k Work) {
	ex := w.ex
	ex.mu.Lock()
	ex.stack = append(ex.stack, k)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *explorer) pop() (Work, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop || time.Now().After(ex.deadline) || ex.res.Paths >= ex.maxPaths {
			ex.stop = true
			ex.cond.Broadcast()
			return Work{}, false
		}
		if n := len(ex.stack); n > 0 {
			// mostly depth first; now and then the oldest, so that a truncated search is spread out
			k := n - 1
			if ex.res.Paths%8 == 7 {
				k = 0
			}
			w := ex.stack[k]
			copy(ex.stack[k:], ex.stack[k+1:])
			ex.stack[n-1] = Work{}
			ex.stack = ex.stack[:n-1]
			ex.active++
			ex.res.Paths++
			return w, true
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return Work{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *explorer) done() {
	ex.mu.Lock()
	ex.active--
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

func (w *Worker) run() {
	for {
		wk, ok := w.ex.pop()
		if !ok {
			return
		}
		w.n++
		if w.n%4000 == 0 || len(w.ctx.tab) > 400000 {
			w.reset()
		}
		p := newPath(w, wk)
		p.runMain(w.ex.fn)
		w.collect(p)
		w.ex.done()
	}
}

func (p *Path) runMain(fn *ssa.Function) {
	s := p.sch
	g := s.newGor()
	s.cur = g
	aborted := p.guard(func() {
		fi := &fnInfo{fn: fn, name: "root"}
		root := &frame{p: p, g: g, fi: fi}
		p.callFn(root, fn, nil, nil, fn.Pos())
	})
	g.done = true
	if !aborted && p.kind == "" {
		p.kind = "done"
	}
	if p.kind == "" {
		p.kind = "done"
	}
	s.dead = true
	for _, o := range s.all[1:] {
		if !o.done {
			select {
			case o.wake <- struct{}{}:
			default:
			}
		}
	}
	s.wg.Wait()
}

func (w *Worker) collect(p *Path) {
	ex := w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	r := ex.res
	r.Kinds[p.kind]++
	if p.kind == "unsupported" || p.kind == "budget" {
		r.Why[p.why]++
	}
	for k, n := range p.reduced {
		r.Reduced[k] += n
	}
	for k, n := range p.asserts {
		r.Asserts[k] += n
	}
	for k, n := range p.reached {
		r.Reached[k] += n
	}
	r.Steps += p.steps
	if p.steps > r.MaxSteps {
		r.MaxSteps = p.steps
	}
	if p.solves > r.MaxSolves {
		r.MaxSolves = p.solves
	}
	r.Branches += len(p.dec) - len(p.prefix)
	if len(p.sch.all) > r.MaxThreads {
		r.MaxThreads = len(p.sch.all)
	}
	if p.sch.bound > r.Preempt {
		r.Preempt = p.sch.bound
	}
	for fi := range p.covers {
		ex.fnSet[fi] = true
	}
	for _, v := range p.viol {
		key := v.Kind + "|" + v.ID
		if v.Kind != "assert" {
			key += "|" + v.Msg
		}
		// keep the simplest ones of each kind
		v.key, v.Switches = key, p.sch.preempts
		r.Violations = append(r.Violations, v)
		ex.violKeys[key]++
		if ex.violKeys[key] > 4 {
			worst := -1
			for i, o := range r.Violations {
				if o.key == key && (worst < 0 || o.cost() > r.Violations[worst].cost()) {
					worst = i
				}
			}
			r.Violations = append(r.Violations[:worst], r.Violations[worst+1:]...)
		}
		if ex.firstBad.IsZero() {
			ex.firstBad = time.Now()
			// look a little further for other violations, then stop
			if d := ex.firstBad.Add(4 * time.Second); d.Before(ex.deadline) {
				ex.deadline = d
			}
		}
	}
	if p.kind == "done" && len(p.viol) == 0 && len(p.sch.all) == 1 && !p.usedOrder {
		keep := 12
		// reservoir without randomness: keep early ones and every 2^k-th
		n := r.Kinds["done"]
		if len(r.Samples) < keep || n&(n-1) == 0 {
			s := &Sample{Inputs: map[string]string{}}
			ev := newEvaluator(p.model)
			for _, in := range p.inputs {
				s.Inputs[in.name] = in.render(ev)
			}
			opaque := false
			for _, o := range p.obs {
				t := o.label + "=" + p.renderVal(o.v, ev)
				if strings.Contains(t, "<") && strings.Contains(t, ">") && strings.Contains(t, "opaque") {
					opaque = true
				}
				s.Observed = append(s.Observed, t)
			}
			if !opaque {
				r.Samples = append(r.Samples, s)
			}
		}
	}
}

func (e *Engine) explore(fn *ssa.Function, budget time.Duration, workers, maxPaths int) *HarnessResult {
	t0 := time.Now()
	ex := &explorer{e: e, fn: fn, deadline: t0.Add(budget), maxPaths: maxPaths, fnSet: map[*fnInfo]bool{}, violKeys: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.res = &HarnessResult{Name: fn.Name(), Doc: e.docs[fn.Name()], Kinds: map[string]int{}, Why: map[string]int{}, Reduced: map[string]int{},
		Asserts: map[string]int{}, Reached: map[string]int{}, Bounds: map[string]int{}}
	ex.stack = []Work{{}}
	accs := make([]*HarnessResult, workers)
	var wg sync.WaitGroup
	ws := make([]*Worker, workers)
	for i := range ws {
		w := newWorker(e)
		w.harness = fn.Name()
		w.ex = ex
		w.acc = &HarnessResult{}
		accs[i] = w.acc
		ws[i] = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.run()
			w.flushSolver()
			if w.solver != nil {
				w.solver.Close()
			}
			if w.cross != nil {
				w.cross.Close()
			}
		}()
	}
	stopTick := make(chan struct{})
	go func() { // wakes waiting workers at the deadline
		for {
			select {
			case <-stopTick:
				return
			case <-time.After(200 * time.Millisecond):
				ex.cond.Broadcast()
			}
		}
	}()
	wg.Wait()
	close(stopTick)
	r := ex.res
	for i, a := range accs {
		r.Queries += a.Queries
		r.Sat += a.Sat
		r.Unsat += a.Unsat
		r.Unknown += a.Unknown
		r.SolverTime += a.SolverTime
		r.AssertQ += ws[i].stats.assertQ
		r.Trivial += ws[i].stats.trivial
		r.Cached += ws[i].stats.cached
		r.CrossChecks += ws[i].stats.cross
		r.CrossDiff += ws[i].stats.crossDiff
	}
	r.Unexplored = len(ex.stack)
	r.Complete = len(ex.stack) == 0 && r.Kinds["unsupported"] == 0 && r.Kinds["budget"] == 0 && r.Unknown == 0 && len(r.Reduced) == 0
	for fi := range ex.fnSet {
		r.Functions = append(r.Functions, FuncCover{fi.name, e.pos(fi.fn.Pos()), fi.instrs})
	}
	sort.SliceStable(r.Violations, func(i, j int) bool { return r.Violations[i].cost() < r.Violations[j].cost() })
	sort.Slice(r.Functions, func(i, j int) bool { return r.Functions[i].Name < r.Functions[j].Name })
	r.Time = time.Since(t0).Seconds()
	return r
}

// Output is the result file.
type Output struct {
	Solver    string           `json:"solver"`
	LoadTime  float64          `json:"load_seconds"`
	Harnesses []*HarnessResult `json:"harnesses"`
}

func main() {
	dir := flag.String("dir", "/verif/harness", "harness module directory")
	pkg := flag.String("pkg", "./props", "harness package")
	pat := flag.String("funcs", "", "comma separated harness names or prefixes ending in *")
	out := flag.String("out", "", "result file")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "source tree")
	solver := flag.String("solver", "z3-new", "solver")
	cross := flag.String("cross", "", "second solver for assertion queries")
	budget := flag.Float64("budget", 60, "seconds for all harnesses together")
	workers := flag.Int("workers", 8, "parallel workers")
	maxPaths := flag.Int("paths", 5000000, "most paths per harness")
	dbg := flag.Bool("debug", false, "panic on engine errors")
	list := flag.Bool("list", false, "list harnesses")
	timeout := flag.Int("timeout", 10000, "solver timeout in ms")
	steps := flag.Int64("steps", 40000000, "steps per path")
	flag.Parse()
	debug.SetGCPercent(200)
	e := &Engine{watchPrefix: "github.com/milosgajdos/netscrape", symPkg: "nsverif/sym", harnessMod: "nsverif",
		repo: *repo, maxSteps: *steps, debug: *dbg, tier: *tier, solverName: *solver, crossName: *cross, timeoutMS: *timeout}
	e.crossFirst, e.crossEvery = 15, 512
	if *tier == "thorough" {
		e.crossFirst, e.crossEvery = 100, 32
	}
	t0 := time.Now()
	sp, err := load(*dir, []string{*pkg}, e)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		os.Exit(3)
	}
	o := Output{Solver: *solver, LoadTime: time.Since(t0).Seconds()}
	var fns []*ssa.Function
	for name, m := range sp.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Signature.Params().Len() != 0 || !token.IsExported(name) {
			continue
		}
		for _, q := range strings.Split(*pat, ",") {
			if q == name || strings.HasSuffix(q, "*") && strings.HasPrefix(name, q[:len(q)-1]) {
				fns = append(fns, f)
				break
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	if *list {
		for _, f := range fns {
			fmt.Println(f.Name())
		}
		return
	}
	debug.SetMemoryLimit(14 << 30)
	go e.watchMemory(6 << 30)
	end := time.Now().Add(time.Duration(*budget * float64(time.Second)))
	for i, f := range fns {
		left := time.Until(end)
		share := left / time.Duration(len(fns)-i)
		// a harness may use up to three shares; the others are usually quick
		b := share * 3
		if b > left*8/10 && i < len(fns)-1 {
			b = left * 8 / 10
		}
		if i == len(fns)-1 {
			b = left
		}
		if b < 2*time.Second {
			b = 2 * time.Second
		}
		r := e.explore(f, b, *workers, *maxPaths)
		o.Harnesses = append(o.Harnesses, r)
		fmt.Fprintf(os.Stderr, "%-40s paths=%d %v complete=%v left=%d asserts=%d viol=%d queries=%d (%.1fs solver) steps=%d (%d/%d a path) %.1fs\n",
			r.Name, r.Paths, r.Kinds, r.Complete, r.Unexplored, len(r.Asserts), len(r.Violations), r.Queries, r.SolverTime, r.Steps, r.MaxSteps, r.MaxSolves, r.Time)
		for _, k := range sortedKeys(r.Why) {
			fmt.Fprintf(os.Stderr, "    %d × %s\n", r.Why[k], k)
		}
		for _, k := range sortedKeys(r.Reduced) {
			fmt.Fprintf(os.Stderr, "    reduced %d × %s\n", r.Reduced[k], k)
		}
		if *out == "" {
			for _, v := range r.Violations {
				fmt.Fprintf(os.Stderr, "    VIOL %s %s: %s inputs=%v\n", v.Kind, v.ID, v.Msg, v.Inputs)
			}
		}
	}
	if *out != "" {
		b, _ := json.MarshalIndent(o, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "gosym:", err)
			os.Exit(3)
		}
	}
}
