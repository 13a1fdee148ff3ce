package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Work is one unexplored path prefix together with a model of its path condition.
type Work struct {
	prefix []int32
	model  Model
}

type pathEnd struct{ kind string } // panics through the interpreter to end a path

// Violation is a failed check with the inputs that make it fail.
type Violation struct {
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"` // assert, panic, deadlock, race, fatal, budget
	ID       string            `json:"id"`
	Msg      string            `json:"msg"`
	Inputs   map[string]string `json:"inputs"`
	Order    []string          `json:"order"`
	Schedule []SchedEvent      `json:"schedule,omitempty"`
	MapOrder bool              `json:"map_order,omitempty"`
	Threads  int               `json:"threads"`
	Prefix   []int32           `json:"prefix"`
	Observed []string          `json:"observed,omitempty"`
	Switches int               `json:"switches"`
	key      string
}

func (v *Violation) cost() int { return v.Switches*10000 + len(v.Schedule) }

type SchedEvent struct {
	G  int    `json:"g"`
	N  int    `json:"n"` // per-goroutine sequence number of the synchronisation operation
	Op string `json:"op"`
	At string `json:"at"`
	// where the operation is
	pos token.Pos
}

// inputVar is a harness input in creation order.
type inputVar struct {
	name string
	kind string // bool int float string bytes
	t    *Term
	f    *flat
	w    uint8
	sgn  bool
	bs   []*Term
}

type observation struct {
	label string
	v     value
}

// Path is one execution.
type Path struct {
	w      *Worker
	e      *Engine
	ctx    *Ctx
	pc     []*Term
	pcSet  map[*Term]bool
	class  map[*Term]*Term
	model  Model
	ev     *evaluator
	prefix []int32
	dec    []int32
	vars   []*Term
	nvar   int
	names  map[string]int
	inputs []inputVar
	obs    []observation

	steps    int64
	maxSteps int64
	pollAt   int64
	solves   int
	globals  map[*ssa.Global]*value
	inited   map[*ssa.Package]bool

	// results
	kind      string // done, infeasible, unsupported, violation, budget
	why       string
	viol      []*Violation
	asserts   map[string]int
	reached   map[string]int
	covers    map[*fnInfo]bool
	reduced   map[string]int
	unknown   int
	mapOrder  int
	usedOrder bool

	sch        *sched
	initDepth  int
	stdInit    int
	stdout     []value
	capturing  int
	stdoutBad  bool
	randSym    bool
	randCtr    uint64
	randOut    []value
	addr       map[any]uint64
	builderVal map[*value]value
	curSite    token.Pos
	noCheck    int
	depthLimit int
}

func newPath(w *Worker, wk Work) *Path {
	p := &Path{w: w, e: w.e, ctx: w.ctx, pcSet: map[*Term]bool{}, class: map[*Term]*Term{}, model: wk.model, prefix: wk.prefix,
		names: map[string]int{}, globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]bool{},
		asserts: map[string]int{}, reached: map[string]int{}, covers: map[*fnInfo]bool{}, reduced: map[string]int{},
		maxSteps: w.e.maxSteps, depthLimit: 4000}
	if p.model == nil {
		p.model = Model{}
	}
	p.ev = newEvaluator(p.model)
	p.sch = newSched(p)
	return p
}

func (p *Path) setModel(m Model) {
	p.model = m
	p.ev = newEvaluator(m)
}

func (p *Path) newVar(name string, w uint8) *Term {
	p.nvar++
	t := p.ctx.Var(fmt.Sprintf("%s.%d.%d", name, p.nvar, w), w)
	p.vars = append(p.vars, t)
	return t
}

func (p *Path) end(kind, why string) {
	if p.kind == "" {
		p.kind, p.why = kind, why
	}
	panic(pathEnd{kind})
}

func (p *Path) addPC(t *Term) {
	if t == p.ctx.T || p.pcSet[t] {
		return
	}
	if t.op == OAnd {
		p.addPC(t.a[0])
		p.addPC(t.a[1])
		p.pcSet[t] = true
		return
	}
	p.pc = append(p.pc, t)
	p.pcSet[t] = true
	p.joined(t)
}

// implied reports a syntactic verdict for t under the path condition: 1 true, -1 false, 0 unknown.
func (p *Path) implied(t *Term) int {
	if t == p.ctx.T || p.pcSet[t] {
		return 1
	}
	if t == p.ctx.F || p.pcSet[p.ctx.Not(t)] {
		return -1
	}
	if t.op == OAnd {
		a, b := p.implied(t.a[0]), p.implied(t.a[1])
		if a < 0 || b < 0 {
			return -1
		}
		if a > 0 && b > 0 {
			return 1
		}
	}
	if t.op == OOr {
		a, b := p.implied(t.a[0]), p.implied(t.a[1])
		if a > 0 || b > 0 {
			return 1
		}
		if a < 0 && b < 0 {
			return -1
		}
	}
	return 0
}

func (p *Path) check(extra *Term) (Result, Model) {
	r, m := p.solve(extra)
	if r == Unknown {
		p.unknown++
		p.reduced["solver gave no verdict"]++
	}
	return r, m
}

func (p *Path) branch(t *Term) bool {
	switch p.implied(t) {
	case 1:
		return true
	case -1:
		return false
	}
	if len(p.dec) < len(p.prefix) {
		v := p.prefix[len(p.dec)]
		p.dec = append(p.dec, v)
		if v == 1 {
			p.addPC(t)
			return true
		}
		p.addPC(p.ctx.Not(t))
		return false
	}
	v := p.ev.eval(t) != 0
	side, other := t, p.ctx.Not(t)
	if !v {
		side, other = other, side
	}
	if r, m := p.check(other); r == Sat {
		p.fork(b2i(!v), m)
	}
	p.dec = append(p.dec, b2i(v))
	p.addPC(side)
	return v
}

func b2i(b bool) int32 {
	if b {
		return 1
	}
	return 0
}

func (p *Path) fork(alt int32, m Model) {
	np := make([]int32, len(p.dec)+1)
	copy(np, p.dec)
	np[len(p.dec)] = alt
	p.w.push(Work{np, m})
}

// choose picks among n alternatives that do not depend on data (schedule, map order).
func (p *Path) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if what == "map order" {
		p.usedOrder = true
	}
	if len(p.dec) < len(p.prefix) {
		v := p.prefix[len(p.dec)]
		p.dec = append(p.dec, v)
		return int(v)
	}
	for i := n - 1; i >= 1; i-- {
		p.fork(int32(i), p.model)
	}
	p.dec = append(p.dec, 0)
	return 0
}

func (p *Path) truth(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return p.branch(v)
	case poison:
		panic(unsupported("use of %s", v.why))
	}
	panic(unsupported("condition of type %T", v))
}

// concretizeTerm forks over all values of the term.
func (p *Path) concretizeTerm(t *Term) uint64 {
	for i := 0; ; i++ {
		if t.op == OConst {
			return t.c
		}
		if i > 300 {
			p.reduced["concretisation cut after 300 values"]++
			p.end("infeasible", "too many values")
		}
		var v uint64
		if len(p.dec) < len(p.prefix) {
			// the value tried is recorded as two decisions: candidate, outcome
			v = uint64(uint32(p.prefix[len(p.dec)])) | uint64(uint32(p.prefix[len(p.dec)+1]))<<32
			p.dec = append(p.dec, p.prefix[len(p.dec)], p.prefix[len(p.dec)+1])
		} else {
			v = p.ev.eval(t)
			p.dec = append(p.dec, int32(uint32(v)), int32(uint32(v>>32)))
		}
		if p.branch(p.ctx.Eq(t, p.ctx.BV(v, t.w))) {
			return v
		}
	}
}

func (p *Path) assume(t *Term) {
	switch p.implied(t) {
	case 1:
		return
	case -1:
		p.end("infeasible", "assumption")
	}
	if p.ev.eval(t) == 0 {
		r, m := p.check(t)
		if r != Sat {
			p.end("infeasible", "assumption")
		}
		p.setModel(m)
	}
	p.addPC(t)
}

func (p *Path) violation(kind, id, msg string, m Model) *Violation {
	ev := newEvaluator(m)
	v := &Violation{Harness: p.w.harness, Kind: kind, ID: id, Msg: msg, Inputs: map[string]string{},
		Prefix: append([]int32{}, p.dec...), MapOrder: p.usedOrder, Threads: len(p.sch.all),
		Schedule: append([]SchedEvent{}, p.sch.trace...)}
	for i := range v.Schedule {
		v.Schedule[i].At = p.e.pos(v.Schedule[i].pos)
	}
	for _, in := range p.inputs {
		v.Inputs[in.name] = in.render(ev)
		v.Order = append(v.Order, in.name)
	}
	for _, o := range p.obs {
		v.Observed = append(v.Observed, o.label+"="+p.renderVal(o.v, ev))
	}
	p.viol = append(p.viol, v)
	return v
}

func (in *inputVar) render(ev *evaluator) string {
	switch in.kind {
	case "bool":
		return fmt.Sprint(ev.eval(in.t) != 0)
	case "int":
		u := ev.eval(in.t)
		if in.sgn {
			return fmt.Sprint(sext(u, in.w))
		}
		return fmt.Sprint(u)
	case "float":
		return fmt.Sprintf("0x%016x", ev.eval(in.t))
	case "string":
		n := int(ev.eval(in.f.n))
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(ev.eval(in.f.b[i]))
		}
		return fmt.Sprintf("%x", b)
	case "bytes":
		b := make([]byte, len(in.bs))
		for i := range b {
			b[i] = byte(ev.eval(in.bs[i]))
		}
		return fmt.Sprintf("%x", b)
	}
	return "?"
}

// assertCond checks the property for every input of this path.
func (p *Path) assertCond(t *Term, id string) {
	p.asserts[id]++
	switch p.implied(t) {
	case 1:
		p.w.stats.trivial++
		return
	case -1:
		p.violation("assert", id, "assertion "+id+" fails", p.model)
		p.end("violation", id)
	}
	p.w.stats.assertQ++
	if p.ev.eval(t) == 0 {
		p.violation("assert", id, "assertion "+id+" fails", p.model)
		p.end("violation", id)
	}
	r, m := p.check(p.ctx.Not(t))
	switch r {
	case Sat:
		// v.model refutes the property; the remaining inputs continue
		p.setModelKeep(m, func() { p.violation("assert", id, "assertion "+id+" fails", m) })
		p.assume(t)
	case Unsat:
	}
}

func (p *Path) setModelKeep(m Model, f func()) { f() }

func (p *Path) renderVal(v value, ev *evaluator) string {
	switch v := v.(type) {
	case *Term:
		u := ev.eval(v)
		if v.w == 0 {
			return fmt.Sprint(u != 0)
		}
		return fmt.Sprint(sext(u, v.w))
	case FSym:
		return fmt.Sprintf("0x%016x", ev.eval(v.t))
	case float64:
		return fmt.Sprintf("0x%016x", p.floatTerm(v).c)
	case string:
		return fmt.Sprintf("%q", v)
	case *SymStr:
		f := p.flatten(v)
		n := int(ev.eval(f.n))
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(ev.eval(f.b[i]))
		}
		return fmt.Sprintf("%q", string(b))
	case iface:
		if v.t == nil {
			return "nil"
		}
		return p.renderVal(v.v, ev)
	case []value:
		var s []string
		for _, e := range v {
			s = append(s, p.renderVal(e, ev))
		}
		return "[" + strings.Join(s, " ") + "]"
	case bool, int64, uint64:
		return fmt.Sprint(v)
	}
	return fmt.Sprintf("<%T>", v)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
