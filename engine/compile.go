package main

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime"
	"runtime/metrics"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const (
	cNext   = -1
	cReturn = -2
)

type instrFn func(fr *frame) int
type getter func(fr *frame) value

type phiMove struct {
	dst int
	get []getter // per predecessor
}

type blockInfo struct {
	phis []phiMove
	code []instrFn
	succ []int
}

type fnInfo struct {
	fn        *ssa.Function
	name      string
	once      sync.Once
	nregs     int
	blocks    []blockInfo
	recover   int
	hasDefer  bool
	params    []int
	freevars  []int
	intrinsic func(fr *frame, args []value) value
	native    bool
	pkg       string
	instrs    int
	watched   bool              // netscrape code
	regs      map[ssa.Value]int // initialisers only
	fromCtx   bool              // package context: no preemption inside
}

type deferred struct {
	fn   value
	args []value
	next *deferred
	pos  token.Pos
}

type panicState struct {
	v         value
	pos       token.Pos
	recovered bool
}

type frame struct {
	p      *Path
	g      *Gor
	fi     *fnInfo
	regs   []value
	block  int
	prev   int
	defers *deferred
	caller *frame
	result value
	// panicking
	panicking *panicState
	pos       token.Pos
}

type targetPanic struct {
	v   value
	pos token.Pos
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if v, ok := e.fns.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{fn: fn}
	v, _ := e.fns.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return nil
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) prepare(fi *fnInfo) {
	fi.once.Do(func() {
		fn := fi.fn
		fi.name = fnName(fn)
		if pk := fnPkg(fn); pk != nil {
			fi.pkg = pk.Path()
		}
		fi.watched = strings.HasPrefix(fi.pkg, e.watchPrefix)
		fi.fromCtx = fi.pkg == "context"
		if in, ok := intrinsics[fi.name]; ok {
			fi.intrinsic = in
			fi.native = true
			return
		}
		if fi.pkg == e.symPkg {
			fi.native = true
			fi.intrinsic = func(fr *frame, args []value) value {
				panic(unsupported("sym function %s", fi.name))
			}
			if _, ok := symInterpreted[fn.Name()]; !ok {
				return
			}
			fi.native, fi.intrinsic = false, nil
		}
		if fn.Blocks == nil {
			fi.native = true
			name := fi.name
			if fi.pkg == "math" && strings.HasPrefix(fn.Name(), "arch") {
				// assembly with a portable equivalent
				if g := fn.Pkg.Func(strings.ToLower(fn.Name()[4:5]) + fn.Name()[5:]); g != nil {
					fi.intrinsic = func(fr *frame, args []value) value {
						return fr.p.callFn(fr, g, nil, args, fr.p.curSite)
					}
					return
				}
			}
			fi.intrinsic = func(fr *frame, args []value) value {
				panic(unsupported("function without body %s", name))
			}
			return
		}
		e.compile(fi)
	})
}

type compiler struct {
	e    *Engine
	fi   *fnInfo
	regs map[ssa.Value]int
}

func (c *compiler) reg(v ssa.Value) int {
	i, ok := c.regs[v]
	if !ok {
		i = len(c.regs)
		c.regs[v] = i
	}
	return i
}

func (c *compiler) get(v ssa.Value) getter {
	switch v := v.(type) {
	case *ssa.Const:
		var k value
		var err any
		func() {
			defer func() { err = recover() }()
			k = constValue(v)
		}()
		if err != nil {
			return func(fr *frame) value { panic(err) }
		}
		if _, ok := k.(agg); ok {
			return func(fr *frame) value { return copyVal(k) }
		}
		return func(fr *frame) value { return k }
	case *ssa.Function:
		return func(fr *frame) value { return v }
	case *ssa.Builtin:
		return func(fr *frame) value { return v }
	case *ssa.Global:
		return func(fr *frame) value { return fr.p.global(v) }
	}
	i := c.reg(v)
	return func(fr *frame) value { return fr.regs[i] }
}

func (e *Engine) compile(fi *fnInfo) {
	fn := fi.fn
	c := &compiler{e: e, fi: fi, regs: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		fi.params = append(fi.params, c.reg(p))
	}
	for _, v := range fn.FreeVars {
		fi.freevars = append(fi.freevars, c.reg(v))
	}
	fi.blocks = make([]blockInfo, len(fn.Blocks))
	fi.recover = -1
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
	for bi, b := range fn.Blocks {
		blk := &fi.blocks[bi]
		for _, s := range b.Succs {
			blk.succ = append(blk.succ, s.Index)
		}
		for _, in := range b.Instrs {
			fi.instrs++
			if ph, ok := in.(*ssa.Phi); ok {
				m := phiMove{dst: c.reg(ph), get: make([]getter, len(ph.Edges))}
				for i, ed := range ph.Edges {
					m.get[i] = c.get(ed)
				}
				blk.phis = append(blk.phis, m)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
			blk.code = append(blk.code, c.instr(in, bi))
		}
	}
	fi.nregs = len(c.regs)
	if strings.HasPrefix(fn.Name(), "init") {
		fi.regs = c.regs
	}
}

// predIndex maps a predecessor block to its phi edge.
func predIndex(b *ssa.BasicBlock, prev int) int {
	for i, p := range b.Preds {
		if p.Index == prev {
			return i
		}
	}
	return 0
}

func (p *Path) call(fr *frame, fnv value, args []value, pos token.Pos) value {
	switch f := fnv.(type) {
	case *ssa.Function:
		return p.callFn(fr, f, nil, args, pos)
	case *closure:
		if f != nil {
			return p.callFn(fr, f.fn, f.env, args, pos)
		}
	case *nativeFn:
		return f.f(fr, args)
	case *ssa.Builtin:
		return p.builtin(fr, f, args, nil)
	case nil:
	case poison:
		panic(unsupported("call of %s", f.why))
	default:
		panic(unsupported("call of %T", fnv))
	}
	p.targetPanicRT("invalid memory address or nil pointer dereference")
	return nil
}

func (p *Path) callFn(caller *frame, fn *ssa.Function, env []value, args []value, pos token.Pos) value {
	fi := p.e.info(fn)
	p.e.prepare(fi)
	g := caller.g
	if fi.native {
		fr := caller
		old := p.curSite
		if pos.IsValid() {
			p.curSite = pos
		}
		r := fi.intrinsic(fr, args)
		p.curSite = old
		return r
	}
	fr := &frame{p: p, g: g, fi: fi, caller: caller, pos: pos}
	fr.regs = make([]value, fi.nregs)
	if len(args) != len(fi.params) {
		panic(unsupported("internal: %s called with %d args", fi.name, len(args)))
	}
	for i, r := range fi.params {
		fr.regs[r] = args[i]
	}
	for i, r := range fi.freevars {
		fr.regs[r] = env[i]
	}
	if fi.watched && !p.covers[fi] {
		p.covers[fi] = true
	}
	g.depth++
	if g.depth > p.depthLimit {
		p.violation("fatal", "fatal", "stack overflow: unbounded recursion in "+fi.name, p.model)
		p.end("violation", "stack overflow")
	}
	if fi.fromCtx {
		g.noPre++
	}
	g.top = fr
	p.runFrame(fr)
	g.top = caller
	if fi.fromCtx {
		g.noPre--
	}
	g.depth--
	return fr.result
}

func (p *Path) runFrame(fr *frame) {
	if !fr.fi.hasDefer {
		p.exec(fr, 0, -1)
		return
	}
	block, prev := 0, -1
	for {
		pn := p.execProtected(fr, block, prev)
		if pn == nil {
			return
		}
		fr.panicking = pn
		// deferred calls may recover or panic anew
		p.runDefersPanicking(fr)
		if fr.panicking != nil {
			panic(targetPanic{fr.panicking.v, fr.panicking.pos})
		}
		// recovered
		if fr.fi.recover >= 0 {
			block, prev = fr.fi.recover, -1
			continue
		}
		fr.result = zero(fr.fi.fn.Signature.Results())
		if fr.fi.fn.Signature.Results().Len() == 0 {
			fr.result = nil
		}
		return
	}
}

func (p *Path) execProtected(fr *frame, block, prev int) (pn *panicState) {
	depth, noPre := fr.g.depth, fr.g.noPre
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if tp, ok := r.(targetPanic); ok {
			fr.g.depth, fr.g.noPre = depth, noPre
			pn = &panicState{v: tp.v, pos: tp.pos}
			return
		}
		panic(r)
	}()
	p.exec(fr, block, prev)
	return nil
}

func (p *Path) runDefersPanicking(fr *frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		pn := func() (pn *panicState) {
			depth, noPre := fr.g.depth, fr.g.noPre
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				if tp, ok := r.(targetPanic); ok {
					fr.g.depth, fr.g.noPre = depth, noPre
					pn = &panicState{v: tp.v, pos: tp.pos}
					return
				}
				panic(r)
			}()
			p.callDeferred(fr, d)
			return nil
		}()
		if pn != nil {
			fr.panicking = pn
		} else if fr.panicking != nil && fr.panicking.recovered {
			fr.panicking = nil
		}
	}
}

func (p *Path) callDeferred(fr *frame, d *deferred) {
	fr.g.top = fr
	if b, ok := d.fn.(*ssa.Builtin); ok {
		p.builtin(fr, b, d.args, nil)
		return
	}
	p.call(fr, d.fn, d.args, d.pos)
}

func (p *Path) exec(fr *frame, block, prev int) {
	fi := fr.fi
	fr.block, fr.prev = block, prev
	for {
		b := &fi.blocks[fr.block]
		if len(b.phis) > 0 {
			pi := predIndex(fi.fn.Blocks[fr.block], fr.prev)
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = b.phis[0].get[pi](fr)
			} else {
				tmp := make([]value, len(b.phis))
				for i := range b.phis {
					tmp[i] = b.phis[i].get[pi](fr)
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		p.steps += int64(len(b.code)) + 1
		if p.steps > p.pollAt {
			p.poll(fr)
		}
		r := cNext
		for _, f := range b.code {
			if r = f(fr); r != cNext {
				break
			}
		}
		if r == cReturn {
			return
		}
		if r == cNext {
			panic(unsupported("internal: block without terminator in %s", fi.name))
		}
		fr.prev, fr.block = fr.block, r
	}
}

// poll is called every million steps: a path ends when its step budget is used up (a sixteenth of it with several goroutines), or when it is long already and
// memory runs low (a path with no end that keeps allocating).
func (p *Path) poll(fr *frame) {
	if p.steps > p.maxSteps || p.steps > p.maxSteps/16 && len(p.sch.all) > 1 || p.steps > 2000000 && p.e.memHigh.Load() {
		p.overBudget(fr)
	}
	p.pollAt = p.steps + 1000000
	if p.pollAt > p.maxSteps {
		p.pollAt = p.maxSteps
	}
}

// watchMemory raises memHigh while the live heap is over the limit.
func (e *Engine) watchMemory(limit uint64) {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		metrics.Read(s)
		high := s[0].Value.Uint64() > limit
		if high && !e.memHigh.Load() {
			runtime.GC() // garbage does not count
			metrics.Read(s)
			high = s[0].Value.Uint64() > limit
		}
		e.memHigh.Store(high)
		time.Sleep(50 * time.Millisecond)
	}
}

// maxSolves is the most solver questions of one path.
const maxSolves = 6000

// overLong ends a path that asks the solver without end.
func (p *Path) overLong() {
	p.violation("budget", "termination", fmt.Sprintf("no end after %d steps and %d branches on symbolic values, at %s", p.steps, p.solves, p.e.pos(p.curSite)), p.model)
	p.end("budget", "too many branches on symbolic values")
}

func (p *Path) overBudget(fr *frame) {
	p.violation("budget", "termination", fmt.Sprintf("no end after %d steps, in %s at %s", p.steps, fr.fi.name, p.e.pos(p.curSite)), p.model)
	p.end("budget", "step budget exceeded in "+fr.fi.name)
}

// ---- panics of the interpreted program ----

func (p *Path) targetPanicRT(msg string) {
	panic(targetPanic{iface{p.e.rtErrType, "runtime error: " + msg}, p.curSite})
}

// plain runtime errors ("send on closed channel", ...) are also runtime.Error values
func (p *Path) targetPanicPlain(msg string) {
	panic(targetPanic{iface{p.e.rtErrType, msg}, p.curSite})
}

func (p *Path) panicMsg(v value) string {
	if i, ok := v.(iface); ok {
		if i.t == nil {
			return "nil"
		}
		if i.t == p.e.rtErrType {
			return i.v.(string)
		}
		if s, ok := i.v.(string); ok {
			return s
		}
		if i.t != nil {
			s := ""
			func() {
				defer func() {
					if recover() != nil {
						s = showVal(v, 0)
					}
				}()
				s = p.concreteStrNoFork(p.fmtValue(&frame{p: p, g: p.sch.cur}, i, 'v', false))
			}()
			return s
		}
	}
	return showVal(v, 0)
}

func (p *Path) concreteStrNoFork(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return showVal(v, 0)
}

func (fr *frame) checkNil(ptr *value) {
	if ptr == nil {
		fr.p.targetPanicRT("invalid memory address or nil pointer dereference")
	}
}

func asPtr(v value) *value {
	switch v := v.(type) {
	case *value:
		return v
	case nil:
		return nil
	case poison:
		panic(unsupported("use of %s", v.why))
	}
	panic(unsupported("pointer expected, have %T", v))
}

func (p *Path) load(c *value, pos token.Pos) value {
	if p.sch.multi && p.initDepth == 0 {
		p.sch.readDeep(c, pos)
	}
	v := *c
	if a, ok := v.(agg); ok {
		return copyVal(a)
	}
	return v
}

func (p *Path) store(c *value, v value, pos token.Pos) {
	if p.sch.multi && p.initDepth == 0 {
		p.sch.writeDeep(c, pos)
	}
	if a, ok := v.(agg); ok {
		// keep addresses of fields stable
		if old, ok := (*c).(agg); ok && len(old) == len(a) {
			storeAgg(old, a)
			return
		}
		*c = copyVal(a)
		return
	}
	*c = v
}

func storeAgg(dst, src agg) {
	for i, e := range src {
		if se, ok := e.(agg); ok {
			if de, ok := dst[i].(agg); ok && len(de) == len(se) {
				storeAgg(de, se)
				continue
			}
			dst[i] = copyVal(se)
			continue
		}
		dst[i] = e
	}
}

func (c *compiler) instr(in ssa.Instruction, bi int) instrFn {
	e := c.e
	pos := in.Pos()
	switch in := in.(type) {
	case *ssa.Alloc:
		dst := c.reg(in)
		t := in.Type().Underlying().(*types.Pointer).Elem()
		if in.Heap {
			return func(fr *frame) int {
				p := new(value)
				*p = zero(t)
				fr.regs[dst] = p
				return cNext
			}
		}
		return func(fr *frame) int {
			// a local: a fresh cell per execution is equivalent
			p := new(value)
			*p = zero(t)
			fr.regs[dst] = p
			return cNext
		}
	case *ssa.BinOp:
		dst := c.reg(in)
		x, y := c.get(in.X), c.get(in.Y)
		op := c.binop(in.Op, in.X.Type(), in.Y.Type(), in.Type())
		return func(fr *frame) int {
			fr.p.curSite = pos
			fr.regs[dst] = op(fr, x(fr), y(fr))
			return cNext
		}
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.Call:
		dst := c.reg(in)
		call := c.call(&in.Call, pos)
		return func(fr *frame) int {
			fr.regs[dst] = call(fr)
			return cNext
		}
	case *ssa.ChangeInterface:
		dst, x := c.reg(in), c.get(in.X)
		return func(fr *frame) int { fr.regs[dst] = x(fr); return cNext }
	case *ssa.ChangeType:
		dst, x := c.reg(in), c.get(in.X)
		return func(fr *frame) int { fr.regs[dst] = x(fr); return cNext }
	case *ssa.Convert:
		dst, x := c.reg(in), c.get(in.X)
		conv := c.convert(in.X.Type(), in.Type())
		return func(fr *frame) int {
			fr.p.curSite = pos
			fr.regs[dst] = conv(fr, x(fr))
			return cNext
		}
	case *ssa.MultiConvert:
		dst, x := c.reg(in), c.get(in.X)
		from, to := in.X.Type(), in.Type()
		return func(fr *frame) int {
			panic(unsupported("multiconvert %s to %s (%v %v)", from, to, dst, x))
		}
	case *ssa.SliceToArrayPointer:
		return func(fr *frame) int { panic(unsupported("slice to array pointer")) }
	case *ssa.MakeInterface:
		dst, x := c.reg(in), c.get(in.X)
		t := in.X.Type()
		return func(fr *frame) int {
			fr.regs[dst] = iface{t, x(fr)}
			return cNext
		}
	case *ssa.MakeClosure:
		dst := c.reg(in)
		fn := in.Fn.(*ssa.Function)
		var bs []getter
		for _, b := range in.Bindings {
			bs = append(bs, c.get(b))
		}
		return func(fr *frame) int {
			env := make([]value, len(bs))
			for i, b := range bs {
				env[i] = b(fr)
			}
			fr.regs[dst] = &closure{fn, env}
			return cNext
		}
	case *ssa.MakeMap:
		dst := c.reg(in)
		return func(fr *frame) int { fr.regs[dst] = newMap(); return cNext }
	case *ssa.MakeChan:
		dst, sz := c.reg(in), c.get(in.Size)
		return func(fr *frame) int {
			p := fr.p
			n := sz(fr)
			switch n := n.(type) {
			case int64:
				if n < 0 || n > 1<<40 {
					p.curSite = pos
					p.targetPanicPlain("makechan: size out of range")
				}
				fr.regs[dst] = &Chan{cap: n}
			case uint64:
				fr.regs[dst] = &Chan{cap: int64(n)}
			case *Term:
				neg := p.ctx.Mk(OSlt, 0, 0, n, p.ctx.BV(0, n.w))
				big := p.ctx.Mk(OSlt, 0, 0, p.ctx.BV(1<<40, n.w), n)
				if p.branch(p.ctx.Or(neg, big)) {
					p.curSite = pos
					p.targetPanicPlain("makechan: size out of range")
				}
				fr.regs[dst] = &Chan{cap: n}
			default:
				panic(unsupported("makechan size %T", n))
			}
			return cNext
		}
	case *ssa.MakeSlice:
		dst := c.reg(in)
		ln, cp := c.get(in.Len), c.get(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) int {
			fr.p.curSite = pos
			n := fr.p.index(ln(fr))
			m := fr.p.index(cp(fr))
			if n < 0 || n > 1<<24 {
				fr.p.targetPanicPlain("makeslice: len out of range")
			}
			if m < n || m > 1<<24 {
				fr.p.targetPanicPlain("makeslice: cap out of range")
			}
			s := make([]value, n, m)
			full := s[:m]
			z := zero(et)
			_, nested := z.(agg)
			for i := range full {
				if nested {
					full[i] = copyVal(z)
				} else {
					full[i] = z
				}
			}
			fr.regs[dst] = s
			return cNext
		}
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.FieldAddr:
		dst, x, f := c.reg(in), c.get(in.X), in.Field
		return func(fr *frame) int {
			ptr := asPtr(x(fr))
			if ptr == nil {
				fr.p.curSite = pos
				fr.checkNil(nil)
			}
			a, ok := (*ptr).(agg)
			if !ok {
				fr.p.curSite = pos
				panic(unsupported("field address in %T", *ptr))
			}
			fr.regs[dst] = &a[f]
			return cNext
		}
	case *ssa.Field:
		dst, x, f := c.reg(in), c.get(in.X), in.Field
		return func(fr *frame) int {
			a, ok := x(fr).(agg)
			if !ok {
				fr.p.curSite = pos
				panic(unsupported("field of non-struct"))
			}
			fr.regs[dst] = a[f]
			return cNext
		}
	case *ssa.IndexAddr:
		dst, x, idx := c.reg(in), c.get(in.X), c.get(in.Index)
		return func(fr *frame) int {
			fr.p.curSite = pos
			switch xv := x(fr).(type) {
			case []value:
				i := fr.p.boundsIndex(idx(fr), len(xv))
				fr.regs[dst] = &xv[i]
			case *value:
				fr.checkNil(xv)
				a := (*xv).(agg)
				i := fr.p.boundsIndex(idx(fr), len(a))
				fr.regs[dst] = &a[i]
			default:
				panic(unsupported("index address of %T", xv))
			}
			return cNext
		}
	case *ssa.Index:
		dst, x, idx := c.reg(in), c.get(in.X), c.get(in.Index)
		return func(fr *frame) int {
			fr.p.curSite = pos
			switch xv := x(fr).(type) {
			case agg:
				fr.regs[dst] = fr.p.indexRead([]value(xv), idx(fr))
			case string:
				iv := idx(fr)
				if t, ok := iv.(*Term); ok {
					bs := make([]value, len(xv))
					for i := range bs {
						bs[i] = uint64(xv[i])
					}
					fr.regs[dst] = fr.p.indexRead(bs, t)
				} else {
					i := fr.p.boundsIndex(iv, len(xv))
					fr.regs[dst] = uint64(xv[i])
				}
			case *SymStr:
				fr.regs[dst] = fr.p.strIndex(xv, idx(fr))
			default:
				panic(unsupported("index of %T", xv))
			}
			return cNext
		}
	case *ssa.Lookup:
		dst, x, k := c.reg(in), c.get(in.X), c.get(in.Index)
		commaOk := in.CommaOk
		mt, isMap := in.X.Type().Underlying().(*types.Map)
		if !isMap {
			return func(fr *frame) int {
				fr.p.curSite = pos
				switch xv := x(fr).(type) {
				case string:
					i := fr.p.boundsIndex(k(fr), len(xv))
					fr.regs[dst] = uint64(xv[i])
				case *SymStr:
					fr.regs[dst] = fr.p.strIndex(xv, k(fr))
				}
				return cNext
			}
		}
		et := mt.Elem()
		return func(fr *frame) int {
			fr.p.curSite = pos
			m := asMap(x(fr))
			fr.p.mapAccess(m, false, pos)
			en := m.find(fr.p, k(fr))
			var v value
			if en != nil {
				v = copyVal(en.v)
			} else {
				v = zero(et)
			}
			if commaOk {
				fr.regs[dst] = tuple{v, en != nil}
			} else {
				fr.regs[dst] = v
			}
			return cNext
		}
	case *ssa.MapUpdate:
		m, k, v := c.get(in.Map), c.get(in.Key), c.get(in.Value)
		return func(fr *frame) int {
			fr.p.curSite = pos
			mv := asMap(m(fr))
			if mv == nil {
				fr.p.targetPanicPlain("assignment to entry in nil map")
			}
			fr.p.mapAccess(mv, true, pos)
			mv.set(fr.p, k(fr), copyVal(v(fr)))
			return cNext
		}
	case *ssa.Range:
		dst, x := c.reg(in), c.get(in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			return func(fr *frame) int {
				m := asMap(x(fr))
				fr.p.mapAccess(m, false, pos)
				fr.regs[dst] = fr.p.newMapIter(m)
				return cNext
			}
		}
		return func(fr *frame) int {
			fr.regs[dst] = &strIter{bs: fr.p.strBytes(x(fr))}
			return cNext
		}
	case *ssa.Next:
		dst, it := c.reg(in), c.get(in.Iter)
		var kz, vz value
		tt := in.Type().(*types.Tuple)
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		if !in.IsString {
			if b, ok := kt.(*types.Basic); !ok || b.Kind() != types.Invalid {
				kz = zero(kt)
			}
			if b, ok := vt.(*types.Basic); !ok || b.Kind() != types.Invalid {
				vz = zero(vt)
			}
			return func(fr *frame) int {
				i := it(fr).(*mapIter)
				fr.p.mapAccess(i.m, false, pos)
				en := i.next(fr.p)
				if en == nil {
					fr.regs[dst] = tuple{false, kz, vz}
				} else {
					fr.regs[dst] = tuple{true, copyVal(en.k), copyVal(en.v)}
				}
				return cNext
			}
		}
		return func(fr *frame) int {
			fr.p.curSite = pos
			fr.regs[dst] = it(fr).(*strIter).next(fr.p)
			return cNext
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	case *ssa.Extract:
		dst, x, i := c.reg(in), c.get(in.Tuple), in.Index
		return func(fr *frame) int {
			switch t := x(fr).(type) {
			case tuple:
				fr.regs[dst] = t[i]
			case poison:
				fr.regs[dst] = t
			default:
				panic(unsupported("extract from %T", t))
			}
			return cNext
		}
	case *ssa.Select:
		return c.selectInstr(in)
	case *ssa.Send:
		ch, x := c.get(in.Chan), c.get(in.X)
		return func(fr *frame) int {
			fr.p.curSite = pos
			fr.p.sch.send(fr.g, asChan(ch(fr)), copyVal(x(fr)))
			return cNext
		}
	case *ssa.Store:
		a, v := c.get(in.Addr), c.get(in.Val)
		return func(fr *frame) int {
			ptr := asPtr(a(fr))
			fr.p.curSite = pos
			fr.checkNil(ptr)
			fr.p.store(ptr, v(fr), pos)
			return cNext
		}
	case *ssa.Go:
		fnv, args := c.callParts(&in.Call, pos)
		return func(fr *frame) int {
			fr.p.curSite = pos
			f, a := fnv(fr), args(fr)
			p := fr.p
			fr.g.vc[fr.g.id]++
			p.sch.spawn(fr.g, func(g *Gor) {
				root := &frame{p: p, g: g, fi: fr.fi}
				p.call(root, f, a, pos)
			})
			p.sch.point(fr.g, "go")
			return cNext
		}
	case *ssa.Defer:
		fnv, args := c.callParts(&in.Call, pos)
		return func(fr *frame) int {
			fr.p.curSite = pos
			fr.defers = &deferred{fn: fnv(fr), args: args(fr), next: fr.defers, pos: pos}
			return cNext
		}
	case *ssa.RunDefers:
		return func(fr *frame) int {
			for fr.defers != nil {
				d := fr.defers
				fr.defers = d.next
				fr.p.callDeferred(fr, d)
			}
			return cNext
		}
	case *ssa.Jump:
		t := in.Block().Succs[0].Index
		return func(fr *frame) int { return t }
	case *ssa.If:
		cond := c.get(in.Cond)
		t, f := in.Block().Succs[0].Index, in.Block().Succs[1].Index
		cpos := in.Cond.Pos()
		return func(fr *frame) int {
			v := cond(fr)
			if b, ok := v.(bool); ok {
				if b {
					return t
				}
				return f
			}
			fr.p.curSite = cpos
			if fr.p.truth(v) {
				return t
			}
			return f
		}
	case *ssa.Return:
		var rs []getter
		for _, r := range in.Results {
			rs = append(rs, c.get(r))
		}
		switch len(rs) {
		case 0:
			return func(fr *frame) int { fr.result = nil; return cReturn }
		case 1:
			return func(fr *frame) int { fr.result = copyVal(rs[0](fr)); return cReturn }
		}
		return func(fr *frame) int {
			t := make(tuple, len(rs))
			for i, r := range rs {
				t[i] = copyVal(r(fr))
			}
			fr.result = t
			return cReturn
		}
	case *ssa.Panic:
		x := c.get(in.X)
		return func(fr *frame) int {
			fr.p.curSite = pos
			panic(targetPanic{x(fr), pos})
		}
	}
	_ = e
	return func(fr *frame) int { panic(unsupported("instruction %T", in)) }
}

func asMap(v value) *Map {
	switch v := v.(type) {
	case *Map:
		return v
	case poison:
		panic(unsupported("use of %s", v.why))
	}
	panic(unsupported("map expected, have %T", v))
}

func asChan(v value) *Chan {
	switch v := v.(type) {
	case *Chan:
		return v
	case poison:
		panic(unsupported("use of %s", v.why))
	}
	panic(unsupported("chan expected, have %T", v))
}

func (p *Path) mapAccess(m *Map, write bool, pos token.Pos) {
	if m == nil || !p.sch.multi || p.initDepth > 0 {
		return
	}
	if write {
		p.sch.writeCell(m.shadow, pos)
	} else {
		p.sch.readCell(m.shadow, pos)
	}
}

// index makes an integer concrete (forking) as an int.
func (p *Path) index(v value) int {
	switch v := v.(type) {
	case int64:
		return int(v)
	case uint64:
		return int(v)
	case *Term:
		return int(sext(p.concretizeTerm(v), v.w))
	case poison:
		panic(unsupported("use of %s", v.why))
	}
	panic(unsupported("index %T", v))
}

func (p *Path) boundsIndex(v value, n int) int {
	if t, ok := v.(*Term); ok {
		in := p.ctx.Mk(OUlt, 0, 0, p.widen(t), p.ctx.BV(uint64(n), 64))
		if !p.branch(in) {
			p.targetPanicRT(fmt.Sprintf("index out of range with length %d", n))
		}
		return int(p.concretizeTerm(t))
	}
	i := p.index(v)
	if i < 0 || i >= n {
		p.targetPanicRT(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return i
}

func (p *Path) widen(t *Term) *Term {
	if t.w == 64 {
		return t
	}
	return p.ctx.Mk(OZExt, 64, 0, t)
}

// indexRead reads s[i]; a symbolic index into scalars becomes an ite chain.
func (p *Path) indexRead(s []value, i value) value {
	t, ok := i.(*Term)
	if !ok {
		return copyVal(s[p.boundsIndex(i, len(s))])
	}
	in := p.ctx.Mk(OUlt, 0, 0, p.widen(t), p.ctx.BV(uint64(len(s)), 64))
	if !p.branch(in) {
		p.targetPanicRT(fmt.Sprintf("index out of range with length %d", len(s)))
	}
	if len(s) > 0 && len(s) <= 256 {
		if _, isU := s[0].(uint64); isU {
			all := true
			for _, x := range s {
				if _, ok := x.(uint64); !ok {
					all = false
				}
			}
			if all {
				r := p.ctx.BV(s[len(s)-1].(uint64), 8)
				for k := len(s) - 2; k >= 0; k-- {
					if s[k].(uint64) > 255 {
						all = false
					}
					r = p.ctx.Ite(p.ctx.Eq(t, p.ctx.BV(uint64(k), t.w)), p.ctx.BV(s[k].(uint64), 8), r)
				}
				if all {
					return intVal(r, intInfo{8, false})
				}
			}
		}
	}
	return copyVal(s[int(p.concretizeTerm(t))])
}

func (p *Path) strIndex(s *SymStr, i value) value {
	f := p.flatten(s)
	n := p.intTerm(i, 64)
	in := p.ctx.Mk(OUlt, 0, 0, n, f.n)
	if !p.branch(in) {
		p.targetPanicRT("index out of range")
	}
	if n.op == OConst {
		return intVal(f.b[n.c], intInfo{8, false})
	}
	r := p.ctx.BV(0, 8)
	for k := len(f.b) - 1; k >= 0; k-- {
		r = p.ctx.Ite(p.ctx.Eq(n, p.ctx.BV(uint64(k), 64)), f.b[k], r)
	}
	return intVal(r, intInfo{8, false})
}

type strIter struct {
	bs []value
	i  int
}

func (it *strIter) next(p *Path) value {
	if it.i >= len(it.bs) {
		return tuple{false, int64(0), int64(0)}
	}
	at := it.i
	if t, ok := it.bs[at].(*Term); ok {
		if p.branch(p.ctx.Mk(OUlt, 0, 0, t, p.ctx.BV(0x80, 8))) {
			it.i++
			return tuple{true, int64(at), intVal(p.ctx.Mk(OZExt, 32, 0, t), intInfo{32, true})}
		}
	}
	// decode concretely
	var buf []byte
	for k := at; k < len(it.bs) && k < at+4; k++ {
		switch b := it.bs[k].(type) {
		case uint64:
			buf = append(buf, byte(b))
		case *Term:
			buf = append(buf, byte(p.concretizeTerm(b)))
		}
	}
	r, sz := utf8.DecodeRune(buf)
	it.i += sz
	return tuple{true, int64(at), int64(r)}
}

func (c *compiler) unop(in *ssa.UnOp) instrFn {
	dst, x := c.reg(in), c.get(in.X)
	pos := in.Pos()
	switch in.Op {
	case token.MUL:
		return func(fr *frame) int {
			ptr := asPtr(x(fr))
			if ptr == nil {
				fr.p.curSite = pos
				fr.checkNil(nil)
			}
			fr.regs[dst] = fr.p.load(ptr, pos)
			return cNext
		}
	case token.ARROW:
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		commaOk := in.CommaOk
		return func(fr *frame) int {
			fr.p.curSite = pos
			v, ok := fr.p.sch.recv(fr.g, asChan(x(fr)), zero(et))
			if commaOk {
				fr.regs[dst] = tuple{v, ok}
			} else {
				fr.regs[dst] = v
			}
			return cNext
		}
	case token.NOT:
		return func(fr *frame) int {
			switch v := x(fr).(type) {
			case bool:
				fr.regs[dst] = !v
			case *Term:
				fr.regs[dst] = fr.p.boolVal(fr.p.ctx.Not(v))
			default:
				panic(unsupported("not of %T", v))
			}
			return cNext
		}
	case token.SUB:
		if ii, ok := basicInt(in.Type()); ok {
			return func(fr *frame) int {
				v := x(fr)
				if r, ok := rawInt(v); ok {
					fr.regs[dst] = normInt(-r, ii)
				} else {
					fr.regs[dst] = intVal(fr.p.ctx.Mk(ONeg, ii.w, 0, fr.p.intTerm(v, ii.w)), ii)
				}
				return cNext
			}
		}
		return func(fr *frame) int {
			switch v := x(fr).(type) {
			case float64:
				fr.regs[dst] = -v
			case float32:
				fr.regs[dst] = -v
			case FSym:
				fr.regs[dst] = floatVal(fr.p.ctx.Mk(OFNeg, v.t.w, 0, v.t))
			default:
				panic(unsupported("negation of %T", v))
			}
			return cNext
		}
	case token.XOR:
		ii, _ := basicInt(in.Type())
		return func(fr *frame) int {
			v := x(fr)
			if r, ok := rawInt(v); ok {
				fr.regs[dst] = normInt(^r, ii)
			} else {
				fr.regs[dst] = intVal(fr.p.ctx.Mk(OBNot, ii.w, 0, fr.p.intTerm(v, ii.w)), ii)
			}
			return cNext
		}
	}
	return func(fr *frame) int { panic(unsupported("unary %s", in.Op)) }
}

type binFn func(fr *frame, x, y value) value

func (c *compiler) binop(op token.Token, xt, yt, rt types.Type) binFn {
	switch op {
	case token.EQL:
		return func(fr *frame, x, y value) value { return fr.p.boolVal(fr.p.eq(x, y)) }
	case token.NEQ:
		return func(fr *frame, x, y value) value { return fr.p.boolVal(fr.p.ctx.Not(fr.p.eq(x, y))) }
	}
	if ii, ok := basicInt(xt); ok {
		return c.intBin(op, ii, yt)
	}
	if isString(xt) {
		switch op {
		case token.ADD:
			return func(fr *frame, x, y value) value { return concatStr(x, y) }
		case token.LSS:
			return func(fr *frame, x, y value) value { return fr.p.boolVal(fr.p.strLess(x, y)) }
		case token.GTR:
			return func(fr *frame, x, y value) value { return fr.p.boolVal(fr.p.strLess(y, x)) }
		case token.LEQ:
			return func(fr *frame, x, y value) value { return fr.p.boolVal(fr.p.ctx.Not(fr.p.strLess(y, x))) }
		case token.GEQ:
			return func(fr *frame, x, y value) value { return fr.p.boolVal(fr.p.ctx.Not(fr.p.strLess(x, y))) }
		}
	}
	if w := floatWidth(xt); w != 0 {
		var o Op
		swap, cmp := false, false
		switch op {
		case token.ADD:
			o = OFAdd
		case token.SUB:
			o = OFSub
		case token.MUL:
			o = OFMul
		case token.QUO:
			o = OFDiv
		case token.LSS:
			o, cmp = OFLt, true
		case token.LEQ:
			o, cmp = OFLe, true
		case token.GTR:
			o, cmp, swap = OFLt, true, true
		case token.GEQ:
			o, cmp, swap = OFLe, true, true
		}
		return func(fr *frame, x, y value) value {
			a, b := fr.p.floatTerm(x), fr.p.floatTerm(y)
			if swap {
				a, b = b, a
			}
			if cmp {
				return fr.p.boolVal(fr.p.ctx.Mk(o, 0, 0, a, b))
			}
			return floatVal(fr.p.ctx.Mk(o, w, 0, a, b))
		}
	}
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND, token.LAND:
			return func(fr *frame, x, y value) value {
				return fr.p.boolVal(fr.p.ctx.And(fr.p.boolTerm(x), fr.p.boolTerm(y)))
			}
		case token.OR, token.LOR:
			return func(fr *frame, x, y value) value {
				return fr.p.boolVal(fr.p.ctx.Or(fr.p.boolTerm(x), fr.p.boolTerm(y)))
			}
		}
	}
	return func(fr *frame, x, y value) value { panic(unsupported("binary %s on %s", op, xt)) }
}

func (c *compiler) intBin(op token.Token, ii intInfo, yt types.Type) binFn {
	w, signed := ii.w, ii.signed
	pick := func(s, u Op) Op {
		if signed {
			return s
		}
		return u
	}
	var o Op
	cmp, swap := false, false
	switch op {
	case token.ADD:
		o = OAdd
	case token.SUB:
		o = OSub
	case token.MUL:
		o = OMul
	case token.QUO:
		o = pick(OSDiv, OUDiv)
	case token.REM:
		o = pick(OSRem, OURem)
	case token.AND:
		o = OBAnd
	case token.OR:
		o = OBOr
	case token.XOR:
		o = OBXor
	case token.AND_NOT:
		return func(fr *frame, x, y value) value {
			a, ok1 := rawInt(x)
			b, ok2 := rawInt(y)
			if ok1 && ok2 {
				return normInt(a&^b, ii)
			}
			p := fr.p
			return intVal(p.ctx.Mk(OBAnd, w, 0, p.intTerm(x, w), p.ctx.Mk(OBNot, w, 0, p.intTerm(y, w))), ii)
		}
	case token.SHL, token.SHR:
		yi, _ := basicInt(yt)
		return func(fr *frame, x, y value) value {
			p := fr.p
			if ys, ok := y.(int64); ok && ys < 0 {
				p.targetPanicRT("negative shift amount")
			}
			if a, ok := rawInt(x); ok {
				if b, ok := rawInt(y); ok {
					if op == token.SHL {
						if b >= 64 {
							return normInt(0, ii)
						}
						return normInt(a<<b, ii)
					}
					if signed {
						if b >= 64 {
							b = 63
						}
						return normInt(uint64(int64(a)>>b), ii)
					}
					if b >= 64 {
						return normInt(0, ii)
					}
					return normInt(a>>b, ii)
				}
			}
			yv := p.intTerm(y, yi.w)
			if yi.signed {
				if p.branch(p.ctx.Mk(OSlt, 0, 0, yv, p.ctx.BV(0, yi.w))) {
					p.targetPanicRT("negative shift amount")
				}
			}
			// bring the amount to the width of x, saturating
			var amt *Term
			if yi.w == w {
				amt = yv
			} else if yi.w < w {
				amt = p.ctx.Mk(OZExt, w, 0, yv)
			} else {
				big := p.ctx.Mk(OUle, 0, 0, p.ctx.BV(uint64(w), yi.w), yv)
				amt = p.ctx.Ite(big, p.ctx.BV(uint64(w), w), p.ctx.Mk(OExtract, w, 0, yv))
			}
			oo := OShl
			if op == token.SHR {
				oo = pick(OAShr, OLShr)
			}
			return intVal(p.ctx.Mk(oo, w, 0, p.intTerm(x, w), amt), ii)
		}
	case token.LSS:
		o, cmp = pick(OSlt, OUlt), true
	case token.LEQ:
		o, cmp = pick(OSle, OUle), true
	case token.GTR:
		o, cmp, swap = pick(OSlt, OUlt), true, true
	case token.GEQ:
		o, cmp, swap = pick(OSle, OUle), true, true
	default:
		return func(fr *frame, x, y value) value { panic(unsupported("integer %s", op)) }
	}
	div := op == token.QUO || op == token.REM
	return func(fr *frame, x, y value) value {
		a, ok1 := rawInt(x)
		b, ok2 := rawInt(y)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return normInt(a+b, ii)
			case token.SUB:
				return normInt(a-b, ii)
			case token.MUL:
				return normInt(a*b, ii)
			case token.AND:
				return normInt(a&b, ii)
			case token.OR:
				return normInt(a|b, ii)
			case token.XOR:
				return normInt(a^b, ii)
			case token.LSS:
				if signed {
					return int64(a) < int64(b)
				}
				return a < b
			case token.LEQ:
				if signed {
					return int64(a) <= int64(b)
				}
				return a <= b
			case token.GTR:
				if signed {
					return int64(a) > int64(b)
				}
				return a > b
			case token.GEQ:
				if signed {
					return int64(a) >= int64(b)
				}
				return a >= b
			case token.QUO, token.REM:
				if b == 0 {
					fr.p.targetPanicRT("integer divide by zero")
				}
				if signed {
					if int64(b) == -1 {
						if op == token.QUO {
							return normInt(-a, ii)
						}
						return normInt(0, ii)
					}
					if op == token.QUO {
						return normInt(uint64(int64(a)/int64(b)), ii)
					}
					return normInt(uint64(int64(a)%int64(b)), ii)
				}
				if op == token.QUO {
					return normInt(a/b, ii)
				}
				return normInt(a%b, ii)
			}
		}
		p := fr.p
		ta, tb := p.intTerm(x, w), p.intTerm(y, w)
		if div {
			if p.branch(p.ctx.Eq(tb, p.ctx.BV(0, w))) {
				p.targetPanicRT("integer divide by zero")
			}
		}
		if swap {
			ta, tb = tb, ta
		}
		if cmp {
			return p.boolVal(p.ctx.Mk(o, 0, 0, ta, tb))
		}
		return intVal(p.ctx.Mk(o, w, 0, ta, tb), ii)
	}
}

func (c *compiler) convert(from, to types.Type) func(fr *frame, v value) value {
	fu, tu := from.Underlying(), to.Underlying()
	fi, fInt := basicInt(from)
	ti, tInt := basicInt(to)
	fw, tw := floatWidth(from), floatWidth(to)
	switch {
	case fInt && tInt:
		return func(fr *frame, v value) value {
			if r, ok := rawInt(v); ok {
				return normInt(r, ti)
			}
			t := fr.p.intTerm(v, fi.w)
			switch {
			case ti.w < fi.w:
				t = fr.p.ctx.Mk(OExtract, ti.w, 0, t)
			case ti.w > fi.w && fi.signed:
				t = fr.p.ctx.Mk(OSExt, ti.w, 0, t)
			case ti.w > fi.w:
				t = fr.p.ctx.Mk(OZExt, ti.w, 0, t)
			}
			return intVal(t, ti)
		}
	case fInt && tw != 0:
		return func(fr *frame, v value) value {
			op := OS2F
			if !fi.signed {
				op = OU2F
			}
			return floatVal(fr.p.ctx.Mk(op, tw, 0, fr.p.intTerm(v, fi.w)))
		}
	case fw != 0 && tInt:
		return func(fr *frame, v value) value {
			switch v := v.(type) {
			case float64:
				if ti.signed {
					return normInt(uint64(int64(v)), ti)
				}
				return normInt(uint64(v), ti)
			case float32:
				return normInt(uint64(int64(v)), ti)
			}
			if !ti.signed && ti.w == 64 {
				panic(unsupported("symbolic float to uint64"))
			}
			t := fr.p.ctx.Mk(OF2S, 64, 0, fr.p.floatTerm(v))
			if ti.w < 64 {
				t = fr.p.ctx.Mk(OExtract, ti.w, 0, t)
			}
			return intVal(t, ti)
		}
	case fw != 0 && tw != 0:
		return func(fr *frame, v value) value {
			if fw == tw {
				return v
			}
			switch v := v.(type) {
			case float64:
				return float32(v)
			case float32:
				return float64(v)
			}
			return floatVal(fr.p.ctx.Mk(OF2F, tw, 0, fr.p.floatTerm(v)))
		}
	case isString(to) && fInt:
		return func(fr *frame, v value) value {
			r, ok := rawInt(v)
			if !ok {
				r = fr.p.concretizeTerm(v.(*Term))
			}
			return string(rune(sext(r, fi.w)))
		}
	case isString(to) && isString(from):
		return func(fr *frame, v value) value { return v }
	case isString(to):
		if sl, ok := fu.(*types.Slice); ok {
			if ei, ok := basicInt(sl.Elem()); ok && ei.w == 8 {
				return func(fr *frame, v value) value {
					fr.p.readSlice(v.([]value))
					return fr.p.bytesToStr(v.([]value))
				}
			}
			return func(fr *frame, v value) value {
				var rs []rune
				for _, x := range v.([]value) {
					r, ok := rawInt(x)
					if !ok {
						r = fr.p.concretizeTerm(x.(*Term))
					}
					rs = append(rs, rune(r))
				}
				return string(rs)
			}
		}
	case isString(from):
		if sl, ok := tu.(*types.Slice); ok {
			if ei, ok := basicInt(sl.Elem()); ok && ei.w == 8 {
				return func(fr *frame, v value) value {
					b := fr.p.strBytes(v)
					if b == nil {
						b = []value{}
					}
					return b
				}
			}
			return func(fr *frame, v value) value {
				var out []value
				for _, r := range fr.p.concreteStr(v) {
					out = append(out, int64(r))
				}
				return out
			}
		}
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return func(fr *frame, v value) value { return v }
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return func(fr *frame, v value) value { return v }
	}
	if types.Identical(fu, tu) {
		return func(fr *frame, v value) value { return v }
	}
	if fp, ok := fu.(*types.Pointer); ok {
		if tp, ok := tu.(*types.Pointer); ok && types.Identical(fp.Elem().Underlying(), tp.Elem().Underlying()) {
			return func(fr *frame, v value) value { return v }
		}
	}
	return func(fr *frame, v value) value { panic(unsupported("conversion %s to %s", from, to)) }
}

func (p *Path) readSlice(s []value) {
	if !p.sch.multi || p.initDepth > 0 {
		return
	}
	for i := range s {
		p.sch.readCell(&s[i], p.curSite)
	}
}

func (c *compiler) slice(in *ssa.Slice) instrFn {
	dst, x := c.reg(in), c.get(in.X)
	var lo, hi, mx getter
	if in.Low != nil {
		lo = c.get(in.Low)
	}
	if in.High != nil {
		hi = c.get(in.High)
	}
	if in.Max != nil {
		mx = c.get(in.Max)
	}
	pos := in.Pos()
	return func(fr *frame) int {
		p := fr.p
		p.curSite = pos
		xv := x(fr)
		l, h, m := 0, -1, -1
		if lo != nil {
			l = p.index(lo(fr))
		}
		if hi != nil {
			h = p.index(hi(fr))
		}
		if mx != nil {
			m = p.index(mx(fr))
		}
		switch s := xv.(type) {
		case string:
			if h < 0 && hi == nil {
				h = len(s)
			}
			if l < 0 || h < l || h > len(s) {
				p.targetPanicRT("slice bounds out of range")
			}
			fr.regs[dst] = s[l:h]
		case *SymStr:
			if hi == nil {
				h = p.index(p.strLen(s))
			}
			n := p.index(p.strLen(s))
			if l < 0 || h < l || h > n {
				p.targetPanicRT("slice bounds out of range")
			}
			bs := p.strBytes(s)
			fr.regs[dst] = p.bytesToStr(bs[l:h])
		case []value:
			if hi == nil {
				h = len(s)
			}
			if mx == nil {
				m = cap(s)
			}
			if l < 0 || h < l || m < h || m > cap(s) {
				p.targetPanicRT("slice bounds out of range")
			}
			fr.regs[dst] = s[l:h:m]
		case *value:
			fr.checkNil(s)
			a := []value((*s).(agg))
			if hi == nil {
				h = len(a)
			}
			if mx == nil {
				m = len(a)
			}
			if l < 0 || h < l || m < h || m > len(a) {
				p.targetPanicRT("slice bounds out of range")
			}
			fr.regs[dst] = a[l:h:m]
		default:
			panic(unsupported("slice of %T", xv))
		}
		return cNext
	}
}

func (c *compiler) typeAssert(in *ssa.TypeAssert) instrFn {
	dst, x := c.reg(in), c.get(in.X)
	at := in.AssertedType
	pos := in.Pos()
	it, isIface := at.Underlying().(*types.Interface)
	commaOk := in.CommaOk
	e := c.e
	return func(fr *frame) int {
		fr.p.curSite = pos
		xv := x(fr)
		if po, ok := xv.(poison); ok {
			panic(unsupported("use of %s", po.why))
		}
		v, ok := xv.(iface)
		if !ok {
			panic(unsupported("type assertion on %T", xv))
		}
		good := false
		if v.t != nil {
			if isIface {
				good = e.implements(v.t, it)
			} else {
				good = sameType(v.t, at)
			}
		}
		var r value
		if good {
			if isIface {
				r = v
			} else {
				r = copyVal(v.v)
			}
		} else {
			if !commaOk {
				dyn := "nil"
				if v.t != nil {
					dyn = v.t.String()
				}
				panic(targetPanic{iface{e.rtErrType, fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, at)}, pos})
			}
			r = zero(at)
		}
		if commaOk {
			fr.regs[dst] = tuple{r, good}
		} else {
			fr.regs[dst] = r
		}
		return cNext
	}
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (e *Engine) implements(t types.Type, i *types.Interface) bool {
	if t == e.rtErrType {
		return i.NumMethods() == 0 || types.Implements(t, i)
	}
	k := implKey{t, i}
	if v, ok := e.impl.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, i)
	e.impl.Store(k, r)
	return r
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t: t, name: m.Name()}
	if !m.Exported() {
		k.pkg = m.Pkg()
	}
	if v, ok := e.meths.Load(k); ok {
		return v.(*ssa.Function)
	}
	e.methMu.Lock()
	defer e.methMu.Unlock()
	sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := e.prog.MethodValue(sel)
	e.meths.Store(k, f)
	return f
}

// callParts returns the callee and argument getters of a call.
func (c *compiler) callParts(cc *ssa.CallCommon, pos token.Pos) (getter, func(fr *frame) []value) {
	var args []getter
	for _, a := range cc.Args {
		args = append(args, c.get(a))
	}
	if cc.IsInvoke() {
		x := c.get(cc.Value)
		m := cc.Method
		e := c.e
		fnv := func(fr *frame) value {
			v := x(fr)
			if po, ok := v.(poison); ok {
				panic(unsupported("use of %s", po.why))
			}
			i := v.(iface)
			if i.t == nil {
				fr.p.curSite = pos
				fr.p.targetPanicRT("invalid memory address or nil pointer dereference")
			}
			if i.t == e.rtErrType {
				return &nativeFn{"Error", func(fr *frame, a []value) value { return a[0] }}
			}
			if _, ok := i.v.(rtypeVal); ok {
				return rtypeMethod(m.Name())
			}
			f := e.method(i.t, m)
			if f == nil {
				panic(unsupported("no method %s on %s", m.Name(), i.t))
			}
			return f
		}
		return fnv, func(fr *frame) []value {
			out := make([]value, len(args)+1)
			out[0] = copyVal(x(fr).(iface).v)
			for i, a := range args {
				out[i+1] = copyVal(a(fr))
			}
			return out
		}
	}
	return c.get(cc.Value), func(fr *frame) []value {
		out := make([]value, len(args))
		for i, a := range args {
			out[i] = copyVal(a(fr))
		}
		return out
	}
}

func (c *compiler) call(cc *ssa.CallCommon, pos token.Pos) func(fr *frame) value {
	fnv, args := c.callParts(cc, pos)
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		var types_ []types.Type
		for _, a := range cc.Args {
			types_ = append(types_, a.Type())
		}
		return func(fr *frame) value {
			fr.p.curSite = pos
			return fr.p.builtin(fr, b, args(fr), types_)
		}
	}
	if f, ok := cc.Value.(*ssa.Function); ok && !cc.IsInvoke() {
		return func(fr *frame) value {
			fr.p.curSite = pos
			return fr.p.callFn(fr, f, nil, args(fr), pos)
		}
	}
	return func(fr *frame) value {
		fr.p.curSite = pos
		f := fnv(fr)
		return fr.p.call(fr, f, args(fr), pos)
	}
}

func (c *compiler) selectInstr(in *ssa.Select) instrFn {
	dst := c.reg(in)
	type st struct {
		ch, v getter
		send  bool
		et    types.Type
	}
	var sts []st
	var recvTypes []types.Type
	for _, s := range in.States {
		x := st{ch: c.get(s.Chan), send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if x.send {
			x.v = c.get(s.Send)
		} else {
			recvTypes = append(recvTypes, x.et)
		}
		sts = append(sts, x)
	}
	blocking := in.Blocking
	pos := in.Pos()
	return func(fr *frame) int {
		fr.p.curSite = pos
		cases := make([]selCase, len(sts))
		for i, s := range sts {
			cases[i].ch = asChan(s.ch(fr))
			cases[i].send = s.send
			if s.send {
				cases[i].v = copyVal(s.v(fr))
			} else {
				cases[i].zero = zero(s.et)
			}
		}
		idx, v, ok := fr.p.sch.selectOp(fr.g, cases, blocking)
		r := make(tuple, 2, 2+len(recvTypes))
		r[0], r[1] = int64(idx), ok
		for i, s := range sts {
			if s.send {
				continue
			}
			if i == idx {
				r = append(r, v)
			} else {
				r = append(r, zero(s.et))
			}
		}
		fr.regs[dst] = r
		return cNext
	}
}

func (p *Path) builtin(fr *frame, b *ssa.Builtin, args []value, ts []types.Type) value {
	for _, a := range args {
		if po, ok := a.(poison); ok {
			panic(unsupported("use of %s", po.why))
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return p.strLen(x)
		case []value:
			return int64(len(x))
		case *Map:
			if x == nil {
				return int64(0)
			}
			p.mapAccess(x, false, p.curSite)
			return int64(x.n)
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		case agg:
			return int64(len(x))
		case *value:
			return int64(len((*x).(agg)))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return int64(cap(x))
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return x.cap
		case agg:
			return int64(len(x))
		case *value:
			return int64(len((*x).(agg)))
		}
	case "append":
		s := args[0].([]value)
		var add []value
		switch y := args[1].(type) {
		case []value:
			add = y
			p.readSlice(y)
		case string, *SymStr:
			add = p.strBytes(y)
		}
		if len(add) == 0 {
			return s
		}
		if len(s)+len(add) <= cap(s) {
			full := s[:len(s)+len(add)]
			for i, v := range add {
				c := &full[len(s)+i]
				if p.sch.multi && p.initDepth == 0 {
					p.sch.writeCell(c, p.curSite)
				}
				*c = copyVal(v)
			}
			return full
		}
		p.readSlice(s)
		nc := len(s) + len(add)
		if nc < 2*len(s) {
			nc = 2 * len(s)
		}
		out := make([]value, len(s)+len(add), nc)
		copy(out, s)
		for i := range out[:len(s)] {
			out[i] = copyVal(out[i])
		}
		for i, v := range add {
			out[len(s)+i] = copyVal(v)
		}
		if nc > len(out) && len(out) > 0 {
			// spare capacity must hold zero values of the element type
			var z value
			if len(ts) > 0 {
				z = zero(ts[0].Underlying().(*types.Slice).Elem())
			}
			for i := len(out); i < nc; i++ {
				out[:nc][i] = copyVal(z)
			}
		}
		return out
	case "copy":
		d := args[0].([]value)
		var src []value
		switch y := args[1].(type) {
		case []value:
			src = y
		default:
			src = p.strBytes(y)
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			if p.sch.multi && p.initDepth == 0 {
				p.sch.readCell(&src[i], p.curSite)
				p.sch.writeCell(&d[i], p.curSite)
			}
			tmp[i] = copyVal(src[i])
		}
		copy(d, tmp)
		return int64(n)
	case "close":
		p.sch.closeChan(fr.g, asChan(args[0]))
		return nil
	case "delete":
		m := asMap(args[0])
		if m == nil {
			return nil
		}
		p.mapAccess(m, true, p.curSite)
		m.del(p, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				p.mapAccess(x, true, p.curSite)
				x.clear()
			}
		case []value:
			if len(ts) > 0 {
				z := zero(ts[0].Underlying().(*types.Slice).Elem())
				for i := range x {
					x[i] = copyVal(z)
				}
			}
		}
		return nil
	case "panic":
		panic(targetPanic{args[0], p.curSite})
	case "recover":
		// fr is the deferred function's frame; its caller is the panicking frame
		c := fr.caller
		if c != nil && c.panicking != nil && !c.panicking.recovered {
			c.panicking.recovered = true
			return c.panicking.v
		}
		return iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var less *Term
			if ii, ok := basicInt(ts[0]); ok {
				op := OSlt
				if !ii.signed {
					op = OUlt
				}
				less = p.ctx.Mk(op, 0, 0, p.intTerm(a, ii.w), p.intTerm(r, ii.w))
				if b.Name() == "max" {
					less = p.ctx.Mk(op, 0, 0, p.intTerm(r, ii.w), p.intTerm(a, ii.w))
				}
			} else if isString(ts[0]) {
				less = p.strLess(a, r)
				if b.Name() == "max" {
					less = p.strLess(r, a)
				}
			} else {
				less = p.ctx.Mk(OFLt, 0, 0, p.floatTerm(a), p.floatTerm(r))
				if b.Name() == "max" {
					less = p.ctx.Mk(OFLt, 0, 0, p.floatTerm(r), p.floatTerm(a))
				}
			}
			if p.branch(less) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		ptr := asPtr(args[0])
		if ptr == nil {
			p.targetPanicRT("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		if d, ok := args[0].(dataPtr); ok {
			n := p.index(args[1])
			return p.bytesToStr(d.s[:n])
		}
		if d, ok := args[0].(strPtr); ok {
			return d.s
		}
		if asPtr(args[0]) == nil {
			return ""
		}
	case "SliceData":
		return dataPtr{args[0].([]value)}
	case "StringData":
		return strPtr{args[0]}
	case "Slice":
		if d, ok := args[0].(dataPtr); ok {
			return d.s[:p.index(args[1])]
		}
		if d, ok := args[0].(strPtr); ok {
			return p.strBytes(d.s)
		}
	}
	if b.Name() == "Sizeof" {
		return uint64((&types.StdSizes{WordSize: 8, MaxAlign: 8}).Sizeof(b.Type().(*types.Signature).Params().At(0).Type()))
	}
	panic(unsupported("builtin %s on %T", b.Name(), args[0]))
}

type dataPtr struct{ s []value }
type strPtr struct{ s value }

// ---- globals and package initialisation ----

func (p *Path) global(g *ssa.Global) *value {
	if c, ok := p.globals[g]; ok {
		return c
	}
	if c, ok := p.w.stdGlobals[g]; ok {
		return c
	}
	p.initPkg(g.Pkg)
	if c, ok := p.globals[g]; ok {
		return c
	}
	if c, ok := p.w.stdGlobals[g]; ok {
		return c
	}
	panic(unsupported("global %s", g))
}

func (p *Path) initPkg(pkg *ssa.Package) {
	own := p.e.perPath(pkg.Pkg.Path())
	var tab map[*ssa.Global]*value
	if own {
		if p.inited[pkg] {
			return
		}
		p.inited[pkg] = true
		tab = p.globals
	} else {
		if p.w.stdInited[pkg] {
			return
		}
		p.w.stdInited[pkg] = true
		tab = p.w.stdGlobals
	}
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			c := new(value)
			func() {
				defer func() {
					if r := recover(); r != nil {
						*c = poison{fmt.Sprintf("global %s", g)}
					}
				}()
				*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
			}()
			tab[g] = c
		}
	}
	if f, ok := globalOverrides[pkg.Pkg.Path()]; ok {
		f(p, pkg, tab)
		return
	}
	init := pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	p.initDepth++
	saveSteps, saveSite := p.steps, p.curSite
	g := p.sch.cur
	g.noPre++
	p.runInit(init, g, own)
	g.noPre--
	p.initDepth--
	p.steps, p.curSite = saveSteps, saveSite
}

// runInit executes a package initialiser. It follows the straight code, skips initialisers of
// other packages (those run when first used) and, for packages of other modules, replaces the
// result of an instruction the engine cannot execute by a poison value.
func (p *Path) runInit(fn *ssa.Function, g *Gor, strict bool) {
	fi := p.e.info(fn)
	p.e.prepare(fi)
	fr := &frame{p: p, g: g, fi: fi}
	fr.regs = make([]value, fi.nregs)
	block, prev := 0, -1
	for {
		b := &fi.blocks[block]
		if len(b.phis) > 0 {
			pi := predIndex(fn.Blocks[block], prev)
			for i := range b.phis {
				fr.regs[b.phis[i].dst] = b.phis[i].get[pi](fr)
			}
		}
		ci := 0
		r := cNext
		for _, in := range fn.Blocks[block].Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			code := b.code[ci]
			ci++
			if call, ok := in.(*ssa.Call); ok {
				if f, ok := call.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Pkg != fn.Pkg {
					continue
				}
			}
			if ifi, ok := in.(*ssa.If); ok && block == 0 && strings.HasPrefix(fn.Name(), "init") {
				// the init guard: always take the initialising branch
				_ = ifi
				r = ifi.Block().Succs[1].Index
				break
			}
			if strict {
				r = code(fr)
			} else {
				r = p.tolerant(fr, in, code)
			}
			if r != cNext {
				break
			}
		}
		if r == cReturn {
			return
		}
		if r == cNext {
			return
		}
		prev, block = block, r
	}
}

func (p *Path) tolerant(fr *frame, in ssa.Instruction, code instrFn) (r int) {
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		if _, ok := x.(pathEnd); ok {
			panic(x)
		}
		if v, ok := in.(ssa.Value); ok {
			if i, ok := regIndex(fr.fi, v); ok {
				fr.regs[i] = poison{fmt.Sprintf("%s (initialiser: %v)", v, x)}
			}
		}
		if s, ok := in.(*ssa.Store); ok {
			if g, ok := s.Addr.(*ssa.Global); ok {
				*fr.p.global(g) = poison{fmt.Sprintf("global %s (initialiser: %v)", g, x)}
			}
		}
		switch in.(type) {
		case *ssa.If, *ssa.Jump, *ssa.Return:
			panic(x)
		}
		r = cNext
	}()
	return code(fr)
}

func regIndex(fi *fnInfo, v ssa.Value) (int, bool) {
	i, ok := fi.regs[v]
	return i, ok
}
