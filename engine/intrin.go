package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type intrin = func(fr *frame, args []value) value

var intrinsics = map[string]intrin{}

// sym functions executed from their Go source
var symInterpreted = map[string]bool{"And": false}

var globalOverrides = map[string]func(p *Path, pkg *ssa.Package, tab map[*ssa.Global]*value){}

func reg(names string, f intrin) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = f
	}
}

func init() {
	delete(symInterpreted, "And")
	initSym()
	initSync()
	initAtomic()
	initTime()
	initStrings()
	initFmt()
	initReflect()
	initJSON()
	initMisc()
	initRegexp()
}

func nop(fr *frame, args []value) value { return nil }

func (p *Path) namedType(pkg, name string) types.Type {
	sp := p.e.pkgs[pkg]
	if sp == nil {
		panic(unsupported("package %s is not loaded", pkg))
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsupported("type %s.%s not found", pkg, name))
	}
	return o.Type()
}

// newError makes an errors.New value.
func (p *Path) newError(msg value) value {
	t := types.NewPointer(p.namedType("errors", "errorString"))
	c := new(value)
	*c = agg{msg}
	return iface{p.e.canonPtr(t), c}
}

var ptrMu = make(chan struct{}, 1)
var ptrTab = map[string]types.Type{}

// canonPtr keeps one *types.Pointer per engine made type.
func (e *Engine) canonPtr(t types.Type) types.Type {
	ptrMu <- struct{}{}
	defer func() { <-ptrMu }()
	k := t.String()
	if c, ok := ptrTab[k]; ok {
		return c
	}
	ptrTab[k] = t
	return t
}

func field(c *value, i int) *value {
	a, ok := (*c).(agg)
	if !ok {
		panic(unsupported("field of %T", *c))
	}
	return &a[i]
}

func lastField(c *value) *value {
	for {
		a, ok := (*c).(agg)
		if !ok {
			return c
		}
		c = &a[len(a)-1]
	}
}

// ---- sym ----

func (p *Path) uniq(name string) string {
	k := p.names[name]
	p.names[name]++
	return fmt.Sprintf("%s#%d", name, k)
}

func (p *Path) symName(v value) string { return p.uniq(p.concreteStr(v)) }

func initSym() {
	const s = "nsverif/sym."
	reg(s+"Bool", func(fr *frame, a []value) value {
		p := fr.p
		n := p.symName(a[0])
		t := p.newVar(n, 0)
		p.inputs = append(p.inputs, inputVar{name: n, kind: "bool", t: t})
		return t
	})
	mkInt := func(p *Path, n string, lo, hi int64) *Term {
		t := p.newVar(n, 64)
		p.inputs = append(p.inputs, inputVar{name: n, kind: "int", t: t, w: 64, sgn: true})
		if lo > -1<<63 {
			p.assume(p.ctx.Mk(OSle, 0, 0, p.ctx.BV(uint64(lo), 64), t))
		}
		if hi < 1<<63-1 {
			p.assume(p.ctx.Mk(OSle, 0, 0, t, p.ctx.BV(uint64(hi), 64)))
		}
		return t
	}
	reg(s+"Int", func(fr *frame, a []value) value {
		return mkInt(fr.p, fr.p.symName(a[0]), a[1].(int64), a[2].(int64))
	})
	reg(s+"Int64", func(fr *frame, a []value) value {
		return mkInt(fr.p, fr.p.symName(a[0]), -1<<63, 1<<63-1)
	})
	reg(s+"Choose", func(fr *frame, a []value) value {
		n := a[1].(int64)
		if n <= 1 {
			return int64(0)
		}
		t := mkInt(fr.p, fr.p.symName(a[0]), 0, n-1)
		return int64(fr.p.concretizeTerm(t))
	})
	reg(s+"Float", func(fr *frame, a []value) value {
		p := fr.p
		n := p.symName(a[0])
		t := p.newVar(n, 64)
		p.inputs = append(p.inputs, inputVar{name: n, kind: "float", t: t})
		return FSym{t}
	})
	mkStrVar := func(p *Path, n string, min, max int, lo, hi byte) value {
		if max <= 0 {
			return ""
		}
		f := &flat{}
		if min == max {
			f.n = p.ctx.BV(uint64(max), 64)
		} else {
			f.n = p.newVar(n+".len", 64)
			p.assume(p.ctx.Mk(OUle, 0, 0, f.n, p.ctx.BV(uint64(max), 64)))
			if min > 0 {
				p.assume(p.ctx.Mk(OUle, 0, 0, p.ctx.BV(uint64(min), 64), f.n))
			}
		}
		z := p.ctx.BV(0, 8)
		for i := 0; i < max; i++ {
			b := p.newVar(fmt.Sprintf("%s.b%d", n, i), 8)
			live := p.ctx.Mk(OUlt, 0, 0, p.ctx.BV(uint64(i), 64), f.n)
			// bytes past the end are zero
			p.assume(p.ctx.Or(live, p.ctx.Eq(b, z)))
			if lo > 0 || hi < 255 {
				in := p.ctx.And(p.ctx.Mk(OUle, 0, 0, p.ctx.BV(uint64(lo), 8), b), p.ctx.Mk(OUle, 0, 0, b, p.ctx.BV(uint64(hi), 8)))
				p.assume(p.ctx.Or(p.ctx.Not(live), in))
			}
			f.b = append(f.b, b)
		}
		p.inputs = append(p.inputs, inputVar{name: n, kind: "string", f: f})
		return mkStr([]spart{{f: f}})
	}
	reg(s+"String", func(fr *frame, a []value) value {
		return mkStrVar(fr.p, fr.p.symName(a[0]), 0, int(a[1].(int64)), 0, 255)
	})
	reg(s+"ASCII", func(fr *frame, a []value) value { // 7 bit, control characters included
		return mkStrVar(fr.p, fr.p.symName(a[0]), int(a[1].(int64)), int(a[2].(int64)), 0, 127)
	})
	reg(s+"Word", func(fr *frame, a []value) value { // lower case letters
		return mkStrVar(fr.p, fr.p.symName(a[0]), int(a[1].(int64)), int(a[2].(int64)), 'a', 'z')
	})
	reg(s+"Bytes", func(fr *frame, a []value) value {
		p := fr.p
		n := p.symName(a[0])
		iv := inputVar{name: n, kind: "bytes"}
		out := []value{}
		for i := 0; i < int(a[1].(int64)); i++ {
			b := p.newVar(fmt.Sprintf("%s.b%d", n, i), 8)
			iv.bs = append(iv.bs, b)
			out = append(out, b)
		}
		p.inputs = append(p.inputs, iv)
		return out
	})
	reg(s+"Assume", func(fr *frame, a []value) value { fr.p.assume(fr.p.boolTerm(a[0])); return nil })
	reg(s+"Assert", func(fr *frame, a []value) value {
		fr.p.assertCond(fr.p.boolTerm(a[0]), fr.p.concreteStr(a[1]))
		return nil
	})
	reg(s+"Reach", func(fr *frame, a []value) value { fr.p.reached[fr.p.concreteStr(a[0])]++; return nil })
	fold := func(and bool) intrin {
		return func(fr *frame, a []value) value {
			c := fr.p.ctx
			r := c.Bool(and)
			for _, x := range a[0].([]value) {
				if and {
					r = c.And(r, fr.p.boolTerm(x))
				} else {
					r = c.Or(r, fr.p.boolTerm(x))
				}
			}
			return fr.p.boolVal(r)
		}
	}
	reg(s+"And", fold(true))
	reg(s+"Or", fold(false))
	reg(s+"Not", func(fr *frame, a []value) value { return fr.p.boolVal(fr.p.ctx.Not(fr.p.boolTerm(a[0]))) })
	reg(s+"Implies", func(fr *frame, a []value) value {
		c := fr.p.ctx
		return fr.p.boolVal(c.Or(c.Not(fr.p.boolTerm(a[0])), fr.p.boolTerm(a[1])))
	})
	reg(s+"Iff", func(fr *frame, a []value) value {
		return fr.p.boolVal(fr.p.ctx.Eq(fr.p.boolTerm(a[0]), fr.p.boolTerm(a[1])))
	})
	reg(s+"SameFloat", func(fr *frame, a []value) value {
		return fr.p.boolVal(fr.p.ctx.Eq(fr.p.floatTerm(a[0]), fr.p.floatTerm(a[1])))
	})
	reg(s+"Observe", func(fr *frame, a []value) value {
		v := a[1]
		fr.p.obs = append(fr.p.obs, observation{fr.p.concreteStr(a[0]), snapshot(v)})
		return nil
	})
	reg(s+"Bound", func(fr *frame, a []value) value {
		if fr.p.e.tier == "thorough" {
			return a[1]
		}
		return a[0]
	})
	reg(s+"Thorough", func(fr *frame, a []value) value { return fr.p.e.tier == "thorough" })
	reg(s+"Native", func(fr *frame, a []value) value { return false })
	reg(s+"MapOrder", func(fr *frame, a []value) value { fr.p.mapOrder = int(a[0].(int64)); return nil })
	reg(s+"Timers", func(fr *frame, a []value) value { fr.p.sch.anyTimer = int(a[0].(int64)); return nil })
	reg(s+"Selects", func(fr *frame, a []value) value {
		s := fr.p.sch
		s.fewPicks, s.picks = true, int(a[0].(int64))
		s.lastCase = fr.p.choose(2, "selects") == 1
		return nil
	})
	reg(s+"Preempt", func(fr *frame, a []value) value {
		fr.p.sch.bound, fr.p.sch.delay = fr.p.sch.preempts+int(a[0].(int64)), false
		return nil
	})
	reg(s+"Delay", func(fr *frame, a []value) value {
		fr.p.sch.bound, fr.p.sch.delay = fr.p.sch.preempts+int(a[0].(int64)), true
		return nil
	})
	reg(s+"Par", func(fr *frame, a []value) value {
		p, s := fr.p, fr.p.sch
		g := fr.g
		n := 0
		waiting := false
		for _, f := range a[0].([]value) {
			f := f
			n++
			g.vc[g.id]++
			ng := s.spawn(g, nil)
			ng.harness = true
			fi := fr.fi
			ng.body = func(o *Gor) {
				p.call(&frame{p: p, g: o, fi: fi}, f, nil, p.curSite)
				n--
				g.vc.join(o.vc)
				if n == 0 && waiting {
					s.ready(g)
				}
			}
		}
		for n > 0 {
			waiting = true
			s.block(g, "sym.Par")
		}
		return nil
	})
	reg(s+"Go", func(fr *frame, a []value) value {
		p, s := fr.p, fr.p.sch
		f := a[0]
		fr.g.vc[fr.g.id]++
		ng := s.spawn(fr.g, nil)
		ng.harness = true
		fi := fr.fi
		ng.body = func(o *Gor) { p.call(&frame{p: p, g: o, fi: fi}, f, nil, p.curSite) }
		return nil
	})
	reg(s+"Quiesce", func(fr *frame, a []value) value { fr.p.sch.quiesceG(fr.g); return nil })
	reg(s+"Leaked", func(fr *frame, a []value) value {
		n := 0
		for _, g := range fr.p.sch.all {
			if !g.done && g != fr.g {
				n++
			}
		}
		return int64(n)
	})
	// Expect runs f and reports whether it panicked, without ending the harness.
	reg(s+"Panics", func(fr *frame, a []value) (r value) {
		p := fr.p
		depth, noPre := fr.g.depth, fr.g.noPre
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			if _, ok := x.(targetPanic); ok {
				fr.g.depth, fr.g.noPre = depth, noPre
				r = true
				return
			}
			panic(x)
		}()
		p.call(fr, a[0], nil, p.curSite)
		return false
	})
	reg(s+"CaptureStdout", func(fr *frame, a []value) value {
		p := fr.p
		p.capturing++
		old := p.stdout
		p.stdout = []value{}
		p.call(fr, a[0], nil, p.curSite)
		out := p.stdout
		p.stdout = old
		p.capturing--
		return out
	})
	reg(s+"FailingStdout", func(fr *frame, a []value) value {
		p := fr.p
		p.capturing++
		old := p.stdout
		p.stdout, p.stdoutBad = []value{}, true
		p.call(fr, a[0], nil, p.curSite)
		p.stdout, p.stdoutBad = old, false
		p.capturing--
		return nil
	})
	reg(s+"RandomSymbolic", func(fr *frame, a []value) value { fr.p.randSym = true; return nil })
	reg(s+"Random", func(fr *frame, a []value) value { // random bytes drawn so far, only in the engine
		return []value(append([]value{}, fr.p.randOut...))
	})
	reg(s+"JSON", jsonDoc)
}

func snapshot(v value) value {
	switch v := v.(type) {
	case iface:
		return iface{v.t, snapshot(v.v)}
	case []value:
		out := make([]value, len(v))
		for i, e := range v {
			out[i] = snapshot(e)
		}
		return out
	}
	return copyVal(v)
}

// ---- sync ----

func initSync() {
	S := func(f func(s *sched, fr *frame, c *value, a []value) value) intrin {
		return func(fr *frame, a []value) value {
			c := asPtr(a[0])
			fr.checkNil(c)
			return f(fr.p.sch, fr, c, a)
		}
	}
	reg("(*sync.Mutex).Lock (*internal/sync.Mutex).Lock", S(func(s *sched, fr *frame, c *value, a []value) value {
		s.lock(fr.g, c, "Mutex.Lock")
		return nil
	}))
	reg("(*sync.Mutex).TryLock", S(func(s *sched, fr *frame, c *value, a []value) value { return s.tryLock(fr.g, c) }))
	reg("(*sync.Mutex).Unlock (*internal/sync.Mutex).Unlock", S(func(s *sched, fr *frame, c *value, a []value) value {
		s.unlock(fr.g, c)
		return nil
	}))
	reg("(*sync.RWMutex).Lock", S(func(s *sched, fr *frame, c *value, a []value) value { s.wlock(fr.g, c); return nil }))
	reg("(*sync.RWMutex).Unlock", S(func(s *sched, fr *frame, c *value, a []value) value { s.wunlock(fr.g, c); return nil }))
	reg("(*sync.RWMutex).RLock", S(func(s *sched, fr *frame, c *value, a []value) value { s.rlock(fr.g, c); return nil }))
	reg("(*sync.RWMutex).RUnlock", S(func(s *sched, fr *frame, c *value, a []value) value { s.runlock(fr.g, c); return nil }))
	reg("(*sync.RWMutex).TryLock", S(func(s *sched, fr *frame, c *value, a []value) value { return s.tryWLock(fr.g, c) }))
	reg("(*sync.RWMutex).TryRLock", S(func(s *sched, fr *frame, c *value, a []value) value { return s.tryRLock(fr.g, c) }))

	wg := func(s *sched, c *value) *wgState {
		w := s.wgs[c]
		if w == nil {
			w = &wgState{}
			s.wgs[c] = w
		}
		return w
	}
	add := func(s *sched, fr *frame, c *value, d int64) {
		w := wg(s, c)
		s.point(fr.g, "WaitGroup.Add")
		w.n += d
		if w.n < 0 {
			s.p.targetPanicPlain("sync: negative WaitGroup counter")
		}
		if d < 0 {
			s.release(fr.g, &w.vc)
		}
		if w.n == 0 {
			for _, o := range w.waiters {
				o.vc.join(w.vc)
				s.ready(o)
			}
			w.waiters = nil
		}
	}
	reg("(*sync.WaitGroup).Add", S(func(s *sched, fr *frame, c *value, a []value) value {
		add(s, fr, c, int64(fr.p.index(a[1])))
		return nil
	}))
	reg("(*sync.WaitGroup).Done", S(func(s *sched, fr *frame, c *value, a []value) value { add(s, fr, c, -1); return nil }))
	reg("(*sync.WaitGroup).Go", S(func(s *sched, fr *frame, c *value, a []value) value {
		add(s, fr, c, 1)
		p := fr.p
		f := a[1]
		fi := fr.fi
		fr.g.vc[fr.g.id]++
		s.spawn(fr.g, func(o *Gor) {
			r := &frame{p: p, g: o, fi: fi}
			p.call(r, f, nil, p.curSite)
			add(s, r, c, -1)
		})
		return nil
	}))
	reg("(*sync.WaitGroup).Wait", S(func(s *sched, fr *frame, c *value, a []value) value {
		w := wg(s, c)
		s.point(fr.g, "WaitGroup.Wait")
		if w.n > 0 {
			w.waiters = append(w.waiters, fr.g)
			s.block(fr.g, "WaitGroup.Wait")
		}
		s.acquire(fr.g, w.vc)
		return nil
	}))
	once := func(s *sched, fr *frame, c *value, f func()) {
		o := s.onces[c]
		if o == nil {
			o = &onceState{}
			s.onces[c] = o
		}
		s.point(fr.g, "Once.Do")
		for o.running {
			o.waiters = append(o.waiters, fr.g)
			s.block(fr.g, "Once.Do")
		}
		if o.done {
			s.acquire(fr.g, o.vc)
			return
		}
		o.running = true
		defer func() {
			o.running, o.done = false, true
			if !s.dead {
				s.release(fr.g, &o.vc)
			}
			for _, w := range o.waiters {
				s.ready(w)
			}
			o.waiters = nil
		}()
		f()
	}
	reg("(*sync.Once).Do", S(func(s *sched, fr *frame, c *value, a []value) value {
		once(s, fr, c, func() { fr.p.call(fr, a[1], nil, fr.p.curSite) })
		return nil
	}))
	// sync.Cond: the L field is found by type
	condL := func(fr *frame, c *value, name string) {
		for _, f := range (*c).(agg) {
			if l, ok := f.(iface); ok && l.t != nil {
				ms := fr.p.e.prog.MethodSets.MethodSet(l.t)
				sel := ms.Lookup(nil, name)
				if sel != nil {
					fr.p.call(fr, fr.p.e.prog.MethodValue(sel), []value{l.v}, fr.p.curSite)
					return
				}
			}
		}
		panic(unsupported("sync.Cond without L"))
	}
	cond := func(s *sched, c *value) *condState {
		o := s.conds[c]
		if o == nil {
			o = &condState{}
			s.conds[c] = o
		}
		return o
	}
	reg("(*sync.Cond).Wait", S(func(s *sched, fr *frame, c *value, a []value) value {
		o := cond(s, c)
		o.waiters = append(o.waiters, fr.g)
		condL(fr, c, "Unlock")
		for {
			in := false
			for _, w := range o.waiters {
				in = in || w == fr.g
			}
			if !in {
				break
			}
			s.block(fr.g, "Cond.Wait")
		}
		s.acquire(fr.g, o.vc)
		condL(fr, c, "Lock")
		return nil
	}))
	wake := func(all bool) intrin {
		return S(func(s *sched, fr *frame, c *value, a []value) value {
			o := cond(s, c)
			s.point(fr.g, "Cond.Signal")
			s.release(fr.g, &o.vc)
			for len(o.waiters) > 0 {
				s.ready(o.waiters[0])
				o.waiters = o.waiters[1:]
				if !all {
					break
				}
			}
			return nil
		})
	}
	reg("(*sync.Cond).Signal", wake(false))
	reg("(*sync.Cond).Broadcast", wake(true))

	reg("(*sync.Pool).Get", S(func(s *sched, fr *frame, c *value, a []value) value {
		// what was put comes back, the first one kept apart as the runtime does
		if o := s.pools[c]; o != nil && (o.private != nil || len(o.items) > 0) {
			var it poolItem
			if o.private != nil {
				it, o.private = *o.private, nil
			} else {
				it = o.items[len(o.items)-1]
				o.items = o.items[:len(o.items)-1]
			}
			s.acquire(fr.g, it.vc)
			return it.v
		}
		f := *lastField(c)
		if isNilFunc(f) {
			return iface{}
		}
		return fr.p.call(fr, f, nil, fr.p.curSite)
	}))
	reg("(*sync.Pool).Put", S(func(s *sched, fr *frame, c *value, a []value) value {
		if i, ok := a[1].(iface); ok && i.t == nil {
			return nil
		}
		o := s.pools[c]
		if o == nil {
			o = &poolState{}
			s.pools[c] = o
		}
		it := poolItem{v: a[1]}
		s.release(fr.g, &it.vc)
		if o.private == nil {
			o.private = &it
		} else {
			o.items = append(o.items, it)
		}
		return nil
	}))

	// sync.Map over an engine map
	smap := func(s *sched, c *value) *Map {
		m := s.smaps[c]
		if m == nil {
			m = newMap()
			s.smaps[c] = m
		}
		return m
	}
	M := func(f func(p *Path, fr *frame, m *Map, a []value) value) intrin {
		return S(func(s *sched, fr *frame, c *value, a []value) value {
			s.point(fr.g, "sync.Map")
			v := s.syncClock(c)
			s.acquire(fr.g, *v)
			r := f(fr.p, fr, smap(s, c), a)
			s.release(fr.g, v)
			return r
		})
	}
	load := func(p *Path, m *Map, k value) (value, bool) {
		if e := m.find(p, k); e != nil {
			return e.v, true
		}
		return iface{}, false
	}
	reg("(*sync.Map).Load", M(func(p *Path, fr *frame, m *Map, a []value) value {
		v, ok := load(p, m, a[1])
		return tuple{v, ok}
	}))
	reg("(*sync.Map).Store", M(func(p *Path, fr *frame, m *Map, a []value) value { m.set(p, a[1], a[2]); return nil }))
	reg("(*sync.Map).LoadOrStore", M(func(p *Path, fr *frame, m *Map, a []value) value {
		if v, ok := load(p, m, a[1]); ok {
			return tuple{v, true}
		}
		m.set(p, a[1], a[2])
		return tuple{a[2], false}
	}))
	reg("(*sync.Map).LoadAndDelete", M(func(p *Path, fr *frame, m *Map, a []value) value {
		v, ok := load(p, m, a[1])
		m.del(p, a[1])
		return tuple{v, ok}
	}))
	reg("(*sync.Map).Delete", M(func(p *Path, fr *frame, m *Map, a []value) value { m.del(p, a[1]); return nil }))
	reg("(*sync.Map).Clear", M(func(p *Path, fr *frame, m *Map, a []value) value { m.clear(); return nil }))
	reg("(*sync.Map).Swap", M(func(p *Path, fr *frame, m *Map, a []value) value {
		v, ok := load(p, m, a[1])
		m.set(p, a[1], a[2])
		return tuple{v, ok}
	}))
	reg("(*sync.Map).CompareAndSwap", M(func(p *Path, fr *frame, m *Map, a []value) value {
		v, ok := load(p, m, a[1])
		if ok && p.branch(p.eq(v, a[2])) {
			m.set(p, a[1], a[3])
			return true
		}
		return false
	}))
	reg("(*sync.Map).Range", S(func(s *sched, fr *frame, c *value, a []value) value {
		p := fr.p
		s.point(fr.g, "sync.Map")
		m := smap(s, c)
		it := p.newMapIter(m)
		for {
			s.acquire(fr.g, *s.syncClock(c))
			e := it.next(p)
			if e == nil {
				return nil
			}
			if !p.truth(p.call(fr, a[1], []value{e.k, e.v}, p.curSite)) {
				return nil
			}
		}
	}))
	reg("sync.runtime_registerPoolCleanup sync.runtime_notifyListCheck sync.throw sync.fatal", nop)
}

// ---- atomics ----

func initAtomic() {
	sw := func(fr *frame, c *value) func() {
		s := fr.p.sch
		s.point(fr.g, "atomic")
		v := s.syncClock(c)
		s.acquire(fr.g, *v)
		return func() { s.release(fr.g, v) }
	}
	type acc struct {
		get func(p *Path, c *value) value
		set func(c *value, v value)
	}
	plain := acc{func(p *Path, c *value) value { return *c }, func(c *value, v value) { *c = v }}
	boolA := acc{func(p *Path, c *value) value {
		switch v := (*c).(type) {
		case bool, *Term:
			return v
		case uint64:
			return v != 0
		}
		return false
	}, func(c *value, v value) { *c = v }}
	def := func(prefix, suffix string, ac acc, ii intInfo, at func(c *value) *value) {
		L := func(name string, f func(fr *frame, c *value, a []value) value) {
			reg(prefix+name+suffix, func(fr *frame, a []value) value {
				ptr := asPtr(a[0])
				fr.checkNil(ptr)
				c := at(ptr)
				done := sw(fr, c)
				defer done()
				return f(fr, c, a)
			})
		}
		L("Load", func(fr *frame, c *value, a []value) value { return ac.get(fr.p, c) })
		L("Store", func(fr *frame, c *value, a []value) value { ac.set(c, a[1]); return nil })
		L("Swap", func(fr *frame, c *value, a []value) value {
			o := ac.get(fr.p, c)
			ac.set(c, a[1])
			return o
		})
		L("CompareAndSwap", func(fr *frame, c *value, a []value) value {
			if fr.p.branch(fr.p.eq(ac.get(fr.p, c), a[1])) {
				ac.set(c, a[2])
				return true
			}
			return false
		})
		if ii.w == 0 {
			return
		}
		L("Add", func(fr *frame, c *value, a []value) value {
			x, ok1 := rawInt(*c)
			y, ok2 := rawInt(a[1])
			var r value
			if ok1 && ok2 {
				r = normInt(x+y, ii)
			} else {
				p := fr.p
				r = intVal(p.ctx.Mk(OAdd, ii.w, 0, p.intTerm(*c, ii.w), p.intTerm(a[1], ii.w)), ii)
			}
			*c = r
			return r
		})
		bit := func(op Op, f func(x, y uint64) uint64) func(fr *frame, c *value, a []value) value {
			return func(fr *frame, c *value, a []value) value {
				old := *c
				x, ok1 := rawInt(old)
				y, ok2 := rawInt(a[1])
				if ok1 && ok2 {
					*c = normInt(f(x, y), ii)
				} else {
					p := fr.p
					*c = intVal(p.ctx.Mk(op, ii.w, 0, p.intTerm(old, ii.w), p.intTerm(a[1], ii.w)), ii)
				}
				return old
			}
		}
		L("And", bit(OBAnd, func(x, y uint64) uint64 { return x & y }))
		L("Or", bit(OBOr, func(x, y uint64) uint64 { return x | y }))
	}
	self := func(c *value) *value { return c }
	for _, t := range []struct {
		n  string
		ii intInfo
	}{{"Int32", intInfo{32, true}}, {"Int64", intInfo{64, true}}, {"Uint32", intInfo{32, false}}, {"Uint64", intInfo{64, false}}, {"Uintptr", intInfo{64, false}}, {"Pointer", intInfo{}}} {
		def("sync/atomic.", t.n, plain, t.ii, self)
		if t.n != "Pointer" {
			def("(*sync/atomic."+t.n+").", "", plain, t.ii, lastField)
			def("(*internal/runtime/atomic."+t.n+").", "", plain, t.ii, lastField)
		}
	}
	def("(*sync/atomic.Bool).", "", boolA, intInfo{}, lastField)
	def("(*sync/atomic.Pointer[T]).", "", plain, intInfo{}, lastField)
	val := acc{func(p *Path, c *value) value {
		if v, ok := (*c).(iface); ok {
			return v
		}
		return iface{}
	}, func(c *value, v value) { *c = v }}
	def("(*sync/atomic.Value).", "", val, intInfo{}, lastField)
	st := intrinsics["(*sync/atomic.Value).Store"]
	reg("(*sync/atomic.Value).Store", func(fr *frame, a []value) value {
		if a[1].(iface).t == nil {
			fr.p.targetPanicPlain("sync/atomic: store of nil value into Value")
		}
		return st(fr, a)
	})
}

// ---- time ----

func initTime() {
	dur := func(p *Path) value { return p.sch.clock }
	_ = dur
	newTimeVal := func(fr *frame) value {
		p := fr.p
		t := zero(p.namedType("time", "Time")).(agg)
		t[0] = uint64(1<<63 | 1<<40)
		t[1] = p.sch.clock
		if c, ok := p.sch.clock.(int64); ok {
			t[1] = c + 1
		} else {
			t[1] = intVal(p.ctx.Mk(OAdd, 64, 0, p.intTerm(p.sch.clock, 64), p.ctx.BV(1, 64)), intInfo{64, true})
		}
		return t
	}
	reg("time.Now", func(fr *frame, a []value) value { return newTimeVal(fr) })
	reg("time.runtimeNano", func(fr *frame, a []value) value { return fr.p.sch.clock })
	reg("time.runtimeNow time.now", func(fr *frame, a []value) value { return tuple{int64(1 << 31), int64(0), fr.p.sch.clock} })
	reg("time.runtimeIsBubbled", func(fr *frame, a []value) value { return false })
	sub := func(p *Path, x, y value) value {
		return intVal(p.ctx.Mk(OSub, 64, 0, p.intTerm(x, 64), p.intTerm(y, 64)), intInfo{64, true})
	}
	reg("time.Since", func(fr *frame, a []value) value {
		return sub(fr.p, newTimeVal(fr).(agg)[1], a[0].(agg)[1])
	})
	reg("time.Until", func(fr *frame, a []value) value {
		return sub(fr.p, a[0].(agg)[1], newTimeVal(fr).(agg)[1])
	})
	fire := func(fr *frame, ch *Chan) func() {
		p, s := fr.p, fr.p.sch
		return func() {
			if len(ch.buf) == 0 {
				s.timerSend(ch, newTimeVal(&frame{p: p, g: s.cur}))
			}
		}
	}
	reg("time.After", func(fr *frame, a []value) value {
		ch := &Chan{cap: int64(1), timer: true}
		fr.p.sch.addTimer(fr.g, a[0], fire(fr, ch)).ch = ch
		return ch
	})
	mk := func(fr *frame, name string, ch *Chan) *value {
		c := new(value)
		ag := zero(fr.p.namedType("time", name)).(agg)
		ag[0] = ch
		*c = ag
		return c
	}
	reg("time.NewTimer", func(fr *frame, a []value) value {
		ch := &Chan{cap: int64(1), timer: true}
		c := mk(fr, "Timer", ch)
		s := fr.p.sch
		to := &timerObj{t: s.addTimer(fr.g, a[0], fire(fr, ch)), fire: fire(fr, ch), ch: ch}
		to.t.ch = ch
		s.timerOf[c] = to
		return c
	})
	tick := func(fr *frame, d value, ch *Chan, to *timerObj) {
		p, s := fr.p, fr.p.sch
		if p.branch(p.ctx.Mk(OSle, 0, 0, p.intTerm(d, 64), p.ctx.BV(0, 64))) {
			p.targetPanicPlain("non-positive interval for NewTicker")
		}
		n := 0
		f := fire(fr, ch)
		var again func()
		again = func() {
			f()
			n++
			if n < 6 { // bound: six ticks
				to.t = s.addTimer(s.cur, d, again)
				to.t.ch = ch
			} else {
				p.reduced["ticker cut after six ticks"]++
			}
		}
		to.fire = again
		to.t = s.addTimer(fr.g, d, again)
		to.t.ch = ch
	}
	reg("time.NewTicker", func(fr *frame, a []value) value {
		ch := &Chan{cap: int64(1), timer: true}
		c := mk(fr, "Ticker", ch)
		to := &timerObj{ch: ch}
		tick(fr, a[0], ch, to)
		fr.p.sch.timerOf[c] = to
		return c
	})
	reg("time.Tick", func(fr *frame, a []value) value {
		ch := &Chan{cap: int64(1), timer: true}
		tick(fr, a[0], ch, &timerObj{ch: ch})
		return ch
	})
	reg("time.AfterFunc", func(fr *frame, a []value) value {
		p, s := fr.p, fr.p.sch
		f := a[1]
		c := mk(fr, "Timer", (*Chan)(nil))
		fi := fr.fi
		var to *timerObj
		run := func() {
			vc := to.t.vc
			g := s.spawn(nil, func(o *Gor) { p.call(&frame{p: p, g: o, fi: fi}, f, nil, p.curSite) })
			g.vc.join(vc)
		}
		to = &timerObj{fire: run}
		to.t = s.addTimer(fr.g, a[0], run)
		s.timerOf[c] = to
		return c
	})
	stop := func(fr *frame, c *value) bool {
		to := fr.p.sch.timerOf[c]
		if to == nil {
			panic(unsupported("timer not made by this path"))
		}
		active := !to.t.dead
		to.t.dead = true
		if to.ch != nil && len(to.ch.buf) > 0 { // Go 1.23: no stale value after Stop
			to.ch.buf = nil
			active = true
		}
		return active
	}
	reg("(*time.Timer).Stop", func(fr *frame, a []value) value {
		fr.checkNil(asPtr(a[0]))
		fr.p.sch.point(fr.g, "Timer.Stop")
		return stop(fr, a[0].(*value))
	})
	reg("(*time.Ticker).Stop", func(fr *frame, a []value) value {
		fr.checkNil(asPtr(a[0]))
		stop(fr, a[0].(*value))
		return nil
	})
	reg("(*time.Timer).Reset (*time.Ticker).Reset", func(fr *frame, a []value) value {
		c := asPtr(a[0])
		fr.checkNil(c)
		fr.p.sch.point(fr.g, "Timer.Reset")
		was := stop(fr, c)
		to := fr.p.sch.timerOf[c]
		to.t = fr.p.sch.addTimer(fr.g, a[1], to.fire)
		to.t.ch = to.ch
		return was
	})
	reg("time.Sleep", func(fr *frame, a []value) value {
		p, s, g := fr.p, fr.p.sch, fr.g
		if !p.branch(p.ctx.Mk(OSlt, 0, 0, p.ctx.BV(0, 64), p.intTerm(a[0], 64))) {
			return nil
		}
		fired := false
		s.addTimer(g, a[0], func() { fired = true; s.ready(g) })
		for !fired {
			s.block(g, "time.Sleep")
		}
		return nil
	})
}

type timerObj struct {
	t    *timer
	fire func()
	ch   *Chan
}

// timerSend is a non-blocking send by the runtime.
func (s *sched) timerSend(ch *Chan, v value) {
	if s.canSend(ch) {
		s.doSend(nil, ch, v)
	}
}

// ---- strings and bytes ----

func initStrings() {
	sb := func(c *value) *value { return field(c, 1) }
	cur := func(p *Path, c *value) value {
		switch v := (*sb(c)).(type) {
		case string, *SymStr:
			return v
		case []value:
			return p.bytesToStr(v)
		}
		return ""
	}
	app := func(fr *frame, c *value, s value) {
		f := sb(c)
		if fr.p.sch.multi {
			fr.p.sch.writeCell(f, fr.p.curSite)
		}
		*f = concatStr(cur(fr.p, c), s)
	}
	B := "(*strings.Builder)."
	reg(B+"WriteString", func(fr *frame, a []value) value {
		fr.checkNil(asPtr(a[0]))
		app(fr, a[0].(*value), a[1])
		return tuple{fr.p.strLen(a[1]), iface{}}
	})
	reg(B+"Write", func(fr *frame, a []value) value {
		fr.checkNil(asPtr(a[0]))
		app(fr, a[0].(*value), fr.p.bytesToStr(a[1].([]value)))
		return tuple{int64(len(a[1].([]value))), iface{}}
	})
	reg(B+"WriteByte", func(fr *frame, a []value) value {
		fr.checkNil(asPtr(a[0]))
		app(fr, a[0].(*value), fr.p.bytesToStr([]value{a[1]}))
		return iface{}
	})
	reg(B+"WriteRune", func(fr *frame, a []value) value {
		fr.checkNil(asPtr(a[0]))
		r := string(rune(fr.p.index(a[1])))
		app(fr, a[0].(*value), r)
		return tuple{int64(len(r)), iface{}}
	})
	reg(B+"String", func(fr *frame, a []value) value { fr.checkNil(asPtr(a[0])); return cur(fr.p, a[0].(*value)) })
	reg(B+"Len", func(fr *frame, a []value) value { return fr.p.strLen(cur(fr.p, a[0].(*value))) })
	reg(B+"Cap", func(fr *frame, a []value) value { return fr.p.strLen(cur(fr.p, a[0].(*value))) })
	reg(B+"Grow", nop)
	reg(B+"Reset", func(fr *frame, a []value) value { *sb(a[0].(*value)) = ""; return nil })
	reg("strings.Join", func(fr *frame, a []value) value {
		var r value = ""
		fr.p.readSlice(a[0].([]value))
		for i, e := range a[0].([]value) {
			if i > 0 {
				r = concatStr(r, a[1])
			}
			r = concatStr(r, e)
		}
		return r
	})
	reg("strings.Clone", func(fr *frame, a []value) value { return a[0] })
	eqBytes := func(p *Path, x, y []value) *Term {
		for _, q := range [][2][]value{{x, y}, {y, x}} {
			if len(q[0]) == 0 || len(q[1]) == 0 {
				continue
			}
			_, isBlob := q[0][0].(blobByte)
			if _, other := q[1][0].(blobByte); isBlob && !other {
				// a document with symbolic parts and a written one: equal if the trees are, and it is written canonically
				tree := p.treeOf(q[1])
				var sb strings.Builder
				if tree.kind == jBad || !tree.render(&sb) || sb.String() != p.concreteStr(p.bytesToStr(q[1])) {
					return p.ctx.F
				}
				return p.treeEq(p.treeOf(q[0]), tree)
			}
		}
		if len(x) != len(y) {
			return p.ctx.F
		}
		r := p.ctx.T
		for i := range x {
			r = p.ctx.And(r, p.byteEq(x[i], y[i]))
			if r == p.ctx.F {
				break
			}
		}
		return r
	}
	reg("bytes.Equal internal/bytealg.Equal", func(fr *frame, a []value) value {
		fr.p.readSlice(a[0].([]value))
		fr.p.readSlice(a[1].([]value))
		return fr.p.boolVal(eqBytes(fr.p, a[0].([]value), a[1].([]value)))
	})
	reg("internal/bytealg.Compare bytes.Compare", func(fr *frame, a []value) value {
		p := fr.p
		x, y := p.bytesToStr(a[0].([]value)), p.bytesToStr(a[1].([]value))
		if p.branch(p.strEq(x, y)) {
			return int64(0)
		}
		if p.branch(p.strLess(x, y)) {
			return int64(-1)
		}
		return int64(1)
	})
	reg("internal/bytealg.CompareString strings.Compare cmp.compareString", func(fr *frame, a []value) value {
		p := fr.p
		if p.branch(p.strEq(a[0], a[1])) {
			return int64(0)
		}
		if p.branch(p.strLess(a[0], a[1])) {
			return int64(-1)
		}
		return int64(1)
	})
	idx := func(p *Path, bs []value, b value, last bool) value {
		n := len(bs)
		for k := 0; k < n; k++ {
			i := k
			if last {
				i = n - 1 - k
			}
			if p.branch(p.eq(bs[i], b)) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	reg("internal/bytealg.IndexByte bytes.IndexByte", func(fr *frame, a []value) value {
		return idx(fr.p, a[0].([]value), a[1], false)
	})
	reg("internal/bytealg.IndexByteString strings.IndexByte", func(fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			if b, ok := a[1].(uint64); ok {
				return int64(strings.IndexByte(s, byte(b)))
			}
		}
		return idx(fr.p, fr.p.strBytes(a[0]), a[1], false)
	})
	reg("internal/bytealg.LastIndexByteString strings.LastIndexByte", func(fr *frame, a []value) value {
		return idx(fr.p, fr.p.strBytes(a[0]), a[1], true)
	})
	reg("internal/bytealg.LastIndexByte", func(fr *frame, a []value) value { return idx(fr.p, a[0].([]value), a[1], true) })
	count := func(p *Path, bs []value, b value) value {
		n := int64(0)
		for _, x := range bs {
			if p.branch(p.eq(x, b)) {
				n++
			}
		}
		return n
	}
	reg("internal/bytealg.Count", func(fr *frame, a []value) value { return count(fr.p, a[0].([]value), a[1]) })
	reg("internal/bytealg.CountString", func(fr *frame, a []value) value { return count(fr.p, fr.p.strBytes(a[0]), a[1]) })
	index := func(p *Path, s, sep []value) value {
		for i := 0; i+len(sep) <= len(s); i++ {
			if p.branch(eqBytes(p, s[i:i+len(sep)], sep)) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	reg("internal/bytealg.Index bytes.Index", func(fr *frame, a []value) value {
		return index(fr.p, a[0].([]value), a[1].([]value))
	})
	reg("internal/bytealg.IndexString strings.Index", func(fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			if t, ok := a[1].(string); ok {
				return int64(strings.Index(s, t))
			}
		}
		return index(fr.p, fr.p.strBytes(a[0]), fr.p.strBytes(a[1]))
	})
	reg("internal/bytealg.MakeNoZero", func(fr *frame, a []value) value {
		n := fr.p.index(a[0])
		s := make([]value, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})
	hasPre := func(p *Path, s, pre value, suffix bool) value {
		if x, ok := s.(string); ok {
			if y, ok := pre.(string); ok {
				if suffix {
					return strings.HasSuffix(x, y)
				}
				return strings.HasPrefix(x, y)
			}
		}
		sb, pb := p.strBytes(s), p.strBytes(pre)
		if len(pb) > len(sb) {
			return false
		}
		if suffix {
			return p.boolVal(eqBytes(p, sb[len(sb)-len(pb):], pb))
		}
		return p.boolVal(eqBytes(p, sb[:len(pb)], pb))
	}
	reg("strings.HasPrefix internal/stringslite.HasPrefix", func(fr *frame, a []value) value { return hasPre(fr.p, a[0], a[1], false) })
	reg("strings.HasSuffix internal/stringslite.HasSuffix", func(fr *frame, a []value) value { return hasPre(fr.p, a[0], a[1], true) })
	conc := func(name string, f func(s string) string) {
		reg(name, func(fr *frame, a []value) value {
			if s, ok := a[0].(string); ok {
				return f(s)
			}
			return f(fr.p.concreteStr(a[0]))
		})
	}
	conc("strings.ToUpper", strings.ToUpper)
	conc("strings.ToLower", strings.ToLower)
	conc("strings.Title", strings.Title)
}

func (p *Path) byteEq(a, b value) *Term {
	x, ok1 := a.(blobByte)
	y, ok2 := b.(blobByte)
	if ok1 && ok2 {
		if x.b == y.b {
			return p.ctx.Bool(x.i == y.i)
		}
		if x.i != y.i {
			return p.ctx.F
		}
		return p.treeEq(x.b.root, y.b.root)
	}
	if ok1 || ok2 {
		panic(unsupported("bytes of a JSON document compared with raw bytes"))
	}
	return p.eq(a, b)
}

// ---- the rest ----

func initMisc() {
	reg("runtime.Gosched", func(fr *frame, a []value) value {
		s := fr.p.sch
		if s.multi {
			s.gosched(fr.g)
		}
		return nil
	})
	reg("runtime.GC runtime.KeepAlive runtime.SetFinalizer runtime/debug.FreeOSMemory log.Printf log.Println log.Print log.Output log.SetOutput log.SetFlags log.SetPrefix (*log.Logger).Printf (*log.Logger).Println (*log.Logger).Print", nop)
	reg("runtime.NumGoroutine", func(fr *frame, a []value) value {
		n := 0
		for _, g := range fr.p.sch.all {
			if !g.done {
				n++
			}
		}
		return int64(n)
	})
	reg("runtime.GOMAXPROCS runtime.NumCPU", func(fr *frame, a []value) value { return int64(8) })
	reg("math.Float64bits internal/strconv.float64bits", func(fr *frame, a []value) value { return intVal(fr.p.floatTerm(a[0]), intInfo{64, false}) })
	reg("math.Float64frombits internal/strconv.float64frombits", func(fr *frame, a []value) value { return floatVal(fr.p.intTerm(a[0], 64)) })
	reg("math.Float32bits internal/strconv.float32bits", func(fr *frame, a []value) value { return intVal(fr.p.floatTerm(a[0]), intInfo{32, false}) })
	reg("math.Float32frombits internal/strconv.float32frombits", func(fr *frame, a []value) value { return floatVal(fr.p.intTerm(a[0], 32)) })
	for k, n := range []string{"Floor", "Ceil", "Trunc", "RoundToEven", "Round"} {
		k := uint64(k)
		reg("math."+n, func(fr *frame, a []value) value { return floatVal(fr.p.ctx.Mk(OFRound, 64, k, fr.p.floatTerm(a[0]))) })
	}
	reg("math.Sqrt math.sqrt", func(fr *frame, a []value) value { return floatVal(fr.p.ctx.Mk(OFSqrt, 64, 0, fr.p.floatTerm(a[0]))) })
	reg("math.IsNaN", func(fr *frame, a []value) value {
		t := fr.p.floatTerm(a[0])
		return fr.p.boolVal(fr.p.ctx.Not(fr.p.ctx.Mk(OFEq, 0, 0, t, t)))
	})

	// errors
	var is func(fr *frame, err, target iface) bool
	is = func(fr *frame, err, target iface) bool {
		p := fr.p
		for {
			if err.t == nil {
				return target.t == nil
			}
			if target.t != nil && types.Comparable(target.t) && sameType(err.t, target.t) && p.branch(p.eq(err, target)) {
				return true
			}
			if f := p.methodNamed(err.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
				if p.truth(p.callFn(fr, f, nil, []value{err.v, target}, p.curSite)) {
					return true
				}
			}
			f := p.methodNamed(err.t, "Unwrap")
			if f == nil || f.Signature.Results().Len() != 1 {
				return false
			}
			r := p.callFn(fr, f, nil, []value{err.v}, p.curSite)
			switch r := r.(type) {
			case iface:
				if r.t == nil {
					return false
				}
				err = r
			case []value:
				for _, x := range r {
					if is(fr, x.(iface), target) {
						return true
					}
				}
				return false
			}
		}
	}
	reg("errors.Is", func(fr *frame, a []value) value {
		if a[0].(iface).t == nil || a[1].(iface).t == nil {
			return a[0].(iface).t == nil && a[1].(iface).t == nil
		}
		return is(fr, a[0].(iface), a[1].(iface))
	})
	var as func(fr *frame, err iface, tt types.Type, dst *value) bool
	as = func(fr *frame, err iface, tt types.Type, dst *value) bool {
		p := fr.p
		for {
			if err.t == nil {
				return false
			}
			if it, ok := tt.Underlying().(*types.Interface); ok {
				if p.e.implements(err.t, it) {
					p.store(dst, err, p.curSite)
					return true
				}
			} else if sameType(err.t, tt) {
				p.store(dst, err.v, p.curSite)
				return true
			}
			f := p.methodNamed(err.t, "Unwrap")
			if f == nil || f.Signature.Results().Len() != 1 {
				return false
			}
			r := p.callFn(fr, f, nil, []value{err.v}, p.curSite)
			switch r := r.(type) {
			case iface:
				err = r
			case []value:
				for _, x := range r {
					if as(fr, x.(iface), tt, dst) {
						return true
					}
				}
				return false
			}
		}
	}
	reg("errors.As", func(fr *frame, a []value) value {
		t := a[1].(iface)
		pt, ok := t.t.Underlying().(*types.Pointer)
		if !ok {
			fr.p.targetPanicPlain("errors: target must be a non-nil pointer")
		}
		return as(fr, a[0].(iface), pt.Elem(), t.v.(*value))
	})

	// sorting: insertion sort with the program's own comparison
	sortSlice := func(fr *frame, a []value) value {
		p := fr.p
		s := a[0].(iface).v.([]value)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !p.truth(p.call(fr, a[1], []value{int64(j), int64(j - 1)}, p.curSite)) {
					break
				}
				x, y := p.load(&s[j], p.curSite), p.load(&s[j-1], p.curSite)
				p.store(&s[j], y, p.curSite)
				p.store(&s[j-1], x, p.curSite)
			}
		}
		return nil
	}
	reg("sort.Slice sort.SliceStable", sortSlice)
	reg("sort.Strings slices.Sort[S,E] sort.Ints", func(fr *frame, a []value) value {
		p := fr.p
		s := a[0].([]value)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				x, y := p.load(&s[j], p.curSite), p.load(&s[j-1], p.curSite)
				var less bool
				switch x.(type) {
				case string, *SymStr:
					less = p.branch(p.strLess(x, y))
				case int64:
					less = x.(int64) < y.(int64)
				default:
					panic(unsupported("sort of %T", x))
				}
				if !less {
					break
				}
				p.store(&s[j], y, p.curSite)
				p.store(&s[j-1], x, p.curSite)
			}
		}
		return nil
	})

	// randomness: fresh bytes
	rnd := func(fr *frame, b []value) {
		p := fr.p
		for i := range b {
			if p.randSym {
				n := p.uniq("rand")
				v := p.newVar(n, 8)
				p.inputs = append(p.inputs, inputVar{name: n, kind: "int", t: v, w: 8})
				b[i] = v
			} else {
				p.randCtr++
				b[i] = uint64(byte(0))
			}
			p.randOut = append(p.randOut, b[i])
		}
		if !p.randSym {
			// a counter in the last bytes keeps every draw distinct
			c := p.randCtr
			for i := len(b) - 1; i >= 0 && i >= len(b)-6; i-- {
				b[i] = uint64(byte(c))
				c >>= 8
			}
		}
	}
	reg("(crypto/internal/rand.reader).Read (*crypto/internal/rand.reader).Read", func(fr *frame, a []value) value {
		b := a[1].([]value)
		rnd(fr, b)
		return tuple{int64(len(b)), iface{}}
	})
	reg("crypto/rand.Read crypto/internal/fips140/drbg.Read crypto/internal/sysrand.Read", func(fr *frame, a []value) value {
		b := a[0].([]value)
		rnd(fr, b)
		if strings.HasPrefix(fr.p.e.pos(fr.p.curSite), "drbg") {
			return nil
		}
		return tuple{int64(len(b)), iface{}}
	})

	// math/rand: one fixed stream, whatever the seed
	draw := func(fr *frame) uint64 {
		fr.p.randCtr++
		return uint64(fr.p.randCtr)
	}
	for _, pk := range []string{"math/rand", "math/rand/v2"} {
		for _, rc := range []string{pk + ".", "(*" + pk + ".Rand)."} {
			k := 0
			if rc[0] == '(' {
				k = 1
			}
			each := func(names string, f intrin) {
				for _, n := range strings.Fields(names) {
					reg(rc+n, f)
				}
			}
			each("Int Int63 Int31", func(fr *frame, a []value) value { return int64(draw(fr)) })
			each("Uint32 Uint64", func(fr *frame, a []value) value { return draw(fr) })
			each("Intn Int63n Int31n IntN Int64N Int32N", func(fr *frame, a []value) value {
				n := fr.p.index(a[k])
				if n <= 0 {
					fr.p.targetPanicPlain("invalid argument to Intn")
				}
				return int64(draw(fr) % uint64(n))
			})
			each("Float64", func(fr *frame, a []value) value { return float64(draw(fr)%16) / 16 })
			each("Perm", func(fr *frame, a []value) value {
				r := make([]value, fr.p.index(a[k]))
				for i := range r {
					r[i] = int64(i)
				}
				return r
			})
			each("Shuffle Seed", nop)
		}
		reg(pk+".Read", func(fr *frame, a []value) value {
			b := a[0].([]value)
			rnd(fr, b)
			return tuple{int64(len(b)), iface{}}
		})
	}

	// hashes: the portable code, not the assembly
	for _, n := range []string{"crypto/md5", "crypto/sha1", "crypto/internal/fips140/sha256", "crypto/internal/fips140/sha512"} {
		n := n
		reg(n+".block", func(fr *frame, a []value) value {
			p := fr.p
			g, ok := p.e.pkgs[n].Members["blockGeneric"].(*ssa.Function)
			if !ok {
				panic(unsupported("%s has no blockGeneric", n))
			}
			return p.callFn(fr, g, nil, a, p.curSite)
		})
	}
	reg("crypto/internal/fips140only.Enforced hash/crc32.archAvailableIEEE hash/crc32.archAvailableCastagnoli", func(fr *frame, a []value) value { return false })
	reg("crypto/internal/fips140.RecordApproved crypto/internal/fips140.RecordNonApproved crypto/internal/fips140.setIndicator crypto/internal/fips140.getIndicator crypto/internal/boring/sig.StandardCrypto crypto/internal/boring/sig.BoringCrypto (*math/rand.rngSource).Seed (*math/rand.Rand).Seed", nop)
	reg("os.Getpid os.Getppid", func(fr *frame, a []value) value { return int64(1) })
	reg("hash/maphash.runtime_rand hash/maphash.randUint64", func(fr *frame, a []value) value { return uint64(0x9e3779b97f4a7c15) })

	reg("runtime.Caller", func(fr *frame, a []value) value { return tuple{uint64(0), "", int64(0), false} })
	reg("os.Getenv", func(fr *frame, a []value) value { return "" })
	reg("os.LookupEnv", func(fr *frame, a []value) value { return tuple{"", false} })
	reg("internal/stringslite.Clone strings.Clone", func(fr *frame, a []value) value { return a[0] })

	// os
	globalOverrides["os"] = func(p *Path, pkg *ssa.Package, tab map[*ssa.Global]*value) {
		for _, n := range []string{"Stdout", "Stderr", "Stdin"} {
			if g, ok := pkg.Members[n].(*ssa.Global); ok {
				c := new(value)
				*c = agg{(*value)(nil)}
				*tab[g] = c
				p.w.files[c] = n
			}
		}
		for n, m := range pkg.Members {
			g, ok := m.(*ssa.Global)
			if !ok || n == "Stdout" || n == "Stderr" || n == "Stdin" {
				continue
			}
			if strings.HasPrefix(n, "Err") {
				*tab[g] = p.newError("os: " + n)
			} else {
				*tab[g] = poison{"global os." + n}
			}
		}
	}
	write := func(fr *frame, c *value, bs []value) iface {
		p := fr.p
		p.sch.point(fr.g, "write")
		switch p.w.files[c] {
		case "Stdout":
			if p.stdoutBad {
				return p.newError("write /dev/stdout: bad file descriptor").(iface)
			}
			p.readSlice(bs)
			for _, b := range bs {
				p.stdout = append(p.stdout, b)
			}
		case "Stderr":
		default:
			panic(unsupported("write to a file"))
		}
		return iface{}
	}
	reg("(*os.File).Write", func(fr *frame, a []value) value {
		fr.checkNil(asPtr(a[0]))
		if err := write(fr, a[0].(*value), a[1].([]value)); err.t != nil {
			return tuple{int64(0), err}
		}
		return tuple{int64(len(a[1].([]value))), iface{}}
	})
	reg("(*os.File).WriteString", func(fr *frame, a []value) value {
		b := fr.p.strBytes(a[1])
		if err := write(fr, a[0].(*value), b); err.t != nil {
			return tuple{int64(0), err}
		}
		return tuple{int64(len(b)), iface{}}
	})
	reg("(*os.File).Sync (*os.File).Close", func(fr *frame, a []value) value { return iface{} })
	// os.File.ReadFrom(r): copy until EOF through the reader's own Read
	reg("(*os.File).ReadFrom", func(fr *frame, a []value) value {
		p := fr.p
		r := a[1].(iface)
		f := p.methodNamed(r.t, "Read")
		if f == nil {
			panic(unsupported("ReadFrom %s", r.t))
		}
		n := int64(0)
		for k := 0; k < 10000; k++ {
			buf := make([]value, 512)
			for i := range buf {
				buf[i] = uint64(0)
			}
			t := p.callFn(fr, f, nil, []value{r.v, buf}, p.curSite).(tuple)
			m := p.index(t[0])
			if m > 0 {
				if err := write(fr, a[0].(*value), buf[:m]); err.t != nil {
					return tuple{n, err}
				}
			}
			n += int64(m)
			if e := t[1].(iface); e.t != nil {
				eof := *p.global(p.e.pkgs["io"].Members["EOF"].(*ssa.Global))
				if p.branch(p.eq(e, eof)) {
					return tuple{n, iface{}}
				}
				return tuple{n, e}
			}
		}
		panic(unsupported("ReadFrom does not end"))
	})
	// tables the engine does not need
	for _, n := range []string{"unicode", "html", "reflect", "internal/reflectlite", "runtime", "internal/poll", "syscall",
		"internal/godebug", "internal/bisect", "crypto/internal/fips140/drbg", "encoding/json", "log", "internal/testlog", "os/signal", "testing", "flag"} {
		name := n
		globalOverrides[name] = func(p *Path, pkg *ssa.Package, tab map[*ssa.Global]*value) {
			for n, m := range pkg.Members {
				if g, ok := m.(*ssa.Global); ok {
					*tab[g] = poison{"global " + name + "." + n}
				}
			}
		}
	}
}

func (p *Path) methodNamed(t types.Type, name string) *ssa.Function {
	if t == p.e.rtErrType {
		return nil
	}
	k := methKey{t: t, name: name}
	if v, ok := p.e.meths.Load(k); ok {
		return v.(*ssa.Function)
	}
	p.e.methMu.Lock()
	defer p.e.methMu.Unlock()
	sel := p.e.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f := p.e.prog.MethodValue(sel)
	p.e.meths.Store(k, f)
	return f
}

func init() {
	ru := func(name string, f func(r rune) any) {
		reg("unicode."+name, func(fr *frame, a []value) value { return f(rune(fr.p.index(a[0]))) })
	}
	ru("IsSpace", func(r rune) any { return unicode.IsSpace(r) })
	ru("IsLetter", func(r rune) any { return unicode.IsLetter(r) })
	ru("IsDigit", func(r rune) any { return unicode.IsDigit(r) })
	ru("IsNumber", func(r rune) any { return unicode.IsNumber(r) })
	ru("IsUpper", func(r rune) any { return unicode.IsUpper(r) })
	ru("IsLower", func(r rune) any { return unicode.IsLower(r) })
	ru("IsPrint", func(r rune) any { return unicode.IsPrint(r) })
	ru("IsPunct", func(r rune) any { return unicode.IsPunct(r) })
	ru("IsControl", func(r rune) any { return unicode.IsControl(r) })
	ru("ToUpper", func(r rune) any { return int64(unicode.ToUpper(r)) })
	ru("ToLower", func(r rune) any { return int64(unicode.ToLower(r)) })
	ru("ToTitle", func(r rune) any { return int64(unicode.ToTitle(r)) })
	ru("SimpleFold", func(r rune) any { return int64(unicode.SimpleFold(r)) })
	ru("IsGraphic", func(r rune) any { return unicode.IsGraphic(r) })
	ru("IsSymbol", func(r rune) any { return unicode.IsSymbol(r) })
	ru("IsMark", func(r rune) any { return unicode.IsMark(r) })
	ru("IsTitle", func(r rune) any { return unicode.IsTitle(r) })
}
