package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
	"sync"
)

// The interpreted program's goroutines run one at a time; each has a native goroutine that
// parks on its wake channel. Control moves only at synchronisation operations.

type vclock []uint32

func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) join(o vclock) {
	for i, x := range o {
		if i >= len(*v) {
			*v = append(*v, x)
		} else if (*v)[i] < x {
			(*v)[i] = x
		}
	}
}

func (v vclock) clone() vclock { return append(vclock{}, v...) }

type Gor struct {
	id       int
	wake     chan struct{}
	runnable bool
	rseq     int
	done     bool
	vc       vclock
	why      string
	ops      int
	harness  bool // started by the harness package
	noPre    int
	quiesce  bool
	sel      *selWait
	pos      token.Pos
	depth    int
	top      *frame
	panics   []*panicState
	body     func(*Gor)
}

type timer struct {
	when  value // int64 or *Term (BV64)
	seq   int
	fire  func()
	dead  bool
	fired bool
	vc    vclock
	ch    *Chan
}

// idle reports whether nobody is waiting for the timer, so that firing it wakes no goroutine.
func (t *timer) idle() bool { return t.ch != nil && !t.ch.waited() }

type sched struct {
	p        *Path
	all      []*Gor
	cur      *Gor
	dead     bool
	wg       sync.WaitGroup
	bound    int  // preemption bound
	delay    bool // every departure from first-ready-first-run counts against the bound
	rseq     int
	preempts int
	anyTimer int  // number of early timer firings allowed
	fewPicks bool // only so many selects depart from the usual ready case
	lastCase bool // which is the last one instead of the first
	picks    int
	timers   []*timer
	tseq     int
	clock    value
	trace    []SchedEvent
	mutexes  map[*value]*mutexState
	wgs      map[*value]*wgState
	onces    map[*value]*onceState
	conds    map[*value]*condState
	syncVC   map[any]*vclock
	shadows  map[*value]*shadow
	smaps    map[*value]*Map
	pools    map[*value]*poolState
	timerOf  map[*value]*timerObj
	multi    bool
	switches int
	mainDone bool
}

func newSched(p *Path) *sched {
	return &sched{p: p, mutexes: map[*value]*mutexState{}, wgs: map[*value]*wgState{}, onces: map[*value]*onceState{},
		conds: map[*value]*condState{}, syncVC: map[any]*vclock{}, shadows: map[*value]*shadow{}, smaps: map[*value]*Map{}, pools: map[*value]*poolState{}, timerOf: map[*value]*timerObj{}, clock: int64(0)}
}

func (s *sched) newGor() *Gor {
	g := &Gor{id: len(s.all), wake: make(chan struct{}, 1), runnable: true, rseq: s.rseqNext()}
	g.vc = make(vclock, g.id+1)
	g.vc[g.id] = 1
	s.all = append(s.all, g)
	return g
}

// spawn starts an interpreted goroutine.
func (s *sched) spawn(parent *Gor, body func(g *Gor)) *Gor {
	if len(s.all) > 1200 {
		s.p.end("budget", "more than 1200 goroutines")
	}
	g := s.newGor()
	s.multi = true
	if parent != nil {
		g.vc.join(parent.vc)
		parent.vc[parent.id]++
		g.noPre = 0
	}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		<-g.wake
		if s.dead {
			return
		}
		if g.body == nil {
			g.body = body
		}
		aborted := s.p.guard(func() { g.body(g) })
		g.done = true
		g.runnable = false
		if aborted {
			s.abort()
			return
		}
		// pass control on; this native goroutine ends
		aborted = s.p.guard(func() { s.pass(g) })
		if aborted {
			s.abort()
		}
	}()
	return g
}

// abort wakes the main goroutine so that it can end the path.
func (s *sched) abort() {
	s.dead = true
	select {
	case s.all[0].wake <- struct{}{}:
	default:
	}
}

// guard runs f and turns engine level endings into p.kind. It reports whether the path must end.
func (p *Path) guard(f func()) (aborted bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		aborted = true
		switch r := r.(type) {
		case pathEnd:
		case unsupportedErr:
			if p.kind == "" {
				p.kind, p.why = "unsupported", r.msg
				if p.curSite.IsValid() {
					p.why += " at " + p.e.pos(p.curSite)
				}
			}
		case targetPanic:
			if p.kind == "" {
				p.violation("panic", "panic", "uncaught panic: "+p.panicMsg(r.v)+" at "+p.e.pos(r.pos), p.model)
				p.kind, p.why = "violation", "panic"
			}
		default:
			if e, ok := r.(error); ok && strings.Contains(e.Error(), "poison") {
				p.kind, p.why = "unsupported", "use of a value the engine could not initialise: "+e.Error()
				return
			}
			if p.e.debug {
				panic(r)
			}
			p.kind, p.why = "unsupported", fmt.Sprintf("engine error: %v at %s", r, p.e.pos(p.curSite))
		}
	}()
	f()
	return false
}

func (s *sched) runnables() []*Gor {
	var r []*Gor
	for _, g := range s.all {
		if g.runnable && !g.done {
			r = append(r, g)
		}
	}
	return r
}

// switchTo hands the token from cur to g and waits for it to come back.
func (s *sched) switchTo(cur, g *Gor) {
	if cur == g {
		s.cur = g
		return
	}
	s.switches++
	s.cur = g
	g.wake <- struct{}{}
	<-cur.wake
	if s.dead {
		panic(pathEnd{"dead"})
	}
	s.cur = cur
}

// next picks who runs when cur cannot. It returns nil when nobody can.
func (s *sched) next() *Gor {
	for {
		r := s.runnables()
		if len(r) > 0 {
			// a quiescing goroutine runs only when nobody else can
			early := 0
			if s.anyTimer > 0 && s.pendingTimer() {
				early = 1
			}
			n := len(r) + early
			if s.delay {
				sort.Slice(r, func(i, j int) bool { return r[i].rseq < r[j].rseq })
				if s.preempts >= s.bound {
					n = 1
				}
			}
			k := s.p.choose(n, "schedule")
			if s.delay && k > 0 {
				s.preempts++
			}
			if k == len(r) {
				s.anyTimer--
				s.fireOne(true)
				continue
			}
			return r[k]
		}
		for _, g := range s.all {
			if g.quiesce && !g.done {
				g.quiesce = false
				g.runnable = true
				return g
			}
		}
		if !s.fireOne(false) {
			return nil
		}
	}
}

func (s *sched) pass(g *Gor) {
	n := s.next()
	if n == nil {
		s.deadlock()
	}
	s.cur = n
	n.wake <- struct{}{}
}

func (s *sched) deadlock() {
	var b []string
	for _, g := range s.all {
		if !g.done {
			b = append(b, fmt.Sprintf("goroutine %d blocked in %s at %s", g.id, g.why, s.p.e.pos(g.pos)))
		}
	}
	s.p.violation("deadlock", "deadlock", "all goroutines are blocked for ever: "+strings.Join(b, "; "), s.p.model)
	s.p.end("violation", "deadlock")
}

// block parks g until another goroutine makes it runnable.
func (s *sched) block(g *Gor, why string) {
	g.runnable = false
	g.why = why
	g.pos = s.p.curSite
	n := s.next()
	if n == nil {
		s.deadlock()
	}
	s.switchTo(g, n)
}

func (s *sched) ready(g *Gor) {
	if !g.runnable {
		g.rseq = s.rseqNext()
	}
	g.runnable = true
}

func (s *sched) rseqNext() int { s.rseq++; return s.rseq }

// point is a scheduling point before an operation other goroutines may observe.
func (s *sched) point(g *Gor, op string) {
	g.ops++
	if len(s.all) > 1 && len(s.trace) < 4000 {
		s.trace = append(s.trace, SchedEvent{G: g.id, N: g.ops, Op: op, pos: s.p.curSite})
	}
	if s.preempts >= s.bound || g.noPre > 0 || !s.multi {
		return
	}
	r := s.runnables()
	early := 0
	if s.anyTimer > 0 && s.pendingTimer() {
		early = 1
	}
	if len(r)+early <= 1 {
		return
	}
	k := s.p.choose(len(r)+early, "preempt")
	if k == 0 {
		return
	}
	s.preempts++
	if k == len(r) {
		s.anyTimer--
		s.fireOne(true)
		return
	}
	// candidates other than g in id order
	j := 0
	for _, o := range r {
		if o == g {
			continue
		}
		j++
		if j == k {
			if n := len(s.trace); n > 0 {
				s.trace[n-1].Op += " (preempted)"
			}
			s.switchTo(g, o)
			return
		}
	}
}

// gosched lets any other goroutine run.
func (s *sched) gosched(g *Gor) {
	n := s.next()
	s.switchTo(g, n)
}

func (s *sched) quiesceG(g *Gor) {
	g.quiesce = true
	g.runnable = false
	g.why = "sym.Quiesce"
	n := s.next()
	if n == nil {
		s.deadlock()
	}
	if n == g {
		s.cur = g
		return
	}
	s.switchTo(g, n)
}

// ---- timers ----

func (s *sched) addTimer(g *Gor, d value, fire func()) *timer {
	p := s.p
	var when value
	pos := p.ctx.Mk(OSlt, 0, 0, p.ctx.BV(0, 64), p.intTerm(d, 64))
	if p.branch(pos) {
		when = intVal(p.ctx.Mk(OAdd, 64, 0, p.intTerm(s.clock, 64), p.intTerm(d, 64)), intInfo{64, true})
		// a deadline beyond the clock range saturates in Go; treat overflow as far future
		ovf := p.ctx.Mk(OSlt, 0, 0, p.intTerm(when, 64), p.intTerm(s.clock, 64))
		if p.branch(ovf) {
			when = int64(1<<63 - 1)
		}
	} else {
		when = s.clock
	}
	s.tseq++
	t := &timer{when: when, seq: s.tseq, fire: fire, vc: g.vc.clone()}
	g.vc[g.id]++
	s.timers = append(s.timers, t)
	return t
}

func (s *sched) pendingTimer() bool {
	for _, t := range s.timers {
		if !t.dead {
			return true
		}
	}
	return false
}

// fireOne advances the clock to the earliest timer and fires it.
func (s *sched) fireOne(early bool) bool {
	p := s.p
	var best *timer
	live := s.timers[:0]
	for _, t := range s.timers {
		if !t.dead {
			live = append(live, t)
		}
	}
	s.timers = live
	var ties []*timer
	for _, t := range live {
		if best == nil {
			best = t
			ties = []*timer{t}
			continue
		}
		a, b := p.intTerm(t.when, 64), p.intTerm(best.when, 64)
		if p.branch(p.ctx.Mk(OSlt, 0, 0, a, b)) {
			best = t
			ties = []*timer{t}
		} else if p.branch(p.ctx.Eq(a, b)) {
			ties = append(ties, t)
		}
	}
	if best == nil {
		return false
	}
	// of timers due at one time those that wake nobody fire first: their order makes no difference
	for _, t := range ties {
		if t.idle() {
			ties = []*timer{t}
			break
		}
	}
	best = ties[p.choose(len(ties), "timer order")]
	best.dead, best.fired = true, true
	s.clock = best.when
	best.fire()
	return true
}

// ---- mutexes ----

type mutexState struct {
	locked  bool
	owner   *Gor
	waiters []*Gor
	vc      vclock
	// RW
	readers  int
	pendingW *Gor
	writer   *Gor
	queueR   []*Gor
	rvc      vclock
	granted  map[*Gor]bool
}

func (s *sched) mutex(c *value) *mutexState {
	m := s.mutexes[c]
	if m == nil {
		m = &mutexState{granted: map[*Gor]bool{}}
		s.mutexes[c] = m
	}
	return m
}

func (s *sched) fatal(msg string) {
	s.p.violation("fatal", "fatal", "fatal error: "+msg+" at "+s.p.e.pos(s.p.curSite), s.p.model)
	s.p.end("violation", msg)
}

func (s *sched) acquire(g *Gor, v vclock) { g.vc.join(v) }
func (s *sched) release(g *Gor, v *vclock) {
	v.join(g.vc)
	g.vc[g.id]++
}

func (s *sched) lock(g *Gor, c *value, op string) {
	m := s.mutex(c)
	s.point(g, op)
	for m.locked {
		m.waiters = append(m.waiters, g)
		s.block(g, op)
	}
	m.locked, m.owner = true, g
	s.acquire(g, m.vc)
}

func (s *sched) tryLock(g *Gor, c *value) bool {
	m := s.mutex(c)
	s.point(g, "TryLock")
	if m.locked {
		return false
	}
	m.locked, m.owner = true, g
	s.acquire(g, m.vc)
	return true
}

func (s *sched) unlock(g *Gor, c *value) {
	m := s.mutex(c)
	if !m.locked {
		s.fatal("sync: unlock of unlocked mutex")
	}
	s.release(g, &m.vc)
	m.locked, m.owner = false, nil
	for _, w := range m.waiters {
		s.ready(w)
	}
	m.waiters = nil
}

func (s *sched) wlock(g *Gor, c *value) {
	m := s.mutex(c)
	s.point(g, "RWMutex.Lock")
	for m.locked { // another writer holds or waits
		m.waiters = append(m.waiters, g)
		s.block(g, "RWMutex.Lock")
	}
	m.locked, m.owner = true, g
	if m.readers > 0 {
		m.pendingW = g
		s.block(g, "RWMutex.Lock")
	}
	m.pendingW = nil
	m.writer = g
	s.acquire(g, m.vc)
	s.acquire(g, m.rvc)
}

func (s *sched) wunlock(g *Gor, c *value) {
	m := s.mutex(c)
	if m.writer == nil {
		s.fatal("sync: Unlock of unlocked RWMutex")
	}
	s.release(g, &m.vc)
	m.writer = nil
	for _, r := range m.queueR {
		m.readers++
		m.granted[r] = true
		s.ready(r)
	}
	m.queueR = nil
	m.locked, m.owner = false, nil
	for _, w := range m.waiters {
		s.ready(w)
	}
	m.waiters = nil
}

func (s *sched) rlock(g *Gor, c *value) {
	m := s.mutex(c)
	s.point(g, "RWMutex.RLock")
	if m.locked {
		m.queueR = append(m.queueR, g)
		for !m.granted[g] {
			s.block(g, "RWMutex.RLock")
		}
		delete(m.granted, g)
	} else {
		m.readers++
	}
	s.acquire(g, m.vc)
}

func (s *sched) tryRLock(g *Gor, c *value) bool {
	m := s.mutex(c)
	s.point(g, "RWMutex.TryRLock")
	if m.locked {
		return false
	}
	m.readers++
	s.acquire(g, m.vc)
	return true
}

func (s *sched) tryWLock(g *Gor, c *value) bool {
	m := s.mutex(c)
	s.point(g, "RWMutex.TryLock")
	if m.locked || m.readers > 0 {
		return false
	}
	m.locked, m.owner, m.writer = true, g, g
	s.acquire(g, m.vc)
	s.acquire(g, m.rvc)
	return true
}

func (s *sched) runlock(g *Gor, c *value) {
	m := s.mutex(c)
	if m.readers <= 0 {
		s.fatal("sync: RUnlock of unlocked RWMutex")
	}
	s.release(g, &m.rvc)
	m.readers--
	if m.readers == 0 && m.pendingW != nil {
		s.ready(m.pendingW)
	}
}

type wgState struct {
	n       int64
	waiters []*Gor
	vc      vclock
}

type onceState struct {
	done    bool
	running bool
	waiters []*Gor
	vc      vclock
}

type condState struct {
	waiters []*Gor
	vc      vclock
}

func (s *sched) syncClock(k any) *vclock {
	v := s.syncVC[k]
	if v == nil {
		v = &vclock{}
		s.syncVC[k] = v
	}
	return v
}

// ---- channels ----

type chanItem struct {
	v  value
	vc vclock
}

type selWait struct {
	g     *Gor
	done  bool
	idx   int
	val   value
	ok    bool
	panic bool
}

type waiter struct {
	w    *selWait
	idx  int
	item chanItem // for senders
}

type Chan struct {
	timer  bool
	cap    value // int64 or *Term
	buf    []chanItem
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	cvc    vclock
	rvc    vclock
}

func (ch *Chan) waited() bool {
	for _, w := range ch.recvq {
		if !w.w.done {
			return true
		}
	}
	return false
}

func (ch *Chan) popRecv() *waiter {
	for len(ch.recvq) > 0 {
		w := ch.recvq[0]
		ch.recvq = ch.recvq[1:]
		if !w.w.done {
			return w
		}
	}
	return nil
}

func (ch *Chan) popSend() *waiter {
	for len(ch.sendq) > 0 {
		w := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		if !w.w.done {
			return w
		}
	}
	return nil
}

func (ch *Chan) hasRecv() bool {
	for _, w := range ch.recvq {
		if !w.w.done {
			return true
		}
	}
	return false
}

func (ch *Chan) hasSend() bool {
	for _, w := range ch.sendq {
		if !w.w.done {
			return true
		}
	}
	return false
}

func (s *sched) room(ch *Chan) bool {
	switch c := ch.cap.(type) {
	case int64:
		return int64(len(ch.buf)) < c
	case *Term:
		return s.p.branch(s.p.ctx.Mk(OSlt, 0, 0, s.p.ctx.BV(uint64(len(ch.buf)), 64), c))
	}
	panic("chan cap")
}

func (s *sched) buffered(ch *Chan) bool {
	switch c := ch.cap.(type) {
	case int64:
		return c > 0
	case *Term:
		return s.p.branch(s.p.ctx.Mk(OSlt, 0, 0, s.p.ctx.BV(0, 64), c))
	}
	panic("chan cap")
}

func (s *sched) canSend(ch *Chan) bool {
	return ch != nil && (ch.closed || ch.hasRecv() || s.room(ch))
}

func (s *sched) canRecv(ch *Chan) bool {
	return ch != nil && (len(ch.buf) > 0 || ch.hasSend() || ch.closed)
}

// doSend performs a send that canSend allowed. g may be nil (timer).
func (s *sched) doSend(g *Gor, ch *Chan, v value) {
	if ch.closed {
		s.p.targetPanicPlain("send on closed channel")
	}
	item := chanItem{v: v}
	if g != nil {
		if s.buffered(ch) {
			s.acquire(g, ch.rvc)
		}
		item.vc = g.vc.clone()
		g.vc[g.id]++
	}
	if w := ch.popRecv(); w != nil {
		w.w.done, w.w.idx, w.w.val, w.w.ok = true, w.idx, v, true
		w.w.g.vc.join(item.vc)
		if g != nil && !s.buffered(ch) {
			g.vc.join(w.w.g.vc)
			w.w.g.vc[w.w.g.id]++
		}
		s.ready(w.w.g)
		return
	}
	ch.buf = append(ch.buf, item)
}

func (s *sched) doRecv(g *Gor, ch *Chan, zero value) (value, bool) {
	if len(ch.buf) > 0 {
		it := ch.buf[0]
		ch.buf = append([]chanItem{}, ch.buf[1:]...)
		s.acquire(g, it.vc)
		s.release(g, &ch.rvc)
		if w := ch.popSend(); w != nil {
			ch.buf = append(ch.buf, w.item)
			w.w.done, w.w.idx, w.w.ok = true, w.idx, true
			w.w.g.vc.join(ch.rvc)
			s.ready(w.w.g)
		}
		return it.v, true
	}
	if w := ch.popSend(); w != nil {
		w.w.done, w.w.idx, w.w.ok = true, w.idx, true
		s.acquire(g, w.item.vc)
		w.w.g.vc.join(g.vc)
		g.vc[g.id]++
		s.ready(w.w.g)
		return w.item.v, true
	}
	if ch.closed {
		s.acquire(g, ch.cvc)
		return zero, false
	}
	panic("doRecv on empty channel")
}

func (s *sched) send(g *Gor, ch *Chan, v value) {
	s.selectOp(g, []selCase{{ch: ch, send: true, v: v}}, true)
}

func (s *sched) recv(g *Gor, ch *Chan, zero value) (value, bool) {
	_, v, ok := s.selectOp(g, []selCase{{ch: ch, zero: zero}}, true)
	return v, ok
}

func (s *sched) closeChan(g *Gor, ch *Chan) {
	if ch == nil {
		s.p.targetPanicPlain("close of nil channel")
	}
	s.point(g, "close")
	if ch.closed {
		s.p.targetPanicPlain("close of closed channel")
	}
	s.release(g, &ch.cvc)
	ch.closed = true
	for w := ch.popRecv(); w != nil; w = ch.popRecv() {
		w.w.done, w.w.idx, w.w.ok, w.w.val = true, w.idx, false, nil
		w.w.g.vc.join(ch.cvc)
		s.ready(w.w.g)
	}
	for w := ch.popSend(); w != nil; w = ch.popSend() {
		w.w.done, w.w.idx, w.w.panic = true, w.idx, true
		s.ready(w.w.g)
	}
}

type selCase struct {
	ch   *Chan
	send bool
	v    value
	zero value
}

// pick chooses one of n ready cases: any, or, once departures are limited, the first or always the last except in so many
// selects.
func (s *sched) pick(n int) int {
	if n == 1 || !s.fewPicks {
		return s.p.choose(n, "select")
	}
	usual := 0
	if s.lastCase {
		usual = n - 1
	}
	if s.picks == 0 {
		return usual
	}
	k := s.p.choose(n, "select")
	if s.lastCase {
		k = n - 1 - k
	}
	if k != usual {
		s.picks--
	}
	return k
}

// selectOp implements send, receive and select with Go's runtime semantics. With a ready case any
// ready case may be chosen; otherwise the goroutine waits on all channels.
func (s *sched) selectOp(g *Gor, cases []selCase, blocking bool) (int, value, bool) {
	op := "select"
	if len(cases) == 1 && blocking {
		if cases[0].send {
			op = "send"
		} else {
			op = "recv"
		}
	}
	s.point(g, op)
	var ready []int
	for i, c := range cases {
		if c.send && s.canSend(c.ch) || !c.send && s.canRecv(c.ch) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := ready[s.pick(len(ready))]
		c := cases[k]
		if c.send {
			s.doSend(g, c.ch, c.v)
			return k, nil, false
		}
		v, ok := s.doRecv(g, c.ch, c.zero)
		return k, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	w := &selWait{g: g}
	var vc vclock
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		if c.send {
			if vc == nil {
				vc = g.vc.clone()
				g.vc[g.id]++
			}
			c.ch.sendq = append(c.ch.sendq, &waiter{w: w, idx: i, item: chanItem{c.v, vc}})
		} else {
			c.ch.recvq = append(c.ch.recvq, &waiter{w: w, idx: i})
		}
	}
	for !w.done {
		s.block(g, op)
	}
	for _, c := range cases {
		if c.ch != nil {
			c.ch.sendq = dropWaiter(c.ch.sendq, w)
			c.ch.recvq = dropWaiter(c.ch.recvq, w)
		}
	}
	if w.panic {
		s.p.targetPanicPlain("send on closed channel")
	}
	v := w.val
	if !cases[w.idx].send && !w.ok {
		v = cases[w.idx].zero
	}
	return w.idx, v, w.ok
}

func dropWaiter(q []*waiter, w *selWait) []*waiter {
	out := q[:0]
	for _, x := range q {
		if x.w != w {
			out = append(out, x)
		}
	}
	return out
}

// ---- data races ----

type epoch struct {
	g   int
	c   uint32
	pos token.Pos
}

type shadow struct {
	w     epoch
	hasW  bool
	reads []epoch
}

func (s *sched) race(kind string, c *value, a, b epoch, bk string) {
	p := s.p
	sa, sb := p.e.pos(a.pos), p.e.pos(b.pos)
	pair := []string{bk + " at " + sb, kind + " at " + sa}
	sort.Strings(pair)
	p.violation("race", "race", fmt.Sprintf("data race: %s is not ordered with %s", pair[0], pair[1]), p.model)
	p.end("violation", "race")
}

func (s *sched) readCell(c *value, pos token.Pos) {
	g := s.cur
	sh := s.shadows[c]
	if sh == nil {
		sh = &shadow{}
		s.shadows[c] = sh
	}
	if sh.hasW && sh.w.g != g.id && g.vc.get(sh.w.g) < sh.w.c {
		s.race("read", c, epoch{g.id, 0, pos}, sh.w, "write")
	}
	for i := range sh.reads {
		if sh.reads[i].g == g.id {
			sh.reads[i].c = g.vc[g.id]
			sh.reads[i].pos = pos
			return
		}
	}
	sh.reads = append(sh.reads, epoch{g.id, g.vc[g.id], pos})
}

func (s *sched) writeCell(c *value, pos token.Pos) {
	g := s.cur
	sh := s.shadows[c]
	if sh == nil {
		sh = &shadow{}
		s.shadows[c] = sh
	}
	if sh.hasW && sh.w.g != g.id && g.vc.get(sh.w.g) < sh.w.c {
		s.race("write", c, epoch{g.id, 0, pos}, sh.w, "write")
	}
	for _, r := range sh.reads {
		if r.g != g.id && g.vc.get(r.g) < r.c {
			s.race("write", c, epoch{g.id, 0, pos}, r, "read")
		}
	}
	sh.reads = sh.reads[:0]
	sh.hasW = true
	sh.w = epoch{g.id, g.vc[g.id], pos}
}

// readVal/writeVal record an access to a cell including the fields of a struct held in it.
func (s *sched) readDeep(c *value, pos token.Pos) {
	if a, ok := (*c).(agg); ok {
		for i := range a {
			s.readDeep(&a[i], pos)
		}
		return
	}
	s.readCell(c, pos)
}

func (s *sched) writeDeep(c *value, pos token.Pos) {
	if a, ok := (*c).(agg); ok {
		for i := range a {
			s.writeDeep(&a[i], pos)
		}
		return
	}
	s.writeCell(c, pos)
}

// poolState is what a sync.Pool holds.
type poolState struct {
	private *poolItem
	items   []poolItem
}

type poolItem struct {
	v  value
	vc vclock
}
