package props

import (
	"strings"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/store"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

const (
	soAdd = iota
	soUpsert
	soDelete
	soLink
	soUnlink
	soGet
	soGraph
	soBulkAdd
	soBulkGet
	soBulkDelete
	soBulkLink
	soBulkUnlink
	soBulkUpsert
	soBulkGetTwice
	nSops
)

// sop is one store operation of a concurrent harness.
type sop struct{ kind, a, mark int }

func (o sop) do(s S) string {
	a, b := uidOf(names[o.a]), uidOf(names[1-o.a])
	both := uids(names, o.a, 1-o.a)
	ent := func(i int) store.Entity {
		e, _ := newEntity(types[o.mark], names[i])
		return e
	}
	switch o.kind {
	case soAdd:
		return "add " + storeErr(s.Add(ctx, ent(o.a)))
	case soUpsert:
		return "add " + storeErr(s.Add(ctx, ent(o.a), store.WithUpsert()))
	case soDelete:
		return "del " + storeErr(s.Delete(ctx, a))
	case soLink:
		return "link " + storeErr(s.Link(ctx, a, b, store.WithAttrs(attrsOf("k", types[o.mark]))))
	case soUnlink:
		return "unlink " + storeErr(s.Unlink(ctx, a, b))
	case soGet:
		e, err := s.Get(ctx, a)
		if err != nil {
			return "get " + storeErr(err)
		}
		return "get " + e.UID().String() + e.Type()
	case soGraph:
		g, err := s.Graph()
		if err != nil || g == nil {
			return "graph missing"
		}
		if u := s.UID(); u == nil || u.String() == "" || u.String() != s.UID().String() {
			return "no uid"
		}
		return "graph"
	case soBulkAdd:
		return "bulkadd " + storeErr(s.BulkAdd(ctx, []store.Entity{ent(o.a), ent(1 - o.a)}))
	case soBulkGet:
		es, err := s.BulkGet(ctx, both)
		r := "bulkget " + storeErr(err)
		for _, e := range es {
			r += e.UID().String() + e.Type()
		}
		return r
	case soBulkUpsert:
		return "bulkadd " + storeErr(s.BulkAdd(ctx, []store.Entity{ent(o.a), ent(1 - o.a)}, store.WithUpsert()))
	case soBulkGetTwice:
		es, err := s.BulkGet(ctx, uids(names, o.a, 1-o.a, o.a))
		r := "bulkget " + storeErr(err)
		for _, e := range es {
			r += e.UID().String() + e.Type()
		}
		return r
	case soBulkDelete:
		return "bulkdel " + storeErr(s.BulkDelete(ctx, both))
	case soBulkLink:
		return "bulklink " + storeErr(s.BulkLink(ctx, a, uids(names, 1-o.a), store.WithAttrs(attrsOf("k", types[o.mark]))))
	case soBulkUnlink:
		return "bulkunlink " + storeErr(s.BulkUnlink(ctx, a, uids(names, 1-o.a)))
	}
	return ""
}

func startStore(nodes, edge int) S {
	s, _ := newStore(1)
	for i := range names {
		if nodes&(1<<i) != 0 {
			e, _ := newEntity("old", names[i])
			must(s.Add(ctx, e))
		}
	}
	if edge != 0 {
		must(s.Link(ctx, uidOf(names[0]), uidOf(names[1]), store.WithAttrs(attrsOf("k", "old"))))
	}
	return s
}

func graphOf(s S) G {
	g, err := s.Graph()
	must(err)
	return g.(G)
}

// atomicStore runs the threads concurrently and asserts that results and content match a sequential order.
func atomicStore(mk func() S, threads [][]sop, preempt int) {
	s := mk()
	res := make([][]string, len(threads))
	var fs []func()
	var lens []int
	for t := range threads {
		t := t
		lens = append(lens, len(threads[t]))
		fs = append(fs, func() {
			for _, o := range threads[t] {
				res[t] = append(res[t], o.do(s))
			}
		})
	}
	sym.Preempt(preempt)
	sym.Par(fs...)
	sym.Preempt(0)
	join := func(r [][]string, s S) string {
		var l []string
		for _, x := range r {
			l = append(l, strings.Join(x, "/"))
		}
		return strings.Join(l, "//") + "=>" + storeState(s, graphOf(s))
	}
	got := join(res, s)
	ok := false
	merges(lens, func(order []int) {
		if ok {
			return
		}
		h := mk()
		next := make([]int, len(threads))
		seq := make([][]string, len(threads))
		for _, t := range order {
			seq[t] = append(seq[t], threads[t][next[t]].do(h))
			next[t]++
		}
		ok = join(seq, h) == got
	})
	sym.Assert(ok, "matches-a-sequential-order")
}

func pickSop(mark int, kinds ...int) sop {
	var o sop
	if len(kinds) == 0 {
		o.kind = sym.Choose("op", nSops)
	} else {
		o.kind = kinds[sym.Choose("op", len(kinds))]
	}
	o.mark = mark
	if o.kind != soGraph {
		o.a = sym.Choose("uid", 2)
	}
	return o
}

// C17_Pairs: any two store operations at once, on a store where each entity and the link may be there; at most 2
// (thorough: 4) preemptions.
func C17_Pairs() {
	nodes := sym.Choose("nodes", 4)
	edge := 0
	if nodes == 3 {
		edge = sym.Choose("edge", 2)
	}
	x, y := pickSop(0), pickSop(1)
	atomicStore(func() S { return startStore(nodes, edge) }, [][]sop{{x}, {y}}, sym.Bound(2, 4))
}

// C17_Adds: three plain Adds of one UID at once: exactly one succeeds and its entity is the one stored.
func C17_Adds() {
	s := startStore(2, 0)
	errs := make([]error, 3)
	var fs []func()
	for t := range errs {
		t := t
		fs = append(fs, func() {
			e, _ := newEntity(types[t], "a")
			errs[t] = s.Add(ctx, e)
		})
	}
	sym.Preempt(sym.Bound(2, 3))
	sym.Par(fs...)
	sym.Preempt(0)
	won := -1
	n := 0
	for t, err := range errs {
		if err == nil {
			won, n = t, n+1
		} else {
			sym.Assert(storeErr(err) == "exists", "others-already-exist")
		}
	}
	sym.Assert(n == 1, "exactly-one-wins")
	e, err := s.Get(ctx, uidOf("a"))
	must(err)
	sym.Assert(won >= 0 && e.Type() == types[won], "winner-stored")
}

// C17_Sequence: two operations in one goroutine, one in another, at most 1 (thorough: 2) preemptions.
func C17_Sequence() {
	x := pickSop(0, soAdd, soUpsert, soDelete, soLink, soUnlink)
	q := pickSop(1, soGet, soGraph, soBulkGet, soLink)
	y := pickSop(2, soUpsert, soDelete, soLink, soUnlink, soBulkAdd, soBulkDelete, soBulkLink)
	atomicStore(func() S { return startStore(3, 1) }, [][]sop{{x, q}, {y}}, sym.Bound(1, 2))
}

// C17_WithGraph: a store operation while the store's graph is used directly.
func C17_WithGraph() {
	s := startStore(3, 1)
	g := graphOf(s)
	x := pickSop(0)
	y := pickOp([]int{opAdd, opUpsert, opRemove, opLink, opUnlink, opNodes, opEdges, opFrom, opSub, opDOT}, 1, 1)
	sym.Preempt(sym.Bound(2, 3))
	sym.Par(func() { x.do(s) }, func() { y.do(g) })
	sym.Preempt(0)
	sym.Reach("finished")
	storeState(s, g)
}

// C17_Reads: entities read together while another goroutine changes them twice: what is read matches one moment.
func C17_Reads() {
	r := pickSop(0, soBulkGet, soBulkGetTwice)
	kinds := []int{soAdd, soUpsert, soDelete, soBulkUpsert, soBulkDelete}
	x, y := pickSop(1, kinds...), pickSop(2, kinds...)
	nodes := sym.Choose("nodes", 4)
	atomicStore(func() S { return startStore(nodes, 0) }, [][]sop{{r}, {x, y}}, sym.Bound(2, 3))
}

// C17_Bulks: a bulk call about two entities, or about their links with a third, together with another bulk call about them in
// either order, or with single calls about one and then the other: each bulk call happens entirely before or after every other
// call.
func C17_Bulks() {
	linked := sym.Bool("linked")
	mk := func() S {
		s, _ := newStore(1)
		for i := range names {
			e, _ := newEntity("old", names[i])
			must(s.Add(ctx, e))
		}
		if linked {
			for _, u := range names[1:] {
				must(s.Link(ctx, uidOf("a"), uidOf(u), store.WithAttrs(attrsOf("k", "old"))))
			}
		}
		return s
	}
	bulk := func(k, mark int, list []uuid.UID) func(s S) string {
		switch k {
		case 0:
			return func(s S) string {
				return storeErr(s.BulkLink(ctx, uidOf("a"), list, store.WithAttrs(attrsOf("k", types[mark]))))
			}
		case 1:
			return func(s S) string { return storeErr(s.BulkUnlink(ctx, uidOf("a"), list)) }
		case 2:
			return func(s S) string { return storeErr(s.BulkDelete(ctx, list)) }
		}
		return func(s S) string {
			var es []store.Entity
			for _, u := range list {
				e, _ := newEntity(types[mark], u.String())
				es = append(es, e)
			}
			return storeErr(s.BulkAdd(ctx, es, store.WithUpsert()))
		}
	}
	single := func(k, mark int, u uuid.UID) func(s S) string {
		switch k {
		case 0:
			return func(s S) string {
				return storeErr(s.Link(ctx, uidOf("a"), u, store.WithAttrs(attrsOf("k", types[mark]))))
			}
		case 1:
			return func(s S) string { return storeErr(s.Unlink(ctx, uidOf("a"), u)) }
		case 2:
			return func(s S) string { return storeErr(s.Delete(ctx, u)) }
		case 3:
			return func(s S) string {
				e, _ := newEntity(types[mark], u.String())
				return storeErr(s.Add(ctx, e))
			}
		}
		return func(s S) string {
			e, err := s.Get(ctx, u)
			if err != nil {
				return storeErr(err)
			}
			return e.Type()
		}
	}
	list := uids(names, 1, 2)
	back := list
	if sym.Bool("back") {
		back = uids(names, 2, 1)
	}
	x := []func(S) string{bulk(sym.Choose("op", 4), 0, list)}
	var y []func(S) string
	if k := sym.Choose("op", 9); k < 4 {
		y = append(y, bulk(k, 1, back))
	} else {
		y = append(y, single(k-4, 1, back[0]), single(k-4, 2, back[1]))
	}
	run := func(fs []func(S) string, s S) string {
		r := ""
		for _, f := range fs {
			r += f(s) + "/"
		}
		return r
	}
	s := mk()
	var rx, ry string
	sym.Preempt(sym.Bound(2, 4))
	sym.Par(func() { rx = run(x, s) }, func() { ry = run(y, s) })
	sym.Preempt(0)
	got := rx + ry + storeState(s, graphOf(s))
	ok := false
	for k := 0; k <= len(y); k++ { // x after k of y
		h := mk()
		hy := run(y[:k], h)
		hx := run(x, h)
		hy += run(y[k:], h)
		ok = ok || got == hx+hy+storeState(h, graphOf(h))
	}
	sym.Assert(ok, "matches-a-sequential-order")
}
