package props

import (
	"context"
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/store"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// endingContext is a context that ends after it has been asked a number of times: any call may be the one that finds it ended.
type endingContext struct {
	context.Context
	left int
	why  error
	done chan struct{}
	over bool
}

func (c *endingContext) ask() {
	if c.over {
		return
	}
	if c.left <= 0 {
		c.over = true
		close(c.done)
		return
	}
	c.left--
}

func (c *endingContext) Done() <-chan struct{} {
	c.ask()
	return c.done
}

func (c *endingContext) Err() error {
	c.ask()
	if c.over {
		return c.why
	}
	return nil
}

// ending is a context that has ended or ends after up to n questions.
func ending(n int) context.Context {
	return &endingContext{Context: ctx, left: sym.Int("left", 0, n), why: []error{context.Canceled, context.DeadlineExceeded}[sym.Choose("why", 2)], done: make(chan struct{})}
}

// settled judges the error of an update: when it is the specified one, or there is none, the update is as specified; any other
// error is about the context, and nothing has changed. It tells whether the update took place.
func settled(err, want error, where string) bool {
	if err == nil {
		sym.Assert(want == nil, where+"error-missing")
		return true
	}
	for _, e := range []error{graph.ErrNodeNotFound, graph.ErrEdgeNotExist, graph.ErrDuplicateNode, graph.ErrInvalidNode, store.ErrEntityNotFound, store.ErrAlreadyExists} {
		if errors.Is(err, e) {
			sym.Assert(want != nil && errors.Is(want, e), where+"another-error")
		}
	}
	return false
}

// endedOp is any update of a graph with a context that ends at any question.
func (m *gmodel) endedOp(g G, c context.Context) {
	i, j := sym.Choose("slot", 3), sym.Choose("peer", 3)
	u, v := uidOf(m.uid[i]), uidOf(m.uid[j])
	unknown := !m.has(i) || !m.has(j)
	var want error
	switch sym.Choose("op", 5) {
	case 0, 1:
		upsert := sym.Bool("upsert")
		var opts []graph.Option
		if upsert {
			opts = append(opts, graph.WithUpsert())
		}
		e, typ := m.entity(i)
		n, err := memory.NewNode(77, e, graph.WithAttrs(attrsOf("k", "new")))
		must(err)
		if m.has(i) && !upsert {
			want = graph.ErrDuplicateNode
		}
		if settled(g.AddNode(c, n, opts...), want, "add-") {
			m.node[i] = &mnode{id: 77, typ: typ, attr: "new"}
		}
	case 2:
		if settled(g.RemoveNode(c, u), nil, "remove-") {
			m.remove(i)
		}
	case 3:
		if i == j {
			return
		}
		if unknown {
			want = graph.ErrNodeNotFound
		}
		e, err := g.Link(c, u, v, graph.WithWeight(7), graph.WithAttrs(attrsOf("k", "new")))
		sym.Assert((err == nil) == (e != nil), "link-edge-or-error")
		if settled(err, want, "link-") && e != nil {
			if m.get(i, j) == nil {
				m.set(i, j, &medge{uid: e.UID().String(), weight: 7, attr: "new", nattr: 1})
			}
			sym.Assert(m.edgeIs(e, i, j), "link-data")
		}
	case 4:
		if settled(g.Unlink(c, u, v), nil, "unlink-") && !unknown {
			m.unset(i, j)
		}
	}
}

// endedReads makes every query with a context that ends at any question: an answer is the whole answer.
func (m *gmodel) endedReads(g G, c context.Context) {
	i, j := sym.Choose("slot", 3), sym.Choose("peer", 3)
	u, v := uidOf(m.uid[i]), uidOf(m.uid[j])
	var want error
	switch sym.Choose("query", 4) {
	case 0:
		if !m.has(i) {
			want = graph.ErrNodeNotFound
		}
		if n, err := g.Node(c, u); settled(err, want, "node-") {
			sym.Assert(n != nil && m.nodeIs(n, i), "node-data")
		}
	case 1:
		if ns, err := g.Nodes(c); settled(err, nil, "nodes-") {
			sym.Assert(len(ns) == m.size(), "nodes-all")
		}
	case 2:
		if m.has(i) && m.has(j) {
			want = graph.ErrEdgeNotExist
		} else {
			want = graph.ErrNodeNotFound
		}
		if m.get(i, j) != nil {
			want = nil
		}
		if e, err := g.Edge(c, u, v); settled(err, want, "edge-") {
			sym.Assert(e != nil && m.edgeIs(e, i, j), "edge-data")
		}
	case 3:
		n := 0
		for k := range m.uid {
			if m.get(i, k) != nil {
				n++
			}
		}
		if ns, err := g.From(c, u); settled(err, nil, "from-") {
			sym.Assert(len(ns) == n, "from-all")
		}
		if es, err := g.Edges(c); settled(err, nil, "edges-") {
			sym.Assert(len(es) == m.count(), "edges-all")
		}
	}
}

// endedGraph is any graph over three UIDs.
func endedGraph() (G, *gmodel) {
	m := newModel(sym.Bool("directed"), names...)
	m.fixed = true
	g := newGraph(m.directed)
	nodes := sym.Choose("nodes", 8)
	for i := range names {
		if nodes&(1<<i) != 0 {
			m.add(g, i, types[i])
		}
	}
	m.anyEdges2(g)
	return g, m
}

// C01_Ended: any graph, then any update with a context that has ended, or ends at any of the first five questions asked of it:
// the update takes place or returns an error and changes nothing.
func C01_Ended() {
	g, m := endedGraph()
	m.endedOp(g, ending(5))
	m.checkNodes(g, "")
	m.checkEdges(g, "")
}

// C05_Ended: any graph and any query with such a context: no answer is a part of the answer.
func C05_Ended() {
	g, m := endedGraph()
	m.endedReads(g, ending(5))
	m.checkEdges(g, "")
}

// endedSub takes a subgraph with a context that ends at any question.
func endedSub(edges bool) {
	g, m := fullGraph(sym.Bool("directed"), 3)
	depth := sym.Choose("depth", 3)
	sg, err := g.SubGraph(ending(12), uidOf(m.uid[0]), depth)
	sym.Assert((err == nil) == (sg != nil), "subgraph-or-error")
	if settled(err, nil, "subgraph-") && sg != nil {
		in := m.within(0, depth)
		if edges {
			m.subEdges(sg, in)
		} else {
			m.subNodes(sg, in)
		}
	}
	m.check(g, "source-")
}

// C07_Ended: the subgraph of any graph of three nodes, with a context that has ended or ends at any of the first twelve questions
// asked of it: all the nodes, or an error.
func C07_Ended() { endedSub(false) }

// C08_Ended: the same for the edges.
func C08_Ended() { endedSub(true) }

// endedStore is any store over three UIDs with fixed data.
func endedStore() (S, G, *smodel) {
	kind := sym.Choose("kind", 2)
	s, g := newStore(kind)
	m := &smodel{newModel(kind == 0, names...), map[int]bool{}, sym.Bool("bulk"), nil}
	m.fixed = true
	nodes := sym.Choose("nodes", 8)
	for i := range names {
		if nodes&(1<<i) != 0 {
			m.put(s, g, i, types[i], true, false)
		}
	}
	for _, e := range [][2]int{{0, 1}, {1, 2}, {1, 0}} {
		if m.has(e[0]) && m.has(e[1]) && m.get(e[0], e[1]) == nil && sym.Bool("edge") {
			must(s.Link(ctx, uidOf(names[e[0]]), uidOf(names[e[1]]), store.WithAttrs(attrsOf("k", "old"))))
			m.linked(g, e[0], e[1], "old", 1)
		}
	}
	return s, g, m
}

// endedAdd adds any entity with such a context.
func (m *smodel) endedAdd(s S, g G, upsert bool) {
	c := ending(5)
	i := sym.Choose("slot", 3)
	typ := "another type"
	x, _ := newEntity(typ, names[i])
	opts := []store.Option{store.WithAttrs(attrsOf("k", "new"))}
	if upsert {
		opts = append(opts, store.WithUpsert())
	}
	var want, err error
	if m.has(i) && !upsert {
		want = store.ErrAlreadyExists
	}
	if m.bulk {
		err = s.BulkAdd(c, []store.Entity{x}, opts...)
	} else {
		err = s.Add(c, x, opts...)
	}
	if settled(err, want, "add-") {
		m.noted(g, i, typ, "new", true)
	}
}

// C13_Ended: any store, then an Add, Get or Delete of any UID with a context that has ended, or ends at any of the first five
// questions asked of it: it takes place or returns an error and changes nothing.
func C13_Ended() {
	s, g, m := endedStore()
	switch sym.Choose("op", 3) {
	case 0:
		m.endedAdd(s, g, false)
	case 1:
		i := sym.Choose("slot", 3)
		var want error
		if !m.has(i) {
			want = store.ErrEntityNotFound
		}
		if e, err := s.Get(ending(5), uidOf(names[i])); settled(err, want, "get-") {
			sym.Assert(e != nil && m.entityIs(e, i), "get-data")
		}
	case 2:
		i := sym.Choose("slot", 3)
		var err error
		if m.bulk {
			err = s.BulkDelete(ending(5), uidsOf(names[i]))
		} else {
			err = s.Delete(ending(5), uidOf(names[i]))
		}
		if settled(err, nil, "delete-") {
			m.remove(i)
		}
	}
	m.check(s, g, "")
}

// C14_Ended: the same for an Add with upsert, which keeps the links.
func C14_Ended() {
	s, g, m := endedStore()
	m.endedAdd(s, g, true)
	m.check(s, g, "")
}

// C15_Ended: the same for Link and Unlink.
func C15_Ended() {
	s, g, m := endedStore()
	c := ending(5)
	i, j := sym.Choose("from", 3), sym.Choose("to", 3)
	if i == j {
		return
	}
	u, v := uidOf(names[i]), uidOf(names[j])
	unknown := !m.has(i) || !m.has(j)
	var want, err error
	if sym.Bool("link") {
		if unknown {
			want = store.ErrEntityNotFound
		}
		a := store.WithAttrs(attrsOf("k", "new"))
		if m.bulk {
			err = s.BulkLink(c, u, uidsOf(names[j]), a)
		} else {
			err = s.Link(c, u, v, a)
		}
		if settled(err, want, "link-") && m.get(i, j) == nil {
			m.linked(g, i, j, "new", 1)
		}
	} else {
		if m.bulk {
			err = s.BulkUnlink(c, u, uidsOf(names[j]))
		} else {
			err = s.Unlink(c, u, v)
		}
		if settled(err, nil, "unlink-") && !unknown {
			m.unset(i, j)
		}
	}
	m.check(s, g, "")
}

// stoppedAt judges a bulk update: without an error all the single ones took place, with one those before it did.
func stoppedAt(err error, got string, states []string) {
	if err == nil {
		sym.Assert(got == states[len(states)-1], "all-done")
		return
	}
	ok := false
	for _, s := range states {
		ok = ok || got == s
	}
	sym.Assert(ok, "done-until-error")
}

// C16_Ended: any bulk call for up to three UIDs with a context that has ended, or ends at any of the first ten questions asked of
// it: the single calls before the error took place whole, and nothing after it; without an error all did.
func C16_Ended() {
	mk := func() (S, G) {
		s, g := newStore(1)
		for i := range names[:2] {
			e, _ := newEntity(types[i], names[i])
			must(s.Add(ctx, e, store.WithAttrs(attrsOf("k", types[i]))))
		}
		must(s.Link(ctx, uidOf("a"), uidOf("b")))
		return s, g
	}
	s, g := mk()
	t, h := mk()
	e, _ := newEntity("t", names[2])
	op := sym.Choose("op", 5)
	if op != 0 {
		must(s.Add(ctx, e))
		must(t.Add(ctx, e))
		must(s.Link(ctx, uidOf("a"), uidOf("c")))
		must(t.Link(ctx, uidOf("a"), uidOf("c")))
	}
	l := list(3)
	from := uidOf("a")
	if op == 3 {
		from = uidOf("b")
		l = []int{0, 2}[:sym.Choose("links", 3)]
	}
	us := uids(names, l...)
	c := ending(10)
	var bulk error
	states := []string{storeState(t, h)}
	var es []store.Entity
	for k, i := range l {
		x, _ := newEntity(types[5+k], names[i])
		es = append(es, x)
	}
	switch op {
	case 0:
		bulk = s.BulkAdd(c, es, store.WithUpsert())
	case 1:
		var got []store.Entity
		got, bulk = s.BulkGet(c, us)
		if bulk == nil {
			sym.Assert(len(got) == len(l), "all-got")
			for k := range got {
				sym.Assert(got[k] != nil && got[k].UID().String() == names[l[k]], "got-in-order")
			}
		} else {
			sym.Assert(len(got) == 0, "none-with-error")
		}
	case 2:
		bulk = s.BulkDelete(c, us)
	case 3:
		bulk = s.BulkLink(c, from, us)
	case 4:
		bulk = s.BulkUnlink(c, from, us)
	}
	for k := range l {
		switch op {
		case 0:
			must(t.Add(ctx, es[k], store.WithUpsert()))
		case 2:
			must(t.Delete(ctx, us[k]))
		case 3:
			must(t.Link(ctx, from, us[k]))
		case 4:
			must(t.Unlink(ctx, from, us[k]))
		}
		states = append(states, storeState(t, h))
	}
	stoppedAt(bulk, storeState(s, g), states)
}

// endedCache makes any update of one link or UID in any cache with such a context.
func endedCache(ops ...int) {
	c, m := newCache(names...)
	for i := range names {
		for j := range names[:2] {
			if sym.Bool("cached") {
				m.put(c, i, j, false)
			}
		}
	}
	x := ending(5)
	i, j := sym.Choose("from", 3), sym.Choose("to", 3)
	switch ops[sym.Choose("op", len(ops))] {
	case 0:
		l, u := m.link(i, j)
		if settled(c.Put(x, l), nil, "put-") {
			m.noted(i, j, u, false)
		}
	case 1:
		l, u := m.link(i, j)
		if settled(c.Put(x, l, cache.WithUpsert()), nil, "upsert-") {
			m.noted(i, j, u, true)
		}
	case 2:
		if settled(c.Delete(x, uidOf(names[i])), nil, "delete-") {
			m.drop(i)
		}
	case 3:
		if settled(c.Clear(x), nil, "clear-") {
			m.links = map[[2]int]clink{}
		}
	case 4:
		if ls, err := c.GetFrom(x, uidOf(names[i])); settled(err, nil, "from-") {
			m.holds(ls, i, false, "from-")
		}
	case 5:
		if ls, err := c.GetTo(x, uidOf(names[i])); settled(err, nil, "to-") {
			m.holds(ls, i, true, "to-")
		}
	}
	m.check(c)
}

// C18_Ended: any cache over three UIDs, and a lookup with a context that has ended or ends at any of the first five questions asked of it.
func C18_Ended() { endedCache(4, 5) }

// C19_Ended: a put or an upsert with such a context takes place in both indexes or, with an error, in neither.
func C19_Ended() { endedCache(0, 1) }

// C20_Ended: a Delete or Clear with such a context takes place whole or, with an error, not at all.
func C20_Ended() { endedCache(2, 3) }

// C21_Ended: bulk calls for up to three links or UIDs with a context that ends at any of the first ten questions asked of it: the
// single calls before the error took place whole, and nothing after it; without an error all did.
func C21_Ended() {
	c, _ := newCache(names...)
	d, _ := newCache(names...)
	for _, p := range [][2]int{{0, 1}, {1, 2}, {1, 1}} {
		if sym.Bool("cached") {
			l := mkLink(names[p[0]], names[p[1]], types[3*p[0]+p[1]])
			must(c.Put(ctx, l))
			must(d.Put(ctx, l))
		}
	}
	x := ending(10)
	states := []string{cacheState(d)}
	op := sym.Choose("op", 4)
	l := list(3)
	us := uids(names, l...)
	var err error
	switch op {
	case 0:
		var ls []cache.Link
		for k, i := range l {
			ls = append(ls, mkLink(names[i], names[(i+k)%3], types[10+k]))
		}
		err = c.BulkPut(x, ls, cache.WithUpsert())
		for _, k := range ls {
			must(d.Put(ctx, k, cache.WithUpsert()))
			states = append(states, cacheState(d))
		}
	case 1:
		err = c.BulkDelete(x, us)
		for _, u := range us {
			must(d.Delete(ctx, u))
			states = append(states, cacheState(d))
		}
	default:
		var got map[uuid.UID][]cache.Link
		if op == 2 {
			got, err = c.BulkGetFrom(x, us)
		} else {
			got, err = c.BulkGetTo(x, us)
		}
		if err == nil {
			for _, u := range us {
				ls, e := d.GetFrom(ctx, u)
				if op == 3 {
					ls, e = d.GetTo(ctx, u)
				}
				sym.Assert(linkMarks(got[u], nil) == linkMarks(ls, e), "all-got")
			}
			err = errors.New("read")
		}
	}
	stoppedAt(err, cacheState(c), states)
}

// C23_Ended: any plan over three UIDs, then any call with a context that has ended, or ends at any of the first five questions asked
// of it: it takes place or returns an error and changes nothing.
func C23_Ended() {
	p, err := simple.NewSimple()
	must(err)
	in := make([]*mres, 3)
	for i := range names {
		if sym.Bool("in") {
			r, m := anyResource(names[i])
			must(p.Add(ctx, r))
			in[i] = m
		}
	}
	c := ending(5)
	i := sym.Choose("which", 3)
	switch sym.Choose("op", 4) {
	case 0:
		r, m := anyResource(names[i])
		if p.Add(c, r) == nil {
			in[i] = m
		}
	case 1:
		if p.Delete(c, uidOf(names[i])) == nil {
			in[i] = nil
		}
	case 2:
		if r, err := p.Get(c, uidOf(names[i])); err == nil {
			sym.Assert(in[i] != nil && r != nil && in[i].is(r), "get-data")
		}
	case 3:
		n := 0
		for _, m := range in {
			if m != nil {
				n++
			}
		}
		if all, err := p.GetAll(c); err == nil {
			sym.Assert(len(all) == n, "all-of-them")
		}
	}
	checkPlan(p, names, in)
}

// C24_Ended: attributes of up to two keys, and any call with a context that has ended, or ends at any of the first eight questions
// asked of it: it does all it is to do, or returns an error; a Set with an error changes nothing.
func C24_Ended() {
	a, m := memattrs.New(), &amodel{}
	m.sets(a, sym.Choose("sets", 3))
	extra := sym.String("extra", maxStr)
	c := ending(8)
	switch sym.Choose("op", 5) {
	case 0:
		if d, err := memattrs.NewCopyFrom(c, a); err == nil {
			m.is(d, extra, "copy-")
		}
	case 1:
		if mp, err := attrs.ToMap(c, a); err == nil {
			sym.Assert(len(mp) == len(m.keys), "map-all")
		}
	case 2:
		if ks, err := a.Keys(c); err == nil {
			sym.Assert(len(ks) == len(m.keys), "keys-all")
		}
	case 3:
		if v, err := a.Get(c, extra); err == nil {
			sym.Assert(v == m.get(extra), "get-value")
		}
	case 4:
		v := sym.String("val", maxStr)
		if a.Set(c, extra, v) == nil {
			m.set(extra, v)
		}
	}
	m.is(a, extra, "")
}

// C35_Ended: an Unsubscribe with a context that has ended, or ends at any of the first five questions asked of it, before or after the
// session ends, is as final as any other.
func C35_Ended() {
	b, cancel := opened(2)
	x, y := subscribe(b, "x"), subscribe(b, "x")
	must(b.Pub(ctx, "x", msg("m0")))
	closed := sym.Bool("closed")
	if closed {
		must(b.Close())
	}
	sym.Preempt(1)
	sym.Assert(x.Unsubscribe(ending(5)) == nil, "unsubscribe-ok")
	if sym.Bool("settle") {
		sym.Quiesce()
	}
	_, n, err := recv(x, short)
	sym.Assert(n == 0 && brokerErr(err) == "inactive", "inactive")
	if !closed {
		m, n, err := recv(y, short)
		sym.Assert(n == 1 && err == nil && msgIs(m, "m0"), "others-receive")
	}
	id, err := x.ID(ending(2))
	sym.Assert(err != nil || id != "" && id == idOf(x), "id-kept")
	must(b.Close())
	cancel()
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}
