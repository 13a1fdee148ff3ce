package props

import (
	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/store"
)

// Harnesses in which everything is observed before, between and after updates, and what observations returned is written over:
// no observation may show what an earlier one found, and none may leave its result where others use it.

// watch makes every observation of the graph and writes over what it got.
func (m *gmodel) watch(g G, where string) {
	m.check(g, where)
	ns, err := g.Nodes(ctx)
	must(err)
	for i := range ns {
		ns[i] = nil
	}
	es, err := g.Edges(ctx)
	must(err)
	for i := range es {
		es[i] = nil
	}
	for i := range m.node {
		ns, err := g.From(ctx, uidOf(m.uid[i]))
		must(err)
		for i := range ns {
			ns[i] = nil
		}
	}
}

// the updates of watched graphs and stores
const (
	upAdd = iota
	upUpsert
	upMove // an upsert of a node made by hand, with another internal ID
	upRemove
	upLink
	upUnlink
)

// watchedOp is one of the given updates, of any of the nodes.
func (m *gmodel) watchedOp(g G, k int, ops []int) {
	i := sym.Choose("slot", len(m.node))
	attr := types[10+k]
	switch op := ops[sym.Choose("op", len(ops))]; op {
	case upAdd, upUpsert:
		if !m.has(i) {
			m.add(g, i, attr)
		} else if op == upUpsert {
			m.moved(g, i, m.node[i].id, attr)
		}
	case upMove:
		m.moved(g, i, int64(100+k), attr)
	case upRemove:
		m.removeAny(g, i)
	case upLink:
		j := sym.Choose("peer", len(m.node))
		if i != j && m.has(i) && m.has(j) && m.get(i, j) == nil {
			m.link(g, i, j, float64(100+k), attr)
		}
	case upUnlink:
		m.unlinkAny(g, i, sym.Choose("peer", len(m.node)))
	}
}

// moved upserts slot i with a node with the given internal ID.
func (m *gmodel) moved(g G, i int, id int64, attr string) {
	e, typ := m.entity(i)
	n, err := memory.NewNode(id, e, graph.WithAttrs(attrsOf(attrKey, attr)))
	must(err)
	sym.Assert(g.AddNode(ctx, n, graph.WithUpsert()) == nil, "upsert-ok")
	m.node[i] = &mnode{id: id, typ: typ, attr: attr, dot: m.uid[i]}
}

// watchedGraph is a graph of two or three nodes and some edges, that is observed, updated, perhaps observed, updated and observed.
func watchedGraph(ops ...int) {
	directed := sym.Bool("directed")
	g, m := newGraph(directed), newModel(directed, "a", "b", "c")
	m.fixed, m.uidDOT = true, true
	for i := range m.uid[:2+sym.Choose("third", 2)] {
		m.add(g, i, types[i])
	}
	for _, p := range [][2]int{{0, 1}, {1, 0}, {2, 1}} {
		if m.has(p[0]) && m.has(p[1]) && m.get(p[0], p[1]) == nil && sym.Bool("edge") {
			m.link(g, p[0], p[1], float64(p[0]+2), types[5+p[0]])
		}
	}
	m.watch(g, "first-")
	for k := 0; k < sym.Bound(2, 3); k++ {
		m.watchedOp(g, k, ops)
		if sym.Bool("watch") {
			m.watch(g, "between-")
		}
	}
	m.check(g, "")
}

// C01_Watched: two (thorough: three) updates of any kind of a small graph, with every query made before and perhaps in between.
func C01_Watched() { watchedGraph(upAdd, upUpsert, upMove, upRemove, upLink, upUnlink) }

// C02_Watched: the same for additions, upserts and removals.
func C02_Watched() { watchedGraph(upAdd, upUpsert, upMove, upRemove) }

// C03_Watched: the same for removals, additions and links.
func C03_Watched() { watchedGraph(upRemove, upAdd, upLink) }

// C04_Watched: the same for links, unlinks and removals.
func C04_Watched() { watchedGraph(upLink, upUnlink, upRemove) }

// C05_Watched: the same for upserts, links and unlinks.
func C05_Watched() { watchedGraph(upLink, upUnlink, upMove) }

// C06_Watched: the same for links and unlinks.
func C06_Watched() { watchedGraph(upLink, upUnlink) }

// watchedSub takes subgraphs of every root and depth up to 2, changes them, updates the graph, and takes them again.
func watchedSub(edges bool) {
	directed := sym.Bool("directed")
	g, m := newGraph(directed), newModel(directed, "a", "b", "c")
	m.fixed, m.uidDOT = true, true
	for i := range m.uid[:2+sym.Choose("third", 2)] {
		m.add(g, i, types[i])
	}
	for _, p := range [][2]int{{0, 1}, {1, 0}, {2, 1}} {
		if m.has(p[0]) && m.has(p[1]) && m.get(p[0], p[1]) == nil && sym.Bool("edge") {
			m.link(g, p[0], p[1], float64(p[0]+2), types[5+p[0]])
		}
	}
	subs := func() {
		for i := range m.node {
			for d := 0; d < 3; d++ {
				sg, err := g.SubGraph(ctx, uidOf(m.uid[i]), d)
				if !m.has(i) {
					sym.Assert(sg == nil && err != nil, "unknown-root")
					continue
				}
				sym.Assert(err == nil && sg != nil, "no-error")
				if err != nil || sg == nil {
					continue
				}
				in := m.within(i, d)
				m.subNodes(sg, in)
				if edges {
					m.subEdges(sg, in)
				}
				if x, ok := sg.(memory.Graph); ok {
					must(x.RemoveNode(ctx, uidOf(m.uid[i])))
				}
			}
		}
	}
	subs()
	ops := []int{upAdd, upMove, upRemove, upLink, upUnlink}
	for k := 0; k < 2; k++ {
		m.watchedOp(g, k, ops)
	}
	subs()
}

// C07_Watched: the subgraphs of a small graph, before and after any two updates.
func C07_Watched() { watchedSub(false) }

// C08_Watched: the subgraphs of a small graph and their edges, before and after any two updates.
func C08_Watched() { watchedSub(true) }

// watchedStore is a store of two or three entities and some links that is observed, updated, perhaps observed, updated and observed.
func watchedStore(ops ...int) {
	kind := sym.Choose("kind", 2)
	s, g := newStore(kind)
	m := &smodel{newModel(kind == 0, "a", "b", "c"), map[int]bool{}, sym.Bool("bulk"), nil}
	m.fixed, m.uidDOT = true, true
	for i := range m.uid[:2+sym.Choose("third", 2)] {
		m.put(s, g, i, types[i], true, false)
	}
	for _, p := range [][2]int{{0, 1}, {1, 0}, {2, 1}} {
		if m.has(p[0]) && m.has(p[1]) && m.get(p[0], p[1]) == nil && sym.Bool("edge") {
			must(m.doLink(s, m.uid[p[0]], m.uid[p[1]], store.WithAttrs(attrsOf(attrKey, types[5+p[0]]))))
			m.linked(g, p[0], p[1], types[5+p[0]], 1)
		}
	}
	m.check(s, g, "first-")
	for k := 0; k < sym.Bound(2, 3); k++ {
		i, attr := sym.Choose("slot", 3), types[10+k]
		switch op := ops[sym.Choose("op", len(ops))]; op {
		case upAdd:
			if !m.has(i) {
				m.put(s, g, i, attr, true, false)
			}
		case upUpsert:
			// of another type, too
			e, err := newEntity(attr, m.uid[i])
			must(err)
			with := sym.Bool("with-attrs")
			opts := []store.Option{store.WithUpsert()}
			if with {
				opts = append(opts, store.WithAttrs(attrsOf(attrKey, attr)))
			}
			sym.Assert(m.doAdd(s, e, opts...) == nil, "upsert-ok")
			m.noted(g, i, attr, attr, with)
		case upRemove:
			m.del(s, i)
		case upLink:
			j := sym.Choose("peer", 3)
			if i != j && m.has(i) && m.has(j) && m.get(i, j) == nil {
				sym.Assert(m.doLink(s, m.uid[i], m.uid[j], store.WithAttrs(attrsOf(attrKey, attr))) == nil, "link-ok")
				m.linked(g, i, j, attr, 1)
			}
		case upUnlink:
			m.unlinkAny(s, i, sym.Choose("peer", 3))
		}
		if sym.Bool("watch") {
			m.check(s, g, "between-")
		}
	}
	m.check(s, g, "")
}

// C13_Watched: two (thorough: three) additions, upserts or deletes of a small store, with every query made before and perhaps in between.
func C13_Watched() { watchedStore(upAdd, upUpsert, upRemove) }

// C14_Watched: the same for upserts and links.
func C14_Watched() { watchedStore(upUpsert, upLink) }

// C15_Watched: the same for links, unlinks and deletes.
func C15_Watched() { watchedStore(upLink, upUnlink, upRemove) }

// C43_Turns: two instances of one kind (graphs, stores, caches or plans) over the same UIDs, used in turns: any three (thorough:
// four; graphs: two and three) updates, each of either instance, clearing included; each shows its own updates only.
func C43_Turns() {
	k := sym.Choose("kind", 4)
	steps := sym.Bound(3, 4)
	if k == 0 {
		steps--
	}
	which := func(s int) int { // the instances are alike: the first update is the first one's
		if s == 0 {
			return 0
		}
		return sym.Choose("which", 2)
	}
	switch k {
	case 0:
		var gs [2]G
		var ms [2]*gmodel
		d := sym.Bool("directed")
		for i := range gs {
			gs[i], ms[i] = newGraph(d), newModel(d, "a", "b")
			ms[i].fixed, ms[i].uidDOT = true, true
			ms[i].add(gs[i], 0, types[i])
			ms[i].add(gs[i], 1, types[i])
			ms[i].watch(gs[i], "made-")
		}
		for s := 0; s < steps; s++ {
			i := which(s)
			ms[i].watchedOp(gs[i], s, []int{upAdd, upUpsert, upRemove, upLink, upUnlink})
		}
		for i := range gs {
			ms[i].check(gs[i], "own-")
		}
	case 1:
		var ss [2]S
		var gs [2]G
		var ms [2]*smodel
		for i := range ss {
			ss[i], gs[i] = newStore(2)
			ms[i] = &smodel{newModel(false, "a", "b"), map[int]bool{}, false, nil}
			ms[i].fixed, ms[i].uidDOT = true, true
			ms[i].put(ss[i], gs[i], 0, types[i], true, false)
		}
		for s := 0; s < steps; s++ {
			i, x := which(s), sym.Choose("slot", 2)
			m := ms[i]
			switch sym.Choose("op", 4) {
			case 0:
				m.put(ss[i], gs[i], x, types[10+s], true, true)
			case 1:
				m.del(ss[i], x)
			case 2:
				if m.has(0) && m.has(1) && m.get(0, 1) == nil {
					must(m.doLink(ss[i], "a", "b", store.WithAttrs(attrsOf(attrKey, types[10+s]))))
					m.linked(gs[i], 0, 1, types[10+s], 1)
				}
			case 3:
				m.unlinkAny(ss[i], 0, 1)
			}
		}
		for i := range ss {
			ms[i].check(ss[i], gs[i], "own-")
		}
	case 2:
		var cs [2]*memcache.Links
		var ms [2]*cmodel
		for i := range cs {
			cs[i], ms[i] = newCache("a", "b")
		}
		for s := 0; s < steps; s++ {
			i := which(s)
			x, y := sym.Choose("from", 2), sym.Choose("to", 2)
			switch sym.Choose("op", 3) {
			case 0:
				var opts []cache.Option
				upsert := sym.Bool("upsert")
				if upsert {
					opts = append(opts, cache.WithUpsert())
				}
				must(cs[i].Put(ctx, mkLink(ms[i].uid[x], ms[i].uid[y], types[10+s]), opts...))
				ms[i].noted(x, y, clink{types[10+s], types[10+s]}, upsert)
			case 1:
				ms[i].del(cs[i], ms[i].uid[x])
				ms[i].drop(x)
			case 2:
				must(cs[i].Clear(ctx))
				ms[i].links = map[[2]int]clink{}
			}
		}
		for i := range cs {
			ms[i].check(cs[i])
		}
	case 3:
		us := []string{"a", "b"}
		var ps [2]*simple.Simple
		in := [2][]*mres{make([]*mres, 2), make([]*mres, 2)}
		for i := range ps {
			var err error
			ps[i], err = simple.NewSimple()
			must(err)
		}
		for s := 0; s < steps; s++ {
			i, x := which(s), sym.Choose("slot", 2)
			if sym.Bool("add") {
				r, m := anyResource(us[x])
				must(ps[i].Add(ctx, r))
				in[i][x] = m
			} else {
				must(ps[i].Delete(ctx, uidOf(us[x])))
				in[i][x] = nil
			}
			checkPlan(ps[1-i], us, in[1-i])
		}
		for i := range ps {
			checkPlan(ps[i], us, in[i])
		}
	}
}
