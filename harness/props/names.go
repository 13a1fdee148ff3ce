package props

import (
	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/graph"
)

// attrKey is the key of the attributes that models give to nodes, links and entities.
var attrKey = "k"

// anyKey makes it any string, until the returned function is called.
func anyKey() func() {
	attrKey = sym.String("attr-key", maxStr)
	return func() { attrKey = "k" }
}

// C04_Keys: three links between two nodes with any data under an attribute key of any bytes (up to 32): no key is special.
func C04_Keys() {
	defer anyKey()()
	c04Twice(sym.Bool("directed"))
}

// keysGraph is a graph of two linked nodes with any attribute.
func keysGraph() (G, *gmodel) {
	d := sym.Bool("directed")
	g, m := newGraph(d), newModel(d, "a", "b")
	m.add(g, 0, sym.String("nattr", maxStr))
	m.add(g, 1, sym.String("nattr", maxStr))
	m.link(g, 0, 1, sym.Float("weight"), sym.String("eattr", maxStr))
	return g, m
}

// C01_Keys: two linked nodes with any attribute under any key; one is updated or removed.
func C01_Keys() {
	defer anyKey()()
	g, m := keysGraph()
	m.check(g, "")
	m.watchedOp(g, 0, []int{upAdd, upUpsert, upRemove, upLink, upUnlink})
	m.check(g, "updated-")
}

// C08_Keys: the subgraph of two linked nodes with any attributes under any key.
func C08_Keys() {
	defer anyKey()()
	g, m := keysGraph()
	s, err := g.SubGraph(ctx, uidOf("a"), 1)
	must(err)
	m.subEdges(s, []bool{true, true})
	m.check(g, "source-")
}

// C08_OneAttrs: a graph whose edges (two or three of them, in any directions) were made with one Attrs value; after a subgraph was
// taken the attributes of one of its edges change: that shows on no other edge of the subgraph, and not in the graph. Then the
// shared value changes: that shows in the graph and not in the subgraph.
func C08_OneAttrs() {
	d := sym.Bool("directed")
	g, m := newGraph(d), newModel(d, "a", "b", "c")
	for i := range m.uid {
		m.add(g, i, "x")
	}
	a := attrsOf("k", sym.String("eattr", maxStr))
	pairs := [][2]int{{0, 1}, {1, 2}, {2, 0}}
	if d && sym.Bool("back") {
		pairs[2] = [2]int{1, 0}
	}
	for _, p := range pairs {
		_, err := g.Link(ctx, uidOf(m.uid[p[0]]), uidOf(m.uid[p[1]]), graph.WithAttrs(a))
		must(err)
	}
	s, err := g.SubGraph(ctx, uidOf("a"), 2)
	must(err)
	which := sym.Choose("which", 3)
	of := func(g graph.Graph, i int) attrs.Attrs {
		e, err := g.Edge(ctx, uidOf(m.uid[pairs[i][0]]), uidOf(m.uid[pairs[i][1]]))
		must(err)
		return e.Attrs()
	}
	v := sym.String("val", maxStr)
	must(of(s, which).Set(ctx, "k", v+"!"))
	want, err := a.Get(ctx, "k")
	must(err)
	for i := range pairs {
		sym.Assert(attrIs(of(g, i), "k", want), "graph-kept")
		if i != which {
			sym.Assert(sym.And(nKeys(of(s, i), 1), attrIs(of(s, i), "k", want)), "others-kept")
		}
	}
	must(a.Set(ctx, "k", v+"?"))
	for i := range pairs {
		sym.Assert(attrIs(of(g, i), "k", v+"?"), "graph-shared")
		if i != which {
			sym.Assert(attrIs(of(s, i), "k", want), "copies-kept")
		}
	}
	sym.Assert(attrIs(of(s, which), "k", v+"!"), "copy-changed")
}

// keysStore applies one update to a store of two entities whose attributes have any key.
func keysStore(op func(s S, g G, m *smodel)) {
	defer anyKey()()
	kind := sym.Choose("kind", 2)
	s, g := newStore(kind)
	m := &smodel{newModel(kind == 0, "a", "b"), map[int]bool{}, sym.Bool("bulk"), nil}
	m.put(s, g, 0, sym.String("nattr", maxStr), sym.Bool("attrs"), sym.Bool("upsert"))
	m.put(s, g, 1, sym.String("nattr", maxStr), true, false)
	op(s, g, m)
	m.check(s, g, "")
}

// C13_Keys: two entities with or without attributes under any key and with any type, the first one added plainly or with upsert,
// then an add or a delete.
func C13_Keys() {
	keysStore(func(s S, g G, m *smodel) {
		if sym.Bool("add") {
			m.plainAdd(s, g, sym.Choose("which", 2))
		} else {
			m.del(s, sym.Choose("which", 2))
		}
	})
}

// C14_Keys: two entities, linked or not, one of which is upserted; the attributes have any key.
func C14_Keys() {
	keysStore(func(s S, g G, m *smodel) {
		if sym.Bool("linked") {
			m.linkAny(s, g, 0, 1)
		}
		m.put(s, g, sym.Choose("which", 2), sym.String("nattr", maxStr), sym.Bool("attrs"), true)
	})
}

// C15_Keys: two entities that are linked, linked again and unlinked; the attributes have any key.
func C15_Keys() {
	keysStore(func(s S, g G, m *smodel) {
		m.linkAny(s, g, 0, 1)
		i := sym.Choose("from", 2)
		if sym.Bool("link") {
			m.linkAny(s, g, i, 1-i)
		} else {
			m.unlinkAny(s, i, 1-i)
		}
	})
}
