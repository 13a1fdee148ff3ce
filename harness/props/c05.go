package props

import (
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
)

// C05_Directed: any directed graph over three UIDs of any bytes, every pair asked in both directions.
func C05_Directed() {
	g, m := anyGraph(true, symUIDs(3)...)
	m.check(g, "")
}

// C05_Undirected: any undirected graph over three UIDs of any bytes, edges made in either direction.
func C05_Undirected() {
	g, m := anyGraph(false, symUIDs(3)...)
	m.check(g, "")
}

// C05_Symbolic: any graph over two distinct UIDs of any bytes (up to 40 of them); a third, different one is unknown.
func C05_Symbolic() {
	us := symUIDs(3)
	g, m := anyGraph(sym.Bool("directed"), us[:2]...)
	m.check(g, "")
	for i := range us[:2] {
		_, err := g.Edge(ctx, uidOf(us[i]), uidOf(us[2]))
		sym.Assert(errors.Is(err, graph.ErrNodeNotFound), "unknown-to")
		_, err = g.Edge(ctx, uidOf(us[2]), uidOf(us[i]))
		sym.Assert(errors.Is(err, graph.ErrNodeNotFound), "unknown-from")
	}
}

// relink links a pair which may be linked already.
func (m *gmodel) relink(g G, i, j int) {
	if !m.has(i) || !m.has(j) {
		return
	}
	w := sym.Float("weight")
	e, err := g.Link(ctx, uidOf(m.uid[i]), uidOf(m.uid[j]), graph.WithWeight(w), graph.WithAttrs(attrsOf("k", "new")))
	sym.Assert(err == nil && e != nil, "relink")
	if err != nil || e == nil {
		return
	}
	if m.get(i, j) == nil {
		m.set(i, j, &medge{uid: e.UID().String(), weight: w, attr: "new", nattr: 1})
	}
	sym.Assert(m.edgeIs(e, i, j), "relink-data")
}

func c05Relink(directed bool) {
	g, m := anyGraph(directed, symUIDs(3)...)
	i := sym.Choose("slot", 3)
	j := (i + 1 + sym.Choose("peer", 2)) % 3
	m.relink(g, i, j)
	m.relink(g, j, i)
	m.relink(g, i, j)
	m.check(g, "")
}

// C05_RelinkDirected: Link answers with the asked orientation in both directions, in any directed graph over three UIDs of any bytes.
func C05_RelinkDirected() { c05Relink(true) }

// C05_RelinkUndirected: the same for the undirected graph.
func C05_RelinkUndirected() { c05Relink(false) }

// C05_SharedAttrs: what is set on the attributes of an edge, however it was found, shows wherever it is found.
func C05_SharedAttrs() {
	directed := sym.Bool("directed")
	g, m := newGraph(directed), newModel(directed, "a", "b")
	m.add(g, 0, "x")
	m.add(g, 1, "y")
	l, err := g.Link(ctx, uidOf("a"), uidOf("b"), graph.WithAttrs(attrsOf(attrKey, sym.String("eattr", maxStr))))
	must(err)
	find := func(how int) graph.Edge {
		switch how {
		case 0:
			return l
		case 1:
			es, err := g.Edges(ctx)
			must(err)
			sym.Assert(len(es) == 1, "edges-count")
			return es[0]
		case 2:
			e, err := g.Edge(ctx, uidOf("a"), uidOf("b"))
			sym.Assert(err == nil, "edge-found")
			return e
		case 3:
			e, err := g.Link(ctx, uidOf("a"), uidOf("b"))
			sym.Assert(err == nil, "relink")
			return e
		case 4:
			e, err := g.Edge(ctx, uidOf("b"), uidOf("a"))
			sym.Assert(err == nil, "edge-reversed-found")
			return e
		}
		e, err := g.Link(ctx, uidOf("b"), uidOf("a"))
		sym.Assert(err == nil, "relink-reversed")
		return e
	}
	n := 6
	if directed {
		n = 4
	}
	a, b := find(sym.Choose("set-on", n)), find(sym.Choose("read-from", n))
	k, v := sym.Word("set-key", 0, 1), sym.String("set-value", maxStr)
	must(a.Attrs().Set(ctx, k, v))
	sym.Assert(attrIs(b.Attrs(), k, v), "same-attrs")
	sym.Assert(attrIs(find(sym.Choose("read-again", n)).Attrs(), k, v), "same-attrs-again")
}

// C05_MapOrder: the listing under every iteration order of three-node graphs.
func C05_MapOrder() {
	sym.MapOrder(sym.Bound(1, 2))
	directed := sym.Bool("directed")
	g, m := newGraph(directed), newModel(directed, symUIDs(3)...)
	for i := range m.node {
		m.add(g, i, types[i])
	}
	m.anyEdges2(g)
	es, err := g.Edges(ctx)
	sym.Assert(err == nil && len(es) == m.count(), "edges-count")
	seen := map[[2]int64]bool{}
	for _, e := range es {
		f, err := e.FromNode()
		must(err)
		t, err := e.ToNode()
		must(err)
		x := [2]int64{f.(*memory.Node).ID(), t.(*memory.Node).ID()}
		sym.Assert(!seen[x] && (directed || !seen[[2]int64{x[1], x[0]}]), "edges-once")
		seen[x] = true
	}
	for i := range m.node {
		ns, err := g.From(ctx, uidOf(m.uid[i]))
		n := 0
		for j := range m.node {
			if m.get(i, j) != nil {
				n++
				e, err := g.Edge(ctx, uidOf(m.uid[i]), uidOf(m.uid[j]))
				sym.Assert(err == nil && m.edgeIs(e, i, j), "edge-data")
			}
		}
		sym.Assert(err == nil && len(ns) == n, "neighbour-count")
	}
}
