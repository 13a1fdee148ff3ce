package props

import (
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
)

// within gives, for every slot, whether it can be reached from root by at most depth edges.
func (m *gmodel) within(root, depth int) []bool {
	in := make([]bool, len(m.node))
	in[root] = true
	for d := 0; d < depth && d < len(m.node); d++ {
		next := append([]bool{}, in...)
		for i := range m.node {
			for j := range m.node {
				if in[i] && m.get(i, j) != nil {
					next[j] = true
				}
			}
		}
		in = next
	}
	return in
}

// fullGraph has all the nodes and any edges, told apart by their data.
func fullGraph(directed bool, n int) (G, *gmodel) {
	m := newModel(directed, []string{"a", "b", "c", "d", "e"}[:n]...)
	return m.full(), m
}

func (m *gmodel) full() G {
	g := newGraph(m.directed)
	for i := range m.uid {
		m.add(g, i, types[i])
	}
	m.anyEdges2(g)
	return g
}

// subNodes checks the nodes of a subgraph.
func (m *gmodel) subNodes(sg graph.Graph, in []bool) {
	want := 0
	for i := range m.node {
		n, err := sg.Node(ctx, uidOf(m.uid[i]))
		if in[i] {
			want++
			sym.Assert(err == nil && n != nil, "reachable-in")
			if err == nil && n != nil {
				sym.Assert(m.nodeIs(n, i), "node-data")
			}
		} else {
			sym.Assert(n == nil && errors.Is(err, graph.ErrNodeNotFound), "unreachable-out")
		}
	}
	ns, err := sg.Nodes(ctx)
	sym.Assert(err == nil && len(ns) == want, "node-count")
	seen := map[string]bool{}
	for _, n := range ns {
		seen[n.UID().String()] = true
	}
	sym.Assert(len(seen) == want, "nodes-distinct")
}

func c07(directed bool, n, mode int) {
	g, m := fullGraph(directed, n)
	// the depth is symbolic: the traversal compares it with the depths it reaches
	depth := sym.Int("depth", 0, 1<<40)
	root := sym.Choose("root", n)
	sym.MapOrder(mode)
	sg, err := g.SubGraph(ctx, uidOf(m.uid[root]), depth)
	sym.MapOrder(0)
	sym.Assert(err == nil && sg != nil, "no-error")
	if err != nil || sg == nil {
		return
	}
	d := 0
	for d < n && d < depth {
		d++
	}
	m.subNodes(sg, m.within(root, d))
	m.check(g, "source-")
}

// C07_Directed: any directed graph of three nodes, any root, any depth from 0 to 2^40, maps iterated in any order
// (quick: in insertion order or reversed).
func C07_Directed() { c07(true, 3, sym.Bound(1, 2)) }

// C07_Undirected: the same for the undirected graph.
func C07_Undirected() { c07(false, 3, sym.Bound(1, 2)) }

// C07_Four: any directed graph of four nodes, the root being the first, any depth from 0 to 2^40.
func C07_Four() {
	n := 4
	g, m := fullGraph(true, n)
	depth := sym.Int("depth", 0, 1<<40)
	sg, err := g.SubGraph(ctx, uidOf(m.uid[0]), depth)
	sym.Assert(err == nil && sg != nil, "no-error")
	if err != nil || sg == nil {
		return
	}
	d := 0
	for d < n && d < depth {
		d++
	}
	m.subNodes(sg, m.within(0, d))
}

// C07_Chain: a chain of six nodes with one extra edge anywhere, either kind of graph, any root, any depth.
func C07_Chain() {
	directed := sym.Bool("directed")
	uids := []string{"a", "b", "c", "d", "e", "f"}
	g, m := newGraph(directed), newModel(directed, uids...)
	for i := range uids {
		m.add(g, i, types[i])
	}
	for i := 0; i+1 < len(uids); i++ {
		m.link(g, i, i+1, 1, types[i])
	}
	i, j := sym.Choose("from", 6), sym.Choose("to", 6)
	if i != j && m.get(i, j) == nil {
		m.link(g, i, j, 2, "x")
	}
	depth := sym.Int("depth", 0, 1<<40)
	root := sym.Choose("root", 6)
	sg, err := g.SubGraph(ctx, uidOf(m.uid[root]), depth)
	sym.Assert(err == nil && sg != nil, "no-error")
	if err != nil || sg == nil {
		return
	}
	d := 0
	for d < 6 && d < depth {
		d++
	}
	m.subNodes(sg, m.within(root, d))
}

// C07_Unknown: any graph over two UIDs, an unknown root, any depth; and a known root.
func C07_Unknown() {
	us := symUIDs(3)
	g, m := anyGraph(sym.Bool("directed"), us[:2]...)
	k := sym.Choose("root", 3)
	depth := sym.Int("depth", 0, 1<<40)
	sg, err := g.SubGraph(ctx, uidOf(us[k]), depth)
	if k < 2 && m.has(k) {
		sym.Assert(err == nil && sg != nil, "known-root")
		if err == nil && sg != nil {
			d := 0
			for d < 2 && d < depth {
				d++
			}
			m.subNodes(sg, m.within(k, d))
		}
	} else {
		sym.Assert(sg == nil && errors.Is(err, graph.ErrNodeNotFound), "unknown-root")
	}
	m.check(g, "source-")
}

// C07_AfterUpdates: a subgraph of a three-node graph in which a node was replaced or removed and added again.
func C07_AfterUpdates() {
	g, m := fullGraph(sym.Bool("directed"), 3)
	i := sym.Choose("slot", 3)
	if sym.Bool("remove") {
		m.removeAny(g, i)
		if sym.Bool("again") {
			m.add(g, i, "again")
			m.link(g, i, (i+1)%3, 5, "again")
		}
	} else {
		e, typ := m.entity(i)
		id := sym.Int64("id")
		for j := range m.node {
			sym.Assume(j == i || id != m.node[j].id)
		}
		n, err := memory.NewNode(id, e, graph.WithAttrs(attrsOf("k", "new")))
		must(err)
		must(g.AddNode(ctx, n, graph.WithUpsert()))
		m.node[i] = &mnode{id: id, typ: typ, attr: "new"}
	}
	depth := sym.Int("depth", 0, 1<<40)
	root := sym.Choose("root", 3)
	sg, err := g.SubGraph(ctx, uidOf(m.uid[root]), depth)
	if !m.has(root) {
		sym.Assert(sg == nil && errors.Is(err, graph.ErrNodeNotFound), "removed-root")
		return
	}
	sym.Assert(err == nil && sg != nil, "no-error")
	if err != nil || sg == nil {
		return
	}
	d := 0
	for d < 3 && d < depth {
		d++
	}
	m.subNodes(sg, m.within(root, d))
	m.check(g, "source-")
}
