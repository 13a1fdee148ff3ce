package props

import (
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// otherNode is a graph.Node that is not a memory graph node.
type otherNode struct{ uid uuid.UID }

func (o otherNode) UID() uuid.UID      { return o.uid }
func (o otherNode) Attrs() attrs.Attrs { return attrsOf("k", "v") }

// addAny adds a node for slot i with any internal ID and any upsert flag, and updates the reference by the specification.
func (m *gmodel) addAny(g G, i int, own bool) {
	e, typ := m.entity(i)
	attr := sym.String("nattr", maxStr)
	var n *memory.Node
	var err error
	if own {
		var x graph.Node
		x, err = g.NewNode(ctx, e, graph.WithAttrs(attrsOf(attrKey, attr)))
		must(err)
		n = x.(*memory.Node)
		if m.has(i) {
			// NewNode hands out the node that is already there
			sym.Assert(m.nodeIs(n, i), "newnode-existing")
			typ, attr = m.node[i].typ, m.node[i].attr
		} else {
			for j := range m.node {
				sym.Assert(!m.has(j) || n.ID() != m.node[j].id, "newnode-fresh-id")
			}
		}
	} else {
		n, err = memory.NewNode(sym.Int64("id"), e, graph.WithAttrs(attrsOf(attrKey, attr)))
		must(err)
	}
	upsert := sym.Bool("upsert")
	var opts []graph.Option
	if upsert {
		opts = append(opts, graph.WithUpsert())
	}
	clash := false
	for j := range m.node {
		if j != i && m.has(j) && m.node[j].id == n.ID() {
			clash = true
		}
	}
	err = g.AddNode(ctx, n, opts...)
	switch {
	case m.has(i) && !upsert, clash:
		sym.Reach("duplicate")
		sym.Assert(errors.Is(err, graph.ErrDuplicateNode), "duplicate-rejected")
	default:
		sym.Reach("added")
		sym.Assert(err == nil, "add-accepted")
		if err == nil {
			m.node[i] = &mnode{id: n.ID(), typ: typ, attr: attr}
		}
	}
}

// linkAny links any two slots, known or not, and updates the reference by the specification.
func (m *gmodel) linkAny(g G, i, j int) {
	var opts []graph.Option
	r := &medge{weight: graph.DefaultWeight}
	if sym.Bool("with-weight") {
		r.weight = sym.Float("weight")
		opts = append(opts, graph.WithWeight(r.weight))
	}
	if sym.Bool("with-attrs") {
		r.attr, r.nattr = sym.String("eattr", maxStr), 1
		opts = append(opts, graph.WithAttrs(attrsOf(attrKey, r.attr)))
	}
	if m.get(i, j) != nil {
		opts = append(opts, m.more()...)
	}
	e, err := g.Link(ctx, uidOf(m.uid[i]), uidOf(m.uid[j]), opts...)
	switch {
	case !m.has(i) || !m.has(j):
		sym.Assert(e == nil && errors.Is(err, graph.ErrNodeNotFound), "link-unknown")
	case i == j:
		sym.Assert(err != nil && e == nil, "link-self")
	case m.get(i, j) != nil:
		sym.Assert(err == nil && e != nil, "link-existing")
		if err == nil && e != nil {
			sym.Assert(m.edgeIs(e, i, j), "link-existing-data")
		}
	default:
		sym.Assert(err == nil && e != nil, "link-new")
		if err == nil && e != nil {
			r.uid = e.UID().String()
			for _, o := range m.edge {
				sym.Assert(o.uid != r.uid, "link-fresh-uid")
			}
			m.set(i, j, r)
			sym.Assert(m.edgeIs(e, i, j), "link-new-data")
		}
	}
}

func (m *gmodel) unlinkAny(g G, i, j int) {
	err := g.Unlink(ctx, uidOf(m.uid[i]), uidOf(m.uid[j]), m.more()...)
	sym.Assert(err == nil, "unlink-no-error")
	if m.has(i) && m.has(j) {
		m.unset(i, j)
	}
}

func (m *gmodel) removeAny(g G, i int) {
	sym.Assert(g.RemoveNode(ctx, uidOf(m.uid[i]), m.more()...) == nil, "remove-no-error")
	m.remove(i)
}

// op runs one operation with any arguments over the first n slots.
func (m *gmodel) op(g G, n int) {
	switch sym.Choose("op", 5) {
	case 0:
		m.addAny(g, sym.Choose("slot", n), true)
	case 1:
		m.addAny(g, sym.Choose("slot", n), false)
	case 2:
		m.removeAny(g, sym.Choose("slot", n))
	case 3:
		m.linkAny(g, sym.Choose("slot", n), sym.Choose("peer", n))
	case 4:
		m.unlinkAny(g, sym.Choose("slot", n), sym.Choose("peer", n))
	}
}

func c01Step(directed bool) {
	g, m := anyGraph(directed, symUIDs(3)...)
	m.op(g, 3)
	m.checkNodes(g, "")
	m.checkEdges(g, "")
}

// C01_StepDirected: any directed graph over three UIDs of any bytes (any nodes, edges, weights, attributes), then any one
// operation with any arguments (any internal ID for a node made by hand), then every query.
func C01_StepDirected() { c01Step(true) }

// C01_StepUndirected: the same for the undirected graph.
func C01_StepUndirected() { c01Step(false) }

func c01History(directed bool, k int, us ...string) {
	g, m := newGraph(directed), newModel(directed, us...)
	for s := 0; s < k; s++ {
		m.op(g, 2)
	}
	m.checkNodes(g, "")
	m.checkEdges(g, "")
}

// C01_HistoryDirected: any 3 (thorough: 4) operations with any arguments on an empty directed graph, over two
// distinct UIDs of any bytes (up to 40).
func C01_HistoryDirected() { c01History(true, sym.Bound(3, 4), symUIDs(2)...) }

// C01_HistoryUndirected: the same for the undirected graph, with fixed UIDs.
func C01_HistoryUndirected() { c01History(false, sym.Bound(3, 4), "a", "b") }
