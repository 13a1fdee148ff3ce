package props

import (
	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"gonum.org/v1/gonum/graph/encoding"
)

// ident is who a graph must say it is.
type ident struct {
	uid, dot             string
	withUID, with, given bool
}

// anyIdent is any combination of UID and DOTID options, in either order.
func anyIdent() (*ident, []graph.Option) {
	m := &ident{withUID: sym.Bool("with-uid"), with: sym.Bool("with-dotid")}
	m.given = m.withUID
	var opts []graph.Option
	if m.with {
		m.dot = sym.String("dotid", maxStr)
		opts = append(opts, graph.WithDOTID(m.dot))
	}
	if m.withUID {
		m.uid = sym.String("uid", maxUID)
		opts = append(opts, graph.WithUID(uidOf(m.uid)))
		if m.with && sym.Bool("other-order") {
			opts[0], opts[1] = opts[1], opts[0]
		}
	}
	return m, opts
}

// is checks the identity; what the UID is when none was given is noted the first time.
func (m *ident) is(g graph.Graph, where string) {
	u, d := g.UID().String(), g.(interface{ DOTID() string }).DOTID()
	if !m.withUID {
		sym.Assert(u != "", where+"fresh")
		m.uid, m.withUID = u, true
	}
	sym.Assert(u == m.uid, where+"uid")
	if m.with {
		// an empty DOT ID is the same as none
		sym.Assert(sym.Implies(m.dot != "", d == m.dot), where+"dotid")
		sym.Assert(sym.Implies(m.dot == "", d == m.uid), where+"dotid-empty")
	} else {
		sym.Assert(d == m.uid, where+"dotid-is-uid")
	}
}

// C29_Graph: a graph of either kind with any combination of UID, DOTID and other options keeps its identity whatever is done to it.
func C29_Graph() {
	m, opts := anyIdent()
	if sym.Bool("weight") {
		opts = append(opts, graph.WithWeight(sym.Float("weight")))
	}
	directed := sym.Bool("directed")
	g := newGraphWith(directed, opts...)
	m.is(g, "made-")
	x := newModel(directed, "a", "b")
	x.add(g, 0, "p")
	x.add(g, 1, "q")
	x.link(g, 0, 1, 2, "r")
	for k := 0; k < sym.Bound(1, 2); k++ {
		x.op(g, 2)
	}
	m.is(g, "used-")
}

// C29_Fresh: two graphs, two subgraphs and two stores without a UID given all have different UIDs.
func C29_Fresh() {
	seen := map[string]bool{}
	n := 0
	note := func(u string) {
		sym.Assert(u != "" && !seen[u], "different")
		seen[u] = true
		n++
	}
	for k := 0; k < 2; k++ {
		directed := sym.Bool("directed")
		g, m := newGraph(directed), newModel(directed, "a", "b")
		m.add(g, 0, "p")
		note(g.UID().String())
		for j := 0; j < 2; j++ {
			sg, err := g.SubGraph(ctx, uidOf("a"), j)
			must(err)
			note(sg.UID().String())
		}
		s, err := memstore.NewStore()
		must(err)
		note(s.UID().String())
		sg, err := s.Graph()
		must(err)
		note(sg.UID().String())
	}
	sym.Assert(len(seen) == n, "all-different")
}

// C29_SubGraph: a subgraph has the identity given to SubGraph, or one of its own, and the graph keeps its own.
func C29_SubGraph() {
	m, opts := anyIdent()
	directed := sym.Bool("directed")
	g := newGraphWith(directed, opts...)
	x := newModel(directed, "a", "b")
	x.add(g, 0, "p")
	x.add(g, 1, "q")
	x.link(g, 0, 1, 2, "r")
	m.is(g, "before-")
	s, sopts := anyIdent()
	given := s.withUID || m.given
	sg, err := g.SubGraph(ctx, uidOf("a"), 1, sopts...)
	sym.Assert(err == nil && sg != nil, "subgraph")
	s.is(sg, "subgraph-")
	if !given {
		sym.Assert(s.uid != m.uid, "subgraph-own-uid")
	}
	m.is(g, "after-")
	x.check(g, "after-")
}

// dotList are DOT attributes that can be told from others.
type dotList struct{ as []encoding.Attribute }

func (d *dotList) Attributes() []encoding.Attribute { return d.as }

// C29_DOT: the DOT attributes given for the graph, its nodes and its edges are the ones it reports.
func C29_DOT() {
	key := sym.String("key", maxStr)
	d := [3]*dotList{}
	for i := range d {
		d[i] = &dotList{[]encoding.Attribute{{Key: key, Value: types[i]}}}
	}
	var o graph.DOTOptions
	given := [3]bool{sym.Bool("given"), sym.Bool("given"), sym.Bool("given")}
	if given[0] {
		o.GraphAttrs = d[0]
	}
	if given[1] {
		o.NodeAttrs = d[1]
	}
	if given[2] {
		o.EdgeAttrs = d[2]
	}
	g := newGraphWith(sym.Bool("directed"), graph.WithDOTOptions(o)).(graph.DOTGraph)
	a, b, c := g.DOTAttributers()
	for i, x := range []encoding.Attributer{a, b, c} {
		if given[i] {
			sym.Assert(x != nil, "reported")
			as := x.Attributes()
			sym.Assert(len(as) == 1, "reported-attributes")
			sym.Assert(sym.And(as[0].Key == key, as[0].Value == types[i]), "the-ones-given")
		} else {
			sym.Assert(x == nil || len(x.Attributes()) == 0, "none")
		}
	}
}

// C29_Store: a store has the UID given or a fresh one, whatever graph it has, and shows the graph it was given; without one it
// has an empty undirected graph.
func C29_Store() {
	var opts []memstore.Option
	u, withUID := sym.String("uid", maxUID), sym.Bool("with-uid")
	kind := sym.Choose("graph", 3)
	var g G
	if kind < 2 {
		g = newGraph(kind == 0)
		m := newModel(kind == 0, "a", "b")
		m.add(g, 0, "p")
		opts = append(opts, memstore.WithGraph(g))
	}
	if withUID {
		opts = append(opts, memstore.WithUID(uidOf(u)))
		if len(opts) == 2 && sym.Bool("other-order") {
			opts[0], opts[1] = opts[1], opts[0]
		}
	}
	s, err := memstore.NewStore(opts...)
	sym.Assert(err == nil && s != nil, "made")
	if withUID {
		sym.Assert(s.UID().String() == u, "uid")
	} else {
		u = s.UID().String()
		sym.Assert(u != "", "fresh")
		if kind < 2 {
			sym.Assert(u != g.UID().String(), "fresh-not-the-graph's")
			t, err := memstore.NewStore(memstore.WithGraph(g))
			must(err)
			sym.Assert(u != t.UID().String(), "fresh-each")
		}
	}
	for k := 0; k < 2; k++ {
		x, err := s.Graph()
		sym.Assert(err == nil && x != nil, "graph")
		if kind < 2 {
			sym.Assert(x == graph.Graph(g), "graph-given")
			n, err := s.Get(ctx, uidOf("a"))
			sym.Assert(err == nil && n != nil, "graph-content")
		} else if k == 0 {
			ns, err := x.Nodes(ctx)
			sym.Assert(err == nil && len(ns) == 0, "graph-empty")
			m := newModel(false, "a", "b")
			m.add(x.(memory.Graph).(G), 0, "p")
			m.add(x.(G), 1, "q")
			sym.Assert(s.Link(ctx, uidOf("a"), uidOf("b")) == nil, "link")
			e, err := x.Edge(ctx, uidOf("b"), uidOf("a"))
			sym.Assert(err == nil && e != nil, "undirected")
		} else {
			_, err := x.Edge(ctx, uidOf("b"), uidOf("a"))
			sym.Assert(err == nil, "same-graph")
		}
		sym.Assert(s.UID().String() == u, "uid-kept")
	}
}
