package props

import (
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
)

// subEdges checks that the subgraph has exactly the source's edges between the nodes in it, and their data.
func (m *gmodel) subEdges(sg graph.Graph, in []bool) {
	want := 0
	for i := range m.node {
		for j := range m.node {
			if i == j || !in[i] || !in[j] {
				continue
			}
			e, err := sg.Edge(ctx, uidOf(m.uid[i]), uidOf(m.uid[j]))
			r := m.get(i, j)
			if r == nil {
				sym.Assert(e == nil && errors.Is(err, graph.ErrEdgeNotExist), "no-other-edge")
				continue
			}
			want++
			sym.Assert(err == nil && e != nil, "edge-kept")
			if err != nil || e == nil {
				continue
			}
			f, err := e.FromNode()
			must(err)
			t, err := e.ToNode()
			must(err)
			sym.Assert(sym.And(f.UID().String() == m.uid[i], t.UID().String() == m.uid[j]), "edge-ends")
			sym.Assert(sym.SameFloat(e.Weight(), r.weight), "edge-weight")
			sym.Assert(sym.And(nKeys(e.Attrs(), r.nattr), attrIs(e.Attrs(), attrKey, r.attr)), "edge-attrs")
		}
	}
	if l, ok := sg.(graph.Edger); ok {
		es, err := l.Edges(ctx)
		sym.Assert(err == nil && len(es) == want, "edge-count")
	}
}

func c08(directed bool, mode int) {
	g, m := newGraph(directed), newModel(directed, "a", "b", "c")
	for i := range m.node {
		m.add(g, i, types[i])
	}
	for i := range m.node {
		for j := range m.node {
			if i != j && m.get(i, j) == nil && (directed || i < j) && sym.Bool("edge") {
				m.link(g, i, j, sym.Float("weight"), sym.String("eattr", maxStr))
			}
		}
	}
	depth := sym.Int("depth", 0, 1<<40)
	root := sym.Choose("root", 3)
	sym.MapOrder(mode)
	sg, err := g.SubGraph(ctx, uidOf(m.uid[root]), depth)
	sym.MapOrder(0)
	sym.Assert(err == nil && sg != nil, "no-error")
	if err != nil || sg == nil {
		return
	}
	d := 0
	for d < 3 && d < depth {
		d++
	}
	in := m.within(root, d)
	m.subEdges(sg, in)
	// the attributes of both sides are independent
	for i := range m.node {
		for j := range m.node {
			if i == j || !in[i] || !in[j] || m.get(i, j) == nil {
				continue
			}
			e, err := sg.Edge(ctx, uidOf(m.uid[i]), uidOf(m.uid[j]))
			if err != nil || e == nil {
				continue
			}
			o, err := g.Edge(ctx, uidOf(m.uid[i]), uidOf(m.uid[j]))
			must(err)
			must(e.Attrs().Set(ctx, "sub", "1"))
			must(o.Attrs().Set(ctx, "src", "2"))
			x, _ := o.Attrs().Get(ctx, "sub")
			y, _ := e.Attrs().Get(ctx, "src")
			sym.Assert(x == "" && y == "", "attrs-independent")
		}
	}
}

// C08_Directed: any directed graph of three nodes with arbitrary weights and attributes, any root, any depth from 0 to
// 2^40, maps iterated in any order (quick: in insertion order or reversed).
func C08_Directed() { c08(true, sym.Bound(1, 2)) }

// C08_Undirected: the same for the undirected graph.
func C08_Undirected() { c08(false, sym.Bound(1, 2)) }

// C08_AttrError: one edge of a three-node graph has attributes that cannot be read; the subgraph fails exactly when
// it would hold that edge.
func C08_AttrError() {
	directed := sym.Bool("directed")
	g, m := newGraph(directed), newModel(directed, "a", "b", "c")
	for i := range m.node {
		m.add(g, i, types[i])
	}
	m.anyEdges2(g)
	i := sym.Choose("slot", 3)
	j := (i + 1 + sym.Choose("peer", 2)) % 3
	if m.get(i, j) != nil {
		m.unlinkAny(g, i, j)
	}
	bad := unreadableFew()
	e, err := g.Link(ctx, uidOf(m.uid[i]), uidOf(m.uid[j]), graph.WithAttrs(bad))
	must(err)
	m.set(i, j, &medge{uid: e.UID().String()})
	depth := sym.Int("depth", 0, 1<<40)
	root := sym.Choose("root", 3)
	d := 0
	for d < 3 && d < depth {
		d++
	}
	in := m.within(root, d)
	sg, err := g.SubGraph(ctx, uidOf(m.uid[root]), depth)
	if in[i] && in[j] {
		sym.Reach("unreadable")
		sym.Assert(err != nil && sg == nil, "error-returned")
	} else {
		sym.Reach("readable")
		sym.Assert(err == nil && sg != nil, "no-error")
	}
}

// C08_Four: any directed graph of four nodes with distinguishable edges, the root being the first, any depth.
func C08_Four() {
	g, m := fullGraph(true, 4)
	depth := sym.Int("depth", 0, 1<<40)
	sg, err := g.SubGraph(ctx, uidOf(m.uid[0]), depth)
	sym.Assert(err == nil && sg != nil, "no-error")
	if err != nil || sg == nil {
		return
	}
	d := 0
	for d < 4 && d < depth {
		d++
	}
	m.subEdges(sg, m.within(0, d))
}

// C08_Again: the subgraph of a subgraph, and a subgraph after a node of the source was replaced under a new internal ID.
func C08_Again() {
	directed := sym.Bool("directed")
	g, m := fullGraph(directed, 3)
	i := sym.Choose("slot", 3)
	e, typ := m.entity(i)
	id := sym.Int64("id")
	for j := range m.node {
		sym.Assume(j == i || id != m.node[j].id)
	}
	n, err := memory.NewNode(id, e, graph.WithAttrs(attrsOf("k", "new")))
	must(err)
	must(g.AddNode(ctx, n, graph.WithUpsert()))
	m.node[i] = &mnode{id: id, typ: typ, attr: "new"}
	sg, err := g.SubGraph(ctx, uidOf(m.uid[0]), 3)
	sym.Assert(err == nil && sg != nil, "no-error")
	if err != nil || sg == nil {
		return
	}
	m.subEdges(sg, m.within(0, 3))
	ssg, err := sg.(graph.SubGrapher).SubGraph(ctx, uidOf(m.uid[0]), 3)
	sym.Assert(err == nil && ssg != nil, "again-no-error")
	if err != nil || ssg == nil {
		return
	}
	m.subEdges(ssg, m.within(0, 3))
}

// kindOfAttrs is attributes of any of the kinds an edge may be given: none, empty ones, of one or two keys, or shared with another.
func kindOfAttrs(shared attrs.Attrs) (opts []graph.Option, want string) {
	var a attrs.Attrs
	switch sym.Choose("attrs", 5) {
	case 0:
		return nil, ""
	case 1:
		a = memattrs.New()
	case 2:
		a = attrsOf("k", "v")
	case 3:
		a = memattrs.NewFromMap(map[string]string{"k": "v", "": ""})
	case 4:
		a = shared
	}
	return []graph.Option{graph.WithAttrs(a)}, sorted(a)
}

// C08_Attrs: two edges with attributes of any kind (none, empty, some, shared), their copies in a subgraph, and a change on any side.
func C08_Attrs() {
	g := newGraph(sym.Bool("directed"))
	for i, u := range names {
		e, _ := newEntity(types[i], u)
		n, err := memory.NewNode(int64(i), e)
		must(err)
		must(g.AddNode(ctx, n))
	}
	shared := attrsOf("s", "s")
	var want [2]string
	for i := range want {
		opts, w := kindOfAttrs(shared)
		_, err := g.Link(ctx, uidOf(names[i]), uidOf(names[i+1]), opts...)
		must(err)
		want[i] = w
	}
	sg, err := g.SubGraph(ctx, uidOf("a"), 2)
	sym.Assert(err == nil && sg != nil, "no-error")
	if err != nil || sg == nil {
		return
	}
	edge := func(g graph.Graph, i int) attrs.Attrs {
		e, err := g.Edge(ctx, uidOf(names[i]), uidOf(names[i+1]))
		sym.Assert(err == nil && e != nil, "edge-kept")
		return e.Attrs()
	}
	for i := range want {
		sym.Assert(sorted(edge(g, i)) == want[i] && sorted(edge(sg, i)) == want[i], "attrs-copied")
	}
	i := sym.Choose("edge", 2)
	from, to := graph.Graph(g), graph.Graph(sg)
	if sym.Bool("change-copy") {
		from, to = sg, g
	}
	must(edge(from, i).Set(ctx, []string{"new", "k"}[sym.Choose("key", 2)], "changed"))
	for i := range want {
		sym.Assert(sorted(edge(to, i)) == want[i], "other-side-unchanged")
	}
}
