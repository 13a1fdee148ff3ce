package props

import (
	"context"
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

// G is what both graphs offer.
type G interface {
	memory.Graph
	DOT() (string, error)
}

var ctx = context.Background()

func uidOf(s string) uuid.UID {
	if foreign.on {
		return foreignUIDOf(s)
	}
	return memuid.NewFromString(s)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func attrsOf(k, v string) attrs.Attrs {
	a := memattrs.New()
	must(a.Set(ctx, k, v))
	if foreign.on {
		return foreignAttrs{a}
	}
	return a
}

// attrIs reports whether a holds v under k.
func attrIs(a attrs.Attrs, k, v string) bool {
	x, err := a.Get(ctx, k)
	if err != nil {
		return false
	}
	return x == v
}

// onlyKeys reports whether a has exactly n keys.
func nKeys(a attrs.Attrs, n int) bool {
	ks, err := a.Keys(ctx)
	return err == nil && len(ks) == n
}

// mnode is the reference state of one node.
type mnode struct {
	id   int64
	typ  string
	attr string
	dot  string
}

// medge is the reference state of one edge.
type medge struct {
	uid    string
	weight float64
	attr   string
	nattr  int
}

// gmodel is the reference graph: nodes by slot, edges by ordered pair of slots.
type gmodel struct {
	directed bool
	uid      []string
	node     []*mnode
	edge     map[[2]int]*medge
	fixed    bool                  // the types are fixed, for graphs made twice
	uidDOT   bool                  // each node's DOT ID is its UID
	extra    func() []graph.Option // options for calls that have no use for them
}

func (m *gmodel) more() []graph.Option {
	if m.extra == nil {
		return nil
	}
	return m.extra()
}

func newModel(directed bool, uids ...string) *gmodel {
	return &gmodel{directed: directed, uid: uids, node: make([]*mnode, len(uids)), edge: map[[2]int]*medge{}}
}

func (m *gmodel) has(i int) bool { return i < len(m.node) && m.node[i] != nil }

func (m *gmodel) get(i, j int) *medge { return m.edge[[2]int{i, j}] }

func (m *gmodel) set(i, j int, e *medge) {
	m.edge[[2]int{i, j}] = e
	if !m.directed {
		m.edge[[2]int{j, i}] = e
	}
}

func (m *gmodel) unset(i, j int) {
	delete(m.edge, [2]int{i, j})
	if !m.directed {
		delete(m.edge, [2]int{j, i})
	}
}

func (m *gmodel) remove(i int) {
	if i >= len(m.node) {
		return
	}
	m.node[i] = nil
	for j := range m.node {
		delete(m.edge, [2]int{i, j})
		delete(m.edge, [2]int{j, i})
	}
}

// count is the number of edges of the listing.
func (m *gmodel) count() int {
	n := 0
	for i := range m.node {
		for j := range m.node {
			if m.get(i, j) != nil && (m.directed || i < j) {
				n++
			}
		}
	}
	return n
}

func (m *gmodel) size() int {
	n := 0
	for _, x := range m.node {
		if x != nil {
			n++
		}
	}
	return n
}

func newGraph(directed bool) G {
	if directed {
		g, err := memory.NewWDG()
		must(err)
		return g
	}
	g, err := memory.NewWUG()
	must(err)
	return g
}

var types = []string{"t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9", "u0", "u1", "u2", "u3", "u4", "u5", "u6", "u7", "u8", "u9"}

func (m *gmodel) entity(i int) (graph.Entity, string) {
	typ := types[i]
	if !m.fixed {
		typ = sym.String("type", maxStr)
	}
	if foreign.on {
		return plainEntity{uidOf(m.uid[i]), typ, attrsOf(attrKey, "o")}, typ
	}
	opts := []entity.Option{entity.WithUID(uidOf(m.uid[i])), entity.WithAttrs(attrsOf(attrKey, "o"))}
	if m.uidDOT {
		opts = append(opts, entity.WithDOTID(m.uid[i]))
	} else if !m.fixed {
		// nodes may well have the same DOT ID
		opts = append(opts, entity.WithDOTID(sym.ASCII("dotid", 1, 8)))
	}
	e, err := entity.New(typ, opts...)
	must(err)
	return e, typ
}

// add adds slot i, which must not be there, through the graph's own NewNode.
func (m *gmodel) add(g G, i int, attr string) {
	e, typ := m.entity(i)
	n, err := g.NewNode(ctx, e, graph.WithAttrs(attrsOf(attrKey, attr)))
	must(err)
	must(g.AddNode(ctx, n))
	m.node[i] = &mnode{id: n.(*memory.Node).ID(), typ: typ, attr: attr, dot: m.uid[i]}
}

// link links i and j, which must be there and not linked.
func (m *gmodel) link(g G, i, j int, w float64, attr string) {
	opts := []graph.Option{graph.WithWeight(w), graph.WithAttrs(attrsOf(attrKey, attr))}
	if !m.fixed {
		// edges may well have the same DOT ID, which is their UID then
		opts = append(opts, graph.WithDOTID(sym.ASCII("edotid", 1, 8)))
	}
	e, err := g.Link(ctx, uidOf(m.uid[i]), uidOf(m.uid[j]), opts...)
	must(err)
	m.set(i, j, &medge{uid: e.UID().String(), weight: w, attr: attr, nattr: 1})
}

// nodeIs compares a node with the reference.
func (m *gmodel) nodeIs(n graph.Node, i int) bool {
	x, ok := n.(*memory.Node)
	if !ok || x == nil {
		return false
	}
	r := m.node[i]
	return sym.And(x.UID().String() == m.uid[i], x.ID() == r.id, x.Type() == r.typ, attrIs(x.Attrs(), attrKey, r.attr))
}

// edgeIs compares an edge asked for as (i,j) with the reference.
func (m *gmodel) edgeIs(e graph.Edge, i, j int) bool {
	r := m.get(i, j)
	f, err := e.FromNode()
	if err != nil || f == nil {
		return false
	}
	t, err := e.ToNode()
	if err != nil || t == nil {
		return false
	}
	return sym.And(m.nodeIs(f, i), m.nodeIs(t, j), m.edgeData(e, r))
}

func (m *gmodel) edgeData(e graph.Edge, r *medge) bool {
	ok := sym.And(e.UID().String() == r.uid, sym.SameFloat(e.Weight(), r.weight), nKeys(e.Attrs(), r.nattr))
	if r.nattr > 0 {
		ok = sym.And(ok, attrIs(e.Attrs(), attrKey, r.attr))
	}
	return ok
}

// checkNodes compares every lookup and the listing with the reference.
func (m *gmodel) checkNodes(g G, where string) {
	for i := range m.node {
		n, err := g.Node(ctx, uidOf(m.uid[i]))
		if m.has(i) {
			sym.Assert(err == nil && n != nil, where+"lookup-finds")
			if err == nil && n != nil {
				sym.Assert(m.nodeIs(n, i), where+"lookup-node")
			}
		} else {
			sym.Assert(n == nil && errors.Is(err, graph.ErrNodeNotFound), where+"lookup-missing")
		}
	}
	ns, err := g.Nodes(ctx)
	sym.Assert(err == nil && len(ns) == m.size(), where+"listing-size")
	ids := map[int64]bool{}
	seen := map[int]bool{}
	for _, n := range ns {
		x := n.(*memory.Node)
		sym.Assert(!ids[x.ID()], where+"ids-distinct")
		ids[x.ID()] = true
		for i := range m.node {
			if m.has(i) && x.ID() == m.node[i].id {
				sym.Assert(m.nodeIs(n, i), where+"listing-node")
				seen[i] = true
			}
		}
	}
	sym.Assert(len(seen) == m.size(), where+"listing-complete")
}

// checkEdges compares edge lookups, neighbours and the edge listing with the reference.
func (m *gmodel) checkEdges(g G, where string) {
	for i := range m.node {
		var want int
		for j := range m.node {
			e, err := g.Edge(ctx, uidOf(m.uid[i]), uidOf(m.uid[j]))
			switch {
			case !m.has(i) || !m.has(j):
				sym.Assert(e == nil && errors.Is(err, graph.ErrNodeNotFound), where+"edge-unknown-node")
			case m.get(i, j) != nil:
				want++
				sym.Assert(err == nil && e != nil, where+"edge-found")
				if err == nil && e != nil {
					sym.Assert(m.edgeIs(e, i, j), where+"edge-data")
				}
			default:
				sym.Assert(e == nil && errors.Is(err, graph.ErrEdgeNotExist), where+"edge-missing")
			}
		}
		ns, err := g.From(ctx, uidOf(m.uid[i]))
		sym.Assert(err == nil && len(ns) == want, where+"neighbour-count")
		found := 0
		for _, n := range ns {
			for j := range m.node {
				if m.has(j) && m.get(i, j) != nil && n.(*memory.Node).ID() == m.node[j].id {
					sym.Assert(m.nodeIs(n, j), where+"neighbour-node")
					found++
				}
			}
		}
		sym.Assert(found == want, where+"neighbours")
	}
	es, err := g.Edges(ctx)
	sym.Assert(err == nil && len(es) == m.count(), where+"edges-count")
	left := map[*medge]bool{}
	for _, r := range m.edge {
		left[r] = true
	}
	for _, e := range es {
		f, err := e.FromNode()
		must(err)
		t, err := e.ToNode()
		must(err)
		ok := false
		for i := range m.node {
			for j := range m.node {
				if m.get(i, j) != nil && f.(*memory.Node).ID() == m.node[i].id && t.(*memory.Node).ID() == m.node[j].id {
					sym.Assert(m.edgeIs(e, i, j), where+"edges-data")
					sym.Assert(left[m.get(i, j)], where+"edges-once")
					delete(left, m.get(i, j))
					ok = true
				}
			}
		}
		sym.Assert(ok, where+"edges-known")
	}
	sym.Assert(len(left) == 0, where+"edges-complete")
}

func (m *gmodel) check(g G, where string) {
	m.checkNodes(g, where)
	m.checkEdges(g, where)
}

// anyGraph builds any graph over the slots: any subset of nodes, any set of edges, with symbolic weights and attributes.
func anyGraph(directed bool, uids ...string) (G, *gmodel) {
	g, m := newGraph(directed), newModel(directed, uids...)
	for i := range uids {
		if sym.Bool("node") {
			m.add(g, i, sym.String("nattr", maxStr))
		}
	}
	m.anyEdges(g)
	return g, m
}

func (m *gmodel) anyEdges(g G) {
	for i := range m.node {
		for j := range m.node {
			if i == j || !m.has(i) || !m.has(j) || m.get(i, j) != nil {
				continue
			}
			if !m.directed && i > j {
				continue
			}
			if sym.Bool("edge") {
				// an undirected edge may have been made in either direction
				a, b := i, j
				if !m.directed && sym.Bool("flip") {
					a, b = j, i
				}
				m.link(g, a, b, sym.Float("weight"), sym.String("eattr", maxStr))
			}
		}
	}
}

// maxUID is the length up to which symbolic UIDs are any bytes.
const maxUID = 40

// maxStr and maxText are the lengths up to which other symbolic strings are any bytes and any ASCII text.
const maxStr, maxText = 32, 24

// newKey is longer than any of those.
const newKey = "a new key that is longer than any of those that harnesses choose"

// unknownUID is longer than any other.
const unknownUID = "unknown: a UID that is longer than any of those that harnesses choose, so none of them"

// symUIDs are n distinct UIDs of any bytes, the empty one included.
func symUIDs(n int) []string {
	var us []string
	for i := 0; i < n; i++ {
		u := sym.String("uid", maxUID)
		for _, o := range us {
			sym.Assume(u != o)
		}
		us = append(us, u)
	}
	return us
}

func newGraphWith(directed bool, opts ...graph.Option) G {
	if directed {
		g, err := memory.NewWDG(opts...)
		must(err)
		return g
	}
	g, err := memory.NewWUG(opts...)
	must(err)
	return g
}

// anyEdges2 is anyEdges with fixed data that tells edges apart.
func (m *gmodel) anyEdges2(g G) {
	for i := range m.node {
		for j := range m.node {
			if i != j && m.has(i) && m.has(j) && m.get(i, j) == nil && (m.directed || i < j) && sym.Bool("edge") {
				m.link(g, i, j, float64(10*i+j), types[(4*i+j)%len(types)])
			}
		}
	}
}

func newEntity(typ, uid string) (graph.Entity, error) {
	e, err := entity.New(typ, entity.WithUID(uidOf(uid)))
	must(err)
	return e, err
}
