package props

import (
	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// plainEntity is a graph.Entity without a DOT ID.
type plainEntity struct {
	uid uuid.UID
	typ string
	a   attrs.Attrs
}

func (p plainEntity) UID() uuid.UID      { return p.uid }
func (p plainEntity) Type() string       { return p.typ }
func (p plainEntity) Attrs() attrs.Attrs { return p.a }

// fresh checks that a is empty and that setting it does not show on b.
func freshPair(a, b attrs.Attrs, id string) {
	sym.Assert(sym.And(nKeys(a, 0), nKeys(b, 0)), id+"-empty")
	must(a.Set(ctx, "k", "v"))
	sym.Assert(nKeys(b, 0), id+"-unshared")
}

// C11_Node: a node from an entity with or without its own DOT ID and from any resource, with any internal ID, UID, type and DOTID
// option of any bytes (up to 32), with and without attributes; both the constructor and the graph's NewNode.
func C11_Node() {
	defer anyKey()()
	uid, typ := sym.String("uid", maxStr), sym.String("type", maxStr)
	ek := sym.String("entity-key", maxStr)
	ea := attrsOf(ek, "x")
	var e graph.Entity
	own := uid
	switch sym.Choose("entity", 4) {
	case 0:
		e = plainEntity{uidOf(uid), typ, ea}
	case 1:
		x, err := entity.New(typ, entity.WithUID(uidOf(uid)), entity.WithAttrs(ea))
		must(err)
		e = x
	case 2:
		own = sym.String("own", maxStr)
		sym.Assume(own != "")
		x, err := entity.New(typ, entity.WithUID(uidOf(uid)), entity.WithAttrs(ea), entity.WithDOTID(own))
		must(err)
		e = x
	case 3:
		g, v, k := sym.String("group", maxStr), sym.String("version", maxStr), sym.String("kind", maxStr)
		x, err := entity.NewResource(typ, "n", g, v, k, true, entity.WithUID(uidOf(uid)), entity.WithAttrs(ea))
		must(err)
		e, own = x, g+"/"+v+"/"+k
	}
	var opts []graph.Option
	dot := own
	if sym.Bool("with-dotid") {
		d := sym.String("dotid", maxStr)
		opts = append(opts, graph.WithDOTID(d))
		if d != "" {
			dot = d
		}
	}
	attr, with := sym.String("attr", maxStr), sym.Bool("with-attrs")
	if with {
		opts = append(opts, graph.WithAttrs(attrsOf(attrKey, attr)))
	}
	var n, o *memory.Node
	var err error
	if sym.Bool("by-graph") {
		g := newGraph(true)
		x, err := g.NewNode(ctx, e, opts...)
		must(err)
		n = x.(*memory.Node)
		y, err := g.NewNode(ctx, e, opts...)
		must(err)
		o = y.(*memory.Node)
	} else {
		id := sym.Int64("id")
		n, err = memory.NewNode(id, e, opts...)
		must(err)
		sym.Assert(n.ID() == id, "node-id")
		o, err = memory.NewNode(id, e, opts...)
		must(err)
	}
	sym.Observe("dot", n.DOTID())
	sym.Assert(n.UID().String() == uid, "node-uid")
	sym.Assert(n.Type() == typ, "node-type")
	sym.Assert(n.DOTID() == dot, "node-dotid")
	if with {
		sym.Assert(sym.And(nKeys(n.Attrs(), 1), attrIs(n.Attrs(), attrKey, attr)), "node-attrs")
		as := n.Attributes()
		sym.Assert(len(as) == 1, "node-dot-attrs-count")
		if len(as) == 1 {
			sym.Assert(sym.And(as[0].Key == attrKey, as[0].Value == attr), "node-dot-attrs")
		}
	} else {
		freshPair(n.Attrs(), o.Attrs(), "node-attrs")
	}
	sym.Assert(sym.And(nKeys(ea, 1), attrIs(ea, ek, "x")), "entity-attrs-kept")
	set := sym.String("set", maxStr)
	n.SetDOTID(set)
	sym.Assert(n.DOTID() == set, "node-set-dotid")
	sym.Assert(sym.And(n.UID().String() == uid, o.DOTID() == dot), "node-set-dotid-only")
}

// C11_Edge: an edge with any combination of UID, DOTID, weight and attributes options, and its reverse.
func C11_Edge() {
	defer anyKey()()
	e1, _ := newEntity("t", "a")
	e2, _ := newEntity("t", "b")
	f, err := memory.NewNode(sym.Int64("fid"), e1)
	must(err)
	t, err := memory.NewNode(sym.Int64("tid"), e2)
	must(err)
	var opts []graph.Option
	uid, dotid, attr := sym.String("uid", maxStr), sym.String("dotid", maxStr), sym.String("attr", maxStr)
	w := sym.Float("weight")
	withUID, withDOT, withAttrs, withWeight := sym.Bool("with-uid"), sym.Bool("with-dotid"), sym.Bool("with-attrs"), sym.Bool("with-weight")
	if withUID {
		opts = append(opts, graph.WithUID(uidOf(uid)))
	}
	if withDOT {
		opts = append(opts, graph.WithDOTID(dotid))
	}
	if withAttrs {
		opts = append(opts, graph.WithAttrs(attrsOf(attrKey, attr)))
	}
	want := graph.DefaultWeight
	if withWeight {
		opts = append(opts, graph.WithWeight(w))
		want = w
	}
	e, err := memory.NewEdge(f, t, opts...)
	must(err)
	o, err := memory.NewEdge(f, t, opts...)
	must(err)
	switch {
	case withDOT && dotid != "":
		sym.Assert(e.UID().String() == dotid, "edge-dotid-wins")
	case withUID:
		sym.Assert(e.UID().String() == uid, "edge-uid")
	default:
		sym.Assert(len(e.UID().String()) == 36 && e.UID().String() != o.UID().String(), "edge-fresh-uid")
	}
	sym.Assert(e.DOTID() == e.UID().String(), "edge-dotid")
	sym.Assert(sym.SameFloat(e.Weight(), want), "edge-weight")
	if withAttrs {
		sym.Assert(sym.And(nKeys(e.Attrs(), 1), attrIs(e.Attrs(), attrKey, attr)), "edge-attrs")
		as := e.Attributes()
		sym.Assert(len(as) == 1, "edge-dot-attrs-count")
		if len(as) == 1 {
			sym.Assert(sym.And(as[0].Key == attrKey, as[0].Value == attr), "edge-dot-attrs")
		}
	}
	ends := func(e *memory.Edge, f, t *memory.Node, id string) {
		x, err := e.FromNode()
		must(err)
		y, err := e.ToNode()
		must(err)
		sym.Assert(sym.And(x.UID().String() == f.UID().String(), y.UID().String() == t.UID().String()), id+"-nodes")
		sym.Assert(sym.And(e.From().ID() == f.ID(), e.To().ID() == t.ID()), id+"-ids")
	}
	ends(e, f, t, "edge")
	r := e.ReversedEdge().(*memory.Edge)
	ends(r, t, f, "reversed")
	ends(e, f, t, "edge-after")
	sym.Assert(sym.And(r.UID().String() == e.UID().String(), r.DOTID() == e.DOTID()), "reversed-uid")
	sym.Assert(sym.SameFloat(r.Weight(), want), "reversed-weight")
	if withAttrs {
		sym.Assert(sym.And(nKeys(r.Attrs(), 1), attrIs(r.Attrs(), attrKey, attr)), "reversed-attrs")
	} else {
		sym.Assert(nKeys(r.Attrs(), 0), "reversed-no-attrs")
		freshPair(e.Attrs(), o.Attrs(), "edge-attrs")
	}
	// it is the same edge: what is set on one is on the other
	k, v := sym.Word("set-key", 0, 1), sym.String("set-value", maxStr)
	if sym.Bool("set-on-reverse") {
		must(r.Attrs().Set(ctx, k, v))
	} else {
		must(e.Attrs().Set(ctx, k, v))
	}
	sym.Assert(sym.And(attrIs(e.Attrs(), k, v), attrIs(r.Attrs(), k, v)), "reversed-same-attrs")
}

// C11_InGraph: nodes and edges keep their data when they are in a graph of either kind.
func C11_InGraph() {
	g := newGraph(sym.Bool("directed"))
	m := newModel(true, "a", "b")
	m.add(g, 0, sym.String("attr", maxStr))
	m.add(g, 1, sym.String("attr", maxStr))
	uid := sym.String("uid", maxStr)
	w := sym.Float("weight")
	e, err := g.Link(ctx, uidOf("a"), uidOf("b"), graph.WithUID(uidOf(uid)), graph.WithWeight(w), graph.WithAttrs(attrsOf("k", "v")))
	must(err)
	x, err := g.Edge(ctx, uidOf("a"), uidOf("b"))
	must(err)
	for _, y := range []graph.Edge{e, x} {
		sym.Assert(y.UID().String() == uid, "uid")
		sym.Assert(sym.SameFloat(y.Weight(), w), "weight")
		sym.Assert(sym.And(nKeys(y.Attrs(), 1), attrIs(y.Attrs(), "k", "v")), "attrs")
	}
	m.checkNodes(g, "")
}
