package props

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
	"gonum.org/v1/gonum/graph/encoding"
)

// errName is a short name of an error of the graph or store packages.
func errName(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, graph.ErrNodeNotFound):
		return "no-node"
	case errors.Is(err, graph.ErrEdgeNotExist):
		return "no-edge"
	case errors.Is(err, graph.ErrDuplicateNode):
		return "duplicate"
	case errors.Is(err, graph.ErrInvalidNode):
		return "invalid"
	}
	return "error"
}

// gop is one graph operation of a concurrent harness. mark tells its data from that of the others.
type gop struct {
	kind, a, b int
	mark       int
}

const (
	opAdd = iota
	opUpsert
	opRemove
	opLink
	opUnlink
	opNode
	opNodes
	opEdge
	opEdges
	opFrom
	opSub
	opDOT
	opNewNode
	opIdentity
	nOps
)

var names = []string{"a", "b", "c"}

func edgeMark(e graph.Edge) string {
	f, err := e.FromNode()
	must(err)
	t, err := e.ToNode()
	must(err)
	return fmt.Sprintf("%s%s%d", f.UID().String(), t.UID().String(), int(e.Weight()))
}

func nodeMark(n graph.Node) string { return n.UID().String() + n.(*memory.Node).Type() }

// do runs the operation and describes its result without anything that differs from run to run.
func (o gop) do(g G) string {
	a, b := uidOf(names[o.a]), uidOf(names[o.b])
	switch o.kind {
	case opAdd, opUpsert:
		e, _ := newEntity(types[o.mark], names[o.a])
		// the internal ID belongs to this operation alone
		n, err := memory.NewNode(int64(100+o.mark), e)
		must(err)
		var opts []graph.Option
		if o.kind == opUpsert {
			opts = append(opts, graph.WithUpsert())
		}
		return "add " + errName(g.AddNode(ctx, n, opts...))
	case opNewNode:
		e, _ := newEntity(types[o.mark], names[o.a])
		n, err := g.NewNode(ctx, e)
		must(err)
		return "newnode " + nodeMark(n)
	case opRemove:
		return "remove " + errName(g.RemoveNode(ctx, a))
	case opLink:
		e, err := g.Link(ctx, a, b, graph.WithWeight(float64(o.mark+1)))
		if err != nil {
			return "link " + errName(err)
		}
		return "link " + edgeMark(e)
	case opUnlink:
		return "unlink " + errName(g.Unlink(ctx, a, b))
	case opNode:
		n, err := g.Node(ctx, a)
		if err != nil {
			return "node " + errName(err)
		}
		return "node " + nodeMark(n)
	case opNodes:
		return "nodes " + nodesState(g)
	case opEdge:
		e, err := g.Edge(ctx, a, b)
		if err != nil {
			return "edge " + errName(err)
		}
		return "edge " + edgeMark(e)
	case opEdges:
		return "edges " + edgesState(g)
	case opFrom:
		ns, err := g.From(ctx, a)
		var s []string
		for _, n := range ns {
			s = append(s, nodeMark(n))
		}
		sort.Strings(s)
		return "from " + errName(err) + strings.Join(s, ",")
	case opSub:
		sg, err := g.SubGraph(ctx, a, o.b)
		if err != nil {
			return "sub " + errName(err)
		}
		return "sub " + nodesState(sg) + edgesState(sg)
	case opDOT:
		s, err := g.DOT()
		if err != nil {
			return "dot " + errName(err)
		}
		l := strings.Split(s, "\n")
		sort.Strings(l)
		return "dot " + strings.Join(l, "|")
	case opIdentity:
		if x, ok := g.(interface {
			DOTAttributers() (encoding.Attributer, encoding.Attributer, encoding.Attributer)
		}); ok {
			_, _, _ = x.DOTAttributers()
		}
		if x, ok := g.(interface{ DOTID() string }); ok && g.UID().String() == x.DOTID() {
			return "identity ok"
		}
		return "identity changed"
	}
	return ""
}

func nodesState(g graph.Graph) string {
	ns, err := g.Nodes(ctx)
	must(err)
	var s []string
	for _, n := range ns {
		s = append(s, nodeMark(n))
	}
	sort.Strings(s)
	return "[" + strings.Join(s, " ") + "]"
}

func edgesState(g graph.Graph) string {
	es, err := g.(graph.Edger).Edges(ctx)
	must(err)
	var s []string
	for _, e := range es {
		s = append(s, edgeMark(e))
	}
	sort.Strings(s)
	return "[" + strings.Join(s, " ") + "]"
}

// state describes a graph completely, by lookups and by listings.
func state(g G) string {
	s := nodesState(g) + edgesState(g)
	for i, u := range names {
		n, err := g.Node(ctx, uidOf(u))
		s += ";" + u + errName(err)
		if err == nil {
			s += nodeMark(n)
		}
		for j, v := range names {
			if i != j {
				e, err := g.Edge(ctx, uidOf(u), uidOf(v))
				s += "," + errName(err)
				if err == nil {
					s += edgeMark(e)
				}
			}
		}
		s += gop{kind: opFrom, a: i}.do(g)
	}
	return s
}

// start makes the graph the operations run on: nodes a and b, c by choice, and edges by choice.
func start(directed bool, nodes, edges int) G {
	g, m := newGraph(directed), newModel(directed, names...)
	m.fixed = true
	for i := range names {
		if nodes&(1<<i) != 0 {
			m.add(g, i, "x")
		}
	}
	if edges&1 != 0 {
		m.link(g, 0, 1, 50, "x")
	}
	if edges&2 != 0 {
		m.link(g, 1, 2, 60, "x")
	}
	return g
}

// pickOp chooses an operation; its arguments run over the UIDs that matter.
func pickOp(kinds []int, mark, uids int) gop {
	o := gop{kind: kinds[sym.Choose("op", len(kinds))], mark: mark}
	switch o.kind {
	case opNodes, opEdges, opDOT, opIdentity:
	case opLink, opUnlink, opEdge:
		p := sym.Choose("pair", uids)
		o.a, o.b = p, (p+1)%len(names)
		if uids == 2 {
			o.b = 1 - p
		}
	case opSub:
		o.a, o.b = sym.Choose("uid", uids), 2
	default:
		o.a = sym.Choose("uid", uids)
	}
	return o
}

// C09_Pairs: two goroutines, each with any one of the fourteen operations, on a directed or undirected graph with two
// linked nodes, at most 2 (thorough: 4) preemptions. Data races, panics and deadlocks end the path as violations; the
// graph must still be usable afterwards.
func C09_Pairs() {
	directed := sym.Bool("directed")
	g := start(directed, 3, 1)
	var all []int
	for k := 0; k < nOps; k++ {
		all = append(all, k)
	}
	x, y := pickOp(all, 0, 2), pickOp(all, 1, 2)
	sym.Preempt(sym.Bound(2, 4))
	sym.Par(func() { x.do(g) }, func() { y.do(g) })
	sym.Preempt(0)
	sym.Reach("finished")
	usable(g)
}

// usable runs every kind of operation once more.
func usable(g G) {
	for k := 0; k < nOps; k++ {
		gop{kind: k, a: 0, b: 1, mark: 5 + k%2}.do(g)
	}
	sym.Reach("usable")
}

// C09_Three: a reader, an updater and any third operation on a graph of three nodes, at most 1 (thorough: 2) preemptions.
func C09_Three() {
	g := start(false, 7, 3)
	readers := []int{opNode, opNodes, opEdge, opEdges, opFrom, opSub, opDOT}
	writers := []int{opAdd, opUpsert, opRemove, opLink, opUnlink, opNewNode}
	x, y := pickOp(readers, 0, 1), pickOp(writers, 1, 1)
	var z gop
	if sym.Bool("third-writes") {
		z = pickOp(writers, 2, 1)
	} else {
		z = pickOp(readers, 2, 1)
	}
	sym.Preempt(sym.Bound(1, 2))
	sym.Par(func() { x.do(g) }, func() { y.do(g) }, func() { z.do(g) })
	sym.Preempt(0)
	sym.Reach("finished")
	usable(g)
}

// C09_Sequences: two goroutines with two operations each, one of them reading, at most 1 (thorough: 2) preemptions.
func C09_Sequences() {
	g := start(true, 3, 1)
	readers := []int{opNodes, opEdge, opEdges, opFrom, opSub, opDOT}
	writers := []int{opUpsert, opRemove, opLink, opUnlink}
	x, y := pickOp(readers, 0, 1), pickOp(readers, 1, 1)
	v, w := pickOp(writers, 2, 1), pickOp(writers, 3, 1)
	sym.Preempt(sym.Bound(1, 2))
	sym.Par(func() { x.do(g); y.do(g) }, func() { v.do(g); w.do(g) })
	sym.Preempt(0)
	sym.Reach("finished")
	usable(g)
}
