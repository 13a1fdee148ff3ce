package props

import (
	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/graph"
)

func c04(directed bool, us []string) {
	g, m := anyGraph(directed, us...)
	i, j := sym.Choose("slot", len(us)), sym.Choose("peer", len(us))
	m.linkAny(g, i, j)
	m.check(g, "")
}

// C04_Directed: any directed graph over three UIDs of any bytes, then Link of any two slots (present, absent or the same) with any
// weight and attributes or none.
func C04_Directed() { c04(true, symUIDs(3)) }

// C04_Undirected: the same for the undirected graph.
func C04_Undirected() { c04(false, symUIDs(3)) }

// C04_Symbolic: any undirected graph over two distinct UIDs of any bytes (up to 40 of them).
func C04_Symbolic() { c04(false, symUIDs(2)) }

func c04Twice(directed bool) {
	g, m := newGraph(directed), newModel(directed, "a", "b")
	m.add(g, 0, "x")
	m.add(g, 1, "y")
	for k := 0; k < sym.Bound(3, 4); k++ {
		i := sym.Choose("slot", 2)
		m.linkAny(g, i, 1-i)
	}
	m.check(g, "")
}

// C04_TwiceDirected: three links between two nodes in any direction with any data.
func C04_TwiceDirected() { c04Twice(true) }

// C04_TwiceUndirected: the same for the undirected graph.
func C04_TwiceUndirected() { c04Twice(false) }

// C04_GraphWeight: the graph's own weight option does not become an edge's weight, and an unlinked pair has no edge.
func C04_GraphWeight() {
	w := sym.Float("weight")
	for _, directed := range []bool{true, false} {
		g := newGraphWith(directed, graph.WithWeight(w))
		m := newModel(directed, "a", "b")
		m.add(g, 0, "x")
		m.add(g, 1, "y")
		m.check(g, "")
		m.linkAny(g, 0, 1)
		m.check(g, "linked-")
	}
}
