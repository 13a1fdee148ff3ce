package props

import (
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
)

func c02Step(directed bool, us []string) {
	g, m := anyGraph(directed, us...)
	i := sym.Choose("slot", len(us))
	switch sym.Choose("how", 3) {
	case 0:
		m.addAny(g, i, true)
	case 1:
		m.addAny(g, i, false)
	case 2:
		var opts []graph.Option
		if sym.Bool("upsert") {
			opts = append(opts, graph.WithUpsert())
		}
		sym.Reach("invalid")
		sym.Assert(errors.Is(g.AddNode(ctx, otherNode{uidOf(us[i])}, opts...), graph.ErrInvalidNode), "invalid-rejected")
	}
	m.check(g, "")
}

// C02_AddDirected: any directed graph over three UIDs of any bytes, then AddNode of a node with any of the UIDs and any internal ID,
// or of a foreign node type, with or without upsert.
func C02_AddDirected() { c02Step(true, symUIDs(3)) }

// C02_AddUndirected: the same for the undirected graph.
func C02_AddUndirected() { c02Step(false, symUIDs(3)) }

// C02_AddSymbolic: any undirected graph over two distinct UIDs of any bytes (up to 40 of them).
func C02_AddSymbolic() { c02Step(false, symUIDs(2)) }

// c02Twice upserts a node with all its edges twice, with any IDs.
func c02Twice(directed bool) {
	g, m := newGraph(directed), newModel(directed, symUIDs(3)...)
	for i := 0; i < 3; i++ {
		m.add(g, i, sym.String("nattr", maxStr))
	}
	m.anyEdges(g)
	for k := 0; k < 2; k++ {
		i := sym.Choose("slot", sym.Bound(2-k, 3))
		e, typ := m.entity(i)
		attr := sym.String("nattr", maxStr)
		n, err := memory.NewNode(sym.Int64("id"), e, graph.WithAttrs(attrsOf(attrKey, attr)))
		must(err)
		clash := false
		for j := range m.node {
			if j != i && m.node[j].id == n.ID() {
				clash = true
			}
		}
		err = g.AddNode(ctx, n, graph.WithUpsert())
		if clash {
			sym.Assert(errors.Is(err, graph.ErrDuplicateNode), "id-of-other-node")
		} else {
			sym.Assert(err == nil, "upsert-accepted")
			m.node[i] = &mnode{id: n.ID(), typ: typ, attr: attr}
		}
	}
	m.check(g, "")
	// the replaced node takes part in later operations
	i := sym.Choose("then", sym.Bound(1, 3))
	j := (i + 1) % 3
	switch sym.Choose("op", 3) {
	case 0:
		if m.get(i, j) == nil {
			m.link(g, i, j, sym.Float("weight"), "x")
		}
	case 1:
		m.unlinkAny(g, i, j)
	case 2:
		m.removeAny(g, i)
	}
	m.check(g, "then-")
}

// C02_TwiceDirected: two upserts with any internal IDs in any directed graph over three nodes, then a link, unlink or
// removal (quick: the second upsert and what follows are about the first node).
func C02_TwiceDirected() { c02Twice(true) }

// C02_TwiceUndirected: the same for the undirected graph.
func C02_TwiceUndirected() { c02Twice(false) }
