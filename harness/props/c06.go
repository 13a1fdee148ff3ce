package props

import (
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/graph"
)

func c06(directed bool, us []string) {
	g, m := anyGraph(directed, us...)
	i, j := sym.Choose("slot", len(us)), sym.Choose("peer", len(us))
	m.unlinkAny(g, i, j)
	m.check(g, "")
	if i != j && m.has(i) && m.has(j) {
		sym.Reach("relink")
		m.linkAny(g, i, j)
		m.check(g, "relink-")
		m.unlinkAny(g, j, i)
		m.check(g, "reunlink-")
	}
}

// C06_Directed: any directed graph over three UIDs of any bytes, Unlink of any two slots, then Link and Unlink the other way.
func C06_Directed() { c06(true, symUIDs(3)) }

// C06_Undirected: the same for the undirected graph.
func C06_Undirected() { c06(false, symUIDs(3)) }

// C06_Symbolic: any directed graph over two distinct UIDs of any bytes (up to 40 of them), and a third, unknown one.
func C06_Symbolic() {
	us := symUIDs(3)
	g, m := anyGraph(sym.Bool("directed"), us[:2]...)
	if sym.Bool("unknown") {
		a, b := sym.Choose("slot", 2), sym.Bool("swap")
		f, t := uidOf(us[a]), uidOf(us[2])
		if b {
			f, t = t, f
		}
		sym.Assert(g.Unlink(ctx, f, t) == nil, "unknown-no-error")
		_, err := g.Node(ctx, uidOf(us[2]))
		sym.Assert(errors.Is(err, graph.ErrNodeNotFound), "unknown-stays")
	} else {
		i := sym.Choose("slot", 2)
		m.unlinkAny(g, i, 1-i)
	}
	m.check(g, "")
}
