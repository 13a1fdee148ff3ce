package props

import "nsverif/sym"

func c03(directed bool, us []string) {
	g, m := anyGraph(directed, us...)
	i := sym.Choose("slot", len(us)+1)
	if i == len(us) {
		sym.Reach("unknown")
		sym.Assert(g.RemoveNode(ctx, uidOf(unknownUID)) == nil, "unknown-no-error")
	} else {
		m.removeAny(g, i)
	}
	m.check(g, "")
	if i < len(us) {
		// the same UID again: a node without edges
		m.add(g, i, sym.String("nattr", maxStr))
		m.check(g, "again-")
		j := (i + 1) % len(us)
		if m.has(j) {
			m.linkAny(g, i, j)
			m.check(g, "relink-")
		}
	}
}

// C03_Directed: any directed graph over three UIDs of any bytes, removal of any known or unknown UID, then the UID added and linked again.
func C03_Directed() { c03(true, symUIDs(3)) }

// C03_Undirected: the same for the undirected graph.
func C03_Undirected() { c03(false, symUIDs(3)) }

// C03_Symbolic: any directed graph over two distinct UIDs of any bytes (up to 40 of them).
func C03_Symbolic() { c03(true, symUIDs(2)) }

// C03_Twice: two removals in any directed graph over three UIDs of any bytes.
func C03_Twice() {
	g, m := anyGraph(true, symUIDs(3)...)
	m.removeAny(g, sym.Choose("slot", 3))
	m.removeAny(g, sym.Choose("slot", 3))
	m.check(g, "")
}
