package props

import "nsverif/sym"

// C19_Put: any set of links among three UIDs of any bytes, then a put of any pair, with or without upsert.
func C19_Put() {
	n := 3
	c, m := anyCache(symUIDs(n)...)
	i, j := sym.Choose("from", n), sym.Choose("to", n)
	if _, ok := m.links[[2]int{i, j}]; ok {
		sym.Reach("cached")
	} else {
		sym.Reach("new")
	}
	m.put(c, i, j, sym.Bool("upsert"))
	m.check(c)
}

// C19_Puts: four (thorough: five) puts of any pairs of three UIDs, with or without upsert.
func C19_Puts() {
	c, m := newCache(names...)
	m.bulk = sym.Bool("bulk")
	for k := 0; k < sym.Bound(3, 4); k++ {
		m.put(c, sym.Choose("from", 3), sym.Choose("to", 3), sym.Bool("upsert"))
	}
	m.check(c)
}

// C19_Symbolic: puts of pairs whose UIDs are any strings, equal or not.
func C19_Symbolic() {
	a, b := sym.String("from", maxUID), sym.String("to", maxUID)
	x, y := sym.String("from", maxUID), sym.String("to", maxUID)
	up := sym.Bool("upsert")
	c, m := newCache()
	m.bulk = sym.Bool("bulk")
	put := func(f, t string) {
		slot := func(u string) int {
			for i, v := range m.uid {
				if v == u {
					return i
				}
			}
			m.uid = append(m.uid, u)
			return len(m.uid) - 1
		}
		m.put(c, slot(f), slot(t), up)
	}
	put(a, b)
	put(x, y)
	m.check(c)
}
