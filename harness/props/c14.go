package props

import (
	"nsverif/sym"
)

// C14_Upsert: any store over three entities of any UIDs and any links, then an upsert of any UID with or without attributes.
func C14_Upsert() {
	s, g, m := anyStore(sym.Choose("kind", 2), symUIDs(3)...)
	i := sym.Choose("which", 3)
	if m.has(i) {
		sym.Reach("replaces")
	} else {
		sym.Reach("adds")
	}
	m.put(s, g, i, sym.String("nattr", maxStr), sym.Bool("attrs"), true)
	m.check(s, g, "")
}

// C14_Twice: two upserts with other operations between and after them.
func C14_Twice() {
	s, g, m := anyStore(sym.Choose("kind", 2), "a", "b")
	for k := 0; k < sym.Bound(3, 4); k++ {
		i := sym.Choose("which", 2)
		switch sym.Choose("op", 3) {
		case 0, 1:
			m.put(s, g, i, sym.String("nattr", maxStr), true, true)
		case 2:
			m.del(s, i)
		}
	}
	m.check(s, g, "")
}
