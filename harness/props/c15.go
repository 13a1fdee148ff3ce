package props

import (
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/store"
)

// linkAny links any two UIDs, with or without attributes, and updates the reference.
func (m *smodel) linkAny(s S, g G, i, j int) {
	var opts []store.Option
	attr, n := "", 0
	if sym.Bool("attrs") {
		attr, n = sym.String("eattr", maxStr), 1
		opts = append(opts, store.WithAttrs(attrsOf(attrKey, attr)))
	}
	if m.get(i, j) != nil {
		opts = append(opts, m.spare...)
	}
	err := m.doLink(s, m.uid[i], m.uid[j], opts...)
	switch {
	case !m.has(i) || !m.has(j):
		sym.Reach("unknown")
		sym.Assert(errors.Is(err, store.ErrEntityNotFound), "unknown-entity")
	case i == j:
		sym.Reach("self")
		sym.Assert(err != nil, "self-link-error")
	case m.get(i, j) != nil:
		sym.Reach("again")
		sym.Assert(err == nil, "link-again-ok")
	default:
		sym.Reach("new")
		sym.Assert(err == nil, "link-ok")
		if err == nil {
			m.linked(g, i, j, attr, n)
		}
	}
}

func (m *smodel) unlinkAny(s S, i, j int) {
	err := m.doUnlink(s, m.uid[i], m.uid[j])
	sym.Assert(err == nil, "unlink-ok")
	m.unset(i, j)
}

// C15_Step: any store over three entities of any UIDs and any links, then any link or unlink, then all observations.
func C15_Step() {
	s, g, m := anyStore(sym.Choose("kind", 2), symUIDs(3)...)
	i, j := sym.Choose("from", 3), sym.Choose("to", 3)
	if sym.Bool("link") {
		m.linkAny(s, g, i, j)
	} else {
		m.unlinkAny(s, i, j)
	}
	m.check(s, g, "")
}

// C15_History: links, unlinks and deletes in any order on two entities with symbolic UIDs.
func C15_History() {
	kind := sym.Choose("kind", 2)
	s, g := newStore(kind)
	m := &smodel{newModel(kind == 0, symUIDs(2)...), map[int]bool{}, sym.Bool("bulk"), nil}
	m.put(s, g, 0, "x", true, false)
	m.put(s, g, 1, "y", true, false)
	for k := 0; k < sym.Bound(3, 5); k++ {
		i := sym.Choose("from", 2)
		switch sym.Choose("op", 3) {
		case 0:
			m.linkAny(s, g, i, 1-i)
		case 1:
			m.unlinkAny(s, i, 1-i)
		case 2:
			m.put(s, g, i, "z", true, true)
		}
	}
	m.check(s, g, "")
}
