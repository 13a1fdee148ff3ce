package props

import (
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/store"
)

// plainAdd adds slot i without upsert, with or without attributes.
func (m *smodel) plainAdd(s S, g G, i int) {
	if !m.has(i) {
		m.put(s, g, i, sym.String("nattr", maxStr), sym.Bool("attrs"), false)
		return
	}
	e, _ := m.entity(i)
	var opts []store.Option
	if sym.Bool("attrs") {
		opts = append(opts, store.WithAttrs(attrsOf(attrKey, sym.String("nattr", maxStr))))
	}
	err := m.doAdd(s, e, opts...)
	sym.Reach("exists")
	sym.Assert(errors.Is(err, store.ErrAlreadyExists), "existing-rejected")
}

func (m *smodel) del(s S, i int) {
	err := m.doDelete(s, m.uid[i])
	sym.Assert(err == nil, "delete-ok")
	m.remove(i)
}

// C13_Step: any store over up to three entities of any UIDs and any links, then any Add or Delete, then every lookup and listing.
func C13_Step() {
	s, g, m := anyStore(sym.Choose("kind", 3), symUIDs(3)...)
	i := sym.Choose("which", 3)
	if sym.Bool("add") {
		m.plainAdd(s, g, i)
	} else {
		m.del(s, i)
	}
	m.check(s, g, "")
}

// C13_History: four (thorough: five) operations of any kind on an empty store, symbolic UIDs.
func C13_History() {
	s, g := newStore(sym.Choose("kind", 2))
	m := &smodel{newModel(true, symUIDs(2)...), map[int]bool{}, sym.Bool("bulk"), nil}
	for k := 0; k < sym.Bound(4, 5); k++ {
		i := sym.Choose("which", 2)
		switch sym.Choose("op", 3) {
		case 0:
			m.plainAdd(s, g, i)
		case 1:
			m.del(s, i)
		case 2:
			m.put(s, g, i, sym.String("nattr", maxStr), true, true)
		}
	}
	m.check(s, g, "")
}

// C13_Unknown: looking up and deleting UIDs that were never added, of any bytes (up to 40).
func C13_Unknown() {
	s, g := newStore(2)
	us := symUIDs(2)
	m := &smodel{newModel(false, us...), map[int]bool{}, sym.Bool("bulk"), nil}
	m.put(s, g, 0, "x", true, false)
	m.del(s, 1)
	m.check(s, g, "")
}
