package props

import (
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"

	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
)

// S is what the in-memory store offers.
type S = *memstore.Memory

// smodel is the reference store: the reference graph, and which entities came with attributes.
type smodel struct {
	*gmodel
	bare  map[int]bool
	bulk  bool           // the operations of several entities stand in for the single ones
	spare []store.Option // options for calls that have no use for them
}

// the operations of the store, each with one entity

func (m *smodel) doAdd(s S, e store.Entity, opts ...store.Option) error {
	if m.bulk {
		return s.BulkAdd(ctx, []store.Entity{e}, opts...)
	}
	return s.Add(ctx, e, opts...)
}

func (m *smodel) doGet(s S, u string) (store.Entity, error) {
	if m.bulk {
		es, err := s.BulkGet(ctx, uidsOf(u), m.spare...)
		if err != nil || len(es) != 1 {
			sym.Assert(err != nil, "get-one")
			return nil, err
		}
		return es[0], err
	}
	return s.Get(ctx, uidOf(u), m.spare...)
}

func (m *smodel) doDelete(s S, u string) error {
	if m.bulk {
		return s.BulkDelete(ctx, uidsOf(u), m.spare...)
	}
	return s.Delete(ctx, uidOf(u), m.spare...)
}

func (m *smodel) doLink(s S, u, v string, opts ...store.Option) error {
	if m.bulk {
		return s.BulkLink(ctx, uidOf(u), uidsOf(v), opts...)
	}
	return s.Link(ctx, uidOf(u), uidOf(v), opts...)
}

func (m *smodel) doUnlink(s S, u, v string) error {
	if m.bulk {
		return s.BulkUnlink(ctx, uidOf(u), uidsOf(v), m.spare...)
	}
	return s.Unlink(ctx, uidOf(u), uidOf(v), m.spare...)
}

func uidsOf(us ...string) []uuid.UID {
	var l []uuid.UID
	for _, u := range us {
		l = append(l, uidOf(u))
	}
	return l
}

// newStore makes a store: on a directed graph, an undirected graph, or the graph it takes by default.
func newStore(kind int) (S, G) {
	var opts []memstore.Option
	switch kind {
	case 0:
		opts = append(opts, memstore.WithGraph(newGraph(true)))
	case 1:
		opts = append(opts, memstore.WithGraph(newGraph(false)))
	}
	s, err := memstore.NewStore(opts...)
	must(err)
	g, err := s.Graph()
	must(err)
	return s, g.(G)
}

// anyStore is a store with any subset of the UIDs in it and any links between them.
func anyStore(kind int, uids ...string) (S, G, *smodel) {
	s, g := newStore(kind)
	m := &smodel{newModel(kind == 0, uids...), map[int]bool{}, sym.Bool("bulk"), nil}
	for i := range uids {
		if sym.Bool("node") {
			m.put(s, g, i, sym.String("nattr", maxStr), true, false)
		}
	}
	for i := range uids {
		for j := range uids {
			if i == j || !m.has(i) || !m.has(j) || m.get(i, j) != nil || !m.directed && i > j {
				continue
			}
			if sym.Bool("edge") {
				attr := sym.String("eattr", maxStr)
				must(m.doLink(s, uids[i], uids[j], store.WithAttrs(attrsOf(attrKey, attr))))
				m.linked(g, i, j, attr, 1)
			}
		}
	}
	return s, g, m
}

// linked notes the edge that a Link of i and j must have made.
func (m *smodel) linked(g G, i, j int, attr string, n int) {
	e, err := g.Edge(ctx, uidOf(m.uid[i]), uidOf(m.uid[j]))
	sym.Assert(err == nil && e != nil, "link-made-an-edge")
	if err != nil {
		return
	}
	m.set(i, j, &medge{uid: e.UID().String(), weight: graph.DefaultWeight, attr: attr, nattr: n})
}

// put adds slot i to the store, which must accept it, and notes it in the reference.
func (m *smodel) put(s S, g G, i int, attr string, with, upsert bool) {
	e, typ := m.entity(i)
	var opts []store.Option
	if with {
		opts = append(opts, store.WithAttrs(attrsOf(attrKey, attr)))
	}
	if upsert {
		opts = append(opts, store.WithUpsert())
	}
	err := m.doAdd(s, e, opts...)
	sym.Assert(err == nil, "add-accepted")
	if err != nil {
		return
	}
	m.noted(g, i, typ, attr, with)
}

func (m *smodel) noted(g G, i int, typ, attr string, with bool) {
	n, err := g.Node(ctx, uidOf(m.uid[i]))
	sym.Assert(err == nil, "added-is-in-graph")
	if err != nil {
		return
	}
	if !with {
		attr = ""
	}
	m.node[i] = &mnode{id: n.(*memgraph.Node).ID(), typ: typ, attr: attr, dot: m.uid[i]}
	m.bare[i] = !with
}

// entityIs compares a stored entity with the reference.
func (m *smodel) entityIs(e store.Entity, i int) bool {
	n := 1
	if m.bare[i] {
		n = 0
	}
	r := m.node[i]
	return sym.And(e.UID().String() == m.uid[i], e.Type() == r.typ, nKeys(e.Attrs(), n), attrIs(e.Attrs(), attrKey, r.attr))
}

// check compares the store, and the graph it shows, with the reference.
func (m *smodel) check(s S, g G, where string) {
	for i := range m.node {
		e, err := m.doGet(s, m.uid[i])
		if m.has(i) {
			sym.Assert(err == nil && e != nil, where+"get-finds")
			if err == nil && e != nil {
				sym.Assert(m.entityIs(e, i), where+"get-entity")
			}
		} else {
			sym.Assert(e == nil && errors.Is(err, store.ErrEntityNotFound), where+"get-missing")
		}
	}
	m.gmodel.check(g, where)
}

func uids(us []string, order ...int) []uuid.UID {
	var l []uuid.UID
	for _, i := range order {
		l = append(l, uidOf(us[i]))
	}
	return l
}
