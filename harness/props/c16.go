package props

import (
	"context"
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// storeErr is a short name of a store error.
func storeErr(err error) string {
	switch {
	case errors.Is(err, store.ErrEntityNotFound):
		return "not-found"
	case errors.Is(err, store.ErrAlreadyExists):
		return "exists"
	}
	return errName(err)
}

// storeState describes a store completely, apart from generated identifiers.
func storeState(s S, g G) string {
	str := ""
	for i, u := range names {
		e, err := s.Get(ctx, uidOf(u))
		str += u + storeErr(err)
		if err == nil {
			k, err := e.Attrs().Get(ctx, "k")
			must(err)
			str += e.UID().String() + e.Type() + k
		}
		for j, v := range names {
			if i == j {
				continue
			}
			x, err := g.Edge(ctx, uidOf(u), uidOf(v))
			str += "," + errName(err)
			if err == nil {
				k, err := x.Attrs().Get(ctx, "k")
				must(err)
				str += edgeMark(x) + k
			}
		}
		str += ";"
	}
	return str + nodesState(g) + edgesState(g)
}

// twin makes two equal stores with any entities and any links in them.
func twin(kind int) (S, G, S, G) {
	s, g := newStore(kind)
	t, h := newStore(kind)
	nodes := sym.Choose("nodes", 8)
	for i := range names {
		if nodes&(1<<i) != 0 {
			e, _ := newEntity(types[i], names[i])
			must(s.Add(ctx, e, store.WithAttrs(attrsOf("k", types[i]))))
			must(t.Add(ctx, e, store.WithAttrs(attrsOf("k", types[i]))))
		}
	}
	edges := [][2]int{{0, 1}, {1, 2}, {2, 0}, {1, 0}}
	for _, e := range edges {
		if nodes&(1<<e[0]) != 0 && nodes&(1<<e[1]) != 0 && sym.Bool("edge") {
			for _, x := range []S{s, t} {
				must(x.Link(ctx, uidOf(names[e[0]]), uidOf(names[e[1]]), store.WithAttrs(attrsOf("k", "old"))))
			}
		}
	}
	return s, g, t, h
}

// list is any list of up to n of the UIDs, repeats included.
func list(n int) []int {
	var l []int
	for k := sym.Choose("len", n+1); k > 0; k-- {
		l = append(l, sym.Choose("item", len(names)))
	}
	return l
}

// C16_Add: BulkAdd of up to three (thorough: four) entities, with or without upsert, against the same single Adds.
func C16_Add() {
	s, g, t, h := twin(1)
	var opts []store.Option
	if sym.Bool("upsert") {
		opts = append(opts, store.WithUpsert())
	}
	opts = append(opts, store.WithAttrs(attrsOf("k", "new")))
	var es []store.Entity
	for k, i := range list(sym.Bound(3, 4)) {
		e, _ := newEntity(types[5+k], names[i])
		es = append(es, e)
	}
	bulk := s.BulkAdd(ctx, es, opts...)
	var single error
	for _, e := range es {
		if single = t.Add(ctx, e, opts...); single != nil {
			sym.Reach("stopped")
			break
		}
	}
	sym.Assert(storeErr(bulk) == storeErr(single), "same-error")
	sym.Assert(storeState(s, g) == storeState(t, h), "same-state")
}

// C16_Delete: BulkDelete of up to three UIDs, known or not.
func C16_Delete() {
	s, g, t, h := twin(sym.Choose("kind", 2))
	l := list(sym.Bound(3, 4))
	bulk := s.BulkDelete(ctx, uids(names, l...))
	for _, i := range l {
		must(t.Delete(ctx, uidOf(names[i])))
	}
	sym.Assert(bulk == nil, "no-error")
	sym.Assert(storeState(s, g) == storeState(t, h), "same-state")
}

// C16_Link: BulkLink from any UID to up to three, unknown ones and itself included.
func C16_Link() {
	s, g, t, h := twin(sym.Choose("kind", 2))
	from := sym.Choose("from", 3)
	l := list(sym.Bound(3, 4))
	a := store.WithAttrs(attrsOf("k", "new"))
	bulk := s.BulkLink(ctx, uidOf(names[from]), uids(names, l...), a)
	var single error
	for _, i := range l {
		if single = t.Link(ctx, uidOf(names[from]), uidOf(names[i]), a); single != nil {
			sym.Reach("stopped")
			break
		}
	}
	sym.Assert(storeErr(bulk) == storeErr(single), "same-error")
	sym.Assert(storeState(s, g) == storeState(t, h), "same-state")
}

// C16_Unlink: BulkUnlink from any UID to up to three.
func C16_Unlink() {
	s, g, t, h := twin(sym.Choose("kind", 2))
	from := sym.Choose("from", 3)
	l := list(sym.Bound(3, 4))
	bulk := s.BulkUnlink(ctx, uidOf(names[from]), uids(names, l...))
	for _, i := range l {
		must(t.Unlink(ctx, uidOf(names[from]), uidOf(names[i])))
	}
	sym.Assert(bulk == nil, "no-error")
	sym.Assert(storeState(s, g) == storeState(t, h), "same-state")
}

// C16_Get: BulkGet of up to three (thorough: four) UIDs, in any order and with repeats.
func C16_Get() {
	s, g, m := anyStore(1, names...)
	l := list(sym.Bound(3, 4))
	es, err := s.BulkGet(ctx, uids(names, l...))
	missing := false
	for _, i := range l {
		missing = missing || !m.has(i)
	}
	if missing {
		sym.Reach("missing")
		sym.Assert(len(es) == 0 && errors.Is(err, store.ErrEntityNotFound), "missing-reported")
	} else {
		sym.Reach("all")
		sym.Assert(err == nil && len(es) == len(l), "one-each")
		if err == nil && len(es) == len(l) {
			for k, i := range l {
				sym.Assert(es[k] != nil && m.entityIs(es[k], i), "in-order")
			}
		}
	}
	m.check(s, g, "")
}

// failing is a graph whose calls about one UID (for links: to it) fail.
type failing struct {
	G
	bad *string
	err error
}

var errFault = errors.New("fault")

// faults are the errors a graph may fail with.
var faults = []error{errFault, graph.ErrNodeNotFound, graph.ErrEdgeNotExist, graph.ErrDuplicateNode, graph.ErrInvalidNode, context.Canceled}

func (f failing) fault(u uuid.UID) error {
	if u.String() == *f.bad {
		return f.err
	}
	return nil
}

func (f failing) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) error {
	if err := f.fault(n.UID()); err != nil {
		return err
	}
	return f.G.AddNode(ctx, n, opts...)
}

func (f failing) Node(ctx context.Context, u uuid.UID) (graph.Node, error) {
	if err := f.fault(u); err != nil {
		return nil, err
	}
	return f.G.Node(ctx, u)
}

func (f failing) RemoveNode(ctx context.Context, u uuid.UID, opts ...graph.Option) error {
	if err := f.fault(u); err != nil {
		return err
	}
	return f.G.RemoveNode(ctx, u, opts...)
}

func (f failing) Link(ctx context.Context, a, b uuid.UID, opts ...graph.Option) (graph.Edge, error) {
	if err := f.fault(b); err != nil {
		return nil, err
	}
	return f.G.Link(ctx, a, b, opts...)
}

func (f failing) Unlink(ctx context.Context, a, b uuid.UID, opts ...graph.Option) error {
	if err := f.fault(b); err != nil {
		return err
	}
	return f.G.Unlink(ctx, a, b, opts...)
}

// C16_Faults: every bulk call over a graph that fails for one of the UIDs, against the single calls over such a graph: the error comes back and nothing after it is done.
func C16_Faults() {
	fault := faults[sym.Choose("fault", len(faults))]
	mk := func() (S, G, *string) {
		bad := ""
		g := newGraph(false)
		s, err := memstore.NewStore(memstore.WithGraph(failing{g, &bad, fault}))
		must(err)
		for i := range names {
			e, _ := newEntity(types[i], names[i])
			must(s.Add(ctx, e))
		}
		must(s.Link(ctx, uidOf("a"), uidOf("b")))
		return s, g, &bad
	}
	s, g, x := mk()
	t, h, y := mk()
	bad := names[sym.Choose("bad", 3)]
	*x, *y = bad, bad
	l := list(3)
	from := uidOf(names[sym.Choose("from", 3)])
	var bulk, single error
	var got []store.Entity
	op := sym.Choose("op", 6)
	switch op {
	case 0, 5:
		var es []store.Entity
		for k, i := range l {
			e, _ := newEntity(types[5+k], names[i])
			es = append(es, e)
		}
		var opts []store.Option
		if op == 0 {
			opts = append(opts, store.WithUpsert())
		}
		bulk = s.BulkAdd(ctx, es, opts...)
		for _, e := range es {
			if single == nil {
				single = t.Add(ctx, e, opts...)
			}
		}
	case 1:
		got, bulk = s.BulkGet(ctx, uids(names, l...))
		for _, i := range l {
			if single == nil {
				_, single = t.Get(ctx, uidOf(names[i]))
			}
		}
		sym.Assert(bulk == nil || len(got) == 0, "no-entities-with-error")
	case 2:
		bulk = s.BulkDelete(ctx, uids(names, l...))
		for _, i := range l {
			if single == nil {
				single = t.Delete(ctx, uidOf(names[i]))
			}
		}
	case 3:
		bulk = s.BulkLink(ctx, from, uids(names, l...))
		for _, i := range l {
			if single == nil {
				single = t.Link(ctx, from, uidOf(names[i]))
			}
		}
	case 4:
		bulk = s.BulkUnlink(ctx, from, uids(names, l...))
		for _, i := range l {
			if single == nil {
				single = t.Unlink(ctx, from, uidOf(names[i]))
			}
		}
	}
	if errors.Is(single, fault) {
		sym.Reach("fault")
		sym.Assert(errors.Is(bulk, fault), "fault-returned")
	}
	sym.Assert(storeErr(bulk) == storeErr(single), "same-error")
	asked, self := false, false
	for k, i := range l {
		asked = asked || names[i] == bad
		self = self || op == 3 && names[i] == from.String() // fails for another reason
		self = self || op == 5 && k == 0 && names[i] != bad
	}
	if asked && !self && (fault == errFault || fault == context.Canceled) {
		sym.Assert(errors.Is(single, fault), "fault-of-the-graph-returned")
	}
	*x, *y = "", ""
	sym.Assert(storeState(s, g) == storeState(t, h), "same-state")
}
