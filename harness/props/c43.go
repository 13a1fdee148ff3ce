package props

import (
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/cache"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/store"
)

// C43_Graphs: any two graphs of either kind over the same two UIDs of any bytes; an operation on one, then both are observed.
func C43_Graphs() {
	us := symUIDs(2)
	a, b := sym.Bool("directed"), sym.Bool("directed")
	g, m := anyGraph(a, us...)
	h, n := anyGraph(b, us...)
	m.op(g, 2)
	m.check(g, "one-")
	n.check(h, "other-")
}

// C43_Stores: the same for two stores, each on a graph of its own.
func C43_Stores() {
	us := symUIDs(2)
	s, g, m := anyStore(sym.Choose("kind", 3), us...)
	t, h, n := anyStore(2, us...)
	switch sym.Choose("op", 4) {
	case 0:
		m.put(s, g, 0, "new", true, true)
	case 1:
		sym.Assert(s.Delete(ctx, uidOf(us[0])) == nil, "delete-ok")
		m.remove(0)
	case 2:
		err := s.Link(ctx, uidOf(us[0]), uidOf(us[1]), store.WithAttrs(attrsOf("k", "new")))
		if m.has(0) && m.has(1) {
			sym.Assert(err == nil, "link-ok")
			if m.get(0, 1) == nil {
				m.linked(g, 0, 1, "new", 1)
			}
		}
	case 3:
		sym.Assert(s.Unlink(ctx, uidOf(us[0]), uidOf(us[1])) == nil, "unlink-ok")
		m.unset(0, 1)
	}
	m.check(s, g, "one-")
	n.check(t, h, "other-")
}

// C43_Caches: any two caches of links between the same two UIDs of any bytes, and an operation on one.
func C43_Caches() {
	us := symUIDs(2)
	c, m := anyCache(us...)
	d, n := anyCache(us...)
	m.cacheOp(c)
	m.check(c)
	n.check(d)
}

// C43_Plans: two plans with any of the same two UIDs; one is added to, deleted from or both.
func C43_Plans() {
	us := symUIDs(2)
	var ps [2]*simple.Simple
	var in [2][]*mres
	for k := range ps {
		var err error
		ps[k], err = simple.NewSimple()
		must(err)
		in[k] = make([]*mres, 2)
		for i := range us {
			if sym.Bool("in") {
				r, m := anyResource(us[i])
				must(ps[k].Add(ctx, r))
				in[k][i] = m
			}
		}
	}
	if sym.Bool("add") {
		r, m := anyResource(us[0])
		sym.Assert(ps[0].Add(ctx, r) == nil, "add-ok")
		in[0][0] = m
	}
	if sym.Bool("delete") {
		sym.Assert(ps[0].Delete(ctx, uidOf(us[1])) == nil, "delete-ok")
		in[0][1] = nil
	}
	for k := range ps {
		checkPlan(ps[k], us, in[k])
	}
}

// own makes something with attributes, without naming any: k is what it is made of and how.
func own(k int) attrs.Attrs {
	e, err := entity.New("type")
	must(err)
	g := newGraph(sym.Bool("directed"))
	node := func(u string) *memory.Node {
		x, err := entity.New("type", entity.WithUID(uidOf(u)))
		must(err)
		n, err := g.NewNode(ctx, x)
		must(err)
		return n.(*memory.Node)
	}
	switch k {
	case 0:
		return memattrs.New()
	case 1:
		return memattrs.NewFromMap(nil)
	case 2:
		return e.Attrs()
	case 3:
		r, err := entity.NewResource("type", "name", "group", "v", "kind", true)
		must(err)
		return r.Attrs()
	case 4:
		o, err := entity.NewObject("type", "name", "ns", nil)
		must(err)
		return o.Attrs()
	case 5:
		l, err := link.New(uidOf("a"), uidOf("b"))
		must(err)
		return l.Attrs()
	case 6:
		n, err := g.NewNode(ctx, e)
		must(err)
		return n.Attrs()
	case 7:
		n, err := memory.NewNode(1, e)
		must(err)
		return n.Attrs()
	case 8:
		x, err := memory.NewEdge(node("a"), node("b"))
		must(err)
		return x.Attrs()
	case 9:
		for _, u := range []string{"a", "b"} {
			must(g.AddNode(ctx, node(u)))
		}
		x, err := g.Link(ctx, uidOf("a"), uidOf("b"))
		must(err)
		return x.Attrs()
	}
	var t jtarget
	t.kind = []int{wEntity, wResource, wObject, wLink}[k-10]
	must(t.unmarshal([]byte("{}")))
	switch t.kind {
	case wEntity:
		return t.e.Attrs()
	case wResource:
		return t.r.Attrs()
	case wObject:
		return t.o.Attrs()
	}
	return t.l.Attrs()
}

// C43_Attrs: two sets of attributes, new, of two things made alike without naming any, or of two things decoded from a text that has
// none, with any sets of any keys to either.
func C43_Attrs() {
	var as [2]attrs.Attrs
	kind := sym.Choose("kind", 14)
	for k := range as {
		as[k] = own(kind)
	}
	ms := [2]*amodel{{}, {}}
	was := [2]int{}
	for k := range as {
		keys, err := as[k].Keys(ctx)
		must(err)
		was[k] = len(keys)
		if sym.Bool("set") {
			key, v := sym.String("key", maxStr), sym.String("val", maxStr)
			for _, o := range keys {
				sym.Assume(key != o)
			}
			sym.Assert(as[k].Set(ctx, key, v) == nil, "set-ok")
			ms[k].set(key, v)
		}
	}
	for k := range as {
		sym.Assert(nKeys(as[k], was[k]+len(ms[k].keys)), "own-keys")
		for i, key := range ms[k].keys {
			sym.Assert(attrIs(as[k], key, ms[k].vals[i]), "own-value")
		}
	}
}

// C43_Brokers: two open brokers with a message each on the same topic; one is closed, its context ends, it is emptied, filled
// or unsubscribed from, or opened again; the other has exactly its own message and works.
func C43_Brokers() {
	a, cancel := opened(1)
	b, bcancel := opened(1)
	defer cancel()
	defer bcancel()
	sa, sb := subscribe(a, "x"), subscribe(b, "x")
	sym.Assert(a.Pub(ctx, "x", msg("a")) == nil, "accepted")
	sym.Assert(b.Pub(ctx, "x", msg("b")) == nil, "accepted")
	for k := 0; k < 2; k++ {
		switch sym.Choose("op", 7) {
		case 0:
			must(a.Close())
		case 1:
			cancel()
			sym.Quiesce()
		case 2:
			must(sa.Unsubscribe(ctx))
		case 3:
			m, n, err := recv(sa, short)
			sym.Assert(err != nil || n == 1 && msgIs(m, "a"), "own-message")
		case 4:
			err := a.Pub(ctx, "x", msg("a"))
			sym.Assert(err == nil || errors.Is(err, broker.ErrTimeout) || errors.Is(err, broker.ErrNotConnected), "publish")
		case 5:
			must(a.Open(ctx))
		case 6:
			_, err := a.Sub(ctx, "x")
			sym.Assert(err == nil || errors.Is(err, broker.ErrNotConnected), "subscribe")
		}
	}
	sym.Assert(errors.Is(b.Pub(ctx, "x", msg("c")), broker.ErrTimeout), "still-full")
	m, n, err := recv(sb, short)
	sym.Assert(err == nil && n == 1 && msgIs(m, "b"), "its-own-message")
	_, n, err = recv(sb, short)
	sym.Assert(n == 0 && errors.Is(err, broker.ErrTimeout), "nothing-else")
	working(b, "", "x", "y")
}

// C43_Concurrent: two goroutines, each making and using instances of its own of everything, at most 2 (thorough: 3)
// preemptions: nothing races, and each sees only its own.
func C43_Concurrent() {
	sym.Preempt(sym.Bound(2, 3))
	kind := sym.Choose("kind", 6)
	one := func(v string) func() {
		return func() {
			switch kind {
			case 0:
				g := newGraph(v == "v")
				for _, u := range []string{"a", "b"} {
					e, err := entity.New(v, entity.WithUID(uidOf(u)))
					must(err)
					n, err := g.NewNode(ctx, e)
					must(err)
					must(g.AddNode(ctx, n))
				}
				_, err := g.Link(ctx, uidOf("a"), uidOf("b"), graph.WithAttrs(attrsOf("k", v)))
				must(err)
				e, err := g.Edge(ctx, uidOf("a"), uidOf("b"))
				sym.Assert(err == nil && attrIs(e.Attrs(), "k", v), "own-edge")
				ns, err := g.Nodes(ctx)
				sym.Assert(err == nil && len(ns) == 2, "own-nodes")
				_, err = g.DOT()
				must(err)
			case 1:
				c, _ := newCache()
				must(c.Put(ctx, mkLinkAttr("a", "b", "l", v)))
				ls, err := c.GetFrom(ctx, uidOf("a"))
				sym.Assert(err == nil && len(ls) == 1 && attrIs(ls[0].Attrs(), "k", v), "own-link")
				bl, err := c.BulkGetTo(ctx, uids([]string{"b"}, 0))
				sym.Assert(err == nil && len(bl) == 1, "own-links")
				must(c.BulkPut(ctx, []cache.Link{mkLinkAttr("a", "b", "l", v)}))
				must(c.Clear(ctx))
			case 2:
				p, err := simple.NewSimple()
				must(err)
				must(p.Add(ctx, resource("r", v)))
				r, err := p.Get(ctx, uidOf("r"))
				sym.Assert(err == nil && r != nil, "own-resource")
				all, err := p.GetAll(ctx)
				sym.Assert(err == nil && len(all) == 1, "own-resources")
			case 3:
				s, _ := newStore(2)
				e, err := entity.New(v, entity.WithUID(uidOf("a")))
				must(err)
				must(s.Add(ctx, e, store.WithAttrs(attrsOf("k", v))))
				x, err := s.Get(ctx, uidOf("a"))
				sym.Assert(err == nil && x.Type() == v, "own-entity")
			case 4:
				a := memattrs.New()
				must(a.Set(ctx, "k", v))
				b, err := memattrs.NewCopyFrom(ctx, a)
				must(err)
				sym.Assert(attrIs(b, "k", v) && nKeys(b, 1), "own-attrs")
			case 5:
				w := &wire{kind: wEntity, uid: v, typ: v, attr: &amodel{}}
				w.attr.set("k", v)
				w.a = attrsFrom(w.attr)
				w.roundTrip()
			}
		}
	}
	sym.Par(one("v"), one("w"))
}
