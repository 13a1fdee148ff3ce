package props

import (
	"context"
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/broker"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/store"
)

// Harnesses in which the very same objects are handed over again and again.

// sameEntities is a history over a store of two entity values, given again and again: any adds, upserts (with attributes or
// without), deletes and links.
func sameEntities() {
	kind := sym.Choose("kind", 2)
	s, g := newStore(kind)
	m := &smodel{newModel(kind == 0, "a", "b"), map[int]bool{}, sym.Bool("bulk"), nil}
	var ents [2]store.Entity
	var typs [2]string
	for i := range ents {
		ents[i], typs[i] = m.entity(i)
	}
	for k := 0; k < sym.Bound(3, 4); k++ {
		i := sym.Choose("which", 2)
		switch op := sym.Choose("op", 4); op {
		case 0, 1:
			var opts []store.Option
			with, attr := sym.Bool("attrs"), sym.String("nattr", maxStr)
			if with {
				opts = append(opts, store.WithAttrs(attrsOf(attrKey, attr)))
			}
			if op == 1 {
				opts = append(opts, store.WithUpsert())
			}
			err := m.doAdd(s, ents[i], opts...)
			if op == 0 && m.has(i) {
				sym.Assert(errors.Is(err, store.ErrAlreadyExists), "add-existing")
				break
			}
			sym.Assert(err == nil, "add-accepted")
			m.noted(g, i, typs[i], attr, with)
		case 2:
			m.del(s, i)
		case 3:
			j := 1 - i
			err := m.doLink(s, m.uid[i], m.uid[j])
			if !m.has(i) || !m.has(j) {
				sym.Assert(errors.Is(err, store.ErrEntityNotFound), "link-missing")
				break
			}
			sym.Assert(err == nil, "link-ok")
			if m.get(i, j) == nil {
				m.linked(g, i, j, "", 0)
			}
		}
		m.check(s, g, "")
	}
}

// C13_SameEntity: three (thorough: four) adds, upserts, deletes and links of two entity values that are given again and again.
func C13_SameEntity() { sameEntities() }

// C14_SameEntity: the same, and every upsert counts.
func C14_SameEntity() { sameEntities() }

// C02_SameNode: three (thorough: four) adds, upserts, removals and links of a pool of three node values, two of them with one UID and any IDs,
// each given again and again.
func C02_SameNode() {
	directed := sym.Bool("directed")
	g, m := newGraph(directed), newModel(directed, "a", "b")
	slot := []int{0, 1, 0}
	pool := make([]*memory.Node, 3)
	refs := make([]*mnode, 3)
	for k, i := range slot {
		e, typ := m.entity(i)
		attr := sym.String("nattr", maxStr)
		n, err := memory.NewNode(sym.Int64("id"), e, graph.WithAttrs(attrsOf(attrKey, attr)))
		must(err)
		pool[k], refs[k] = n, &mnode{id: n.ID(), typ: typ, attr: attr}
	}
	for k := 0; k < sym.Bound(3, 4); k++ {
		x := sym.Choose("node", 3)
		i := slot[x]
		switch op := sym.Choose("op", 4); op {
		case 0, 1:
			var opts []graph.Option
			if op == 1 {
				opts = append(opts, graph.WithUpsert())
			}
			err := g.AddNode(ctx, pool[x], opts...)
			if m.has(i) && op == 0 || m.has(1-i) && m.node[1-i].id == pool[x].ID() {
				sym.Assert(errors.Is(err, graph.ErrDuplicateNode), "duplicate-rejected")
				break
			}
			sym.Assert(err == nil, "add-accepted")
			m.node[i] = refs[x]
		case 2:
			m.removeAny(g, i)
		case 3:
			if m.has(0) && m.has(1) && m.get(i, 1-i) == nil {
				m.link(g, i, 1-i, sym.Float("weight"), "x")
			}
		}
		m.check(g, "")
	}
}

// sameLinks is a history over a cache of three link values, given again and again.
func sameLinks() {
	c, m := newCache("a", "b")
	ends := [][2]int{{0, 1}, {0, 1}, {1, 0}}
	ls := make([]cache.Link, len(ends))
	refs := make([]clink, len(ends))
	for k, x := range ends {
		ls[k], refs[k] = m.link(x[0], x[1])
	}
	for k := 0; k < sym.Bound(3, 4); k++ {
		switch op := sym.Choose("op", 4); op {
		case 0, 1:
			x := sym.Choose("link", 3)
			var opts []cache.Option
			if op == 1 {
				opts = append(opts, cache.WithUpsert())
			}
			sym.Assert(c.Put(ctx, ls[x], opts...) == nil, "put-ok")
			m.noted(ends[x][0], ends[x][1], refs[x], op == 1)
		case 2:
			i := sym.Choose("uid", 2)
			m.del(c, m.uid[i])
			m.drop(i)
		case 3:
			// several at once, one of them twice
			x, y := sym.Choose("link", 3), sym.Choose("link", 3)
			up := sym.Bool("upsert")
			var opts []cache.Option
			if up {
				opts = append(opts, cache.WithUpsert())
			}
			sym.Assert(c.BulkPut(ctx, []cache.Link{ls[x], ls[y], ls[x]}, opts...) == nil, "bulk-put-ok")
			for _, z := range []int{x, y, x} {
				m.noted(ends[z][0], ends[z][1], refs[z], up)
			}
		}
		m.check(c)
	}
}

// C19_SameLink: three (thorough: four) puts, upserts, bulk puts and deletes of three link values that are given again and again.
func C19_SameLink() { sameLinks() }

// C21_SameLink: the same, with bulk calls that have a link twice.
func C21_SameLink() { sameLinks() }

// C23_SameResource: five (thorough: six) adds and deletes of three resource values, two of them with one UID, that are given again and again.
func C23_SameResource() {
	us := []string{"a", "b"}
	slot := []int{0, 1, 0}
	var rs [3]plan.Resource
	var refs [3]*mres
	for k, i := range slot {
		rs[k], refs[k] = anyResource(us[i])
	}
	p, err := simple.NewSimple()
	must(err)
	in := make([]*mres, 2)
	for k := 0; k < sym.Bound(5, 6); k++ {
		x := sym.Choose("resource", 3)
		i := slot[x]
		if sym.Bool("add") {
			sym.Assert(p.Add(ctx, rs[x]) == nil, "add-ok")
			in[i] = refs[x]
		} else {
			sym.Assert(p.Delete(ctx, rs[x].UID()) == nil, "delete-ok")
			in[i] = nil
		}
	}
	checkPlan(p, us, in)
}

// C36_Calls: four (thorough: five) calls one after another over sessions that are opened, closed and ended by their contexts, with
// subscribers and messages of any of them: each returns.
func C36_Calls() {
	b, err := membroker.New(broker.WithCap(sym.Choose("cap", 2)), broker.WithPubTimeout(unit), broker.WithSubTimeout(unit))
	must(err)
	open := func() func() {
		c, cancel := context.WithCancel(ctx)
		must(b.Open(c))
		return cancel
	}
	end := open()
	s := subscribe(b, "x")
	for k := 0; k < sym.Bound(4, 5); k++ {
		if k == 0 {
			sym.Delay(sym.Bound(1, 2))
		}
		switch sym.Choose("call", 7) {
		case 0:
			end = open()
		case 1:
			must(b.Close())
		case 2:
			end()
		case 3:
			_ = b.Pub(ctx, "x", msg("m"), broker.WithPubTimeout(unit))
		case 4:
			_ = s.Receive(ctx, func(context.Context, broker.Message) error { return nil }, broker.WithSubTimeout(unit))
		case 5:
			must(s.Unsubscribe(ctx))
		case 6:
			if n, err := b.Sub(ctx, "x"); err == nil {
				s = n
			}
		}
	}
	sym.Delay(0)
	end()
	must(b.Close())
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "all-returned")
}
