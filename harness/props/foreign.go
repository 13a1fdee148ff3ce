package props

import (
	"context"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

// Harnesses in which UIDs, attributes, entities, resources, objects and links are of types of their own and not of netscrape's: the
// interfaces are all there is to know of them.

// foreign makes uidOf, attrsOf and the makers of values give such ones; UIDs are netscrape's and others in turn.
var foreign struct {
	on bool
	n  int
}

func foreignly(f func()) {
	foreign.on, foreign.n = true, sym.Choose("turn", 3)
	defer func() { foreign.on = false }()
	f()
}

type foreignUID string

func (u foreignUID) String() string { return string(u) }

func foreignUIDOf(s string) uuid.UID {
	foreign.n++
	switch foreign.n % 3 {
	case 0:
		return *memuid.NewFromString(s)
	case 1:
		return foreignUID(s)
	}
	return memuid.NewFromString(s)
}

type foreignAttrs struct{ a attrs.Attrs }

func (f foreignAttrs) Keys(c context.Context) ([]string, error)        { return f.a.Keys(c) }
func (f foreignAttrs) Get(c context.Context, k string) (string, error) { return f.a.Get(c, k) }
func (f foreignAttrs) Set(c context.Context, k, v string) error        { return f.a.Set(c, k, v) }

type foreignResource struct{ w *wire }

func (r foreignResource) UID() uuid.UID      { return uidOf(r.w.uid) }
func (r foreignResource) Type() string       { return r.w.typ }
func (r foreignResource) Name() string       { return r.w.name }
func (r foreignResource) Group() string      { return r.w.group }
func (r foreignResource) Version() string    { return r.w.version }
func (r foreignResource) Kind() string       { return r.w.kname }
func (r foreignResource) Namespaced() bool   { return r.w.nsd }
func (r foreignResource) Attrs() attrs.Attrs { return foreignAttrs{r.w.a} }

type foreignObject struct{ w *wire }

func (o foreignObject) UID() uuid.UID      { return uidOf(o.w.uid) }
func (o foreignObject) Type() string       { return o.w.typ }
func (o foreignObject) Name() string       { return o.w.name }
func (o foreignObject) Namespace() string  { return o.w.ns }
func (o foreignObject) Attrs() attrs.Attrs { return foreignAttrs{o.w.a} }
func (o foreignObject) Resource() space.Resource {
	if o.w.res == nil {
		return nil
	}
	return foreignResource{o.w.res}
}

type foreignLink struct {
	uid, from, to string
	a             attrs.Attrs
}

func (l foreignLink) UID() uuid.UID      { return uidOf(l.uid) }
func (l foreignLink) From() uuid.UID     { return uidOf(l.from) }
func (l foreignLink) To() uuid.UID       { return uidOf(l.to) }
func (l foreignLink) Attrs() attrs.Attrs { return l.a }

type foreignGVK struct {
	uid                  string
	group, version, kind string
}

func (r foreignGVK) UID() uuid.UID      { return uidOf(r.uid) }
func (r foreignGVK) Type() string       { return "type" }
func (r foreignGVK) Name() string       { return "name" }
func (r foreignGVK) Group() string      { return r.group }
func (r foreignGVK) Version() string    { return r.version }
func (r foreignGVK) Kind() string       { return r.kind }
func (r foreignGVK) Namespaced() bool   { return true }
func (r foreignGVK) Attrs() attrs.Attrs { return attrsOf("k", "v") }

func foreignGraph(op func(g G, m *gmodel)) {
	foreignly(func() {
		g, m := anyGraph(sym.Bool("directed"), "a", "b")
		op(g, m)
		m.check(g, "")
	})
}

// C01_Foreign: any graph of two UIDs and any operation.
func C01_Foreign() { foreignGraph(func(g G, m *gmodel) { m.op(g, 2) }) }

// C02_Foreign: additions and upserts.
func C02_Foreign() {
	foreignGraph(func(g G, m *gmodel) { m.addAny(g, sym.Choose("slot", 2), sym.Bool("own")) })
}

// C03_Foreign: removals.
func C03_Foreign() { foreignGraph(func(g G, m *gmodel) { m.removeAny(g, sym.Choose("slot", 2)) }) }

// C04_Foreign: links.
func C04_Foreign() {
	foreignGraph(func(g G, m *gmodel) { m.linkAny(g, sym.Choose("slot", 2), sym.Choose("peer", 2)) })
}

// C05_Foreign: the lookups and listings.
func C05_Foreign() { foreignGraph(func(g G, m *gmodel) {}) }

// C06_Foreign: unlinks.
func C06_Foreign() {
	foreignGraph(func(g G, m *gmodel) { m.unlinkAny(g, sym.Choose("slot", 2), sym.Choose("peer", 2)) })
}

func foreignSub(edges bool) {
	foreignGraph(func(g G, m *gmodel) {
		r := sym.Choose("root", 2)
		sg, err := g.SubGraph(ctx, uidOf(m.uid[r]), 1)
		if !m.has(r) {
			sym.Assert(sg == nil && err != nil, "unknown-root")
			return
		}
		sym.Assert(err == nil && sg != nil, "no-error")
		if err != nil || sg == nil {
			return
		}
		if edges {
			m.subEdges(sg, m.within(r, 1))
		} else {
			m.subNodes(sg, m.within(r, 1))
		}
	})
}

// C07_Foreign: the nodes of a subgraph.
func C07_Foreign() { foreignSub(false) }

// C08_Foreign: its edges.
func C08_Foreign() { foreignSub(true) }

func foreignStore(op func(s S, g G, m *smodel)) {
	foreignly(func() {
		s, g, m := anyStore(sym.Choose("kind", 2), "a", "b")
		op(s, g, m)
		m.check(s, g, "")
	})
}

// C13_Foreign: a store of such entities; an Add or a Delete, and lookups.
func C13_Foreign() {
	foreignStore(func(s S, g G, m *smodel) {
		if i := sym.Choose("slot", 2); sym.Bool("add") {
			m.plainAdd(s, g, i)
		} else {
			m.del(s, i)
		}
	})
}

// C14_Foreign: an upsert.
func C14_Foreign() {
	foreignStore(func(s S, g G, m *smodel) {
		m.put(s, g, sym.Choose("slot", 2), sym.String("nattr", maxStr), sym.Bool("attrs"), true)
	})
}

// C15_Foreign: a link or unlink.
func C15_Foreign() {
	foreignStore(func(s S, g G, m *smodel) {
		if i, j := sym.Choose("slot", 2), sym.Choose("peer", 2); sym.Bool("link") {
			m.linkAny(s, g, i, j)
		} else {
			m.unlinkAny(s, i, j)
		}
	})
}

func foreignCache() {
	foreignly(func() {
		c, m := anyCache("a", "b")
		m.cacheOp(c)
		m.check(c)
	})
}

// C18_Foreign: any cache of such links and UIDs, any operation, and the lookups.
func C18_Foreign() { foreignCache() }

// C19_Foreign: the same, as puts and upserts go.
func C19_Foreign() { foreignCache() }

// C20_Foreign: the same, as deletes go.
func C20_Foreign() { foreignCache() }

// C21_Foreign: the same, as bulk calls go.
func C21_Foreign() { foreignCache() }

// C23_Foreign: a plan of such resources.
func C23_Foreign() {
	foreignly(func() {
		us := []string{"a", "b"}
		p, err := simple.NewSimple()
		must(err)
		in := make([]*mres, 2)
		for k := 0; k < sym.Bound(3, 4); k++ {
			i := sym.Choose("which", 2)
			if sym.Bool("add") {
				r, m := anyResource(us[i])
				sym.Assert(p.Add(ctx, r) == nil, "add-ok")
				in[i] = m
			} else {
				sym.Assert(p.Delete(ctx, uidOf(us[i])) == nil, "delete-ok")
				in[i] = nil
			}
			checkPlan(p, us, in)
		}
	})
}

// C25_Foreign: entities, resources, objects and links made with such UIDs, attributes and resources.
func C25_Foreign() {
	foreignly(func() {
		w := anyWire(sym.Choose("kind", 5), text{n: maxStr}, 1)
		foreign.on = false
		a := w.a
		w.a = foreignAttrs{a}
		foreign.on = true
		w.own = true
		switch v := w.value().(type) {
		case space.Resource:
			w.isResource(v, "")
		case space.Object:
			w.isObject(v, "")
		case space.Entity:
			w.isEntity(v, "")
		case space.Link:
			w.isLink(v, "")
		}
	})
}

// C26_Foreign: such values of any kind to the wire form and back.
func C26_Foreign() {
	foreignly(func() {
		switch sym.Choose("kind", 4) {
		case 0:
			C26_Entity()
		case 1:
			C26_Resource()
		case 2:
			C26_Object()
		case 3:
			C26_Link()
		}
	})
}

// C27_Foreign: such values of any kind to JSON and back.
func C27_Foreign() {
	foreignly(func() { anyWire(sym.Choose("kind", 5), text{maxText, true}, 1).roundTrip() })
}
