package props

import (
	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/cache"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/marshal"
	"github.com/milosgajdos/netscrape/pkg/store"
)

// ownNodes appends a node to each of the lists, looks whether all of them have theirs, and overwrites them.
func ownNodes(ls ...[]graph.Node) {
	var marks []graph.Node
	for i := range ls {
		e, _ := newEntity("mark", "mark")
		m, err := newGraph(true).NewNode(ctx, e)
		must(err)
		marks = append(marks, m)
		ls[i] = append(ls[i], m)
	}
	for i, l := range ls {
		sym.Assert(l[len(l)-1] == marks[i], "list-own")
		for k := range l {
			l[k] = nil
		}
	}
}

// C01_Own: the listings of nodes and neighbours of any graph of up to two nodes belong to the caller, who may append to them and
// overwrite them: no other listing and no later one shows it.
func C01_Own() {
	d := sym.Bool("directed")
	g, m := anyGraph(d, "a", "b")
	var ls [][]graph.Node
	for k := 0; k < 2; k++ {
		l, err := g.Nodes(ctx)
		must(err)
		ls = append(ls, l)
		for _, u := range []string{"a", "b", unknownUID} {
			f, err := g.From(ctx, uidOf(u))
			must(err)
			ls = append(ls, f)
		}
	}
	l, err := newGraph(d).Nodes(ctx)
	must(err)
	ownNodes(append(ls, l)...)
	m.check(g, "")
}

// C05_Own: the same for the listings of edges.
func C05_Own() {
	d := sym.Bool("directed")
	g, m := anyGraph(d, "a", "b", "c")
	var ls [][]graph.Edge
	for k := 0; k < 3; k++ {
		x := g
		if k == 2 {
			x = newGraph(d)
		}
		l, err := x.(graph.Edger).Edges(ctx)
		must(err)
		ls = append(ls, l)
	}
	o, om := newGraph(true), newModel(true, "x", "y")
	om.add(o, 0, "x")
	om.add(o, 1, "y")
	om.link(o, 0, 1, 1, "x")
	om.link(o, 1, 0, 1, "y")
	x, err := o.Edge(ctx, uidOf("x"), uidOf("y"))
	must(err)
	y, err := o.Edge(ctx, uidOf("y"), uidOf("x"))
	must(err)
	marks := []graph.Edge{x, y, x}
	for i := range ls {
		ls[i] = append(ls[i], marks[i])
	}
	for i, l := range ls {
		sym.Assert(l[len(l)-1] == marks[i], "list-own")
		for k := range l {
			l[k] = nil
		}
	}
	m.check(g, "")
}

// ownLinks appends a link to each of the lists, looks whether all of them have theirs, and overwrites them.
func ownLinks(ls ...[]cache.Link) {
	var marks []cache.Link
	for i := range ls {
		marks = append(marks, mkLink("m", "m", types[i]))
		ls[i] = append(ls[i], marks[i])
	}
	for i, l := range ls {
		sym.Assert(l[len(l)-1] == marks[i], "list-own")
		for k := range l {
			l[k] = nil
		}
	}
}

// C18_Own: the links found from and to any UID of any cache over two, some of them without any, belong to the caller, who may append
// to them and overwrite them: no other result and no later one shows it.
func C18_Own() {
	c, m := anyCache("a", "b")
	var ls [][]cache.Link
	for k := 0; k < 2; k++ {
		for _, u := range []string{"a", "b", "c", "d"} {
			f, err := m.from(c, u)
			must(err)
			t, err := m.to(c, u)
			must(err)
			ls = append(ls, f, t)
		}
	}
	ownLinks(ls...)
	m.check(c)
}

// C21_Own: the same for the results of the calls for several UIDs at once, maps included.
func C21_Own() {
	c, m := anyCache("a", "b")
	us := uidsOf("a", "b", "c")
	var ls [][]cache.Link
	for k := 0; k < 2; k++ {
		f, err := c.BulkGetFrom(ctx, us)
		must(err)
		t, err := c.BulkGetTo(ctx, us)
		must(err)
		for _, u := range us {
			ls = append(ls, f[u], t[u])
			delete(f, u)
			delete(t, u)
		}
	}
	ownLinks(ls...)
	m.check(c)
}

// C23_Own: the listings of any plan over three resources belong to the caller, who may append to them and overwrite them: no other
// listing and no later one shows it.
func C23_Own() {
	us := []string{"a", "b", "c"}
	in := make([]*mres, len(us))
	p, err := simple.NewSimple()
	must(err)
	for i := range us {
		if sym.Bool("in") {
			r, m := anyResource(us[i])
			must(p.Add(ctx, r))
			in[i] = m
		}
	}
	o, err := simple.NewSimple()
	must(err)
	var ls [][]plan.Resource
	for _, x := range []*simple.Simple{p, o, p, o} {
		l, err := x.GetAll(ctx)
		must(err)
		ls = append(ls, l)
	}
	var marks []plan.Resource
	for i := range ls {
		marks = append(marks, resource(types[i], "mark"))
		ls[i] = append(ls[i], marks[i])
	}
	for i, l := range ls {
		sym.Assert(l[len(l)-1] == marks[i], "list-own")
		for k := range l {
			l[k] = nil
		}
	}
	checkPlan(p, us, in)
	checkPlan(o, us, make([]*mres, len(us)))
}

// C16_Own: the entities BulkGet returns belong to the caller, and the UIDs given to it and to the other bulk calls stay the caller's.
func C16_Own() {
	s, g, m := anyStore(sym.Choose("kind", 2), "a", "b")
	var us []string
	for i, u := range m.uid {
		if m.has(i) {
			us = append(us, u)
		}
	}
	given := append(uidsOf(us...), uidOf("z"))
	var ls [][]store.Entity
	for k := 0; k < 2; k++ {
		l, err := s.BulkGet(ctx, given[:len(us)])
		must(err)
		sym.Assert(len(l) == len(us), "all")
		ls = append(ls, l)
		n, err := s.BulkGet(ctx, given[:0])
		must(err)
		ls = append(ls, n)
	}
	var marks []store.Entity
	for i := range ls {
		e, _ := newEntity(types[i], "mark")
		marks = append(marks, e)
		ls[i] = append(ls[i], e)
	}
	for i, l := range ls {
		sym.Assert(l[len(l)-1] == marks[i], "list-own")
		for k := range l {
			l[k] = nil
		}
	}
	m.check(s, g, "")
	// what is given to the calls stays as it is
	must(s.BulkUnlink(ctx, uidOf("a"), given))
	if m.has(0) && m.has(1) {
		must(s.BulkLink(ctx, uidOf("a"), given[1:2]))
	}
	must(s.BulkDelete(ctx, given))
	for i, u := range append(us, "z") {
		sym.Assert(given[i] != nil && given[i].String() == u, "given-kept")
	}
}

// C24_Own: the keys, maps and DOT attributes read from any attributes of up to two keys belong to the caller.
func C24_Own() {
	w := anyWire(wEntity, text{n: maxStr}, 2)
	n := len(w.attr.keys)
	for k := 0; k < 2; k++ {
		ks, err := w.a.Keys(ctx)
		must(err)
		ks2, err := w.a.Keys(ctx)
		must(err)
		ks, ks2 = append(ks, "x"), append(ks2, "y")
		sym.Assert(ks[n] == "x" && ks2[n] == "y", "keys-own")
		for i := range ks {
			ks[i], ks2[i] = "spoilt", "spoilt"
		}
		mp, err := attrs.ToMap(ctx, w.a)
		must(err)
		for _, k := range w.attr.keys {
			delete(mp, k)
		}
		mp[newKey] = "x"
		if d, ok := w.a.(attrs.DOT); ok {
			as := d.Attributes()
			for i := range as {
				as[i].Key, as[i].Value = "spoilt", "spoilt"
			}
		}
		w.attrsAre(w.a, "")
		mp, err = attrs.ToMap(ctx, w.a)
		must(err)
		w.mapIs(mp)
	}
}

// C27_SameUID: one marshaler is given a value, then another of the same kind and UID and with any data, then the first one again with
// other attributes: each comes out as it was then.
func C27_SameUID() {
	m := marshaler()
	kind := sym.Choose("kind", 5)
	t := text{maxText, true}
	v, w := anyWire(kind, t, 1), anyWire(kind, t, 0)
	w.uid = v.uid
	if v.res != nil && w.res != nil {
		w.res.uid = v.res.uid
	}
	v.roundTripBy(m)
	w.roundTripBy(m)
	for i := range v.attr.keys {
		v.attr.vals[i] = "changed"
	}
	v.attr.set(newKey, "x")
	v.roundTripBy(m)
}

// C27_SameBytes: one document is unmarshalled twice by one marshaler; what becomes of the first value does not show on the second, and
// the document may be overwritten in between.
func C27_SameBytes() {
	m := marshaler()
	kind := sym.Choose("kind", 5)
	w := anyWire(kind, text{maxText, true}, 1)
	b, err := m.Marshal(w.value())
	must(err)
	c := append([]byte(nil), b...)
	read := func(b []byte) (attrs.Attrs, func()) {
		switch kind {
		case wEntity:
			var e space.Entity
			must(m.Unmarshal(b, &e))
			return e.Attrs(), func() { w.isEntity(e, "") }
		case wResource:
			var r space.Resource
			must(m.Unmarshal(b, &r))
			return r.Attrs(), func() { w.isResource(r, "") }
		case wLink:
			var l space.Link
			must(m.Unmarshal(b, &l))
			return l.Attrs(), func() { w.isLink(l, "") }
		}
		var o space.Object
		must(m.Unmarshal(b, &o))
		return o.Attrs(), func() { w.isObject(o, "") }
	}
	a, is := read(b)
	for i := range b {
		b[i] = ' '
	}
	is()
	must(a.Set(ctx, newKey, "x"))
	_, is = read(c)
	is()
}

// C26_SameUID: two values of one kind and UID with any data are converted one after the other, then the first one again with other
// attributes: each conversion gives what the value is then.
func C26_SameUID() {
	kind := []int{wEntity, wResource, wObject, wLink}[sym.Choose("kind", 4)]
	t := text{n: maxStr}
	v, w := anyWire(kind, t, 1), anyWire(kind, t, 0)
	w.uid = v.uid
	for k, x := range []*wire{v, w, v} {
		if k == 2 {
			must(v.a.Set(ctx, newKey, "x"))
			v.attr.set(newKey, "x")
		}
		switch kind {
		case wEntity:
			f, err := marshal.EntityFromSpace(x.entity())
			must(err)
			y, err := marshal.EntityToSpace(*f)
			must(err)
			x.isEntity(y, "")
		case wResource:
			f, err := marshal.ResourceFromSpace(x.resource())
			must(err)
			y, err := marshal.ResourceToSpace(*f)
			must(err)
			x.isResource(y, "")
		case wLink:
			f, err := marshal.LinkFromSpace(x.link())
			must(err)
			y, err := marshal.LinkToSpace(*f)
			must(err)
			x.isLink(y, "")
		default:
			f, err := marshal.ObjectFromSpace(x.object())
			must(err)
			y, err := marshal.ObjectToSpace(*f)
			must(err)
			x.isObject(y, "")
		}
	}
}
