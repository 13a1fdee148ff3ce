package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"strconv"
	"strings"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	sdigester "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	singester "github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/store"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

// small is the size up to which every size is tried.
const small = 66

// large are sizes beyond, around those where things that come in fixed numbers, grow, or go in steps, change what they do.
var large = []int{95, 96, 97, 99, 100, 101, 127, 128, 129, 191, 192, 193, 199, 200, 201, 249, 250, 251, 255, 256, 257, 299, 300, 301, 383, 384,
	385, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025}

// size is any size from 3 to small, or one of the large ones up to the given one.
func size(quick, thorough int) int {
	most, n := sym.Bound(quick, thorough), 0
	for n < len(large) && large[n] <= most {
		n++
	}
	k := sym.Choose("size", small-2+n)
	if k < small-2 {
		return k + 3
	}
	return large[k-(small-2)]
}

func name(i int) string { return "n" + strconv.Itoa(i) }

// manyNodes is a graph of n nodes without edges.
func manyNodes(directed bool, n int) G {
	g := newGraph(directed)
	for i := 0; i < n; i++ {
		e, err := entity.New(types[i%len(types)], entity.WithUID(uidOf(name(i))))
		must(err)
		x, err := g.NewNode(ctx, e, graph.WithAttrs(attrsOf("k", name(i))))
		must(err)
		must(g.AddNode(ctx, x))
	}
	return g
}

// nodesAre checks that the lookups find, and the listing has, exactly the nodes i < n for which in(i).
func nodesAre(g graph.Graph, n int, in func(i int) bool, id string) {
	want := 0
	for i := 0; i < n; i++ {
		x, err := g.Node(ctx, uidOf(name(i)))
		if in(i) {
			want++
			sym.Assert(err == nil && x != nil && x.UID().String() == name(i) && attrIs(x.Attrs(), "k", name(i)), id+"found")
		} else {
			sym.Assert(x == nil && errors.Is(err, graph.ErrNodeNotFound), id+"missing")
		}
	}
	ns, err := g.Nodes(ctx)
	sym.Assert(err == nil && len(ns) == want, id+"listing-size")
	ids, seen := map[int64]bool{}, map[string]bool{}
	for _, x := range ns {
		ids[x.(*memory.Node).ID()] = true
		seen[x.UID().String()] = true
	}
	sym.Assert(len(ids) == want, id+"ids-distinct")
	sym.Assert(len(seen) == want, id+"listing-once")
}

// edgesAre checks that the edges of a graph are exactly those given, as pairs, with their weights, asked in both directions.
func edgesAre(g graph.Graph, directed bool, n int, edges map[[2]int]float64, id string) {
	es, err := g.(G).Edges(ctx)
	sym.Assert(err == nil && len(es) == len(edges), id+"edges-count")
	seen := map[string]bool{}
	for _, e := range es {
		seen[e.UID().String()] = true
	}
	sym.Assert(len(seen) == len(edges), id+"edges-once")
	out := make([]int, n)
	for p, w := range edges {
		e, err := g.Edge(ctx, uidOf(name(p[0])), uidOf(name(p[1])))
		ok := err == nil && e != nil && e.Weight() == w && seen[e.UID().String()]
		sym.Assert(ok, id+"edge-found")
		if ok {
			f, err := e.FromNode()
			must(err)
			t, err := e.ToNode()
			must(err)
			sym.Assert(f.UID().String() == name(p[0]) && t.UID().String() == name(p[1]), id+"edge-ends")
		}
		out[p[0]]++
		r, err := g.Edge(ctx, uidOf(name(p[1])), uidOf(name(p[0])))
		if _, both := edges[[2]int{p[1], p[0]}]; !directed {
			out[p[1]]++
			sym.Assert(ok && err == nil && r != nil && r.UID().String() == e.UID().String(), id+"edge-other-way")
		} else if !both {
			sym.Assert(r == nil && errors.Is(err, graph.ErrEdgeNotExist), id+"edge-one-way")
		}
	}
	for i := 0; i < n; i++ {
		ns, err := g.From(ctx, uidOf(name(i)))
		if err != nil {
			sym.Assert(errors.Is(err, graph.ErrNodeNotFound), id+"neighbours-of-none")
			continue
		}
		us := map[string]bool{}
		for _, x := range ns {
			us[x.UID().String()] = true
		}
		sym.Assert(len(ns) == out[i] && len(us) == out[i], id+"neighbours")
	}
}

func linkMany(g G, edges map[[2]int]float64, i, j int, w float64) {
	e, err := g.Link(ctx, uidOf(name(i)), uidOf(name(j)), graph.WithWeight(w))
	sym.Assert(err == nil && e != nil && e.Weight() == w, "link-ok")
	edges[[2]int{i, j}] = w
}

// star links node 0 and every other one, in turn from and to it, and every node to the next.
func star(g G, n int) map[[2]int]float64 {
	edges := map[[2]int]float64{}
	for i := 1; i < n; i++ {
		if i%2 == 1 {
			linkMany(g, edges, 0, i, float64(i))
		} else {
			linkMany(g, edges, i, 0, float64(i))
		}
		if i > 1 {
			linkMany(g, edges, i-1, i, float64(1000+i))
		}
	}
	return edges
}

func all(int) bool { return true }

// manyGraph runs one script on a graph of many nodes and edges.
func manyGraph(directed bool, n int) {
	g := manyNodes(directed, n)
	nodesAre(g, n, all, "add-")
	edges := star(g, n)
	edgesAre(g, directed, n, edges, "link-")
	// again: nothing changes
	for p, w := range edges {
		e, err := g.Link(ctx, uidOf(name(p[0])), uidOf(name(p[1])), graph.WithWeight(-1))
		sym.Assert(err == nil && e != nil && e.Weight() == w, "link-again")
	}
	for i := 2; i < n; i += 3 {
		must(g.Unlink(ctx, uidOf(name(i-1)), uidOf(name(i))))
		delete(edges, [2]int{i - 1, i})
	}
	edgesAre(g, directed, n, edges, "unlink-")
	// a node in the middle, the last, and the hub
	gone := map[int]bool{}
	for _, k := range []int{n / 2, n - 1, 0} {
		sym.Assert(g.RemoveNode(ctx, uidOf(name(k))) == nil, "remove-ok")
		gone[k] = true
		for p := range edges {
			if p[0] == k || p[1] == k {
				delete(edges, p)
			}
		}
		nodesAre(g, n, func(i int) bool { return !gone[i] }, "remove-")
		edgesAre(g, directed, n, edges, "remove-")
	}
}

// C01_Many: a graph of many nodes (up to 257; thorough: 513), linked, unlinked and removed.
func C01_Many() { manyGraph(sym.Bool("directed"), size(257, 513)) }

// C02_Many: the hub of a graph of many nodes, and the last of them, upserted: all edges are still there.
func C02_Many() {
	directed := sym.Bool("directed")
	n := size(257, 513)
	g := manyNodes(directed, n)
	edges := star(g, n)
	for _, k := range []int{0, n - 1, n / 2} {
		e, err := entity.New("new", entity.WithUID(uidOf(name(k))))
		must(err)
		x, err := memory.NewNode(int64(5000+k), e, graph.WithAttrs(attrsOf("k", name(k))))
		must(err)
		sym.Assert(errors.Is(g.AddNode(ctx, x), graph.ErrDuplicateNode), "duplicate-rejected")
		sym.Assert(g.AddNode(ctx, x, graph.WithUpsert()) == nil, "upsert-ok")
		nodesAre(g, n, all, "upsert-")
		y, err := g.Node(ctx, uidOf(name(k)))
		sym.Assert(err == nil && y.(*memory.Node).ID() == int64(5000+k) && y.(*memory.Node).Type() == "new", "upserted-node")
		edgesAre(g, directed, n, edges, "upsert-")
	}
}

// C03_Many: removals in a graph of many nodes, the hub included.
func C03_Many() { manyGraph(sym.Bool("directed"), size(257, 513)) }

// C04_Many: many links, each made twice.
func C04_Many() { manyGraph(sym.Bool("directed"), size(257, 513)) }

// C05_Many: edges, neighbours and listings in a graph of many nodes.
func C05_Many() { manyGraph(sym.Bool("directed"), size(257, 513)) }

// C06_Many: many edges unlinked.
func C06_Many() { manyGraph(sym.Bool("directed"), size(257, 513)) }

// subMany takes a subgraph of a chain with a star at its end.
func subMany(edges bool) {
	directed := sym.Bool("directed")
	n := size(257, 513)
	g := manyNodes(directed, 2*n)
	es := map[[2]int]float64{}
	for i := 1; i < n; i++ {
		linkMany(g, es, i-1, i, float64(i))
	}
	for i := n; i < 2*n; i++ {
		linkMany(g, es, n-1, i, float64(i))
		if i > n {
			linkMany(g, es, i, i-1, float64(1000+i))
		}
	}
	d := []int{0, 1, n / 2, n - 2, n - 1, n, n + 1, 1 << 40}[sym.Choose("depth", 8)]
	sg, err := g.SubGraph(ctx, uidOf(name(0)), d)
	sym.Assert(err == nil && sg != nil, "subgraph")
	if err != nil {
		return
	}
	in := func(i int) bool { return i < n && i <= d || i >= n && d >= n }
	if !edges {
		nodesAre(sg, 2*n, in, "")
		return
	}
	// whether the subgraph of an undirected graph is undirected, or has two edges for each, is left open
	out := make([]int, 2*n)
	for p, w := range es {
		a, err := sg.Edge(ctx, uidOf(name(p[0])), uidOf(name(p[1])))
		b, rerr := sg.Edge(ctx, uidOf(name(p[1])), uidOf(name(p[0])))
		if !in(p[0]) || !in(p[1]) {
			sym.Assert(a == nil && err != nil, "not-linked")
			continue
		}
		out[p[0]]++
		sym.Assert(err == nil && a != nil && a.Weight() == w, "linked")
		if !directed {
			out[p[1]]++
			sym.Assert(rerr == nil && b != nil && b.Weight() == w, "linked-back")
		} else {
			sym.Assert(b == nil && rerr != nil, "not-linked-back")
		}
	}
	for i, k := range out {
		if in(i) {
			ns, err := sg.From(ctx, uidOf(name(i)))
			sym.Assert(err == nil && len(ns) == k, "neighbours")
		}
	}
}

// C07_Many: a long chain (up to 257 nodes; thorough: 513) with as many nodes at its end, to depths about its length.
func C07_Many() { subMany(false) }

// C08_Many: the same for the edges.
func C08_Many() { subMany(true) }

// C12_Many: the document of a graph of many nodes and edges (up to 129; thorough: 257) has every one of them, once.
func C12_Many() {
	directed := sym.Bool("directed")
	n := size(129, 257)
	g := manyNodes(directed, n)
	es := star(g, n)
	s, err := g.DOT()
	sym.Assert(err == nil, "dot-ok")
	d, nodes, edges, ok := dotDoc(s)
	sym.Assert(ok && d == directed, "dot-parses")
	sym.Assert(len(nodes) == n, "every-node-once")
	sym.Assert(len(edges) == len(es), "every-edge-once")
	seen := map[string]int{}
	for _, x := range nodes {
		seen["node "+strings.SplitN(x, "[", 2)[0]]++
	}
	for _, x := range edges {
		seen["edge "+strings.SplitN(x, "[", 2)[0]]++
	}
	for i := 0; i < n; i++ {
		sym.Assert(seen["node "+name(i)] == 1, "node-once")
	}
	for p := range es {
		k := seen["edge "+name(p[0])+" to "+name(p[1])]
		if !directed {
			k += seen["edge "+name(p[1])+" to "+name(p[0])]
		}
		sym.Assert(k == 1, "edge-once")
	}
	nodesAre(g, n, all, "after-")
	edgesAre(g, directed, n, es, "after-")
}

// manyStore runs one script on a store of many entities, with single or bulk calls.
func manyStore(bulk bool, n int) {
	directed := sym.Bool("directed")
	s, g := newStore(map[bool]int{true: 0, false: 1}[directed])
	var es []store.Entity
	var us []uuid.UID
	for i := 0; i < n; i++ {
		e, err := entity.New(types[i%len(types)], entity.WithUID(uidOf(name(i))), entity.WithAttrs(attrsOf("k", name(i))))
		must(err)
		es = append(es, e)
		us = append(us, uidOf(name(i)))
	}
	add := func(opts ...store.Option) error {
		if bulk {
			return s.BulkAdd(ctx, es, opts...)
		}
		for i, e := range es {
			if err := s.Add(ctx, e, append(opts, store.WithAttrs(attrsOf("k", name(i))))...); err != nil {
				return err
			}
		}
		return nil
	}
	gone := map[int]bool{}
	check := func(id string) {
		for i := range us {
			e, err := s.Get(ctx, us[i])
			_, gerr := g.Node(ctx, us[i])
			if gone[i] {
				sym.Assert(e == nil && errors.Is(err, store.ErrEntityNotFound), id+"missing")
				sym.Assert(errors.Is(gerr, graph.ErrNodeNotFound), id+"missing-in-graph")
			} else {
				sym.Assert(err == nil && e != nil && e.UID().String() == name(i) && e.Type() == types[i%len(types)], id+"found")
				sym.Assert(gerr == nil, id+"in-graph")
			}
		}
		ns, err := g.Nodes(ctx)
		sym.Assert(err == nil && len(ns) == n-len(gone), id+"listing-size")
	}
	sym.Assert(add() == nil, "add-ok")
	check("add-")
	sym.Assert(errors.Is(add(), store.ErrAlreadyExists), "add-again")
	sym.Assert(add(store.WithUpsert()) == nil, "upsert-ok")
	check("upsert-")
	edges := map[[2]int]float64{}
	for j := 1; j < n; j++ {
		edges[[2]int{0, j}] = graph.DefaultWeight
	}
	if bulk {
		sym.Assert(s.BulkLink(ctx, us[0], us[1:]) == nil, "link-ok")
	} else {
		for j := 1; j < n; j++ {
			sym.Assert(s.Link(ctx, us[0], us[j]) == nil, "link-ok")
		}
	}
	edgesAre(g, directed, n, edges, "link-")
	if bulk {
		got, err := s.BulkGet(ctx, us)
		sym.Assert(err == nil && len(got) == n, "bulkget-ok")
		for i := range got {
			sym.Assert(got[i].UID().String() == name(i), "bulkget-order")
		}
		got, err = s.BulkGet(ctx, append(append([]uuid.UID{}, us...), uidOf("none")))
		sym.Assert(errors.Is(err, store.ErrEntityNotFound) && len(got) == 0, "bulkget-error")
		// an unknown one at the end of the list: everything before it is done
		sym.Assert(errors.Is(s.BulkLink(ctx, us[n-1], append(append([]uuid.UID{}, us[1:n-1]...), uidOf("none"))), store.ErrEntityNotFound), "link-error")
		for j := 1; j < n-1; j++ {
			edges[[2]int{n - 1, j}] = graph.DefaultWeight
		}
		edgesAre(g, directed, n, edges, "link-until-error-")
		sym.Assert(s.BulkUnlink(ctx, us[0], us[2:]) == nil, "unlink-ok")
	} else {
		for j := 2; j < n; j++ {
			sym.Assert(s.Unlink(ctx, us[0], us[j]) == nil, "unlink-ok")
		}
	}
	for j := 2; j < n; j++ {
		delete(edges, [2]int{0, j})
	}
	edgesAre(g, directed, n, edges, "unlink-")
	sym.Assert(s.Add(ctx, es[0], store.WithUpsert()) == nil, "upsert-hub")
	edgesAre(g, directed, n, edges, "upsert-hub-")
	if bulk {
		sym.Assert(s.BulkDelete(ctx, us[1:n-1]) == nil, "delete-ok")
	} else {
		for j := 1; j < n-1; j++ {
			sym.Assert(s.Delete(ctx, us[j]) == nil, "delete-ok")
		}
	}
	for j := 1; j < n-1; j++ {
		gone[j] = true
	}
	check("delete-")
	edgesAre(g, directed, n, map[[2]int]float64{}, "delete-")
}

// C13_Many: a store of many entities (up to 257; thorough: 513).
func C13_Many() { manyStore(false, size(257, 513)) }

// C14_Many: many upserts.
func C14_Many() { manyStore(false, size(257, 513)) }

// C15_Many: many links of one entity.
func C15_Many() { manyStore(false, size(257, 513)) }

// C16_Many: bulk calls with long lists (up to 257; thorough: 1025).
func C16_Many() { manyStore(true, size(257, 1025)) }

// manyCache runs one script on a cache of many links from one UID, to one UID, and along a chain, put singly or in bulk.
func manyCache(bulk bool, n int) {
	c, _ := newCache()
	want := map[[2]int]string{}
	var ls []cache.Link
	add := func(i, j int, a string) {
		ls = append(ls, mkLinkAttr(name(i), name(j), "l", a))
		want[[2]int{i, j}] = a
	}
	put := func(opts ...cache.Option) {
		if bulk {
			sym.Assert(c.BulkPut(ctx, ls, opts...) == nil, "put-ok")
		} else {
			for _, l := range ls {
				sym.Assert(c.Put(ctx, l, opts...) == nil, "put-ok")
			}
		}
		ls = nil
	}
	check := func(id string) {
		var us []uuid.UID
		for i := 0; i < n; i++ {
			us = append(us, uidOf(name(i)))
		}
		var bf, bt map[uuid.UID][]cache.Link
		if bulk {
			var err error
			bf, err = c.BulkGetFrom(ctx, us)
			sym.Assert(err == nil, id+"bulkget-ok")
			bt, err = c.BulkGetTo(ctx, us)
			sym.Assert(err == nil, id+"bulkget-ok")
		}
		for i := 0; i < n; i++ {
			from, to := 0, 0
			for p := range want {
				if p[0] == i {
					from++
				}
				if p[1] == i {
					to++
				}
			}
			is := func(ls []cache.Link, k int, id string) {
				sym.Assert(len(ls) == k, id+"count")
				seen := map[string]bool{}
				for _, l := range ls {
					f, err := strconv.Atoi(l.From().String()[1:])
					must(err)
					t, err := strconv.Atoi(l.To().String()[1:])
					must(err)
					a, ok := want[[2]int{f, t}]
					sym.Assert(ok && attrIs(l.Attrs(), "k", a), id+"link")
					seen[l.From().String()+l.To().String()] = true
				}
				sym.Assert(len(seen) == k, id+"once")
			}
			f, err := c.GetFrom(ctx, us[i])
			sym.Assert(err == nil, id+"from-ok")
			is(f, from, id+"from-")
			t, err := c.GetTo(ctx, us[i])
			sym.Assert(err == nil, id+"to-ok")
			is(t, to, id+"to-")
			if bulk {
				is(bf[us[i]], from, id+"bulk-from-")
				is(bt[us[i]], to, id+"bulk-to-")
			}
		}
	}
	for i := 1; i < n; i++ {
		add(0, i, "out")
		add(i, 0, "in")
		if i > 1 {
			add(i-1, i, "next")
		}
	}
	put()
	check("put-")
	keep := map[[2]int]string{}
	for p, a := range want {
		keep[p] = a
	}
	for i := 1; i < n; i++ {
		add(0, i, "plain")
	}
	want = keep
	put()
	check("plain-")
	for i := 1; i < n; i += 2 {
		add(0, i, "up")
		add(i, 0, "up")
	}
	put(cache.WithUpsert())
	check("upsert-")
	var del []uuid.UID
	for i := 1; i < n; i += 2 {
		del = append(del, uidOf(name(i)))
		for p := range want {
			if p[0] == i || p[1] == i {
				delete(want, p)
			}
		}
	}
	if bulk {
		sym.Assert(c.BulkDelete(ctx, del) == nil, "delete-ok")
	} else {
		for _, u := range del {
			sym.Assert(c.Delete(ctx, u) == nil, "delete-ok")
		}
	}
	check("delete-")
	sym.Assert(c.Delete(ctx, uidOf(name(0))) == nil, "delete-ok")
	for p := range want {
		if p[0] == 0 || p[1] == 0 {
			delete(want, p)
		}
	}
	check("hub-")
}

// C18_Many: many links from one UID, to one UID and along a chain (up to 129 UIDs; thorough: 257).
func C18_Many() { manyCache(false, size(129, 257)) }

// C19_Many: the same, put again plainly and with upsert.
func C19_Many() { manyCache(false, size(129, 257)) }

// C20_Many: the same, with deletes.
func C20_Many() { manyCache(false, size(129, 257)) }

// C21_Many: the same with bulk calls.
func C21_Many() { manyCache(true, size(129, 257)) }

// C23_Many: a plan of many resources (up to 257; thorough: 1025), half of them deleted and some replaced.
func C23_Many() {
	n := size(257, 1025)
	p, err := simple.NewSimple()
	must(err)
	kind := make([]string, n)
	check := func(id string) {
		want := 0
		for i, k := range kind {
			r, err := p.Get(ctx, uidOf(name(i)))
			if k == "" {
				sym.Assert(r == nil, id+"missing")
				continue
			}
			want++
			sym.Assert(err == nil && r != nil && r.UID().String() == name(i) && r.Kind() == k, id+"found")
		}
		all, err := p.GetAll(ctx)
		seen := map[string]bool{}
		for _, r := range all {
			seen[r.UID().String()] = true
		}
		sym.Assert(err == nil && len(all) == want && len(seen) == want, id+"all")
	}
	add := func(i int, k string) {
		r, err := entity.NewResource("type", "name", "g", "v", k, true, entity.WithUID(uidOf(name(i))))
		must(err)
		sym.Assert(p.Add(ctx, r) == nil, "add-ok")
		kind[i] = k
	}
	for i := 0; i < n; i++ {
		add(i, "k")
	}
	check("add-")
	for i := 0; i < n; i += 2 {
		sym.Assert(p.Delete(ctx, uidOf(name(i))) == nil, "delete-ok")
		kind[i] = ""
	}
	for i := 1; i < n; i += 4 {
		add(i, "new")
	}
	check("delete-")
	add(0, "again")
	check("again-")
}

// manyAttrs are n attributes.
func manyAttrs(n int) (*memattrs.Attrs, *amodel) {
	a, m := memattrs.New(), &amodel{}
	for i := 0; i < n; i++ {
		must(a.Set(ctx, name(i), "v"+name(i)))
		m.set(name(i), "v"+name(i))
	}
	return a, m
}

// C24_Many: many attributes (up to 257; thorough: 513), copied, and some set again.
func C24_Many() {
	n := size(257, 513)
	a, m := manyAttrs(n)
	m.is(a, "other", "")
	b, err := memattrs.NewCopyFrom(ctx, a)
	sym.Assert(err == nil, "copy-ok")
	mp, err := attrs.ToMap(ctx, a)
	sym.Assert(err == nil, "map-ok")
	c := memattrs.NewFromMap(mp)
	k := m.clone()
	for i := 0; i < n; i += 3 {
		must(a.Set(ctx, name(i), "changed"))
		m.set(name(i), "changed")
	}
	m.is(a, "other", "set-")
	k.is(b, "other", "copy-")
	k.is(c, "other", "from-map-")
}

// C25_Many: many entities made without options: no two have the same UID or share attributes.
func C25_Many() {
	n := size(129, 1025)
	seen := map[string]bool{}
	var last attrs.Attrs
	for i := 0; i < n; i++ {
		e, err := entity.New("type")
		must(err)
		seen[e.UID().String()] = true
		if last != nil {
			must(last.Set(ctx, "k", "v"))
			sym.Assert(nKeys(e.Attrs(), 0), "attrs-fresh")
		}
		last = e.Attrs()
	}
	sym.Assert(len(seen) == n, "uids-fresh")
}

// manyWire is a value of any kind with many attributes, or with long strings.
func manyWire(most int) *wire {
	s := func(k string) string { return k }
	n := 2
	if sym.Bool("long") {
		l := size(257, 1025)
		s = func(k string) string { return k + letters(l) + "\u00e9<&>\"\n" + k }
	} else {
		n = size(most, 129)
	}
	w := &wire{kind: sym.Choose("kind", 5), uid: s("uid"), typ: s("type"), name: s("name"), ns: s("ns"), group: s("group"), version: s("version"),
		kname: s("kind"), nsd: true, from: s("from"), to: s("to"), attr: &amodel{}}
	for i := 0; i < n; i++ {
		w.attr.set(s(name(i)), s("v"+name(i)))
	}
	w.a = attrsFrom(w.attr)
	if w.kind == wObjectRes {
		r := *w
		r.kind, r.uid, r.typ, r.name, r.attr = wResource, s("ruid"), s("rtype"), s("rname"), w.attr.clone()
		r.a = attrsFrom(r.attr)
		w.res = &r
	}
	return w
}

// C27_Many: values of any kind with many attributes (up to 129; thorough: 257) or with long strings.
func C27_Many() { manyWire(33).roundTrip() }

// C27_Large: values of any kind whose document is larger than 128 KiB (thorough: 1 MiB).
func C27_Large() {
	l := letters(sym.Bound(1<<17, 1<<20))
	w := &wire{kind: sym.Choose("kind", 5), uid: "uid", typ: "type", name: "name", ns: "ns", group: "group", version: "version",
		kname: "kind", nsd: true, from: "from", to: "to", attr: &amodel{}}
	w.attr.set("k", l)
	w.attr.set("l", "last")
	w.a = attrsFrom(w.attr)
	if w.kind == wObjectRes {
		r := *w
		r.kind, r.uid, r.typ, r.name, r.attr = wResource, "ruid", "rtype", "rname", w.attr.clone()
		r.a = attrsFrom(r.attr)
		w.res = &r
	}
	w.roundTrip()
}

// C30_Many: many messages (up to 129; thorough: 513) published one after another on a topic and as many on another, then received.
func C30_Many() {
	sym.Delay(0)
	n := size(129, 513)
	b, _ := opened(n)
	for i := 0; i < n; i++ {
		sym.Assert(b.Pub(ctx, "x", msg("x"+name(i))) == nil, "accepted")
		sym.Assert(b.Pub(ctx, "y", msg("y"+name(i))) == nil, "accepted")
	}
	for _, t := range []string{"y", "x"} {
		s := subscribe(b, t)
		for i := 0; i < n; i++ {
			m, k, err := recv(s, short)
			sym.Assert(err == nil && k == 1 && msgIs(m, t+name(i)), "in-order")
			if err != nil {
				return
			}
		}
		_, k, err := recv(s, short)
		sym.Assert(k == 0 && errors.Is(err, broker.ErrTimeout), "nothing-else")
	}
}

// C30_Topics: many topics (up to 129; thorough: 513) with a message on each.
func C30_Topics() {
	sym.Delay(0)
	n := size(129, 513)
	b, _ := opened(1)
	for i := 0; i < n; i++ {
		sym.Assert(b.Pub(ctx, name(i), msg("m"+name(i))) == nil, "accepted")
	}
	for i := n - 1; i >= 0; i-- {
		m, k, err := recv(subscribe(b, name(i)), short)
		sym.Assert(err == nil && k == 1 && msgIs(m, "m"+name(i)), "own-topic")
		if err != nil {
			return
		}
	}
}

// C32_Large: larger capacities, about round numbers, on two topics.
func C32_Large() {
	n := size(1025, 1025)
	b, err := membroker.New(broker.WithCap(n))
	must(err)
	sym.Delay(0)
	must(b.Open(ctx))
	for _, t := range []string{"x", "y"} {
		k, err := fillUp(b, t, n+3)
		sym.Assert(k == n, "exactly-capacity")
		sym.Assert(brokerErr(err) == "timeout", "then-timeout")
	}
	s := subscribe(b, "x")
	for i := 0; i < 3; i++ {
		_, c, err := recv(s, short)
		sym.Assert(err == nil && c == 1, "received")
	}
	k, err := fillUp(b, "x", 9)
	sym.Assert(k == 3, "room-for-those-received")
	sym.Assert(brokerErr(err) == "timeout", "then-timeout-again")
}

// C33_Sessions: many sessions one after another (up to 129; thorough: 257), ended by Close or by the context.
func C33_Sessions() {
	sym.Delay(0)
	n := size(129, 257)
	byCtx := sym.Bool("by-context")
	b := newBroker(1)
	for i := 0; i < n; i++ {
		c, cancel := context.WithCancel(ctx)
		sym.Assert(b.Open(c) == nil, "open-ok")
		_, err := b.Sub(ctx, "x")
		sym.Assert(err == nil && b.Pub(ctx, "x", msg("m")) == nil, "usable")
		if byCtx {
			cancel()
			sym.Quiesce()
		} else {
			sym.Assert(b.Close() == nil, "close-ok")
		}
		_, err = b.Sub(ctx, "x")
		sym.Assert(errors.Is(err, broker.ErrNotConnected) && errors.Is(b.Pub(ctx, "x", msg("m")), broker.ErrNotConnected), "not-connected")
		cancel()
	}
}

// C34_ManySessions: many sessions, each with a message and a subscription that the next one does not see.
func C34_ManySessions() {
	sym.Delay(0)
	n := size(129, 257)
	b := newBroker(1)
	var old broker.Subscriber
	for i := 0; i < n; i++ {
		must(b.Open(ctx))
		working(b, "fresh-", "x", "y")
		if old != nil {
			_, k, err := recv(old, short)
			sym.Assert(k == 0 && err != nil, "old-subscriber-ended")
		}
		old = subscribe(b, "x")
		sym.Assert(b.Pub(ctx, "x", msg("old")) == nil, "accepted")
		must(b.Close())
	}
}

// C35_Many: many subscribers (up to 257; thorough: 513) of a topic, of which all but the last unsubscribe, some twice; the
// last one still receives, as does one that comes later.
func C35_Many() {
	sym.Delay(0)
	n := size(257, 513)
	b, _ := opened(1)
	ids := map[string]bool{}
	var ss []broker.Subscriber
	for i := 0; i < n; i++ {
		s := subscribe(b, "x")
		id, err := s.ID(ctx)
		must(err)
		ids[id] = true
		ss = append(ss, s)
	}
	sym.Assert(len(ids) == n, "ids-unique")
	wait := sym.Bool("wait")
	for i, s := range ss[:n-1] {
		sym.Assert(s.Unsubscribe(ctx) == nil, "unsubscribe-ok")
		if i%2 == 0 {
			sym.Assert(s.Unsubscribe(ctx) == nil, "unsubscribe-ok")
		}
		if wait {
			sym.Quiesce()
		}
	}
	for i, s := range ss[:n-1] {
		if i < 3 || i > n-4 {
			_, k, err := recv(s, short)
			sym.Assert(k == 0 && errors.Is(err, broker.ErrSubscriptionInactive), "inactive")
		}
	}
	for _, s := range []broker.Subscriber{ss[n-1], subscribe(b, "x")} {
		sym.Assert(b.Pub(ctx, "x", msg("m")) == nil, "accepted")
		m, k, err := recv(s, short)
		sym.Assert(err == nil && k == 1 && msgIs(m, "m"), "others-receive")
	}
	sym.Quiesce()
	must(b.Close())
	for _, s := range ss[n-3:] {
		sym.Assert(s.Unsubscribe(ctx) == nil, "unsubscribe-after-close")
	}
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}

// C38_Many: many ingests (up to 257; thorough: 1025), or ones of payloads of any of many sizes.
func C38_Many() {
	n, l := 2, 2
	if sym.Bool("long") {
		l = size(1025, 1025)
	} else {
		n = size(257, 1025)
	}
	in, err := singester.NewIngester()
	must(err)
	b := &recordBroker{}
	for i := 0; i < n; i++ {
		must(in.Ingest(ctx, b, "x", broker.Object, name(i)+letters(l)))
	}
	sym.Assert(len(b.calls) == n, "one-message-per-ingest")
	for i, c := range b.calls {
		want, err := json.Marshal(name(i) + letters(l))
		must(err)
		sym.Assert(bytes.Equal(c.m.Data, want), "payload")
	}
}

// C39_Many: many messages (up to 129; thorough: 513) handled once each in order.
func C39_Many() {
	n := size(129, 513)
	s := &scriptSub{failAt: -1, end: errors.New("end")}
	for k := 0; k < n; k++ {
		s.script = append(s.script, msg("m"+name(k)))
	}
	l := &handlerLog{failAt: -1}
	d, err := sdigester.NewDigester(digester.WithHandler(l.handle))
	must(err)
	err = d.Digest(ctx, s)
	sym.Assert(errors.Is(err, s.end), "that-error")
	sym.Assert(len(l.got) == n && s.receives == n+1, "each-handled-once")
	for k, m := range l.got {
		sym.Assert(msgIs(m, "m"+name(k)), "in-order")
	}
}

// C39_Large: the dump of large payloads.
func C39_Large() {
	n := []int{255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 8193, 32768, 32769, 65535, 65536, 65537}[sym.Choose("len", 20)]
	d, err := sdigester.NewDigester()
	must(err)
	s := &scriptSub{failAt: -1, end: errors.New("end")}
	data := []byte(strings.Repeat("0123456789abcde\n", n/16+1)[:n])
	for k := 0; k < 2; k++ {
		s.script = append(s.script, broker.Message{Data: data})
	}
	out := sym.CaptureStdout(func() { err = d.Digest(ctx, s) })
	sym.Assert(errors.Is(err, s.end), "that-error")
	sym.Assert(string(out) == string(data)+string(data), "exactly-the-payloads")
}

// C41_Many: many generated UIDs, all different.
func C41_Many() {
	n := size(257, 1025)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		u := memuid.New().String()
		sym.Assert(len(u) == 36, "length")
		seen[u] = true
	}
	sym.Assert(len(seen) == n, "unique")
}

// C32_Topics: many topics (up to 129; thorough: 513), each made by a publish or a subscription: each buffers the capacity, 0 to 3.
func C32_Topics() {
	n, c := size(129, 513), sym.Choose("cap", 4)
	b, _ := opened(c)
	subs := sym.Bool("by-sub")
	for i := 0; i < n; i++ {
		if subs {
			subscribe(b, name(i))
		}
		k, err := fillUp(b, name(i), c+2)
		sym.Assert(k == c, "exactly-capacity")
		sym.Assert(brokerErr(err) == "timeout", "then-timeout")
	}
}

// C32_Turnover: many messages (up to 257; thorough: 1025) have gone through a topic, with or without others waiting, and it
// still buffers the capacity.
func C32_Turnover() {
	n := size(257, 1025)
	b, _ := opened(2)
	s := subscribe(b, "x")
	k := sym.Choose("waiting", 2)
	if k == 1 {
		must(b.Pub(ctx, "x", msg("m")))
	}
	for i := 0; i < n; i++ {
		sym.Assert(b.Pub(ctx, "x", msg("m")) == nil, "accepted")
		_, c, err := recv(s, short)
		sym.Assert(err == nil && c == 1, "received")
	}
	c, err := fillUp(b, "x", 4)
	sym.Assert(c == 2-k, "exactly-capacity")
	sym.Assert(brokerErr(err) == "timeout", "then-timeout")
}

// C34_Topics: many topics (up to 129; thorough: 513) with a message and a subscriber each, none of which the next session has.
func C34_Topics() {
	n := size(129, 513)
	b, cancel := opened(1)
	var old []broker.Subscriber
	for i := 0; i < n; i++ {
		old = append(old, subscribe(b, name(i)))
		sym.Assert(b.Pub(ctx, name(i), msg("old")) == nil, "accepted")
	}
	if sym.Bool("by-context") {
		cancel()
		sym.Quiesce()
	} else {
		must(b.Close())
	}
	must(b.Open(ctx))
	for i := 0; i < n; i++ {
		working(b, "fresh-", name(i))
		_, k, err := recv(old[i], short)
		sym.Assert(k == 0 && err != nil, "old-subscriber-ended")
	}
	cancel()
	sym.Quiesce()
	working(b, "still-", name(0), name(n-1))
}
