package props

import (
	"errors"
	"strings"

	"nsverif/sym"

	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/cache"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/store"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// confusable are triples of different strings which something else than comparing them by value would confuse: ignoring
// case or space, normalising, cutting, cleaning a path, parsing as a number or UUID, hashing, adding up.
var confusable = [][3]string{
	{"a", "A", "\uff41"},
	{"a", " a", "a "},
	{"", " ", "\x00"},
	{"a", "a\x00", "a\x00b"},
	{"ab", "ba", "a b"},
	{"a\nb", "a\tb", "a  b"},
	{"a/b", "a//b", "a/b/"},
	{"a", "./a", "b/../a"},
	{"a-b", "a_b", "a.b"},
	{"a:b", "a|b", "a,b"},
	{"\u00e9", "e\u0301", "e"},
	{"\u00df", "ss", "SS"},
	{"\u212a", "k", "K"},
	{"i", "\u0130", "\u0131"},
	{"\xff", "\xfe", "\ufffd"},
	{"1", "01", "1.0"},
	{"10", "0x0a", "1e1"},
	{"nil", "null", "<nil>"},
	{"%s", "%d", "%%"},
	{"*", ".*", "#"},
	{"a.*", "a.b", "a.>"},
	{"x/+", "x/y", "x/#"},
	{"\"a\"", "a", "'a'"},
	{"a&b", "a&amp;b", "a\\u0026b"},
	{"a%20b", "a b", "a+b"},
	{"ad", "bc", "cb"},
	{"Aa", "BB", "C#"},
	{"costarring", "liquid", "macallums"},
	{"declinate", "macallums", "altarage"},
	{"plumless", "buckeroo", "zinke"},
	{"altarage", "zinke", "creamwove"},
	{"creamwove", "quists", "liquid"},
	{"6ba7b810-9dad-11d1-80b4-00c04fd430c8", "6BA7B810-9DAD-11D1-80B4-00C04FD430C8", "{6ba7b810-9dad-11d1-80b4-00c04fd430c8}"},
	{"urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "6ba7b8109dad11d180b400c04fd430c8", "6ba7b810-9dad-11d1-80b4-00c04fd430c9"},
	{"00000000-0000-0000-0000-000000000000", "", "0"},
	{letters(8) + "a", letters(8) + "b", letters(8)},
	{letters(16) + "a", letters(16) + "b", letters(16)},
	{letters(36) + "a", letters(36) + "b", letters(36)},
	{letters(64) + "a", letters(64) + "b", letters(64)},
	{letters(256) + "a", letters(256) + "b", letters(256)},
	{"a" + letters(36), "b" + letters(36), "c" + letters(36)},
	{"a" + letters(256), "b" + letters(256), "c" + letters(256)},
	{letters(40) + "a" + letters(40), letters(40) + "b" + letters(40), letters(41) + "a" + letters(39)},
}

// letters is a string of n letters that do not repeat soon.
func letters(n int) string {
	return strings.Repeat("the quick brown fox jumps over the lazy dog; ", n/45+1)[:n]
}

func confused() []string {
	t := confusable[sym.Choose("strings", len(confusable))]
	return t[:]
}

// seps are what keys are put together with.
var seps = []string{"", "-", "/", ":", ".", "_", "|", ",", "->", "--", " ", "\x00", ";", "#", "@", "=", "~", "\t", "\n", "::"}

// joined are two pairs of strings, in a row, which are the same string when put together with some separator.
func joined() []string {
	s := seps[sym.Choose("separator", len(seps))]
	return []string{"a", "b" + s + "c", "a" + s + "b", "c"}
}

// namedGraph runs one script on a graph whose UIDs are confusable.
func namedGraph() {
	directed := sym.Bool("directed")
	us := confused()
	g, m := newGraph(directed), newModel(directed, us...)
	m.fixed = true
	for i := range us {
		m.add(g, i, types[i])
		m.check(g, "add-")
	}
	m.linkAll(g)
	m.check(g, "link-")
	m.unlinkAny(g, 0, 1)
	m.check(g, "unlink-")
	m.removeAny(g, 1)
	m.check(g, "remove-")
	m.add(g, 1, "again")
	m.link(g, 1, 2, 5, "again")
	m.check(g, "again-")
}

// linkAll links every pair of nodes.
func (m *gmodel) linkAll(g G) {
	for i := range m.node {
		for j := range m.node {
			if i != j && m.has(i) && m.has(j) && m.get(i, j) == nil {
				m.link(g, i, j, float64(10*i+j), types[(4*i+j)%len(types)])
			}
		}
	}
}

// joinedGraph runs one script on a graph whose edges' end points give the same string when put together.
func joinedGraph() {
	directed := sym.Bool("directed")
	us := joined()
	g, m := newGraph(directed), newModel(directed, us...)
	m.fixed = true
	for i := range us {
		m.add(g, i, types[i])
	}
	m.link(g, 0, 1, 1, "first")
	m.check(g, "first-")
	m.link(g, 2, 3, 2, "second")
	m.check(g, "second-")
	m.unlinkAny(g, 0, 1)
	m.check(g, "unlink-")
	m.link(g, 0, 1, 3, "third")
	m.removeAny(g, 2)
	m.check(g, "remove-")
}

// C01_Names: nodes added, linked, unlinked, removed and added again under UIDs that are easily confused.
func C01_Names() { namedGraph() }

// C02_Names: nodes added twice, upserted and added by hand under UIDs that are easily confused.
func C02_Names() {
	directed := sym.Bool("directed")
	us := confused()
	g, m := newGraph(directed), newModel(directed, us...)
	m.fixed = true
	for i := range us {
		m.add(g, i, types[i])
		n, err := g.Node(ctx, uidOf(us[i]))
		must(err)
		sym.Assert(errors.Is(g.AddNode(ctx, n), graph.ErrDuplicateNode), "duplicate-rejected")
	}
	m.linkAll(g)
	for i := range us {
		e, typ := m.entity(i)
		n, err := memory.NewNode(int64(1000+i), e, graph.WithAttrs(attrsOf("k", "new")))
		must(err)
		sym.Assert(errors.Is(g.AddNode(ctx, n), graph.ErrDuplicateNode), "duplicate-rejected")
		m.check(g, "rejected-")
		sym.Assert(g.AddNode(ctx, n, graph.WithUpsert()) == nil, "upsert-ok")
		m.node[i] = &mnode{id: n.ID(), typ: typ, attr: "new"}
		m.check(g, "upserted-")
	}
}

// C03_Names: removals among UIDs that are easily confused.
func C03_Names() { namedGraph() }

// C04_Names: links between UIDs that are easily confused.
func C04_Names() { namedGraph() }

// C04_Joined: links whose end points give the same string when put together.
func C04_Joined() { joinedGraph() }

// C05_Names: edges, neighbours and listings of UIDs that are easily confused.
func C05_Names() { namedGraph() }

// C05_Joined: edges whose end points give the same string when put together.
func C05_Joined() { joinedGraph() }

// C06_Names: unlinking UIDs that are easily confused.
func C06_Names() { namedGraph() }

// C06_Joined: unlinking edges whose end points give the same string when put together.
func C06_Joined() { joinedGraph() }

// subNamed takes subgraphs of graphs whose UIDs are easily confused.
func subNamed(edges bool) {
	directed := sym.Bool("directed")
	var us []string
	if sym.Bool("joined") {
		us = joined()
	} else {
		us = append(confused(), "other")
	}
	g, m := newGraph(directed), newModel(directed, us...)
	m.fixed = true
	for i := range us {
		m.add(g, i, types[i])
	}
	for i := range us[1:] {
		m.link(g, i, i+1, float64(i+1), types[i+5])
	}
	root, depth := sym.Choose("root", 2), sym.Choose("depth", 4)
	sg, err := g.SubGraph(ctx, uidOf(us[root]), depth)
	sym.Assert(err == nil && sg != nil, "subgraph")
	if err != nil {
		return
	}
	if edges {
		m.subEdges(sg, m.within(root, depth))
	} else {
		m.subNodes(sg, m.within(root, depth))
	}
	m.check(g, "source-")
}

// C07_Names: subgraphs of a chain whose UIDs are easily confused, alone or put together.
func C07_Names() { subNamed(false) }

// C08_Names: the same for the edges.
func C08_Names() { subNamed(true) }

// namedStore runs one script on a store whose UIDs are easily confused, alone or put together.
func namedStore() {
	kind := sym.Choose("kind", 2)
	var us []string
	if sym.Bool("joined") {
		us = joined()
	} else {
		us = append(confused(), "other")
	}
	s, g := newStore(kind)
	m := &smodel{newModel(kind == 0, us...), map[int]bool{}, sym.Bool("bulk"), nil}
	m.fixed = true
	for i := range us {
		m.put(s, g, i, types[i], true, false)
		m.check(s, g, "add-")
	}
	link := func(i, j int, attr string) {
		sym.Assert(s.Link(ctx, uidOf(us[i]), uidOf(us[j]), store.WithAttrs(attrsOf("k", attr))) == nil, "link-ok")
		m.linked(g, i, j, attr, 1)
	}
	link(0, 1, "first")
	link(2, 3, "second")
	link(1, 2, "third")
	m.check(s, g, "link-")
	m.unlinkAny(s, 0, 1)
	m.check(s, g, "unlink-")
	m.put(s, g, 2, "new", true, true)
	m.check(s, g, "upsert-")
	m.del(s, 2)
	m.check(s, g, "delete-")
	m.put(s, g, 2, "again", true, false)
	m.check(s, g, "again-")
}

// C13_Names: a store of UIDs that are easily confused, alone or put together.
func C13_Names() { namedStore() }

// C14_Names: the same, with an upsert.
func C14_Names() { namedStore() }

// C15_Names: the same, with links.
func C15_Names() { namedStore() }

// C16_Names: bulk calls on UIDs that are easily confused, alone or put together.
func C16_Names() {
	var us []string
	if sym.Bool("joined") {
		us = joined()
	} else {
		us = append(confused(), "other")
	}
	s, g := newStore(0)
	m := &smodel{newModel(true, us...), map[int]bool{}, sym.Bool("bulk"), nil}
	var es []store.Entity
	var req []uuid.UID
	for i, u := range us {
		e, _ := newEntity(types[i], u)
		es = append(es, e)
		req = append(req, uidOf(u))
	}
	sym.Assert(s.BulkAdd(ctx, es, store.WithAttrs(attrsOf("k", "x"))) == nil, "bulkadd-ok")
	for i := range us {
		m.noted(g, i, types[i], "x", true)
	}
	m.check(s, g, "add-")
	req = append(req, req[1], req[0])
	got, err := s.BulkGet(ctx, req)
	sym.Assert(err == nil && len(got) == len(req), "bulkget-ok")
	for i := range got {
		sym.Assert(got[i].UID().String() == req[i].String(), "bulkget-order")
	}
	sym.Assert(s.BulkLink(ctx, req[0], req[1:4], store.WithAttrs(attrsOf("k", "y"))) == nil, "bulklink-ok")
	for j := 1; j < 4; j++ {
		m.linked(g, 0, j, "y", 1)
	}
	sym.Assert(s.BulkLink(ctx, req[2], req[3:4], store.WithAttrs(attrsOf("k", "z"))) == nil, "bulklink-ok")
	m.linked(g, 2, 3, "z", 1)
	m.check(s, g, "link-")
	sym.Assert(s.BulkUnlink(ctx, req[0], req[1:2]) == nil, "bulkunlink-ok")
	m.unset(0, 1)
	m.check(s, g, "unlink-")
	sym.Assert(s.BulkDelete(ctx, req[1:3]) == nil, "bulkdelete-ok")
	m.remove(1)
	m.remove(2)
	m.check(s, g, "delete-")
}

// namedCache runs one script on a cache whose UIDs are easily confused, alone or put together.
func namedCache(bulk bool) {
	var us []string
	if sym.Bool("joined") {
		us = joined()
	} else {
		us = append(confused(), "other")
	}
	c, m := newCache(us...)
	put := func(i, j int, u string, upsert bool) {
		var opts []cache.Option
		if upsert {
			opts = append(opts, cache.WithUpsert())
		}
		l := mkLinkAttr(us[i], us[j], "l", u)
		if bulk {
			sym.Assert(c.BulkPut(ctx, []cache.Link{l}, opts...) == nil, "put-ok")
		} else {
			sym.Assert(c.Put(ctx, l, opts...) == nil, "put-ok")
		}
		m.noted(i, j, clink{"l", u}, upsert)
	}
	put(0, 1, "first", false)
	m.check(c)
	put(2, 3, "second", false)
	put(1, 1, "third", false)
	put(1, 0, "fourth", false)
	put(3, 2, "fifth", false)
	m.check(c)
	put(0, 1, "kept out", false)
	m.check(c)
	put(2, 3, "replaced", true)
	m.check(c)
	if bulk {
		var req []uuid.UID
		for _, u := range us {
			req = append(req, uidOf(u))
		}
		from, err := c.BulkGetFrom(ctx, req)
		sym.Assert(err == nil, "bulkget-ok")
		to, err := c.BulkGetTo(ctx, req)
		sym.Assert(err == nil, "bulkget-ok")
		for i := range us {
			m.holds(from[req[i]], i, false, "bulk-from-")
			m.holds(to[req[i]], i, true, "bulk-to-")
		}
		sym.Assert(c.BulkDelete(ctx, req[1:2]) == nil, "delete-ok")
	} else {
		sym.Assert(c.Delete(ctx, uidOf(us[1])) == nil, "delete-ok")
	}
	m.drop(1)
	m.check(c)
}

// C18_Names: a cache of UIDs that are easily confused, alone or put together.
func C18_Names() { namedCache(false) }

// C19_Names: the same, with plain puts and an upsert.
func C19_Names() { namedCache(false) }

// C20_Names: the same, with a delete.
func C20_Names() { namedCache(false) }

// C21_Names: the same with the bulk calls.
func C21_Names() { namedCache(true) }

// C23_Names: resources whose UIDs, groups, versions, kinds and names are easily confused, alone or put together.
func C23_Names() {
	var us []string
	if sym.Bool("joined") {
		us = joined()
	} else {
		us = append(confused(), "other")
	}
	p, err := simple.NewSimple()
	must(err)
	in := make([]*mres, len(us))
	add := func(i int, g, v, k string) {
		in[i] = &mres{g, v, k}
		r, err := entity.NewResource("type", "name", g, v, k, true, entity.WithUID(uidOf(us[i])))
		must(err)
		sym.Assert(p.Add(ctx, r) == nil, "add-ok")
		checkPlan(p, us, in)
	}
	add(0, us[0], us[1], "k")
	add(1, us[2], us[3], "k")
	add(2, "g", us[0], us[1])
	add(3, "g", us[2], us[3])
	add(1, us[0], us[1], "k")
	sym.Assert(p.Delete(ctx, uidOf(us[1])) == nil, "delete-ok")
	in[1] = nil
	checkPlan(p, us, in)
}

// C24_Names: attributes whose keys are easily confused.
func C24_Names() {
	us := append(confused(), joined()...)
	a := memattrs.New()
	m := &amodel{}
	for i, u := range us {
		sym.Assert(a.Set(ctx, u, us[(i+1)%len(us)]) == nil, "set-ok")
		m.set(u, us[(i+1)%len(us)])
		m.is(a, "other", "")
	}
	for i, u := range us {
		sym.Assert(a.Set(ctx, u, types[i]) == nil, "set-ok")
		m.set(u, types[i])
	}
	m.is(a, "other", "again-")
}

// topicNames are three topics that are easily confused, or any three.
func topicNames() []string {
	if sym.Bool("any-topics") {
		return symUIDs(3)
	}
	return confused()
}

// C30_Names: one message on each of three topics that are easily confused, or any (up to 40 bytes), received on each.
func C30_Names() {
	b, _ := opened(2)
	us := topicNames()
	for i, t := range us {
		sym.Assert(b.Pub(ctx, t, msg(types[i])) == nil, "accepted")
	}
	for i := range us {
		i = (i + 1) % len(us)
		s := subscribe(b, us[i])
		t, err := s.Topic(ctx)
		sym.Assert(err == nil && t == us[i], "topic")
		m, n, err := recv(s, short)
		sym.Assert(err == nil && n == 1 && msgIs(m, types[i]), "own-topic")
		_, n, err = recv(s, short)
		sym.Assert(n == 0 && errors.Is(err, broker.ErrTimeout), "nothing-else")
	}
}

// C31_Names: a full topic does not refuse a publish on one that is easily confused with it, nor the other way round.
func C31_Names() { fullNames() }

// C32_Names: the same.
func C32_Names() { fullNames() }

func fullNames() {
	n := sym.Choose("cap", 3)
	b, _ := opened(n)
	us := topicNames()
	for _, t := range us {
		k, err := fillUp(b, t, 4)
		sym.Assert(k == n, "exactly-capacity")
		sym.Assert(brokerErr(err) == "timeout", "then-timeout")
	}
	for _, t := range us {
		sym.Assert(len(drain(b, t)) == n, "all-received")
	}
}

// C34_Names: nothing of the first session is left on topics that are easily confused, or any (up to 40 bytes), and all of them work in the second.
func C34_Names() {
	b, _ := opened(1)
	us := topicNames()
	for _, t := range us {
		subscribe(b, t)
		sym.Assert(b.Pub(ctx, t, msg("old")) == nil, "accepted")
	}
	must(b.Close())
	must(b.Open(ctx))
	working(b, "second-", us...)
}

// C35_Names: unsubscribing from a topic leaves subscribers of topics that are easily confused, or any (up to 40 bytes) with it alone.
func C35_Names() {
	b, _ := opened(1)
	us := topicNames()
	var ss []broker.Subscriber
	ids := map[string]bool{}
	for _, t := range us {
		s := subscribe(b, t)
		id, err := s.ID(ctx)
		sym.Assert(err == nil && !ids[id], "ids-unique")
		ids[id] = true
		ss = append(ss, s)
	}
	k := sym.Choose("unsubscribed", len(us))
	sym.Assert(ss[k].Unsubscribe(ctx) == nil, "unsubscribe-ok")
	for i, t := range us {
		sym.Assert(b.Pub(ctx, t, msg(types[i])) == nil, "accepted")
		m, n, err := recv(ss[i], short)
		if i == k {
			sym.Assert(n == 0 && errors.Is(err, broker.ErrSubscriptionInactive), "inactive")
		} else {
			sym.Assert(err == nil && n == 1 && msgIs(m, types[i]), "others-receive")
		}
	}
}

// C41_Strings: strings that are easily confused, and any of up to 64 (thorough: 256) bytes.
func C41_Strings() {
	for _, s := range append(confused(), joined()...) {
		sym.Assert(uidOf(s).String() == s, "prints-as-given")
	}
	s := sym.String("s", sym.Bound(64, 256))
	sym.Assert(uidOf(s).String() == s, "prints-as-given")
}
