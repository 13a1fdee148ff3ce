package props

import (
	"sort"
	"strings"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// clink is the reference of a cached link: its UID and attribute.
type clink struct{ uid, attr string }

// cmodel is the reference cache: the cached link of each ordered pair of slots.
type cmodel struct {
	uid   []string
	links map[[2]int]clink
	bulk  bool           // the operations of several links or UIDs stand in for the single ones
	spare []cache.Option // options for calls that have no use for them
}

func newCache(us ...string) (*memcache.Links, *cmodel) {
	c, err := memcache.NewLinks()
	must(err)
	return c, &cmodel{uid: us, links: map[[2]int]clink{}}
}

// mkLink makes a link with UIDs of its own.
func mkLink(from, to, uid string) cache.Link { return mkLinkAttr(from, to, uid, uid) }

func mkLinkAttr(from, to, uid, attr string) cache.Link {
	l, err := link.New(uidOf(from), uidOf(to), link.WithUID(uidOf(uid)), link.WithAttrs(attrsOf("k", attr)))
	must(err)
	return l
}

// link is a link between the slots with any UID, of another link or not, and any attribute.
func (m *cmodel) link(i, j int) (cache.Link, clink) {
	u := clink{sym.String("luid", maxStr), sym.String("lattr", maxStr)}
	if foreign.on {
		return foreignLink{u.uid, m.uid[i], m.uid[j], attrsOf("k", u.attr)}, u
	}
	l, err := link.New(uidOf(m.uid[i]), uidOf(m.uid[j]), link.WithUID(uidOf(u.uid)), link.WithAttrs(attrsOf("k", u.attr)))
	must(err)
	return l, u
}

func (m *cmodel) put(c *memcache.Links, i, j int, upsert bool) {
	l, u := m.link(i, j)
	var opts []cache.Option
	if upsert {
		opts = append(opts, cache.WithUpsert())
	}
	var err error
	if m.bulk {
		err = c.BulkPut(ctx, []cache.Link{l}, opts...)
	} else {
		err = c.Put(ctx, l, opts...)
	}
	sym.Assert(err == nil, "put-ok")
	m.noted(i, j, u, upsert)
}

// del deletes the links of a UID.
func (m *cmodel) del(c *memcache.Links, u string) {
	var err error
	if m.bulk {
		err = c.BulkDelete(ctx, []uuid.UID{uidOf(u)}, m.spare...)
	} else {
		err = c.Delete(ctx, uidOf(u), m.spare...)
	}
	sym.Assert(err == nil, "delete-ok")
}

// from and to are the links from a UID and to it.
func (m *cmodel) from(c *memcache.Links, u string) ([]cache.Link, error) {
	x := uidOf(u)
	if m.bulk {
		ls, err := c.BulkGetFrom(ctx, []uuid.UID{x}, m.spare...)
		return ls[x], err
	}
	return c.GetFrom(ctx, x, m.spare...)
}

func (m *cmodel) to(c *memcache.Links, u string) ([]cache.Link, error) {
	x := uidOf(u)
	if m.bulk {
		ls, err := c.BulkGetTo(ctx, []uuid.UID{x}, m.spare...)
		return ls[x], err
	}
	return c.GetTo(ctx, x, m.spare...)
}

func (m *cmodel) noted(i, j int, u clink, upsert bool) {
	if _, ok := m.links[[2]int{i, j}]; !ok || upsert {
		m.links[[2]int{i, j}] = u
	}
}

func (m *cmodel) drop(i int) {
	for j := range m.uid {
		delete(m.links, [2]int{i, j})
		delete(m.links, [2]int{j, i})
	}
}

// holds compares the links found from slot i (or to it) with the reference.
func (m *cmodel) holds(ls []cache.Link, i int, to bool, where string) {
	want := 0
	for j := range m.uid {
		p := [2]int{i, j}
		if to {
			p = [2]int{j, i}
		}
		u, ok := m.links[p]
		if !ok {
			continue
		}
		want++
		n := 0
		for _, l := range ls {
			if l != nil && l.From().String() == m.uid[p[0]] && l.To().String() == m.uid[p[1]] {
				n++
				sym.Assert(sym.And(l.UID().String() == u.uid, attrIs(l.Attrs(), "k", u.attr)), where+"link-kept")
			}
		}
		sym.Assert(n == 1, where+"link-once")
	}
	sym.Assert(len(ls) == want, where+"no-other-link")
}

// check compares every lookup with the reference.
func (m *cmodel) check(c *memcache.Links) {
	for i := range m.uid {
		f, err := m.from(c, m.uid[i])
		sym.Assert(err == nil, "from-ok")
		m.holds(f, i, false, "from-")
		t, err := m.to(c, m.uid[i])
		sym.Assert(err == nil, "to-ok")
		m.holds(t, i, true, "to-")
	}
	// a UID no link has ever had
	f, err := m.from(c, unknownUID)
	sym.Assert(err == nil && len(f) == 0, "from-unknown")
	t, err := m.to(c, unknownUID)
	sym.Assert(err == nil && len(t) == 0, "to-unknown")
}

// anyCache is a cache holding any set of links between the UIDs, links of a UID to itself included.
func anyCache(us ...string) (*memcache.Links, *cmodel) {
	c, m := newCache(us...)
	m.bulk = sym.Bool("bulk")
	for i := range us {
		for j := range us {
			if sym.Bool("cached") {
				m.put(c, i, j, false)
			}
		}
	}
	return c, m
}

// cacheOp is any single operation on the cache.
func (m *cmodel) cacheOp(c *memcache.Links) {
	n := len(m.uid)
	switch sym.Choose("op", 4) {
	case 0, 1:
		m.put(c, sym.Choose("from", n), sym.Choose("to", n), sym.Bool("upsert"))
	case 2:
		i := sym.Choose("uid", n)
		m.del(c, m.uid[i])
		m.drop(i)
	case 3:
		err := c.Clear(ctx, m.spare...)
		sym.Assert(err == nil, "clear-ok")
		m.links = map[[2]int]clink{}
	}
}

func linkMarks(ls []cache.Link, err error) string {
	var s []string
	for _, l := range ls {
		a, err := l.Attrs().Get(ctx, "k")
		must(err)
		s = append(s, l.From().String()+l.To().String()+l.UID().String()+a)
	}
	sort.Strings(s)
	r := "[" + strings.Join(s, " ") + "]"
	if err != nil {
		r += "error"
	}
	return r
}

// cacheState describes the cache completely.
func cacheState(c *memcache.Links) string {
	s := ""
	for _, u := range names {
		s += linkMarks(c.GetFrom(ctx, uidOf(u))) + linkMarks(c.GetTo(ctx, uidOf(u)))
	}
	return s
}
