package props

import (
	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// twinCaches are two caches with the same links: up to two (thorough: three) of any pairs.
func twinCaches(uid func(k int) string) (*memcache.Links, *memcache.Links) {
	c, _ := newCache()
	d, _ := newCache()
	for k := sym.Choose("cached", sym.Bound(3, 4)); k > 0; k-- {
		l := mkLinkAttr(names[sym.Choose("from", 3)], names[sym.Choose("to", 3)], uid(k), "l"+types[k])
		must(c.Put(ctx, l))
		must(d.Put(ctx, l))
	}
	return c, d
}

// linkUIDs gives all links one UID, or each its own.
func linkUIDs() func(k int) string {
	same := sym.Bool("one-uid")
	return func(k int) string {
		if same {
			return "l"
		}
		return types[k]
	}
}

// C21_Put: BulkPut of up to two (thorough: three) links, with or without upsert, against the same Puts.
func C21_Put() {
	uid := linkUIDs()
	c, d := newCacheWith(uid)
	var opts []cache.Option
	if sym.Bool("upsert") {
		opts = append(opts, cache.WithUpsert())
	}
	var ls []cache.Link
	for k := sym.Choose("n", sym.Bound(3, 4)); k > 0; k-- {
		ls = append(ls, mkLinkAttr(names[sym.Choose("pfrom", 3)], names[sym.Choose("pto", 3)], uid(4+k), "n"+types[k]))
	}
	sym.Assert(c.BulkPut(ctx, ls, opts...) == nil, "bulkput-ok")
	for _, l := range ls {
		must(d.Put(ctx, l, opts...))
	}
	sym.Assert(cacheState(c) == cacheState(d), "same-state")
}

// newCacheWith are two caches with the same links: none, or some that the others meet.
func newCacheWith(uid func(k int) string) (*memcache.Links, *memcache.Links) {
	c, _ := newCache()
	d, _ := newCache()
	for k, p := range [][2]int{{0, 1}, {1, 1}, {1, 2}} {
		if sym.Bool("cached") {
			l := mkLinkAttr(names[p[0]], names[p[1]], uid(k), "l"+types[k])
			must(c.Put(ctx, l))
			must(d.Put(ctx, l))
		}
	}
	return c, d
}

// C21_Delete: BulkDelete of up to three UIDs, repeats and unknown ones included, against the same Deletes.
func C21_Delete() {
	c, d := twinCaches(linkUIDs())
	l := list(sym.Bound(2, 3))
	us := uids(names, l...)
	if sym.Bool("unknown") {
		us = append([]uuid.UID{uidOf(unknownUID)}, us...)
	}
	sym.Assert(c.BulkDelete(ctx, us) == nil, "bulkdelete-ok")
	for _, u := range us {
		must(d.Delete(ctx, u))
	}
	sym.Assert(cacheState(c) == cacheState(d), "same-state")
}

// C21_Get: BulkGetFrom and BulkGetTo of up to three UIDs, repeats and unknown ones included, on a cache in which links
// may have been deleted.
func C21_Get() {
	c, _ := twinCaches(linkUIDs())
	if sym.Bool("deleted") {
		must(c.Delete(ctx, uidOf(names[sym.Choose("del", 3)])))
	}
	us := uids(names, 0, 1, 2)
	us = append(us, uidOf(unknownUID))
	var req []uuid.UID
	asked := map[string]bool{}
	for k := sym.Choose("n", sym.Bound(3, 4)); k > 0; k-- {
		u := us[sym.Choose("uid", 4)]
		req = append(req, u)
		asked[u.String()] = true
	}
	to := sym.Bool("to")
	single := func(u uuid.UID) string {
		if to {
			return linkMarks(c.GetTo(ctx, u))
		}
		return linkMarks(c.GetFrom(ctx, u))
	}
	before := cacheState(c)
	var got map[uuid.UID][]cache.Link
	var err error
	if to {
		got, err = c.BulkGetTo(ctx, req)
	} else {
		got, err = c.BulkGetFrom(ctx, req)
	}
	sym.Assert(err == nil, "bulkget-ok")
	for _, u := range req {
		if want := single(u); want != "[]" {
			sym.Reach("has-links")
			sym.Assert(linkMarks(got[u], nil) == want, "requested-complete")
		}
	}
	for u, ls := range got {
		sym.Assert(asked[u.String()], "only-requested")
		sym.Assert(linkMarks(ls, nil) == single(u), "same-as-single")
	}
	// what was returned is the caller's own
	for _, ls := range got {
		for i := range ls {
			ls[i] = mkLink("z", "z", "z")
		}
	}
	sym.Assert(cacheState(c) == before, "cache-unchanged")
}
