package props

import (
	"errors"
	"sort"
	"strings"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
)

const (
	coPut = iota
	coUpsert
	coDelete
	coClear
	coFrom
	coTo
	coBulkPut
	coBulkFrom
	coBulkTo
	coBulkDelete
	nCops
)

// cop is one cache operation of a concurrent harness.
type cop struct{ kind, a, b, mark int }

// steps are the single operations a bulk one stands for.
func (o cop) steps() []cop {
	x, y := o, o
	y.a, y.b = o.b, o.a
	switch o.kind {
	case coBulkPut:
		x.kind, y.kind = coPut, coPut
	case coBulkFrom:
		x.kind, y.kind = coFrom, coFrom
	case coBulkTo:
		x.kind, y.kind = coTo, coTo
	case coBulkDelete:
		x.kind, y.kind = coDelete, coDelete
	default:
		return []cop{o}
	}
	return []cop{x, y}
}

func ok(err error) string {
	if err != nil {
		return "error"
	}
	return ""
}

func (o cop) do(c *memcache.Links) string {
	a, b := names[o.a], names[o.b]
	l := func(f, t string) cache.Link { return mkLink(f, t, types[o.mark]) }
	both := uids(names, o.a, o.b)
	switch o.kind {
	case coPut:
		return ok(c.Put(ctx, l(a, b)))
	case coUpsert:
		return ok(c.Put(ctx, l(a, b), cache.WithUpsert()))
	case coDelete:
		return ok(c.Delete(ctx, uidOf(a)))
	case coClear:
		return ok(c.Clear(ctx))
	case coFrom:
		return linkMarks(c.GetFrom(ctx, uidOf(a)))
	case coTo:
		return linkMarks(c.GetTo(ctx, uidOf(a)))
	case coBulkPut:
		return ok(c.BulkPut(ctx, []cache.Link{l(a, b), l(b, a)}))
	case coBulkFrom:
		m, err := c.BulkGetFrom(ctx, both)
		return linkMarks(m[both[0]], err) + linkMarks(m[both[1]], err)
	case coBulkTo:
		m, err := c.BulkGetTo(ctx, both)
		return linkMarks(m[both[0]], err) + linkMarks(m[both[1]], err)
	case coBulkDelete:
		return ok(c.BulkDelete(ctx, both))
	}
	return ""
}

func pickCop(mark int, kinds ...int) cop {
	o := cop{mark: mark, b: 1}
	if len(kinds) == 0 {
		o.kind = sym.Choose("op", nCops)
	} else {
		o.kind = kinds[sym.Choose("op", len(kinds))]
	}
	if o.kind != coClear {
		o.a = sym.Choose("uid", 2)
		o.b = 1 - o.a
	}
	return o
}

// atomicCache runs the threads concurrently; results and content match a sequential order of the single operations.
func atomicCache(mk func() *memcache.Links, threads [][]cop, preempt int) {
	c := mk()
	res := make([]string, len(threads))
	var fs []func()
	for t := range threads {
		t := t
		fs = append(fs, func() {
			for _, o := range threads[t] {
				res[t] += o.do(c) + "/"
			}
		})
	}
	sym.Preempt(preempt)
	sym.Par(fs...)
	sym.Preempt(0)
	got := strings.Join(res, "//") + cacheState(c)
	var lens []int
	flat := make([][]cop, len(threads))
	for t := range threads {
		for _, o := range threads[t] {
			flat[t] = append(flat[t], o.steps()...)
		}
		lens = append(lens, len(flat[t]))
	}
	found := false
	merges(lens, func(order []int) {
		if found {
			return
		}
		h := mk()
		next := make([]int, len(threads))
		one := make([][]string, len(threads))
		for _, t := range order {
			one[t] = append(one[t], flat[t][next[t]].do(h))
			next[t]++
		}
		seq := make([]string, len(threads))
		for t := range threads {
			k := 0
			for _, o := range threads[t] {
				for range o.steps() {
					seq[t] += one[t][k]
					k++
				}
				seq[t] += "/"
			}
		}
		found = strings.Join(seq, "//")+cacheState(h) == got
	})
	sym.Assert(found, "matches-a-sequential-order")
}

func startCache(links int) *memcache.Links {
	c, err := memcache.NewLinks()
	must(err)
	for k, p := range [][2]int{{0, 1}, {1, 0}, {1, 2}} {
		if links&(1<<k) != 0 {
			must(c.Put(ctx, mkLink(names[p[0]], names[p[1]], "old")))
		}
	}
	return c
}

// C22_Pairs: any two cache operations at once on a cache holding any of three links; at most 2 (thorough: 4) preemptions.
func C22_Pairs() {
	links := sym.Choose("links", 8)
	x, y := pickCop(0), pickCop(1)
	atomicCache(func() *memcache.Links { return startCache(links) }, [][]cop{{x}, {y}}, sym.Bound(2, 4))
}

// C22_Readers: a reader of both indexes against two updates in other goroutines.
func C22_Readers() {
	x := pickCop(0, coPut, coUpsert, coDelete, coClear)
	y := pickCop(1, coPut, coUpsert, coDelete, coClear)
	links := 7 * sym.Choose("links", 2)
	atomicCache(func() *memcache.Links { return startCache(links) }, [][]cop{{{kind: coFrom}, {kind: coTo, a: 1}}, {x}, {y}}, sym.Bound(1, 2))
}

// C22_Updates: two updates in one goroutine and one in another.
func C22_Updates() {
	x := pickCop(0, coPut, coUpsert, coDelete, coClear)
	y := pickCop(1, coPut, coUpsert, coDelete, coClear)
	z := pickCop(2, coUpsert, coDelete, coClear, coBulkPut, coBulkDelete)
	atomicCache(func() *memcache.Links { return startCache(3) }, [][]cop{{x, y}, {z}}, sym.Bound(1, 3))
}

const (
	poAdd = iota
	poGet
	poAll
	poDelete
	nPops
)

// pop is one plan operation of a concurrent harness.
type pop struct{ kind, a, mark int }

func resource(uid, kind string) plan.Resource {
	r, err := entity.NewResource("type", "name", "group", "version", kind, true, entity.WithUID(uidOf(uid)))
	must(err)
	return r
}

func resMark(r plan.Resource) string { return r.UID().String() + r.Kind() }

func (o pop) do(p *simple.Simple) string {
	switch o.kind {
	case poAdd:
		return ok(p.Add(ctx, resource(names[o.a], types[o.mark])))
	case poGet:
		r, err := p.Get(ctx, uidOf(names[o.a]))
		if err != nil {
			if errors.Is(err, plan.ErrResourceNotFound) {
				return "missing"
			}
			return "error"
		}
		return resMark(r)
	case poAll:
		rs, err := p.GetAll(ctx)
		var s []string
		for _, r := range rs {
			s = append(s, resMark(r))
		}
		sort.Strings(s)
		return strings.Join(s, ",") + ok(err)
	case poDelete:
		return ok(p.Delete(ctx, uidOf(names[o.a])))
	}
	return ""
}

func planState(p *simple.Simple) string {
	s := pop{kind: poAll}.do(p)
	for i := range names {
		s += ";" + pop{kind: poGet, a: i}.do(p)
	}
	return s
}

// C22_Plan: one operation of any kind in one goroutine and two of any kind in another, on a plan with any of two
// resources; results and content match a sequential order.
func C22_Plan() {
	res := sym.Choose("resources", 4)
	mk := func() *simple.Simple {
		p, err := simple.NewSimple()
		must(err)
		for i := 0; i < 2; i++ {
			if res&(1<<i) != 0 {
				must(p.Add(ctx, resource(names[i], "old")))
			}
		}
		return p
	}
	var ops []pop
	for k := 0; k < 3; k++ {
		o := pop{kind: sym.Choose("op", nPops), mark: k}
		if o.kind != poAll {
			o.a = sym.Choose("uid", 2)
		}
		ops = append(ops, o)
	}
	threads := [][]pop{{ops[0]}, {ops[1], ops[2]}}
	run := func(p *simple.Simple, order []int) string {
		out := make([]string, 2)
		next := make([]int, 2)
		for _, t := range order {
			out[t] += threads[t][next[t]].do(p) + "/"
			next[t]++
		}
		return strings.Join(out, "//") + planState(p)
	}
	p := mk()
	out := make([]string, 2)
	sym.Preempt(sym.Bound(2, 3))
	sym.Par(func() { out[0] = ops[0].do(p) + "/" }, func() { out[1] = ops[1].do(p) + "/"; out[1] += ops[2].do(p) + "/" })
	sym.Preempt(0)
	got := strings.Join(out, "//") + planState(p)
	found := false
	merges([]int{1, 2}, func(order []int) {
		if !found {
			found = run(mk(), order) == got
		}
	})
	sym.Assert(found, "matches-a-sequential-order")
}
