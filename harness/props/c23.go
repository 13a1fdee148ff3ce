package props

import (
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
)

// mres is the reference of a resource in a plan.
type mres struct{ group, version, kind string }

// anyResource is a resource of any group, version and kind.
func anyResource(uid string) (plan.Resource, *mres) {
	m := &mres{sym.String("group", maxStr), sym.String("version", maxStr), sym.String("kind", maxStr)}
	if foreign.on {
		return foreignGVK{uid, m.group, m.version, m.kind}, m
	}
	r, err := entity.NewResource("type", "name", m.group, m.version, m.kind, true, entity.WithUID(uidOf(uid)))
	must(err)
	return r, m
}

func (m *mres) is(r plan.Resource) bool {
	return sym.And(r.Group() == m.group, r.Version() == m.version, r.Kind() == m.kind)
}

// checkPlan compares every lookup and the listing with the reference.
func checkPlan(p *simple.Simple, us []string, in []*mres) {
	n := 0
	for i, u := range us {
		r, err := p.Get(ctx, uidOf(u))
		if in[i] == nil {
			sym.Assert(r == nil && errors.Is(err, plan.ErrResourceNotFound), "missing")
			continue
		}
		n++
		sym.Assert(err == nil && r != nil, "found")
		if err == nil && r != nil {
			sym.Assert(sym.And(r.UID().String() == u, in[i].is(r)), "last-added")
		}
	}
	all, err := p.GetAll(ctx)
	sym.Assert(err == nil && len(all) == n, "all-count")
	seen := map[int]bool{}
	for _, r := range all {
		for i, u := range us {
			if in[i] != nil && r != nil && r.UID().String() == u {
				sym.Assert(in[i].is(r), "all-resource")
				sym.Assert(!seen[i], "all-once")
				seen[i] = true
			}
		}
	}
	sym.Assert(len(seen) == n, "all-complete")
}

// C23_History: four (thorough: five) Adds and Deletes of any resources under any of two (three) UIDs of any string,
// every UID a value of its own.
func C23_History() {
	n := sym.Bound(2, 3)
	us := symUIDs(n)
	p, err := simple.NewSimple()
	must(err)
	in := make([]*mres, n)
	for k := 0; k < sym.Bound(4, 5); k++ {
		i := sym.Choose("which", n)
		if sym.Bool("add") {
			r, m := anyResource(us[i])
			sym.Assert(p.Add(ctx, r) == nil, "add-ok")
			in[i] = m
		} else {
			sym.Assert(p.Delete(ctx, uidOf(us[i])) == nil, "delete-ok")
			in[i] = nil
		}
		checkPlan(p, us, in)
	}
}

// C23_Step: any plan over four resources, then an Add or Delete of any of five UIDs.
func C23_Step() {
	us := []string{"a", "b", "c", "d", "e"}
	in := make([]*mres, len(us))
	p, err := simple.NewSimple()
	must(err)
	for i := range us[:4] {
		if sym.Bool("in") {
			r, m := anyResource(us[i])
			must(p.Add(ctx, r))
			in[i] = m
		}
	}
	i := sym.Choose("which", len(us))
	if sym.Bool("add") {
		r, m := anyResource(us[i])
		sym.Assert(p.Add(ctx, r) == nil, "add-ok")
		in[i] = m
	} else {
		sym.Assert(p.Delete(ctx, uidOf(us[i])) == nil, "delete-ok")
		in[i] = nil
	}
	checkPlan(p, us, in)
	// the listing is the caller's own
	all, err := p.GetAll(ctx)
	must(err)
	for k := range all {
		all[k] = resource("z", "z")
	}
	checkPlan(p, us, in)
}
