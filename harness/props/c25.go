package props

import (
	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// dotter is an entity with a DOT ID.
type dotter interface {
	UID() uuid.UID
	Attrs() attrs.Attrs
	DOTID() string
	SetDOTID(string)
}

// entOpts are any combination of the UID, attributes and DOTID options.
type entOpts struct {
	uid, dot, attr          string
	withUID, withA, withDOT bool
}

func anyEntOpts() (entOpts, []entity.Option) {
	o := entOpts{withUID: sym.Bool("with-uid"), withA: sym.Bool("with-attrs"), withDOT: sym.Bool("with-dotid")}
	var opts []entity.Option
	if o.withUID {
		o.uid = sym.String("uid", maxStr)
		opts = append(opts, entity.WithUID(uidOf(o.uid)))
	}
	if o.withA {
		o.attr = sym.String("attr", maxStr)
		opts = append(opts, entity.WithAttrs(attrsOf(attrKey, o.attr)))
	}
	if o.withDOT {
		o.dot = sym.String("dotid", maxStr)
		opts = append(opts, entity.WithDOTID(o.dot))
	}
	return o, opts
}

// common checks UID, attributes and DOT ID of two things built with the same options. def is the default DOT ID, unless
// it is the UID.
func (o entOpts) common(x, y dotter, def string, byUID bool) {
	u := x.UID().String()
	if o.withUID {
		sym.Assert(u == o.uid, "uid-option")
	} else {
		sym.Assert(len(u) == 36 && u != y.UID().String(), "uid-fresh")
	}
	if byUID {
		def = u
	}
	if o.dot != "" {
		def = o.dot
	}
	sym.Assert(x.DOTID() == def, "dotid")
	if o.withA {
		sym.Assert(sym.And(nKeys(x.Attrs(), 1), attrIs(x.Attrs(), attrKey, o.attr)), "attrs-option")
	} else {
		freshPair(x.Attrs(), y.Attrs(), "attrs")
		sym.Assert(attrIs(x.Attrs(), "k", "v"), "attrs-own")
	}
	set, before := sym.String("set", maxStr), y.DOTID()
	x.SetDOTID(set)
	sym.Assert(x.DOTID() == set, "dotid-set")
	sym.Assert(sym.And(x.UID().String() == u, y.DOTID() == before), "dotid-set-only")
}

// C25_Entity: any type and options.
func C25_Entity() {
	defer anyKey()()
	typ := sym.String("type", maxStr)
	o, opts := anyEntOpts()
	x, err := entity.New(typ, opts...)
	must(err)
	y, err := entity.New(typ, opts...)
	must(err)
	o.common(x, y, "", true)
	sym.Assert(x.Type() == typ, "type")
}

// C25_Resource: any names, flag and options.
func C25_Resource() {
	defer anyKey()()
	t, n, g, v, k := sym.String("type", maxStr), sym.String("name", maxStr), sym.String("group", maxStr), sym.String("version", maxStr), sym.String("kind", maxStr)
	nsd := sym.Bool("namespaced")
	o, opts := anyEntOpts()
	x, err := entity.NewResource(t, n, g, v, k, nsd, opts...)
	must(err)
	y, err := entity.NewResource(t, n, g, v, k, nsd, opts...)
	must(err)
	sym.Observe("dotid", x.DOTID() == g+"/"+v+"/"+k)
	o.common(x, y, g+"/"+v+"/"+k, false)
	sym.Assert(x.Type() == t, "type")
	sym.Assert(x.Name() == n, "name")
	sym.Assert(x.Group() == g, "group")
	sym.Assert(x.Version() == v, "version")
	sym.Assert(x.Kind() == k, "kind")
	sym.Assert(x.Namespaced() == nsd, "namespaced")
}

// C25_Object: any names, with or without any resource, and any options.
func C25_Object() {
	defer anyKey()()
	t, n, ns := sym.String("type", maxStr), sym.String("name", maxStr), sym.String("ns", maxStr)
	o, opts := anyEntOpts()
	var r space.Resource
	def, byUID := "", true
	if sym.Bool("with-resource") {
		g, v, k := sym.String("group", maxStr), sym.String("version", maxStr), sym.String("kind", maxStr)
		x, err := entity.NewResource("rt", "rn", g, v, k, true, entity.WithUID(uidOf("r")))
		must(err)
		r, def, byUID = x, g+"/"+v+"/"+k+"/"+ns+"/"+n, false
	}
	x, err := entity.NewObject(t, n, ns, r, opts...)
	must(err)
	y, err := entity.NewObject(t, n, ns, r, opts...)
	must(err)
	o.common(x, y, def, byUID)
	sym.Assert(x.Type() == t, "type")
	sym.Assert(x.Name() == n, "name")
	sym.Assert(x.Namespace() == ns, "namespace")
	if r == nil {
		sym.Assert(x.Resource() == nil, "no-resource")
	} else {
		sym.Assert(x.Resource() != nil && x.Resource().UID().String() == "r", "resource")
		if x.Resource() != nil {
			z := x.Resource()
			sym.Assert(sym.And(z.Group() == r.Group(), z.Version() == r.Version(), z.Kind() == r.Kind(), z.Name() == "rn", z.Type() == "rt", z.Namespaced()), "resource-data")
		}
	}
}

// C25_Link: any end points, equal or not, and any options.
func C25_Link() {
	defer anyKey()()
	f, t := sym.String("from", maxStr), sym.String("to", maxStr)
	withUID, withA := sym.Bool("with-uid"), sym.Bool("with-attrs")
	uid, attr := sym.String("uid", maxStr), sym.String("attr", maxStr)
	var opts []link.Option
	if withUID {
		opts = append(opts, link.WithUID(uidOf(uid)))
	}
	if withA {
		opts = append(opts, link.WithAttrs(attrsOf(attrKey, attr)))
	}
	if sym.Bool("with-merge") {
		opts = append(opts, link.WithMerge(sym.Bool("merge")))
	}
	x, err := link.New(uidOf(f), uidOf(t), opts...)
	must(err)
	y, err := link.New(uidOf(f), uidOf(t), opts...)
	must(err)
	u := x.UID().String()
	if withUID {
		sym.Assert(u == uid, "uid-option")
	} else {
		sym.Assert(len(u) == 36 && u != y.UID().String(), "uid-fresh")
	}
	if withA {
		sym.Assert(sym.And(nKeys(x.Attrs(), 1), attrIs(x.Attrs(), attrKey, attr)), "attrs-option")
	} else {
		freshPair(x.Attrs(), y.Attrs(), "attrs")
		sym.Assert(attrIs(x.Attrs(), "k", "v"), "attrs-own")
	}
	sym.Assert(x.From().String() == f, "from")
	sym.Assert(x.To().String() == t, "to")
}
