package props

import (
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/space/marshal"
)

// text makes symbolic strings of up to n bytes, or ASCII ones.
type text struct {
	n     int
	ascii bool
}

func (t text) str(name string) string {
	if t.ascii {
		return sym.ASCII(name, 0, t.n)
	}
	return sym.String(name, t.n)
}

// wire is a value of any of the four kinds with everything it was built from.
type wire struct {
	kind                  int
	uid, typ, name, ns    string
	group, version, kname string
	nsd                   bool
	from, to              string
	attr                  *amodel
	res                   *wire
	a                     attrs.Attrs
	own                   bool // netscrape's own even where values are foreign
}

const (
	wEntity = iota
	wResource
	wObject
	wObjectRes
	wLink
)

func anyWire(kind int, t text, keys int) *wire {
	w := &wire{kind: kind, uid: t.str("uid"), attr: &amodel{}}
	a := memattrs.New()
	for i := sym.Choose("keys", keys+1); i > 0; i-- {
		k, v := t.str("key"), t.str("val")
		must(a.Set(ctx, k, v))
		w.attr.set(k, v)
	}
	w.a = a
	if kind == wLink {
		w.from, w.to = t.str("from"), t.str("to")
		return w
	}
	w.typ = t.str("type")
	if kind == wEntity {
		return w
	}
	w.name = t.str("name")
	if kind == wResource {
		w.group, w.version, w.kname, w.nsd = t.str("group"), t.str("version"), t.str("kind"), sym.Bool("namespaced")
		return w
	}
	w.ns = t.str("ns")
	if kind == wObjectRes {
		w.res = anyWire(wResource, t, keys)
	}
	return w
}

func (w *wire) entity() space.Entity {
	if foreign.on && !w.own {
		return plainEntity{uidOf(w.uid), w.typ, foreignAttrs{w.a}}
	}
	e, err := entity.New(w.typ, entity.WithUID(uidOf(w.uid)), entity.WithAttrs(w.a))
	must(err)
	return e
}

func (w *wire) resource() space.Resource {
	if foreign.on && !w.own {
		return foreignResource{w}
	}
	r, err := entity.NewResource(w.typ, w.name, w.group, w.version, w.kname, w.nsd, entity.WithUID(uidOf(w.uid)), entity.WithAttrs(w.a))
	must(err)
	return r
}

func (w *wire) object() space.Object {
	if foreign.on && !w.own {
		return foreignObject{w}
	}
	var r space.Resource
	if w.res != nil {
		r = w.res.resource()
	}
	o, err := entity.NewObject(w.typ, w.name, w.ns, r, entity.WithUID(uidOf(w.uid)), entity.WithAttrs(w.a))
	must(err)
	return o
}

func (w *wire) link() space.Link {
	if foreign.on && !w.own {
		return foreignLink{w.uid, w.from, w.to, foreignAttrs{w.a}}
	}
	l, err := link.New(uidOf(w.from), uidOf(w.to), link.WithUID(uidOf(w.uid)), link.WithAttrs(w.a))
	must(err)
	return l
}

func (w *wire) value() interface{} {
	switch w.kind {
	case wEntity:
		return w.entity()
	case wResource:
		return w.resource()
	case wLink:
		return w.link()
	}
	return w.object()
}

// attrsAre compares attributes with those the value was built with.
func (w *wire) attrsAre(a attrs.Attrs, id string) {
	sym.Assert(a != nil && nKeys(a, len(w.attr.keys)), id+"attrs-count")
	for i, k := range w.attr.keys {
		sym.Assert(attrIs(a, k, w.attr.vals[i]), id+"attrs")
	}
}

func (w *wire) isEntity(e space.Entity, id string) {
	sym.Assert(e.UID().String() == w.uid, id+"uid")
	sym.Assert(e.Type() == w.typ, id+"type")
	w.attrsAre(e.Attrs(), id)
}

func (w *wire) isResource(r space.Resource, id string) {
	w.isEntity(r, id)
	sym.Assert(r.Name() == w.name, id+"name")
	sym.Assert(sym.And(r.Group() == w.group, r.Version() == w.version, r.Kind() == w.kname), id+"gvk")
	sym.Assert(r.Namespaced() == w.nsd, id+"namespaced")
}

func (w *wire) isObject(o space.Object, id string) {
	w.isEntity(o, id)
	sym.Assert(sym.And(o.Name() == w.name, o.Namespace() == w.ns), id+"names")
	if w.res == nil {
		sym.Assert(o.Resource() == nil, id+"no-resource")
		return
	}
	sym.Assert(o.Resource() != nil, id+"resource")
	if o.Resource() != nil {
		w.res.isResource(o.Resource(), id+"resource-")
	}
}

func (w *wire) isLink(l space.Link, id string) {
	sym.Assert(l.UID().String() == w.uid, id+"uid")
	sym.Assert(sym.And(l.From().String() == w.from, l.To().String() == w.to), id+"ends")
	w.attrsAre(l.Attrs(), id)
}

// unshared changes the attributes of the original and checks that the copy is as it was.
func (w *wire) unshared(copy attrs.Attrs) {
	must(w.a.Set(ctx, newKey, "x"))
	for _, k := range w.attr.keys {
		must(w.a.Set(ctx, k, "changed"))
	}
	w.attrsAre(copy, "after-")
	must(copy.Set(ctx, newKey+"2", "x"))
	sym.Assert(nKeys(w.a, len(w.attr.keys)+1) || w.attr.get(newKey) != "", "original-after")
}

// wireMap compares the map of a serialisable form.
func (w *wire) mapIs(m map[string]string) {
	sym.Assert(len(m) == len(w.attr.keys), "form-attrs-count")
	for i, k := range w.attr.keys {
		sym.Assert(m[k] == w.attr.vals[i], "form-attrs")
	}
}

// C26_Entity: any entity with up to two attributes; all strings of any bytes, up to 32 of them.
func C26_Entity() {
	w := anyWire(wEntity, text{n: maxStr}, 2)
	f, err := marshal.EntityFromSpace(w.entity())
	must(err)
	sym.Assert(sym.And(f.UID == w.uid, f.Type == w.typ), "form")
	w.mapIs(f.Attrs)
	e, err := marshal.EntityToSpace(*f)
	must(err)
	w.isEntity(e, "")
	f.Attrs[newKey+"3"] = "x"
	w.attrsAre(e.Attrs(), "form-changed-")
	w.unshared(e.Attrs())
}

// C26_Resource: any resource.
func C26_Resource() {
	w := anyWire(wResource, text{n: maxStr}, sym.Bound(1, 2))
	f, err := marshal.ResourceFromSpace(w.resource())
	must(err)
	sym.Assert(sym.And(f.UID == w.uid, f.Type == w.typ, f.Name == w.name, f.Group == w.group, f.Version == w.version, f.Kind == w.kname, f.Namespaced == w.nsd), "form")
	w.mapIs(f.Attrs)
	r, err := marshal.ResourceToSpace(*f)
	must(err)
	w.isResource(r, "")
	f.Attrs[newKey+"3"] = "x"
	w.attrsAre(r.Attrs(), "form-changed-")
	w.unshared(r.Attrs())
}

// C26_Object: any object, without a resource or with any one.
func C26_Object() {
	kind := wObject
	if sym.Bool("with-resource") {
		kind = wObjectRes
	}
	w := anyWire(kind, text{n: maxStr}, 1)
	f, err := marshal.ObjectFromSpace(w.object())
	must(err)
	sym.Assert(sym.And(f.UID == w.uid, f.Type == w.typ, f.Name == w.name, f.Namespace == w.ns, (f.Resource == nil) == (w.res == nil)), "form")
	w.mapIs(f.Attrs)
	o, err := marshal.ObjectToSpace(*f)
	must(err)
	w.isObject(o, "")
	w.unshared(o.Attrs())
	if w.res != nil && o.Resource() != nil {
		w.res.unshared(o.Resource().Attrs())
	}
}

// C26_Link: any link.
func C26_Link() {
	w := anyWire(wLink, text{n: maxStr}, 2)
	f, err := marshal.LinkFromSpace(w.link())
	must(err)
	sym.Assert(sym.And(f.UID == w.uid, f.From == w.from, f.To == w.to), "form")
	w.mapIs(f.Attrs)
	l, err := marshal.LinkToSpace(*f)
	must(err)
	w.isLink(l, "")
	f.Attrs[newKey+"3"] = "x"
	w.attrsAre(l.Attrs(), "form-changed-")
	w.unshared(l.Attrs())
}

// C26_Error: attributes that cannot be read, of the value or of its resource.
func C26_Error() {
	bad := unreadable()
	w := &wire{uid: "u", attr: &amodel{}, a: bad}
	good := &wire{uid: "u", attr: &amodel{}, a: memattrs.New()}
	var err error
	var none bool
	switch sym.Choose("kind", 5) {
	case 0:
		f, e := marshal.EntityFromSpace(w.entity())
		err, none = e, f == nil
	case 1:
		f, e := marshal.ResourceFromSpace(w.resource())
		err, none = e, f == nil
	case 2:
		f, e := marshal.ObjectFromSpace(w.object())
		err, none = e, f == nil
	case 3:
		good.res = w
		f, e := marshal.ObjectFromSpace(good.object())
		err, none = e, f == nil
	case 4:
		f, e := marshal.LinkFromSpace(w.link())
		err, none = e, f == nil
	}
	sym.Assert(errors.Is(err, bad.err), "error-returned")
	sym.Assert(none, "nothing-else-returned")
}

// C26_ToSpace: any serialisable form, its attributes missing or not, gives the value it describes.
func C26_ToSpace() {
	t := text{n: maxStr}
	w := &wire{uid: t.str("uid"), typ: t.str("type"), attr: &amodel{}}
	var m map[string]string
	if sym.Bool("attrs") {
		k, v := t.str("key"), t.str("val")
		m = map[string]string{k: v}
		w.attr.set(k, v)
	}
	e := marshal.Entity{UID: w.uid, Type: w.typ, Attrs: m}
	w.name = t.str("name")
	switch sym.Choose("kind", 4) {
	case 0:
		x, err := marshal.EntityToSpace(e)
		must(err)
		w.isEntity(x, "")
	case 1:
		w.group, w.version, w.kname, w.nsd = t.str("group"), t.str("version"), t.str("kind"), sym.Bool("namespaced")
		x, err := marshal.ResourceToSpace(marshal.Resource{Entity: e, Name: w.name, Group: w.group, Version: w.version, Kind: w.kname, Namespaced: w.nsd})
		must(err)
		w.isResource(x, "")
	case 2:
		w.ns = t.str("ns")
		o := marshal.Object{Entity: e, Name: w.name, Namespace: w.ns}
		if sym.Bool("with-resource") {
			w.res = &wire{uid: t.str("uid"), name: t.str("name"), attr: &amodel{}}
			o.Resource = &marshal.Resource{Entity: marshal.Entity{UID: w.res.uid}, Name: w.res.name}
		}
		x, err := marshal.ObjectToSpace(o)
		must(err)
		w.isObject(x, "")
	case 3:
		w.from, w.to = t.str("from"), t.str("to")
		x, err := marshal.LinkToSpace(marshal.Link{UID: w.uid, From: w.from, To: w.to, Attrs: m})
		must(err)
		w.isLink(x, "")
	}
}
