package props

import (
	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/marshal/json"
)

func marshaler() *json.Marshaler {
	m, err := json.NewMarshaler()
	must(err)
	return m
}

// roundTrip marshals the value and unmarshals it into its kind.
func (w *wire) roundTrip() { w.roundTripBy(marshaler()) }

func (w *wire) roundTripBy(m *json.Marshaler) {
	b, err := m.Marshal(w.value())
	sym.Assert(err == nil, "marshal-ok")
	if err != nil {
		return
	}
	switch w.kind {
	case wEntity:
		var e space.Entity
		err = m.Unmarshal(b, &e)
		sym.Assert(err == nil && e != nil, "unmarshal-ok")
		if e != nil {
			w.isEntity(e, "")
			w.unshared(e.Attrs())
		}
	case wResource:
		var r space.Resource
		err = m.Unmarshal(b, &r)
		sym.Assert(err == nil && r != nil, "unmarshal-ok")
		if r != nil {
			w.isResource(r, "")
			w.unshared(r.Attrs())
		}
	case wLink:
		var l space.Link
		err = m.Unmarshal(b, &l)
		sym.Assert(err == nil && l != nil, "unmarshal-ok")
		if l != nil {
			w.isLink(l, "")
			w.unshared(l.Attrs())
		}
	default:
		var o space.Object
		err = m.Unmarshal(b, &o)
		sym.Assert(err == nil && o != nil, "unmarshal-ok")
		if o != nil {
			w.isObject(o, "")
			w.unshared(o.Attrs())
		}
	}
}

// C27_RoundTrip: any value of any kind with up to one (links and entities: two) attributes, all strings any ASCII of up to 24 characters.
func C27_RoundTrip() {
	kind := sym.Choose("kind", 5)
	keys := 1
	if kind == wEntity || kind == wLink {
		keys = 2
	}
	anyWire(kind, text{maxText, true}, keys).roundTrip()
}

// awkward are strings that JSON escapes, that look like JSON or like an escape of it, or that take several bytes.
var awkward = []string{"", "\u00e9", "\u2028", "\U0001F600", "<&>", "\"\\\n\x00", "\ufffd", "null", "\\", "\\\\", "\\u0026", "x\\u0026y", "\\u003c", "\\n", "&amp;",
	"%", "%d", "%%", "{", "}", "[1]", ":", ",", "\"", " x ", "\t", "\x7f", "\u200b", "\ufeff", "e\u0301", "a/b", "true", "0", "{}", "uid"}

// C27_Unicode: values of every kind with any of those strings in any one place, or in every place.
func C27_Unicode() {
	kind := sym.Choose("kind", 5)
	x, where := awkward[sym.Choose("text", len(awkward))], sym.Choose("where", 14)
	s := func(k int) string {
		if where == k || where == 13 {
			return x
		}
		return "p"
	}
	w := &wire{kind: kind, uid: s(0), attr: &amodel{}}
	if where == 1 || where == 2 || where == 13 || sym.Bool("keyed") {
		w.attr.set(s(1), s(2))
		w.attr.set("q", s(12))
	}
	w.a = attrsFrom(w.attr)
	w.typ, w.name, w.ns, w.group, w.version, w.kname, w.from, w.to = s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10)
	if w.kind == wObjectRes {
		w.res = &wire{kind: wResource, uid: s(11), typ: s(3), name: s(4), group: s(6), version: s(7), kname: s(8), nsd: true, attr: w.attr.clone()}
		w.res.a = attrsFrom(w.res.attr)
	}
	w.roundTrip()
}

// C27_Twice: the bytes of one value do not change when another is marshalled or the first is changed.
func C27_Twice() {
	kind := sym.Choose("kind", 5)
	v, w := anyWire(kind, text{maxText, true}, 1), anyWire(sym.Choose("other", 5), text{maxText, true}, 0)
	m := marshaler()
	b, err := m.Marshal(v.value())
	must(err)
	_, err = m.Marshal(w.value())
	must(err)
	must(v.a.Set(ctx, newKey, "x"))
	switch kind {
	case wEntity:
		var e space.Entity
		must(m.Unmarshal(b, &e))
		v.isEntity(e, "")
	case wResource:
		var r space.Resource
		must(m.Unmarshal(b, &r))
		v.isResource(r, "")
	case wLink:
		var l space.Link
		must(m.Unmarshal(b, &l))
		v.isLink(l, "")
	default:
		var o space.Object
		must(m.Unmarshal(b, &o))
		v.isObject(o, "")
	}
}
