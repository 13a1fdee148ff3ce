package props

import (
	"errors"

	"nsverif/sym"

	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/marshal"
	"github.com/milosgajdos/netscrape/pkg/space/marshal/json"
)

// unsupported are values that are not of a kind with a wire form. As targets most are no pointers to one either.
func unsupported(k int) interface{} {
	e := (&wire{uid: "u", attr: &amodel{}, a: memattrs.New()}).entity()
	n := 0
	switch k {
	case 0:
		return nil
	case 1:
		return 1
	case 2:
		return "x"
	case 3:
		return struct{ UID string }{"x"}
	case 4:
		return &n
	case 5:
		return []byte("x")
	case 6:
		return []space.Entity{e}
	case 7:
		return map[string]string{"uid": "x"}
	case 8:
		return &e
	case 9:
		return marshal.Entity{UID: "x"}
	case 10:
		return &marshal.Entity{UID: "x"}
	case 11:
		return e
	}
	return &ownErr{}
}

// C28_Unsupported: marshalling and unmarshalling values of other types, from valid and invalid bytes.
func C28_Unsupported() {
	m := marshaler()
	if sym.Bool("marshal") {
		k := sym.Choose("value", 12)
		if k == 11 {
			k = 12
		}
		b, err := m.Marshal(unsupported(k))
		sym.Assert(errors.Is(err, marshal.ErrUnsuportedType), "marshal-unsupported")
		sym.Assert(len(b) == 0, "marshal-nothing")
		return
	}
	k := sym.Choose("value", 13)
	if k == 8 {
		k = 9
	}
	doc := &sym.J{Kind: sym.JObj, Keys: []string{"uid"}, Elems: []*sym.J{{Kind: sym.JStr, Str: "x"}}}
	if sym.Bool("bad") {
		doc = &sym.J{Kind: sym.JBad}
	}
	err := m.Unmarshal(sym.JSON(doc), unsupported(k))
	sym.Assert(errors.Is(err, marshal.ErrUnsuportedType), "unmarshal-unsupported")
}

// jtarget is a target of one of the four kinds, empty or holding a value.
type jtarget struct {
	kind int
	full bool
	old  *wire
	e    space.Entity
	r    space.Resource
	o    space.Object
	l    space.Link
}

func newTarget(kind int) *jtarget {
	t := &jtarget{kind: kind, full: sym.Bool("target-full")}
	if !t.full {
		return t
	}
	w := &wire{kind: kind, uid: "old", typ: "old", name: "old", ns: "old", group: "old", version: "old", kname: "old", nsd: true, from: "old", to: "old", attr: &amodel{}}
	w.attr.set("old", "old")
	w.a = attrsFrom(w.attr)
	t.old = w
	switch kind {
	case wEntity:
		t.e = w.entity()
	case wResource:
		t.r = w.resource()
	case wObject:
		r := *w
		r.attr = w.attr.clone()
		w.res = &r
		r.a = attrsFrom(r.attr)
		t.o = w.object()
	case wLink:
		t.l = w.link()
	}
	return t
}

func (t *jtarget) unmarshal(b []byte) error {
	return t.unmarshalBy(marshaler(), b)
}

func (t *jtarget) unmarshalBy(m *json.Marshaler, b []byte) error {
	switch t.kind {
	case wEntity:
		return m.Unmarshal(b, &t.e)
	case wResource:
		return m.Unmarshal(b, &t.r)
	case wObject:
		return m.Unmarshal(b, &t.o)
	}
	return m.Unmarshal(b, &t.l)
}

func (t *jtarget) set() bool {
	switch t.kind {
	case wEntity:
		return t.e != nil
	case wResource:
		return t.r != nil
	case wObject:
		return t.o != nil
	}
	return t.l != nil
}

func (t *jtarget) is(w *wire, id string) {
	sym.Assert(t.set(), id+"set")
	if !t.set() {
		return
	}
	switch t.kind {
	case wEntity:
		w.isEntity(t.e, id)
	case wResource:
		w.isResource(t.r, id)
	case wObject:
		w.isObject(t.o, id)
	case wLink:
		w.isLink(t.l, id)
	}
}

func (t *jtarget) untouched() {
	if t.full {
		t.is(t.old, "untouched-")
	} else {
		sym.Assert(!t.set(), "untouched-empty")
	}
}

// C28_Invalid: texts that are not valid JSON, or not an object.
func C28_Invalid() {
	bad := []string{"", " ", "{", "}", "[", "nul", "tru", `"x"`, `"x`, "1", "-", "true", "[]", `[{"uid":"a"}]`, `{"uid"}`, `{"uid":}`, `{"uid":"a"`,
		`{"uid":"a",}`, `{"uid":"a"}}`, `{"uid":"a"} x`, `{uid:"a"}`, `{"uid":'a'}`, `{"uid":"a" "type":"b"}`, "{\"uid\":\"a\nb\"}", `{"uid":"\x"}`, `{"uid":01}`}
	t := newTarget([]int{wEntity, wResource, wObject, wLink}[sym.Choose("kind", 4)])
	err := t.unmarshal([]byte(bad[sym.Choose("text", len(bad))]))
	sym.Assert(err != nil, "error")
	t.untouched()
}

const (
	fStr = iota
	fBool
	fMap
	fRes
)

type jfield struct {
	name string
	typ  int
}

func fieldsOf(kind int) []jfield {
	switch kind {
	case wEntity:
		return []jfield{{"uid", fStr}, {"type", fStr}, {"attrs", fMap}}
	case wResource:
		return []jfield{{"uid", fStr}, {"type", fStr}, {"attrs", fMap}, {"name", fStr}, {"group", fStr}, {"version", fStr}, {"kind", fStr}, {"namespaced", fBool}}
	case wObject:
		return []jfield{{"uid", fStr}, {"type", fStr}, {"attrs", fMap}, {"name", fStr}, {"namespace", fStr}, {"resource", fRes}}
	}
	return []jfield{{"uid", fStr}, {"from", fStr}, {"to", fStr}, {"attrs", fMap}}
}

func (w *wire) setStr(kind int, name, v string) {
	switch name {
	case "uid":
		w.uid = v
	case "type":
		w.typ = v
	case "name":
		w.name = v
	case "group":
		w.group = v
	case "version":
		w.version = v
	case "kind":
		w.kname = v
	case "namespace":
		w.ns = v
	case "from":
		w.from = v
	case "to":
		w.to = v
	}
}

// valid is a value of the field's own type, noted in w.
func (w *wire) valid(kind int, f jfield) *sym.J {
	switch f.typ {
	case fStr:
		s := sym.ASCII("str", 0, maxText)
		w.setStr(kind, f.name, s)
		return &sym.J{Kind: sym.JStr, Str: s}
	case fBool:
		w.nsd = sym.Bool("flag")
		return &sym.J{Kind: sym.JBool, Bool: w.nsd}
	case fMap:
		k, v := sym.ASCII("key", 0, maxText), sym.ASCII("val", 0, 1)
		w.attr.set(k, v)
		return &sym.J{Kind: sym.JObj, Keys: []string{k}, Elems: []*sym.J{{Kind: sym.JStr, Str: v}}}
	}
	w.res = &wire{kind: wResource, attr: &amodel{}}
	return w.res.doc(wResource, 0)
}

// odd is a value of any JSON type for the field; it reports whether the field can take it, and notes it if so.
func (w *wire) odd(kind int, f jfield, depth int) (*sym.J, bool) {
	str := &sym.J{Kind: sym.JStr, Str: "s"}
	switch c := sym.Choose("json", 9); c {
	case 0:
		return &sym.J{Kind: sym.JNull}, true
	case 1:
		if f.typ == fBool {
			w.nsd = true
		}
		return &sym.J{Kind: sym.JBool, Bool: true}, f.typ == fBool
	case 2:
		return &sym.J{Kind: sym.JNum, Str: "7"}, false
	case 3:
		if f.typ == fStr {
			w.setStr(kind, f.name, "s")
		}
		return str, f.typ == fStr
	case 4:
		return &sym.J{Kind: sym.JArr, Elems: []*sym.J{str}}, false
	case 5, 6, 7:
		// an object: empty, or with a string or a null in it
		j := &sym.J{Kind: sym.JObj}
		if c > 5 {
			j.Keys = []string{"k"}
			j.Elems = []*sym.J{str}
			if c == 7 {
				j.Elems[0] = &sym.J{Kind: sym.JNull}
			}
		}
		if f.typ == fMap && c == 6 {
			w.attr.set("k", "s")
		}
		if f.typ == fMap && c == 7 {
			w.attr.set("k", "")
		}
		if f.typ == fRes {
			w.res = &wire{kind: wResource, attr: &amodel{}}
		}
		return j, f.typ == fMap || f.typ == fRes
	}
	if f.typ == fRes && depth < 1 {
		// a resource with an odd field of its own
		w.res = &wire{kind: wResource, attr: &amodel{}}
		return w.res.oddDoc(wResource, depth+1)
	}
	return &sym.J{Kind: sym.JObj, Keys: []string{"k"}, Elems: []*sym.J{{Kind: sym.JNum, Str: "7"}}}, f.typ == fRes && func() bool { w.res = &wire{kind: wResource, attr: &amodel{}}; return true }()
}

// doc is a document with every field valid.
func (w *wire) doc(kind, depth int) *sym.J {
	j := &sym.J{Kind: sym.JObj}
	for _, f := range fieldsOf(kind) {
		j.Keys = append(j.Keys, f.name)
		j.Elems = append(j.Elems, w.valid(kind, f))
	}
	return j
}

// oddDoc is a document in which one field has a value of any JSON type, and the others are all there or all missing.
func (w *wire) oddDoc(kind, depth int) (*sym.J, bool) {
	j := &sym.J{Kind: sym.JObj}
	fs := fieldsOf(kind)
	which, rest, ok := sym.Choose("odd", len(fs)), sym.Bool("rest"), true
	for i, f := range fs {
		var v *sym.J
		if i == which {
			v, ok = w.odd(kind, f, depth)
		} else if rest && f.typ != fRes {
			v = w.valid(kind, f)
		} else {
			continue
		}
		j.Keys = append(j.Keys, f.name)
		j.Elems = append(j.Elems, v)
	}
	return j, ok
}

// C28_Fields: documents of every kind in which any field has a value of any JSON type and the others are all there or
// all missing, also one level down in the resource.
func C28_Fields() {
	kind := []int{wEntity, wResource, wObject, wLink}[sym.Choose("kind", 4)]
	t := newTarget(kind)
	w := &wire{kind: kind, attr: &amodel{}}
	doc, good := w.oddDoc(kind, 0)
	err := t.unmarshal(sym.JSON(doc))
	if good {
		sym.Reach("valid")
		sym.Assert(err == nil, "no-error")
		t.is(w, "")
	} else {
		sym.Reach("invalid")
		sym.Assert(err != nil, "error")
		t.untouched()
	}
}

// C28_Present: documents of every kind with any subset of their fields, all valid, and fields the kind does not have.
func C28_Present() {
	kind := []int{wEntity, wResource, wObject, wLink}[sym.Choose("kind", 4)]
	t := newTarget(kind)
	w := &wire{kind: kind, attr: &amodel{}}
	j := &sym.J{Kind: sym.JObj}
	if sym.Bool("unknown-field") {
		j.Keys = []string{"something", "links"}
		j.Elems = []*sym.J{{Kind: sym.JNum, Str: "7"}, {Kind: sym.JStr, Str: "x"}}
	}
	for _, f := range fieldsOf(kind) {
		if sym.Bool("present") {
			j.Keys = append(j.Keys, f.name)
			j.Elems = append(j.Elems, w.valid(kind, f))
		}
	}
	err := t.unmarshal(sym.JSON(j))
	sym.Assert(err == nil, "no-error")
	t.is(w, "")
}

// C28_MarshalError: attributes that cannot be read make marshalling of every kind fail.
func C28_MarshalError() {
	bad := unreadable()
	w := &wire{kind: sym.Choose("kind", 5), uid: "u", attr: &amodel{}, a: bad}
	if w.kind == wObjectRes {
		w.res = &wire{kind: wResource, uid: "r", attr: &amodel{}, a: bad}
		if sym.Bool("only-resource") {
			w.a = memattrs.New()
		}
	}
	b, err := marshaler().Marshal(w.value())
	sym.Assert(errors.Is(err, bad.err) && len(b) == 0, "error-returned")
}

// C28_Mangled: a text of any kind cut anywhere, with anything of some texts after it or before it, or with one byte
// replaced by another of some.
func C28_Mangled() {
	kind := []int{wEntity, wResource, wObject, wLink}[sym.Choose("kind", 4)]
	texts := map[int]string{
		wEntity:   `{"uid":"u","type":"t","attrs":{"k":"v"}}`,
		wResource: `{"uid":"u","namespaced":true,"attrs":null}`,
		wObject:   `{"uid":"u","resource":{"uid":"r","kind":"k"}}`,
		wLink:     `{"uid":"u","from":"f","to":"\u0074","attrs":{}}`,
	}
	b := []byte(texts[kind])
	good := false
	switch sym.Choose("how", 4) {
	case 0:
		b = b[:sym.Choose("cut", len(b))]
	case 1:
		after := []string{"", " ", "\n", "\t\r\n", "x", "{}", "}", "null", `"x"`, ",", "\x00", string(b), "//", " {", "1"}
		k := sym.Choose("after", len(after))
		good = k < 4
		b = append(b, after[k]...)
	case 2:
		before := []string{" ", "\n\t", "x", "{}", "{", "null", ",", "\x00", "\xef\xbb\xbf", ")]}'\n"}
		k := sym.Choose("before", len(before))
		good = k < 2
		b = append([]byte(before[k]), b...)
	case 3:
		// a byte of the structure replaced by one that cannot be there
		i := sym.Choose("at", len(b))
		c := "\x00\n}]"[sym.Choose("byte", 4)]
		structural := b[i] == '{' || b[i] == ':' || b[i] == '"'
		sym.Assume(structural && (c != '\n' || b[i] != '"' || i > 0) && b[i] != c)
		b = append(append(append([]byte{}, b[:i]...), c), b[i+1:]...)
	}
	t := newTarget(kind)
	err := t.unmarshal(b)
	if good {
		sym.Assert(err == nil, "surrounded-by-space")
		return
	}
	sym.Assert(err != nil, "error")
	t.untouched()
}

// C28_Twice: a document with all its fields is unmarshalled, and then another of the same kind, with any subset of the fields, by the same
// marshaler or another, into the same target or another; each result has what its own document says, and the first, held elsewhere, is unchanged.
func C28_Twice() {
	kind := []int{wEntity, wResource, wObject, wLink}[sym.Choose("kind", 4)]
	m := marshaler()
	var t, u jtarget
	t.kind, u.kind = kind, kind
	v := &wire{kind: kind, attr: &amodel{}}
	one := v.doc(kind, 0)
	sym.Assert(t.unmarshalBy(m, sym.JSON(one)) == nil, "first-no-error")
	t.is(v, "first-")
	if sym.Bool("bad-between") {
		sym.Assert(u.unmarshalBy(m, []byte("{")) != nil, "bad-error")
	}
	if sym.Bool("same-target") {
		u = t
	}
	w := &wire{kind: kind, attr: &amodel{}}
	j := &sym.J{Kind: sym.JObj}
	few, which := sym.Bool("few"), sym.Choose("which", len(fieldsOf(kind)))
	for i, f := range fieldsOf(kind) {
		if few == (i == which) {
			j.Keys = append(j.Keys, f.name)
			j.Elems = append(j.Elems, w.valid(kind, f))
		}
	}
	if sym.Bool("other-marshaler") {
		m = marshaler()
	}
	sym.Assert(u.unmarshalBy(m, sym.JSON(j)) == nil, "second-no-error")
	u.is(w, "second-")
	t.is(v, "still-")
}
