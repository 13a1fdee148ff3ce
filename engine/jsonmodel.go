package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A structural model of encoding/json. Marshal yields a document: a tree with symbolic leaves,
// carried by a byte slice of opaque elements of nominal length. Unmarshal decodes such a tree (or
// concrete bytes) with the package's rules. The text in between is trusted to encoding/json.

const blobLen = 8

type jkind uint8

const (
	jNull jkind = iota
	jBool
	jNum
	jStr
	jArr
	jObj
	jBad // not valid JSON
)

type jnode struct {
	kind  jkind
	v     value // bool, string; number value
	num   string
	keys  []value
	elems []*jnode
}

type blob struct{ root *jnode }

type blobByte struct {
	b *blob
	i int
}

// render writes a document without symbolic leaves as encoding/json would; ok is false if it has some.
func (n *jnode) render(b *strings.Builder) bool {
	str := func(v value) bool {
		s, ok := v.(string)
		if ok {
			q, err := json.Marshal(s)
			if err != nil {
				return false
			}
			b.Write(q)
		}
		return ok
	}
	switch n.kind {
	case jNull:
		b.WriteString("null")
	case jBool:
		x, ok := n.v.(bool)
		if !ok {
			return false
		}
		fmt.Fprint(b, x)
	case jNum:
		if n.num == "" {
			return false
		}
		b.WriteString(n.num)
	case jStr:
		return str(n.v)
	case jArr, jObj:
		open, end := byte('['), byte(']')
		if n.kind == jObj {
			open, end = '{', '}'
		}
		b.WriteByte(open)
		for i, e := range n.elems {
			if i > 0 {
				b.WriteByte(',')
			}
			if n.kind == jObj {
				if !str(n.keys[i]) {
					return false
				}
				b.WriteByte(':')
			}
			if !e.render(b) {
				return false
			}
		}
		b.WriteByte(end)
	default:
		return false
	}
	return true
}

func mkBlob(n *jnode) []value {
	var sb strings.Builder
	if n.render(&sb) {
		out := make([]value, sb.Len())
		for i := range out {
			out[i] = uint64(sb.String()[i])
		}
		return out
	}
	b := &blob{n}
	out := make([]value, blobLen)
	for i := range out {
		out[i] = blobByte{b, i}
	}
	return out
}

func (p *Path) treeEq(a, b *jnode) *Term {
	c := p.ctx
	if a.kind != b.kind {
		return c.F
	}
	switch a.kind {
	case jNull:
		return c.T
	case jBool, jStr:
		return p.eq(a.v, b.v)
	case jNum:
		if a.v != nil && b.v != nil {
			return p.eq(a.v, b.v)
		}
		return c.Bool(a.num == b.num)
	case jBad:
		return c.T
	}
	if len(a.elems) != len(b.elems) {
		return c.F
	}
	r := c.T
	for i := range a.elems {
		if a.kind == jObj {
			r = c.And(r, p.eq(a.keys[i], b.keys[i]))
		}
		r = c.And(r, p.treeEq(a.elems[i], b.elems[i]))
	}
	return r
}

// treeOf finds the document in bytes.
func (p *Path) treeOf(bs []value) *jnode {
	for len(bs) > 0 {
		if b, ok := bs[len(bs)-1].(uint64); ok && (b == '\n' || b == ' ') {
			bs = bs[:len(bs)-1]
			continue
		}
		break
	}
	if len(bs) > 0 {
		if b, ok := bs[0].(blobByte); ok {
			if len(bs) == blobLen {
				whole := true
				for i, x := range bs {
					y, ok := x.(blobByte)
					whole = whole && ok && y.b == b.b && y.i == i
				}
				if whole {
					return b.b.root
				}
			}
			// a part of a document: a proper prefix or a concatenation of documents is not valid JSON
			all := true
			for _, x := range bs {
				_, ok := x.(blobByte)
				all = all && ok
			}
			if all && (b.b.root.kind == jObj || b.b.root.kind == jArr) {
				return &jnode{kind: jBad}
			}
			panic(unsupported("JSON document cut or mixed"))
		}
	}
	raw := make([]byte, len(bs))
	for i, b := range bs {
		switch b := b.(type) {
		case uint64:
			raw[i] = byte(b)
		case *Term:
			raw[i] = byte(p.concretizeTerm(b))
		default:
			panic(unsupported("JSON document cut or mixed"))
		}
	}
	dec := json.NewDecoder(strings.NewReader(string(raw)))
	dec.UseNumber()
	if !json.Valid(raw) {
		return &jnode{kind: jBad}
	}
	n, err := parseTree(dec)
	if err != nil {
		return &jnode{kind: jBad}
	}
	return n
}

func parseTree(d *json.Decoder) (*jnode, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t := t.(type) {
	case nil:
		return &jnode{kind: jNull}, nil
	case bool:
		return &jnode{kind: jBool, v: t}, nil
	case json.Number:
		return &jnode{kind: jNum, num: string(t)}, nil
	case string:
		return &jnode{kind: jStr, v: t}, nil
	case json.Delim:
		n := &jnode{kind: jArr}
		if t == '{' {
			n.kind = jObj
		}
		for d.More() {
			if n.kind == jObj {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				n.keys = append(n.keys, k.(string))
			}
			e, err := parseTree(d)
			if err != nil {
				return nil, err
			}
			n.elems = append(n.elems, e)
		}
		_, err := d.Token()
		return n, err
	}
	return nil, fmt.Errorf("token %T", t)
}

// jfield is a struct field as encoding/json sees it.
type jfield struct {
	name      string
	index     []int
	omitEmpty bool
	asString  bool
	tagged    bool
	t         types.Type
}

func jsonFields(st *types.Struct) []jfield {
	var out []jfield
	var walk func(st *types.Struct, idx []int)
	walk = func(st *types.Struct, idx []int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := structTag(st.Tag(i))
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			name := parts[0]
			ix := append(append([]int{}, idx...), i)
			ft := f.Type()
			if f.Embedded() && name == "" {
				u := ft
				if pt, ok := u.Underlying().(*types.Pointer); ok {
					u = pt.Elem()
				}
				if es, ok := u.Underlying().(*types.Struct); ok {
					if _, isPtr := ft.Underlying().(*types.Pointer); isPtr {
						panic(unsupported("JSON of embedded pointer"))
					}
					walk(es, ix)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			jf := jfield{name: name, index: ix, t: ft, tagged: name != ""}
			if name == "" {
				jf.name = f.Name()
			}
			for _, o := range parts[1:] {
				switch o {
				case "omitempty":
					jf.omitEmpty = true
				case "string":
					jf.asString = true
				case "omitzero":
					panic(unsupported("JSON omitzero"))
				}
			}
			out = append(out, jf)
		}
	}
	walk(st, nil)
	// dominance: the shallowest field of a name wins, then the tagged one; a tie hides all
	var res []jfield
	for i, f := range out {
		win, tie := true, false
		for j, o := range out {
			if i == j || o.name != f.name {
				continue
			}
			if len(o.index) < len(f.index) || len(o.index) == len(f.index) && o.tagged && !f.tagged {
				win = false
			} else if len(o.index) == len(f.index) && o.tagged == f.tagged {
				tie = true
			}
		}
		if win && !tie {
			res = append(res, f)
		}
	}
	return res
}

func isJSONNumber(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Number" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json"
}

func structTag(t string) string {
	// reflect.StructTag.Get("json")
	for t != "" {
		i := 0
		for i < len(t) && t[i] == ' ' {
			i++
		}
		t = t[i:]
		i = strings.Index(t, ":\"")
		if i < 0 {
			return ""
		}
		key := t[:i]
		t = t[i+2:]
		j := strings.IndexByte(t, '"')
		if j < 0 {
			return ""
		}
		val := t[:j]
		t = t[j+1:]
		if key == "json" {
			return val
		}
	}
	return ""
}

func (p *Path) customJSON(t types.Type, names ...string) bool {
	for _, n := range names {
		if p.methodNamed(t, n) != nil {
			return true
		}
		if _, ok := t.Underlying().(*types.Pointer); !ok {
			if _, ok := t.Underlying().(*types.Interface); !ok {
				if p.methodNamed(p.e.canonPtr(types.NewPointer(t)), n) != nil {
					return true
				}
			}
		}
	}
	return false
}

func (p *Path) jsonStr(v value) value {
	// invalid UTF-8 is replaced by encoding/json; symbolic strings are limited to ASCII here
	s, ok := v.(*SymStr)
	if !ok {
		return strings.ToValidUTF8(v.(string), "\ufffd")
	}
	for _, q := range s.parts {
		if q.f == nil {
			continue
		}
		for _, b := range q.f.b {
			if !p.branch(p.ctx.Mk(OUlt, 0, 0, b, p.ctx.BV(0x80, 8))) {
				panic(unsupported("JSON of a symbolic string which is not ASCII"))
			}
		}
	}
	return v
}

func (p *Path) toTree(fr *frame, t types.Type, v value) *jnode {
	if po, ok := v.(poison); ok {
		panic(unsupported("use of %s", po.why))
	}
	if f := p.methodNamed(t, "MarshalJSON"); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 2 {
		if ptr, ok := v.(*value); ok && ptr == nil {
			return &jnode{kind: jNull}
		}
		r := p.callFn(fr, f, nil, []value{copyVal(v)}, p.curSite).(tuple)
		if err := r[1].(iface); err.t != nil {
			panic(jsonFail{"MarshalerError", err})
		}
		n := p.treeOf(r[0].([]value))
		if n.kind == jBad {
			panic(jsonFail{"MarshalerError", nil})
		}
		return n
	}
	if p.customJSON(t, "MarshalJSON", "MarshalText") {
		panic(unsupported("custom JSON of %s", t))
	}
	switch t.Underlying().(type) {
	case *types.Chan, *types.Signature:
		panic(jsonFail{"UnsupportedTypeError", nil})
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		panic(jsonFail{"UnsupportedTypeError", nil})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case bool:
			return &jnode{kind: jBool, v: x}
		case string, *SymStr:
			if isJSONNumber(t) {
				c, ok := x.(string)
				if !ok {
					panic(unsupported("JSON of a symbolic json.Number"))
				}
				b, err := json.Marshal(json.Number(c))
				if err != nil {
					panic(jsonFail{"UnsupportedValueError", nil})
				}
				return &jnode{kind: jNum, num: string(b)}
			}
			return &jnode{kind: jStr, v: p.jsonStr(x)}
		case int64, uint64:
			return &jnode{kind: jNum, v: x, num: fmt.Sprint(x)}
		case float64:
			b, err := json.Marshal(x)
			if err != nil {
				panic(unsupported("JSON of %v", x))
			}
			return &jnode{kind: jNum, num: string(b)}
		case *Term:
			if x.w == 0 {
				return &jnode{kind: jBool, v: x}
			}
			ii, _ := basicInt(u)
			n := nativeInt(p.concretizeTerm(x), ii)
			return &jnode{kind: jNum, num: fmt.Sprint(n)}
		case FSym:
			panic(unsupported("JSON of a symbolic float"))
		}
	case *types.Pointer:
		ptr := asPtr(v)
		if ptr == nil {
			return &jnode{kind: jNull}
		}
		return p.toTree(fr, u.Elem(), p.load(ptr, p.curSite))
	case *types.Interface:
		x := v.(iface)
		if x.t == nil {
			return &jnode{kind: jNull}
		}
		return p.toTree(fr, x.t, x.v)
	case *types.Struct:
		n := &jnode{kind: jObj}
		for _, f := range jsonFields(u) {
			if f.asString {
				panic(unsupported("JSON string option"))
			}
			fv := v
			for _, i := range f.index {
				fv = fv.(agg)[i]
			}
			if f.omitEmpty && p.jsonEmpty(fv) {
				continue
			}
			n.keys = append(n.keys, f.name)
			n.elems = append(n.elems, p.toTree(fr, f.t, fv))
		}
		return n
	case *types.Map:
		m := asMap(v)
		if m == nil {
			return &jnode{kind: jNull}
		}
		if !isString(u.Key()) {
			panic(unsupported("JSON of map with key %s", u.Key()))
		}
		p.mapAccess(m, false, p.curSite)
		n := &jnode{kind: jObj}
		for _, e := range m.entries {
			if e.live {
				n.keys = append(n.keys, p.jsonStr(e.k))
				n.elems = append(n.elems, p.toTree(fr, u.Elem(), e.v))
			}
		}
		// keys come out sorted
		for i := 1; i < len(n.keys); i++ {
			for j := i; j > 0 && p.branch(p.strLess(n.keys[j], n.keys[j-1])); j-- {
				n.keys[j], n.keys[j-1] = n.keys[j-1], n.keys[j]
				n.elems[j], n.elems[j-1] = n.elems[j-1], n.elems[j]
			}
		}
		return n
	case *types.Slice:
		s := v.([]value)
		if s == nil {
			return &jnode{kind: jNull}
		}
		if ei, ok := basicInt(u.Elem()); ok && ei.w == 8 && !ei.signed {
			if p.customJSON(u.Elem(), "MarshalJSON", "MarshalText") {
				panic(unsupported("JSON of bytes of a type of its own"))
			}
			p.readSlice(s)
			raw := make([]byte, len(s))
			for i, x := range s {
				b, ok := x.(uint64)
				if !ok {
					panic(unsupported("JSON of symbolic bytes"))
				}
				raw[i] = byte(b)
			}
			return &jnode{kind: jStr, v: base64.StdEncoding.EncodeToString(raw)}
		}
		n := &jnode{kind: jArr}
		p.readSlice(s)
		for _, e := range s {
			n.elems = append(n.elems, p.toTree(fr, u.Elem(), e))
		}
		return n
	}
	panic(unsupported("JSON of %s", t))
}

func (p *Path) jsonEmpty(v value) bool {
	switch x := v.(type) {
	case bool:
		return !x
	case string:
		return x == ""
	case *SymStr:
		return p.branch(p.strEq(x, ""))
	case int64:
		return x == 0
	case uint64:
		return x == 0
	case float64:
		return x == 0
	case *Term:
		if x.w == 0 {
			return !p.branch(x)
		}
		return p.branch(p.ctx.Eq(x, p.ctx.BV(0, x.w)))
	case *Map:
		return x == nil || x.n == 0
	case []value:
		return len(x) == 0
	case *value:
		return x == nil
	case iface:
		return x.t == nil
	}
	return false
}

// jsonFail is an error of Marshal.
type jsonFail struct {
	kind string
	err  value
}

type jdec struct {
	p   *Path
	fr  *frame
	err value // first type error

	strict bool // unknown fields fail
}

func (p *Path) jsonErr(kind string) value {
	t := p.namedType("encoding/json", kind)
	c := new(value)
	func() {
		defer func() {
			if recover() != nil {
				*c = agg{}
			}
		}()
		*c = zero(t)
	}()
	return iface{p.e.canonPtr(types.NewPointer(t)), c}
}

func (d *jdec) mismatch() {
	if d.err == nil {
		d.err = d.p.jsonErr("UnmarshalTypeError")
	}
}

func (d *jdec) decode(t types.Type, c *value, n *jnode) {
	p := d.p
	if f := p.methodNamed(p.e.canonPtr(types.NewPointer(t)), "UnmarshalJSON"); f != nil && f.Signature.Params().Len() == 1 {
		if n.kind == jNull {
			panic(unsupported("custom JSON of null"))
		}
		if err := p.callFn(d.fr, f, nil, []value{c, mkBlob(n)}, p.curSite).(iface); err.t != nil && d.err == nil {
			d.err = err
		}
		return
	}
	if p.customJSON(t, "UnmarshalJSON", "UnmarshalText") {
		panic(unsupported("custom JSON of %s", t))
	}
	store := func(v value) { p.store(c, v, p.curSite) }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case n.kind == jNull:
		case u.Info()&types.IsBoolean != 0:
			if n.kind != jBool {
				d.mismatch()
				return
			}
			store(n.v)
		case isJSONNumber(t) && n.kind == jNum:
			store(n.num)
		case isJSONNumber(t) && n.kind == jStr:
			panic(unsupported("JSON string for a json.Number"))
		case u.Info()&types.IsString != 0:
			if n.kind != jStr {
				d.mismatch()
				return
			}
			store(n.v)
		case u.Info()&types.IsInteger != 0:
			if n.kind != jNum {
				d.mismatch()
				return
			}
			ii, _ := basicInt(u)
			var x int64
			if err := json.Unmarshal([]byte(n.num), &x); err != nil || normInt(uint64(x), ii) != value(x) && ii.signed {
				d.mismatch()
				return
			}
			store(normInt(uint64(x), ii))
		case u.Info()&types.IsFloat != 0:
			if n.kind != jNum {
				d.mismatch()
				return
			}
			var x float64
			if err := json.Unmarshal([]byte(n.num), &x); err != nil {
				d.mismatch()
				return
			}
			store(x)
		default:
			panic(unsupported("JSON into %s", t))
		}
	case *types.Pointer:
		if n.kind == jNull {
			store((*value)(nil))
			return
		}
		ptr := asPtr(*c)
		if ptr == nil {
			ptr = new(value)
			*ptr = zero(u.Elem())
			store(ptr)
		}
		d.decode(u.Elem(), ptr, n)
	case *types.Interface:
		if u.NumMethods() > 0 {
			if n.kind == jNull {
				store(iface{})
				return
			}
			d.mismatch()
			return
		}
		store(d.generic(n))
	case *types.Struct:
		if n.kind == jNull {
			return
		}
		if n.kind != jObj {
			d.mismatch()
			return
		}
		fs := jsonFields(u)
		for i, k := range n.keys {
			key := p.concreteStr(k)
			var f *jfield
			for j := range fs {
				if fs[j].name == key {
					f = &fs[j]
				}
			}
			if f == nil {
				for j := range fs {
					if f == nil && strings.EqualFold(fs[j].name, key) {
						f = &fs[j]
					}
				}
			}
			if f == nil {
				if d.strict && d.err == nil {
					d.err = p.jsonErr("SyntaxError") // an error without a type of its own
				}
				continue
			}
			fc := c
			for _, ix := range f.index {
				fc = field(fc, ix)
			}
			d.decode(f.t, fc, n.elems[i])
		}
	case *types.Map:
		if n.kind == jNull {
			store((*Map)(nil))
			return
		}
		if n.kind != jObj {
			d.mismatch()
			return
		}
		if !isString(u.Key()) {
			panic(unsupported("JSON into map with key %s", u.Key()))
		}
		m := asMap(*c)
		if m == nil {
			m = newMap()
			store(m)
		}
		for i, k := range n.keys {
			ec := new(value)
			*ec = zero(u.Elem())
			d.decode(u.Elem(), ec, n.elems[i])
			p.mapAccess(m, true, p.curSite)
			m.set(p, k, *ec)
		}
	case *types.Slice:
		if n.kind == jNull {
			store([]value(nil))
			return
		}
		if n.kind != jArr {
			d.mismatch()
			return
		}
		out := make([]value, len(n.elems))
		for i, e := range n.elems {
			out[i] = zero(u.Elem())
			d.decode(u.Elem(), &out[i], e)
		}
		store(out)
	default:
		panic(unsupported("JSON into %s", t))
	}
}

func (d *jdec) generic(n *jnode) value {
	any_ := types.NewInterfaceType(nil, nil)
	switch n.kind {
	case jNull:
		return iface{}
	case jBool:
		return iface{types.Typ[types.Bool], n.v}
	case jStr:
		return iface{types.Typ[types.String], n.v}
	case jNum:
		var x float64
		json.Unmarshal([]byte(n.num), &x)
		return iface{types.Typ[types.Float64], x}
	case jArr:
		out := []value{}
		for _, e := range n.elems {
			out = append(out, d.generic(e))
		}
		return iface{d.p.e.canonPtr(types.NewSlice(any_)), out}
	}
	m := newMap()
	for i, k := range n.keys {
		m.set(d.p, k, d.generic(n.elems[i]))
	}
	return iface{d.p.e.canonPtr(types.NewMap(types.Typ[types.String], any_)), m}
}

func (p *Path) ioErr(name string) value {
	return *p.global(p.e.pkgs["io"].Members[name].(*ssa.Global))
}

func (p *Path) unmarshal(fr *frame, n *jnode, target iface) value {
	return p.unmarshalStrict(fr, n, target, false)
}

func (p *Path) unmarshalStrict(fr *frame, n *jnode, target iface, strict bool) value {
	if n.kind == jBad {
		return p.jsonErr("SyntaxError")
	}
	var ptr *value
	if target.t != nil {
		if _, ok := target.t.Underlying().(*types.Pointer); ok {
			ptr = asPtr(target.v)
		}
	}
	if ptr == nil {
		return p.jsonErr("InvalidUnmarshalError")
	}
	d := &jdec{p: p, fr: fr, strict: strict}
	d.decode(target.t.Underlying().(*types.Pointer).Elem(), ptr, n)
	if d.err != nil {
		return d.err
	}
	return iface{}
}

func initJSON() {
	marshal := func(fr *frame, a []value) (r value) {
		i := a[0].(iface)
		defer func() {
			if x := recover(); x != nil {
				f, ok := x.(jsonFail)
				if !ok {
					panic(x)
				}
				err := fr.p.jsonErr(f.kind)
				if f.err != nil {
					// MarshalerError wraps the error of the method
					if ag, ok := (*err.(iface).v.(*value)).(agg); ok && len(ag) > 1 {
						ag[1] = f.err
					}
				}
				r = tuple{[]value(nil), err}
			}
		}()
		if i.t == nil {
			return tuple{mkBlob(&jnode{kind: jNull}), iface{}}
		}
		return tuple{mkBlob(fr.p.toTree(fr, i.t, i.v)), iface{}}
	}
	reg("encoding/json.Marshal encoding/json.MarshalIndent", marshal)
	reg("encoding/json.Unmarshal", func(fr *frame, a []value) value {
		fr.p.readSlice(a[0].([]value))
		return fr.p.unmarshal(fr, fr.p.treeOf(a[0].([]value)), a[1].(iface))
	})
	reg("encoding/json.Valid", func(fr *frame, a []value) value {
		return fr.p.treeOf(a[0].([]value)).kind != jBad
	})
	// encoders and decoders: the struct is replaced by a record of its stream
	mk := func(fr *frame, name string, s iface) value {
		c := new(value)
		*c = agg{s, name, []value{}, iface{}, false}
		return c
	}
	reg("encoding/json.NewEncoder", func(fr *frame, a []value) value { return mk(fr, "enc", a[0].(iface)) })
	reg("encoding/json.NewDecoder", func(fr *frame, a []value) value { return mk(fr, "dec", a[0].(iface)) })
	reg("(*encoding/json.Encoder).SetEscapeHTML (*encoding/json.Encoder).SetIndent", nop)
	reg("(*encoding/json.Encoder).Encode", func(fr *frame, a []value) value {
		p := fr.p
		w := field(a[0].(*value), 0)
		r := marshal(fr, a[1:]).(tuple)
		if e := r[1].(iface); e.t != nil {
			return e
		}
		bs := append(r[0].([]value), uint64('\n'))
		out := (*w).(iface)
		return p.callFn(fr, p.methodNamed(out.t, "Write"), nil, []value{out.v, bs}, p.curSite).(tuple)[1]
	})
	// a decoder's record: stream, name, what has been read and not decoded, sticky error, whether unknown fields fail
	fill := func(fr *frame, d value) []value {
		p := fr.p
		in := (*field(asPtr(d), 0)).(iface)
		f := p.methodNamed(in.t, "Read")
		all := append([]value{}, (*field(asPtr(d), 2)).([]value)...)
		for k := 0; k < 100; k++ {
			buf := make([]value, 512)
			for i := range buf {
				buf[i] = uint64(0)
			}
			t := p.callFn(fr, f, nil, []value{in.v, buf}, p.curSite).(tuple)
			all = append(all, buf[:p.index(t[0])]...)
			if e := t[1].(iface); e.t != nil {
				if !p.branch(p.eq(e, p.ioErr("EOF"))) {
					*field(asPtr(d), 3) = e
				}
				break
			}
		}
		for len(all) > 0 {
			if b, ok := all[0].(uint64); ok && (b == '\n' || b == ' ' || b == '\t' || b == '\r') {
				all = all[1:]
				continue
			}
			break
		}
		*field(asPtr(d), 2) = all
		return all
	}
	reg("(*encoding/json.Decoder).DisallowUnknownFields", func(fr *frame, a []value) value {
		*field(asPtr(a[0]), 4) = true
		return nil
	})
	reg("(*encoding/json.Decoder).More", func(fr *frame, a []value) value {
		all := fill(fr, a[0])
		if len(all) == 0 {
			return false
		}
		b, ok := all[0].(uint64)
		return !(ok && (b == ']' || b == '}'))
	})
	reg("(*encoding/json.Decoder).Token", func(fr *frame, a []value) value {
		if len(fill(fr, a[0])) == 0 {
			return tuple{iface{}, fr.p.ioErr("EOF")}
		}
		panic(unsupported("JSON decoder tokens"))
	})
	reg("(*encoding/json.Decoder).Decode", func(fr *frame, a []value) value {
		p := fr.p
		if e := (*field(asPtr(a[0]), 3)).(iface); e.t != nil {
			return e
		}
		all := fill(fr, a[0])
		fail := func(e value) value {
			*field(asPtr(a[0]), 3) = e
			return e
		}
		if len(all) == 0 {
			if e := (*field(asPtr(a[0]), 3)).(iface); e.t != nil {
				return e
			}
			return fail(p.ioErr("EOF"))
		}
		var n *jnode
		used := 0
		if b, ok := all[0].(blobByte); ok {
			for used < len(all) && used < blobLen {
				y, ok := all[used].(blobByte)
				if !ok || y.b != b.b || y.i != used {
					break
				}
				used++
			}
			n = b.b.root
			if n.kind == jBad {
				return fail(p.jsonErr("SyntaxError"))
			}
			if used < blobLen {
				if used == len(all) && (n.kind == jObj || n.kind == jArr) {
					return fail(p.ioErr("ErrUnexpectedEOF"))
				}
				panic(unsupported("JSON document cut or mixed"))
			}
		} else {
			var raw []byte
			cut := false
			for _, b := range all {
				switch b := b.(type) {
				case uint64:
					raw = append(raw, byte(b))
				case *Term:
					raw = append(raw, byte(p.concretizeTerm(b)))
				default:
					cut = true
				}
				if cut {
					break
				}
			}
			dec := json.NewDecoder(strings.NewReader(string(raw)))
			var msg json.RawMessage
			if err := dec.Decode(&msg); err != nil {
				if _, ok := err.(*json.SyntaxError); ok {
					return fail(p.jsonErr("SyntaxError"))
				}
				if cut {
					panic(unsupported("JSON document cut or mixed"))
				}
				return fail(p.ioErr("ErrUnexpectedEOF"))
			}
			used = int(dec.InputOffset())
			d := json.NewDecoder(strings.NewReader(string(msg)))
			d.UseNumber()
			var err error
			if n, err = parseTree(d); err != nil {
				return fail(p.jsonErr("SyntaxError"))
			}
		}
		*field(asPtr(a[0]), 2) = append([]value{}, all[used:]...)
		return p.unmarshalStrict(fr, n, a[1].(iface), (*field(asPtr(a[0]), 4)).(bool))
	})
	for _, k := range []string{"SyntaxError", "UnmarshalTypeError", "InvalidUnmarshalError", "UnsupportedTypeError", "UnsupportedValueError"} {
		k := k
		reg("(*encoding/json."+k+").Error", func(fr *frame, a []value) value { return "json: " + k })
	}
}

// jsonDoc builds a document from the harness' description (sym.J).
func jsonDoc(fr *frame, a []value) value {
	var conv func(v value) *jnode
	conv = func(v value) *jnode {
		s := (*(asPtr(v))).(agg) // sym.J{Kind, Bool, Str, Keys, Elems}
		n := &jnode{kind: jkind(fr.p.index(s[0]))}
		switch n.kind {
		case jBool:
			n.v = s[1]
		case jStr:
			n.v = s[2]
		case jNum:
			n.num = fr.p.concreteStr(s[2])
		}
		for _, k := range s[3].([]value) {
			n.keys = append(n.keys, k)
		}
		for _, e := range s[4].([]value) {
			n.elems = append(n.elems, conv(e))
		}
		return n
	}
	return mkBlob(conv(a[0]))
}
