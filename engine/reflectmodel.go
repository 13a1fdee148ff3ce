package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A small model of package reflect, enough for the iterators and comparisons the code uses.

type rval struct {
	t    types.Type
	v    value
	cell *value // addressable
}

type rmapIter struct {
	it  *mapIter
	m   *Map
	t   *types.Map
	cur *mentry
}

func asRval(v value) rval {
	switch v := v.(type) {
	case rval:
		return v
	case agg:
		return rval{}
	}
	panic(unsupported("reflect value %T", v))
}

func (r rval) get() value {
	if r.cell != nil {
		return *r.cell
	}
	return r.v
}

func (p *Path) rtype(t types.Type) value {
	if t == nil {
		return iface{}
	}
	rt := p.namedType("reflect", "rtype")
	return iface{p.e.canonPtr(types.NewPointer(rt)), rtypeVal{t}}
}

const (
	kBool    = 1
	kInt     = 2
	kString  = 24
	kPtr     = 22
	kMap     = 21
	kSlice   = 23
	kStruct  = 25
	kIface   = 20
	kFunc    = 19
	kChan    = 18
	kArray   = 17
	kFloat64 = 14
)

func kindOf(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return kArray
	case *types.Chan:
		return kChan
	case *types.Signature:
		return kFunc
	case *types.Interface:
		return kIface
	case *types.Map:
		return kMap
	case *types.Pointer:
		return kPtr
	case *types.Slice:
		return kSlice
	case *types.Struct:
		return kStruct
	}
	return 0
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// rtypeMethod is a method of reflect.Type.
func rtypeMethod(name string) *nativeFn {
	f := func(fr *frame, a []value) value {
		t := a[0].(rtypeVal).t
		switch name {
		case "String":
			return typeString(t)
		case "Name":
			switch t := t.(type) {
			case *types.Named:
				return t.Obj().Name()
			case *types.Basic:
				return t.Name()
			}
			return ""
		case "Kind":
			return kindOf(t)
		case "Comparable":
			return types.Comparable(t)
		case "Elem":
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return fr.p.rtype(u.Elem())
			case *types.Slice:
				return fr.p.rtype(u.Elem())
			case *types.Map:
				return fr.p.rtype(u.Elem())
			case *types.Array:
				return fr.p.rtype(u.Elem())
			case *types.Chan:
				return fr.p.rtype(u.Elem())
			}
		case "PkgPath":
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
			return ""
		case "NumField":
			return int64(t.Underlying().(*types.Struct).NumFields())
		}
		panic(unsupported("reflect.Type.%s", name))
	}
	return &nativeFn{"reflect.Type." + name, f}
}

func initReflect() {
	reg("reflect.TypeOf", func(fr *frame, a []value) value { return fr.p.rtype(a[0].(iface).t) })
	reg("internal/reflectlite.TypeOf", func(fr *frame, a []value) value { return fr.p.rtype(a[0].(iface).t) })
	reg("reflect.ValueOf", func(fr *frame, a []value) value {
		i := a[0].(iface)
		return rval{t: i.t, v: i.v}
	})
	V := "(reflect.Value)."
	reg(V+"IsValid", func(fr *frame, a []value) value { return asRval(a[0]).t != nil })
	reg(V+"Kind", func(fr *frame, a []value) value {
		r := asRval(a[0])
		if r.t == nil {
			return uint64(0)
		}
		return kindOf(r.t)
	})
	reg(V+"Type", func(fr *frame, a []value) value { return fr.p.rtype(asRval(a[0]).t) })
	reg(V+"Len", func(fr *frame, a []value) value {
		switch x := asRval(a[0]).get().(type) {
		case *Map:
			if x == nil {
				return int64(0)
			}
			fr.p.mapAccess(x, false, fr.p.curSite)
			return int64(x.n)
		case []value:
			return int64(len(x))
		case string, *SymStr:
			return fr.p.strLen(x)
		}
		panic(unsupported("reflect Len"))
	})
	reg(V+"Interface", func(fr *frame, a []value) value {
		r := asRval(a[0])
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			return r.get()
		}
		return iface{r.t, copyVal(r.get())}
	})
	reg(V+"Int", func(fr *frame, a []value) value { return fr.p.sextTo64(asRval(a[0])) })
	reg(V+"String", func(fr *frame, a []value) value { return asRval(a[0]).get() })
	reg(V+"Bool", func(fr *frame, a []value) value { return asRval(a[0]).get() })
	reg(V+"IsNil", func(fr *frame, a []value) value {
		switch x := asRval(a[0]).get().(type) {
		case *value:
			return x == nil
		case *Map:
			return x == nil
		case *Chan:
			return x == nil
		case []value:
			return x == nil
		case iface:
			return x.t == nil
		}
		return isNilFunc(asRval(a[0]).get())
	})
	reg(V+"Elem", func(fr *frame, a []value) value {
		r := asRval(a[0])
		switch x := r.get().(type) {
		case *value:
			if x == nil {
				return rval{}
			}
			return rval{t: r.t.Underlying().(*types.Pointer).Elem(), cell: x}
		case iface:
			return rval{t: x.t, v: x.v}
		}
		panic(unsupported("reflect Elem"))
	})
	reg(V+"Index", func(fr *frame, a []value) value {
		r := asRval(a[0])
		s := r.get().([]value)
		i := fr.p.boundsIndex(a[1], len(s))
		return rval{t: r.t.Underlying().(*types.Slice).Elem(), cell: &s[i]}
	})
	reg(V+"NumField", func(fr *frame, a []value) value {
		return int64(asRval(a[0]).t.Underlying().(*types.Struct).NumFields())
	})
	reg(V+"Field", func(fr *frame, a []value) value {
		r := asRval(a[0])
		st := r.t.Underlying().(*types.Struct)
		i := fr.p.boundsIndex(a[1], st.NumFields())
		if r.cell != nil {
			return rval{t: st.Field(i).Type(), cell: &(*r.cell).(agg)[i]}
		}
		return rval{t: st.Field(i).Type(), v: r.v.(agg)[i]}
	})
	reg(V+"Pointer "+V+"UnsafePointer", func(fr *frame, a []value) value {
		// identities: pointers and maps get a stable number
		p := fr.p
		x := asRval(a[0]).get()
		if s, ok := x.([]value); ok {
			if cap(s) == 0 {
				return uint64(0)
			}
			x = &s[:1][0]
		}
		if p.addr == nil {
			p.addr = map[any]uint64{}
		}
		n, ok := p.addr[x]
		if !ok {
			n = 0xc000000000 + uint64(len(p.addr)+1)*64
			p.addr[x] = n
		}
		return n
	})
	reg(V+"MapRange", func(fr *frame, a []value) value {
		r := asRval(a[0])
		m := r.get().(*Map)
		c := new(value)
		*c = &rmapIter{m: m, t: r.t.Underlying().(*types.Map)}
		return c
	})
	reg(V+"MapKeys", func(fr *frame, a []value) value {
		r := asRval(a[0])
		m := r.get().(*Map)
		fr.p.mapAccess(m, false, fr.p.curSite)
		kt := r.t.Underlying().(*types.Map).Key()
		out := []value{}
		it := fr.p.newMapIter(m)
		for e := it.next(fr.p); e != nil; e = it.next(fr.p) {
			out = append(out, rval{t: kt, v: e.k})
		}
		return out
	})
	reg(V+"MapIndex", func(fr *frame, a []value) value {
		r := asRval(a[0])
		m := r.get().(*Map)
		fr.p.mapAccess(m, false, fr.p.curSite)
		if e := m.find(fr.p, asRval(a[1]).get()); e != nil {
			return rval{t: r.t.Underlying().(*types.Map).Elem(), v: e.v}
		}
		return rval{}
	})
	iter := func(v value) *rmapIter { return (*(v.(*value))).(*rmapIter) }
	reg("(*reflect.MapIter).Next", func(fr *frame, a []value) value {
		i := iter(a[0])
		if i.it == nil {
			i.it = fr.p.newMapIter(i.m)
		}
		fr.p.mapAccess(i.m, false, fr.p.curSite)
		i.cur = i.it.next(fr.p)
		return i.cur != nil
	})
	reg("(*reflect.MapIter).Key", func(fr *frame, a []value) value {
		i := iter(a[0])
		return rval{t: i.t.Key(), v: i.cur.k}
	})
	reg("(*reflect.MapIter).Value", func(fr *frame, a []value) value {
		i := iter(a[0])
		fr.p.mapAccess(i.m, false, fr.p.curSite)
		return rval{t: i.t.Elem(), v: i.cur.v}
	})
	reg("(*reflect.MapIter).Reset", func(fr *frame, a []value) value {
		i := iter(a[0])
		i.it = nil
		i.m = asRval(a[1]).get().(*Map)
		return nil
	})
	reg("reflect.DeepEqual", func(fr *frame, a []value) value {
		x, y := a[0].(iface), a[1].(iface)
		return fr.p.boolVal(fr.p.deepEq(x, y, 0))
	})
	reg("internal/reflectlite.Swapper reflect.Swapper", func(fr *frame, a []value) value {
		s := a[0].(iface).v.([]value)
		return &nativeFn{"swap", func(fr *frame, b []value) value {
			i, j := fr.p.index(b[0]), fr.p.index(b[1])
			x, y := fr.p.load(&s[i], fr.p.curSite), fr.p.load(&s[j], fr.p.curSite)
			fr.p.store(&s[i], y, fr.p.curSite)
			fr.p.store(&s[j], x, fr.p.curSite)
			return nil
		}}
	})
	reg("internal/reflectlite.ValueOf", intrinsics["reflect.ValueOf"])
	reg("(internal/reflectlite.Value).Len", intrinsics[V+"Len"])
	// gonum's node sets compare map identities
	reg("gonum.org/v1/gonum/graph/internal/set.same", func(fr *frame, a []value) value {
		x, _ := a[0].(*Map)
		y, _ := a[1].(*Map)
		return x == y
	})
}

func (p *Path) sextTo64(r rval) value {
	ii, _ := basicInt(r.t)
	switch v := r.get().(type) {
	case int64:
		return v
	case *Term:
		if ii.w == 64 {
			return v
		}
		return intVal(p.ctx.Mk(OSExt, 64, 0, v), intInfo{64, true})
	}
	panic(unsupported("reflect Int"))
}

func (p *Path) deepEq(a, b value, depth int) *Term {
	c := p.ctx
	if depth > 40 {
		panic(unsupported("reflect.DeepEqual recursion"))
	}
	switch x := a.(type) {
	case iface:
		y, ok := b.(iface)
		if !ok {
			return c.F
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !sameType(x.t, y.t) {
			return c.F
		}
		return p.deepEq(x.v, y.v, depth+1)
	case *value:
		y := b.(*value)
		if x == y {
			return c.T
		}
		if x == nil || y == nil {
			return c.F
		}
		return p.deepEq(*x, *y, depth+1)
	case agg:
		y := b.(agg)
		r := c.T
		for i := range x {
			r = c.And(r, p.deepEq(x[i], y[i], depth+1))
		}
		return r
	case []value:
		y := b.([]value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return c.F
		}
		r := c.T
		for i := range x {
			r = c.And(r, p.deepEq(x[i], y[i], depth+1))
		}
		return r
	case *Map:
		y := b.(*Map)
		if (x == nil) != (y == nil) {
			return c.F
		}
		if x == y {
			return c.T
		}
		if x.n != y.n {
			return c.F
		}
		r := c.T
		for _, e := range x.entries {
			if !e.live {
				continue
			}
			o := y.find(p, e.k)
			if o == nil {
				return c.F
			}
			r = c.And(r, p.deepEq(e.v, o.v, depth+1))
		}
		return r
	case blobByte:
		return p.byteEq(a, b)
	case nil, *closure, *ssa.Function, *nativeFn:
		return c.Bool(isNilFunc(a) && isNilFunc(b))
	}
	return p.eq(a, b)
}
