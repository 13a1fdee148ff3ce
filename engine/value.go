package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values of the interpreted program.
//
//	integers      int64 (signed types, sign extended) / uint64 (unsigned types, zero extended) or *Term
//	bool          bool or *Term of width 0
//	floats        float64 / float32 or FSym
//	string        string or *SymStr
//	struct, array agg
//	pointer       *value (nil pointer: (*value)(nil))
//	slice         []value
//	map           *Map
//	chan          *Chan
//	interface     iface
//	func          *ssa.Function, *closure, *ssa.Builtin, *nativeFn or nil
type value = any

type agg []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type nativeFn struct {
	name string
	f    func(fr *frame, args []value) value
}

// FSym is a symbolic float: the term holds its IEEE bits.
type FSym struct{ t *Term }

// poison marks a value computed by an initialiser the engine could not execute.
type poison struct{ why string }

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return u.msg }

func unsupported(f string, a ...any) unsupportedErr { return unsupportedErr{fmt.Sprintf(f, a...)} }

func isNilFunc(v value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *closure:
		return v == nil
	case *ssa.Function:
		return v == nil
	}
	return false
}

type intInfo struct {
	w      uint8
	signed bool
}

func basicInt(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	}
	return intInfo{}, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func floatWidth(t types.Type) uint8 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return 64
	case types.Float32:
		return 32
	}
	return 0
}

func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer || t.Kind() == types.UntypedNil {
			return (*value)(nil)
		}
		if t.Info()&types.IsBoolean != 0 {
			return false
		}
		if t.Info()&types.IsString != 0 {
			return ""
		}
		if ii, ok := basicInt(t); ok {
			if ii.signed {
				return int64(0)
			}
			return uint64(0)
		}
		switch t.Kind() {
		case types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Float32:
			return float32(0)
		case types.Complex128, types.Complex64, types.UntypedComplex:
			return complex128(0)
		}
		panic(unsupported("zero of %s", t))
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(agg, t.Len())
		if t.Len() > 0 {
			z := zero(t.Elem())
			_, nested := z.(agg)
			for i := range a {
				if nested {
					a[i] = copyVal(z)
				} else {
					a[i] = z
				}
			}
		}
		return a
	case *types.Named:
		return zero(t.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(agg, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return nil
	case *types.TypeParam:
		panic(unsupported("zero of type parameter %s", t))
	}
	panic(unsupported("zero of %T", t))
}

func copyVal(v value) value {
	if a, ok := v.(agg); ok {
		c := make(agg, len(a))
		for i, e := range a {
			if _, nested := e.(agg); nested {
				c[i] = copyVal(e)
			} else {
				c[i] = e
			}
		}
		return c
	}
	return v
}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsupported("constant of type %s", c.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	if ii, ok := basicInt(b); ok {
		if ii.signed {
			return c.Int64()
		}
		return c.Uint64()
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return c.Float64()
	case types.Float32:
		return float32(c.Float64())
	case types.Complex128, types.Complex64:
		return c.Complex128()
	case types.UnsafePointer:
		return (*value)(nil)
	}
	panic(unsupported("constant of type %s", c.Type()))
}

// ---- integers ----

func normInt(v uint64, ii intInfo) value {
	if ii.signed {
		return sext(v&mask(ii.w), ii.w)
	}
	return v & mask(ii.w)
}

func rawInt(v value) (uint64, bool) {
	switch v := v.(type) {
	case int64:
		return uint64(v), true
	case uint64:
		return v, true
	}
	return 0, false
}

func (p *Path) intTerm(v value, w uint8) *Term {
	switch v := v.(type) {
	case *Term:
		if v.w != w {
			panic(unsupported("internal: width %d used as %d", v.w, w))
		}
		return v
	case int64:
		return p.ctx.BV(uint64(v), w)
	case uint64:
		return p.ctx.BV(v, w)
	}
	panic(unsupported("not an integer: %T", v))
}

// intVal turns a term back to a value, concrete when constant.
func intVal(t *Term, ii intInfo) value {
	if t.op == OConst {
		return normInt(t.c, ii)
	}
	return t
}

func (p *Path) boolTerm(v value) *Term {
	switch v := v.(type) {
	case bool:
		return p.ctx.Bool(v)
	case *Term:
		return v
	}
	panic(unsupported("not a bool: %T", v))
}

func (p *Path) boolVal(t *Term) value {
	if t == p.ctx.T {
		return true
	}
	if t == p.ctx.F {
		return false
	}
	return t
}

func (p *Path) floatTerm(v value) *Term {
	switch v := v.(type) {
	case float64:
		return p.ctx.BV(math.Float64bits(v), 64)
	case float32:
		return p.ctx.BV(uint64(math.Float32bits(v)), 32)
	case FSym:
		return v.t
	}
	panic(unsupported("not a float: %T", v))
}

func floatVal(t *Term) value {
	if t.op == OConst {
		if t.w == 32 {
			return math.Float32frombits(uint32(t.c))
		}
		return math.Float64frombits(t.c)
	}
	return FSym{t}
}

// ---- strings ----

type flat struct {
	n *Term   // BV64
	b []*Term // BV8; bytes at index >= n are zero
}

type spart struct {
	s string
	f *flat
}

// SymStr is a concatenation of concrete and symbolic pieces with at least one symbolic piece.
type SymStr struct {
	parts []spart
	fl    *flat
}

func (s *SymStr) minLen() int {
	n := 0
	for _, q := range s.parts {
		if q.f == nil {
			n += len(q.s)
		} else if q.f.n.op == OConst {
			n += int(q.f.n.c)
		}
	}
	return n
}

func (s *SymStr) maxLen() int {
	n := 0
	for _, q := range s.parts {
		if q.f == nil {
			n += len(q.s)
		} else if q.f.n.op == OConst {
			n += int(q.f.n.c)
		} else {
			n += len(q.f.b)
		}
	}
	return n
}

func partsOf(v value) []spart {
	switch v := v.(type) {
	case string:
		if v == "" {
			return nil
		}
		return []spart{{s: v}}
	case *SymStr:
		return v.parts
	}
	panic(unsupported("not a string: %T", v))
}

func mkStr(parts []spart) value {
	var out []spart
	symbolic := false
	for _, q := range parts {
		if q.f == nil {
			if q.s == "" {
				continue
			}
			if len(out) > 0 && out[len(out)-1].f == nil {
				out[len(out)-1].s += q.s
				continue
			}
			out = append(out, q)
			continue
		}
		if q.f.n.op == OConst {
			all := true
			for i := 0; i < int(q.f.n.c); i++ {
				if q.f.b[i].op != OConst {
					all = false
				}
			}
			if all {
				bs := make([]byte, q.f.n.c)
				for i := range bs {
					bs[i] = byte(q.f.b[i].c)
				}
				if len(bs) == 0 {
					continue
				}
				if len(out) > 0 && out[len(out)-1].f == nil {
					out[len(out)-1].s += string(bs)
				} else {
					out = append(out, spart{s: string(bs)})
				}
				continue
			}
		}
		symbolic = true
		out = append(out, q)
	}
	if !symbolic {
		if len(out) == 0 {
			return ""
		}
		return out[0].s
	}
	return &SymStr{parts: out}
}

func concatStr(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	pa, pb := partsOf(a), partsOf(b)
	parts := make([]spart, 0, len(pa)+len(pb))
	parts = append(parts, pa...)
	parts = append(parts, pb...)
	return mkStr(parts)
}

func (p *Path) strLen(v value) value {
	switch v := v.(type) {
	case string:
		return int64(len(v))
	case *SymStr:
		n := p.ctx.BV(0, 64)
		for _, q := range v.parts {
			if q.f == nil {
				n = p.ctx.Mk(OAdd, 64, 0, n, p.ctx.BV(uint64(len(q.s)), 64))
			} else {
				n = p.ctx.Mk(OAdd, 64, 0, n, q.f.n)
			}
		}
		return intVal(n, intInfo{64, true})
	}
	panic(unsupported("len of %T", v))
}

func (p *Path) flatOfConcrete(s string) *flat {
	f := &flat{n: p.ctx.BV(uint64(len(s)), 64)}
	for i := 0; i < len(s); i++ {
		f.b = append(f.b, p.ctx.BV(uint64(s[i]), 8))
	}
	return f
}

func (p *Path) flatAppend(a, q *flat) *flat {
	c := p.ctx
	if len(a.b) == 0 {
		return q
	}
	if a.n.op == OConst {
		k := int(a.n.c)
		b := append(append([]*Term{}, a.b[:k]...), q.b...)
		return &flat{n: c.Mk(OAdd, 64, 0, a.n, q.n), b: b}
	}
	max := len(a.b) + len(q.b)
	z := c.BV(0, 8)
	at := func(b []*Term, i int) *Term {
		if i >= 0 && i < len(b) {
			return b[i]
		}
		return z
	}
	r := &flat{n: c.Mk(OAdd, 64, 0, a.n, q.n), b: make([]*Term, max)}
	for j := 0; j < max; j++ {
		v := at(a.b, j)
		if j >= len(a.b) {
			v = at(q.b, j-len(a.b))
		}
		// value when a.n == k
		for k := len(a.b) - 1; k >= 0; k-- {
			var x *Term
			if j < k {
				x = at(a.b, j)
			} else {
				x = at(q.b, j-k)
			}
			v = c.Ite(c.Eq(a.n, c.BV(uint64(k), 64)), x, v)
		}
		r.b[j] = v
	}
	return r
}

func (p *Path) flatten(v value) *flat {
	switch v := v.(type) {
	case string:
		return p.flatOfConcrete(v)
	case *SymStr:
		if v.fl != nil {
			return v.fl
		}
		var acc *flat
		for _, q := range v.parts {
			f := q.f
			if f == nil {
				f = p.flatOfConcrete(q.s)
			}
			if acc == nil {
				acc = f
			} else {
				acc = p.flatAppend(acc, f)
			}
		}
		v.fl = acc
		return acc
	}
	panic(unsupported("flatten %T", v))
}

func samePart(a, b spart) bool {
	if a.f == nil || b.f == nil {
		return a.f == nil && b.f == nil && a.s == b.s
	}
	if a.f == b.f {
		return true
	}
	if a.f.n != b.f.n || len(a.f.b) != len(b.f.b) {
		return false
	}
	for i := range a.f.b {
		if a.f.b[i] != b.f.b[i] {
			return false
		}
	}
	return true
}

func (p *Path) strEq(a, b value) *Term {
	c := p.ctx
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return c.Bool(x == y)
		}
	}
	pa, pb := partsOf(a), partsOf(b)
	pa, pb = append([]spart{}, pa...), append([]spart{}, pb...)
	for len(pa) > 0 && len(pb) > 0 {
		if samePart(pa[0], pb[0]) {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		if pa[0].f == nil && pb[0].f == nil {
			x, y := pa[0].s, pb[0].s
			n := len(x)
			if len(y) < n {
				n = len(y)
			}
			if x[:n] != y[:n] {
				return c.F
			}
			pa[0].s, pb[0].s = x[n:], y[n:]
			if pa[0].s == "" {
				pa = pa[1:]
			}
			if pb[0].s == "" {
				pb = pb[1:]
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 && samePart(pa[len(pa)-1], pb[len(pb)-1]) {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	va, vb := mkStr(pa), mkStr(pb)
	lo := func(v value) (int, int) {
		if s, ok := v.(string); ok {
			return len(s), len(s)
		}
		s := v.(*SymStr)
		return s.minLen(), s.maxLen()
	}
	amin, amax := lo(va)
	bmin, bmax := lo(vb)
	if amin > bmax || bmin > amax {
		return c.F
	}
	if amax == 0 && bmax == 0 {
		return c.T
	}
	fa, fb := p.flatten(va), p.flatten(vb)
	r := c.Eq(fa.n, fb.n)
	z := c.BV(0, 8)
	n := len(fa.b)
	if len(fb.b) > n {
		n = len(fb.b)
	}
	for i := 0; i < n && r != c.F; i++ {
		x, y := z, z
		if i < len(fa.b) {
			x = fa.b[i]
		}
		if i < len(fb.b) {
			y = fb.b[i]
		}
		r = c.And(r, c.Eq(x, y))
	}
	return r
}

func (p *Path) strLess(a, b value) *Term {
	c := p.ctx
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return c.Bool(x < y)
		}
	}
	fa, fb := p.flatten(a), p.flatten(b)
	n := len(fa.b)
	if len(fb.b) > n {
		n = len(fb.b)
	}
	z := c.BV(0, 8)
	r := c.Mk(OUlt, 0, 0, fa.n, fb.n) // all bytes equal: shorter first
	for i := n - 1; i >= 0; i-- {
		x, y := z, z
		if i < len(fa.b) {
			x = fa.b[i]
		}
		if i < len(fb.b) {
			y = fb.b[i]
		}
		r = c.Or(c.Mk(OUlt, 0, 0, x, y), c.And(c.Eq(x, y), r))
	}
	return r
}

// strBytes returns the bytes of the string as values, forking on its length.
func (p *Path) strBytes(v value) []value {
	switch v := v.(type) {
	case string:
		out := make([]value, len(v))
		for i := 0; i < len(v); i++ {
			out[i] = uint64(v[i])
		}
		return out
	case *SymStr:
		f := p.flatten(v)
		n := int(p.concretizeTerm(f.n))
		out := make([]value, n)
		for i := range out {
			out[i] = intVal(f.b[i], intInfo{8, false})
		}
		return out
	}
	panic(unsupported("bytes of %T", v))
}

func (p *Path) bytesToStr(bs []value) value {
	all := true
	for _, b := range bs {
		switch b.(type) {
		case uint64:
		case *Term:
			all = false
		default:
			panic(unsupported("string conversion of opaque bytes (%T)", b))
		}
	}
	if all {
		raw := make([]byte, len(bs))
		for i, b := range bs {
			raw[i] = byte(b.(uint64))
		}
		return string(raw)
	}
	f := &flat{n: p.ctx.BV(uint64(len(bs)), 64)}
	for _, b := range bs {
		f.b = append(f.b, p.intTerm(b, 8))
	}
	return mkStr([]spart{{f: f}})
}

// concreteStr forks until the string is concrete.
func (p *Path) concreteStr(v value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		bs := p.strBytes(v)
		raw := make([]byte, len(bs))
		for i, b := range bs {
			if t, ok := b.(*Term); ok {
				raw[i] = byte(p.concretizeTerm(t))
			} else {
				raw[i] = byte(b.(uint64))
			}
		}
		return string(raw)
	case poison:
		panic(unsupported("use of %s", v.why))
	}
	panic(unsupported("not a string: %T", v))
}

// ---- equality ----

func (p *Path) eq(a, b value) *Term {
	c := p.ctx
	switch x := a.(type) {
	case bool:
		if y, ok := b.(bool); ok {
			return c.Bool(x == y)
		}
		return c.Eq(p.boolTerm(a), p.boolTerm(b))
	case int64:
		switch y := b.(type) {
		case int64:
			return c.Bool(x == y)
		case *Term:
			return c.Eq(c.BV(uint64(x), y.w), y)
		}
	case uint64:
		switch y := b.(type) {
		case uint64:
			return c.Bool(x == y)
		case *Term:
			return c.Eq(c.BV(x, y.w), y)
		}
	case *Term:
		if x.w == 0 {
			return c.Eq(x, p.boolTerm(b))
		}
		return c.Eq(x, p.intTerm(b, x.w))
	case float64, float32, FSym:
		ta, tb := p.floatTerm(a), p.floatTerm(b)
		return c.Mk(OFEq, 0, 0, ta, tb)
	case complex128:
		return c.Bool(x == b.(complex128))
	case string, *SymStr:
		return p.strEq(a, b)
	case *value:
		y, ok := b.(*value)
		return c.Bool(ok && x == y || !ok && x == nil && isNilFunc(b))
	case *Map:
		y, _ := b.(*Map)
		return c.Bool(x == y)
	case *Chan:
		y, _ := b.(*Chan)
		return c.Bool(x == y)
	case []value:
		y, ok := b.([]value)
		if ok && (x == nil || y == nil) {
			return c.Bool(x == nil && y == nil)
		}
	case agg:
		y := b.(agg)
		r := c.T
		for i := range x {
			r = c.And(r, p.eq(x[i], y[i]))
			if r == c.F {
				return r
			}
		}
		return r
	case iface:
		y, ok := b.(iface)
		if !ok {
			panic(unsupported("interface compared with %T", b))
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !sameType(x.t, y.t) {
			return c.F
		}
		if !types.Comparable(x.t) {
			p.targetPanicRT("comparing uncomparable type " + x.t.String())
		}
		return p.eq(x.v, y.v)
	case nil, *closure, *ssa.Function, *nativeFn, *ssa.Builtin:
		if isNilFunc(a) || isNilFunc(b) {
			return c.Bool(isNilFunc(a) && isNilFunc(b))
		}
		return c.Bool(a == b)
	case rtypeVal:
		y, ok := b.(rtypeVal)
		return c.Bool(ok && sameType(x.t, y.t))
	case poison:
		panic(unsupported("use of %s", x.why))
	}
	if q, ok := b.(poison); ok {
		panic(unsupported("use of %s", q.why))
	}
	panic(unsupported("comparison of %T and %T", a, b))
}

func sameType(a, b types.Type) bool { return a == b || types.Identical(a, b) }

// rtypeVal is the payload of a reflect.Type.
type rtypeVal struct{ t types.Type }

// ---- maps ----

type mentry struct {
	k, v value
	live bool
	cell value // shadow anchor unused
}

type Map struct {
	entries []*mentry
	idx     map[any]*mentry
	nsym    int
	n       int
	shadow  *value // anchor for race detection
	id      int
}

func newMap() *Map {
	var v value
	return &Map{idx: map[any]*mentry{}, shadow: &v}
}

type ptrKey struct{ p any }
type aggKey struct{ s string }
type ifKey struct {
	t string
	v any
}

// concreteKey returns a comparable Go value identifying v, or false when v is symbolic.
func concreteKey(v value) (any, bool) {
	switch v := v.(type) {
	case string, bool, int64, uint64:
		return v, true
	case float64:
		if v != v {
			return nil, false
		}
		if v == 0 {
			v = 0
		}
		return v, true
	case float32:
		return v, v == v
	case *value, *Chan, *Map:
		return ptrKey{v}, true
	case iface:
		if v.t == nil {
			return ifKey{}, true
		}
		k, ok := concreteKey(v.v)
		if !ok {
			return nil, false
		}
		return ifKey{v.t.String(), k}, true
	case agg:
		var sb strings.Builder
		for _, e := range v {
			k, ok := concreteKey(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%#v,", k, k)
		}
		return aggKey{sb.String()}, true
	case rtypeVal:
		return ifKey{"rtype", v.t.String()}, true
	}
	return nil, false
}

func (m *Map) find(p *Path, k value) *mentry {
	if m == nil {
		return nil
	}
	if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
		p.targetPanicRT("hash of unhashable type " + i.t.String())
	}
	ck, conc := concreteKey(k)
	if conc {
		if e, ok := m.idx[ck]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	var open []*mentry
	var conds []*Term
	for _, e := range m.entries {
		if !e.live {
			continue
		}
		t := p.eq(k, e.k)
		if t == p.ctx.T {
			return e
		}
		if t != p.ctx.F {
			open = append(open, e)
			conds = append(conds, t)
		}
	}
	for i, e := range open {
		if p.branch(conds[i]) {
			return e
		}
	}
	return nil
}

func (m *Map) set(p *Path, k, v value) {
	if e := m.find(p, k); e != nil {
		e.v = v
		return
	}
	e := &mentry{k: copyVal(k), v: v, live: true}
	m.entries = append(m.entries, e)
	m.n++
	if ck, ok := concreteKey(k); ok {
		m.idx[ck] = e
	} else {
		m.nsym++
	}
}

func (m *Map) del(p *Path, k value) {
	e := m.find(p, k)
	if e == nil {
		return
	}
	e.live = false
	m.n--
	if ck, ok := concreteKey(e.k); ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	if m.n == 0 {
		m.entries = nil
	}
}

func (m *Map) clear() {
	for _, e := range m.entries {
		e.live = false
	}
	m.entries, m.idx, m.nsym, m.n = nil, map[any]*mentry{}, 0, 0
}

type mapIter struct {
	m    *Map
	pos  int
	done map[*mentry]bool
	perm bool
	rev  bool
	snap []*mentry
}

func (p *Path) newMapIter(m *Map) *mapIter {
	it := &mapIter{m: m}
	if m != nil {
		live := 0
		for _, e := range m.entries {
			if e.live {
				live++
			}
		}
		if live > 1 {
			switch p.mapOrder {
			case 1:
				it.rev = p.choose(2, "map order") == 1
			case 2:
				it.perm = true
			}
		}
		if it.rev {
			it.snap = append([]*mentry{}, m.entries...)
			it.pos = len(it.snap) - 1
		}
		if it.perm {
			it.done = map[*mentry]bool{}
		}
	}
	return it
}

func (it *mapIter) next(p *Path) *mentry {
	if it.m == nil {
		return nil
	}
	if it.rev {
		for it.pos >= 0 {
			e := it.snap[it.pos]
			it.pos--
			if e.live {
				return e
			}
		}
		return nil
	}
	if it.perm {
		var c []*mentry
		for _, e := range it.m.entries {
			if e.live && !it.done[e] {
				c = append(c, e)
			}
		}
		if len(c) == 0 {
			return nil
		}
		k := 0
		if len(c) > 1 {
			k = p.choose(len(c), "map order")
		}
		it.done[c[k]] = true
		return c[k]
	}
	for it.pos < len(it.m.entries) {
		e := it.m.entries[it.pos]
		it.pos++
		if e.live {
			return e
		}
	}
	return nil
}

// ---- printing (diagnostics) ----

func showVal(v value, depth int) string {
	if depth > 4 {
		return "…"
	}
	switch v := v.(type) {
	case nil:
		return "nil"
	case *Term:
		if v.op == OVar {
			return "$" + v.name
		}
		return "$expr"
	case *SymStr:
		var sb strings.Builder
		for _, q := range v.parts {
			if q.f == nil {
				fmt.Fprintf(&sb, "%q", q.s)
			} else {
				sb.WriteString("<sym>")
			}
		}
		return sb.String()
	case string:
		return fmt.Sprintf("%q", v)
	case iface:
		if v.t == nil {
			return "nil"
		}
		return v.t.String() + "(" + showVal(v.v, depth+1) + ")"
	case *value:
		if v == nil {
			return "nil"
		}
		return "&" + showVal(*v, depth+1)
	case agg:
		var sb strings.Builder
		sb.WriteByte('{')
		for i, e := range v {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(showVal(e, depth+1))
		}
		sb.WriteByte('}')
		return sb.String()
	case []value:
		var sb strings.Builder
		sb.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(showVal(e, depth+1))
		}
		sb.WriteByte(']')
		return sb.String()
	case *Map:
		return "map"
	case *Chan:
		return "chan"
	case *ssa.Function:
		return v.String()
	}
	return fmt.Sprint(v)
}
