package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A model of package fmt on engine values: concrete operands are formatted by Go's own fmt,
// symbolic strings become parts of the result.

func initFmt() {
	reg("fmt.Sprintf", func(fr *frame, a []value) value { return fr.p.sprintf(fr, a[0], a[1].([]value)) })
	reg("fmt.Sprint", func(fr *frame, a []value) value { return fr.p.sprint(fr, a[0].([]value), false) })
	reg("fmt.Sprintln", func(fr *frame, a []value) value { return fr.p.sprint(fr, a[0].([]value), true) })
	out := func(fr *frame, w iface, s value) value {
		p := fr.p
		if w.t == nil {
			p.targetPanicRT("invalid memory address or nil pointer dereference")
		}
		f := p.methodNamed(w.t, "Write")
		if f == nil {
			panic(unsupported("Fprintf to %s", w.t))
		}
		b := p.strBytes(s)
		if b == nil {
			b = []value{}
		}
		return p.callFn(fr, f, nil, []value{w.v, b}, p.curSite)
	}
	reg("fmt.Fprintf", func(fr *frame, a []value) value {
		return out(fr, a[0].(iface), fr.p.sprintf(fr, a[1], a[2].([]value)))
	})
	reg("fmt.Fprint", func(fr *frame, a []value) value {
		return out(fr, a[0].(iface), fr.p.sprint(fr, a[1].([]value), false))
	})
	reg("fmt.Fprintln", func(fr *frame, a []value) value {
		return out(fr, a[0].(iface), fr.p.sprint(fr, a[1].([]value), true))
	})
	std := func(fr *frame, s value) value {
		b := fr.p.strBytes(s)
		if fr.p.stdoutBad {
			return tuple{int64(0), fr.p.newError("write /dev/stdout: bad file descriptor")}
		}
		for _, x := range b {
			fr.p.stdout = append(fr.p.stdout, x)
		}
		return tuple{int64(len(b)), iface{}}
	}
	reg("fmt.Printf", func(fr *frame, a []value) value { return std(fr, fr.p.sprintf(fr, a[0], a[1].([]value))) })
	reg("fmt.Print", func(fr *frame, a []value) value { return std(fr, fr.p.sprint(fr, a[0].([]value), false)) })
	reg("fmt.Println", func(fr *frame, a []value) value { return std(fr, fr.p.sprint(fr, a[0].([]value), true)) })
	reg("fmt.Errorf", func(fr *frame, a []value) value {
		p := fr.p
		args := a[1].([]value)
		msg := p.sprintf(fr, a[0], args)
		var wrapped []iface
		format := p.concreteStr(a[0])
		// operands of %w, counted over plain verbs
		k := 0
		for i := 0; i < len(format); i++ {
			if format[i] != '%' {
				continue
			}
			i++
			for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
				i++
			}
			if i >= len(format) {
				break
			}
			if format[i] == '%' {
				continue
			}
			if format[i] == 'w' && k < len(args) {
				if e, ok := args[k].(iface); ok && e.t != nil {
					wrapped = append(wrapped, e)
				}
			}
			k++
		}
		c := new(value)
		switch len(wrapped) {
		case 0:
			return p.newError(msg)
		case 1:
			*c = agg{msg, wrapped[0]}
			return iface{p.e.canonPtr(types.NewPointer(p.namedType("fmt", "wrapError"))), c}
		}
		var es []value
		for _, e := range wrapped {
			es = append(es, e)
		}
		*c = agg{msg, es}
		return iface{p.e.canonPtr(types.NewPointer(p.namedType("fmt", "wrapErrors"))), c}
	})
}

func (p *Path) sprint(fr *frame, args []value, ln bool) value {
	var r value = ""
	prevStr := true
	for i, a := range args {
		x := a.(iface)
		isStr := x.t != nil && isString(x.t) && func() bool { _, ok := x.t.(*types.Basic); return ok }()
		if i > 0 && (ln || !isStr && !prevStr) {
			r = concatStr(r, " ")
		}
		r = concatStr(r, p.fmtValue(fr, x, 'v', false))
		prevStr = isStr
	}
	if ln {
		r = concatStr(r, "\n")
	}
	return r
}

func (p *Path) sprintf(fr *frame, f value, args []value) value {
	format := p.concreteStr(f)
	var r value = ""
	k := 0
	lit := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			i++
			continue
		}
		r = concatStr(r, format[lit:i])
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			r = concatStr(r, "%!(NOVERB)")
			lit, i = j, j
			break
		}
		verb, sz := utf8.DecodeRuneInString(format[j:])
		spec := format[i : j+sz]
		flags := format[i+1 : j]
		i = j + sz
		lit = i
		if verb == '%' {
			r = concatStr(r, "%")
			continue
		}
		if strings.ContainsAny(flags, "*[") {
			panic(unsupported("format %q", spec))
		}
		if k >= len(args) {
			r = concatStr(r, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[k].(iface)
		k++
		r = concatStr(r, p.fmtVerb(fr, a, verb, flags, spec))
	}
	r = concatStr(r, format[lit:])
	if k < len(args) {
		r = concatStr(r, "%!(EXTRA ")
		for n, a := range args[k:] {
			x := a.(iface)
			if n > 0 {
				r = concatStr(r, ", ")
			}
			if x.t == nil {
				r = concatStr(r, "<nil>")
			} else {
				r = concatStr(r, concatStr(types.TypeString(x.t, func(p *types.Package) string { return p.Name() })+"=", p.fmtValue(fr, x, 'v', false)))
			}
		}
		r = concatStr(r, ")")
	}
	return r
}

func (p *Path) fmtVerb(fr *frame, a iface, verb rune, flags, spec string) value {
	if flags == "" || flags == "+" {
		switch verb {
		case 'v', 's', 'w':
			return p.fmtValue(fr, a, verb, flags == "+")
		}
	}
	if verb == 'T' {
		if a.t == nil {
			return "<nil>"
		}
		return types.TypeString(a.t, func(p *types.Package) string { return p.Name() })
	}
	if verb == 'p' {
		return "0xc000000000"
	}
	if a.t == nil {
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'q' && (flags == "") {
		if s := p.fmtValue(fr, a, 's', false); true {
			if c, ok := s.(string); ok {
				return strconv.Quote(c)
			}
			return strconv.Quote(p.concreteStr(s))
		}
	}
	v := p.concreteScalar(fr, a, verb)
	return fmt.Sprintf(spec, v)
}

// concreteScalar gives a native value for fmt; symbolic scalars are split into their values.
func (p *Path) concreteScalar(fr *frame, a iface, verb rune) any {
	ii, isInt := basicInt(a.t)
	switch v := a.v.(type) {
	case int64, uint64:
		if isInt {
			u, _ := rawInt(v)
			return nativeInt(u, ii)
		}
	case bool:
		return v
	case float64, float32, string:
		return v
	case *SymStr:
		return p.concreteStr(v)
	case FSym:
		return math.Float64frombits(p.concretizeTerm(v.t))
	case *Term:
		if v.w == 0 {
			return p.branch(v)
		}
		return nativeInt(p.concretizeTerm(v), ii)
	case []value:
		if sl, ok := a.t.Underlying().(*types.Slice); ok {
			if ei, ok := basicInt(sl.Elem()); ok && ei.w == 8 {
				return []byte(p.concreteStr(p.bytesToStr(v)))
			}
		}
	}
	if verb == 'x' || verb == 'd' || verb == 's' || verb == 'v' || verb == 'q' {
		return p.concreteStr(p.fmtValue(fr, a, 'v', false))
	}
	panic(unsupported("formatting %T", a.v))
}

func nativeInt(u uint64, ii intInfo) any {
	if ii.signed {
		return sext(u, ii.w)
	}
	switch ii.w {
	case 8:
		return uint8(u)
	case 16:
		return uint16(u)
	case 32:
		return uint32(u)
	}
	return u
}

// fmtValue formats like %v (or %s).
func (p *Path) fmtValue(fr *frame, a iface, verb rune, plus bool) value {
	if a.t == nil {
		if verb == 's' || verb == 'w' {
			return "%!" + string(verb) + "(<nil>)"
		}
		return "<nil>"
	}
	return p.fmtTyped(fr, a.t, a.v, verb, plus, 0)
}

func (p *Path) fmtTyped(fr *frame, t types.Type, v value, verb rune, plus bool, depth int) value {
	if po, ok := v.(poison); ok {
		panic(unsupported("use of %s", po.why))
	}
	if t == p.e.rtErrType {
		return v
	}
	if rt, ok := v.(rtypeVal); ok {
		return types.TypeString(rt.t, func(p *types.Package) string { return p.Name() })
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		_ = it
		x, ok := v.(iface)
		if !ok {
			panic(unsupported("format interface holding %T", v))
		}
		if x.t == nil {
			return "<nil>"
		}
		return p.fmtTyped(fr, x.t, x.v, verb, plus, depth)
	}
	if depth < 8 {
		for _, m := range []string{"Error", "String"} {
			f := p.methodNamed(t, m)
			if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || !isString(f.Signature.Results().At(0).Type()) {
				continue
			}
			if ptr, ok := v.(*value); ok && ptr == nil {
				return "<nil>"
			}
			return p.callFn(fr, f, nil, []value{copyVal(v)}, p.curSite)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case string, *SymStr:
			return x
		case FSym:
			// an uninterpreted rendering: equal for equal terms
			return fmt.Sprintf("‹float %x›", x.t.h)
		case *Term:
			if x.w == 0 {
				return fmt.Sprint(p.branch(x))
			}
			ii, _ := basicInt(t)
			return fmt.Sprint(nativeInt(p.concretizeTerm(x), ii))
		}
		if verb == 's' {
			return fmt.Sprintf("%s", p.concreteScalar(fr, iface{t, v}, 'v'))
		}
		return fmt.Sprint(p.concreteScalar(fr, iface{t, v}, 'v'))
	case *types.Pointer:
		ptr := asPtr(v)
		if ptr == nil {
			return "<nil>"
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Map, *types.Slice, *types.Array:
				return concatStr("&", p.fmtTyped(fr, u.Elem(), p.load(ptr, p.curSite), verb, plus, depth+1))
			}
		}
		return "0xc000000000"
	case *types.Struct:
		var r value = "{"
		ag := v.(agg)
		for i := range ag {
			if i > 0 {
				r = concatStr(r, " ")
			}
			if plus {
				r = concatStr(r, u.Field(i).Name()+":")
			}
			r = concatStr(r, p.fmtTyped(fr, u.Field(i).Type(), ag[i], verb, plus, depth+1))
		}
		return concatStr(r, "}")
	case *types.Slice, *types.Array:
		var et types.Type
		var es []value
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
			es, _ = v.([]value)
			if verb == 's' {
				if ei, ok := basicInt(et); ok && ei.w == 8 {
					return p.bytesToStr(es)
				}
			}
		} else {
			et = u.(*types.Array).Elem()
			es = []value(v.(agg))
		}
		p.readSlice(es)
		var r value = "["
		for i, e := range es {
			if i > 0 {
				r = concatStr(r, " ")
			}
			r = concatStr(r, p.fmtTyped(fr, et, e, verb, plus, depth+1))
		}
		return concatStr(r, "]")
	case *types.Map:
		m := asMap(v)
		var r value = "map["
		if m != nil {
			p.mapAccess(m, false, p.curSite)
			var es []*mentry
			for _, e := range m.entries {
				if e.live {
					es = append(es, e)
				}
			}
			for i := 1; i < len(es); i++ { // fmt sorts keys
				for j := i; j > 0; j-- {
					x, y := es[j].k, es[j-1].k
					less := false
					switch x.(type) {
					case string, *SymStr:
						less = p.branch(p.strLess(x, y))
					case int64:
						less = x.(int64) < y.(int64)
					}
					if !less {
						break
					}
					es[j], es[j-1] = es[j-1], es[j]
				}
			}
			for i, e := range es {
				if i > 0 {
					r = concatStr(r, " ")
				}
				r = concatStr(r, p.fmtTyped(fr, u.Key(), e.k, verb, plus, depth+1))
				r = concatStr(r, ":")
				r = concatStr(r, p.fmtTyped(fr, u.Elem(), e.v, verb, plus, depth+1))
			}
		}
		return concatStr(r, "]")
	case *types.Chan, *types.Signature:
		return "0xc000000000"
	}
	panic(unsupported("formatting %s", t))
}
