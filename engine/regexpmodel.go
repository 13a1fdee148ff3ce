package main

import (
	"regexp"
	"sync"
)

// Regular expressions are compiled and matched by the native library, on concrete text only.

var regexpObjs sync.Map // *value -> *regexp.Regexp

func initRegexp() {
	mk := func(fr *frame, a []value, posix, must bool) value {
		p := fr.p
		s := p.concreteStr(a[0])
		var re *regexp.Regexp
		var err error
		if posix {
			re, err = regexp.CompilePOSIX(s)
		} else {
			re, err = regexp.Compile(s)
		}
		if err != nil {
			if must {
				p.targetPanicPlain("regexp: Compile(" + s + "): " + err.Error())
			}
			return tuple{(*value)(nil), p.newError(err.Error())}
		}
		c := new(value)
		*c = agg{s}
		regexpObjs.Store(c, re)
		if must {
			return c
		}
		return tuple{c, iface{}}
	}
	reg("regexp.MustCompile", func(fr *frame, a []value) value { return mk(fr, a, false, true) })
	reg("regexp.Compile", func(fr *frame, a []value) value { return mk(fr, a, false, false) })
	reg("regexp.MustCompilePOSIX", func(fr *frame, a []value) value { return mk(fr, a, true, true) })
	reg("regexp.CompilePOSIX", func(fr *frame, a []value) value { return mk(fr, a, true, false) })
	get := func(fr *frame, v value) *regexp.Regexp {
		fr.checkNil(asPtr(v))
		o, ok := regexpObjs.Load(v.(*value))
		if !ok {
			panic(unsupported("copied or unknown regexp"))
		}
		return o.(*regexp.Regexp)
	}
	bytesOf := func(fr *frame, v value) string {
		bs := v.([]value)
		fr.p.readSlice(bs)
		b := make([]byte, len(bs))
		for i := range bs {
			switch x := bs[i].(type) {
			case uint64:
				b[i] = byte(x)
			case int64:
				b[i] = byte(x)
			default:
				panic(unsupported("regexp on symbolic bytes"))
			}
		}
		return string(b)
	}
	strs := func(ss []string) value {
		if ss == nil {
			return []value(nil)
		}
		out := []value{}
		for _, s := range ss {
			out = append(out, s)
		}
		return out
	}
	const r = "(*regexp.Regexp)."
	reg(r+"MatchString", func(fr *frame, a []value) value { return get(fr, a[0]).MatchString(fr.p.concreteStr(a[1])) })
	reg(r+"Match", func(fr *frame, a []value) value { return get(fr, a[0]).MatchString(bytesOf(fr, a[1])) })
	reg(r+"String", func(fr *frame, a []value) value { return get(fr, a[0]).String() })
	reg(r+"FindString", func(fr *frame, a []value) value { return get(fr, a[0]).FindString(fr.p.concreteStr(a[1])) })
	reg(r+"FindStringSubmatch", func(fr *frame, a []value) value {
		return strs(get(fr, a[0]).FindStringSubmatch(fr.p.concreteStr(a[1])))
	})
	reg(r+"FindAllString", func(fr *frame, a []value) value {
		return strs(get(fr, a[0]).FindAllString(fr.p.concreteStr(a[1]), int(a[2].(int64))))
	})
	reg(r+"Split", func(fr *frame, a []value) value {
		return strs(get(fr, a[0]).Split(fr.p.concreteStr(a[1]), int(a[2].(int64))))
	})
	reg(r+"ReplaceAllString", func(fr *frame, a []value) value {
		return get(fr, a[0]).ReplaceAllString(fr.p.concreteStr(a[1]), fr.p.concreteStr(a[2]))
	})
	reg("regexp.QuoteMeta", func(fr *frame, a []value) value { return regexp.QuoteMeta(fr.p.concreteStr(a[0])) })
}
