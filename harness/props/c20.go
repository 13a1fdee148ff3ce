package props

import "nsverif/sym"

// C20_Delete: any set of links among three UIDs of any bytes, then Delete of any of them or of an unknown UID.
func C20_Delete() {
	n := 3
	c, m := anyCache(symUIDs(n)...)
	i := sym.Choose("uid", n+1)
	u := unknownUID
	if i < n {
		u = m.uid[i]
	} else {
		sym.Reach("unknown")
	}
	m.del(c, u)
	if i < n {
		m.drop(i)
	}
	m.check(c)
}

// C20_Three: up to four links of any ends among three UIDs of any bytes, then two deletes, then puts.
func C20_Three() {
	c, m := newCache(names...)
	m.bulk = sym.Bool("bulk")
	for k := 0; k < sym.Bound(3, 4); k++ {
		m.put(c, sym.Choose("from", 3), sym.Choose("to", 3), false)
	}
	for k := 0; k < 2; k++ {
		i := sym.Choose("uid", 3)
		m.del(c, m.uid[i])
		m.drop(i)
		m.check(c)
	}
}

// C20_Clear: any cache, cleared, then used again.
func C20_Clear() {
	c, m := anyCache(names[:2]...)
	sym.Assert(c.Clear(ctx) == nil, "clear-ok")
	m.links = map[[2]int]clink{}
	m.check(c)
	m.put(c, sym.Choose("from", 2), sym.Choose("to", 2), sym.Bool("upsert"))
	m.check(c)
	if sym.Bool("twice") {
		sym.Assert(c.Clear(ctx) == nil, "clear-ok")
		m.links = map[[2]int]clink{}
		m.check(c)
	}
}

// C20_Symbolic: a chain of two links whose UIDs are any strings, equal or not, and a delete of any string.
func C20_Symbolic() {
	var us []string
	slot := func(u string) int {
		for i, v := range us {
			if v == u {
				return i
			}
		}
		us = append(us, u)
		return len(us) - 1
	}
	c, m := newCache()
	m.bulk = sym.Bool("bulk")
	for k := 0; k < 2; k++ {
		i, j := slot(sym.String("u", maxUID)), slot(sym.String("u", maxUID))
		m.uid = us
		m.put(c, i, j, false)
	}
	d := slot(sym.String("u", maxUID))
	m.uid = us
	m.del(c, us[d])
	m.drop(d)
	m.check(c)
}
