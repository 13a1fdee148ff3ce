package props

import "nsverif/sym"

// C18_Step: any set of links among three UIDs of any bytes (self links included), then any single operation, then every lookup.
func C18_Step() {
	n := 3
	c, m := anyCache(symUIDs(n)...)
	m.cacheOp(c)
	m.check(c)
}

// C18_History: three (thorough: four) operations of any kind on an empty cache over two UIDs of any string, every UID a
// value of its own, observed after each.
func C18_History() {
	c, m := newCache(symUIDs(2)...)
	m.bulk = sym.Bool("bulk")
	for k := 0; k < sym.Bound(3, 4); k++ {
		m.cacheOp(c)
		m.check(c)
	}
}

// C18_Three: three links of any ends among three UIDs of any bytes, then a delete, a put and every lookup.
func C18_Three() {
	c, m := newCache(names...)
	m.bulk = sym.Bool("bulk")
	for k := 0; k < sym.Bound(3, 4); k++ {
		m.put(c, sym.Choose("from", 3), sym.Choose("to", 3), false)
	}
	i := sym.Choose("uid", 3)
	m.del(c, m.uid[i])
	m.drop(i)
	m.put(c, i, sym.Choose("again", 3), sym.Bool("upsert"))
	m.check(c)
}
