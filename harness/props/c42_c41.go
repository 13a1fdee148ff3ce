// Package props holds one or more harnesses per property.
package props

import (
	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/broker"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

// C42_Types: the value is any int64.
func C42_Types() {
	t := broker.Type(sym.Int64("t"))
	s := t.String()
	sym.Observe("s", s)
	sym.Assert(sym.Implies(t == broker.Entity, s == "Entity"), "entity")
	sym.Assert(sym.Implies(t == broker.Object, s == "Object"), "object")
	sym.Assert(sym.Implies(t == broker.Resource, s == "Resource"), "resource")
	sym.Assert(sym.Implies(t == broker.Link, s == "Link"), "link")
	other := sym.And(t != broker.Entity, t != broker.Object, t != broker.Resource, t != broker.Link)
	sym.Assert(sym.Implies(other, s == "Unknown"), "unknown")
	u := broker.Type(sym.Int64("u"))
	known := sym.Or(t == broker.Entity, t == broker.Object, t == broker.Resource, t == broker.Link)
	sym.Assert(sym.Implies(sym.And(known, t != u), s != u.String()), "distinct")
}

// C41_String: any string of at most 64 (thorough: 256) bytes.
func C41_String() {
	s := sym.String("s", sym.Bound(64, 256))
	u := memuid.NewFromString(s)
	sym.Observe("s", u.String())
	sym.Assert(u.String() == s, "prints-as-given")
}

// C41_Generated: two UIDs from 32 arbitrary random bytes.
func C41_Generated() {
	sym.RandomSymbolic()
	a, b := memuid.New().String(), memuid.New().String()
	r := sym.Random()
	sym.Assert(len(a) == 36, "length")
	ok := true
	for i := 0; i < len(a); i++ {
		c := a[i]
		if i == 8 || i == 13 || i == 18 || i == 23 {
			ok = sym.And(ok, c == '-')
		} else {
			ok = sym.And(ok, sym.Or(sym.And('0' <= c, c <= '9'), sym.And('a' <= c, c <= 'f')))
		}
	}
	sym.Assert(ok, "canonical")
	if !sym.Native() {
		same := true
		for i := 0; i < 16; i++ {
			x, y := r[i], r[16+i]
			if i == 6 {
				x, y = x&0x0f, y&0x0f
			}
			if i == 8 {
				x, y = x&0x3f, y&0x3f
			}
			same = sym.And(same, x == y)
		}
		sym.Assert(sym.Iff(same, a == b), "equal-only-by-equal-bits")
	}
}
