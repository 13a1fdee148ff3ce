package props

import (
	"context"
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
)

// amodel is the reference for attributes: the keys set, in order, each once, and the last value of each.
type amodel struct{ keys, vals []string }

func (m *amodel) set(k, v string) {
	for i := range m.keys {
		if m.keys[i] == k {
			m.vals[i] = v
			return
		}
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (m *amodel) get(k string) string {
	for i := range m.keys {
		if m.keys[i] == k {
			return m.vals[i]
		}
	}
	return ""
}

func (m *amodel) clone() *amodel {
	return &amodel{append([]string{}, m.keys...), append([]string{}, m.vals...)}
}

// is compares everything that can be read from a with the reference; extra is any other key.
func (m *amodel) is(a *memattrs.Attrs, extra, id string) {
	for i, k := range m.keys {
		v, err := a.Get(ctx, k)
		sym.Assert(err == nil && v == m.vals[i], id+"get")
	}
	v, err := a.Get(ctx, extra)
	sym.Assert(err == nil && v == m.get(extra), id+"get-any")
	ks, err := a.Keys(ctx)
	sym.Assert(err == nil && len(ks) == len(m.keys), id+"keys-count")
	for _, k := range m.keys {
		n := 0
		for _, x := range ks {
			if x == k {
				n++
			}
		}
		sym.Assert(n == 1, id+"keys-once")
	}
	mp, err := attrs.ToMap(ctx, a)
	sym.Assert(err == nil && len(mp) == len(m.keys), id+"map-size")
	for i, k := range m.keys {
		v, ok := mp[k]
		sym.Assert(ok && v == m.vals[i], id+"map-value")
	}
	as := a.Attributes()
	sym.Assert(len(as) == len(m.keys), id+"dot-count")
	for i, k := range m.keys {
		n := 0
		for _, x := range as {
			if x.Key == k {
				n++
				sym.Assert(x.Value == m.vals[i], id+"dot-value")
			}
		}
		sym.Assert(n == 1, id+"dot-once")
	}
	// what was returned does not alias the attributes
	for k := range mp {
		mp[k] = "changed"
	}
	mp["added"] = "x"
	for i := range ks {
		ks[i] = "changed"
	}
	for i := range as {
		as[i].Value = "changed"
	}
}

// sets makes n sets of any key and value (any bytes, up to 32 each), on a and in the reference.
func (m *amodel) sets(a attrs.Attrs, n int) {
	for i := 0; i < n; i++ {
		k, v := sym.String("key", maxStr), sym.String("val", maxStr)
		err := a.Set(ctx, k, v)
		sym.Assert(err == nil, "set-ok")
		m.set(k, v)
	}
}

// C24_Map: three (thorough: four) sets of any keys and values, equal or not, observed after the first and the last.
func C24_Map() {
	a, m := memattrs.New(), &amodel{}
	extra := sym.String("extra", maxStr)
	m.is(a, extra, "")
	m.sets(a, 1)
	m.is(a, extra, "")
	m.sets(a, sym.Bound(2, 3))
	m.is(a, extra, "")
	m.is(a, extra, "again-")
}

// C24_Copy: attributes copied from attributes, from a map, or through ToMap, and then both sides are changed.
func C24_Copy() {
	src, m := memattrs.New(), &amodel{}
	m.sets(src, sym.Choose("sets", 3))
	extra := sym.String("extra", maxStr)
	var dst *memattrs.Attrs
	mp := map[string]string{}
	how := sym.Choose("how", 3)
	switch how {
	case 0:
		d, err := memattrs.NewCopyFrom(ctx, src)
		must(err)
		dst = d
	case 1:
		for i := range m.keys {
			mp[m.keys[i]] = m.vals[i]
		}
		dst = memattrs.NewFromMap(mp)
	case 2:
		d, err := attrs.ToMap(ctx, src)
		must(err)
		mp = d
		dst = memattrs.NewFromMap(d)
	}
	m.is(dst, extra, "copy-")
	n := m.clone()
	n.sets(dst, 1)
	k, v := sym.String("skey", maxStr), sym.String("sval", maxStr)
	must(src.Set(ctx, k, v))
	mp[k] = v
	o := m.clone()
	o.set(k, v)
	n.is(dst, extra, "copy-after-")
	o.is(src, extra, "source-after-")
	if how != 0 {
		for i := range o.keys {
			if how == 2 || o.keys[i] == k {
				x, ok := mp[o.keys[i]]
				sym.Assert(ok && x == o.vals[i], "map-after")
			}
		}
	}
}

// C24_FromNil: attributes made from a nil map, or copied from none, are empty and can be set.
func C24_FromNil() {
	a, m := memattrs.NewFromMap(nil), &amodel{}
	if sym.Bool("copied") {
		var err error
		a, err = memattrs.NewCopyFrom(ctx, nil)
		sym.Assert(err == nil && a != nil, "copied")
	}
	m.is(a, "k", "")
	m.sets(a, 1)
	m.is(a, "k", "")
}

// someAttrs has the keys a, b and c and fails for one of them, or on Keys.
type someAttrs struct {
	bad  string
	keys bool
	err  error
}

func (b someAttrs) Keys(context.Context) ([]string, error) {
	if b.keys {
		return nil, b.err
	}
	return []string{"a", "b", "c"}, nil
}

func (b someAttrs) Get(_ context.Context, k string) (string, error) {
	if k == b.bad {
		return "", b.err
	}
	return "v" + k, nil
}
func (b someAttrs) Set(context.Context, string, string) error { return nil }

// C24_Error: a source that fails on Keys, or for any one key, or not at all.
func C24_Error() {
	src := someAttrs{bad: sym.Word("bad", 0, 1), keys: sym.Bool("keys"), err: anyErr("attrs-err")}
	fails := src.keys || src.bad == "a" || src.bad == "b" || src.bad == "c"
	d, err := memattrs.NewCopyFrom(ctx, src)
	mp, merr := attrs.ToMap(ctx, src)
	if fails {
		sym.Reach("fails")
		sym.Assert(errors.Is(err, src.err) && d == nil, "copy-error")
		sym.Assert(errors.Is(merr, src.err) && len(mp) == 0, "map-error")
		sym.Assert(len(memattrs.DOTAttrs(src)) == 0, "no-part-of-the-list")
		ent, err := entity.New("t")
		must(err)
		x, err := memory.NewNode(1, ent, graph.WithAttrs(src))
		must(err)
		y, err := memory.NewNode(2, ent)
		must(err)
		e, err := memory.NewEdge(x, y, graph.WithAttrs(src))
		must(err)
		sym.Assert(len(x.Attributes()) == 0, "no-part-of-the-list-of-a-node")
		sym.Assert(len(e.Attributes()) == 0, "no-part-of-the-list-of-an-edge")
		return
	}
	sym.Reach("works")
	sym.Assert(err == nil && merr == nil && len(mp) == 3, "no-error")
	m := &amodel{[]string{"a", "b", "c"}, []string{"va", "vb", "vc"}}
	m.is(d, "d", "")
	for _, k := range m.keys {
		sym.Assert(mp[k] == "v"+k, "map-complete")
	}
}

func attrsFrom(m *amodel) attrs.Attrs {
	a := memattrs.New()
	for i := range m.keys {
		must(a.Set(ctx, m.keys[i], m.vals[i]))
	}
	return a
}
