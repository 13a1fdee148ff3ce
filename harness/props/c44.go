package props

import (
	"context"
	"time"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape"
	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	"github.com/milosgajdos/netscrape/pkg/cache"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/space/marshal"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// nOpts is how many options are applied one after another.
func nOpts() int { return sym.Bound(3, 5) }

func anyAttrs(name string) attrs.Attrs {
	if sym.Bool("nil-" + name) {
		return nil
	}
	return attrsOf("k", "v")
}

func anyUID(name string) uuid.UID {
	if sym.Bool("nil-" + name) {
		return nil
	}
	return uidOf(sym.String(name, maxUID))
}

// C44_Graph: any sequence of graph options with any values, applied to options that already hold any values.
func C44_Graph() {
	var o, m graph.Options
	if sym.Bool("filled") {
		o = graph.Options{UID: uidOf("u0"), DOTID: "d0", Attrs: attrsOf("a", "0"), Weight: 3, Name: "n0", NoCache: true, Upsert: true,
			DOTOptions: graph.DOTOptions{NodeAttrs: memattrs.New()}}
		m = o
	}
	for k := 0; k < nOpts(); k++ {
		switch sym.Choose("option", 8) {
		case 0:
			m.UID = anyUID("uid")
			graph.WithUID(m.UID)(&o)
		case 1:
			m.DOTID = sym.String("dotid", maxStr)
			graph.WithDOTID(m.DOTID)(&o)
		case 2:
			m.Name = sym.String("name", maxStr)
			graph.WithName(m.Name)(&o)
		case 3:
			m.Attrs = anyAttrs("attrs")
			graph.WithAttrs(m.Attrs)(&o)
		case 4:
			m.Weight = sym.Float("weight")
			graph.WithWeight(m.Weight)(&o)
		case 5:
			m.Upsert = true
			graph.WithUpsert()(&o)
		case 6:
			m.NoCache = true
			graph.WithNoCache()(&o)
		case 7:
			m.DOTOptions = graph.DOTOptions{GraphAttrs: memattrs.New(), EdgeAttrs: memattrs.New()}
			if sym.Bool("other-dot") {
				m.DOTOptions = graph.DOTOptions{NodeAttrs: memattrs.New()}
			}
			graph.WithDOTOptions(m.DOTOptions)(&o)
		}
		sym.Assert(o.UID == m.UID, "uid")
		sym.Assert(o.DOTID == m.DOTID, "dotid")
		sym.Assert(o.Name == m.Name, "name")
		sym.Assert(o.Attrs == m.Attrs, "attrs")
		sym.Assert(sym.SameFloat(o.Weight, m.Weight), "weight")
		sym.Assert(o.Upsert == m.Upsert, "upsert")
		sym.Assert(o.NoCache == m.NoCache, "nocache")
		sym.Assert(o.DOTOptions == m.DOTOptions, "dot-options")
	}
}

// C44_Entity: the same for the options of entities.
func C44_Entity() {
	var o, m entity.Options
	if sym.Bool("filled") {
		o = entity.Options{UID: uidOf("u0"), Attrs: attrsOf("a", "0"), DOTID: "d0"}
		m = o
	}
	for k := 0; k < nOpts(); k++ {
		switch sym.Choose("option", 3) {
		case 0:
			m.UID = anyUID("uid")
			entity.WithUID(m.UID)(&o)
		case 1:
			m.Attrs = anyAttrs("attrs")
			entity.WithAttrs(m.Attrs)(&o)
		case 2:
			m.DOTID = sym.String("dotid", maxStr)
			entity.WithDOTID(m.DOTID)(&o)
		}
		sym.Assert(o.UID == m.UID, "uid")
		sym.Assert(o.Attrs == m.Attrs, "attrs")
		sym.Assert(o.DOTID == m.DOTID, "dotid")
	}
}

// C44_Link: the same for the options of links.
func C44_Link() {
	var o, m link.Options
	if sym.Bool("filled") {
		o = link.Options{UID: uidOf("u0"), Attrs: attrsOf("a", "0"), Merge: true}
		m = o
	}
	for k := 0; k < nOpts(); k++ {
		switch sym.Choose("option", 3) {
		case 0:
			m.UID = anyUID("uid")
			link.WithUID(m.UID)(&o)
		case 1:
			m.Attrs = anyAttrs("attrs")
			link.WithAttrs(m.Attrs)(&o)
		case 2:
			m.Merge = sym.Bool("merge")
			link.WithMerge(m.Merge)(&o)
		}
		sym.Assert(o.UID == m.UID, "uid")
		sym.Assert(o.Attrs == m.Attrs, "attrs")
		sym.Assert(o.Merge == m.Merge, "merge")
	}
}

// C44_Store: the same for the options of store operations and of the in-memory store.
func C44_Store() {
	var o, m store.Options
	var so, sm memstore.Options
	g1, g2 := newGraph(true), newGraph(false)
	if sym.Bool("filled") {
		o = store.Options{Upsert: true, Graph: g1, Attrs: attrsOf("a", "0")}
		m = o
		so = memstore.Options{UID: uidOf("u0"), Graph: g1}
		sm = so
	}
	graphOf := func() memory.Graph {
		switch sym.Choose("graph", 3) {
		case 0:
			return g1
		case 1:
			return g2
		}
		return nil
	}
	for k := 0; k < nOpts(); k++ {
		switch sym.Choose("option", 5) {
		case 0:
			m.Upsert = true
			store.WithUpsert()(&o)
		case 1:
			g := graphOf()
			m.Graph = g
			store.WithGraph(g)(&o)
		case 2:
			m.Attrs = anyAttrs("attrs")
			store.WithAttrs(m.Attrs)(&o)
		case 3:
			sm.UID = anyUID("uid")
			memstore.WithUID(sm.UID)(&so)
		case 4:
			sm.Graph = graphOf()
			memstore.WithGraph(sm.Graph)(&so)
		}
		sym.Assert(o.Upsert == m.Upsert, "upsert")
		sym.Assert(o.Graph == m.Graph, "graph")
		sym.Assert(o.Attrs == m.Attrs, "attrs")
		sym.Assert(so.UID == sm.UID, "memory-uid")
		sym.Assert(so.Graph == sm.Graph, "memory-graph")
	}
}

// C44_Broker: the same for the options of brokers, with every int and every duration.
func C44_Broker() {
	var o, m broker.Options
	if sym.Bool("filled") {
		o = broker.Options{Cap: 7, Sink: broker.FanOut, PubTimeout: time.Second, RecvTimeout: time.Minute}
		m = o
	}
	for k := 0; k < nOpts(); k++ {
		switch sym.Choose("option", 4) {
		case 0:
			m.Cap = int(sym.Int64("cap"))
			broker.WithCap(m.Cap)(&o)
		case 1:
			m.Sink = broker.Sink(sym.Int64("sink"))
			broker.WithSink(m.Sink)(&o)
		case 2:
			m.PubTimeout = time.Duration(sym.Int64("pub"))
			broker.WithPubTimeout(m.PubTimeout)(&o)
		case 3:
			m.RecvTimeout = time.Duration(sym.Int64("sub"))
			broker.WithSubTimeout(m.RecvTimeout)(&o)
		}
		sym.Assert(o.Cap == m.Cap, "cap")
		sym.Assert(o.Sink == m.Sink, "sink")
		sym.Assert(o.PubTimeout == m.PubTimeout, "pub-timeout")
		sym.Assert(o.RecvTimeout == m.RecvTimeout, "sub-timeout")
	}
	sym.Assert(broker.FanIn != broker.FanOut, "sinks-differ")
}

// C44_Rest: the same for the options of the cache, the runner, the ingester and the digester.
func C44_Rest() {
	switch sym.Choose("package", 4) {
	case 0:
		o := cache.Options{Upsert: sym.Bool("upsert")}
		cache.WithUpsert()(&o)
		sym.Assert(o.Upsert, "cache-upsert")
	case 1:
		var o, m netscrape.Options
		s := []store.Store{nil, &fakeStore{n: 1}, &fakeStore{n: 2}}
		b := []broker.Broker{nil, &recordBroker{}, &recordBroker{}}
		f := []broker.Marshaler{nil, &tagMarshaler{tag: "1"}, &tagMarshaler{tag: "2"}}
		if sym.Bool("filled") {
			o = netscrape.Options{Store: s[2], Broker: b[2], Marshaler: f[2]}
			m = o
		}
		for k := 0; k < nOpts(); k++ {
			v := sym.Choose("value", 3)
			switch sym.Choose("option", 3) {
			case 0:
				m.Store = s[v]
				netscrape.WithStore(s[v])(&o)
			case 1:
				m.Broker = b[v]
				netscrape.WithBroker(b[v])(&o)
			case 2:
				m.Marshaler = f[v]
				netscrape.WithMarshaler(f[v])(&o)
			}
			sym.Assert(o.Store == m.Store, "store")
			sym.Assert(o.Broker == m.Broker, "broker")
			sym.Assert(o.Marshaler == m.Marshaler, "marshaler")
		}
	case 2:
		f := []broker.Marshaler{nil, &tagMarshaler{tag: "1"}, &tagMarshaler{tag: "2"}}
		o := ingester.Options{Marshaler: f[sym.Choose("before", 3)]}
		v := f[sym.Choose("value", 3)]
		ingester.WithMarshaler(v)(&o)
		sym.Assert(o.Marshaler == v, "ingester-marshaler")
	case 3:
		// functions cannot be compared, so each notes its number when it is called
		called, want := -1, -1
		var h []broker.Handler
		for i := 0; i < 3; i++ {
			i := i
			h = append(h, func(context.Context, broker.Message) error { called = i; return nil })
		}
		f := []broker.Unmarshaler{nil, &stubUnmarshaler{}, &stubUnmarshaler{}}
		var o digester.Options
		var u broker.Unmarshaler
		if sym.Bool("filled") {
			want, u = 2, f[2]
			o = digester.Options{Handler: h[2], Unmarshaler: f[2]}
		}
		for k := 0; k < nOpts(); k++ {
			v := sym.Choose("value", 3)
			if sym.Bool("handler") {
				want = v
				digester.WithHandler(h[v])(&o)
			} else {
				u = f[v]
				digester.WithMarshaler(f[v])(&o)
			}
			called = -1
			if o.Handler != nil {
				must(o.Handler(ctx, broker.Message{}))
			}
			sym.Assert(called == want, "handler")
			sym.Assert(o.Unmarshaler == u, "unmarshaler")
		}
	}
}

type stubUnmarshaler struct{ n int }

func (s *stubUnmarshaler) Unmarshal(b []byte, x interface{}) error { s.n++; return nil }

// C44_Errors: no two of the errors of one package are the same.
func C44_Errors() {
	type named struct {
		err  error
		name string
	}
	sets := [][]named{
		{{netscrape.ErrNotImplemented, "ErrNotImplemented"}, {netscrape.ErrMissingPlan, "ErrMissingPlan"}},
		{{graph.ErrInvalidNode, "ErrInvalidNode"}, {graph.ErrNodeNotFound, "ErrNodeNotFound"}, {graph.ErrEdgeNotFound, "ErrEdgeNotFound"},
			{graph.ErrEdgeNotExist, "ErrEdgeNotExist"}, {graph.ErrDuplicateNode, "ErrDuplicateNode"}, {graph.ErrUnknownEntity, "ErrUnknownEntity"},
			{graph.ErrInvalidEntity, "ErrInvalidEntity"}, {graph.ErrMissingEntity, "ErrMissingEntity"}, {graph.ErrMissingResource, "ErrMissingResource"},
			{graph.ErrNotImplemented, "ErrNotImplemented"}, {graph.ErrUnsupported, "ErrUnsupported"}},
		{{cache.ErrNotImplemented, "ErrNotImplemented"}, {cache.ErrUnsupported, "ErrUnsupported"}},
		{{plan.ErrResourceNotFound, "ErrResourceNotFound"}, {plan.ErrNotImplemented, "ErrNotImplemented"}},
		{{broker.ErrNotImplemented, "ErrNotImplemented"}, {broker.ErrNotConnected, "ErrNotConnected"}, {broker.ErrSubscriptionInactive, "ErrSubscriptionInactive"},
			{broker.ErrTopicNotExist, "ErrTopicNotExist"}, {broker.ErrTimeout, "ErrTimeout"}},
		{{store.ErrNotImplemented, "ErrNotImplemented"}, {store.ErrUnsupported, "ErrUnsupported"}, {store.ErrEntityNotFound, "ErrEntityNotFound"},
			{store.ErrAlreadyExists, "ErrAlreadyExists"}, {store.ErrNotExist, "ErrNotExist"}},
		{{space.ErrNotImplemented, "ErrNotImplemented"}},
		{{marshal.ErrUnsuportedType, "ErrUnsuportedType"}, {marshal.ErrNotImplemented, "ErrNotImplemented"}},
	}
	set := sets[sym.Choose("package", len(sets))]
	i, j := sym.Choose("one", len(set)), sym.Choose("other", len(set))
	sym.Assert((set[i].err == set[j].err) == (i == j), "distinct")
	sym.Assert(set[i].err != nil, "not-nil")
}
