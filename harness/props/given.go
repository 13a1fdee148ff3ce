package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"math"
	"time"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	sdigester "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	singester "github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/store"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

// Harnesses in which calls are given what they need not be given: options that are for others, data that says more than the
// arguments, timeouts that are not positive.

// subOpts are options SubGraph may be given: every option of a graph, with any weight.
func subOpts() (opts []graph.Option) {
	switch sym.Choose("option", 8) {
	case 0:
		opts = append(opts, graph.WithWeight(sym.Float("opt-weight")))
	case 1:
		opts = append(opts, graph.WithUID(uidOf("sub")))
	case 2:
		opts = append(opts, graph.WithDOTID("sub"))
	case 3:
		opts = append(opts, graph.WithAttrs(attrsOf(attrKey, "sub")))
	case 4:
		opts = append(opts, graph.WithName("sub"))
	case 5:
		opts = append(opts, graph.WithUpsert())
	case 6:
		opts = append(opts, graph.WithDOTOptions(graph.DOTOptions{}))
	case 7:
		opts = append(opts, graph.WithUID(uidOf("a")), graph.WithWeight(sym.Float("opt-weight")), graph.WithUpsert(), graph.WithDOTID("a"), graph.WithAttrs(attrsOf(attrKey, "x")))
	}
	return opts
}

func subGiven(edges bool) {
	directed := sym.Bool("directed")
	var g G
	if sym.Bool("plain") {
		g = newGraph(directed)
	} else {
		// the weights of the graph itself need not be those of the subgraph
		g = newGraphWith(directed, graph.WithWeight(sym.Float("own-weight")))
	}
	m := newModel(directed, "a", "b")
	for i := range m.node {
		m.add(g, i, types[i])
	}
	for i := range m.node {
		for j := range m.node {
			if i != j && m.get(i, j) == nil && (directed || i < j) && sym.Bool("edge") {
				m.link(g, i, j, sym.Float("weight"), types[j])
			}
		}
	}
	depth := sym.Int("depth", 0, 2)
	sg, err := g.SubGraph(ctx, uidOf("a"), depth, subOpts()...)
	sym.Assert(err == nil && sg != nil, "no-error")
	if err != nil || sg == nil {
		return
	}
	d := 0
	for d < 2 && d < depth {
		d++
	}
	if edges {
		m.subEdges(sg, m.within(0, d))
	} else {
		m.subNodes(sg, m.within(0, d))
	}
	m.check(g, "source-")
}

// C07_Options: the subgraph of any graph of two nodes with any options given to SubGraph.
func C07_Options() { subGiven(false) }

// C08_Options: the same for its edges, whose weights are any, and so is the weight given.
func C08_Options() { subGiven(true) }

// givenGraph is any graph of two nodes and an operation with options it has no use for.
func givenGraph(op func(g G, m *gmodel, i, j int)) {
	directed := sym.Bool("directed")
	g, m := newGraph(directed), newModel(directed, "a", "b")
	for i := range m.node {
		m.add(g, i, types[i])
	}
	m.anyEdges(g)
	m.extra = subOpts
	i := sym.Choose("slot", 2)
	op(g, m, i, 1-i)
	m.check(g, "")
}

// C03_Options: RemoveNode with any options.
func C03_Options() { givenGraph(func(g G, m *gmodel, i, j int) { m.removeAny(g, i) }) }

// C04_Options: a link of a pair that may be linked already, with any options then.
func C04_Options() { givenGraph(func(g G, m *gmodel, i, j int) { m.linkAny(g, i, j) }) }

// C06_Options: Unlink with any options.
func C06_Options() { givenGraph(func(g G, m *gmodel, i, j int) { m.unlinkAny(g, i, j) }) }

// C02_Options: a node added plainly or with upsert and any options besides, which are for nodes being made.
func C02_Options() {
	givenGraph(func(g G, m *gmodel, i, j int) {
		e, typ := m.entity(i)
		n, err := memory.NewNode(sym.Int64("id"), e, graph.WithAttrs(attrsOf(attrKey, "new")))
		must(err)
		opts := subOpts()
		var o graph.Options
		for _, f := range opts {
			f(&o)
		}
		clash := n.ID() == m.node[j].id
		err = g.AddNode(ctx, n, opts...)
		if !o.Upsert || clash {
			sym.Assert(errors.Is(err, graph.ErrDuplicateNode), "duplicate-rejected")
			return
		}
		sym.Assert(err == nil, "add-accepted")
		m.node[i] = &mnode{id: n.ID(), typ: typ, attr: "new"}
	})
}

// givenStore is any store of two entities and an operation with options it has no use for.
func givenStore(op func(s S, g G, m *smodel, i, j int)) {
	s, g, m := anyStore(sym.Choose("kind", 2), "a", "b")
	switch sym.Choose("option", 4) {
	case 0:
		m.spare = []store.Option{store.WithAttrs(attrsOf(attrKey, sym.String("opt", maxStr)))}
	case 1:
		m.spare = []store.Option{store.WithUpsert()}
	case 2:
		m.spare = []store.Option{store.WithGraph(newGraph(true))}
	case 3:
		m.spare = []store.Option{store.WithUpsert(), store.WithAttrs(attrsOf("other", "x"))}
	}
	i := sym.Choose("slot", 2)
	op(s, g, m, i, 1-i)
	m.check(s, g, "")
}

// C13_Options: a Delete with any options, and lookups with them.
func C13_Options() { givenStore(func(s S, g G, m *smodel, i, j int) { m.del(s, i) }) }

// C15_Options: an Unlink, or a Link of a pair that may be linked already, with any options.
func C15_Options() {
	givenStore(func(s S, g G, m *smodel, i, j int) {
		if sym.Bool("link") {
			m.linkAny(s, g, i, j)
		} else {
			m.unlinkAny(s, i, j)
		}
	})
}

// C20_Options: any cache of two UIDs, and a Delete, Clear and lookups that are given the option of puts.
func C20_Options() {
	c, m := anyCache("a", "b")
	m.spare = []cache.Option{cache.WithUpsert()}
	m.cacheOp(c)
	m.check(c)
}

// C18_Options: the same, as lookups go.
func C18_Options() { C20_Options() }

// C21_Options: the same, as bulk calls go.
func C21_Options() { C20_Options() }

// spareBroker are broker options given to calls that have no use for them.
func spareBroker(b bool) []broker.Option {
	if !b {
		return nil
	}
	switch sym.Choose("option", 3) {
	case 0:
		return []broker.Option{broker.WithCap(sym.Choose("opt-cap", 3))}
	case 1:
		return []broker.Option{broker.WithPubTimeout(unit), broker.WithSubTimeout(unit)}
	}
	return []broker.Option{broker.WithPubTimeout(-1), broker.WithSubTimeout(-1), broker.WithCap(-1)}
}

// C32_Options: any options given to Open, to Sub, to Pub, to Topic or to an Unsubscribe: the topic has the capacity of the broker.
func C32_Options() {
	sym.Delay(0)
	n := sym.Choose("cap", 3)
	b := newBroker(n)
	at := sym.Choose("at", 5)
	must(b.Open(ctx, spareBroker(at == 0)...))
	s, err := b.Sub(ctx, "x", spareBroker(at == 1)...)
	must(err)
	switch at {
	case 2:
		name, err := s.Topic(ctx, spareBroker(true)...)
		sym.Assert(err == nil && name == "x", "topic")
	case 3:
		must(s.Unsubscribe(ctx, spareBroker(true)...))
	case 4:
		if n > 0 {
			// with a timeout that cannot expire before the message is put
			must(b.Pub(ctx, "x", msg("first"), broker.WithCap(sym.Choose("opt-cap", 3)), broker.WithSubTimeout(unit), broker.WithPubTimeout(short)))
			n--
		}
	}
	for k := 0; k < n; k++ {
		sym.Assert(b.Pub(ctx, "x", msg("m"), broker.WithPubTimeout(short)) == nil, "room-accepted")
	}
	sym.Assert(brokerErr(b.Pub(ctx, "x", msg("over"), broker.WithPubTimeout(short))) == "timeout", "full")
}

// spaceData is an entity, resource, object or link, of the space or of the graph, with any type.
func spaceData() interface{} {
	res, err := entity.NewResource("rt", "rn", "g", "v", "k", sym.Bool("namespaced"))
	must(err)
	switch sym.Choose("space", 6) {
	case 0:
		e, err := entity.New([]string{"t", "Object", "Link"}[sym.Choose("type", 3)])
		must(err)
		return e
	case 1:
		return res
	case 2:
		o, err := entity.NewObject("ot", "on", "ns", res)
		must(err)
		return o
	case 3:
		l, err := link.New(uidOf("a"), uidOf("b"))
		must(err)
		return l
	case 4:
		e, err := newEntity("t", "a")
		must(err)
		n, err := memory.NewNode(1, e)
		must(err)
		return n
	}
	return nil
}

// C38_Space: an entity, resource, object or link of any kind ingested as any type, with any of the marshalers that may be used.
func C38_Space() {
	data := spaceData()
	in, err := singester.NewIngester()
	must(err)
	b := &recordBroker{}
	typ := broker.Type(sym.Int("type", -2, 6))
	var opts []ingester.Option
	tag := &tagMarshaler{tag: "tag"}
	own := sym.Bool("marshaler")
	if own {
		opts = append(opts, ingester.WithMarshaler(tag))
	}
	err = in.Ingest(ctx, b, "x", typ, data, opts...)
	if !own {
		want, werr := json.Marshal(data)
		if werr != nil {
			sym.Assert(err != nil && len(b.calls) == 0, "marshal-error")
			return
		}
		tag.tag = string(want)
	} else {
		sym.Assert(len(tag.got) == 1 && tag.got[0] == data, "data-as-given")
	}
	sym.Assert(err == nil, "no-error")
	sym.Assert(len(b.calls) == 1, "published-exactly-once")
	if len(b.calls) == 1 {
		sym.Assert(b.calls[0].m.Type == typ, "of-the-type")
		sym.Assert(b.calls[0].topic == "x", "on-the-topic")
		sym.Assert(bytes.Equal(b.calls[0].m.Data, []byte(tag.tag)), "payload")
	}
}

// nonPositive is a timeout that is not positive, zero standing for none given.
func nonPositive() time.Duration {
	d := time.Duration(sym.Int("timeout", math.MinInt32, 0))
	if sym.Bool("seconds") {
		d *= time.Second
	}
	return d
}

// C36_Negative: a Pub on a full topic or a Receive on an empty one with any timeout that is not positive, given to the call or to the
// broker: it returns ErrTimeout after no more than the default one.
func C36_Negative() {
	sym.Delay(0)
	d := nonPositive()
	var opts []broker.Option
	opts = append(opts, broker.WithCap(sym.Choose("cap", 2)))
	pub := sym.Bool("pub")
	var copts []broker.Option
	switch {
	case pub && sym.Bool("of-the-broker"):
		opts = append(opts, broker.WithPubTimeout(d))
	case pub:
		copts = append(copts, broker.WithPubTimeout(d))
	case sym.Bool("of-the-broker"):
		opts = append(opts, broker.WithSubTimeout(d))
	default:
		copts = append(copts, broker.WithSubTimeout(d))
	}
	b, err := membroker.New(opts...)
	must(err)
	c, cancel := context.WithCancel(ctx)
	must(b.Open(c))
	s := subscribe(b, "x")
	start := time.Now()
	if pub {
		for err == nil {
			err = b.Pub(ctx, "x", msg("m"), copts...)
		}
	} else {
		_, _, err = recvWith(s, copts...)
	}
	sym.Assert(brokerErr(err) == "timeout", "timeout")
	sym.Assert(time.Since(start) <= membroker.DefaultTimeout+short, "returns")
	cancel()
	sym.Quiesce()
}

// C40_Slices: the options of a runner and of its runs given in slices with room for more, which the caller goes on to use: each
// run has its own options and the runner's as they were, and the slices are left as they were.
func C40_Slices() {
	ms := []*tagMarshaler{{tag: "own"}, {tag: "later"}, {tag: "spare"}}
	own := make([]netscrape.Option, 3)
	for i := range own {
		own[i] = netscrape.WithMarshaler(ms[i])
	}
	r, err := netscrape.NewRunner(own[:1]...)
	must(err)
	if sym.Bool("changed") {
		own[0] = own[1]
	}
	var bs [2]*recordBroker
	var ss [2]*recordScraper
	var opts [2][]netscrape.Option
	for i := range bs {
		bs[i], ss[i] = &recordBroker{}, &recordScraper{}
		opts[i] = []netscrape.Option{netscrape.WithBroker(bs[i]), netscrape.WithMarshaler(ms[2])}
	}
	run := func(i int) func() { return func() { must(r.Run(ctx, nil, ss[i], opts[i][:1]...)) } }
	if sym.Bool("concurrent") {
		sym.Preempt(2)
		sym.Par(run(0), run(1))
		sym.Preempt(0)
	} else {
		run(0)()
		run(1)()
	}
	for i, s := range ss {
		sym.Assert(len(s.calls) == 1, "called-exactly-once")
		sameOpts(s.calls[0].opts, netscrape.Options{Broker: bs[i], Marshaler: ms[0]})
		var o netscrape.Options
		opts[i][1](&o)
		sym.Assert(o.Marshaler == ms[2] && o.Broker == nil, "own-slice-kept")
	}
	var o netscrape.Options
	own[2](&o)
	sym.Assert(o.Marshaler == ms[2] && o.Broker == nil, "slice-kept")
}

// C38_Slices: the same for an ingester and its calls.
func C38_Slices() {
	ms := []*tagMarshaler{{tag: "own"}, {tag: "later"}, {tag: "spare"}}
	own := make([]ingester.Option, 3)
	for i := range own {
		own[i] = ingester.WithMarshaler(ms[i])
	}
	in, err := singester.NewIngester(own[:1]...)
	must(err)
	if sym.Bool("changed") {
		own[0] = own[1]
	}
	var bs [2]*recordBroker
	var opts [2][]ingester.Option
	var want [2]string
	for i := range bs {
		bs[i], want[i] = &recordBroker{}, "own"
		opts[i] = make([]ingester.Option, 0, 2)
		if sym.Bool("of-the-call") {
			want[i] = "call" + string(rune('0'+i))
			opts[i] = append(opts[i], ingester.WithMarshaler(&quietMarshaler{want[i]}))
		}
	}
	do := func(i int) func() {
		return func() { must(in.Ingest(ctx, bs[i], "x", broker.Object, i, opts[i]...)) }
	}
	if want[0] != "own" && want[1] != "own" && sym.Bool("concurrent") {
		sym.Preempt(2)
		sym.Par(do(0), do(1))
		sym.Preempt(0)
	} else {
		do(0)()
		do(1)()
	}
	for i, b := range bs {
		sym.Assert(len(b.calls) == 1 && string(b.calls[0].m.Data) == want[i], "own-payload")
	}
	var o ingester.Options
	own[2](&o)
	sym.Assert(o.Marshaler == ms[2], "slice-kept")
}

// C39_Slices: the same for a digester and its calls.
func C39_Slices() {
	var got [2]string
	mark := func(s string) broker.Handler {
		return func(_ context.Context, m broker.Message) error { got[m.Type] += s; return nil }
	}
	own := make([]digester.Option, 3)
	for i := range own {
		own[i] = digester.WithHandler(mark(string(rune('a' + i))))
	}
	d, err := sdigester.NewDigester(own[:1]...)
	must(err)
	if sym.Bool("changed") {
		own[0] = own[1]
	}
	var opts [2][]digester.Option
	var want [2]string
	for i := range opts {
		want[i] = "a"
		opts[i] = make([]digester.Option, 0, 2)
		if sym.Bool("of-the-call") {
			want[i] = string(rune('x' + i))
			opts[i] = append(opts[i], digester.WithHandler(mark(want[i])))
		}
	}
	do := func(i int) func() {
		return func() {
			err := d.Digest(ctx, &oneSub{m: broker.Message{Type: broker.Type(i)}}, opts[i]...)
			sym.Assert(errors.Is(err, errOver), "error-returned")
		}
	}
	if sym.Bool("concurrent") {
		sym.Preempt(2)
		sym.Par(do(0), do(1))
		sym.Preempt(0)
	} else {
		do(0)()
		do(1)()
	}
	sym.Assert(got == want, "own-handler")
}

var errOver = errors.New("over")

// oneSub has one message.
type oneSub struct {
	broker.Subscriber
	m    broker.Message
	over bool
}

func (s *oneSub) Receive(c context.Context, h broker.Handler, opts ...broker.Option) error {
	if s.over {
		return errOver
	}
	s.over = true
	return h(c, s.m)
}

// C39_During: the context, with or without a deadline, ends while a message has been received and not handled, while it is being
// handled or after that: every message received is handled, and Digest returns.
func C39_During() {
	c, cancel := context.WithCancel(ctx)
	if sym.Bool("deadline") {
		c, cancel = context.WithTimeout(ctx, time.Hour)
	}
	defer cancel()
	at, when := sym.Int("at", 0, 3), sym.Choose("when", 3)
	s := &scriptSub{failAt: -1, end: someErr("end")}
	for k := 0; k < 6; k++ {
		s.script = append(s.script, msg("m"+string(rune('0'+k))))
	}
	end := func(w int) func(int) {
		return func(k int) {
			if k == at && w == when {
				cancel()
			}
		}
	}
	s.before, s.hook = end(0), end(2)
	var got []broker.Message
	handle := func(_ context.Context, m broker.Message) error {
		end(1)(len(got))
		got = append(got, m)
		return nil
	}
	var iopts, copts []digester.Option
	if sym.Bool("own") {
		iopts = append(iopts, digester.WithHandler(handle))
	} else {
		copts = append(copts, digester.WithHandler(handle))
	}
	d, err := sdigester.NewDigester(iopts...)
	must(err)
	err = d.Digest(c, s, copts...)
	sym.Assert(err != nil, "returns")
	n := s.receives
	if n > len(s.script) {
		n = len(s.script)
	}
	sym.Assert(len(got) >= at+1, "not-before-the-context-ended")
	sym.Assert(len(got) == n, "each-handled-once")
	for k, m := range got {
		sym.Assert(msgIs(m, "m"+string(rune('0'+k))), "as-received-in-order")
	}
}

// leftTopic is five (thorough: six) of: a subscription and a publish, each with a context of its own, the end of such a context after
// the call returned, and an Unsubscribe, with everything settled in between; then whatever was accepted is there, in order, for a
// subscriber that is left or a new one.
func leftTopic() {
	n := sym.Choose("cap", 2) + 1
	b, cancel := opened(n)
	type one struct {
		s   broker.Subscriber
		end context.CancelFunc
		off bool
	}
	var subs []*one
	var want []string
	for k := 0; k < sym.Bound(5, 6); k++ {
		switch sym.Choose("call", 4) {
		case 0:
			c, end := context.WithCancel(ctx)
			s, err := b.Sub(c, "x")
			sym.Assert(err == nil, "sub")
			subs = append(subs, &one{s: s, end: end})
		case 1:
			m := "m" + string(rune('0'+k))
			c, end := context.WithCancel(ctx)
			err := b.Pub(c, "x", msg(m), broker.WithPubTimeout(short))
			if len(want) < n {
				sym.Assert(err == nil, "accepted")
				want = append(want, m)
			} else {
				sym.Assert(brokerErr(err) == "timeout", "full")
			}
			end()
		case 2:
			if len(subs) > 0 {
				subs[sym.Choose("sub", len(subs))].end()
			}
		case 3:
			if len(subs) > 0 {
				o := subs[sym.Choose("sub", len(subs))]
				must(o.s.Unsubscribe(ctx))
				o.off = true
			}
		}
		sym.Quiesce()
	}
	var s broker.Subscriber
	for _, o := range subs {
		if !o.off {
			s = o.s
		}
	}
	if s == nil {
		s = subscribe(b, "x")
	}
	for _, w := range want {
		m, calls, err := recv(s, short)
		sym.Assert(err == nil && calls == 1, "delivered")
		sym.Assert(msgIs(m, w), "in-order")
	}
	_, calls, err := recv(s, short)
	sym.Assert(calls == 0 && brokerErr(err) == "timeout", "nothing-else")
	cancel()
}

// C30_Left: subscribers come and go, and the contexts of calls that have returned end: every message accepted is delivered.
func C30_Left() { leftTopic() }

// C31_Left: the same: what Pub accepted is there.
func C31_Left() { leftTopic() }

// C35_Left: the same: only an Unsubscribe ends a subscription.
func C35_Left() { leftTopic() }

// C41_Concurrent: up to three goroutines that generate two UIDs each, at once with others generated before: all are different.
func C41_Concurrent() {
	var all []string
	for k := sym.Choose("before", 2) * 3; k > 0; k-- {
		all = append(all, memuid.New().String())
	}
	n := sym.Choose("goroutines", 2) + 2
	got := make([][2]string, n)
	var fs []func()
	for i := range got {
		i := i
		fs = append(fs, func() { got[i] = [2]string{memuid.New().String(), memuid.New().String()} })
	}
	sym.Preempt(sym.Bound(2, 3))
	sym.Par(fs...)
	sym.Preempt(0)
	for _, g := range got {
		all = append(all, g[0], g[1])
	}
	for i := range all {
		sym.Assert(len(all[i]) == 36, "canonical")
		for j := range all[:i] {
			// the random source of the harnesses never repeats itself here
			sym.Assert(all[i] != all[j], "distinct")
		}
	}
}

// batchSub hands out messages in batches, which may be empty; a batch ends early if the handler fails.
type batchSub struct {
	scriptSub
	sizes []int
	next  int
}

func (s *batchSub) Receive(c context.Context, h broker.Handler, _ ...broker.Option) error {
	k := s.receives
	s.receives++
	sym.Assert(!s.failed, "receives-after-an-error")
	if k >= len(s.sizes) {
		s.failed = true
		return s.end
	}
	for i := 0; i < s.sizes[k]; i++ {
		m := msg("m" + string(rune('0'+s.next)))
		s.next++
		if err := h(c, m); err != nil {
			s.failed = true
			return err
		}
	}
	return nil
}

// C39_Batch: a subscriber of another kind, whose receives hand the handler any number of messages; the handler, the digester's own or
// the call's, may fail at any of them.
func C39_Batch() {
	s := &batchSub{}
	s.end = someErr("end")
	n := 0
	for k := 0; k < sym.Bound(2, 3); k++ {
		b := sym.Choose("batch", 4)
		s.sizes = append(s.sizes, b)
		n += b
	}
	l := &handlerLog{failAt: -1}
	if sym.Bool("handler-fails") {
		l.err, l.failAt = someErr("handler"), sym.Int("fails-at", 0, 8)
	}
	var iopts, copts []digester.Option
	if sym.Bool("own") {
		iopts = append(iopts, digester.WithHandler(l.handle))
	} else {
		copts = append(copts, digester.WithHandler(l.handle))
	}
	d, err := sdigester.NewDigester(iopts...)
	must(err)
	err = d.Digest(ctx, s, copts...)
	want, handled := s.end, n
	if l.failAt >= 0 && l.failAt < n {
		want, handled = l.err, l.failAt+1
	}
	sym.Assert(err != nil && errors.Is(err, want), "that-error")
	sym.Assert(len(l.got) == handled, "each-handled-once")
	for k, m := range l.got {
		sym.Assert(msgIs(m, "m"+string(rune('0'+k))), "as-received-in-order")
	}
}

// C43_Given: two graphs of either kind, with or without the same UID and a DOT ID given to either, both with any bytes: each has its own.
func C43_Given() {
	u := sym.String("uid", maxStr)
	var g [2]G
	var want [2]string
	for k := range g {
		var opts []graph.Option
		if sym.Bool("given-uid") {
			opts = append(opts, graph.WithUID(uidOf(u)))
		}
		if sym.Bool("given-dotid") {
			want[k] = sym.String("dotid", maxStr)
			opts = append(opts, graph.WithDOTID(want[k]))
		}
		g[k] = newGraphWith(sym.Bool("directed"), opts...)
	}
	for k := range g {
		if want[k] == "" {
			want[k] = g[k].UID().String()
		}
		sym.Assert(g[k].(interface{ DOTID() string }).DOTID() == want[k], "own-dotid")
	}
}
