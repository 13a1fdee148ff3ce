package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	singester "github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
)

type pubCall struct {
	ctx   context.Context
	topic string
	m     broker.Message
}

// recordBroker records what is published; the next publish returns err.
type recordBroker struct {
	calls []pubCall
	err   error
}

func (r *recordBroker) Pub(c context.Context, topic string, m broker.Message, opts ...broker.Option) error {
	r.calls = append(r.calls, pubCall{c, topic, m})
	return r.err
}

func (r *recordBroker) Sub(context.Context, string, ...broker.Option) (broker.Subscriber, error) {
	return nil, errors.New("sub")
}

// tagMarshaler marshals anything to its tag, or fails, and records what it was given.
type tagMarshaler struct {
	tag string
	err error
	got []interface{}
}

func (t *tagMarshaler) Marshal(x interface{}) ([]byte, error) {
	t.got = append(t.got, x)
	if t.err != nil {
		// what a failing marshaler returns besides the error does not count
		return []byte("partial"), t.err
	}
	return []byte(t.tag), nil
}

type ctxKey struct{}

type badMarshal struct{ s string }

func (b badMarshal) MarshalJSON() ([]byte, error) { return nil, errors.New(b.s) }

type goodMarshal struct{ n int }

func (g goodMarshal) MarshalJSON() ([]byte, error) { return []byte(`{"good": [1, 2]}`), nil }

func (g goodMarshal) String() string { return "good" }

type record struct {
	Name string            `json:"name"`
	N    int               `json:"n,omitempty"`
	Tags map[string]string `json:"tags"`
	in   int
}

// jsonData chooses a value and whether encoding/json can marshal it; eq compares a payload with it.
func jsonData() (interface{}, bool) {
	switch sym.Choose("data", 19) {
	case 0:
		return sym.ASCII("string", 0, maxText), true
	case 1:
		return []int{0, -7, 1 << 40}[sym.Choose("int", 3)], true
	case 2:
		return map[string]interface{}{"a": sym.ASCII("value", 0, maxText), "b": []int{sym.Choose("x", 2), 300}}, true
	case 3:
		return record{Name: sym.ASCII("name", 0, maxText), N: sym.Choose("n", 3), Tags: map[string]string{"k": "v"}, in: 3}, true
	case 4:
		return nil, true
	case 5:
		return make(chan int), false
	case 6:
		return map[string]interface{}{"f": func() {}}, false
	case 7:
		// bytes, JSON already or not
		return []byte([]string{"", "null", `{"a":1}`, `"s"`, "{"}[sym.Choose("bytes", 5)]), true
	case 8:
		return json.RawMessage([]string{"{ }", `["x"]`, "17"}[sym.Choose("raw", 3)]), true
	case 9:
		return json.RawMessage("{"), false
	case 10:
		return []string{`{"a":1}`, "null", "<&>"}[sym.Choose("json", 3)], true
	case 11:
		return goodMarshal{3}, true
	case 12:
		return json.Number([]string{"", "17", "1e3"}[sym.Choose("number", 3)]), true
	case 13:
		return json.Number("x"), false
	case 14:
		return someErr("data"), true
	case 15:
		return broker.Message{UID: "u", Type: 1, Data: []byte("d")}, true
	case 16:
		return &record{Name: sym.ASCII("name", 0, maxText)}, true
	case 17:
		return (*record)(nil), true
	}
	return badMarshal{"bad"}, false
}

// C38_Choice: any of marshalers given to the call, the ingester, both or neither, of which any may fail, any topic, type and
// data, and a publish that may fail.
func C38_Choice() {
	var own, call *tagMarshaler
	fail := func(t *tagMarshaler) *tagMarshaler {
		if sym.Bool("fails") {
			t.err = someErr("marshal " + t.tag)
		}
		return t
	}
	var iopts, copts []ingester.Option
	if sym.Bool("own") {
		own = fail(&tagMarshaler{tag: "own"})
		iopts = append(iopts, ingester.WithMarshaler(own))
	}
	if sym.Bool("call") {
		call = fail(&tagMarshaler{tag: "call"})
		copts = append(copts, ingester.WithMarshaler(call))
	}
	in, err := singester.NewIngester(iopts...)
	must(err)
	b := &recordBroker{}
	if sym.Bool("pub-fails") {
		b.err = anyErr("pub")
	}
	topic := sym.ASCII("topic", 0, maxText)
	typ := broker.Type(sym.Int("type", -2, 6))
	data, marshals := jsonData()
	c := context.WithValue(ctx, ctxKey{}, 1)
	err = in.Ingest(c, b, topic, typ, data, copts...)

	var want []byte
	var werr error
	used := call
	if used == nil {
		used = own
	}
	if used != nil {
		want, werr = []byte(used.tag), used.err
		sym.Assert(len(used.got) == 1, "marshalled-once")
	} else if marshals {
		want, werr = json.Marshal(data)
		sym.Assert(werr == nil, "json-can")
	} else {
		sym.Assert(err != nil, "json-error-returned")
		sym.Assert(len(b.calls) == 0, "nothing-published-unmarshalled")
		return
	}
	if call != nil && own != nil {
		sym.Assert(len(own.got) == 0, "only-the-call's-marshaler")
	}
	if werr != nil {
		sym.Assert(errors.Is(err, werr), "marshal-error-returned")
		sym.Assert(len(b.calls) == 0, "nothing-published-on-error")
		return
	}
	sym.Assert(len(b.calls) == 1, "published-exactly-once")
	if len(b.calls) == 1 {
		p := b.calls[0]
		sym.Assert(p.topic == topic, "on-the-topic")
		sym.Assert(p.m.Type == typ, "of-the-type")
		sym.Assert(bytes.Equal(p.m.Data, want), "payload")
		sym.Assert(p.ctx.Value(ctxKey{}) == 1, "with-the-context")
	}
	if b.err != nil {
		sym.Assert(errors.Is(err, b.err), "publish-error-returned")
	} else {
		sym.Assert(err == nil, "ok")
	}
}

// C38_History: a sequence of ingests by one ingester, each with or without a marshaler of its own, to either of two brokers
// and topics: no call affects another.
func C38_History() {
	own := &tagMarshaler{tag: "own"}
	var iopts []ingester.Option
	has := sym.Bool("own")
	if has {
		iopts = append(iopts, ingester.WithMarshaler(own))
	}
	in, err := singester.NewIngester(iopts...)
	must(err)
	other, err := singester.NewIngester()
	must(err)
	bs := []*recordBroker{{}, {}}
	var want [2][]string
	topics := []string{"x", "y"}
	for k := 0; k < sym.Bound(3, 5); k++ {
		i, t := sym.Choose("broker", 2), sym.Choose("topic", 2)
		exp := ""
		switch sym.Choose("how", 3) {
		case 0:
			exp = "own"
			if !has {
				exp = `"d"`
			}
			must(in.Ingest(ctx, bs[i], topics[t], broker.Object, "d"))
		case 1:
			exp = "call"
			must(in.Ingest(ctx, bs[i], topics[t], broker.Object, "d", ingester.WithMarshaler(&tagMarshaler{tag: "call"})))
		case 2:
			exp = `"d"`
			must(other.Ingest(ctx, bs[i], topics[t], broker.Object, "d"))
		}
		want[i] = append(want[i], topics[t]+exp)
	}
	for i, b := range bs {
		sym.Assert(len(b.calls) == len(want[i]), "one-message-per-ingest")
		for j, c := range b.calls {
			sym.Assert(c.topic+string(c.m.Data) == want[i][j], "independent")
		}
	}
}

// C38_Broker: through the in-memory broker: what is received is what was ingested, in order, and an ingest that fails because
// the broker is closed or full returns that error and delivers nothing.
func C38_Broker() {
	b, cancel := opened(2)
	s := subscribe(b, "x")
	in, err := singester.NewIngester()
	must(err)
	n := sym.Choose("n", 4)
	a := sym.ASCII("a", 0, maxText)
	for k := 0; k < n; k++ {
		err := in.Ingest(ctx, b, "x", broker.Type(k), []string{a, "m"}[k%2])
		if k < 2 {
			sym.Assert(err == nil, "accepted")
		} else {
			sym.Assert(brokerErr(err) == "timeout", "full")
		}
	}
	for k := 0; k < n && k < 2; k++ {
		m, c, err := recv(s, short)
		sym.Assert(c == 1 && err == nil, "received")
		want, err := json.Marshal([]string{a, "m"}[k%2])
		must(err)
		sym.Assert(bytes.Equal(m.Data, want) && m.Type == broker.Type(k), "as-ingested")
	}
	_, c, _ := recv(s, short)
	sym.Assert(c == 0, "nothing-else")
	if sym.Bool("close") {
		must(b.Close())
	} else {
		cancel()
		sym.Quiesce()
	}
	sym.Assert(brokerErr(in.Ingest(ctx, b, "x", broker.Link, "z")) == "not-connected", "closed")
	cancel()
}

// C38_Concurrent: one ingester used by three goroutines, each with its own marshaler or none.
func C38_Concurrent() {
	in, err := singester.NewIngester(ingester.WithMarshaler(&quietMarshaler{"own"}))
	must(err)
	bs := []*recordBroker{{}, {}, {}}
	how := []bool{sym.Bool("how"), sym.Bool("how"), sym.Bool("how")}
	var errs [3]error
	do := func(i int) func() {
		return func() {
			if how[i] {
				errs[i] = in.Ingest(ctx, bs[i], "x", broker.Object, i, ingester.WithMarshaler(&quietMarshaler{"call" + string(rune('0'+i))}))
			} else {
				errs[i] = in.Ingest(ctx, bs[i], "x", broker.Object, i)
			}
		}
	}
	sym.Preempt(sym.Bound(2, 4))
	sym.Par(do(0), do(1), do(2))
	for i, b := range bs {
		want := "own"
		if how[i] {
			want = "call" + string(rune('0'+i))
		}
		sym.Assert(errs[i] == nil && len(b.calls) == 1 && string(b.calls[0].m.Data) == want, "own-payload")
	}
}

type quietMarshaler struct{ tag string }

func (q *quietMarshaler) Marshal(interface{}) ([]byte, error) { return []byte(q.tag), nil }
