package props

import (
	"bytes"
	"context"
	"errors"
	"time"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/broker"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
)

// B is the in-memory broker.
type B = *membroker.Memory

// unit is the step of the times harnesses choose.
const unit = 40 * time.Millisecond

// short is the timeout of calls that are expected to time out.
const short = 60 * time.Millisecond

// long is the timeout of calls that something else is expected to end.
const long = 2 * time.Second

func brokerErr(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, broker.ErrNotConnected):
		return "not-connected"
	case errors.Is(err, broker.ErrTimeout):
		return "timeout"
	case errors.Is(err, broker.ErrSubscriptionInactive):
		return "inactive"
	}
	return "error"
}

// newBroker makes a broker with the given capacity and a short publish timeout.
// From here on goroutines run in the order in which they become ready, until the harness says otherwise.
func newBroker(capacity int) B {
	sym.Delay(0)
	b, err := membroker.New(broker.WithCap(capacity), broker.WithPubTimeout(short))
	must(err)
	return b
}

// opened makes an open broker; the function ends the context of the session.
func opened(capacity int) (B, context.CancelFunc) {
	b := newBroker(capacity)
	c, cancel := context.WithCancel(ctx)
	must(b.Open(c))
	return b, cancel
}

func msg(uid string) broker.Message {
	return broker.Message{UID: uid, Type: broker.Object, Data: []byte("data " + uid), Attrs: map[string]string{"uid": uid}}
}

// msgIs reports whether m is the message made by msg(uid).
func msgIs(m broker.Message, uid string) bool {
	return m.UID == uid && m.Type == broker.Object && string(m.Data) == "data "+uid && len(m.Attrs) == 1 && m.Attrs["uid"] == uid
}

// recv receives once; it returns the message given to the handler, how often it was called, and the error.
func recv(s broker.Subscriber, d time.Duration) (broker.Message, int, error) {
	return recvWith(s, broker.WithSubTimeout(d))
}

func recvWith(s broker.Subscriber, opts ...broker.Option) (broker.Message, int, error) {
	var m broker.Message
	n := 0
	err := s.Receive(ctx, func(_ context.Context, x broker.Message) error {
		m = x
		n++
		return nil
	}, opts...)
	return m, n, err
}

func subscribe(b B, topic string) broker.Subscriber {
	s, err := b.Sub(ctx, topic)
	must(err)
	return s
}

// drain receives from a topic until there is nothing left.
func drain(b B, topic string) []broker.Message {
	s := subscribe(b, topic)
	var ms []broker.Message
	for i := 0; i < 8; i++ {
		m, n, err := recv(s, short)
		if err != nil {
			sym.Assert(n == 0, "handler-not-called-with-error")
			break
		}
		sym.Assert(n == 1, "handler-called-once")
		ms = append(ms, m)
	}
	return ms
}

// working asserts that a message can be published and received on every given topic, which must be empty.
func working(b B, id string, topics ...string) {
	for _, t := range topics {
		s, err := b.Sub(ctx, t)
		sym.Assert(err == nil, id+"sub")
		if err != nil {
			return
		}
		var perr error
		var m broker.Message
		var n int
		var rerr error
		sym.Par(func() { perr = b.Pub(ctx, t, msg("probe"), broker.WithPubTimeout(long)) }, func() { m, n, rerr = recv(s, long) })
		sym.Assert(perr == nil, id+"pub")
		sym.Assert(rerr == nil && n == 1, id+"receive")
		sym.Assert(msgIs(m, "probe"), id+"message")
	}
}

// anyMessage is a message of any UID, type and attribute, with no payload, an empty one, or any one or two bytes.
func anyMessage() broker.Message {
	m := broker.Message{UID: sym.String("uid", 1), Type: broker.Type(sym.Int64("type"))}
	switch sym.Choose("data", 4) {
	case 1:
		m.Data = []byte{}
	case 2:
		m.Data = sym.Bytes("bytes", 1)
	case 3:
		m.Data = sym.Bytes("bytes", 2)
	}
	switch sym.Choose("attrs", 3) {
	case 1:
		m.Attrs = map[string]string{}
	case 2:
		m.Attrs = map[string]string{sym.String("key", 1): sym.String("val", 1)}
	}
	return m
}

// sameMessage reports whether x and y have the same fields.
func sameMessage(x, y broker.Message) bool {
	if !sym.And(x.UID == y.UID, x.Type == y.Type) || !bytes.Equal(x.Data, y.Data) || len(x.Attrs) != len(y.Attrs) {
		return false
	}
	for k, v := range x.Attrs {
		if w, ok := y.Attrs[k]; !ok || w != v {
			return false
		}
	}
	return true
}
