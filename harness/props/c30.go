package props

import (
	"bytes"
	"context"
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/broker"
)

// delivered is what one receiver got.
type delivered struct {
	topic string
	msgs  []broker.Message
	errs  int
}

// receiver receives n times and notes what the handler was given.
func (d *delivered) receive(s broker.Subscriber, n int) {
	for i := 0; i < n; i++ {
		err := s.Receive(ctx, func(_ context.Context, m broker.Message) error {
			d.msgs = append(d.msgs, m)
			return nil
		}, broker.WithSubTimeout(short))
		if err != nil {
			d.errs++
		}
	}
}

// C30_Delivery: one goroutine publishes two messages on a topic, another one on the same or another topic, and two receivers
// on the same or different topics receive up to two each; capacity 0 to 2, at most 2 (thorough: 3) delays.
func C30_Delivery() {
	b, _ := opened(sym.Int("cap", 0, 2))
	topics := []string{"x", "y"}
	pt, rt := topics[sym.Choose("pub-topic", 2)], topics[sym.Choose("recv-topic", 2)]
	got := []*delivered{{topic: "x"}, {topic: rt}}
	subs := []broker.Subscriber{subscribe(b, "x"), subscribe(b, rt)}
	errs := make([]error, 3)
	sym.Delay(sym.Bound(3, 4))
	sym.Par(
		func() { errs[0] = b.Pub(ctx, "x", msg("m0")); errs[1] = b.Pub(ctx, "x", msg("m1")) },
		func() { errs[2] = b.Pub(ctx, pt, msg("m2")) },
		func() { got[0].receive(subs[0], 2) },
		func() { got[1].receive(subs[1], sym.Bound(1, 2)) },
	)
	sym.Delay(0)
	settle(b, got, errs, []string{"x", "x", pt})
}

// settle drains both topics and checks that every accepted message was delivered exactly once, unchanged, on its topic and
// in the order of publishing, and no other.
func settle(b B, got []*delivered, errs []error, topic []string) {
	settleIn(b, got, errs, topic, true)
}

// settleIn is the same; the first two messages were published in this order only if ordered.
func settleIn(b B, got []*delivered, errs []error, topic []string, ordered bool) {
	for _, t := range []string{"x", "y"} {
		got = append(got, &delivered{topic: t, msgs: drain(b, t)})
	}
	uid := func(i int) string { return "m" + string(rune('0'+i)) }
	count := map[string]int{}
	for _, d := range got {
		last := -1
		for _, m := range d.msgs {
			count[m.UID]++
			known := false
			for i := range errs {
				if m.UID == uid(i) {
					known = true
					sym.Assert(msgIs(m, uid(i)), "unchanged")
					sym.Assert(d.topic == topic[i], "own-topic")
					if ordered && i < 2 {
						sym.Assert(i > last, "in-order")
						last = i
					}
				}
			}
			sym.Assert(known, "published-message")
		}
	}
	for i, err := range errs {
		if err == nil {
			sym.Reach("accepted")
			sym.Assert(count[uid(i)] == 1, "delivered-once")
		} else {
			sym.Reach("refused")
			sym.Assert(count[uid(i)] == 0, "refused-not-delivered")
		}
	}
}

// C30_Order: four messages on one topic published one after another, received by one receiver meanwhile and afterwards, in
// that order; capacity 0 to 3.
func C30_Order() {
	b, _ := opened(sym.Int("cap", 0, 3))
	s := subscribe(b, "x")
	d := &delivered{topic: "x"}
	errs := make([]error, 4)
	sym.Preempt(sym.Bound(2, 4))
	sym.Par(func() {
		for i := range errs {
			errs[i] = b.Pub(ctx, "x", msg("m"+string(rune('0'+i))))
		}
	}, func() { d.receive(s, 4) })
	sym.Delay(0)
	sym.Assert(len(d.msgs) == 4, "all-delivered")
	for i, err := range errs {
		sym.Assert(err == nil, "accepted")
		if i < len(d.msgs) {
			sym.Assert(msgIs(d.msgs[i], "m"+string(rune('0'+i))), "in-order")
		}
	}
}

// C30_Unchanged: a message with any type, payload (nil, empty or two bytes), UID and attributes, by queue or hand to hand.
func C30_Unchanged() {
	b, _ := opened(sym.Choose("cap", 2))
	s := subscribe(b, "x")
	m := broker.Message{UID: sym.String("uid", maxStr), Type: broker.Type(sym.Int64("type"))}
	switch sym.Choose("data", 3) {
	case 1:
		m.Data = []byte{}
	case 2:
		m.Data = sym.Bytes("bytes", 2)
	}
	k, v := sym.String("key", maxStr), sym.String("val", maxStr)
	if sym.Bool("attrs") {
		m.Attrs = map[string]string{k: v}
	}
	var got broker.Message
	var n int
	var perr, rerr error
	sym.Par(func() { perr = b.Pub(ctx, "x", m) }, func() { got, n, rerr = recv(s, long) })
	sym.Assert(perr == nil && rerr == nil && n == 1, "delivered")
	sym.Assert(sym.And(got.UID == m.UID, got.Type == m.Type), "uid-and-type")
	sym.Assert(bytes.Equal(got.Data, m.Data), "data")
	sym.Assert(len(got.Attrs) == len(m.Attrs), "attrs-count")
	if len(m.Attrs) == 1 {
		sym.Assert(got.Attrs[k] == v, "attrs")
	}
}

// C30_Close: messages published and received while the session closes: each at most once, unchanged, on its topic, in order.
func C30_Close() {
	b, cancel := opened(sym.Int("cap", 0, 1))
	s := subscribe(b, "x")
	d := &delivered{topic: "x"}
	errs := make([]error, 2)
	byCtx := sym.Bool("cancel")
	sym.Preempt(sym.Bound(2, 3))
	sym.Par(func() {
		for i := range errs {
			errs[i] = b.Pub(ctx, "x", msg("m"+string(rune('0'+i))))
		}
	}, func() { d.receive(s, 2) }, func() {
		if byCtx {
			cancel()
		} else {
			must(b.Close())
		}
	})
	sym.Delay(0)
	last := -1
	for _, m := range d.msgs {
		i := 0
		if m.UID == "m1" {
			i = 1
		}
		sym.Assert(msgIs(m, "m"+string(rune('0'+i))), "unchanged")
		sym.Assert(i > last, "in-order-once")
		sym.Assert(errs[i] == nil, "only-accepted")
		last = i
	}
	sym.Assert(len(d.msgs)+d.errs == 2, "every-receive-returned")
}

// C30_History: five (thorough: six) of publishing on either of two topics, subscribing to one, unsubscribing and receiving, in any
// order, in one goroutine; each has the result of a bounded queue per topic, and so has what is left.
func C30_History() {
	n := 1 + sym.Choose("cap", 2)
	b, _ := opened(n)
	topics := []string{"x", "y"}
	queue := make([][]string, 2)
	type member struct {
		s      broker.Subscriber
		topic  int
		active bool
	}
	var subs []*member
	settled := sym.Bool("settled")
	uid := 0
	pub := func(t int) {
		u := "m" + string(rune('0'+uid))
		uid++
		err := b.Pub(ctx, topics[t], msg(u))
		if len(queue[t]) < n {
			sym.Assert(err == nil, "room-accepted")
			queue[t] = append(queue[t], u)
		} else {
			sym.Assert(brokerErr(err) == "timeout", "full-times-out")
		}
	}
	receive := func(s *member) {
		m, k, err := recv(s.s, short)
		switch {
		case !s.active:
			sym.Assert(brokerErr(err) == "inactive" && k == 0, "inactive")
		case len(queue[s.topic]) == 0:
			sym.Assert(brokerErr(err) == "timeout" && k == 0, "empty-times-out")
		default:
			sym.Reach("received")
			sym.Assert(err == nil && k == 1, "delivered")
			sym.Assert(msgIs(m, queue[s.topic][0]), "first-in-first-out")
			queue[s.topic] = queue[s.topic][1:]
		}
	}
	for k := 0; k < sym.Bound(5, 6); k++ {
		switch op := sym.Choose("op", 4); op {
		case 0:
			pub(sym.Choose("topic", 2))
		case 1:
			t := sym.Choose("topic", 2)
			subs = append(subs, &member{subscribe(b, topics[t]), t, true})
		default:
			if len(subs) == 0 {
				sym.Assume(false)
			}
			s := subs[sym.Choose("which", len(subs))]
			if op == 2 {
				sym.Assert(s.s.Unsubscribe(ctx) == nil, "unsubscribe-ok")
				s.active = false
			} else {
				receive(s)
			}
		}
		if settled {
			sym.Quiesce()
		}
	}
	for t := range topics {
		s := &member{subscribe(b, topics[t]), t, true}
		for len(queue[t]) > 0 {
			receive(s)
		}
		receive(s)
	}
}

// C30_Handlers: up to three messages on a topic are received one after another by two subscribers, and then whatever is left;
// a handler may fail, publish another message, or receive the next one itself. Each message is passed to one handler, in order.
func C30_Handlers() {
	b, _ := opened(3)
	subs := []broker.Subscriber{subscribe(b, "x"), subscribe(b, "x")}
	next := 0
	pub := func() {
		must(b.Pub(ctx, "x", msg("m"+string(rune('0'+next)))))
		next++
	}
	for k := sym.Choose("pending", 3); k >= 0; k-- {
		pub()
	}
	handled := 0
	var receive func(s broker.Subscriber, depth int)
	receive = func(s broker.Subscriber, depth int) {
		was, left := handled, next > handled
		var herr error
		err := s.Receive(ctx, func(_ context.Context, m broker.Message) error {
			sym.Assert(handled < next && msgIs(m, "m"+string(rune('0'+handled))), "each-once-in-order")
			handled++
			switch sym.Choose("handler", 4) {
			case 1:
				herr = someErr("handler")
			case 2:
				if depth == 0 {
					pub()
				}
			case 3:
				if depth == 0 {
					receive(subs[sym.Choose("inner", 2)], 1)
				}
			}
			return herr
		}, broker.WithSubTimeout(short))
		if left {
			sym.Reach("handled")
			sym.Assert(handled > was, "delivered")
			sym.Assert((err == nil) == (herr == nil), "handler-result")
		} else {
			sym.Assert(brokerErr(err) == "timeout", "empty-times-out")
		}
	}
	for k := 0; k < sym.Bound(2, 4); k++ {
		receive(subs[sym.Choose("which", 2)], 0)
	}
	for _, m := range drain(b, "x") {
		sym.Assert(handled < next && msgIs(m, "m"+string(rune('0'+handled))), "rest-each-once-in-order")
		handled++
	}
	sym.Assert(handled == next, "none-lost")
}

// C30_Fails: two goroutines receive, up to twice each, and their handlers may fail, while another publishes two messages: each
// is passed to one handler.
func C30_Fails() {
	b, _ := opened(sym.Choose("cap", 3))
	subs := []broker.Subscriber{subscribe(b, "x"), subscribe(b, "x")}
	fails := []bool{sym.Bool("fails"), sym.Bool("fails")}
	count := map[string]int{}
	fs := []func(){func() {
		for i := 0; i < 2; i++ {
			must(b.Pub(ctx, "x", msg("m"+string(rune('0'+i))), broker.WithPubTimeout(long)))
		}
	}}
	var got [2][]string
	for t := range subs {
		t := t
		fs = append(fs, func() {
			for k := 0; k < 2-t; k++ {
				_ = subs[t].Receive(ctx, func(_ context.Context, m broker.Message) error {
					got[t] = append(got[t], m.UID)
					if fails[t] {
						return errors.New("handler")
					}
					return nil
				}, broker.WithSubTimeout(short))
			}
		})
	}
	sym.Delay(sym.Bound(2, 4))
	sym.Par(fs...)
	sym.Delay(0)
	for _, g := range got {
		for _, u := range g {
			count[u]++
		}
	}
	for _, m := range drain(b, "x") {
		count[m.UID]++
	}
	sym.Assert(count["m0"] == 1 && count["m1"] == 1 && len(count) == 2, "each-handled-once")
}

// C30_NewTopic: two goroutines publish a message each, on the same or different topics, that nobody has used before, while another
// may subscribe to the first and receive; at most 2 (thorough: 4) preemptions.
func C30_NewTopic() {
	b, _ := opened(sym.Int("cap", 1, 3))
	topics := []string{"x", "y"}
	pt := topics[sym.Choose("pub-topic", 2)]
	got := []*delivered{{topic: "x"}}
	errs := make([]error, 2)
	fs := []func(){
		func() { errs[0] = b.Pub(ctx, "x", msg("m0")) },
		func() { errs[1] = b.Pub(ctx, pt, msg("m1")) },
	}
	if sym.Bool("receiver") {
		fs = append(fs, func() { got[0].receive(subscribe(b, "x"), 1) })
	}
	sym.Preempt(sym.Bound(2, 4))
	sym.Par(fs...)
	sym.Delay(0)
	settleIn(b, got, errs, []string{"x", pt}, false)
}

// C30_FirstUse: two goroutines make the first use of a topic, by publishing or by subscribing and receiving; then everything
// accepted and not received is there.
func C30_FirstUse() {
	b, _ := opened(2)
	var got []*delivered
	errs := []error{errors.New("none"), errors.New("none"), errors.New("none")}
	topic := []string{"x", "x", "x"}
	var fs []func()
	for i := range errs {
		i := i
		if i == 2 && sym.Bound(0, 1) == 0 {
			break
		}
		if sym.Bool("publish") {
			fs = append(fs, func() { errs[i] = b.Pub(ctx, "x", msg("m"+string(rune('0'+i)))) })
			continue
		}
		d := &delivered{topic: "x"}
		got = append(got, d)
		fs = append(fs, func() { d.receive(subscribe(b, "x"), 1) })
	}
	sym.Preempt(2)
	sym.Par(fs...)
	sym.Delay(0)
	settleIn(b, got, errs, topic, false)
}

// C30_Same: two or three messages in a row on a topic, whatever they have in common: each is delivered, as it is, in order,
// by the queue or, with capacity 0, from hand to hand.
func C30_Same() {
	capacity := 3 * sym.Choose("cap", 2)
	b, _ := opened(capacity)
	s := subscribe(b, "x")
	ms := []broker.Message{anyMessage(), anyMessage()}
	if sym.Bool("third") {
		ms = append(ms, ms[0])
	}
	errs := make([]error, len(ms))
	got := make([]broker.Message, len(ms))
	pub := func() {
		for i, m := range ms {
			errs[i] = b.Pub(ctx, "x", m, broker.WithPubTimeout(long))
		}
	}
	rec := func() {
		for i := range ms {
			var n int
			var err error
			got[i], n, err = recv(s, long)
			sym.Assert(err == nil && n == 1, "delivered")
		}
	}
	if capacity > 0 {
		pub()
		rec()
	} else {
		sym.Par(pub, rec)
	}
	for i, m := range ms {
		sym.Assert(errs[i] == nil, "accepted")
		sym.Assert(sameMessage(got[i], m), "unchanged-in-order")
	}
}
