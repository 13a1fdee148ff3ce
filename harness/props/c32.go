package props

import (
	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/broker"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
)

// fillUp publishes until a publish is refused; it returns how many were accepted and the error of the one that was not.
func fillUp(b B, topic string, most int) (int, error) {
	for i := 0; i <= most; i++ {
		if err := b.Pub(ctx, topic, msg("fill"), broker.WithPubTimeout(short)); err != nil {
			return i, err
		}
	}
	return most + 1, nil
}

// C32_Capacity: any capacity from 0 to 8 (thorough: 24), two topics filled in turn, receives making room for one each.
func C32_Capacity() {
	most := sym.Bound(8, 24)
	n := sym.Int("cap", 0, most)
	b, err := membroker.New(broker.WithCap(n))
	must(err)
	sym.Delay(0)
	must(b.Open(ctx))
	subs := map[string]broker.Subscriber{}
	if sym.Bool("sub-first") {
		for _, t := range []string{"x", "y"} {
			subs[t] = subscribe(b, t)
		}
	}
	for _, t := range []string{"x", "y"} {
		k, err := fillUp(b, t, most+1)
		sym.Assert(k == n, "exactly-capacity")
		sym.Assert(brokerErr(err) == "timeout", "then-timeout")
	}
	if subs["x"] == nil {
		for _, t := range []string{"x", "y"} {
			subs[t] = subscribe(b, t)
		}
	}
	for i := 0; i < sym.Int("receives", 0, 2); i++ {
		if i >= n {
			break
		}
		_, c, err := recv(subs["x"], short)
		sym.Assert(err == nil && c == 1, "received")
		if err != nil {
			return
		}
		k, err := fillUp(b, "x", 2)
		sym.Assert(k == 1, "room-for-one")
		sym.Assert(brokerErr(err) == "timeout", "then-timeout-again")
	}
	k, err := fillUp(b, "y", 2)
	sym.Assert(k == 0 && brokerErr(err) == "timeout", "other-topic-still-full")
}

// C32_Negative: any negative capacity means 100.
func C32_Negative() {
	n := sym.Int("cap", -1<<40, -1)
	b, err := membroker.New(broker.WithCap(n))
	must(err)
	sym.Delay(0)
	must(b.Open(ctx))
	k, err := fillUp(b, "x", 110)
	sym.Assert(k == 100, "default-capacity")
	sym.Assert(membroker.DefaultSize == 100, "documented-default")
	sym.Assert(brokerErr(err) == "timeout", "then-timeout")
}

// C32_Sessions: the capacity is the same in a second session and after everything was received.
func C32_Sessions() {
	n := sym.Int("cap", 0, 2)
	b, err := membroker.New(broker.WithCap(n))
	must(err)
	sym.Delay(0)
	must(b.Open(ctx))
	first, _ := fillUp(b, "x", 4)
	if sym.Bool("reopen") {
		must(b.Close())
		must(b.Open(ctx))
	} else {
		got := drain(b, "x")
		sym.Assert(len(got) == n, "all-received")
	}
	second, err := fillUp(b, "x", 4)
	sym.Assert(first == n && second == n, "same-capacity")
	sym.Assert(brokerErr(err) == "timeout", "then-timeout")
}

// C32_Waiting: with capacity n and a receiver waiting, one more message is taken.
func C32_Waiting() {
	n := sym.Int("cap", 0, 2)
	b, err := membroker.New(broker.WithCap(n))
	must(err)
	sym.Delay(0)
	must(b.Open(ctx))
	s := subscribe(b, "x")
	k, c := 0, 0
	sym.Delay(sym.Bound(1, 2))
	var rerr error
	sym.Par(func() { _, c, rerr = recv(s, long) }, func() { k, _ = fillUp(b, "x", 4) })
	sym.Delay(0)
	sym.Assert(rerr == nil && c == 1, "received")
	sym.Assert(k == n+1, "one-more")
}

// C32_Any: any capacity from 130 to 2^20: 130 messages are accepted, on each of two topics.
func C32_Any() {
	n := sym.Int("cap", 130, 1<<20)
	b, err := membroker.New(broker.WithCap(n))
	must(err)
	sym.Delay(0)
	must(b.Open(ctx))
	for _, t := range []string{"x", "y"} {
		for i := 0; i < 130; i++ {
			sym.Assert(b.Pub(ctx, t, msg("fill"), broker.WithPubTimeout(short)) == nil, "room-accepted")
		}
	}
}
