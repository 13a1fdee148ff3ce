package props

import (
	"context"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/broker"
)

// C34_Fresh: a first session with a subscriber, up to two messages, and perhaps a blocked receiver ends by Close or by its
// context; then a second one. Its topics are empty and work, the old subscriber receives nothing, and ending the context of
// the first session, or its cleanup at any time, does not close it. At most 2 (thorough: 4) preemptions.
func C34_Fresh() {
	b, cancel := opened(2)
	var old broker.Subscriber
	if sym.Bool("old-sub") {
		old = subscribe(b, "x")
	}
	for k := sym.Choose("pending", 3); k > 0; k-- {
		must(b.Pub(ctx, "x", msg("old")))
	}
	if sym.Bool("by-close") {
		sym.Preempt(sym.Bound(2, 4))
		must(b.Close())
	} else {
		cancel()
		sym.Quiesce()
		sym.Preempt(sym.Bound(2, 4))
	}
	c2, cancel2 := context.WithCancel(ctx)
	defer cancel2()
	must(b.Open(c2))
	late := sym.Choose("late", 3)
	if late == 1 {
		cancel()
	}
	s, err := b.Sub(ctx, "x")
	sym.Assert(err == nil && s != nil, "sub")
	if err != nil {
		return
	}
	sym.Assert(b.Pub(ctx, "x", msg("new")) == nil, "pub")
	if late == 2 {
		cancel()
	}
	if old != nil {
		_, n, err := recv(old, short)
		sym.Assert(n == 0 && err != nil, "old-sub-receives-nothing")
		if sym.Bool("unsub-old") {
			sym.Assert(old.Unsubscribe(ctx) == nil, "unsub-old")
		}
	}
	m, n, err := recv(s, short)
	sym.Delay(0)
	sym.Assert(n == 1 && err == nil, "received")
	sym.Assert(msgIs(m, "new"), "only-new")
	_, n, err = recv(s, short)
	sym.Assert(n == 0 && brokerErr(err) == "timeout", "nothing-else")
	sym.Quiesce()
	working(b, "still-open-", "x", "y")
	cancel2()
	sym.Quiesce()
	sym.Assert(brokerErr(b.Pub(ctx, "x", msg("p"))) == "not-connected", "second-ends-by-its-own-context")
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}

// C34_Blocked: a publisher and a receiver blocked in the first session when it closes and a second opens: neither ever sees
// the other session.
func C34_Blocked() {
	b, cancel := opened(0)
	s := subscribe(b, "x")
	pub := sym.Bool("publisher")
	var m broker.Message
	var n int
	var err error
	sym.Preempt(sym.Bound(2, 3))
	sym.Par(func() {
		if pub {
			err = b.Pub(ctx, "y", msg("old"), broker.WithPubTimeout(long))
		} else {
			m, n, err = recv(s, long)
		}
	}, func() {
		if sym.Bool("by-close") {
			must(b.Close())
		} else {
			cancel()
		}
	})
	sym.Quiesce()
	sym.Assert(err != nil && n == 0, "blocked-call-fails")
	must(b.Open(ctx))
	sym.Delay(0)
	if pub {
		got := drain(b, "y")
		sym.Assert(len(got) == 0, "old-message-not-delivered")
	} else {
		_, n, err := recv(s, short)
		sym.Assert(n == 0 && err != nil, "old-subscriber-inactive")
	}
	working(b, "second-", "x", "y")
	_ = m
}

// C34_Sessions: three sessions in a row, each ended by Close or by its context, with leftovers in each, and all contexts of
// earlier sessions ending at some later time.
func C34_Sessions() {
	b := newBroker(1)
	var cancels []context.CancelFunc
	for k := 0; k < 3; k++ {
		c, cancel := context.WithCancel(ctx)
		cancels = append(cancels, cancel)
		must(b.Open(c))
		if k > 0 && sym.Bool("late-cancel") {
			cancels[sym.Choose("which", k)]()
			sym.Quiesce()
		}
		got := drain(b, "x")
		sym.Assert(len(got) == 0, "starts-empty")
		sym.Assert(b.Pub(ctx, "x", msg("left")) == nil, "pub")
		if k < 2 {
			if sym.Bool("by-close") {
				must(b.Close())
			} else {
				cancel()
				sym.Quiesce()
			}
		}
	}
	got := drain(b, "x")
	sym.Assert(len(got) == 1 && msgIs(got[0], "left"), "own-message")
	working(b, "last-", "x", "y")
}
