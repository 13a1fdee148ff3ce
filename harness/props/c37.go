package props

import (
	"context"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/broker"
)

// user calls one broker operation, or two; the results do not matter.
func brokerUser(b B, s broker.Subscriber, octx context.Context, cancels []context.CancelFunc, op int) {
	switch op {
	case 0:
		_ = b.Open(octx)
	case 1:
		_ = b.Close()
	case 2:
		_ = b.Pub(ctx, "x", msg("m"))
	case 3:
		_, _ = b.Sub(ctx, "x")
	case 4:
		_, _, _ = recv(s, short)
	case 5:
		_ = s.Unsubscribe(ctx)
	case 6:
		for _, c := range cancels {
			c()
		}
	case 7:
		// a new topic
		_ = b.Pub(ctx, "y", msg("m"))
	case 8:
		if n, err := b.Sub(ctx, "y"); err == nil {
			_ = n.Unsubscribe(ctx)
		}
	case 9:
		_ = b.Open(octx)
		_ = b.Close()
	case 10:
		_, err := s.ID(ctx)
		must(err)
		_, err = s.Topic(ctx)
		must(err)
	}
}

func brokerUsers(n, ops int) {
	b := newBroker(sym.Choose("cap", 2))
	octx, cancel := context.WithCancel(ctx)
	cancels := []context.CancelFunc{cancel}
	must(b.Open(octx))
	s := subscribe(b, "x")
	if sym.Bool("closed") {
		must(b.Close())
	}
	todo := make([]int, n)
	fs := make([]func(), n)
	for i := range todo {
		todo[i] = sym.Choose("op", ops)
		// the goroutines are alike: the order of the operations does not matter
		sym.Assume(i == 0 || todo[i-1] <= todo[i])
		fs[i] = func() { brokerUser(b, s, octx, cancels, todo[i]) }
	}
	if n == 2 {
		sym.Timers(sym.Bound(0, 1))
		sym.Delay(sym.Bound(3, 5))
	} else {
		sym.Delay(sym.Bound(2, 4))
	}
	sym.Par(fs...)
	sym.Delay(0)
	sym.Timers(0)
	must(b.Close())
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
	cancel()
	sym.Quiesce()
	must(b.Open(ctx))
	working(b, "after-", "x", "y")
	must(b.Close())
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left-later")
}

// C37_Pairs: every pair of broker operations on two goroutines, on an open or closed broker, with at most 3 (thorough: 5)
// delays: no panic, deadlock or race, nothing is left running after Close, and the broker works afterwards.
func C37_Pairs() { brokerUsers(2, 11) }

// C37_Triples: every three of the single operations, with at most 2 (thorough: 4) delays.
func C37_Triples() { brokerUsers(3, 8) }

// C37_Shutdown: receivers and publishers blocked on several topics all return and stop when the session closes.
func C37_Shutdown() {
	b, cancel := opened(0)
	x, y := subscribe(b, "x"), subscribe(b, "y")
	var errs [3]error
	by := sym.Choose("by", 2)
	sym.Delay(sym.Bound(3, 5))
	sym.Par(
		func() { _, _, errs[0] = recv(x, long) },
		func() { _, _, errs[1] = recv(y, long) },
		func() { errs[2] = b.Pub(ctx, "z", msg("m"), broker.WithPubTimeout(long)) },
		func() {
			if by == 0 {
				must(b.Close())
			} else {
				cancel()
			}
		},
	)
	sym.Delay(0)
	for _, err := range errs {
		sym.Assert(err != nil && brokerErr(err) != "timeout", "all-return-at-close")
	}
	cancel()
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}

// C37_Unopened: a broker that was never opened, or opened with a context that has ended, can be used and closed.
func C37_Unopened() {
	b := newBroker(1)
	n := sym.Choose("n", 3)
	c, cancel := context.WithCancel(ctx)
	if n == 1 {
		cancel()
		must(b.Open(c))
	}
	if n == 2 {
		must(b.Close())
	}
	sym.Preempt(sym.Bound(2, 4))
	sym.Par(func() { _ = b.Pub(ctx, "x", msg("m")) }, func() {
		if s, err := b.Sub(ctx, "x"); err == nil {
			_, _, _ = recv(s, short)
			_ = s.Unsubscribe(ctx)
		}
	}, func() { must(b.Close()) })
	sym.Delay(0)
	cancel()
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}

// C37_Many: many subscribers (up to 257; thorough: 1025) that unsubscribe, some or all of them after the session has ended,
// by Close or with its context, and perhaps while a new one is open: nothing is left running in the end.
func C37_Many() {
	sym.Selects(0)
	n := size(257, 1025)
	b, cancel := opened(1)
	var ss []broker.Subscriber
	for i := 0; i < n; i++ {
		ss = append(ss, subscribe(b, "x"))
	}
	first := 0
	if sym.Bool("some-before") {
		first = n / 2
	}
	for _, s := range ss[:first] {
		sym.Assert(s.Unsubscribe(ctx) == nil, "unsubscribe-ok")
	}
	if sym.Bool("by-context") {
		cancel()
		sym.Quiesce()
	} else {
		must(b.Close())
	}
	again := sym.Bool("reopened")
	if again {
		must(b.Open(ctx))
	}
	for _, s := range ss[first:] {
		sym.Assert(s.Unsubscribe(ctx) == nil, "unsubscribe-ok")
	}
	if again {
		working(b, "after-", "x", "y")
		must(b.Close())
	}
	cancel()
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}

// C37_Handover: two sessions one after the other, each with a subscription that is unsubscribed, the first before or after its
// session ends, while what
// the earlier sessions started may run as late as it likes (at most 3, thorough 5, delays): the sessions' goroutines do not
// race with each other, and end.
func C37_Handover() {
	b := newBroker(1)
	sym.Delay(sym.Bound(3, 5))
	for k := 0; k < 2; k++ {
		must(b.Open(ctx))
		s := subscribe(b, "x")
		before := k == 1 || sym.Bool("unsubscribed-before")
		if before {
			must(s.Unsubscribe(ctx))
		}
		if k == 0 {
			must(b.Close())
		}
		if !before {
			must(s.Unsubscribe(ctx))
		}
	}
	sym.Quiesce()
	sym.Delay(0)
	working(b, "", "x", "y")
	must(b.Close())
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}
