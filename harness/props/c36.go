package props

import (
	"context"
	"errors"
	"time"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/broker"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
)

// C36_Pub: a blocked publish returns at the first of its timeout (the call's, the broker's or the default), the end of its
// context, the end of the session and a receiver; any subset of them at any distinct times.
func C36_Pub() {
	p := newBlockedPub(evCancel, []int{evClose, evOpenCtx}[sym.Choose("end", 2)], evRoom)
	f, at, next := p.first()
	if f < 0 {
		sym.Reach("default")
		sym.Assert(membroker.DefaultTimeout == 5*time.Second, "documented-default")
		at, next = membroker.DefaultTimeout, time.Hour
	}
	sym.Assert(p.elapsed >= at, "blocks-until-the-first-event")
	sym.Assert(p.elapsed < next, "returns-at-the-first-event")
}

// C36_Receive: the same for a blocked Receive, which may also be ended by Unsubscribe or a message, whose handler may fail.
func C36_Receive() {
	sym.Delay(0)
	var e events
	// at most one way of each pair, to keep the number of orders down
	e.pick(evTimeout, evCancel, []int{evClose, evOpenCtx}[sym.Choose("end", 2)], []int{evRoom, evUnsub}[sym.Choose("other", 2)])
	b, err := membroker.New(broker.WithCap(sym.Choose("cap", 2)), broker.WithSubTimeout(unit/2))
	must(err)
	octx, ocancel := context.WithCancel(ctx)
	must(b.Open(octx))
	s := subscribe(b, "x")
	rctx, cancel := context.WithCancel(ctx)
	if e[evCancel] != 0 && sym.Bool("deadline") {
		rctx, cancel = context.WithTimeout(ctx, e.at(evCancel))
	}
	defer cancel()
	var opts []broker.Option
	if e[evTimeout] != 0 {
		opts = append(opts, broker.WithSubTimeout(e.at(evTimeout)))
	}
	var herr error
	if sym.Bool("handler-fails") {
		herr = someErr("handler")
	}
	calls := 0
	var elapsed time.Duration
	var perr error
	after := func(k int, f func()) func() {
		return func() {
			if e[k] != 0 {
				time.Sleep(e.at(k))
				f()
			}
		}
	}
	sym.Delay(sym.Bound(0, 1))
	start := time.Now()
	sym.Par(
		func() {
			err = s.Receive(rctx, func(_ context.Context, m broker.Message) error {
				calls++
				sym.Assert(msgIs(m, "m0"), "the-message")
				return herr
			}, opts...)
			elapsed = time.Since(start)
		},
		after(evCancel, func() { cancel() }),
		after(evClose, func() { must(b.Close()) }),
		after(evOpenCtx, func() { ocancel() }),
		after(evUnsub, func() { must(s.Unsubscribe(ctx)) }),
		after(evRoom, func() {
			perr = b.Pub(ctx, "x", msg("m0"), broker.WithPubTimeout(unit/2))
		}),
	)
	f, at, next := e.first()
	if f < 0 {
		sym.Reach("default")
		at, next = membroker.DefaultTimeout, time.Hour
	}
	sym.Assert(elapsed >= at, "blocks-until-the-first-event")
	sym.Assert(elapsed < next, "returns-at-the-first-event")
	switch f {
	case -1, evTimeout:
		sym.Assert(brokerErr(err) == "timeout", "timeout")
		sym.Assert(calls == 0, "handler-not-called")
	case evRoom:
		sym.Assert(calls == 1, "handler-called-once")
		sym.Assert(perr == nil, "published")
		if herr != nil {
			sym.Assert(errors.Is(err, herr), "handler-error-returned")
		} else {
			sym.Assert(err == nil, "accepted")
		}
	case evUnsub:
		sym.Assert(brokerErr(err) == "inactive", "inactive")
		sym.Assert(calls == 0, "handler-not-called")
	default:
		sym.Assert(err != nil, "ended-first")
		sym.Assert(calls == 0, "handler-not-called")
	}
	must(b.Close())
	ocancel()
	cancel()
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}

// C36_Already: calls that would block, made when their context has ended, the session has closed or the subscription is
// inactive, return at once.
func C36_Already() {
	sym.Delay(0)
	b, ocancel := opened(0)
	s := subscribe(b, "x")
	c, cancel := context.WithCancel(ctx)
	defer cancel()
	what := sym.Choose("what", 4)
	switch what {
	case 0:
		cancel()
	case 1:
		must(b.Close())
	case 2:
		ocancel()
		sym.Quiesce()
	case 3:
		must(s.Unsubscribe(ctx))
	}
	start := time.Now()
	n := 0
	err := s.Receive(c, func(context.Context, broker.Message) error { n++; return nil }, broker.WithSubTimeout(long))
	sym.Assert(err != nil && n == 0, "receive-fails")
	sym.Assert(time.Since(start) < long, "receive-returns-at-once")
	if what != 3 {
		start = time.Now()
		sym.Assert(b.Pub(c, "x", msg("m"), broker.WithPubTimeout(long)) != nil, "pub-fails")
		sym.Assert(time.Since(start) < long, "pub-returns-at-once")
	}
	ocancel()
}

// C36_Any: publishers and receivers that share a topic of any small capacity, while a context ends, the session closes and
// timers fire at any point: every call returns, and Receive returns nil only if its handler accepted a message.
func C36_Any() {
	b, ocancel := opened(sym.Choose("cap", 2))
	s := subscribe(b, "x")
	c, cancel := context.WithCancel(ctx)
	var herr error
	if sym.Bool("handler-fails") {
		herr = someErr("handler")
	}
	calls := 0
	var perr, rerr error
	end := sym.Choose("end", 4)
	sym.Timers(sym.Bound(1, 2))
	sym.Delay(sym.Bound(3, 4))
	sym.Par(
		func() { perr = b.Pub(c, "x", msg("m0"), broker.WithPubTimeout(short)) },
		func() {
			rerr = s.Receive(c, func(context.Context, broker.Message) error { calls++; return herr }, broker.WithSubTimeout(short))
		},
		func() {
			switch end {
			case 0:
				cancel()
			case 1:
				must(b.Close())
			case 2:
				ocancel()
			case 3:
				must(s.Unsubscribe(ctx))
			}
		},
	)
	sym.Delay(0)
	sym.Timers(0)
	sym.Assert(calls <= 1, "handler-called-at-most-once")
	if calls == 1 {
		sym.Assert(perr == nil, "handled-was-published")
		sym.Assert((rerr == nil) == (herr == nil), "handler-result-returned")
		if herr != nil {
			sym.Assert(errors.Is(rerr, herr), "handler-error-returned")
		}
	} else {
		sym.Assert(rerr != nil, "nil-only-after-the-handler")
	}
	must(b.Close())
	ocancel()
	cancel()
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}

// C36_Timeouts: Receives one after another on an empty topic by one or two subscribers, each with a timeout of its own or without:
// each times out after its own or the default timeout, whatever the earlier ones had.
func C36_Timeouts() {
	sym.Delay(0)
	b, err := membroker.New(broker.WithSubTimeout(unit), broker.WithPubTimeout(unit))
	must(err)
	must(b.Open(ctx))
	n := sym.Choose("subs", 2) + 1
	var subs []broker.Subscriber
	for i := 0; i < n; i++ {
		s, err := b.Sub(ctx, "x")
		must(err)
		subs = append(subs, s)
	}
	for k := 0; k < sym.Bound(2, 3); k++ {
		want := membroker.DefaultTimeout
		var opts []broker.Option
		if sym.Bool("own-timeout") {
			want = time.Duration(sym.Int("own", 1, 8)) * unit
			opts = append(opts, broker.WithSubTimeout(want))
		}
		start := time.Now()
		_, calls, err := recvWith(subs[sym.Choose("which", n)], opts...)
		took := time.Since(start)
		sym.Assert(brokerErr(err) == "timeout" && calls == 0, "timeout")
		sym.Assert(took >= want, "not-before-its-timeout")
		sym.Assert(took < want+unit, "not-long-after-its-timeout")
	}
}
