package props

import (
	"context"
	"time"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/broker"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
)

const (
	evTimeout = iota
	evCancel
	evClose
	evOpenCtx
	evRoom
	evUnsub
	nEvents
)

// events are the times at which things happen to a blocked call; zero is never.
type events [nEvents]int

// pick lets the solver choose which of the events happen and when, no two at once.
func (e *events) pick(which ...int) {
	for _, k := range which {
		if sym.Bool("happens") {
			e[k] = sym.Int("when", 1, 8)
			for _, o := range which {
				if o != k && e[o] != 0 {
					sym.Assume(e[o] != e[k])
				}
			}
		}
	}
}

func (e *events) at(k int) time.Duration { return time.Duration(e[k]) * unit }

// first is the event that happens first, and the time of the next.
func (e *events) first() (int, time.Duration, time.Duration) {
	f := -1
	for k := range e {
		if e[k] != 0 && (f < 0 || e[k] < e[f]) {
			f = k
		}
	}
	next := time.Hour
	for k := range e {
		if k != f && e[k] != 0 && e.at(k) < next {
			next = e.at(k)
		}
	}
	if f < 0 {
		return f, 0, next
	}
	return f, e.at(f), next
}

// blockedPub publishes on a full topic while any of the events happen at any times, in any order. With none of them the
// publish timeout is that of the broker or the default.
type blockedPub struct {
	events
	b       B
	subs    []broker.Subscriber
	err     error
	elapsed time.Duration
	got     []broker.Message
}

func newBlockedPub(extra ...int) *blockedPub {
	sym.Delay(0)
	p := &blockedPub{}
	p.pick(append([]int{evTimeout}, extra...)...)
	var opts []broker.Option
	call := sym.Choose("timeout-of", 2)
	capacity := sym.Choose("cap", 2)
	opts = append(opts, broker.WithCap(capacity))
	var popts []broker.Option
	if p.events[evTimeout] != 0 {
		if call == 1 {
			// the broker's own timeout is another, and does not count
			popts = append(popts, broker.WithPubTimeout(p.at(evTimeout)))
			opts = append(opts, broker.WithPubTimeout(time.Duration(sym.Int("other", 1, 16))*unit/2))
		} else {
			opts = append(opts, broker.WithPubTimeout(p.at(evTimeout)))
		}
	}
	b, err := membroker.New(opts...)
	must(err)
	p.b = b
	octx, ocancel := context.WithCancel(ctx)
	must(b.Open(octx))
	s := subscribe(b, "x")
	for i := 0; i < capacity; i++ {
		must(b.Pub(ctx, "x", msg("fill")))
	}
	pctx, cancel := context.WithCancel(ctx)
	if p.events[evCancel] != 0 && sym.Bool("deadline") {
		pctx, cancel = context.WithTimeout(ctx, p.at(evCancel))
	}
	defer cancel()
	after := func(k int, f func()) func() {
		return func() {
			if p.events[k] != 0 {
				time.Sleep(p.at(k))
				f()
			}
		}
	}
	sym.Delay(sym.Bound(0, 1))
	start := time.Now()
	sym.Par(
		func() {
			p.err = b.Pub(pctx, "x", msg("m0"), popts...)
			p.elapsed = time.Since(start)
		},
		after(evCancel, func() { cancel() }),
		after(evClose, func() { must(b.Close()) }),
		after(evOpenCtx, func() { ocancel() }),
		after(evRoom, func() {
			m, n, _ := recv(s, unit/2)
			if n > 0 {
				p.got = append(p.got, m)
			}
		}),
	)
	sym.Quiesce()
	return p
}

func (p *blockedPub) closed() bool { return p.events[evClose] != 0 || p.events[evOpenCtx] != 0 }

// C31_First: a publish on a full topic, hand to hand or by queue, ended by whichever comes first of the timeout (the call's,
// the broker's or the default), the end of its context, the end of the session and a receiver. Any subset of them, at any
// distinct times.
func C31_First() {
	p := newBlockedPub(evCancel, []int{evClose, evOpenCtx}[sym.Choose("end", 2)], evRoom)
	f, _, _ := p.first()
	switch f {
	case -1, evTimeout:
		sym.Reach("timeout")
		sym.Assert(brokerErr(p.err) == "timeout", "timeout")
	case evRoom:
		sym.Reach("room")
		sym.Assert(p.err == nil, "accepted")
	default:
		sym.Reach("ended")
		sym.Assert(p.err != nil, "ended-first")
	}
	if p.closed() {
		must(p.b.Open(ctx))
	}
	p.got = append(p.got, drain(p.b, "x")...)
	n := 0
	for _, m := range p.got {
		if m.UID == "m0" {
			n++
		}
	}
	if p.err != nil {
		sym.Assert(n == 0, "failed-not-delivered")
	} else if !p.closed() {
		sym.Assert(n == 1, "accepted-delivered")
	}
	working(p.b, "after-", "x", "y")
}

// C31_Any: publishes on a topic of any small capacity while a receiver comes, the context ends and timers may fire at any
// point: whoever wins, the message is delivered exactly when Pub returned nil.
func C31_Any() {
	b, _ := opened(sym.Int("cap", 0, 1))
	s := subscribe(b, "x")
	pctx, cancel := context.WithCancel(ctx)
	errs := make([]error, 2)
	var got []broker.Message
	stop := sym.Bool("cancels")
	sym.Timers(1)
	sym.Delay(sym.Bound(3, 5))
	sym.Par(
		func() { errs[0] = b.Pub(pctx, "x", msg("m0")) },
		func() { errs[1] = b.Pub(ctx, "x", msg("m1")) },
		func() {
			m, n, _ := recv(s, 2*short)
			if n > 0 {
				got = append(got, m)
			}
		},
		func() {
			if stop {
				cancel()
			}
		},
	)
	sym.Delay(0)
	sym.Timers(0)
	got = append(got, drain(b, "x")...)
	count := map[string]int{}
	for _, m := range got {
		count[m.UID]++
	}
	for i, u := range []string{"m0", "m1"} {
		if errs[i] != nil {
			sym.Assert(count[u] == 0, "failed-not-delivered")
			if i == 1 || !stop {
				sym.Assert(brokerErr(errs[i]) == "timeout", "only-timeout")
			}
		} else {
			sym.Assert(count[u] <= 1, "delivered-once")
		}
	}
	sym.Assert(len(got) == len(count), "no-other")
	working(b, "after-", "x")
	cancel()
}

// C31_Ready: with room on the topic every publish is accepted, whatever the timeouts, and delivered.
func C31_Ready() {
	n := sym.Choose("cap", 3) + 1
	b, err := membroker.New(broker.WithCap(n), broker.WithPubTimeout(time.Duration(sym.Int("broker-timeout", 0, 1000))*unit))
	must(err)
	must(b.Open(ctx))
	sym.Delay(0)
	for i := 0; i < n; i++ {
		var opts []broker.Option
		if sym.Bool("option") {
			opts = append(opts, broker.WithPubTimeout(time.Duration(sym.Int("timeout", 1, 1000))*unit))
		}
		sym.Assert(b.Pub(ctx, "x", msg("m"+string(rune('0'+i))), opts...) == nil, "accepted")
	}
	got := drain(b, "x")
	sym.Assert(len(got) == n, "all-delivered")
	for i := range got {
		sym.Assert(msgIs(got[i], "m"+string(rune('0'+i))), "in-order")
	}
}

// C31_Timeouts: publishes one after another on full topics of one or two brokers, each with a timeout of its own or without: each
// times out after its own, else its broker's, else the default timeout, whatever the earlier ones had.
func C31_Timeouts() {
	sym.Delay(0)
	capacity := sym.Choose("cap", 2)
	n := sym.Choose("brokers", 2) + 1
	bs := make([]B, n)
	own := make([]time.Duration, n)
	for i := range bs {
		opts := []broker.Option{broker.WithCap(capacity)}
		own[i] = membroker.DefaultTimeout
		if sym.Bool("broker-timeout") {
			own[i] = time.Duration(sym.Int("when", 1, 8)) * unit
			opts = append(opts, broker.WithPubTimeout(own[i]))
		}
		b, err := membroker.New(opts...)
		must(err)
		must(b.Open(ctx))
		for k := 0; k < capacity; k++ {
			must(b.Pub(ctx, "x", msg("fill")))
		}
		bs[i] = b
	}
	for k := 0; k < sym.Bound(2, 3); k++ {
		i := sym.Choose("broker", n)
		want := own[i]
		var opts []broker.Option
		if sym.Bool("own-timeout") {
			want = time.Duration(sym.Int("own", 1, 8)) * unit
			opts = append(opts, broker.WithPubTimeout(want))
		}
		start := time.Now()
		err := bs[i].Pub(ctx, "x", msg("late"), opts...)
		took := time.Since(start)
		sym.Assert(brokerErr(err) == "timeout", "timeout")
		sym.Assert(took >= want, "not-before-its-timeout")
		sym.Assert(took < want+unit, "not-long-after-its-timeout")
	}
	for _, b := range bs {
		for _, m := range drain(b, "x") {
			sym.Assert(msgIs(m, "fill"), "timed-out-not-delivered")
		}
	}
}

// C31_Messages: any message whatever, published without an error, is what the next receiver gets, in any session of the broker.
func C31_Messages() {
	b := newBroker(1)
	for k := sym.Choose("sessions", 2); k >= 0; k-- {
		must(b.Open(ctx))
		s := subscribe(b, "x")
		m := anyMessage()
		must(b.Pub(ctx, "x", m))
		got, n, err := recv(s, short)
		sym.Assert(err == nil && n == 1, "delivered")
		if n == 1 {
			sym.Assert(sameMessage(got, m), "unchanged")
		}
		must(b.Close())
	}
}
