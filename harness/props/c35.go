package props

import (
	"context"
	"time"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/broker"
)

func idOf(s broker.Subscriber) string {
	id, err := s.ID(ctx)
	sym.Assert(err == nil, "id-ok")
	return id
}

func topicOf(s broker.Subscriber) string {
	t, err := s.Topic(ctx)
	sym.Assert(err == nil, "topic-ok")
	return t
}

// C35_Unsubscribe: two subscribers of a topic and one of another, up to two pending messages; the first is unsubscribed one to
// three times, before or after the session ends or a new one opens. It receives nothing, the others everything.
func C35_Unsubscribe() {
	b, cancel := opened(2)
	subs := []broker.Subscriber{subscribe(b, "x"), subscribe(b, "x"), subscribe(b, "y")}
	ids := []string{idOf(subs[0]), idOf(subs[1]), idOf(subs[2])}
	sym.Assert(ids[0] != ids[1] && ids[0] != ids[2] && ids[1] != ids[2], "ids-unique")
	pending := sym.Choose("pending", 3)
	for k := 0; k < pending; k++ {
		must(b.Pub(ctx, "x", msg("m"+string(rune('0'+k)))))
	}
	ended := sym.Choose("ended", 4)
	switch ended {
	case 1:
		must(b.Close())
	case 2:
		cancel()
		sym.Quiesce()
	case 3:
		must(b.Close())
		must(b.Open(ctx))
	}
	sym.Preempt(sym.Bound(1, 2))
	for k := sym.Choose("times", 3); k >= 0; k-- {
		sym.Assert(subs[0].Unsubscribe(ctx) == nil, "unsubscribe-ok")
		if sym.Bool("settle") {
			sym.Quiesce()
		}
	}
	for k := 0; k < 2; k++ {
		_, n, err := recv(subs[0], short)
		sym.Assert(n == 0, "handler-not-called")
		sym.Assert(brokerErr(err) == "inactive", "inactive")
	}
	sym.Delay(0)
	if ended == 0 {
		for k := 0; k < pending; k++ {
			m, n, err := recv(subs[1], short)
			sym.Assert(n == 1 && err == nil, "others-receive")
			sym.Assert(msgIs(m, "m"+string(rune('0'+k))), "nothing-consumed")
		}
		must(b.Pub(ctx, "y", msg("other")))
		m, n, err := recv(subs[2], short)
		sym.Assert(n == 1 && err == nil && msgIs(m, "other"), "other-topic-receives")
		working(b, "after-", "x", "y")
	}
	for i, s := range subs {
		sym.Assert(idOf(s) == ids[i], "id-kept")
		sym.Assert(topicOf(s) == []string{"x", "x", "y"}[i], "topic-kept")
	}
	must(b.Close())
	cancel()
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}

// C35_Concurrent: the same subscriber is unsubscribed by two goroutines while another receives on it, another subscriber
// receives, and perhaps the session closes.
func C35_Concurrent() {
	b, cancel := opened(1)
	x, y := subscribe(b, "x"), subscribe(b, "x")
	must(b.Pub(ctx, "x", msg("m0")))
	third := sym.Choose("third", 4)
	var errs [2]error
	var n int
	var m broker.Message
	var rerr error
	sym.Preempt(sym.Bound(2, 3))
	sym.Par(func() { errs[0] = x.Unsubscribe(ctx) }, func() { errs[1] = x.Unsubscribe(ctx) }, func() {
		switch third {
		case 0:
			m, n, rerr = recv(x, short)
		case 1:
			m, n, rerr = recv(y, short)
		case 2:
			must(b.Close())
		case 3:
			cancel()
		}
	})
	sym.Delay(0)
	sym.Assert(errs[0] == nil && errs[1] == nil, "unsubscribe-ok")
	_, k, err := recv(x, short)
	sym.Assert(k == 0 && brokerErr(err) == "inactive", "inactive")
	switch third {
	case 0:
		sym.Assert(rerr == nil && n == 1 || brokerErr(rerr) == "inactive" && n == 0, "receive-or-inactive")
		if n == 0 {
			m, n, rerr = recv(y, short)
			sym.Assert(rerr == nil && n == 1 && msgIs(m, "m0"), "not-consumed")
		}
		working(b, "after-", "x")
	case 1:
		sym.Assert(rerr == nil && n == 1 && msgIs(m, "m0"), "other-receives")
		working(b, "after-", "x")
	}
	must(b.Close())
	cancel()
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}

// C35_Alive: subscriptions that were not unsubscribed keep receiving when others come and go in any order.
func C35_Alive() {
	b, cancel := opened(1)
	keep := subscribe(b, "x")
	var others []broker.Subscriber
	for k := 0; k < sym.Bound(3, 4); k++ {
		switch sym.Choose("op", 3) {
		case 0:
			others = append(others, subscribe(b, []string{"x", "y"}[sym.Choose("topic", 2)]))
		case 1:
			if len(others) > 0 {
				must(others[sym.Choose("which", len(others))].Unsubscribe(ctx))
				sym.Quiesce()
			}
		case 2:
			must(b.Pub(ctx, "x", msg("m")))
			m, n, err := recv(keep, short)
			sym.Assert(err == nil && n == 1 && msgIs(m, "m"), "keeps-receiving")
		}
	}
	must(b.Pub(ctx, "x", msg("last")))
	m, n, err := recv(keep, short)
	sym.Assert(err == nil && n == 1 && msgIs(m, "last"), "receives-last")
	must(b.Close())
	cancel()
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}

// C35_InHandler: a handler that unsubscribes its own subscriber or another one, once or twice, before it fails or not: the
// message counts as received, and Receive returns the handler's result.
func C35_InHandler() {
	b, cancel := opened(2)
	x, y := subscribe(b, "x"), subscribe(b, "x")
	must(b.Pub(ctx, "x", msg("m0")))
	must(b.Pub(ctx, "x", msg("m1")))
	own := sym.Bool("own")
	gone, left := x, y
	if !own {
		gone, left = y, x
	}
	var herr error
	if sym.Bool("handler-fails") {
		herr = someErr("handler")
	}
	times := sym.Choose("times", 2) + 1
	n := 0
	sym.Preempt(sym.Bound(1, 2))
	err := x.Receive(ctx, func(_ context.Context, m broker.Message) error {
		n++
		sym.Assert(msgIs(m, "m0"), "first")
		for k := 0; k < times; k++ {
			sym.Assert(gone.Unsubscribe(ctx) == nil, "unsubscribe-ok")
		}
		_, k, err := recv(gone, short)
		sym.Assert(k == 0 && brokerErr(err) == "inactive", "inactive-at-once")
		return herr
	}, broker.WithSubTimeout(long))
	sym.Assert(n == 1, "handled-once")
	sym.Assert((err == nil) == (herr == nil), "handler-result")
	m, k, err := recv(left, short)
	sym.Assert(err == nil && k == 1 && msgIs(m, "m1"), "other-receives")
	must(b.Close())
	cancel()
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}

// C35_Waiting: up to two Receives wait on a subscriber and one on another when the first is unsubscribed, by one or two
// goroutines: Unsubscribe does not wait for them, they are all inactive, and the other receives what comes.
func C35_Waiting() {
	b, cancel := opened(sym.Choose("cap", 2))
	x, y := subscribe(b, "x"), subscribe(b, "x")
	waiting := sym.Choose("waiting", 2) + 1
	errs := make([]error, waiting)
	calls := make([]int, waiting)
	waited := make([]time.Duration, waiting)
	var m broker.Message
	n := 0
	var yerr, perr error
	var took time.Duration
	fs := []func(){
		func() {
			time.Sleep(unit)
			start := time.Now()
			sym.Assert(x.Unsubscribe(ctx) == nil, "unsubscribe-ok")
			took = time.Since(start)
			perr = b.Pub(ctx, "x", msg("m0"), broker.WithPubTimeout(long))
		},
		func() { m, n, yerr = recv(y, 2*long) },
	}
	for i := range errs {
		i := i
		fs = append(fs, func() {
			start := time.Now()
			_, calls[i], errs[i] = recv(x, long)
			waited[i] = time.Since(start)
		})
	}
	sym.Delay(sym.Bound(1, 3))
	sym.Par(fs...)
	sym.Delay(0)
	sym.Assert(took < long, "unsubscribe-does-not-wait")
	for i, err := range errs {
		sym.Assert(calls[i] == 0, "handler-not-called")
		sym.Assert(brokerErr(err) == "inactive", "waiting-inactive")
		sym.Assert(waited[i] < long, "receive-returns-when-unsubscribed")
	}
	sym.Assert(perr == nil && yerr == nil && n == 1 && msgIs(m, "m0"), "other-receives")
	working(b, "after-", "x")
	must(b.Close())
	cancel()
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}

// C35_IDs: subscribers (up to 24; thorough: 120) of each of several topics that are easily confused once numbers are joined to
// them, in the same session or in two: no two of them have the same ID, and each keeps its ID and topic.
func C35_IDs() {
	sym.Delay(0)
	n := size(24, 120)
	topics := []string{"x", "x1", "1", "x-1", "x:1", "x/1", ""}
	b, _ := opened(1)
	again := sym.Bool("second-session")
	turns := sym.Bool("in-turns")
	ids := map[string]bool{}
	var ss []broker.Subscriber
	sub := func(t string) {
		s := subscribe(b, t)
		id := idOf(s)
		sym.Assert(!ids[id], "ids-unique")
		ids[id] = true
		ss = append(ss, s)
	}
	if turns {
		for i := 0; i < n; i++ {
			for _, t := range topics {
				sub(t)
			}
			if i == n/2 && again {
				must(b.Close())
				must(b.Open(ctx))
			}
		}
	} else {
		for j, t := range topics {
			for i := 0; i < n; i++ {
				sub(t)
			}
			if j == 0 && again {
				must(b.Close())
				must(b.Open(ctx))
			}
		}
	}
	for i, s := range ss {
		want := topics[i/n]
		if turns {
			want = topics[i%len(topics)]
		}
		sym.Assert(topicOf(s) == want && ids[idOf(s)], "id-and-topic-kept")
		delete(ids, idOf(s))
	}
}
