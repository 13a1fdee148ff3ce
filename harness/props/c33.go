package props

import (
	"context"
	"time"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/broker"
)

// C33_History: five (thorough: six) of Open, Open with an ended context, Close and ending the context of any earlier Open, in
// any order; after each a publish and a subscription work exactly if the session is open.
func C33_History() {
	b := newBroker(20)
	open := -1
	var cancels []context.CancelFunc
	probe := func() {
		perr := b.Pub(ctx, "x", msg("p"))
		s, serr := b.Sub(ctx, "x")
		if open >= 0 {
			sym.Assert(perr == nil, "open-pub")
			sym.Assert(serr == nil && s != nil, "open-sub")
		} else {
			sym.Assert(brokerErr(perr) == "not-connected", "closed-pub")
			sym.Assert(brokerErr(serr) == "not-connected" && s == nil, "closed-sub")
		}
	}
	if sym.Bool("probe-first") {
		probe()
	}
	for k := 0; k < sym.Bound(5, 6); k++ {
		switch op := sym.Choose("op", 4); op {
		case 0, 1:
			c, cancel := context.WithCancel(ctx)
			if op == 1 {
				cancel()
			}
			err := b.Open(c)
			sym.Assert(err == nil, "open-ok")
			if open < 0 {
				open = len(cancels)
				if op == 1 {
					sym.Quiesce()
					open = -1
				}
			}
			cancels = append(cancels, cancel)
		case 2:
			sym.Assert(b.Close() == nil, "close-ok")
			open = -1
		case 3:
			if len(cancels) == 0 {
				continue
			}
			i := sym.Choose("which", len(cancels))
			cancels[i]()
			sym.Quiesce()
			if open == i {
				open = -1
			}
		}
		probe()
	}
	must(b.Close())
	for _, c := range cancels {
		c()
	}
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}

// C33_Concurrent: three goroutines each Open, Close, publish or subscribe, on an open or closed broker; results and the final
// state match a sequential order. At most 2 (thorough: 4) preemptions.
func C33_Concurrent() {
	b := newBroker(5)
	was := sym.Bool("open")
	if was {
		must(b.Open(ctx))
	}
	ops := make([]int, 3)
	for i := range ops {
		ops[i] = sym.Choose("op", 4)
		// the goroutines are alike: the order of the operations does not matter
		sym.Assume(i == 0 || ops[i-1] <= ops[i])
	}
	res := make([]string, 3)
	do := func(i int) func() {
		return func() {
			switch ops[i] {
			case 0:
				res[i] = brokerErr(b.Open(ctx))
			case 1:
				res[i] = brokerErr(b.Close())
			case 2:
				res[i] = brokerErr(b.Pub(ctx, "x", msg("p")))
			case 3:
				_, err := b.Sub(ctx, "x")
				res[i] = brokerErr(err)
			}
		}
	}
	sym.Preempt(sym.Bound(2, 4))
	sym.Par(do(0), do(1), do(2))
	sym.Delay(0)
	sym.Quiesce()
	final := brokerErr(b.Pub(ctx, "y", msg("p")))
	found := false
	perms(3, func(order []int) {
		open, good := was, true
		state := func() string {
			if open {
				return "ok"
			}
			return "not-connected"
		}
		for _, i := range order {
			switch ops[i] {
			case 0:
				good = good && res[i] == "ok"
				open = true
			case 1:
				good = good && res[i] == "ok"
				open = false
			default:
				good = good && res[i] == state()
			}
		}
		found = found || good && final == state()
	})
	sym.Assert(found, "matches-a-sequential-order")
	must(b.Open(ctx))
	working(b, "reopened-", "z")
	must(b.Close())
	sym.Assert(brokerErr(b.Pub(ctx, "x", msg("p"))) == "not-connected", "closed-pub")
	sym.Quiesce()
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}

// C33_CancelRace: the context of the session ends while the broker is closed, opened again or used; afterwards a broker opened
// again after the cancellation is open, and stays open.
func C33_CancelRace() {
	b, cancel := opened(5)
	ops := []int{sym.Choose("op", 3), sym.Choose("op", 3)}
	do := func(k int) {
		switch k {
		case 0:
			must(b.Open(ctx))
		case 1:
			must(b.Close())
		case 2:
			_ = b.Pub(ctx, "x", msg("p"))
		}
	}
	sym.Preempt(sym.Bound(2, 4))
	sym.Par(func() { cancel() }, func() { do(ops[0]); do(ops[1]) })
	sym.Delay(0)
	sym.Quiesce()
	// closed in the other goroutine and opened after that: the session is not the one cancelled
	if ops[0] == 1 && ops[1] == 0 {
		sym.Reach("second-session")
		sym.Assert(b.Pub(ctx, "y", msg("p")) == nil, "second-session-open")
	}
	if ops[0] != 1 {
		// either nothing was opened, or Open was a no-op before the session ended or opened another one after it
		if ops[1] == 1 || ops[0] != 0 && ops[1] != 0 {
			sym.Reach("ended")
			sym.Assert(brokerErr(b.Pub(ctx, "y", msg("p"))) == "not-connected", "ended")
		}
	}
	must(b.Open(ctx))
	sym.Quiesce()
	sym.Assert(b.Pub(ctx, "y", msg("p")) == nil, "reopened")
}

// ownContext is a context that is not of the context package.
type ownContext struct {
	context.Context
	done chan struct{}
	err  error
}

func (c *ownContext) Done() <-chan struct{} { return c.done }

func (c *ownContext) Err() error {
	select {
	case <-c.done:
		return c.err
	default:
		return nil
	}
}

// C33_Contexts: a session ended by any kind of end of its context: cancelled, past its deadline, ended with a parent or with any
// error; the session ends with nobody using it or with a Pub or Receive blocked, and can be opened again under any of them.
func C33_Contexts() {
	b := newBroker(1)
	for round := 0; round < 2; round++ {
		var c context.Context
		cancel, later, later2 := func() {}, func() {}, func() {}
		switch sym.Choose("kind", 6) {
		case 0:
			c, cancel = context.WithCancel(ctx)
		case 1:
			c, later = context.WithTimeout(ctx, 3*unit)
		case 2:
			parent, end := context.WithCancel(ctx)
			type key struct{}
			c, cancel = context.WithValue(parent, key{}, 1), end
		case 3:
			var parent context.Context
			parent, later = context.WithTimeout(ctx, 3*unit)
			c, later2 = context.WithCancel(parent)
		case 4:
			parent, end := context.WithCancel(ctx)
			c, later = context.WithTimeout(parent, long)
			cancel = end
		case 5:
			o := &ownContext{ctx, make(chan struct{}), []error{&ownErr{}, context.Canceled, context.DeadlineExceeded}[sym.Choose("err", 3)]}
			c, cancel = o, func() { close(o.done) }
		}
		sym.Assert(b.Open(c) == nil, "open-ok")
		sym.Assert(b.Pub(ctx, "x", msg("p")) == nil, "open-pub")
		s, err := b.Sub(ctx, "y")
		sym.Assert(err == nil, "open-sub")
		var user error
		end := func() { time.Sleep(unit); cancel(); time.Sleep(4 * unit) }
		switch sym.Choose("blocked", 3) {
		case 0:
			end()
			user = context.Canceled
		case 1:
			sym.Par(end, func() { user = b.Pub(ctx, "x", msg("q"), broker.WithPubTimeout(long)) })
			sym.Assert(user != nil && brokerErr(user) != "timeout", "blocked-pub-ends")
		case 2:
			sym.Par(end, func() { _, _, user = recv(s, long) })
			sym.Assert(user != nil && brokerErr(user) != "timeout", "blocked-receive-ends")
		}
		sym.Quiesce()
		sym.Assert(brokerErr(b.Pub(ctx, "z", msg("p"))) == "not-connected", "ended-pub")
		_, err = b.Sub(ctx, "z")
		sym.Assert(brokerErr(err) == "not-connected", "ended-sub")
		later2()
		later()
	}
	sym.Assert(sym.Leaked() == 0, "no-goroutine-left")
}
