package props

import (
	"bytes"
	"context"
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	sdigester "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	"github.com/milosgajdos/netscrape/pkg/broker/handlers"
)

// scriptSub hands out the messages of a script; after each it does what hook says, and after the last it returns end.
type scriptSub struct {
	script   []broker.Message
	failAt   int // the receive that fails without a message; -1 for none
	fail     error
	end      error
	failed   bool
	receives int
	returned error
	hook     func(k int)
	before   func(k int) // called with the message received and not yet handled
	ctxs     []context.Context
}

func (s *scriptSub) ID(context.Context) (string, error)                      { return "id", nil }
func (s *scriptSub) Topic(context.Context, ...broker.Option) (string, error) { return "x", nil }
func (s *scriptSub) Unsubscribe(context.Context, ...broker.Option) error     { return nil }
func (s *scriptSub) Receive(c context.Context, h broker.Handler, _ ...broker.Option) error {
	k := s.receives
	s.receives++
	s.ctxs = append(s.ctxs, c)
	// receiving again after an error; a digest that does so may never end
	sym.Assert(!s.failed, "receives-after-an-error")
	if k == s.failAt {
		s.failed = true
		return s.fail
	}
	if k >= len(s.script) {
		s.failed = true
		return s.end
	}
	if s.before != nil {
		s.before(k)
	}
	if err := h(c, s.script[k]); err != nil {
		s.failed = true
		return err
	}
	if s.hook != nil {
		s.hook(k)
	}
	return nil
}

// log is a handler that records what it is given.
type handlerLog struct {
	got    []broker.Message
	failAt int
	err    error
}

func (l *handlerLog) handle(_ context.Context, m broker.Message) error {
	k := len(l.got)
	l.got = append(l.got, m)
	if k == l.failAt {
		return l.err
	}
	return nil
}

// C39_Script: up to three (thorough: five) messages, one handler or two (the digester's own and that of the call), which may
// fail at any message, a receive that may fail at any point, and a context that may end after any message.
func C39_Script() {
	n := sym.Choose("n", sym.Bound(4, 6))
	s := &scriptSub{failAt: -1, end: someErr("end")}
	for k := 0; k < n; k++ {
		s.script = append(s.script, msg("m"+string(rune('0'+k))))
	}
	own, call := &handlerLog{failAt: -1}, &handlerLog{failAt: -1}
	used, other := own, call
	var iopts, copts []digester.Option
	which := sym.Choose("which", 3)
	if which != 1 {
		iopts = append(iopts, digester.WithHandler(own.handle))
	}
	if which != 0 {
		copts = append(copts, digester.WithHandler(call.handle))
		used, other = call, own
	}
	if sym.Bool("handler-fails") {
		used.err = someErr("handler")
		used.failAt = sym.Int("handler-fails-at", 0, 5)
	}
	if sym.Bool("receive-fails") {
		s.fail = someErr("receive")
		s.failAt = sym.Int("receive-fails-at", 0, 5)
	}
	c, cancel := context.WithCancel(ctx)
	defer cancel()
	ends := -1
	if sym.Bool("ends") {
		ends = sym.Int("ends-after", 0, 5)
		s.hook = func(k int) {
			if k == ends {
				cancel()
			}
		}
	}
	if sym.Bool("ended") {
		cancel()
		ends = -2
	}
	d, err := sdigester.NewDigester(iopts...)
	must(err)
	err = d.Digest(c, s, copts...)

	// reference
	var want error
	over := false // ended by the context
	handled, receives := 0, 0
	for want == nil {
		switch k := receives; {
		case ends == -2 || ends >= 0 && k > ends:
			want, over = context.Canceled, true
		case k == s.failAt:
			want = s.fail
			receives++
		case k >= n:
			want = s.end
			receives++
		default:
			receives++
			handled++
			if k == used.failAt {
				want = used.err
			}
		}
	}
	sym.Assert(err != nil, "error-returned")
	if over {
		// a receive once the context has ended fails in a real subscriber; that error will do too
		sym.Reach("ended")
	} else {
		sym.Assert(errors.Is(err, want), "that-error")
	}
	sym.Assert(s.receives <= receives || over && s.receives <= receives+1, "nothing-more-received")
	sym.Assert(len(other.got) == 0, "only-the-effective-handler")
	if !over {
		sym.Assert(len(used.got) == handled, "each-handled-once")
	} else {
		sym.Assert(len(used.got) >= handled && len(used.got) <= handled+1, "each-handled-once-ended")
	}
	for k, m := range used.got {
		sym.Assert(msgIs(m, "m"+string(rune('0'+k))), "as-received-in-order")
	}
}

// C39_Ended: with a subscriber that never fails by itself, Digest returns after the context has ended, soon.
func C39_Ended() {
	c, cancel := context.WithCancel(ctx)
	defer cancel()
	at := sym.Int("at", 0, 4)
	s := &scriptSub{failAt: -1}
	s.hook = func(k int) {
		if k == at {
			cancel()
		}
		if k > at+3 {
			sym.Assert(false, "returns-after-the-context-ended")
			panic("endless")
		}
	}
	for k := 0; k < 12; k++ {
		s.script = append(s.script, msg("m"))
	}
	s.end = errors.New("end")
	l := &handlerLog{failAt: -1}
	d, err := sdigester.NewDigester(digester.WithHandler(l.handle))
	must(err)
	err = d.Digest(c, s)
	sym.Assert(err != nil && len(l.got) < 12, "returned-before-the-end")
	sym.Assert(len(l.got) >= at+1, "not-before-the-context-ended")
}

// C39_Dump: without a handler the payload of each message, any bytes, is written to stdout as it is, in order.
func C39_Dump() {
	d, err := sdigester.NewDigester()
	must(err)
	n := sym.Choose("n", 3)
	s := &scriptSub{failAt: -1, end: errors.New("end")}
	var want []byte
	for k := 0; k < n; k++ {
		b := sym.Bytes("data", sym.Choose("len", 4))
		s.script = append(s.script, broker.Message{UID: "u", Type: broker.Link, Data: b, Attrs: map[string]string{"a": "b"}})
		want = append(want, b...)
	}
	out := sym.CaptureStdout(func() { err = d.Digest(ctx, s) })
	sym.Assert(errors.Is(err, s.end), "that-error")
	sym.Assert(bytes.Equal(out, want), "exactly-the-payloads")
	sym.Assert(s.receives == n+1, "received-until-the-error")
}

// C39_DumpData: the dump writes the payload, any of up to six bytes, and nothing else.
func C39_DumpData() {
	b := sym.Bytes("data", sym.Choose("len", 7))
	var err error
	var keep []byte
	keep = append(keep, b...)
	out := sym.CaptureStdout(func() { err = handlers.DumpData(ctx, broker.Message{Data: b}) })
	sym.Assert(err == nil, "ok")
	sym.Assert(bytes.Equal(out, b), "exactly-the-payload")
	sym.Assert(bytes.Equal(b, keep), "payload-kept")
}

// C39_DumpFails: the dump to a stdout that refuses writes fails, which ends the digest at the first payload of any bytes.
func C39_DumpFails() {
	d, err := sdigester.NewDigester()
	must(err)
	s := &scriptSub{failAt: -1, end: errors.New("end")}
	n := 1 + sym.Choose("n", 3)
	for k := 0; k < n; k++ {
		b := sym.Bytes("data", 1+sym.Choose("len", 3))
		s.script = append(s.script, broker.Message{UID: "u", Type: broker.Link, Data: b})
	}
	var derr error
	sym.FailingStdout(func() {
		err = d.Digest(ctx, s)
		derr = handlers.DumpData(ctx, s.script[0])
	})
	sym.Assert(derr != nil, "dump-error")
	sym.Assert(err != nil && !errors.Is(err, s.end), "handler-error")
	sym.Assert(s.receives == 1, "receives-nothing-more")
}

// C39_History: several digests by one digester, with and without handlers of their own: no call affects another.
func C39_History() {
	own := &handlerLog{failAt: -1}
	var iopts []digester.Option
	has := sym.Bool("own")
	if has {
		iopts = append(iopts, digester.WithHandler(own.handle))
	}
	d, err := sdigester.NewDigester(iopts...)
	must(err)
	wantOwn := 0
	end := someErr("end")
	for k := 0; k < sym.Bound(3, 5); k++ {
		m := broker.Message{UID: "u", Data: []byte("payload")}
		s := &scriptSub{failAt: -1, script: []broker.Message{m}, end: end}
		call := &handlerLog{failAt: -1}
		var opts []digester.Option
		with := sym.Bool("call")
		if with {
			opts = append(opts, digester.WithHandler(call.handle))
		}
		out := sym.CaptureStdout(func() { err = d.Digest(ctx, s, opts...) })
		sym.Assert(errors.Is(err, s.end), "that-error")
		switch {
		case with:
			sym.Assert(len(call.got) == 1, "handler-of-the-call")
		case has:
			wantOwn++
		}
		if with || has {
			sym.Assert(len(out) == 0, "no-dump")
		} else {
			sym.Assert(string(out) == "payload", "dump")
		}
		sym.Assert(len(own.got) == wantOwn, "own-handler")
	}
}

// C39_Broker: through the in-memory broker: messages published before and during the digest are handled once each in order,
// and the digest returns when its context ends, the session closes (by Close or by its context), the subscription is
// unsubscribed, or the handler fails.
func C39_Broker() {
	b, ocancel := opened(3)
	s := subscribe(b, "x")
	pre := sym.Choose("pre", 2)
	if pre == 1 {
		must(b.Pub(ctx, "x", msg("m0")))
	}
	l := &handlerLog{failAt: -1}
	end := sym.Choose("end", 5)
	if end == 4 {
		l.failAt, l.err = pre, anyErr("handler")
	}
	c, cancel := context.WithCancel(ctx)
	defer cancel()
	d, err := sdigester.NewDigester()
	must(err)
	var perr error
	sym.Delay(sym.Bound(4, 6))
	sym.Par(
		func() { err = d.Digest(c, s, digester.WithHandler(l.handle)) },
		func() {
			perr = b.Pub(ctx, "x", msg("m"+string(rune('0'+pre))), broker.WithPubTimeout(long))
			sym.Quiesce()
			switch end {
			case 0:
				cancel()
			case 1:
				must(b.Close())
			case 2:
				ocancel()
			case 3:
				must(s.Unsubscribe(ctx))
			}
		},
	)
	sym.Delay(0)
	sym.Assert(perr == nil, "published")
	sym.Assert(err != nil, "returns-at-the-end")
	if end != 4 {
		sym.Assert(brokerErr(err) != "timeout", "not-by-timeout")
	} else {
		sym.Assert(errors.Is(err, l.err), "handler-error")
	}
	sym.Assert(len(l.got) == pre+1, "all-handled-once")
	for k, m := range l.got {
		sym.Assert(msgIs(m, "m"+string(rune('0'+k))), "in-order")
	}
	ocancel()
}

// C39_Idle: with nothing to receive the digest ends with the timeout of the receive, or at the end of its context.
func C39_Idle() {
	b, ocancel := opened(1)
	s := subscribe(b, "x")
	c, cancel := context.WithCancel(ctx)
	defer cancel()
	ends := sym.Bool("ends")
	l := &handlerLog{failAt: -1}
	d, err := sdigester.NewDigester(digester.WithHandler(l.handle))
	must(err)
	sym.Par(func() { err = d.Digest(c, s) }, func() {
		if ends {
			cancel()
		}
	})
	sym.Assert(err != nil && len(l.got) == 0, "error-returned")
	if !ends {
		sym.Assert(brokerErr(err) == "timeout", "timeout-returned")
	}
	ocancel()
}

// C39_Messages: any two messages (any UID, type, attributes and payload, nil and empty ones included): each is handed to the
// handler as it is, by the scripted subscriber or by the broker.
func C39_Messages() {
	var script []broker.Message
	for k := 0; k < 2; k++ {
		script = append(script, anyMessage())
	}
	l := &handlerLog{failAt: -1}
	end := someErr("end")
	d, err := sdigester.NewDigester(digester.WithHandler(l.handle))
	must(err)
	if sym.Bool("broker") {
		b, _ := opened(2)
		s := subscribe(b, "x")
		for _, m := range script {
			must(b.Pub(ctx, "x", m))
		}
		l.failAt, l.err = 1, end
		err = d.Digest(ctx, s)
		must(b.Close())
	} else {
		err = d.Digest(ctx, &scriptSub{failAt: -1, end: end, script: script})
	}
	sym.Assert(errors.Is(err, end), "that-error")
	sym.Assert(len(l.got) == len(script), "each-handled-once")
	for k, m := range l.got {
		sym.Assert(sameMessage(m, script[k]), "as-received-in-order")
	}
}
