package props

import (
	"context"
	"errors"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/store"
)

type fakeStore struct {
	store.Store
	n int
}

type fakePlan struct {
	plan.Plan
	n int
}

type scrapeCall struct {
	ctx  context.Context
	plan plan.Plan
	opts netscrape.Options
}

// recordScraper records the calls of Scrape and the options they yield.
type recordScraper struct {
	calls []scrapeCall
	err   error
}

func (r *recordScraper) Scrape(c context.Context, p plan.Plan, opts ...netscrape.Option) error {
	var o netscrape.Options
	for _, f := range opts {
		f(&o)
	}
	r.calls = append(r.calls, scrapeCall{c, p, o})
	return r.err
}

// runOpts are the options of one call: for each kind how often it is given (the last counts).
type runOpts struct {
	s netscrape.Options
	o []netscrape.Option
}

func anyRunOpts(tag string) *runOpts {
	r := &runOpts{}
	add := func(kind int) {
		switch kind {
		case 0:
			s := &fakeStore{n: len(r.o)}
			r.s.Store = s
			r.o = append(r.o, netscrape.WithStore(s))
		case 1:
			b := &recordBroker{err: errors.New(tag)}
			r.s.Broker = b
			r.o = append(r.o, netscrape.WithBroker(b))
		case 2:
			m := &tagMarshaler{tag: tag}
			r.s.Marshaler = m
			r.o = append(r.o, netscrape.WithMarshaler(m))
		}
	}
	kinds := []int{0, 1, 2}
	if sym.Bool("reversed") {
		kinds = []int{2, 1, 0}
	}
	for _, k := range kinds {
		for n := sym.Choose("given", 3); n > 0; n-- {
			add(k)
		}
	}
	return r
}

func effective(own, call netscrape.Options) netscrape.Options {
	if call.Store == nil {
		call.Store = own.Store
	}
	if call.Broker == nil {
		call.Broker = own.Broker
	}
	if call.Marshaler == nil {
		call.Marshaler = own.Marshaler
	}
	return call
}

func sameOpts(got, want netscrape.Options) {
	sym.Assert(got.Store == want.Store, "store")
	sym.Assert(got.Broker == want.Broker, "broker")
	sym.Assert(got.Marshaler == want.Marshaler, "marshaler")
}

// C40_Run: any of the options given once, twice or not at all, in either order, to the runner and to the run; a scraper that
// may fail, and a plan or none.
func C40_Run() {
	own, call := anyRunOpts("own"), anyRunOpts("call")
	r, err := netscrape.NewRunner(own.o...)
	sym.Assert(err == nil && r != nil, "new")
	s := &recordScraper{}
	if sym.Bool("fails") {
		s.err = anyErr("scrape")
	}
	var p plan.Plan
	if len(own.o) > 0 || sym.Bool("a-plan") {
		p = &fakePlan{n: 1}
	}
	c, cancel := context.WithCancel(context.WithValue(ctx, ctxKey{}, "v"))
	defer cancel()
	ended := sym.Bool("ended")
	if ended {
		cancel()
	}
	err = r.Run(c, p, s, call.o...)
	if s.err != nil {
		sym.Assert(errors.Is(err, s.err), "scraper-error")
	} else {
		sym.Assert(err == nil, "no-error")
	}
	sym.Assert(len(s.calls) == 1, "called-exactly-once")
	if len(s.calls) == 0 {
		return
	}
	k := s.calls[0]
	sym.Assert(k.ctx.Value(ctxKey{}) == "v", "context")
	sym.Assert(ended || k.ctx.Err() == nil, "context-alive")
	cancel()
	sym.Assert(errors.Is(k.ctx.Err(), context.Canceled), "context-ends")
	sym.Assert(k.plan == p, "plan")
	sameOpts(k.opts, effective(own.s, call.s))
}

// C40_History: several runs by one runner, with different options, scrapers and plans: no run affects another.
func C40_History() {
	st, b, m := &fakeStore{n: 1}, &recordBroker{}, &tagMarshaler{tag: "own"}
	own := netscrape.Options{Store: st, Broker: b, Marshaler: m}
	r, err := netscrape.NewRunner(netscrape.WithStore(st), netscrape.WithBroker(b), netscrape.WithMarshaler(m))
	must(err)
	ss := []*recordScraper{{}, {}}
	var want [2][]scrapeCall
	for k := 0; k < sym.Bound(3, 4); k++ {
		var call netscrape.Options
		var opts []netscrape.Option
		if sym.Bool("store") {
			call.Store = &fakeStore{n: 2 + k}
			opts = append(opts, netscrape.WithStore(call.Store))
		}
		if sym.Bool("broker") {
			call.Broker = &recordBroker{}
			opts = append(opts, netscrape.WithBroker(call.Broker))
		}
		if sym.Bool("marshaler") {
			call.Marshaler = &tagMarshaler{tag: "call"}
			opts = append(opts, netscrape.WithMarshaler(call.Marshaler))
		}
		i := sym.Choose("scraper", 2)
		p := &fakePlan{n: k}
		err := r.Run(ctx, p, ss[i], opts...)
		sym.Assert(err == nil, "no-error")
		want[i] = append(want[i], scrapeCall{ctx, p, effective(own, call)})
	}
	for i, s := range ss {
		sym.Assert(len(s.calls) == len(want[i]), "one-call-per-run")
		for j := range s.calls {
			if j < len(want[i]) {
				sym.Assert(s.calls[j].plan == want[i][j].plan, "plan-of-the-run")
				sameOpts(s.calls[j].opts, want[i][j].opts)
			}
		}
	}
}

// C40_Concurrent: one runner used by three goroutines, each with a broker of its own or none.
func C40_Concurrent() {
	own := &recordBroker{}
	r, err := netscrape.NewRunner(netscrape.WithBroker(own))
	must(err)
	bs := []*recordBroker{nil, nil, nil}
	ss := []*recordScraper{{}, {}, {}}
	ps := []*fakePlan{{n: 0}, {n: 1}, {n: 2}}
	var errs [3]error
	fs := make([]func(), 3)
	for i := range fs {
		var opts []netscrape.Option
		if sym.Bool("own") {
			bs[i] = &recordBroker{}
			opts = append(opts, netscrape.WithBroker(bs[i]))
		}
		fs[i] = func() { errs[i] = r.Run(ctx, ps[i], ss[i], opts...) }
	}
	sym.Preempt(sym.Bound(2, 4))
	sym.Par(fs...)
	for i, s := range ss {
		sym.Assert(errs[i] == nil && len(s.calls) == 1, "called-exactly-once")
		want := netscrape.Options{Broker: own}
		if bs[i] != nil {
			want.Broker = bs[i]
		}
		if len(s.calls) == 1 {
			sym.Assert(s.calls[0].plan == plan.Plan(ps[i]), "own-plan")
			sameOpts(s.calls[0].opts, want)
		}
	}
}
