package props

import (
	"context"
	"errors"
	"fmt"
	"io"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/space/marshal"
	"github.com/milosgajdos/netscrape/pkg/store"
)

// ownErr is an error type of the caller's own.
type ownErr struct{ s string }

func (e *ownErr) Error() string { return e.s }

// anyErr is any of the errors that a collaborator may fail with: one of its own, a wrapped one, or one the system knows.
func anyErr(name string) error {
	errs := []error{errors.New(name), &ownErr{name}, fmt.Errorf("%s: %w", name, broker.ErrTimeout), broker.ErrTimeout, broker.ErrNotConnected,
		broker.ErrSubscriptionInactive, context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, graph.ErrNodeNotFound,
		graph.ErrEdgeNotExist, store.ErrEntityNotFound, store.ErrAlreadyExists, plan.ErrResourceNotFound, marshal.ErrUnsuportedType}
	return errs[sym.Choose(name, len(errs))]
}

// someErr is one of a few of them, for harnesses that choose much else.
func someErr(name string) error {
	errs := []error{errors.New(name), broker.ErrTimeout, context.Canceled, io.EOF}
	return errs[sym.Choose(name, len(errs))]
}

// unreadable are attributes that fail with some error: when their keys are listed, or when one of them is read.
func unreadable() someAttrs {
	a := someAttrs{bad: []string{"", "a", "b", "c"}[sym.Choose("bad", 4)], err: anyErr("attrs-err")}
	a.keys = a.bad == ""
	return a
}

// unreadableFew are a few of them.
func unreadableFew() someAttrs {
	errs := []error{&ownErr{}, graph.ErrNodeNotFound, graph.ErrEdgeNotExist}
	a := someAttrs{bad: "b", err: errs[sym.Choose("attrs-err", len(errs))], keys: sym.Bool("keys")}
	return a
}
