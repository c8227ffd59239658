// Package herror states what a batch error must report.
package herror

import (
	"context"
	"io"

	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xerror"
)

type msgErr struct{ s string }

func (e *msgErr) Error() string { return e.s }

// listErr is not comparable.
type listErr []string

func (e listErr) Error() string { return e[0] }

func fresh() error {
	if sym.Choose(2) == 0 {
		return &msgErr{sym.Str(0, 2)}
	}
	return listErr{sym.Str(0, 1)}
}

func text(errs []error) string {
	s := ""
	for i, e := range errs {
		if i > 0 {
			s += "\n"
		}
		s += e.Error()
	}
	return s
}

func agrees(be *xerror.BatchError, added []error) error {
	err := be.Err()
	sym.Assert(be.NotNil() == (len(added) > 0), "NotNil holds exactly when an error was added")
	switch len(added) {
	case 0:
		sym.Assert(err == nil, "no error added gives a nil error")
	case 1:
		if p, ok := added[0].(*msgErr); ok {
			q, same := err.(*msgErr)
			sym.Assert(same && p == q, "a single error is returned itself")
		} else {
			q, same := err.(listErr)
			sym.Assert(same && &q[0] == &added[0].(listErr)[0], "a single error is returned itself")
		}
	default:
		sym.Assert(err != nil, "several errors give an error")
		got, want := err.Error(), text(added)
		sym.Assert(len(got) == len(want), "the message is every message in order, one line break between")
		sym.Assert(got == want, "the message is every message in order, one line break between")
	}
	return err
}

// P08_Histories: additions of nil and non-nil errors with arbitrary messages.
// Bounds: up to 4 additions (thorough 5) of nil, of new errors or of the first one again, messages of 0..2 arbitrary bytes, errors asked for after every addition and re-examined at the end.
func P08_Histories() {
	var be xerror.BatchError
	var added []error
	type held struct {
		err error
		n   int
	}
	var hs []held
	n := sym.Choose(5 + sym.Tier())
	hs = append(hs, held{agrees(&be, added), 0})
	for i := 0; i < n; i++ {
		k := 2
		if len(added) > 0 {
			k++
		}
		switch sym.Choose(k) {
		case 0:
			be.Add(nil)
		case 1:
			e := fresh()
			be.Add(e)
			added = append(added, e)
		case 2:
			e := added[0]
			be.Add(e)
			added = append(added, e)
		}
		hs = append(hs, held{agrees(&be, added), len(added)})
	}
	for _, h := range hs {
		switch {
		case h.n == 0:
			sym.Assert(h.err == nil, "a nil result stays nil")
		default:
			got, want := h.err.Error(), text(added[:h.n])
			sym.Assert(len(got) == len(want), "an error already obtained does not change")
			sym.Assert(got == want, "an error already obtained does not change")
		}
	}
	if len(added) > 0 {
		sym.Obs("text", be.Err().Error())
	}
	sym.Cover("done")
}

// P08_Many: more errors than any initial capacity, one and the same error repeated.
// Bounds: 2..9 errors with one-byte messages.
func P08_Many() {
	var be xerror.BatchError
	var added []error
	same := &msgErr{sym.Str(1, 1)}
	n := 2 + sym.Choose(8)
	for i := 0; i < n; i++ {
		var e error = same
		if i%3 == 1 {
			e = &msgErr{sym.Str(1, 1)}
		}
		be.Add(e)
		added = append(added, e)
	}
	first := agrees(&be, added)
	be.Add(same)
	agrees(&be, append(added, same))
	sym.Assert(first.Error() == text(added), "an error already obtained does not change")
}

// P08_Messages: messages of any content.
// Bounds: 1 or 2 errors with messages of 0..8 (thorough 0..12) arbitrary bytes, then one of a single letter.
func P08_Messages() {
	var be xerror.BatchError
	var added []error
	n := 1 + sym.Choose(2)
	for i := 0; i <= n; i++ {
		e := &msgErr{"z"}
		if i < n {
			e.s = sym.Str(0, 8+4*sym.Tier())
		}
		be.Add(e)
		added = append(added, e)
		agrees(&be, added)
	}
	sym.Cover("done")
}

// P08_Branches: batches added to other batches, at any position.
// Bounds: an outer history of 1..3 additions, each a new error or the present result of an inner batch, which gets one more error before each of them; one-byte messages.
func P08_Branches() {
	var inner, outer xerror.BatchError
	want, sofar := "", ""
	var first error
	firstText := ""
	n := 1 + sym.Choose(3)
	for i := 0; i < n; i++ {
		e := &msgErr{sym.Str(1, 1)}
		if sofar != "" {
			sofar += "\n"
		}
		sofar += e.s
		inner.Add(e)
		if i > 0 {
			want += "\n"
		}
		if sym.Choose(2) == 0 {
			o := &msgErr{sym.Str(0, 1)}
			outer.Add(o)
			want += o.s
		} else {
			outer.Add(inner.Err())
			want += sofar
			if first == nil {
				first, firstText = inner.Err(), sofar
			}
		}
		sym.Assert(outer.NotNil(), "NotNil holds exactly when an error was added")
		got := outer.Err().Error()
		sym.Assert(len(got) == len(want), "a batch error can be added to another batch, in its place")
		sym.Assert(got == want, "a batch error can be added to another batch, in its place")
		got = inner.Err().Error()
		sym.Assert(len(got) == len(sofar), "adding a batch to another one does not change it")
		sym.Assert(got == sofar, "adding a batch to another one does not change it")
	}
	if first != nil {
		sym.Assert(first.Error() == firstText, "an error already obtained does not change")
	}
	outer.Add(nil)
	sym.Assert(outer.Err().Error() == want, "adding nil never changes a batch error")
	sym.Cover("done")
}

// P08_Large: far more errors than any initial capacity, and long messages.
// Bounds: 17, 70 or 300 errors (thorough also 1100), every 50th with an arbitrary byte, one with a message of 300 bytes.
func P08_Large() {
	sizes := []int{17, 70, 300, 1100}
	n := sizes[sym.Choose(3+sym.Tier())]
	var be xerror.BatchError
	long := make([]byte, 300)
	for i := range long {
		long[i] = 'a' + byte(i%26)
	}
	want := ""
	for i := 0; i < n; i++ {
		s := string([]byte{'a' + byte(i%26), 'A' + byte(i/26%26)})
		if i%50 == 3 {
			s = sym.Str(1, 1)
		}
		if i == 5 {
			s = string(long)
		}
		if i > 0 {
			want += "\n"
		}
		want += s
		be.Add(&msgErr{s})
		if i%7 == 0 {
			be.Add(nil)
		}
		sym.Assert(be.NotNil(), "NotNil holds exactly when an error was added")
	}
	got := be.Err().Error()
	sym.Assert(len(got) == len(want), "the message is every message in order, one line break between, however many")
	sym.Assert(got == want, "the message is every message in order, one line break between, however many")
	sym.Cover("done")
}

// yesErr claims to be every error.
type yesErr struct{ s string }

func (e *yesErr) Error() string   { return e.s }
func (e *yesErr) Is(error) bool   { return true }
func (e *yesErr) Timeout() bool   { return true }
func (e *yesErr) Temporary() bool { return true }

// wrapErr wraps another error.
type wrapErr struct {
	s   string
	err error
}

func (e *wrapErr) Error() string { return e.s }
func (e *wrapErr) Unwrap() error { return e.err }

// zeroErr has no contents.
type zeroErr struct{}

func (zeroErr) Error() string { return "zero" }

// nilErr is an error even as a nil pointer.
type nilErr struct{}

func (*nilErr) Error() string { return "nil pointer" }

// P08_Kinds: errors that code may be tempted to treat specially.
// Bounds: up to 3 additions, each one of 10 errors: end of stream, cancelled, deadline exceeded, claiming to be any error, wrapping another, wrapping nothing, without contents, a nil pointer of an error type, an empty message, not comparable.
func P08_Kinds() {
	y := &yesErr{"yes"}
	kinds := []error{
		io.EOF, context.Canceled, context.DeadlineExceeded, y, &wrapErr{"wrap", io.EOF},
		&wrapErr{"bare", nil}, zeroErr{}, (*nilErr)(nil), &msgErr{""}, listErr{"list"},
	}
	var be xerror.BatchError
	var added []error
	n := 1 + sym.Choose(3)
	for i := 0; i < n; i++ {
		e := kinds[sym.Choose(len(kinds))]
		be.Add(e)
		added = append(added, e)
		err := be.Err()
		sym.Assert(be.NotNil(), "NotNil holds exactly when an error was added")
		sym.Assert(err != nil, "an error added gives an error")
		got, want := err.Error(), text(added)
		sym.Assert(len(got) == len(want), "the message is every message in order, one line break between")
		sym.Assert(got == want, "the message is every message in order, one line break between")
		if _, list := e.(listErr); i == 0 && !list {
			sym.Assert(err == e, "a single error is returned itself")
		}
	}
	sym.Cover("done")
}
