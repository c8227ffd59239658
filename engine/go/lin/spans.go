package lin

import "github.com/chenquan/go-pkg/internal/zzverif/sym"

// Calls watches the calls of a user function. What it says holds for every
// ordering of the steps of the explored schedule that respects their
// dependencies: under the executor the moments of a call are solver variables.
type Calls int

// Run records one call of item around f.
func (g Calls) Run(item int, f func()) {
	h := sym.Begin(int(g), item)
	f()
	sym.End(h)
}

// Enter and Leave record one call; a call that panics may be left unfinished.
func (g Calls) Enter(item int) int { return sym.Begin(int(g), item) }
func (g Calls) Leave(h int)        { sym.End(h) }

// AtMost reports whether never more than n calls run at one moment. A call
// that has not returned runs forever.
func (g Calls) AtMost(n int) bool {
	m := sym.Spans(int(g))
	all := true
	for i := 0; i < m; i++ {
		at := sym.SpanCall(int(g), i)
		running := 1
		for j := 0; j < m; j++ {
			if j == i {
				continue
			}
			on := !sym.Before(at, sym.SpanCall(int(g), j))
			if end := sym.SpanRet(int(g), j); end != 0 {
				on = sym.And(on, sym.Before(at, end))
			}
			running += sym.IteInt(on, 1, 0)
		}
		all = sym.And(all, running <= n)
	}
	return all
}

// OverBy reports whether every call has returned before the given moment.
func (g Calls) OverBy(stamp int) bool {
	all := true
	for i := 0; i < sym.Spans(int(g)); i++ {
		end := sym.SpanRet(int(g), i)
		all = sym.And(all, end != 0 && sym.Before(end, stamp))
	}
	return all
}

// NoneAfter reports whether no call begins after the given moment.
func (g Calls) NoneAfter(stamp int) bool {
	all := true
	for i := 0; i < sym.Spans(int(g)); i++ {
		all = sym.And(all, sym.Before(sym.SpanCall(int(g), i), stamp))
	}
	return all
}

// InOrder reports whether the calls happened one after the other in the order
// of their items.
func (g Calls) InOrder() bool {
	all := true
	m := sym.Spans(int(g))
	for i := 0; i < m; i++ {
		for j := 0; j < m; j++ {
			if sym.SpanItem(int(g), i) < sym.SpanItem(int(g), j) {
				end := sym.SpanRet(int(g), i)
				all = sym.And(all, end != 0 && sym.Before(end, sym.SpanCall(int(g), j)))
			}
		}
	}
	return all
}

// Count is the number of calls of item that were begun; call it only when
// everything is over.
func (g Calls) Count(item int) (n int) {
	for i := 0; i < sym.Spans(int(g)); i++ {
		if sym.SpanItem(int(g), i) == item {
			n++
		}
	}
	return n
}

// Ended is the number of calls that have returned; call it only when
// everything is over.
func (g Calls) Ended() (n int) {
	for i := 0; i < sym.Spans(int(g)); i++ {
		if sym.SpanRet(int(g), i) != 0 {
			n++
		}
	}
	return n
}

// Running is the number of calls that have begun and not returned; call it
// only when nothing can move.
func (g Calls) Running() int { return sym.Spans(int(g)) - g.Ended() }

// Then reports whether the call of each item has returned before the call of
// the same item in another group began.
func (g Calls) Then(next Calls) bool {
	all := true
	for i := 0; i < sym.Spans(int(g)); i++ {
		for j := 0; j < sym.Spans(int(next)); j++ {
			if sym.SpanItem(int(g), i) == sym.SpanItem(int(next), j) {
				end := sym.SpanRet(int(g), i)
				all = sym.And(all, end != 0 && sym.Before(end, sym.SpanCall(int(next), j)))
			}
		}
	}
	return all
}
