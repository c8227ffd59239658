// Package hstream states what streams must do: every stage is the list
// operation it is named after, everything ends, nothing is lost.
package hstream

import (
	"github.com/chenquan/go-pkg/internal/zzverif/lin"
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xstream"
)

// items makes n arbitrary ints.
func items(n int) []interface{} {
	l := make([]interface{}, n)
	for i := range l {
		l[i] = sym.Int()
	}
	return l
}

// numbers makes the n ints from, from+1, ...
func numbers(from, n int) []interface{} {
	l := make([]interface{}, n)
	for i := range l {
		l[i] = from + i
	}
	return l
}

// source makes a stream of the items in one of three ways.
func source(kind int, l []interface{}) *xstream.Stream {
	switch kind {
	case 0:
		return xstream.Of(l...)
	case 1:
		return xstream.From(func(c chan<- interface{}) {
			for _, x := range l {
				c <- x
			}
		})
	}
	c := make(chan interface{})
	go func() {
		for _, x := range l {
			c <- x
		}
		close(c)
	}()
	return xstream.Range(c)
}

// list reads a stream to its end.
func list(s *xstream.Stream) []interface{} {
	var l []interface{}
	for x := range s.Chan() {
		l = append(l, x)
	}
	_, ok := <-s.Chan()
	sym.Assert(!ok, "a stream ends after its last element")
	return l
}

func same(got, want []interface{}, msg string) {
	sym.Assert(len(got) == len(want), msg)
	for i := range want {
		sym.Assert(got[i] == want[i], msg)
	}
}

func quiet() {
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "no goroutine of a stream stays behind: "+sym.LiveDesc())
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// large chooses one of a few schedules for large inputs.
func large() {
	if q := sym.Choose(5); q > 0 {
		sym.Sched("rotate", []int{1, 2, 3, 7}[q-1])
	} else {
		sym.Sched("delay", 0)
	}
}

// odds makes n odd elements that code may be tempted to treat specially.
func odds(n int) []interface{} {
	l := make([]interface{}, n)
	for i := range l {
		l[i] = lin.Odd(sym.Choose(lin.Odds))
	}
	return l
}

// alike is same for odd elements.
func alike(got, want []interface{}, msg string) {
	sym.Assert(len(got) == len(want), msg)
	for i := range want {
		sym.Assert(lin.Same(got[i], want[i]), msg)
	}
}
