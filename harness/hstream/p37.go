package hstream

import (
	"github.com/chenquan/go-pkg/internal/zzverif/lin"
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xstream"
)

// P37_Count: the number of elements.
// Bounds: 0..7 (thorough 12) elements from 3 kinds of source; at most 2 (thorough 3) deviations from round-robin scheduling.
func P37_Count() {
	l, s := input(7+5*sym.Tier(), 2+sym.Tier())
	sym.Assert(s.Count() == len(l), "count is the number of elements")
	quiet()
	sym.Cover("done")
}

// P37_Match: any and all.
// Bounds: 0..4 (thorough 6) arbitrary ints from 3 kinds of source, the predicate being less than any int; at most 2 (thorough 3) deviations from round-robin scheduling.
func P37_Match() {
	l, s := input(4+2*sym.Tier(), 2+sym.Tier())
	c := sym.Int()
	seen := 0
	all := sym.Choose(2) == 0
	f := func(x interface{}) bool {
		sym.Assert(seen < len(l) && x == l[seen], "the predicate is asked about the elements in order, each once")
		seen++
		return x.(int) < c != all
	}
	want, upto := false, len(l)
	for i, x := range l {
		if x.(int) < c {
			want, upto = true, i+1
			break
		}
	}
	if all {
		sym.Assert(s.AllMach(f) == !want, "all-match says whether every element satisfies the predicate")
	} else {
		sym.Assert(s.AnyMach(f) == want, "any-match says whether some element satisfies the predicate")
	}
	sym.Quiesce()
	sym.Assert(seen == upto, "the predicate is asked until the answer is known and no further")
	quiet()
	if want {
		sym.Cover("early")
	} else {
		sym.Cover("end")
	}
}

// P37_Find: first and last.
// Bounds: 0..5 (thorough 7) arbitrary ints or nils from 3 kinds of source; at most 2 (thorough 3) deviations from round-robin scheduling.
func P37_Find() {
	sym.Sched("delay", 2+sym.Tier())
	l := items(sym.Choose(6 + 2*sym.Tier()))
	if len(l) > 0 && sym.Choose(2) == 0 {
		l[0], l[len(l)-1] = nil, nil
	}
	s := source(sym.Choose(3), l)
	first := sym.Choose(2) == 0
	var x interface{}
	var err error
	if first {
		x, err = s.FindFirst()
	} else {
		x, err = s.FindLast()
	}
	if len(l) == 0 {
		sym.Assert(err == xstream.ErrNoElement && x == nil, "the no-element error says that the stream is empty")
		sym.Cover("empty")
	} else if first {
		sym.Assert(err == nil, "there is no error if the stream has elements")
		sym.Assert(x == l[0], "find-first finds the first element")
		sym.Cover("first")
	} else {
		sym.Assert(err == nil, "there is no error if the stream has elements")
		sym.Assert(x == l[len(l)-1], "find-last finds the last element")
		sym.Cover("last")
	}
	quiet()
}

// P37_Twice: first elements taken one after the other while nobody drains.
// Bounds: find-first, any and all on the shared empty stream, each twice.
func P37_Twice() {
	sym.Sched("delay", 1)
	for i := 0; i < 2; i++ {
		e := xstream.Empty()
		_, err := e.FindFirst()
		sym.Assert(err == xstream.ErrNoElement, "the no-element error says that the stream is empty")
		_, err = e.FindLast()
		sym.Assert(err == xstream.ErrNoElement, "the no-element error says that the stream is empty")
		sym.Assert(!e.AnyMach(func(interface{}) bool { return true }), "no element of the empty stream satisfies anything")
		sym.Assert(e.AllMach(func(interface{}) bool { return false }), "all elements of the empty stream satisfy anything")
		sym.Assert(e.Count() == 0, "the empty stream has no elements")
	}
	quiet()
	sym.Cover("done")
}

// P37_Seen: what for-each and collectors see.
// Bounds: 0..5 (thorough 7) arbitrary ints from 3 kinds of source; at most 2 (thorough 3) deviations from round-robin scheduling.
func P37_Seen() {
	l, s := input(5+2*sym.Tier(), 2+sym.Tier())
	var seen []interface{}
	switch sym.Choose(3) {
	case 0:
		s.Foreach(func(x interface{}) { seen = append(seen, x) })
	case 1:
		s.Collection(xstream.CollectorFunc(func(c <-chan interface{}) {
			for x := range c {
				seen = append(seen, x)
			}
		}))
	case 2:
		s.ParallelFinish(func(x interface{}) { seen = append(seen, x) })
	}
	same(seen, l, "every element is seen exactly once in order")
	quiet()
	sym.Cover("done")
}

// P37_Many: more elements than any buffer.
// Bounds: 700 (thorough 3000) elements from 3 kinds of source; the answer found at the beginning, in the middle, at the end or nowhere; 5 schedules: without preemption, and switching to the next goroutine after every 1, 2, 3 or 7 steps of synchronisation.
func P37_Many() {
	large()
	n := 700 + 2300*sym.Tier()
	l := numbers(0, n)
	x, y := sym.Int(), sym.Int()
	l[0], l[n-1] = x, y
	s := source(sym.Choose(3), l)
	at := []int{0, 1, 64, n / 2, n - 2, n}[sym.Choose(6)]
	asked := 0
	f := func(v interface{}) bool { asked++; return asked-1 == at }
	upto := at + 1
	if at == n {
		upto = n
	}
	switch sym.Choose(7) {
	case 0:
		sym.Assert(s.Count() == n, "count is the number of elements")
	case 1:
		sym.Assert(s.AnyMach(f) == (at < n), "any-match says whether some element satisfies the predicate")
		sym.Assert(asked == upto, "the predicate is asked until the answer is known and no further")
	case 2:
		sym.Assert(s.AllMach(func(v interface{}) bool { return !f(v) }) == (at >= n), "all-match says whether every element satisfies the predicate")
		sym.Assert(asked == upto, "the predicate is asked until the answer is known and no further")
	case 3:
		v, err := s.FindFirst()
		sym.Assert(err == nil && v == x, "find-first finds the first element")
	case 4:
		v, err := s.FindLast()
		sym.Assert(err == nil && v == y, "find-last finds the last element")
	case 5:
		var seen []interface{}
		s.Foreach(func(v interface{}) { seen = append(seen, v) })
		same(seen, l, "every element is seen exactly once in order")
	case 6:
		var seen []interface{}
		s.Collection(xstream.CollectorFunc(func(c <-chan interface{}) {
			for v := range c {
				seen = append(seen, v)
			}
		}))
		same(seen, l, "every element is seen exactly once in order")
	}
	quiet()
	sym.Cover("done")
}

// P37_Odd: elements of any kind.
// Bounds: 1 or 2 elements, each any of 20 values (nil, typed nils, zero values, errors, functions, lists, lists of lists, values that cannot be compared); all terminals; round-robin scheduling.
func P37_Odd() {
	sym.Sched("delay", 0)
	n := 1 + sym.Choose(2)
	l := odds(n)
	s := source(sym.Choose(2), l)
	var seen []interface{}
	look := func(x interface{}) { seen = append(seen, x) }
	switch sym.Choose(9) {
	case 0:
		sym.Assert(s.Count() == n, "count is the number of elements")
		seen = l
	case 1:
		sym.Assert(!s.AnyMach(func(x interface{}) bool { look(x); return false }), "any-match says whether some element satisfies the predicate")
	case 2:
		sym.Assert(s.AnyMach(func(x interface{}) bool { look(x); return len(seen) == n }), "any-match says whether some element satisfies the predicate")
	case 3:
		sym.Assert(s.AllMach(func(x interface{}) bool { look(x); return true }), "all-match says whether every element satisfies the predicate")
	case 4:
		sym.Assert(!s.AllMach(func(x interface{}) bool { look(x); return len(seen) < n }), "all-match says whether every element satisfies the predicate")
	case 5:
		x, err := s.FindFirst()
		sym.Assert(err == nil && lin.Same(x, l[0]), "find-first finds the first element")
		seen = l
	case 6:
		x, err := s.FindLast()
		sym.Assert(err == nil && lin.Same(x, l[n-1]), "find-last finds the last element")
		seen = l
	case 7:
		s.Foreach(look)
	case 8:
		s.ParallelFinish(look)
	}
	alike(seen, l, "every element is seen exactly once in order")
	quiet()
	sym.Cover("done")
}

// P37_Full: sources whose buffer is full while more is to come.
// Bounds: 0..6 elements, up to 5 of them already in the buffer (of that size or 1 more) when the terminal starts; count, first, last, any, all, for-each; at most 1 (thorough 2) deviations from round-robin scheduling.
func P37_Full() {
	sym.Sched("delay", 1+sym.Tier())
	n := sym.Choose(7)
	size := sym.Choose(6)
	l := items(n)
	c := make(chan interface{}, size+sym.Choose(2))
	for _, x := range l[:min(size, n)] {
		c <- x
	}
	go func() {
		for _, x := range l[min(size, n):] {
			c <- x
		}
		close(c)
	}()
	if sym.Choose(2) == 0 {
		sym.Quiesce()
	}
	s := xstream.Range(c)
	seen := 0
	see := func(x interface{}) bool {
		sym.Assert(seen < n && x == l[seen], "every element is seen exactly once in order")
		seen++
		return true
	}
	switch sym.Choose(6) {
	case 0:
		sym.Assert(s.Count() == n, "count is the number of elements")
		seen = n
	case 1:
		x, err := s.FindFirst()
		sym.Assert((err == nil) == (n > 0) && (n == 0 || x == l[0]), "find-first finds the first element")
		seen = n
	case 2:
		x, err := s.FindLast()
		sym.Assert((err == nil) == (n > 0) && (n == 0 || x == l[n-1]), "find-last finds the last element")
		seen = n
	case 3:
		sym.Assert(!s.AnyMach(func(x interface{}) bool { return !see(x) }), "any-match says whether some element satisfies the predicate")
	case 4:
		sym.Assert(s.AllMach(see), "all-match says whether every element satisfies the predicate")
	case 5:
		s.Foreach(func(x interface{}) { see(x) })
	}
	sym.Assert(seen == n, "every element is seen exactly once in order")
	quiet()
	sym.Cover("done")
}
