package hstream

import (
	"runtime"

	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xstream"
)

func ident(x interface{}) interface{} { return x }

func parity(x interface{}) interface{} { return x.(int) & 1 }

func pass(x interface{}, pipe chan<- interface{}) { pipe <- x }

// flatten turns pieces into their elements.
func flatten(s *xstream.Stream) *xstream.Stream {
	return s.Walk(func(x interface{}, pipe chan<- interface{}) {
		switch x := x.(type) {
		case []interface{}:
			for _, y := range x {
				pipe <- y
			}
		case *xstream.Stream:
			for y := range x.Chan() {
				pipe <- y
			}
		default:
			pipe <- x
		}
	})
}

// link appends stage op to a stream of ints (n of them at most).
func link(op, n int, s *xstream.Stream) *xstream.Stream {
	switch op {
	case 0:
		return s.Skip(sym.Choose(3))
	case 1:
		return s.Limit(sym.Choose(3))
	case 2:
		return s.Tail(sym.Choose(3))
	case 3:
		return s.Distinct(parity)
	case 4:
		return s.Buffer(sym.Choose(2))
	case 5:
		return s.Peek(func(interface{}) {})
	case 6:
		return s.Map(ident, xstream.WithWorkSize(1+sym.Choose(2)))
	case 7:
		return s.Filter(func(x interface{}) bool { return x.(int)&1 == 0 }, xstream.WithWorkSize(1+sym.Choose(2)))
	case 8:
		return flatten(s.Split(1 + sym.Choose(2)))
	case 9:
		return flatten(s.SplitSteam(1 + sym.Choose(2)))
	case 10:
		return s.Concat(source(1, numbers(10, 2)))
	case 11:
		return flatten(s.Merge())
	case 12:
		return s.Reverse()
	case 13:
		return flatten(s.Group(parity))
	case 14:
		c := s.Copy(map[string]int{"a": 0, "b": 1})
		return c["a"].Concat(c["b"])
	case 15:
		return s.Sort(func(a, b interface{}) bool { return a.(int) < b.(int) })
	case 16:
		return s.FlatMap(ident, xstream.WithWorkSize(2))
	}
	return s.Walk(pass, xstream.WithWorkSize(2))
}

const links = 18

// finish ends a pipeline in one of the ways that need not take every element.
func finish(op int, s *xstream.Stream) {
	limit := sym.Choose(2)
	switch op {
	case 0:
		list(s)
	case 1:
		s.AnyMach(func(x interface{}) bool { return x.(int) >= limit })
	case 2:
		s.AllMach(func(x interface{}) bool { return x.(int) < limit })
	case 3:
		_, _ = s.FindFirst()
	case 4:
		list(s.Limit(limit))
	case 5:
		_, _ = s.FindLast()
	case 6:
		s.ParallelFinish(func(interface{}) {}, xstream.WithWorkSize(2))
	case 7:
		s.Count()
	}
}

// P35_Pairs: pipelines of two stages.
// Bounds: any 2 of 18 stages (work sizes 1, 2; small sizes) over 0..3 ints from an unbuffered source, finished by reading, any, all, find-first, limit, find-last, parallel-finish or count; round-robin scheduling (thorough: 1 deviation).
func P35_Pairs() {
	sym.Sched("delay", sym.Tier())
	n := sym.Choose(4)
	s := source(1, numbers(0, n))
	s = link(sym.Choose(links), n, s)
	s = link(sym.Choose(links), n, s)
	finish(sym.Choose(8), s)
	quiet()
	sym.Cover("done")
}

// P35_One: pipelines of one stage under more schedules.
// Bounds: each of 18 stages over 3 ints from 3 kinds of source, finished in 8 ways; at most 2 (thorough 3) deviations from round-robin scheduling.
func P35_One() {
	sym.Sched("delay", 2+sym.Tier())
	s := source(sym.Choose(3), numbers(0, 3))
	finish(sym.Choose(8), link(sym.Choose(links), 3, s))
	quiet()
	sym.Cover("done")
}

// P35_Deep: the short-circuiting ends under many schedules.
// Bounds: 2 ints from an unbuffered source, one of map, buffer, skip, limit, peek, finished by any, all, find-first or limit; at most 5 (thorough 7) deviations from round-robin scheduling.
func P35_Deep() {
	sym.Sched("delay", 5+2*sym.Tier())
	s := source(1, numbers(0, 2))
	s = link([]int{0, 1, 4, 5, 6}[sym.Choose(5)], 2, s)
	finish(1+sym.Choose(4), s)
	quiet()
	sym.Cover("done")
}

// P35_Refused: refused arguments do not block the source.
// Bounds: every negative int for skip, limit and tail, every int below 1 for split and split into streams; 0..3 elements from 3 kinds of source; at most 2 (thorough 3) deviations from round-robin scheduling.
func P35_Refused() {
	_, s := input(3, 2+sym.Tier())
	k := sym.Int()
	op := sym.Choose(5)
	sym.Assume(k < 0 || k == 0 && op >= 3)
	_, panicked := sym.Catch(func() {
		switch op {
		case 0:
			s.Skip(k)
		case 1:
			s.Limit(k)
		case 2:
			s.Tail(k)
		case 3:
			s.Split(k)
		case 4:
			s.SplitSteam(k)
		}
	})
	sym.Assert(panicked, "a size that means nothing is refused with a panic")
	quiet()
	sym.Cover("refused")
}

// P35_Zero: sizes of zero end the result at once and still consume the source.
// Bounds: limit and tail of 0 over 0..4 ints from 3 kinds of source; at most 3 (thorough 4) deviations from round-robin scheduling.
func P35_Zero() {
	_, s := input(4, 3+sym.Tier())
	if sym.Choose(2) == 0 {
		same(list(s.Limit(0)), nil, "limit zero keeps nothing")
	} else {
		same(list(s.Tail(0)), nil, "tail zero keeps nothing")
	}
	quiet()
	sym.Cover("done")
}

// P35_Crash: functions that panic on some elements.
// Bounds: map, filter, walk (before or after writing), flat-map, parallel-finish over 0..3 ints, any of which panic, work size 1 or 2; at most 2 (thorough 3) deviations from round-robin scheduling.
func P35_Crash() {
	sym.Sched("delay", 2+sym.Tier())
	n := sym.Choose(4)
	bad := make([]bool, n)
	op := sym.Choose(6)
	var want []interface{}
	for i := range bad {
		bad[i] = sym.Choose(2) == 0
		if !bad[i] || op == 3 {
			want = append(want, i)
		}
	}
	calls := make([]int, n)
	try := func(x interface{}) {
		calls[x.(int)]++
		if bad[x.(int)] {
			panic("refused")
		}
	}
	size := 1 + sym.Choose(2)
	opt := xstream.WithWorkSize(size)
	s := source(sym.Choose(2), numbers(0, n))
	switch op {
	case 0:
		s = s.Map(func(x interface{}) interface{} { try(x); return x }, opt)
	case 1:
		s = s.Filter(func(x interface{}) bool { try(x); return true }, opt)
	case 2:
		s = s.Walk(func(x interface{}, pipe chan<- interface{}) { try(x); pipe <- x }, opt)
	case 3:
		s = s.Walk(func(x interface{}, pipe chan<- interface{}) { pipe <- x; try(x) }, opt)
	case 4:
		s = s.FlatMap(func(x interface{}) interface{} { try(x); return x }, opt)
	case 5:
		s.ParallelFinish(try, opt)
		want = nil
	}
	delivered(list(s), want, size)
	for _, c := range calls {
		sym.Assert(c == 1, "a panicking call does not keep the other elements from being processed")
	}
	quiet()
	sym.Cover("done")
}

// P35_CrashElsewhere: generators, peeks and keys that panic.
// Bounds: 0..3 ints, the generator, peek function or key function panicking at any of them; at most 2 (thorough 3) deviations from round-robin scheduling.
func P35_CrashElsewhere() {
	sym.Sched("delay", 2+sym.Tier())
	n := sym.Choose(4)
	at := sym.Choose(n + 1)
	try := func(x interface{}) {
		if x.(int) == at {
			panic("refused")
		}
	}
	var got []interface{}
	switch sym.Choose(3) {
	case 0:
		got = list(xstream.From(func(c chan<- interface{}) {
			for i := 0; i < n; i++ {
				try(i)
				c <- i
			}
		}))
	case 1:
		got = list(source(1, numbers(0, n)).Peek(try))
	case 2:
		got = list(source(1, numbers(0, n)).Distinct(func(x interface{}) interface{} { try(x); return x }))
	}
	for i, x := range got {
		sym.Assert(x == i && i <= at, "the elements before the panic come in order")
	}
	sym.Assert(len(got) >= at, "the elements before the panic come in order")
	quiet()
	sym.Cover("done")
}

// P35_Exit: functions that end their goroutine.
// Bounds: map, filter, walk, flat-map, parallel-finish over 0..3 ints, any of which call runtime.Goexit, work size 1 or 2; generators, peek and key functions doing so at any of 0..2 ints; at most 1 (thorough 2) deviations from round-robin scheduling.
func P35_Exit() {
	sym.Sched("delay", 1+sym.Tier())
	op := sym.Choose(8)
	n := sym.Choose(4)
	if op > 4 {
		n = sym.Choose(3)
	}
	bad := make([]bool, n)
	var want []interface{}
	before := true
	for i := range bad {
		bad[i] = sym.Choose(2) == 0
		before = before && !bad[i]
		if !bad[i] && (op <= 4 || before) {
			want = append(want, i)
		}
	}
	try := func(x interface{}) {
		if bad[x.(int)] {
			runtime.Goexit()
		}
	}
	size := 1 + sym.Choose(2)
	opt := xstream.WithWorkSize(size)
	s := source(0, numbers(0, n))
	switch op {
	case 0:
		s = s.Map(func(x interface{}) interface{} { try(x); return x }, opt)
	case 1:
		s = s.Filter(func(x interface{}) bool { try(x); return true }, opt)
	case 2:
		s = s.Walk(func(x interface{}, pipe chan<- interface{}) { try(x); pipe <- x }, opt)
	case 3:
		s = s.FlatMap(func(x interface{}) interface{} { try(x); return x }, opt)
	case 4:
		s.ParallelFinish(try, opt)
		want = nil
	case 5:
		s.Done()
		s = xstream.From(func(c chan<- interface{}) {
			for i := 0; i < n; i++ {
				try(i)
				c <- i
			}
		})
	case 6:
		s = s.Peek(try)
	case 7:
		s = s.Distinct(func(x interface{}) interface{} { try(x); return x })
	}
	if op == 6 {
		// whether the element it fails on is delivered is left open
		got := list(s)
		sym.Assert(len(got) >= len(want), "the elements before come in order")
		same(got[:len(want)], want, "the elements before come in order")
	} else {
		delivered(list(s), want, size)
	}
	quiet()
	sym.Cover("done")
}

// P35_Long: pipelines of many stages.
// Bounds: 300 (thorough 1200) stages of one kind (skip, buffer, peek, map, filter, walk, flat-map, distinct, limit, concat) built over a source that has not delivered yet, then 2 ints; read to the end, by find-first or by count; 5 schedules: without preemption, and switching to the next goroutine after every 1, 2, 3 or 7 steps of synchronisation.
func P35_Long() {
	large()
	n := 300 + 900*sym.Tier()
	c := make(chan interface{})
	s := xstream.Range(c)
	op := sym.Choose(10)
	for i := 0; i < n; i++ {
		switch op {
		case 0:
			s = s.Skip(0)
		case 1:
			s = s.Buffer(0)
		case 2:
			s = s.Peek(func(interface{}) {})
		case 3:
			s = s.Map(ident)
		case 4:
			s = s.Filter(func(interface{}) bool { return true })
		case 5:
			s = s.Walk(pass, xstream.WithWorkSize(2))
		case 6:
			s = s.FlatMap(ident)
		case 7:
			s = s.Distinct(ident)
		case 8:
			s = s.Limit(2)
		case 9:
			s = s.Concat(xstream.Empty())
		}
	}
	go func() {
		c <- 0
		c <- 1
		close(c)
	}()
	switch sym.Choose(3) {
	case 0:
		delivered(list(s), numbers(0, 2), 2)
	case 1:
		x, err := s.FindFirst()
		sym.Assert(err == nil && x.(int) < 2, "find-first delivers an element")
	case 2:
		sym.Assert(s.Count() == 2, "count counts the elements")
	}
	quiet()
	sym.Cover("done")
}

// P35_Several: pipelines with several inputs and copies.
// Bounds: 3..9 copies with buffer sizes 0 or 1 of 3 ints, each finished by reading, find-first, any or limit, or concatenations of as many inputs finished in 8 ways, tables in insertion order; at most 1 deviation from round-robin scheduling.
func P35_Several() {
	sym.Sched("delay", 1)
	sym.MapOrder(0)
	n := 3 + sym.Choose(7)
	end := sym.Choose(8)
	if sym.Choose(2) == 0 {
		var ss []*xstream.Stream
		for i := 0; i < n; i++ {
			ss = append(ss, source(i%3, numbers(2*i, 2)))
		}
		finish(end, ss[0].Concat(ss[1:]...))
	} else {
		params := map[string]int{}
		size := sym.Choose(2)
		for i := 0; i < n; i++ {
			params[string([]byte{'a' + byte(i)})] = size
		}
		done := make(chan struct{})
		for _, s := range source(1, numbers(0, 3)).Copy(params) {
			s := s
			go func() {
				switch end {
				case 0:
					list(s)
				case 1:
					s.AnyMach(func(interface{}) bool { return true })
				case 2:
					s.AllMach(func(interface{}) bool { return false })
				case 3:
					_, _ = s.FindFirst()
				case 4:
					list(s.Limit(1))
				default:
					s.Done()
				}
				done <- struct{}{}
			}()
		}
		for i := 0; i < n; i++ {
			<-done
		}
	}
	quiet()
	sym.Cover("done")
}
