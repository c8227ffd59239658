package hstream

import (
	"sync"

	"github.com/chenquan/go-pkg/internal/zzverif/lin"
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xstream"
)

// bench watches the calls of a user function.
type bench struct {
	lin.Calls
	size, n int
}

func newBench(size, n int) *bench { return &bench{size: size, n: n} }

// over checks, when the result has ended, that every element was processed
// and every call had returned.
func (b *bench) over() {
	end := sym.Ret()
	quiet()
	sym.Assert(b.AtMost(b.size), "never more calls run at once than the work size")
	for i := 0; i < b.n; i++ {
		sym.Assert(b.Count(i) == 1, "the function is called once per element")
	}
	sym.Assert(b.OverBy(end), "the result ends after the last call")
}

// width makes the options of a stage and says what work size they mean.
func width(kinds int) ([]xstream.Option, int) {
	switch k := sym.Choose(kinds); k {
	case 0:
		return nil, 1
	case 1, 2:
		return []xstream.Option{xstream.WithWorkSize(k + 1)}, k + 1
	case 3:
		return []xstream.Option{xstream.WithWorkSize(1)}, 1
	case 4:
		n := sym.Int()
		sym.Assume(n < 1)
		return []xstream.Option{xstream.WithWorkSize(n)}, 1
	case 5:
		return []xstream.Option{xstream.WithWorkSize(3), xstream.WithOption(new(xstream.Options))}, 1
	case 6:
		return []xstream.Option{xstream.WithWorkSize(1), xstream.WithWorkSize(2)}, 2
	}
	return []xstream.Option{xstream.WithWorkSize(4)}, 4
}

// delivered checks the elements that a stage delivered against the expected ones.
func delivered(got, want []interface{}, size int) {
	sym.Assert(len(got) == len(want), "every output is delivered exactly once")
	if size == 1 {
		same(got, want, "with work size one the outputs come in the order of the elements")
		return
	}
	n := map[interface{}]int{}
	for _, x := range want {
		n[x]++
	}
	for _, x := range got {
		n[x]--
		sym.Assert(n[x] >= 0, "every output is delivered exactly once")
	}
}

// stage applies parallel stage op to the numbers 0.. and says what it has to deliver.
func stage(op int, s *xstream.Stream, n int, b *bench, opts []xstream.Option) ([]interface{}, []interface{}) {
	var want []interface{}
	fn := func(x interface{}) interface{} {
		h := b.Enter(x.(int))
		sym.Yield()
		b.Leave(h)
		return x.(int) * 10
	}
	switch op {
	case 0:
		for i := 0; i < n; i++ {
			want = append(want, i*10)
		}
		return list(s.Map(fn, opts...)), want
	case 1:
		for i := 0; i < n; i++ {
			want = append(want, i*10)
		}
		return list(s.FlatMap(fn, opts...)), want
	case 2:
		keep := make([]bool, n)
		for i := range keep {
			if keep[i] = sym.Choose(2) == 0; keep[i] {
				want = append(want, i)
			}
		}
		return list(s.Filter(func(x interface{}) bool {
			fn(x)
			return keep[x.(int)]
		}, opts...)), want
	case 3:
		out := make([]int, n)
		for i := range out {
			out[i] = sym.Choose(3)
			for j := 0; j < out[i]; j++ {
				want = append(want, 10*i+j)
			}
		}
		return list(s.Walk(func(x interface{}, pipe chan<- interface{}) {
			i := x.(int)
			h := b.Enter(i)
			for j := 0; j < out[i]; j++ {
				pipe <- 10*i + j
			}
			b.Leave(h)
		}, opts...)), want
	}
	s.ParallelFinish(func(x interface{}) { fn(x) }, opts...)
	return nil, nil
}

// P34_Stages: one parallel stage.
// Bounds: map, flat-map, filter (any elements kept), walk (0..2 outputs per element), parallel-finish; 0..3 (thorough 4) elements; work size unset, 1, 2, 3; at most 2 (thorough 3) deviations from round-robin scheduling.
func P34_Stages() {
	sym.Sched("delay", 2+sym.Tier())
	n := sym.Choose(4 + sym.Tier())
	opts, size := width(4)
	b := newBench(size, n)
	got, want := stage(sym.Choose(5), source(sym.Choose(2), numbers(0, n)), n, b, opts)
	b.over()
	delivered(got, want, size)
	sym.Cover("done")
}

// P34_Deep: one parallel stage, more schedules.
// Bounds: map, flat-map, filter (any elements kept), walk (0..2 outputs per element), parallel-finish; 1 or 2 elements; work size unset or 2; at most 4 (thorough 5) deviations from round-robin scheduling.
func P34_Deep() {
	sym.Sched("delay", 4+sym.Tier())
	n := 1 + sym.Choose(2)
	opts, size := width(2)
	b := newBench(size, n)
	got, want := stage(sym.Choose(5), source(0, numbers(0, n)), n, b, opts)
	b.over()
	delivered(got, want, size)
	sym.Cover("done")
}

// P34_Configured: what the work size is.
// Bounds: as P34_Stages with 1..5 elements; work size 2, 3, 4 or unset, every int below 1, set to 3 and then to the defaults, set twice; at most 2 (thorough 3) deviations from round-robin scheduling.
func P34_Configured() {
	sym.Sched("delay", 2+sym.Tier())
	n := 1 + sym.Choose(5)
	opts, size := width(8)
	b := newBench(size, n)
	got, want := stage(sym.Choose(2)*4, source(sym.Choose(2), numbers(0, n)), n, b, opts)
	b.over()
	delivered(got, want, size)
	sym.Cover("done")
}

// P34_Wide: as many calls run at once as configured.
// Bounds: work size 2, 3 or 4 with 1 or 2 times as many elements, the calls waiting for each other in groups of the work size; parallel-finish and map; at most 2 (thorough 3) deviations from round-robin scheduling.
func P34_Wide() {
	sym.Sched("delay", 2+sym.Tier())
	size := 2 + sym.Choose(3)
	n := size * (1 + sym.Choose(2))
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	started := 0
	b := newBench(size, n)
	fn := func(x interface{}) {
		h := b.Enter(x.(int))
		mu.Lock()
		started++
		group := (started - 1) / size
		cond.Broadcast()
		for started < (group+1)*size {
			cond.Wait()
		}
		mu.Unlock()
		b.Leave(h)
	}
	s := source(sym.Choose(2), numbers(0, n))
	if sym.Choose(2) == 0 {
		s.ParallelFinish(fn, xstream.WithWorkSize(size))
	} else {
		sym.Assert(len(list(s.Map(func(x interface{}) interface{} { fn(x); return x }, xstream.WithWorkSize(size)))) == n, "every output is delivered exactly once")
	}
	b.over()
	sym.Cover("done")
}

// P34_Values: what the stages make of their elements.
// Bounds: 0..3 arbitrary ints; map to value+c, filter by value<c, flat-map of an int and of a list of ints, walk writing the value and value+c; c any int; work size unset; round-robin scheduling.
func P34_Values() {
	sym.Sched("delay", 0)
	l := items(sym.Choose(4))
	c := sym.Int()
	add := func(x interface{}) interface{} { return x.(int) + c }
	var want []interface{}
	s := source(sym.Choose(3), l)
	switch sym.Choose(5) {
	case 0:
		for _, x := range l {
			want = append(want, add(x))
		}
		same(list(s.Map(add)), want, "map delivers the result of every call")
	case 1:
		got := list(s.Filter(func(x interface{}) bool { return x.(int) < c }))
		for _, x := range l {
			if x.(int) < c {
				want = append(want, x)
			}
		}
		same(got, want, "filter delivers exactly the elements that satisfy the function")
	case 2:
		for _, x := range l {
			want = append(want, add(x))
		}
		same(list(s.FlatMap(add)), want, "flat-map delivers the result for a single element")
	case 3:
		var all []interface{}
		for _, x := range l {
			sub := []interface{}{x, x.(int) ^ 1, 7}[:sym.Choose(4)]
			all = append(all, sub)
			for _, y := range sub {
				want = append(want, add(y))
			}
		}
		same(list(source(1, all).FlatMap(add)), want, "flat-map delivers the results for every member of a list")
		s.Done()
	case 4:
		for _, x := range l {
			want = append(want, x, add(x))
		}
		same(list(s.Walk(func(x interface{}, pipe chan<- interface{}) {
			pipe <- x
			pipe <- add(x)
		})), want, "walk delivers everything that was written, in order")
	}
	quiet()
	sym.Cover("done")
}

// P34_Slow: a consumer that takes its time.
// Bounds: walk with 2 elements of 2 outputs each, work size 1 or 2, the consumer starting when everything is stuck and after each element; every interleaving with at most 3 (thorough 4) preemptions.
func P34_Slow() {
	sym.Sched("preempt", 3+sym.Tier())
	size := 1 + sym.Choose(2)
	b := newBench(size, 2)
	s := source(sym.Choose(2), numbers(0, 2)).Walk(func(x interface{}, pipe chan<- interface{}) {
		i := x.(int)
		h := b.Enter(i)
		pipe <- 10 * i
		pipe <- 10*i + 1
		b.Leave(h)
	}, xstream.WithWorkSize(size))
	var got []interface{}
	sym.Quiesce()
	for x := range s.Chan() {
		got = append(got, x)
		sym.Quiesce()
	}
	b.over()
	delivered(got, []interface{}{0, 1, 10, 11}, size)
	sym.Cover("done")
}

// P34_Many: very wide stages.
// Bounds: work size 300 (thorough 1100), 1 or 2 times as many elements, the calls waiting for each other in groups of the work size; map, parallel-finish, filter, flat-map and walk; 5 schedules: without preemption, and switching to the next goroutine after every 1, 2, 3 or 7 steps of synchronisation.
func P34_Many() {
	large()
	size := 300 + 800*sym.Tier()
	n := size * (1 + sym.Choose(2))
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	started, running := 0, 0
	fn := func(x interface{}) interface{} {
		mu.Lock()
		started++
		running++
		sym.Assert(running <= size, "never more calls run at once than the work size")
		group := (started - 1) / size
		if started%size == 0 {
			cond.Broadcast()
		}
		for started < (group+1)*size {
			cond.Wait()
		}
		running--
		mu.Unlock()
		return x
	}
	s := source(1, numbers(0, n))
	opt := xstream.WithWorkSize(size)
	switch sym.Choose(5) {
	case 0:
		s = s.Map(fn, opt)
	case 1:
		s.ParallelFinish(func(x interface{}) { fn(x) }, opt)
		sym.Assert(started == n, "the function is called once per element")
		s = source(1, numbers(0, n))
	case 2:
		s = s.Filter(func(x interface{}) bool { fn(x); return true }, opt)
	case 3:
		s = s.FlatMap(fn, opt)
	case 4:
		s = s.Walk(func(x interface{}, pipe chan<- interface{}) { pipe <- fn(x) }, opt)
	}
	delivered(list(s), numbers(0, n), size)
	quiet()
	sym.Cover("done")
}

// P34_Odd: elements of any kind.
// Bounds: 2 (thorough 3) elements, each any of 20 values (nil, typed nils, zero values, errors, functions, lists, lists of lists, values that cannot be compared); map, filter, walk, parallel-finish, flat-map (no nil element, which stands for an empty list); work size unset; round-robin scheduling.
func P34_Odd() {
	sym.Sched("delay", 0)
	l := odds(2 + sym.Tier())
	s := source(sym.Choose(2), l)
	var seen []interface{}
	look := func(x interface{}) interface{} { seen = append(seen, x); return x }
	switch sym.Choose(7) {
	case 0:
		alike(list(s.Map(look)), l, "map delivers the result of every call")
	case 1:
		alike(list(s.Filter(func(x interface{}) bool { look(x); return true })), l, "filter delivers exactly the elements that satisfy the function")
	case 2:
		alike(list(s.Filter(func(x interface{}) bool { look(x); return false })), nil, "filter delivers exactly the elements that satisfy the function")
	case 3:
		alike(list(s.Walk(func(x interface{}, pipe chan<- interface{}) { pipe <- look(x) })), l, "walk delivers everything that was written, in order")
	case 4:
		s.ParallelFinish(func(x interface{}) { look(x) })
	case 5:
		i := -1
		alike(list(source(1, numbers(0, len(l))).Map(func(interface{}) interface{} { i++; return l[i] })), l, "map delivers the result of every call")
		s.Foreach(func(x interface{}) { look(x) })
	case 6:
		var want []interface{}
		for _, x := range l {
			sym.Assume(x != nil)
			if sub, ok := x.([]interface{}); ok {
				want = append(want, sub...)
			} else {
				want = append(want, x)
			}
		}
		alike(list(s.FlatMap(look)), want, "flat-map delivers the results for every member of a list and every single element")
		l = want
	}
	alike(seen, l, "the function is called once per element")
	quiet()
	sym.Cover("done")
}
