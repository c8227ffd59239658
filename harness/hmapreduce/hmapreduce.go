// Package hmapreduce states what parallel mapping of generated items must do.
package hmapreduce

import (
	"context"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/chenquan/go-pkg/internal/zzverif/lin"
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xmapreduce"
)

// The calls of the map function, the values accepted by the writer, the end of
// the generator.
const (
	mapping lin.Calls = iota
	accepted
	generated
)

// work is what the map function is given to do.
type work struct {
	size int
	n    int // items
	each int // values written per item
}

func newWork(size, n, each int) *work { return &work{size: size, n: n, each: each} }

func (k *work) generate(source chan<- interface{}) {
	for i := 0; i < k.n; i++ {
		source <- i
	}
	generated.Enter(0)
}

func (k *work) write(w xbarrier.Writer, v int) bool {
	ok := w.Write(v)
	if ok {
		accepted.Leave(accepted.Enter(v))
	}
	return ok
}

func (k *work) mapping(item interface{}, w xbarrier.Writer) {
	i := item.(int)
	h := mapping.Enter(i)
	for j := 0; j < k.each; j++ {
		k.write(w, 10*i+j)
	}
	mapping.Leave(h)
}

// output is what was read, and when it was over.
type output struct {
	got map[int]int
	n   int
	end int
}

// collect reads the output to its end.
func collect(out <-chan interface{}) (o output) {
	o.got = map[int]int{}
	for v := range out {
		o.got[v.(int)]++
		o.n++
	}
	o.end = sym.Ret()
	_, ok := <-out
	sym.Assert(!ok, "the output is closed after the last value")
	return o
}

// delivered checks that exactly the accepted values were delivered.
func (o output) delivered(msg string) {
	sym.Assert(o.n == accepted.Ended(), msg)
	for v, n := range o.got {
		sym.Assert(accepted.Count(v) == n, msg)
	}
}

// bounded checks the calls of the map function; everything must be over.
func (k *work) bounded() {
	sym.Assert(mapping.AtMost(k.size), "at most the configured number of map calls run at a time")
	for i := 0; i < k.n; i++ {
		sym.Assert(mapping.Count(i) <= 1, "an item is passed to the map function at most once")
	}
}

func (k *work) complete(o output) {
	quiet()
	k.bounded()
	for i := 0; i < k.n; i++ {
		sym.Assert(mapping.Count(i) == 1, "every generated item is passed to the map function exactly once")
	}
	sym.Assert(mapping.OverBy(o.end), "the output ends after the last map call")
	sym.Assert(o.n == k.each*k.n, "everything written is delivered exactly once")
	o.delivered("everything written is delivered exactly once")
}

func quiet() {
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "no goroutine stays behind: "+sym.LiveDesc())
}

func size(n int) xmapreduce.Option { return xmapreduce.WithWorkerSize(n) }

// P32_All: everything is mapped.
// Bounds: worker size 1..3, 0..3 items, 0..2 values written per item; at most 3 (thorough 4) deviations from round-robin scheduling.
func P32_All() {
	sym.MapOrder(0)
	sym.Sched("delay", 3+sym.Tier())
	s := 1 + sym.Choose(3)
	k := newWork(s, sym.Choose(4), sym.Choose(3))
	k.complete(collect(xmapreduce.Map(context.Background(), k.generate, k.mapping, size(s))))
	sym.Cover("done")
}

// P32_Small: everything is mapped, whatever the schedule.
// Bounds: worker size 1 or 2, 1 or 2 items, 1 value written per item; at most 5 (thorough 7) deviations from round-robin scheduling.
func P32_Small() {
	sym.MapOrder(0)
	sym.Sched("delay", 5+2*sym.Tier())
	s := 1 + sym.Choose(2)
	k := newWork(s, 1+sym.Choose(2), 1)
	k.complete(collect(xmapreduce.Map(context.Background(), k.generate, k.mapping, size(s))))
	sym.Cover("done")
}

// P32_Stream: the output as a stream.
// Bounds: worker size 1 or 2, 0..2 items, 1 value per item; at most 3 (thorough 5) deviations from round-robin scheduling.
func P32_Stream() {
	sym.MapOrder(0)
	sym.Sched("delay", 3+2*sym.Tier())
	s := 1 + sym.Choose(2)
	k := newWork(s, sym.Choose(3), 1)
	k.complete(collect(xmapreduce.MapStream(context.Background(), k.generate, k.mapping, size(s)).Chan()))
	sym.Cover("done")
}

// P32_Parallel: as many calls as configured can run at a time, and not more.
// Bounds: worker size 1..4 or the default 16, 3 items more than that, all blocked until nothing else can move; 1 schedule (thorough: at most 1 deviation from round-robin scheduling).
func P32_Parallel() {
	sym.MapOrder(0)
	sym.Sched("delay", sym.Tier())
	s := 1 + sym.Choose(5)
	var opts []xmapreduce.Option
	if s == 5 {
		s = 16
	} else {
		opts = append(opts, size(s))
	}
	k := newWork(s, s+3, 1)
	gate := make(chan struct{})
	out := xmapreduce.Map(context.Background(), k.generate, func(item interface{}, w xbarrier.Writer) {
		h := mapping.Enter(item.(int))
		<-gate
		k.write(w, item.(int))
		mapping.Leave(h)
	}, opts...)
	sym.Quiesce()
	sym.Assert(mapping.Running() == s, "as many map calls as configured run at a time")
	close(gate)
	k.complete(collect(out))
	sym.Cover("done")
}

// P32_BadSize: a worker size below one.
// Bounds: worker size 0, -1, -7 or the smallest int; 0..2 items; at most 2 (thorough 3) deviations from round-robin scheduling.
func P32_BadSize() {
	sym.MapOrder(0)
	sym.Sched("delay", 2+sym.Tier())
	k := newWork(1, sym.Choose(3), 1)
	s := []int{0, -1, -7, -1 << 63}[sym.Choose(4)]
	var got output
	v, panicked := sym.Catch(func() { got = collect(xmapreduce.Map(context.Background(), k.generate, k.mapping, size(s))) })
	sym.Assert(!panicked && v == nil, "a worker size below one works like one")
	k.complete(got)
	sym.Cover("done")
}

// cancelled checks what must hold after the context has ended and the output was read to its end.
func (k *work) cancelled(o output) {
	sym.Quiesce()
	k.bounded()
	o.delivered("exactly the values whose write succeeded are delivered")
	sym.Assert(accepted.OverBy(o.end), "the output ends after the last write")
	sym.Assert(generated.Count(0) == 1, "the generator is not left blocked")
	sym.Assert(sym.Live() == 0, "no goroutine stays behind: "+sym.LiveDesc())
}

// P32_Cancel: the context ends at any moment while the output is read.
// Bounds: worker size 1 or 2, 2 items, 1 (thorough 2) values per item; cancelled by another goroutine; at most 4 (thorough 6) deviations from round-robin scheduling.
func P32_Cancel() {
	sym.MapOrder(0)
	sym.Sched("delay", 4+2*sym.Tier())
	s := 1 + sym.Choose(2)
	k := newWork(s, 2, 1+sym.Tier())
	ctx, cancel := context.WithCancel(context.Background())
	out := xmapreduce.Map(ctx, k.generate, k.mapping, size(s))
	go cancel()
	k.cancelled(collect(out))
	sym.Cover("done")
}

// P32_CancelMany: the context ends at any moment while the output is read.
// Bounds: worker size 1..3, 4 items, 2 values per item; cancelled by another goroutine; at most 3 (thorough 4) deviations from round-robin scheduling.
func P32_CancelMany() {
	sym.MapOrder(0)
	sym.Sched("delay", 3+sym.Tier())
	s := 1 + sym.Choose(3)
	k := newWork(s, 4, 2)
	ctx, cancel := context.WithCancel(context.Background())
	out := xmapreduce.Map(ctx, k.generate, k.mapping, size(s))
	go cancel()
	k.cancelled(collect(out))
	sym.Cover("done")
}

// P32_CancelUnread: the context ends and nobody reads the output.
// Bounds: worker size 1 or 2, 5 items, 2 values per item (more than the output holds); at most 2 (thorough 3) deviations from round-robin scheduling.
func P32_CancelUnread() {
	sym.MapOrder(0)
	sym.Sched("delay", 2+sym.Tier())
	s := 1 + sym.Choose(2)
	k := newWork(s, 5, 2)
	ctx, cancel := context.WithCancel(context.Background())
	out := xmapreduce.Map(ctx, k.generate, k.mapping, size(s))
	if sym.Choose(2) == 0 {
		sym.Cover("cancelled when stuck")
		sym.Quiesce()
	}
	cancel()
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "no goroutine stays behind: "+sym.LiveDesc())
	k.cancelled(collect(out))
}

// P32_Ended: the context has ended before.
// Bounds: worker size 1 or 2, 0..2 items; at most 1 (thorough 2) preemptions.
func P32_Ended() {
	sym.MapOrder(0)
	sym.Sched("preempt", 1+sym.Tier())
	s := 1 + sym.Choose(2)
	k := newWork(s, sym.Choose(3), 1)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	got := collect(xmapreduce.Map(ctx, k.generate, k.mapping, size(s)))
	sym.Assert(got.n == 0, "nothing is written once the context has ended")
	k.cancelled(got)
	sym.Assert(mapping.Running() == 0 && mapping.Ended() == 0, "no items are started once the context has ended")
	sym.Cover("done")
}

// P32_NoNewItems: items that come after the end of the context.
// Bounds: worker size 1 or 2, 2 items blocked in the map function or delivered before the cancellation, 2 items generated after it; at most 3 (thorough 5) deviations from round-robin scheduling.
func P32_NoNewItems() {
	sym.MapOrder(0)
	sym.Sched("delay", 3+2*sym.Tier())
	s := 1 + sym.Choose(2)
	k := newWork(s, 4, 1)
	gate, hold := make(chan struct{}), make(chan struct{})
	ctx, cancel := context.WithCancel(context.Background())
	blocked := sym.Choose(2) == 0
	out := xmapreduce.Map(ctx, func(source chan<- interface{}) {
		source <- 0
		source <- 1
		<-gate
		source <- 2
		source <- 3
		generated.Enter(0)
	}, func(item interface{}, w xbarrier.Writer) {
		i := item.(int)
		h := mapping.Enter(i)
		if blocked {
			<-hold
			sym.Assert(!k.write(w, i), "a write fails once the context has ended")
		} else {
			k.write(w, i)
		}
		mapping.Leave(h)
	}, size(s))
	sym.Quiesce()
	cancel()
	ended := sym.Ret()
	sym.Quiesce()
	close(hold)
	close(gate)
	k.cancelled(collect(out))
	sym.Assert(mapping.NoneAfter(ended), "no further items are started once the context has ended")
	sym.Cover("done")
}

// P32_CancelInside: the map function ends the context itself.
// Bounds: worker size 1 or 2, 3 items, the second of which cancels between its two writes; at most 3 (thorough 4) deviations from round-robin scheduling.
func P32_CancelInside() {
	sym.MapOrder(0)
	sym.Sched("delay", 3+sym.Tier())
	s := 1 + sym.Choose(2)
	k := newWork(s, 3, 0)
	ctx, cancel := context.WithCancel(context.Background())
	out := xmapreduce.Map(ctx, k.generate, func(item interface{}, w xbarrier.Writer) {
		i := item.(int)
		h := mapping.Enter(i)
		k.write(w, 10*i)
		if i == 1 {
			cancel()
			sym.Assert(!k.write(w, 10*i+1), "a write fails once the context has ended")
		}
		mapping.Leave(h)
	}, size(s))
	k.cancelled(collect(out))
	sym.Cover("done")
}

// P32_Exit: map functions and generators that end their goroutine.
// Bounds: worker size 1 or 2, 1..3 items, any of which call runtime.Goexit before writing, after which the generator returns or calls runtime.Goexit; at most 2 (thorough 3) deviations from round-robin scheduling.
func P32_Exit() {
	sym.MapOrder(0)
	sym.Sched("delay", 2+sym.Tier())
	s, n := 1+sym.Choose(2), 1+sym.Choose(3)
	calls := make([]int32, n)
	exits := make([]bool, n)
	want := 0
	for i := range exits {
		exits[i] = sym.Choose(2) == 1
		if !exits[i] {
			want++
		}
	}
	last := sym.Choose(2) == 1
	out := xmapreduce.Map(context.Background(), func(source chan<- interface{}) {
		for i := 0; i < n; i++ {
			source <- i
		}
		if last {
			runtime.Goexit()
		}
	}, func(item interface{}, w xbarrier.Writer) {
		i := item.(int)
		atomic.AddInt32(&calls[i], 1)
		if exits[i] {
			runtime.Goexit()
		}
		w.Write(item)
	}, size(s))
	got := map[int]int{}
	for v := range out {
		got[v.(int)]++
	}
	quiet()
	sym.Assert(len(got) == want, "everything written is delivered exactly once")
	for i := 0; i < n; i++ {
		sym.Assert(atomic.LoadInt32(&calls[i]) == 1, "every generated item is passed to the map function exactly once")
		sym.Assert(exits[i] || got[i] == 1, "everything written is delivered exactly once")
	}
	sym.Cover("done")
}

// P32_Large: many items.
// Bounds: worker size 1, 16, 70 or 300, 700 (thorough 3000) items, 0..2 values written per item; 5 schedules: without preemption, and switching to the next goroutine after every 1, 2, 3 or 7 steps of synchronisation.
func P32_Large() {
	if q := sym.Choose(5); q > 0 {
		sym.Sched("rotate", []int{1, 2, 3, 7}[q-1])
	} else {
		sym.Sched("delay", 0)
	}
	s := []int{1, 16, 70, 300}[sym.Choose(4)]
	n, each := 700+2300*sym.Tier(), sym.Choose(3)
	calls := make([]int32, n)
	var running, most int32
	out := xmapreduce.Map(context.Background(), func(source chan<- interface{}) {
		for i := 0; i < n; i++ {
			source <- i
		}
	}, func(item interface{}, w xbarrier.Writer) {
		r := atomic.AddInt32(&running, 1)
		for m := atomic.LoadInt32(&most); r > m && !atomic.CompareAndSwapInt32(&most, m, r); m = atomic.LoadInt32(&most) {
		}
		i := item.(int)
		atomic.AddInt32(&calls[i], 1)
		for j := 0; j < each; j++ {
			sym.Assert(w.Write(each*i+j), "a value is accepted while nothing is cancelled")
		}
		atomic.AddInt32(&running, -1)
	}, size(s))
	got := make([]int, n*each)
	total := 0
	for v := range out {
		got[v.(int)]++
		total++
	}
	quiet()
	sym.Assert(total == n*each, "everything written is delivered exactly once")
	for _, c := range got {
		sym.Assert(c == 1, "everything written is delivered exactly once")
	}
	for i := range calls {
		sym.Assert(calls[i] == 1, "every generated item is passed to the map function exactly once")
	}
	sym.Assert(int(most) <= s, "at most the configured number of map calls run at a time")
	sym.Cover("done")
}

// P32_Odd: items and values of any kind.
// Bounds: worker size 1 or 2; 2 items, each any of 20 values (nil, typed nils, zero values, errors, functions, lists, values that cannot be compared), each written once; as a channel or a stream; contexts cancelled with or without a cause afterwards, or that never end; round-robin scheduling.
func P32_Odd() {
	sym.Sched("delay", 0)
	ctx := context.Background()
	cancel := func() {}
	switch sym.Choose(3) {
	case 0:
		ctx, cancel = context.WithCancel(ctx)
	case 1:
		c, stop := context.WithCancelCause(ctx)
		ctx, cancel = c, func() { stop(nil) }
	}
	l := []interface{}{lin.Odd(sym.Choose(lin.Odds)), lin.Odd(sym.Choose(lin.Odds))}
	var mu sync.Mutex
	var seen []interface{}
	generate := func(source chan<- interface{}) {
		for _, x := range l {
			source <- x
		}
	}
	mapping := func(item interface{}, w xbarrier.Writer) {
		mu.Lock()
		seen = append(seen, item)
		mu.Unlock()
		sym.Assert(w.Write(item), "a value is accepted while nothing is cancelled")
	}
	opt := size(1 + sym.Choose(2))
	var out <-chan interface{}
	if sym.Choose(2) == 0 {
		out = xmapreduce.Map(ctx, generate, mapping, opt)
	} else {
		out = xmapreduce.MapStream(ctx, generate, mapping, opt).Chan()
	}
	var got []interface{}
	for v := range out {
		got = append(got, v)
	}
	quiet()
	both := func(a []interface{}) bool {
		return len(a) == 2 && (lin.Same(a[0], l[0]) && lin.Same(a[1], l[1]) || lin.Same(a[0], l[1]) && lin.Same(a[1], l[0]))
	}
	sym.Assert(both(seen), "every generated item is passed to the map function exactly once")
	sym.Assert(both(got), "everything written is delivered exactly once")
	cancel()
	sym.Cover("done")
}
