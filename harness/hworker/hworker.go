// Package hworker states what the worker must do.
package hworker

import (
	"context"
	"errors"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/chenquan/go-pkg/internal/zzverif/lin"
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xworker"
)

// floor watches what runs.
type floor struct {
	size, n        int
	running, ended lin.Calls // the functions, their completion callbacks
	wg             sync.WaitGroup
}

var floors int

func newFloor(size, n int) *floor {
	floors += 2
	return &floor{size: size, n: n, running: lin.Calls(floors), ended: lin.Calls(floors + 1)}
}

// submit hands function i to the worker; f is what it does besides being watched.
func (fl *floor) submit(ctx context.Context, w *xworker.Worker, i int, f func()) {
	fl.wg.Add(1)
	w.Run(ctx, func() {
		h := fl.running.Enter(i)
		if f != nil {
			f()
		}
		fl.running.Leave(h)
	}, func() {
		fl.ended.Leave(fl.ended.Enter(i))
		fl.wg.Done()
	})
}

// settled checks that everything submitted ran once and that all slots are free again.
func (fl *floor) settled(w *xworker.Worker) {
	fl.wg.Wait()
	sym.Quiesce()
	sym.Assert(fl.running.AtMost(fl.size), "never more functions run at once than the size of the worker")
	for i := 0; i < fl.n; i++ {
		sym.Assert(fl.running.Count(i) == 1, "every submitted function runs exactly once")
		sym.Assert(fl.ended.Count(i) == 1, "the completion callback runs exactly once")
	}
	sym.Assert(fl.running.Then(fl.ended), "the completion callback runs after the function")
	allFree(w, fl.size)
	sym.Assert(sym.Live() == 0, "no goroutine stays behind: "+sym.LiveDesc())
}

// allFree submits size functions that wait for each other.
func allFree(w *xworker.Worker, size int) {
	sym.Sched("delay", 0) // one schedule is enough: everything else is over
	var in, out sync.WaitGroup
	in.Add(size)
	out.Add(size)
	for i := 0; i < size; i++ {
		w.Run(context.Background(), func() {
			in.Done()
			in.Wait()
		}, out.Done)
	}
	out.Wait()
	sym.Quiesce()
}

// P30_OneSubmitter: functions submitted one after the other.
// Bounds: worker of size 1..3, 1..3 (thorough 4) functions that give way once; at most 5 (thorough 6) deviations from round-robin scheduling.
func P30_OneSubmitter() {
	sym.Sched("delay", 5+sym.Tier())
	size, n := 1+sym.Choose(3), 1+sym.Choose(3+sym.Tier())
	w := xworker.NewWorker(size)
	fl := newFloor(size, n)
	for i := 0; i < n; i++ {
		fl.submit(context.Background(), w, i, sym.Yield)
	}
	fl.settled(w)
	sym.Cover("done")
}

// P30_TwoSubmitters: functions submitted by two goroutines.
// Bounds: worker of size 1 or 2; 2 goroutines with 2 and 1 (thorough 2 and 2) functions; at most 5 (thorough 6) deviations from round-robin scheduling.
func P30_TwoSubmitters() {
	sym.Sched("delay", 5+sym.Tier())
	size := 1 + sym.Choose(2)
	w := xworker.NewWorker(size)
	n := 3 + sym.Tier()
	fl := newFloor(size, n)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		for i := 2; i < n; i++ {
			fl.submit(context.Background(), w, i, nil)
		}
		wg.Done()
	}()
	fl.submit(context.Background(), w, 0, nil)
	fl.submit(context.Background(), w, 1, nil)
	wg.Wait()
	fl.settled(w)
	sym.Cover("done")
}

// P30_Many: the worker is used for long.
// Bounds: worker of size 1..4, 12 (thorough 20) functions; at most 1 (thorough 2) deviations from round-robin scheduling.
func P30_Many() {
	sym.Sched("delay", 1+sym.Tier())
	size := 1 + sym.Choose(4)
	w := xworker.NewWorker(size)
	n := 12 + 8*sym.Tier()
	fl := newFloor(size, n)
	for i := 0; i < n; i++ {
		fl.submit(context.Background(), w, i, nil)
	}
	fl.settled(w)
	sym.Cover("done")
}

// P30_Full: a submission waits while all slots are taken.
// Bounds: worker of size 1 or 2 with all slots taken by blocked functions, 1 more submission, the blocked functions released one at a time in any order; every interleaving.
func P30_Full() {
	size := 1 + sym.Choose(2)
	w := xworker.NewWorker(size)
	fl := newFloor(size, size+1)
	gates := make([]chan struct{}, size)
	for i := range gates {
		i := i
		gates[i] = make(chan struct{})
		fl.submit(context.Background(), w, i, func() { <-gates[i] })
	}
	sym.Quiesce()
	submitted := false
	done := make(chan struct{})
	go func() {
		fl.submit(context.Background(), w, size, nil)
		submitted = true
		close(done)
	}()
	first := sym.Choose(size)
	sym.Quiesce()
	sym.Assert(fl.running.Count(size) == 0, "a function waits until a slot is free")
	close(gates[first])
	<-done
	sym.Assert(submitted, "a free slot is used by the next submission")
	for i := range gates {
		if i != first {
			close(gates[i])
		}
	}
	fl.settled(w)
	sym.Cover("done")
}

// P30_Ended: functions whose context has already ended.
// Bounds: worker of size 1 or 2; 1..3 submissions under an ended context, then 1 under a live one; every interleaving.
func P30_Ended() {
	size := 1 + sym.Choose(2)
	w := xworker.NewWorker(size)
	n := 1 + sym.Choose(3)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	fl := newFloor(size, n)
	for i := 0; i < n; i++ {
		fl.submit(ctx, w, i, nil)
	}
	live := newFloor(size, 1)
	live.submit(context.Background(), w, 0, nil)
	fl.wg.Wait()
	live.wg.Wait()
	sym.Quiesce()
	for i := 0; i < n; i++ {
		sym.Assert(fl.running.Count(i) == 0, "a function whose context has already ended is not started")
		sym.Assert(fl.ended.Count(i) == 1, "the completion callback runs exactly once")
	}
	sym.Assert(live.running.Count(0) == 1 && live.ended.Count(0) == 1, "every submitted function runs exactly once")
	allFree(w, size)
	sym.Assert(sym.Live() == 0, "no goroutine stays behind: "+sym.LiveDesc())
	sym.Cover("done")
}

// P30_Cancel: the context ends at any moment.
// Bounds: worker of size 1 or 2; 2 functions under a context that another goroutine cancels; at most 2 (thorough 3) preemptions.
func P30_Cancel() {
	sym.Sched("preempt", 2+sym.Tier())
	size := 1 + sym.Choose(2)
	w := xworker.NewWorker(size)
	ctx, cancel := context.WithCancel(context.Background())
	go cancel()
	fl := newFloor(size, 2)
	fl.submit(ctx, w, 0, nil)
	fl.submit(ctx, w, 1, nil)
	fl.wg.Wait()
	sym.Quiesce()
	for i := 0; i < 2; i++ {
		sym.Assert(fl.running.Count(i) <= 1, "a function runs at most once")
		sym.Assert(fl.ended.Count(i) == 1, "the completion callback runs exactly once")
	}
	allFree(w, size)
	sym.Assert(sym.Live() == 0, "no goroutine stays behind: "+sym.LiveDesc())
	sym.Cover("done")
}

// P30_CancelBlocked: the context ends while the function is blocked.
// Bounds: worker of size 1; 1 function blocked until its completion callback has run, then 1 function under a live context; every interleaving.
func P30_CancelBlocked() {
	w := xworker.NewWorker(1)
	ctx, cancel := context.WithCancel(context.Background())
	gate := make(chan struct{})
	done := 0
	w.Run(ctx, func() {
		cancel()
		<-gate
	}, func() {
		done++
		close(gate)
	})
	ran := make(chan struct{})
	w.Run(context.Background(), func() { close(ran) }, func() {})
	<-ran
	sym.Quiesce()
	sym.Assert(done == 1, "the completion callback runs exactly once")
	allFree(w, 1)
	sym.Assert(sym.Live() == 0, "no goroutine stays behind: "+sym.LiveDesc())
	sym.Cover("done")
}

// P30_Callback: a slot is taken until the completion callback is over.
// Bounds: worker of size 1 or 2 whose functions are over (having returned, called runtime.Goexit, or not been started because their context had ended) but whose callbacks are blocked; 1 more submission; the callbacks released one at a time in any order; at most 4 (thorough 6) deviations from round-robin scheduling.
func P30_Callback() {
	sym.Sched("delay", 4+2*sym.Tier())
	size := 1 + sym.Choose(2)
	w := xworker.NewWorker(size)
	gates := make([]chan struct{}, size)
	var wg sync.WaitGroup
	for i := range gates {
		i := i
		gates[i] = make(chan struct{})
		ctx, cancel := context.WithCancel(context.Background())
		kind := sym.Choose(3)
		if kind == 2 {
			cancel()
		}
		wg.Add(1)
		w.Run(ctx, func() {
			if kind == 1 {
				runtime.Goexit()
			}
		}, func() {
			<-gates[i]
			cancel()
			wg.Done()
		})
	}
	var ran int32
	wg.Add(1)
	go func() {
		w.Run(context.Background(), func() { atomic.AddInt32(&ran, 1) }, wg.Done)
	}()
	sym.Quiesce()
	sym.Assert(atomic.LoadInt32(&ran) == 0, "a slot becomes free only after the completion callback")
	first := sym.Choose(size)
	close(gates[first])
	sym.Quiesce()
	sym.Assert(atomic.LoadInt32(&ran) == 1, "a slot becomes free after the completion callback")
	if size > 1 {
		close(gates[1-first])
	}
	wg.Wait()
	sym.Quiesce()
	allFree(w, size)
	sym.Assert(sym.Live() == 0, "no goroutine stays behind: "+sym.LiveDesc())
	sym.Cover("done")
}

// P30_Exit: functions that end their goroutine.
// Bounds: worker of size 1 or 2; 1..3 functions, each of which may call runtime.Goexit; at most 2 (thorough 3) deviations from round-robin scheduling.
func P30_Exit() {
	sym.Sched("delay", 2+sym.Tier())
	size, n := 1+sym.Choose(2), 1+sym.Choose(3)
	w := xworker.NewWorker(size)
	runs, ends := make([]int32, n), make([]int32, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		exit := sym.Choose(2) == 1
		wg.Add(1)
		w.Run(context.Background(), func() {
			atomic.AddInt32(&runs[i], 1)
			if exit {
				runtime.Goexit()
			}
		}, func() {
			atomic.AddInt32(&ends[i], 1)
			wg.Done()
		})
	}
	wg.Wait()
	sym.Quiesce()
	for i := 0; i < n; i++ {
		sym.Assert(atomic.LoadInt32(&runs[i]) == 1, "every submitted function runs exactly once")
		sym.Assert(atomic.LoadInt32(&ends[i]) == 1, "the completion callback runs exactly once")
	}
	allFree(w, size)
	sym.Assert(sym.Live() == 0, "no goroutine stays behind: "+sym.LiveDesc())
	sym.Cover("done")
}

// P30_Large: large workers and many functions.
// Bounds: worker of size 17, 70, 300 or 1100 (the last under 2 of the schedules); size+1 functions that are all blocked until nothing else can move, then 2 times as many (99 for the largest) that are not; 5 schedules: without preemption, and switching to the next goroutine after every 1, 2, 3 or 7 steps of synchronisation.
func P30_Large() {
	q := sym.Choose(5)
	if q > 0 {
		sym.Sched("rotate", []int{1, 2, 3, 7}[q-1])
	} else {
		sym.Sched("delay", 0)
	}
	sizes := []int{17, 70, 300}
	if q == 0 || q == 3 {
		sizes = append(sizes, 1100)
	}
	size := sizes[sym.Choose(len(sizes))]
	w := xworker.NewWorker(size)
	gate := make(chan struct{})
	var running, most, ended int32
	n := 3 * (size + 1)
	if size > 1000 {
		n = size + 100
	}
	ran := make([]int32, n)
	var wg sync.WaitGroup
	wg.Add(n)
	all := make(chan struct{})
	go func() {
		for i := 0; i < n; i++ {
			i := i
			w.Run(context.Background(), func() {
				r := atomic.AddInt32(&running, 1)
				for m := atomic.LoadInt32(&most); r > m && !atomic.CompareAndSwapInt32(&most, m, r); m = atomic.LoadInt32(&most) {
				}
				atomic.AddInt32(&ran[i], 1)
				if i <= size {
					<-gate
				}
				atomic.AddInt32(&running, -1)
			}, func() {
				atomic.AddInt32(&ended, 1)
				wg.Done()
			})
		}
		close(all)
	}()
	sym.Quiesce()
	sym.Assert(atomic.LoadInt32(&running) == int32(size), "as many functions run at once as the worker has slots")
	close(gate)
	<-all
	wg.Wait()
	sym.Quiesce()
	sym.Assert(int(atomic.LoadInt32(&most)) <= size, "never more functions run at once than the size of the worker")
	for i := range ran {
		sym.Assert(atomic.LoadInt32(&ran[i]) == 1, "every submitted function runs exactly once")
	}
	sym.Assert(int(ended) == n, "the completion callback runs exactly once")
	allFree(w, size)
	sym.Assert(sym.Live() == 0, "no goroutine stays behind: "+sym.LiveDesc())
	sym.Cover("done")
}

// own is a context of another package's making.
type own struct {
	context.Context
	done chan struct{}
}

func (c *own) Done() <-chan struct{} { return c.done }
func (c *own) Err() error {
	select {
	case <-c.done:
		return errors.New("ended")
	default:
		return nil
	}
}

// makeCtx makes one of several kinds of contexts and the function that ends it.
func makeCtx(kind int) (context.Context, func()) {
	ctx := context.Background()
	switch kind {
	case 0:
		return context.WithCancel(ctx)
	case 1:
		c, stop := context.WithCancelCause(ctx)
		return context.WithValue(c, own{}, 1), func() { stop(nil) }
	case 2:
		c, stop := context.WithCancelCause(ctx)
		d, _ := context.WithCancel(c)
		return d, func() { stop(errors.New("cause")) }
	case 3:
		c := &own{ctx, make(chan struct{})}
		return c, func() { close(c.done) }
	case 4:
		c := &own{ctx, make(chan struct{})}
		return context.WithValue(c, own{}, 1), func() { close(c.done) }
	}
	return ctx, nil
}

// P30_Contexts: contexts of every making that end before the submission, while it waits for a slot, or not at all.
// Bounds: worker of size 1 or 2 with all slots taken by blocked functions, 1 more submission under one of 6 kinds of contexts, ended before it, while it waits, by another function's callback, or never; at most 3 (thorough 4) deviations from round-robin scheduling.
func P30_Contexts() {
	sym.Sched("delay", 3+sym.Tier())
	size := 1 + sym.Choose(2)
	kind := sym.Choose(6)
	ctx, end := makeCtx(kind)
	when := 0
	if end != nil {
		when = sym.Choose(4)
	}
	w := xworker.NewWorker(size)
	gate := make(chan struct{})
	var wg sync.WaitGroup
	var late int32
	if when == 1 {
		end()
	}
	for i := 0; i < size; i++ {
		i := i
		wg.Add(1)
		w.Run(context.Background(), func() { <-gate }, func() {
			if when == 2 && i == 0 {
				end()
			}
			wg.Done()
		})
	}
	var ran, called int32
	wg.Add(1)
	go w.Run(ctx, func() { atomic.AddInt32(&ran, 1) }, func() {
		atomic.AddInt32(&late, atomic.LoadInt32(&ran))
		atomic.AddInt32(&called, 1)
		wg.Done()
	})
	sym.Quiesce()
	sym.Assert(atomic.LoadInt32(&ran) == 0, "never more functions run at once than the size of the worker")
	if when == 3 {
		end()
		sym.Quiesce()
		sym.Assert(atomic.LoadInt32(&ran) == 0, "a function whose context has already ended is not started")
	}
	close(gate)
	wg.Wait()
	sym.Quiesce()
	sym.Assert(called == 1, "the completion callback runs exactly once")
	switch {
	case when == 0:
		sym.Assert(ran == 1 && late == 1, "every submitted function runs exactly once")
	case when == 2 && size == 2:
		sym.Assert(ran <= 1, "every submitted function runs exactly once")
	default:
		sym.Cover("not started")
		sym.Assert(ran == 0, "a function whose context has already ended is not started")
	}
	if end != nil && when == 0 {
		end()
	}
	allFree(w, size)
	sym.Assert(sym.Live() == 0, "no goroutine stays behind: "+sym.LiveDesc())
	sym.Cover("done")
}
