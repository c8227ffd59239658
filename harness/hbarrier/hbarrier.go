// Package hbarrier states what the read and write barriers must do.
package hbarrier

import (
	"context"
	"io"
	"sync"

	"github.com/chenquan/go-pkg/internal/zzverif/lin"
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xbarrier"
)

func value(kind int) interface{} {
	switch kind {
	case 0:
		return sym.Int()
	case 1:
		return string([]byte{sym.Uint8()})
	}
	return nil
}

// contents empties a channel without blocking.
func contents(c chan interface{}) (vs []interface{}) {
	for {
		select {
		case v, ok := <-c:
			if !ok {
				return
			}
			vs = append(vs, v)
		default:
			return
		}
	}
}

func quiet() {
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "no goroutine stays behind: "+sym.LiveDesc())
}

// P31_Sequential: writes and reads one after the other.
// Bounds: a channel of capacity 1..3; 5 (thorough 7) operations among write (any int, a one-byte text or nil), read, and cancel, issued where they do not block.
func P31_Sequential() {
	n := 1 + sym.Choose(3)
	c := make(chan interface{}, n)
	ctx, cancel := context.WithCancel(context.Background())
	var r xbarrier.Reader = xbarrier.NewReadBarrier(ctx, c)
	var w xbarrier.Writer = xbarrier.NewWriteBarrier(ctx, c)
	var q []interface{}
	ended := false
	for i := 0; i < 5+2*sym.Tier(); i++ {
		switch op := sym.Choose(5); op {
		case 0, 1, 2:
			if !ended && len(q) == n {
				continue
			}
			v := value(op)
			ok := w.Write(v)
			sym.Assert(ok == !ended, "a write reports success exactly when its value was handed over")
			if ok {
				q = append(q, v)
			}
		case 3:
			if !ended && len(q) == 0 {
				continue
			}
			v, ok := r.Read()
			if ended {
				sym.Cover("read after end")
				sym.Assert(!ok && v == nil, "reads fail once the context has ended")
			} else {
				sym.Assert(ok && v == q[0], "a read returns the value received from the channel")
				q = q[1:]
			}
		case 4:
			cancel()
			ended = true
		}
		sym.Assert(len(c) == len(q), "reads and writes touch the channel exactly when they succeed")
	}
	got := contents(c)
	for i := range q {
		sym.Assert(got[i] == q[i], "the channel holds the written values in order")
	}
	cancel()
}

// P31_ClosedChannel: reading from a closed channel.
// Bounds: 0..2 values (any int or nil) left in the closed channel, the context alive or ended; 4 reads.
func P31_ClosedChannel() {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	n := sym.Choose(3)
	c := make(chan interface{}, 2)
	var vs []interface{}
	for i := 0; i < n; i++ {
		vs = append(vs, value(2*sym.Choose(2)))
		c <- vs[i]
	}
	close(c)
	r := xbarrier.NewReadBarrier(ctx, c)
	if sym.Choose(2) == 0 {
		cancel()
		v, ok := r.Read()
		sym.Assert(!ok && v == nil && len(c) == n, "once the context has ended reads fail without touching the channel")
		sym.Cover("ended")
		return
	}
	sym.Cover("alive")
	for i := 0; i < 4; i++ {
		v, ok := r.Read()
		if i < n {
			sym.Assert(ok && v == vs[i], "a read returns the value received from the channel")
		} else {
			sym.Assert(!ok && v == nil, "a read of a closed channel fails")
		}
	}
}

// P31_EndedClosed: writing to a closed channel after the end.
// Bounds: capacity 0 or 1, the channel closed, the context ended by cancellation or deadline.
func P31_EndedClosed() {
	c := make(chan interface{}, sym.Choose(2))
	close(c)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if sym.Choose(2) == 0 {
		cancel()
	} else {
		var c2 func()
		ctx, c2 = context.WithTimeout(ctx, -1)
		defer c2()
	}
	sym.Assert(!xbarrier.NewWriteBarrier(ctx, c).Write(1), "once the context has ended writes fail without touching the channel")
	sym.Cover("done")
}

// P31_NilOrFull: operations that can never happen are released by the end of the context.
// Bounds: read of an empty channel, write to a full or unbuffered channel nobody reads, or either on a nil channel; the context cancelled by another goroutine; every interleaving.
func P31_NilOrFull() {
	ctx, cancel := context.WithCancel(context.Background())
	go cancel()
	var c chan interface{}
	switch sym.Choose(3) {
	case 0:
		c = make(chan interface{})
	case 1:
		c = make(chan interface{}, 1)
	}
	if sym.Choose(2) == 0 {
		sym.Cover("read")
		v, ok := xbarrier.NewReadBarrier(ctx, c).Read()
		sym.Assert(!ok && v == nil, "a blocked read returns with failure when the context ends")
	} else {
		sym.Cover("write")
		if cap(c) == 1 {
			c <- 1
		}
		sym.Assert(!xbarrier.NewWriteBarrier(ctx, c).Write(2), "a blocked write returns with failure when the context ends")
		if cap(c) == 1 {
			sym.Assert(len(c) == 1 && <-c == 1, "a failed write does not touch the channel")
		}
	}
	quiet()
}

// P31_CancelRace: writers and readers while the context ends.
// Bounds: capacity 0 or 1; 1 writer with 2 writes (of a number and of the very error of the context), 1 reader with 2 reads, 1 canceller; every interleaving.
func P31_CancelRace() {
	c := make(chan interface{}, sym.Choose(2))
	ctx, cancel := context.WithCancel(context.Background())
	w := xbarrier.NewWriteBarrier(ctx, c)
	r := xbarrier.NewReadBarrier(ctx, c)
	var sent, got []interface{}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		failed := false
		for i := 1; i <= 2; i++ {
			var v interface{} = i
			if i == 2 {
				v = context.Canceled
			}
			if w.Write(v) {
				sym.Assert(!failed, "after a failed write later writes fail")
				sent = append(sent, v)
			} else {
				failed = true
			}
		}
	}()
	go func() {
		defer wg.Done()
		failed := false
		for i := 0; i < 2; i++ {
			v, ok := r.Read()
			sym.Assert(ok || v == nil, "a failed read returns no value")
			if ok {
				sym.Assert(!failed, "after a failed read later reads fail")
				got = append(got, v)
			} else {
				failed = true
			}
		}
	}()
	cancel()
	wg.Wait()
	got = append(got, contents(c)...)
	sym.Assert(len(got) == len(sent), "exactly the values of successful writes are delivered")
	for i := range got {
		sym.Assert(got[i] == sent[i], "exactly the values of successful writes are delivered, in order")
	}
	if len(sent) == 2 {
		sym.Cover("all sent")
	} else if len(sent) == 0 {
		sym.Cover("none sent")
	}
	quiet()
}

// P31_Alive: without an end everything is transferred.
// Bounds: capacity 0..2; 2 writers with 1 (thorough 2 and 1) writes, 1 reader that reads them all; every interleaving.
func P31_Alive() {
	c := make(chan interface{}, sym.Choose(3))
	ctx, cancel := context.WithCancel(context.Background())
	w := xbarrier.NewWriteBarrier(ctx, c)
	r := xbarrier.NewReadBarrier(ctx, c)
	go func() {
		for i := 0; i < 1+sym.Tier(); i++ {
			sym.Assert(w.Write(10+i), "a write succeeds while the context is alive")
		}
	}()
	go func() { sym.Assert(w.Write(20), "a write succeeds while the context is alive") }()
	next, seen := 10, 0
	for i := 0; i < 2+sym.Tier(); i++ {
		v, ok := r.Read()
		sym.Assert(ok, "a read succeeds while the context is alive")
		if v == 20 {
			seen++
		} else {
			sym.Assert(v == next, "every value is delivered once and in order")
			next++
		}
	}
	sym.Assert(seen == 1, "every value is delivered once and in order")
	quiet()
	cancel()
	sym.Assert(!w.Write(1), "writes fail once the context has ended")
	sym.Cover("done")
}

// P31_CloseWhileReading: the channel is closed while a read is blocked.
// Bounds: 1 reader, 1 goroutine that writes 0 or 1 value and closes; every interleaving.
func P31_CloseWhileReading() {
	c := make(chan interface{})
	n := sym.Choose(2)
	go func() {
		for i := 0; i < n; i++ {
			c <- 7
		}
		close(c)
	}()
	r := xbarrier.NewReadBarrier(context.Background(), c)
	v, ok := r.Read()
	if n == 1 {
		sym.Assert(ok && v == 7, "a read returns the value received from the channel")
		v, ok = r.Read()
	}
	sym.Assert(!ok && v == nil, "a read of a closed channel fails")
	sym.Cover("done")
}

// act is one recorded barrier operation.
type act struct {
	write     bool
	v         int
	got       interface{}
	ok        bool
	call, ret int
}

// queue is what a channel of capacity n and its context look like between operations.
type queue struct {
	n, len int
	vs     [4]int
	ended  bool
}

func (a *act) on(st interface{}) (interface{}, bool) {
	q := st.(queue)
	switch {
	case !a.ok:
		return q, q.ended && a.got == nil
	case q.ended:
		return q, false
	case a.write:
		if q.len == q.n {
			return q, false
		}
		q.vs[q.len] = a.v
		q.len++
		return q, true
	}
	if q.len == 0 {
		return q, false
	}
	first := q.vs[0]
	copy(q.vs[:], q.vs[1:])
	q.len--
	q.vs[q.len] = 0
	return q, a.got.(int) == first
}

// history runs one goroutine per plan (true = write) over a channel of
// capacity n while the context ends, and decides the recorded history.
func history(n int, plans [][]bool) {
	c := make(chan interface{}, n)
	ctx, cancel := context.WithCancel(context.Background())
	w := xbarrier.NewWriteBarrier(ctx, c)
	r := xbarrier.NewReadBarrier(ctx, c)
	acts := make([][]act, len(plans))
	var wg sync.WaitGroup
	for i, p := range plans {
		acts[i] = make([]act, len(p))
		for j := range p {
			acts[i][j] = act{write: p[j]}
			if p[j] {
				acts[i][j].v = sym.Int()
			}
		}
		mine := acts[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range mine {
				a := &mine[j]
				a.call = sym.Call()
				if a.write {
					a.ok = w.Write(a.v)
				} else {
					a.got, a.ok = r.Read()
				}
				a.ret = sym.Ret()
			}
		}()
	}
	end := lin.Op{F: func(st interface{}) (interface{}, bool) {
		q := st.(queue)
		q.ended = true
		return q, true
	}}
	end.Call = sym.Call()
	cancel()
	end.Ret = sym.Ret()
	wg.Wait()
	ops := []lin.Op{end}
	moved := 0
	for i := range acts {
		for j := range acts[i] {
			a := &acts[i][j]
			if a.ok {
				moved++
			}
			ops = append(ops, lin.Op{Call: a.call, Ret: a.ret, F: a.on})
		}
	}
	room := n
	if n == 0 {
		// a value is handed over while both sides are waiting
		room = 1
		for i := range acts {
			for j := range acts[i] {
				a := &acts[i][j]
				if !a.ok || !a.write {
					continue
				}
				met := false
				for k := range acts {
					for l := range acts[k] {
						b := &acts[k][l]
						if b.ok && !b.write {
							met = sym.Or(met, sym.And(b.got.(int) == a.v, sym.And(!sym.Before(a.ret, b.call), !sym.Before(b.ret, a.call))))
						}
					}
				}
				sym.Assert(met, "a write reports success exactly when its value was handed over")
			}
		}
	}
	left := contents(c)
	sym.Assert(lin.Check(queue{n: room}, ops, func(st interface{}) bool {
		q := st.(queue)
		if q.len != len(left) {
			return false
		}
		all := true
		for i := range left {
			all = sym.And(all, left[i].(int) == q.vs[i])
		}
		return all
	}), "the barriers are a queue that refuses everything once the context has ended")
	if moved == 0 {
		sym.Cover("nothing moved")
	} else if moved > 2 {
		sym.Cover("much moved")
	}
	quiet()
}

// P31_Histories: writers and readers while the context ends, against a bounded queue.
// Bounds: capacity 0..2; 2 goroutines with 2 operations each, any mix of writes (any ints) and reads, and a canceller; every interleaving.
func P31_Histories() {
	sym.DecideOrders()
	a, b := sym.Choose(4), sym.Choose(4)
	sym.Assume(a <= b)
	history(sym.Choose(3), [][]bool{{a&1 == 0, a&2 == 0}, {b&1 == 0, b&2 == 0}})
}

// P31_ThreeSides: as P31_Histories with three goroutines.
// Bounds: capacity 0..1 (thorough 0..2); 3 goroutines with 1 operation each (thorough 2, 1 and 1), any mix of writes (any ints) and reads, and a canceller; every interleaving.
func P31_ThreeSides() {
	sym.DecideOrders()
	first := []bool{sym.Choose(2) == 0}
	if sym.Tier() > 0 {
		first = append(first, sym.Choose(2) == 0)
	}
	a, b := sym.Choose(2), sym.Choose(2)
	sym.Assume(a <= b)
	history(sym.Choose(2+sym.Tier()), [][]bool{first, {a == 0}, {b == 0}})
}

// P31_Many: many values.
// Bounds: capacity 0, 1, 70 or 300; 2 writers with 350 values each (any offset), 2 readers; without an end, or cancelled after 100 or 400 reads; schedules that switch to the next goroutine after every q steps of synchronisation, q = 1..6.
func P31_Many() {
	sym.Sched("rotate", 1+sym.Choose(6))
	c := make(chan interface{}, []int{0, 1, 70, 300}[sym.Choose(4)])
	ctx, cancel := context.WithCancel(context.Background())
	w := xbarrier.NewWriteBarrier(ctx, c)
	base := sym.Int()
	stop := []int{-1, 100, 400}[sym.Choose(3)]
	var mu sync.Mutex
	sent, got := make([]int, 700), make([]int, 700)
	total, over := 0, false
	var writers, readers sync.WaitGroup
	for g := 0; g < 2; g++ {
		g := g
		writers.Add(1)
		go func() {
			defer writers.Done()
			for i := 0; i < 350; i++ {
				ok := w.Write(base + 350*g + i)
				mu.Lock()
				if ok {
					sent[350*g+i]++
				} else {
					sym.Assert(stop >= 0 && total >= stop, "a write succeeds while the context is alive")
				}
				mu.Unlock()
			}
		}()
	}
	for g := 0; g < 2; g++ {
		readers.Add(1)
		go func() {
			defer readers.Done()
			r := xbarrier.NewReadBarrier(ctx, c)
			next := [2]int{-1, -1}
			for {
				v, ok := r.Read()
				mu.Lock()
				if !ok {
					sym.Assert(stop < 0 && over || stop >= 0 && total >= stop, "a read succeeds while the context is alive")
					mu.Unlock()
					return
				}
				i := sym.Concrete(v.(int) - base)
				sym.Assert(i >= 0 && i < 700 && i > next[i/350], "every value is delivered once and in order")
				next[i/350] = i
				got[i]++
				if total++; total == stop {
					cancel()
				}
				mu.Unlock()
			}
		}()
	}
	writers.Wait()
	if stop < 0 {
		mu.Lock()
		over = true
		mu.Unlock()
		close(c)
	}
	readers.Wait()
	for _, v := range contents(c) {
		got[sym.Concrete(v.(int)-base)]++
	}
	for i := range got {
		sym.Assert(got[i] == sent[i], "a value arrives exactly if its write succeeded, once")
		sym.Assert(stop >= 0 || got[i] == 1, "without an end every value arrives")
	}
	cancel()
	sym.Cover("done")
	quiet()
}

// own is a context of another package's making.
type own struct {
	context.Context
	done chan struct{}
	err  error
}

func (c *own) Done() <-chan struct{} { return c.done }
func (c *own) Err() error {
	select {
	case <-c.done:
		return c.err
	default:
		return nil
	}
}

// P31_Odd: values of any kind under contexts of any kind.
// Bounds: 1 or 2 values, each any of 20 (nil, typed nils, zero values, errors, functions, lists, values that cannot be compared), written and read one after the other, through a buffered or unbuffered channel; contexts that are cancelled with or without a cause, past their deadline, of another package's making or derived from such, ended after that; every interleaving.
func P31_Odd() {
	ctx := context.Background()
	var cancel func()
	switch sym.Choose(5) {
	case 0:
		ctx, cancel = context.WithCancel(ctx)
	case 1:
		c, stop := context.WithCancelCause(ctx)
		ctx, cancel = c, func() { stop(io.EOF) }
	case 2:
		c := &own{ctx, make(chan struct{}), io.ErrClosedPipe}
		ctx, cancel = c, func() { close(c.done) }
	case 3:
		c := &own{ctx, make(chan struct{}), io.ErrClosedPipe}
		ctx, cancel = context.WithValue(c, "k", 1), func() { close(c.done) }
	case 4:
		c, stop := context.WithCancel(ctx)
		ctx, cancel = context.WithValue(c, "k", 1), stop
	}
	n := 1 + sym.Choose(2)
	c := make(chan interface{}, sym.Choose(2))
	w, r := xbarrier.NewWriteBarrier(ctx, c), xbarrier.NewReadBarrier(ctx, c)
	var vs []interface{}
	for i := 0; i < n; i++ {
		vs = append(vs, lin.Odd(sym.Choose(lin.Odds)))
	}
	go func() {
		for _, v := range vs {
			sym.Assert(w.Write(v), "a write succeeds while the context is alive")
		}
	}()
	for _, x := range vs {
		v, ok := r.Read()
		sym.Assert(ok && lin.Same(v, x), "a read returns the value received from the channel")
	}
	sym.Quiesce()
	cancel()
	sym.Assert(!w.Write(vs[0]), "writes fail once the context has ended")
	v, ok := r.Read()
	sym.Assert(!ok && v == nil, "reads fail once the context has ended")
	sym.Assert(len(c) == 0, "once the context has ended writes fail without touching the channel")
	quiet()
	sym.Cover("done")
}
