// Package htask states what running a function under a context, and with
// retries, must do.
package htask

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/chenquan/go-pkg/internal/zzverif/lin"
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xerror"
	"github.com/chenquan/go-pkg/xtask"
)

var errTask = errors.New("task failed")

type ctxKey struct{}

// outcome makes the function do one of: succeed, fail, panic with a text, an error or a number, crash.
func outcome(k int) error {
	switch k {
	case 1:
		return errTask
	case 2:
		panic("boom-text")
	case 3:
		panic(errTask)
	case 4:
		panic(12345)
	case 5:
		var none []int
		return error(listErr([]string{"x"}[none[len(none)]:]))
	}
	return nil
}

// checkOutcome compares what the caller saw with what the function did.
func checkOutcome(k int, err error, v interface{}, panicked bool) {
	switch k {
	case 0:
		sym.Assert(!panicked && err == nil, "a function that succeeds gives no error")
	case 1:
		sym.Assert(!panicked && err == errTask, "the function's own error is returned")
	case 2:
		sym.Assert(panicked && strings.Contains(fmt.Sprint(v), "boom-text"), "a panic of the function is re-raised in the caller")
	case 3:
		sym.Assert(panicked && strings.Contains(fmt.Sprint(v), "task failed"), "a panic of the function is re-raised in the caller")
	case 4:
		sym.Assert(panicked && strings.Contains(fmt.Sprint(v), "12345"), "a panic of the function is re-raised in the caller")
	case 5:
		sym.Assert(panicked && strings.Contains(fmt.Sprint(v), "index out of range"), "a panic of the function is re-raised in the caller")
	}
}

// run calls one of the entry points, with or without a cleanup function.
func run(ctx context.Context, form int, f func() error, cleanups *int) (err error, v interface{}, panicked bool) {
	v, panicked = sym.Catch(func() {
		switch form {
		case 0:
			err = xtask.Do(ctx, f, func() { *cleanups++ })
		case 1:
			err = xtask.Do(ctx, f, nil)
			*cleanups++
		case 2:
			err = xtask.DoWithoutDefer(ctx, f)
			*cleanups++
		}
	})
	if panicked && form > 0 {
		*cleanups++
	}
	sym.Assert(*cleanups == 1, "the cleanup function runs exactly once before the call returns or panics")
	return
}

func quiet() {
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "no goroutine of the runner stays behind: "+sym.LiveDesc())
}

// P28_Alive: the context stays alive.
// Bounds: 4 contexts that stay alive, a function that succeeds, fails or panics (with a text, an error, a number, or by an index out of range) at once or after giving way, with and without cleanup; every interleaving.
func P28_Alive() {
	ctx := context.Background()
	cancel := func() {}
	switch sym.Choose(4) {
	case 1:
		ctx, cancel = context.WithCancel(ctx)
	case 2:
		var c1 func()
		ctx, c1 = context.WithCancel(context.WithValue(ctx, ctxKey{}, 1))
		ctx, cancel = context.WithCancel(ctx)
		defer c1()
	case 3:
		ctx = context.WithValue(ctx, ctxKey{}, 1)
	}
	form, k, slow := sym.Choose(3), sym.Choose(6), sym.Choose(2) == 0
	calls, cleanups, seen := 0, 0, -1
	err, v, panicked := run(ctx, form, func() error {
		calls++
		seen = cleanups
		if slow {
			sym.Yield()
		}
		return outcome(k)
	}, &cleanups)
	checkOutcome(k, err, v, panicked)
	sym.Assert(calls == 1, "the function runs exactly once")
	sym.Assert(seen == 0, "the cleanup runs after the function")
	cancel()
	quiet()
	sym.Cover("done")
}

// P28_Ended: the context has already ended.
// Bounds: 4 kinds of ended contexts (cancelled, deadline passed, child of a cancelled one, cancelled child), with and without cleanup; every interleaving.
func P28_Ended() {
	ctx, cancel := context.WithCancel(context.Background())
	want := context.Canceled
	switch sym.Choose(4) {
	case 0:
		cancel()
	case 1:
		var c2 func()
		ctx, c2 = context.WithTimeout(ctx, -1)
		defer c2()
		want = context.DeadlineExceeded
	case 2:
		cancel()
		var c2 func()
		ctx, c2 = context.WithCancel(context.WithValue(ctx, ctxKey{}, 1))
		defer c2()
	case 3:
		var c2 func()
		ctx, c2 = context.WithCancel(ctx)
		c2()
	}
	calls, cleanups := 0, 0
	err, _, panicked := run(ctx, sym.Choose(3), func() error { calls++; return nil }, &cleanups)
	sym.Assert(!panicked && err == want, "an ended context gives the context's error")
	quiet()
	sym.Assert(calls == 0, "a function is not started when the context has already ended")
	cancel()
	sym.Cover("done")
}

// P28_Exit: a function that panics with nil or ends its goroutine.
// Bounds: a function that calls panic(nil) or runtime.Goexit, at once or after giving way; a context that stays alive, or that another goroutine cancels; with and without cleanup; every interleaving.
func P28_Exit() {
	ctx, cancel := context.Background(), func() {}
	ends := sym.Choose(2) == 1
	if ends {
		ctx, cancel = context.WithCancel(ctx)
	}
	exit, slow, form := sym.Choose(2) == 1, sym.Choose(2) == 1, sym.Choose(2)
	var cleanup func()
	calls, cleanups := 0, 0
	if form == 0 {
		cleanup = func() { cleanups++ }
	}
	var err error
	panicked, returned := false, false
	done := make(chan struct{})
	go func() {
		defer close(done)
		_, panicked = sym.Catch(func() {
			err = xtask.Do(ctx, func() error {
				calls++
				if slow {
					sym.Yield()
				}
				if exit {
					runtime.Goexit()
				}
				panic(nil)
			}, cleanup)
			returned = true
		})
	}()
	if ends {
		cancel()
	}
	<-done
	sym.Assert(cleanup == nil || cleanups == 1, "the cleanup function runs exactly once before the call returns or panics")
	cancelled := returned && ends && err == context.Canceled
	if cancelled {
		sym.Cover("cancelled")
	} else if exit {
		sym.Cover("exit")
		sym.Assert(!returned || err != nil, "a function that did not return is not reported as a success")
	} else {
		sym.Cover("nil panic")
		sym.Assert(panicked, "a panic of the function is re-raised in the caller")
	}
	quiet()
	sym.Assert(calls == 1 || cancelled && calls == 0, "the function runs once, not at all if the context has already ended")
}

// P28_Blocked: the context ends while the function is blocked.
// Bounds: a function that is blocked until after the call has returned and then succeeds, fails or panics; the context cancelled by another goroutine or by the function itself; with and without cleanup; every interleaving.
func P28_Blocked() {
	ctx, cancel := context.WithCancel(context.Background())
	form, k, self := sym.Choose(3), sym.Choose(4), sym.Choose(2) == 0
	gate := make(chan struct{})
	calls, cleanups := 0, 0
	if !self {
		go cancel()
	}
	err, _, panicked := run(ctx, form, func() error {
		calls++
		if self {
			cancel()
		}
		<-gate
		return outcome(k)
	}, &cleanups)
	sym.Assert(!panicked && err == context.Canceled, "the context's error is returned as soon as the context ends")
	close(gate)
	quiet()
	sym.Assert(calls <= 1, "the function runs at most once")
	if calls == 1 {
		sym.Cover("started")
	} else {
		sym.Cover("not started")
	}
	sym.Assert(cleanups == 1, "the cleanup function runs exactly once")
}

// P28_Race: the context ends while the function finishes.
// Bounds: a function that succeeds, fails or panics while another goroutine cancels; with and without cleanup; every interleaving.
func P28_Race() {
	ctx, cancel := context.WithCancel(context.Background())
	form, k := sym.Choose(3), sym.Choose(4)
	calls, cleanups := 0, 0
	go cancel()
	err, v, panicked := run(ctx, form, func() error {
		calls++
		return outcome(k)
	}, &cleanups)
	if !panicked && err == context.Canceled {
		sym.Cover("cancelled")
		sym.Assert(ctx.Err() != nil, "the context's error is returned only when the context has ended")
	} else {
		sym.Cover("finished")
		sym.Assert(calls == 1, "the function runs exactly once")
		checkOutcome(k, err, v, panicked)
	}
	quiet()
	sym.Assert(calls <= 1 && cleanups == 1, "the function runs at most once and the cleanup exactly once")
}

// P28_Timeout: running under a timeout.
// Bounds: any timeout; a function that finishes (succeeding, failing or panicking) or is blocked until the call has returned; a positive timeout expires at any point or, if the function finishes, never; every interleaving.
func P28_Timeout() {
	d := time.Duration(sym.Int64())
	k, blocked, withCleanup := sym.Choose(4), sym.Choose(2) == 0, sym.Choose(2) == 0
	if !sym.Symbolic() {
		// real time: only tell short from long
		if d > 0 && blocked {
			d = 20 * time.Millisecond
		} else if d > 0 {
			d = time.Minute
		}
	}
	gate := make(chan struct{})
	if !blocked {
		close(gate)
	}
	calls, cleanups := 0, 0
	var cleanup func()
	if withCleanup {
		cleanup = func() { cleanups++ }
	}
	var err error
	v, panicked := sym.Catch(func() {
		err = xtask.DoWithTimeout(d, func() error {
			calls++
			<-gate
			return outcome(k)
		}, cleanup)
	})
	sym.Assert(!withCleanup || cleanups == 1, "the cleanup function runs exactly once before the call returns or panics")
	if d <= 0 {
		sym.Cover("no time")
		sym.Assert(!panicked && err == context.DeadlineExceeded, "without any time the deadline error is returned")
	} else if blocked {
		sym.Cover("timed out")
		sym.Assert(!panicked && err == context.DeadlineExceeded, "the deadline error is returned as soon as the time is over")
	} else if panicked || err != context.DeadlineExceeded {
		sym.Cover("finished")
		sym.Assert(calls == 1, "the function runs exactly once")
		checkOutcome(k, err, v, panicked)
	}
	if blocked {
		close(gate)
	}
	quiet()
	sym.Assert(calls <= 1 && (d > 0 || calls == 0), "the function runs at most once, and not without any time")
	sym.Assert(!withCleanup || cleanups == 1, "the cleanup function runs exactly once")
}

// P28_Concurrent: two runs do not influence each other.
// Bounds: 2 goroutines with 1 call each under one context; outcomes any; the context stays alive; every interleaving.
func P28_Concurrent() {
	ctx, cancel := context.WithCancel(context.Background())
	k1, k2 := sym.Choose(4), sym.Choose(4)
	done := make(chan struct{})
	go func() {
		n := 0
		err, v, p := run(ctx, 0, func() error { return outcome(k1) }, &n)
		checkOutcome(k1, err, v, p)
		close(done)
	}()
	n := 0
	err, v, p := run(ctx, 0, func() error { return outcome(k2) }, &n)
	checkOutcome(k2, err, v, p)
	<-done
	cancel()
	quiet()
	sym.Cover("done")
}

const (
	tasks    = lin.Calls(1)
	cleaning = lin.Calls(2)
)

// P28_Moments: when things happen.
// Bounds: 2 goroutines with 1 call each (and, thorough, another one after that) under one context that another goroutine cancels or nobody; functions that succeed, fail or panic; with and without cleanup; every interleaving.
func P28_Moments() {
	sym.DecideOrders()
	ctx, cancel := context.WithCancel(context.Background())
	ends := sym.Choose(2) == 0
	n := 2 + sym.Tier()
	type one struct {
		kind      int
		err       error
		panicked  bool
		call, ret int
	}
	runs := make([]one, n)
	form := sym.Choose(2)
	for i := range runs {
		runs[i].kind = sym.Choose(3)
	}
	do := func(i int) {
		me := &runs[i]
		me.call = sym.Call()
		var cleanup func()
		if form == 0 {
			cleanup = func() { cleaning.Run(i, func() {}) }
		}
		_, me.panicked = sym.Catch(func() {
			me.err = xtask.Do(ctx, func() error {
				h := tasks.Enter(i)
				defer tasks.Leave(h)
				return outcome(me.kind)
			}, cleanup)
		})
		me.ret = sym.Ret()
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		do(1)
	}()
	var ccall, cret int
	if ends {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ccall = sym.Call()
			cancel()
			cret = sym.Ret()
		}()
	}
	do(0)
	if n > 2 {
		do(2)
	}
	wg.Wait()
	quiet()
	for i := range runs {
		me := &runs[i]
		sym.Assert(tasks.Count(i) <= 1, "the function runs at most once")
		cancelled := !me.panicked && me.err == context.Canceled
		if cancelled {
			sym.Cover("cancelled")
			sym.Assert(ends && !sym.Before(me.ret, ccall), "the context's error is returned only when the context has ended")
		} else {
			sym.Cover("finished")
			sym.Assert(tasks.Count(i) == 1 && me.panicked == (me.kind == 2) && (me.panicked || (me.err == errTask) == (me.kind == 1)),
				"the outcome of the function is returned")
		}
		if form == 0 {
			sym.Assert(cleaning.Count(i) == 1, "the cleanup function runs exactly once")
		}
	}
	for k := 0; k < sym.Spans(int(tasks)); k++ {
		me := &runs[sym.SpanItem(int(tasks), k)]
		sym.Assert(sym.Before(me.call, sym.SpanCall(int(tasks), k)), "the function runs only after the call")
		if ends {
			sym.Assert(!sym.Before(cret, me.call), "a function is not started when the context has already ended")
		}
		if me.panicked || me.err != context.Canceled {
			sym.Assert(sym.Before(sym.SpanRet(int(tasks), k), me.ret), "the call returns after the function whose outcome it returns")
		}
	}
	for k := 0; k < sym.Spans(int(cleaning)); k++ {
		i := sym.SpanItem(int(cleaning), k)
		me := &runs[i]
		sym.Assert(sym.And(sym.Before(me.call, sym.SpanCall(int(cleaning), k)), sym.Before(sym.SpanRet(int(cleaning), k), me.ret)),
			"the cleanup function has run when the call returns or panics")
		for j := 0; j < sym.Spans(int(tasks)); j++ {
			if sym.SpanItem(int(tasks), j) == i && (me.panicked || me.err != context.Canceled) {
				sym.Assert(sym.Before(sym.SpanRet(int(tasks), j), sym.SpanCall(int(cleaning), k)), "the cleanup runs after the function")
			}
		}
	}
}

// ---- retry ---------------------------------------------------------------------

type callErr struct{ n int }

func (e *callErr) Error() string { return string([]byte{'<', byte('A' + e.n), '>'}) }

// listErr is not comparable.
type listErr []string

func (e listErr) Error() string { return e[0] }

// retried runs a function that succeeds at call `at` (never if negative), allowing max retries.
func retried(at, max int, opts ...xtask.RetryOption) {
	calls := 0
	var errs []error
	err := xtask.DoWithRetry(func() error {
		n := calls
		calls++
		sym.Assert(n <= max, "the function is not called more often than the retries allow")
		sym.Assert(at < 0 || n <= at, "the function is not called again after a success")
		if n == at {
			return nil
		}
		e := &callErr{n}
		errs = append(errs, e)
		return e
	}, opts...)
	if at >= 0 && at <= max {
		sym.Assert(calls == at+1 && err == nil, "the function is called until its first success, and then no error is reported")
		return
	}
	sym.Assert(calls == max+1, "the function is called once and again for every retry")
	sym.Assert(err != nil, "failure of every call is reported")
	if len(errs) == 1 {
		sym.Assert(strings.Contains(err.Error(), errs[0].Error()), "the error of the only call is reported")
		return
	}
	text, last := err.Error(), -1
	for _, e := range errs {
		i := strings.Index(text, e.Error())
		sym.Assert(i > last && strings.Count(text, e.Error()) == 1, "the error of every call is reported, in order")
		last = i
	}
}

// P29_Retry: any number of retries and first success.
// Bounds: 0..6 (thorough 0..20) retries or the default; first success at any call or never.
func P29_Retry() {
	most := 7
	if sym.Tier() == 1 {
		most = 21
	}
	n := sym.Choose(most + 1)
	at := sym.Choose(most+2) - 1
	if n == most {
		sym.Cover("default")
		retried(at, 3)
		return
	}
	retried(at, n, xtask.WithRetry(n))
}

// P29_Negative: a negative number of retries.
// Bounds: every negative int; first success at the first call or never.
func P29_Negative() {
	n := sym.Int()
	sym.Assume(n < 0)
	retried(-sym.Choose(2), 0, xtask.WithRetry(n))
}

// P29_Errors: functions that fail in the same or in special ways.
// Bounds: 0..3 retries; every call fails with one of: a new error with the same message, the very same error, context.Canceled, io.EOF, an error that is not comparable, an error with an empty message, an error made of 2 others.
func P29_Errors() {
	same := &callErr{0}
	var be xerror.BatchError
	be.Add(same)
	be.Add(io.EOF)
	max := sym.Choose(4)
	var errs []error
	err := xtask.DoWithRetry(func() error {
		e := []error{&callErr{0}, same, context.Canceled, io.EOF, listErr{"[l]"}, listErr{""}, be.Err()}[sym.Choose(7)]
		errs = append(errs, e)
		return e
	}, xtask.WithRetry(max))
	sym.Assert(len(errs) == max+1, "the function is called once and again for every retry")
	sym.Assert(err != nil, "failure of every call is reported")
	rest := err.Error()
	for _, e := range errs {
		i := strings.Index(rest, e.Error())
		sym.Assert(i >= 0, "the error of every call is reported, in order")
		rest = rest[i+len(e.Error()):]
	}
	sym.Cover("done")
}

// P29_LastOption: options given more than once, and separate calls.
// Bounds: two options with 0..3 retries each, then a call without options; first success never.
func P29_LastOption() {
	a, b := sym.Choose(4), sym.Choose(4)
	retried(-1, b, xtask.WithRetry(a), xtask.WithRetry(b))
	retried(-1, 3)
}

// P29_Huge: a large number of retries with an early success.
// Bounds: every int of at least 4 as the number of retries; first success at call 1..4.
func P29_Huge() {
	n := sym.Int()
	sym.Assume(n >= 4)
	retried(sym.Choose(4), 3, xtask.WithRetry(n))
}

// numErr is the error of one of many calls.
type numErr struct{ n int }

func (e *numErr) Error() string {
	b := []byte("<0000>")
	for i, n := 4, e.n; n > 0; i, n = i-1, n/10 {
		b[i] += byte(n % 10)
	}
	return string(b)
}

// P29_Many: many retries.
// Bounds: 70, 300 or 1100 (thorough also 5000) retries; first success at call 1, 65, the last one or never.
func P29_Many() {
	sym.Sched("delay", 0)
	counts := []int{70, 300, 1100, 5000}
	max := counts[sym.Choose(3+sym.Tier())]
	at := []int{-1, 0, 64, max}[sym.Choose(4)]
	calls := 0
	err := xtask.DoWithRetry(func() error {
		i := calls
		calls++
		if i == at {
			return nil
		}
		return &numErr{i}
	}, xtask.WithRetry(max))
	if at >= 0 {
		sym.Assert(calls == at+1 && err == nil, "the function is called until its first success, and then no error is reported")
		return
	}
	sym.Assert(calls == max+1, "the function is called once and again for every retry")
	sym.Assert(err != nil, "failure of every call is reported")
	rest := err.Error()
	for c := 0; c < calls; c++ {
		m := (&numErr{c}).Error()
		i := strings.Index(rest, m)
		sym.Assert(i >= 0 && i < 100, "the error of every call is reported, in order")
		rest = rest[i+len(m):]
	}
	sym.Cover("done")
}

// P28_Many: many calls under one context.
// Bounds: 70 goroutines with 5 calls each under one context that is cancelled after 0, 100 or 200 calls of the function or never; functions that give way and then succeed, fail, or panic, with and without cleanup; schedules that switch to the next goroutine after every q steps of synchronisation, q = 1..6.
func P28_Many() {
	sym.Sched("rotate", 1+sym.Choose(6))
	ctx, cancel := context.WithCancel(context.Background())
	stop := []int{-1, 0, 100, 200}[sym.Choose(4)]
	if stop == 0 {
		cancel()
	}
	var mu sync.Mutex
	started, ending, ended := 0, stop == 0, stop == 0
	const n = 350
	fs, cs := make([]int, n), make([]int, n)
	var wg sync.WaitGroup
	for g := 0; g < 70; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 5; j++ {
				id := 5*g + j
				mu.Lock()
				before := ended
				mu.Unlock()
				own := &numErr{id}
				var clean func()
				if id%4 != 0 {
					clean = func() { mu.Lock(); cs[id]++; mu.Unlock() }
				}
				var err error
				v, panicked := sym.Catch(func() {
					err = xtask.Do(ctx, func() error {
						mu.Lock()
						fs[id]++
						started++
						last := started == stop
						ending = ending || last
						mu.Unlock()
						if last {
							cancel()
							mu.Lock()
							ended = true
							mu.Unlock()
						}
						sym.Yield()
						switch id % 7 {
						case 1, 4:
							return own
						case 2:
							panic(own)
						}
						return nil
					}, clean)
				})
				mu.Lock()
				after := ending
				mu.Unlock()
				switch {
				case panicked:
					sym.Assert(id%7 == 2, "a call panics only if its function does")
					sym.Assert(strings.Contains(fmt.Sprint(v), own.Error()), "a panic of the function is re-raised in the caller")
					sym.Cover("panic")
				case err == context.Canceled:
					sym.Assert(after, "a call is given up only if its context has ended")
					sym.Cover("given up")
				case err != nil:
					sym.Assert((id%7 == 1 || id%7 == 4) && err == error(own), "a call returns what its own function returned")
				default:
					sym.Assert(id%7 != 1 && id%7 != 4 && id%7 != 2, "a call returns what its own function returned")
				}
				if before {
					sym.Assert(!panicked && err == context.Canceled, "a call whose context has already ended is given up")
				}
			}
		}()
	}
	wg.Wait()
	sym.Quiesce()
	for id := range fs {
		want := 1
		if id%4 == 0 {
			want = 0
		}
		sym.Assert(cs[id] == want, "the cleanup runs exactly once for every call")
		sym.Assert(fs[id] <= 1 && (stop >= 0 || fs[id] == 1), "the function runs at most once, and once if the context stays alive")
	}
	sym.Assert(sym.Live() == 0, "no goroutine stays behind: "+sym.LiveDesc())
	cancel()
	sym.Cover("done")
}

// own is a context of another package's making.
type own struct {
	context.Context
	done chan struct{}
	err  error
}

func (c *own) Done() <-chan struct{} { return c.done }
func (c *own) Err() error {
	select {
	case <-c.done:
		return c.err
	default:
		return nil
	}
}

// P28_Contexts: contexts of any kind.
// Bounds: contexts cancelled with or without a cause, by their parent with a cause, of another package's making with an error of its own, or derived from such; ended before the call, by the function (which is then blocked until after the call or returns), or not; with and without cleanup; every interleaving.
func P28_Contexts() {
	ctx := context.Background()
	var end func()
	want := context.Canceled
	switch sym.Choose(6) {
	case 0:
		ctx, end = context.WithCancel(ctx)
	case 1:
		c, stop := context.WithCancelCause(ctx)
		ctx, end = c, func() { stop(errTask) }
	case 2:
		c, stop := context.WithCancelCause(ctx)
		d, stop2 := context.WithCancel(context.WithValue(c, ctxKey{}, 1))
		defer stop2()
		ctx, end = d, func() { stop(io.EOF) }
	case 3:
		c := &own{ctx, make(chan struct{}), io.ErrClosedPipe}
		ctx, end, want = c, func() { close(c.done) }, io.ErrClosedPipe
	case 4:
		c := &own{ctx, make(chan struct{}), context.DeadlineExceeded}
		ctx, end, want = context.WithValue(c, ctxKey{}, 1), func() { close(c.done) }, context.DeadlineExceeded
	case 5:
		c, stop := context.WithCancelCause(ctx)
		ctx, end = context.WithValue(c, ctxKey{}, 1), func() { stop(nil) }
	}
	when, form := sym.Choose(4), sym.Choose(3)
	if when == 0 {
		end()
	}
	gate := make(chan struct{})
	calls, cleanups := 0, 0
	err, _, panicked := run(ctx, form, func() error {
		calls++
		if when == 1 || when == 2 {
			end()
		}
		if when == 1 {
			<-gate
		}
		return errTask
	}, &cleanups)
	sym.Assert(!panicked, "a function that returns gives an error")
	switch when {
	case 0:
		sym.Assert(err == want, "an ended context gives the context's error")
	case 1:
		sym.Assert(err == want, "the context's error is returned as soon as the context ends")
	case 2:
		sym.Assert(err == want || err == errTask, "the function's or the context's error is returned")
	case 3:
		sym.Assert(err == errTask, "the function's own error is returned")
		end()
	}
	close(gate)
	quiet()
	sym.Assert((calls == 0) == (when == 0), "a function is not started when the context has already ended, and else runs once")
	sym.Cover("done")
}
