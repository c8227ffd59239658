// Package hresource states what the resource manager must do.
package hresource

import (
	"context"
	"errors"
	"io"
	"strings"
	"sync"

	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xsync"
)

type res struct {
	id, closed int
	err        error
}

func (r *res) Close() error {
	r.closed++
	return r.err
}

var errCreate = errors.New("create failed")
var errClose = []error{errors.New("close-a"), errors.New("close-b"), errors.New("close-c")}

// world counts what the create functions do.
type world struct {
	mu      sync.Mutex
	created []*res
	calls   int
}

func (w *world) ok(yield bool) func() (io.Closer, error) {
	return func() (io.Closer, error) {
		w.mu.Lock()
		w.calls++
		r := &res{id: len(w.created)}
		w.created = append(w.created, r)
		w.mu.Unlock()
		if yield {
			sym.Yield()
		}
		return r, nil
	}
}

func (w *world) fail() (io.Closer, error) {
	w.mu.Lock()
	w.calls++
	w.mu.Unlock()
	return nil, errCreate
}

// names gives two different keys, some of them easily mistaken for each other.
func names() [2]string {
	switch sym.Choose(5) {
	case 0:
		return [2]string{"a", "b"}
	case 1:
		return [2]string{"Key", "key"}
	case 2:
		return [2]string{"", " "}
	case 3:
		return [2]string{"a", "a/a"}
	}
	return [2]string{"a\x00", "a"}
}

// anyNames gives any two different short keys.
func anyNames() [2]string {
	k := [2]string{sym.Str(0, 2), sym.Str(0, 2)}
	sym.Assume(k[0] != k[1])
	return k
}

// P27_Histories: gets, removes and closes one after the other.
// Bounds: 6 (thorough 7) operations among get with a successful or failing create function, remove on any of 2 keys of one arbitrary byte, and close.
func P27_Histories() {
	m := xsync.NewResourceManager()
	w := &world{}
	keys := [2]string{sym.Str(1, 1), sym.Str(1, 1)}
	sym.Assume(keys[0] != keys[1])
	held := [2]*res{}
	closed := false
	var gone []*res
	for i := 0; i < 6+sym.Tier(); i++ {
		op := sym.Choose(7)
		k := op % 2
		switch op / 2 {
		case 0:
			before := len(w.created)
			r, err := m.Get(keys[k], w.ok(false))
			if closed {
				sym.Cover("get after close")
				sym.Assert(len(w.created) == before || len(w.created) == before+1 && w.created[before].closed == 1, "a resource created after the close is closed")
				sym.Assert(err != nil && r == nil, "a get after the close fails")
				continue
			}
			sym.Assert(err == nil, "a get whose creation succeeds succeeds")
			if held[k] != nil {
				sym.Cover("shared")
				sym.Assert(r == io.Closer(held[k]) && len(w.created) == before, "a get returns the held resource without creating another")
			} else {
				sym.Assert(len(w.created) == before+1 && r == io.Closer(w.created[before]), "a get creates the resource that is not held")
				held[k] = w.created[before]
			}
		case 1:
			before := w.calls
			r, err := m.Get(keys[k], w.fail)
			if held[k] != nil && !closed {
				sym.Assert(err == nil && r == io.Closer(held[k]) && w.calls == before, "a get returns the held resource without creating another")
			} else {
				sym.Cover("failed")
				sym.Assert(r == nil && err != nil && (closed || err == errCreate && w.calls == before+1), "a failed creation is reported and not remembered")
			}
		case 2:
			was := m.Remove(keys[k])
			sym.Assert(was == (held[k] != nil), "remove reports whether the key was held")
			if was {
				sym.Cover("removed")
				gone = append(gone, held[k])
				held[k] = nil
			}
		case 3:
			sym.Assert(m.Close() == nil, "a close without close errors reports none")
			for j := range held {
				if held[j] != nil {
					sym.Assert(held[j].closed == 1, "a close closes every held resource exactly once")
					gone = append(gone, nil)
					held[j] = nil
				}
			}
			closed = true
		}
	}
	for _, r := range held {
		sym.Assert(r == nil || r.closed == 0, "a held resource stays open")
	}
	for _, r := range gone {
		sym.Assert(r == nil || r.closed == 0, "a removed resource belongs to the remover")
	}
	_ = m.Close()
	for _, r := range held {
		sym.Assert(r == nil || r.closed == 1, "a close closes every held resource exactly once")
	}
}

// P27_CloseErrors: every close error is reported.
// Bounds: 0..3 resources, each with or without a close error; every order of closing; the manager closed twice.
func P27_CloseErrors() {
	m := xsync.NewResourceManager()
	n := sym.Choose(4)
	var rs []*res
	var errs []error
	for i := 0; i < n; i++ {
		r := &res{id: i}
		if sym.Choose(2) == 0 {
			r.err = errClose[i]
			errs = append(errs, r.err)
		}
		rs = append(rs, r)
		_, err := m.Get(string([]byte{byte('a' + i)}), func() (io.Closer, error) { return r, nil })
		sym.Assert(err == nil, "a get whose creation succeeds succeeds")
	}
	err := m.Close()
	switch len(errs) {
	case 0:
		sym.Assert(err == nil, "a close without close errors reports none")
	case 1:
		sym.Assert(err == errs[0], "a close reports the close error")
	default:
		sym.Cover("several")
		sym.Assert(err != nil, "a close reports the close errors")
		for _, e := range errs {
			sym.Assert(strings.Count(err.Error(), e.Error()) == 1, "a close reports every close error")
		}
	}
	for _, r := range rs {
		sym.Assert(r.closed == 1, "a close closes every held resource exactly once")
	}
	sym.Assert(m.Close() == nil, "a second close has nothing to report")
	for _, r := range rs {
		sym.Assert(r.closed == 1, "a close closes every held resource exactly once")
	}
}

// P27_Shared: concurrent gets of one key.
// Bounds: 3 (thorough 4) goroutines with 1 get each, one of them followed by a second get; every interleaving.
func P27_Shared() {
	m := xsync.NewResourceManager()
	w := &world{}
	n := 3 + sym.Tier()
	got := make([]io.Closer, n)
	var wg sync.WaitGroup
	for i := 1; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, err := m.Get("k", w.ok(true))
			sym.Assert(err == nil, "a get whose creation succeeds succeeds")
			got[i] = r
		}()
	}
	r, err := m.Get("k", w.ok(true))
	sym.Assert(err == nil, "a get whose creation succeeds succeeds")
	got[0] = r
	r, err = m.Get("k", w.ok(true))
	sym.Assert(err == nil && r == got[0], "a later get returns the same resource")
	wg.Wait()
	sym.Assert(len(w.created) == 1, "the create function runs successfully at most once")
	for i := range got {
		sym.Assert(got[i] == io.Closer(w.created[0]), "all gets return the same resource")
	}
	sym.Assert(m.Close() == nil && w.created[0].closed == 1, "a close closes every held resource exactly once")
	sym.Cover("done")
}

// P27_Fails: concurrent gets of one key when creations fail.
// Bounds: 2 goroutines with 1 get each and 1 get afterwards; each of the first 2 creations fails or not; every interleaving.
func P27_Fails() {
	m := xsync.NewResourceManager()
	w := &world{}
	bad := []bool{sym.Choose(2) == 0, sym.Choose(2) == 0, false, false}
	create := func() (io.Closer, error) {
		w.mu.Lock()
		n := w.calls
		w.mu.Unlock()
		if bad[n] {
			return w.fail()
		}
		return w.ok(false)()
	}
	done := make(chan struct{})
	var r1 io.Closer
	var e1 error
	go func() {
		r1, e1 = m.Get("k", create)
		close(done)
	}()
	r2, e2 := m.Get("k", create)
	<-done
	calls, made := w.calls, len(w.created)
	sym.Assert(made <= 1 && calls <= 2, "the create function runs successfully at most once")
	for _, x := range []struct {
		r io.Closer
		e error
	}{{r1, e1}, {r2, e2}} {
		if x.e != nil {
			sym.Assert(x.r == nil && x.e == errCreate && calls > made, "a failed creation is reported to the callers waiting for it")
		} else {
			sym.Assert(made == 1 && x.r == io.Closer(w.created[0]), "a successful get returns the created resource")
		}
	}
	if e1 != nil && e2 != nil {
		sym.Cover("both failed")
	}
	if e1 != nil && e2 == nil {
		sym.Cover("one failed")
	}
	r3, e3 := m.Get("k", func() (io.Closer, error) { return w.ok(false)() })
	sym.Assert(e3 == nil && r3 == io.Closer(w.created[0]), "a failed creation is not remembered")
	sym.Assert(len(w.created) == 1, "the create function runs successfully at most once")
}

// P27_TwoKeys: one key does not hold up another.
// Bounds: the creation of one key waits for a get of another key made by a second goroutine or by the creation itself; any two different keys of 0..2 bytes; every interleaving.
func P27_TwoKeys() {
	k := anyNames()
	m := xsync.NewResourceManager()
	w := &world{}
	if sym.Choose(2) == 0 {
		sym.Cover("nested")
		var inner io.Closer
		r, err := m.Get(k[0], func() (io.Closer, error) {
			inner, _ = m.Get(k[1], w.ok(false))
			return w.ok(false)()
		})
		sym.Assert(err == nil && r == io.Closer(w.created[1]) && inner == io.Closer(w.created[0]), "different keys have different resources")
		return
	}
	sym.Cover("two goroutines")
	gate := make(chan struct{})
	done := make(chan struct{})
	go func() {
		_, err := m.Get(k[0], func() (io.Closer, error) {
			<-gate
			return w.ok(false)()
		})
		sym.Assert(err == nil, "a get whose creation succeeds succeeds")
		close(done)
	}()
	_, err := m.Get(k[1], w.ok(false))
	sym.Assert(err == nil, "a get whose creation succeeds succeeds")
	close(gate)
	<-done
	sym.Assert(m.Remove(k[0]) && m.Remove(k[1]) && !m.Remove(k[0]), "remove reports whether the key was held")
}

// P27_CloseDuring: the manager is closed while a resource is being created.
// Bounds: 1 get of the same or another key in each of 2 (thorough 3) other goroutines, 1 close, with 0 or 1 resource held before; 5 pairs of keys; every interleaving.
func P27_CloseDuring() {
	ks := names()
	m := xsync.NewResourceManager()
	w := &world{}
	if sym.Choose(2) == 0 {
		_, _ = m.Get(ks[0], w.ok(false))
	}
	k := ks[sym.Choose(2)]
	n := 2 + sym.Tier()
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, err := m.Get(k, w.ok(true))
			sym.Assert((r == nil) == (err != nil), "a get returns a resource or an error")
			if err != nil {
				sym.Cover("refused")
			} else {
				sym.Cover("in time")
			}
		}()
	}
	sym.Assert(m.Close() == nil, "a close without close errors reports none")
	wg.Wait()
	for _, r := range w.created {
		sym.Assert(r.closed == 1, "every resource created before, during or after the close is closed exactly once")
	}
	sym.Assert(!m.Remove(ks[0]) && !m.Remove(ks[1]), "nothing is held after the close")
}

// P27_RemoveDuring: a resource is removed while others get it.
// Bounds: 1 get in each of 1 (thorough 2) goroutines, 1 remove and 1 get in another, with the resource held before or not; every interleaving.
func P27_RemoveDuring() {
	m := xsync.NewResourceManager()
	w := &world{}
	held := sym.Choose(2) == 0
	if held {
		_, _ = m.Get("k", w.ok(false))
	}
	var wg sync.WaitGroup
	for i := 0; i < 1+sym.Tier(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_, err := m.Get("k", w.ok(true))
			sym.Assert(err == nil, "a get whose creation succeeds succeeds")
		}()
	}
	was := m.Remove("k")
	sym.Assert(was || !held, "remove reports whether the key was held")
	if held {
		sym.Cover("held")
	}
	_, err := m.Get("k", w.ok(true))
	sym.Assert(err == nil, "a get whose creation succeeds succeeds")
	wg.Wait()
	n := 1
	if was {
		n = 2
	}
	sym.Assert(len(w.created) <= n, "the create function runs successfully at most once until the key is removed")
	sym.Assert(m.Close() == nil, "a close without close errors reports none")
	open := 0
	for _, r := range w.created {
		sym.Assert(r.closed <= 1, "a close closes every held resource exactly once")
		open += 1 - r.closed
	}
	sym.Assert(!was && open == 0 || was && open == 1 || was && open == 0 && len(w.created) == 0, "a close closes every resource except the removed one")
}

// visit is one recorded get.
type visit struct {
	r         io.Closer
	err       error
	call, ret int
}

// attempt is one recorded creation.
type attempt struct {
	r         *res
	call, ret int
}

// Error makes a failed attempt an error of its own.
func (a *attempt) Error() string { return "attempt failed" }

// P27_Moments: gets, creations and a close, and when they happened.
// Bounds: 2 goroutines with 1 get each of the same or of different keys, followed by another get in one of them; each of the first 2 creations fails or not; a close by a third goroutine or none; quick: no failures and no further get together with a close; every interleaving.
func P27_Moments() {
	sym.DecideOrders()
	m := xsync.NewResourceManager()
	two, closing := sym.Choose(2) == 0, sym.Choose(2) == 0
	bad := [2]bool{sym.Choose(2) == 0, sym.Choose(2) == 0}
	sym.Assume(sym.Tier() == 1 || !closing || !bad[0] && !bad[1])
	var tries [2][]*attempt
	var mu sync.Mutex
	n := 0
	get := func(k int, v *visit) {
		v.call = sym.Call()
		v.r, v.err = m.Get([]string{"a", "b"}[k], func() (io.Closer, error) {
			a := &attempt{call: sym.Call()}
			mu.Lock()
			tries[k] = append(tries[k], a)
			fails := n < 2 && bad[n]
			n++
			mu.Unlock()
			if !fails {
				a.r = &res{}
			}
			a.ret = sym.Ret()
			if fails {
				return nil, a
			}
			return a.r, nil
		})
		v.ret = sym.Ret()
	}
	k := 0
	if two {
		k = 1
	}
	other := &visit{}
	vs := []*visit{{}, other}
	keyOf := [3]int{0, k, 0}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		get(k, other)
	}()
	var ccall, cret int
	if closing {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ccall = sym.Call()
			sym.Assert(m.Close() == nil, "a close without close errors reports none")
			cret = sym.Ret()
		}()
	}
	get(0, vs[0])
	if !closing || sym.Tier() == 1 {
		vs = append(vs, &visit{})
		get(0, vs[2])
	}
	wg.Wait()
	for i, v := range vs {
		if v.err == nil {
			made := false
			for _, a := range tries[keyOf[i]] {
				if a.r != nil && v.r == io.Closer(a.r) {
					made = sym.Or(made, sym.Before(a.ret, v.ret))
				}
			}
			sym.Assert(made, "a get returns a resource that has been created")
			if closing {
				sym.Cover("in time")
				sym.Assert(!sym.Before(cret, v.call), "a get after the close fails")
			}
			continue
		}
		sym.Assert(v.r == nil, "a get returns a resource or an error")
		if a, ok := v.err.(*attempt); ok {
			sym.Cover("failed")
			sym.Assert(a.r == nil && sym.Before(a.ret, v.ret), "a get fails only for a creation that failed")
			for _, u := range vs {
				sym.Assert(u == v || u.err != v.err || !sym.Before(u.ret, v.call), "a failed creation is not remembered")
			}
		} else {
			sym.Cover("refused")
			sym.Assert(closing && !sym.Before(v.ret, ccall), "a get is refused only when the manager has been closed")
		}
	}
	for _, as := range tries {
		for i, a := range as {
			for _, b := range as[i+1:] {
				sym.Assert(sym.Or(sym.Before(a.ret, b.call), sym.Before(b.ret, a.call)), "creations of one key do not overlap")
				sym.Assert(closing || a.r == nil || b.r == nil, "the create function runs successfully at most once")
			}
			if closing && a.r != nil {
				sym.Assert(a.r.closed == 1, "every resource created before, during or after the close is closed exactly once")
			}
		}
	}
}

// P27_RemoveMoments: a get that begins after a removal has nothing to do with the removed resource.
// Bounds: 2 goroutines with 1 get each (thorough 3), 1 remove followed or not by a get in another, the resource held before or not; every interleaving (thorough: at most 3 preemptions).
func P27_RemoveMoments() {
	sym.DecideOrders()
	if sym.Tier() == 1 {
		sym.Sched("preempt", 3)
	}
	m := xsync.NewResourceManager()
	var mu sync.Mutex
	var made []*attempt
	get := func(v *visit) {
		v.call = sym.Call()
		v.r, v.err = m.Get("k", func() (io.Closer, error) {
			a := &attempt{call: sym.Call(), r: &res{}}
			mu.Lock()
			made = append(made, a)
			mu.Unlock()
			a.ret = sym.Ret()
			return a.r, nil
		})
		v.ret = sym.Ret()
	}
	held := sym.Choose(2) == 0
	var vs []*visit
	if held {
		vs = append(vs, &visit{})
		get(vs[0])
	}
	var wg sync.WaitGroup
	for i := 0; i < 2+sym.Tier(); i++ {
		v := &visit{}
		vs = append(vs, v)
		wg.Add(1)
		go func() {
			defer wg.Done()
			get(v)
		}()
	}
	rcall := sym.Call()
	was := m.Remove("k")
	rret := sym.Ret()
	if sym.Choose(2) == 0 {
		vs = append(vs, &visit{})
		get(vs[len(vs)-1])
	}
	wg.Wait()
	removed := 0
	if was {
		removed = 1
		sym.Cover("removed")
	}
	sym.Assert(was || !held, "remove reports whether the key was held")
	sym.Assert(len(made) <= 1+removed, "the create function runs successfully at most once until the key is removed")
	for _, v := range vs {
		sym.Assert(v.err == nil, "a get whose creation succeeds succeeds")
		some := false
		for _, a := range made {
			if v.r != io.Closer(a.r) {
				continue
			}
			some = sym.Before(a.ret, v.ret)
			if was {
				// the removed resource is the one made first
				first := true
				for _, b := range made {
					if b != a {
						first = sym.And(first, sym.Before(a.ret, b.call))
					}
				}
				sym.Assert(sym.Or(!first, !sym.Before(rret, v.call)), "a get that begins after the removal does not return the removed resource")
				sym.Assert(sym.Or(first, !sym.Before(v.ret, rcall)), "a get that ends before the removal returns the held resource")
			} else {
				sym.Assert(!sym.Before(v.ret, rcall), "remove reports whether the key was held")
			}
		}
		sym.Assert(some, "a get returns a resource that has been created")
	}
	// what is held at the end is closed, the removed resource is not
	sym.Assert(m.Close() == nil, "a close without close errors reports none")
	open := 0
	for _, a := range made {
		open += 1 - a.r.closed
	}
	sym.Assert(open == removed, "a close closes every resource except the removed one")
}

func nameOf(i int) string {
	return string([]byte{'k', byte('a' + i%26), byte('A' + i/26%26), byte('0' + i/676)})
}

// P27_Many: many keys, gotten by many goroutines, and many close errors.
// Bounds: 70 or 300 keys; 4 goroutines that get each of them once, every tenth creation failing the first time; every third removed; then closed, every fifth with a close error; schedules that switch to the next goroutine after every q steps of synchronisation, q = 1..8.
func P27_Many() {
	sym.Sched("rotate", 1+sym.Choose(8))
	sym.MapOrder(0)
	n := []int{70, 300}[sym.Choose(2)]
	m := xsync.NewResourceManager()
	var mu sync.Mutex
	created := make([][]*res, n)
	failed := make([]int, n)
	got := make([][]io.Closer, 4)
	var wg sync.WaitGroup
	for g := range got {
		g := g
		got[g] = make([]io.Closer, n)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				i := (i + g*n/8) % n
				for {
					r, err := m.Get(nameOf(i), func() (io.Closer, error) {
						mu.Lock()
						defer mu.Unlock()
						if i%10 == 0 && failed[i] == 0 {
							failed[i]++
							return nil, errCreate
						}
						c := &res{id: i}
						if i%5 == 0 {
							c.err = errors.New("<" + nameOf(i) + ">")
						}
						created[i] = append(created[i], c)
						return c, nil
					})
					if err == nil {
						got[g][i] = r
						break
					}
					sym.Assert(i%10 == 0 && err == errCreate, "a get whose creation succeeds succeeds")
				}
			}
		}()
	}
	wg.Wait()
	for i := 0; i < n; i++ {
		sym.Assert(len(created[i]) == 1, "one resource is created for every key, however many")
		for g := range got {
			sym.Assert(got[g][i] == io.Closer(created[i][0]), "everyone gets the resource of the key")
		}
		if i%3 == 1 {
			sym.Assert(m.Remove(nameOf(i)), "remove reports whether the key was held")
			sym.Assert(!m.Remove(nameOf(i)), "remove reports whether the key was held")
		}
	}
	err := m.Close()
	sym.Assert(err != nil, "a close reports the close errors")
	text := err.Error()
	for i := 0; i < n; i++ {
		c, want := created[i][0], 1
		if i%3 == 1 {
			want = 0
		}
		sym.Assert(c.closed == want, "a close closes every held resource exactly once")
		if c.err != nil {
			sym.Assert(strings.Count(text, c.err.Error()) == want, "a close reports every close error of many")
		}
	}
	sym.Cover("done")
}

// listErr is not comparable.
type listErr []string

func (e listErr) Error() string { return e[0] }

// Closers of other kinds: without contents, not comparable, a nil pointer.
type zeroRes struct{}

func (zeroRes) Close() error { return nil }

type funcRes func() error

func (f funcRes) Close() error { return f() }

type nilRes struct{}

func (*nilRes) Close() error { return nil }

// P27_Odd: keys, resources and errors that code may be tempted to treat specially.
// Bounds: 2 of 7 keys (empty, a blank, a zero byte, letters of either case, invalid text, 300 bytes); a resource of one of 4 kinds; failures with one of 5 errors, with or without a resource; closed with one of the same errors.
func P27_Odd() {
	long := strings.Repeat("k", 300)
	keys := []string{"", " ", "\x00", "a", "A", "\xff", long}
	errs := []error{io.EOF, context.Canceled, listErr{"[l]"}, errors.New(""), context.DeadlineExceeded}
	at := sym.Choose(len(keys))
	k1, k2 := keys[at], keys[(at+1+sym.Choose(len(keys)-1))%len(keys)]
	bad := errs[sym.Choose(len(errs))]
	m := xsync.NewResourceManager()
	closed := 0
	var made io.Closer
	switch sym.Choose(4) {
	case 0:
		made = zeroRes{}
	case 1:
		made = funcRes(func() error { closed++; return bad })
	case 2:
		made = (*nilRes)(nil)
	case 3:
		made = &res{err: bad}
	}
	same := func(r io.Closer, what string) {
		if f, ok := r.(funcRes); ok {
			_, want := made.(funcRes)
			sym.Assert(want && f != nil, what)
			return
		}
		if _, ok := made.(funcRes); ok {
			sym.Assert(false, what)
		}
		sym.Assert(r == made, what)
	}
	calls := 0
	var spoiled io.Closer
	if sym.Choose(2) == 0 {
		spoiled = &res{}
	}
	_, err := m.Get(k1, func() (io.Closer, error) {
		calls++
		return spoiled, bad
	})
	sym.Assert(calls == 1 && err != nil && err.Error() == bad.Error(), "a failed creation is reported and not remembered")
	sym.Assert(!m.Remove(k1), "remove reports whether the key was held")
	ok := func() (io.Closer, error) {
		calls++
		return made, nil
	}
	for i := 0; i < 2; i++ {
		r, err := m.Get(k1, ok)
		sym.Assert(err == nil && calls == 2, "a get returns the held resource without creating another")
		same(r, "a get returns the held resource without creating another")
	}
	sym.Assert(!m.Remove(k2), "remove reports whether the key was held")
	other := &res{}
	r, err := m.Get(k2, func() (io.Closer, error) { return other, nil })
	sym.Assert(err == nil && r == io.Closer(other), "a get creates the resource that is not held")
	err = m.Close()
	sym.Assert(other.closed == 1, "a close closes every held resource exactly once")
	switch x := made.(type) {
	case funcRes:
		sym.Assert(closed == 1, "a close closes every held resource exactly once")
		sym.Assert(err != nil && err.Error() == bad.Error(), "a close reports the close error")
	case *res:
		sym.Assert(x.closed == 1, "a close closes every held resource exactly once")
		sym.Assert(err != nil && err.Error() == bad.Error(), "a close reports the close error")
	default:
		sym.Assert(err == nil, "a close without close errors reports none")
	}
	sym.Cover("done")
}
