// Package honce states what the write-once value and channel must do.
package honce

import (
	"errors"
	"sync"

	"github.com/chenquan/go-pkg/internal/zzverif/lin"
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xonce"
)

type pair struct{ a, b int }

// kinds of values a caller may write.
const nKinds = 8

var boom = errors.New("boom")
var shared = &pair{1, 2}

// value makes a value of any kind; numbers are arbitrary.
func value(kind int) interface{} {
	switch kind {
	case 0:
		return sym.Int()
	case 1:
		return string([]byte{sym.Uint8()})
	case 2:
		return nil
	case 3:
		return boom
	case 4:
		return pair{sym.Int(), 7}
	case 5:
		return shared
	case 6:
		return sym.Bool()
	}
	return ""
}

// P25_Sequential: writes one after the other.
// Bounds: 2 writes followed by 1 more of the first value; values of any of 8 types (with arbitrary content), nil included.
func P25_Sequential() {
	v := xonce.NewValue()
	sym.Assert(v.Value() == nil, "before the first write a reader sees nil")
	a, b := value(sym.Choose(nKinds)), value(sym.Choose(nKinds))
	sym.Assert(v.Write(a), "the first write succeeds")
	sym.Assert(v.Value() == a, "a reader sees the first value")
	sym.Assert(!v.Write(b), "a later write reports failure")
	sym.Assert(v.Value() == a, "a reader sees the first value")
	sym.Assert(!v.Write(a), "writing the same value again reports failure")
	sym.Assert(v.Value() == a, "a reader sees the first value")
	sym.Cover("done")
}

// P25_ManyWrites: no later write ever succeeds.
// Bounds: 12 (thorough 40) writes of 4 types in turn, one of them not comparable.
func P25_ManyWrites() {
	v := xonce.NewValue()
	x := sym.Int()
	sym.Assert(v.Write(x), "the first write succeeds")
	for i := 0; i < 11+29*sym.Tier(); i++ {
		var y interface{} = i
		if i%4 == 1 {
			y = "s"
		} else if i%4 == 2 {
			y = pair{i, i}
		} else if i%4 == 3 {
			y = []int{i}
		}
		sym.Assert(!v.Write(y), "a later write reports failure")
	}
	sym.Assert(v.Value() == x, "a reader sees the first value")
	sym.Cover("done")
}

// P25_Separate: two write-once values do not influence each other.
// Bounds: 2 values, 1 write of any int to each.
func P25_Separate() {
	a, b := xonce.NewValue(), xonce.NewValue()
	x, y := sym.Int(), sym.Int()
	sym.Assert(a.Write(x) && b.Value() == nil && b.Write(y), "write-once values are independent")
	sym.Assert(a.Value() == x && b.Value() == y, "write-once values are independent")
	sym.Cover("done")
}

// access is one write or read of a write-once value.
type access struct {
	write     bool
	val       interface{} // written or read
	ok        bool
	call, ret int
}

func (a *access) run(v *xonce.Value) {
	a.call = sym.Call()
	if a.write {
		a.ok = v.Write(a.val)
	} else {
		a.val = v.Value()
	}
	a.ret = sym.Ret()
}

type cell struct {
	full bool
	val  interface{}
}

// explain decides whether all accesses have a sequential explanation.
func explain(accesses []*access) bool {
	var ops []lin.Op
	for _, a := range accesses {
		a := a
		ops = append(ops, lin.Op{Call: a.call, Ret: a.ret, F: func(state interface{}) (interface{}, bool) {
			st := state.(cell)
			switch {
			case !a.write:
				return st, equal(a.val, st.val)
			case st.full:
				return st, !a.ok
			}
			return cell{true, a.val}, a.ok
		}})
	}
	return lin.Check(cell{}, ops, nil)
}

// equal compares two values (numbers in them under one formula).
func equal(a, b interface{}) bool {
	switch x := a.(type) {
	case int:
		y, ok := b.(int)
		return ok && sym.And(true, x == y)
	case pair:
		y, ok := b.(pair)
		return ok && sym.And(x.a == y.a, x.b == y.b)
	}
	return a == b
}

// P25_Concurrent: writers of different types and readers.
// Bounds: 2 writers (thorough 3) with values of any of 8 types and any content, each followed by a read, 1 reader with 2 reads; every interleaving.
func P25_Concurrent() {
	sym.DecideOrders()
	v := xonce.NewValue()
	n := 2 + sym.Tier()
	var all []*access
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		w, r := &access{write: true, val: value(sym.Choose(nKinds))}, &access{}
		all = append(all, w, r)
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.run(v)
			r.run(v)
		}()
	}
	r1, r2 := &access{}, &access{}
	r1.run(v)
	r2.run(v)
	wg.Wait()
	last := &access{}
	last.run(v)
	all = append(all, r1, r2, last)
	wins := 0
	for _, a := range all {
		if a.ok {
			wins++
		}
	}
	sym.Assert(wins == 1, "exactly one write succeeds")
	sym.Assert(explain(all), "readers see nil and then only the value of the successful write")
	sym.Cover("done")
}

// P25_Racing: several writes and reads per goroutine.
// Bounds: 3 goroutines with 2 accesses each (thorough 3, 2 and 2), writes of any int or reads; every interleaving.
func P25_Racing() {
	v := xonce.NewValue()
	var all []*access
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		n := 2
		if i == 0 {
			n += sym.Tier()
		}
		mine := make([]*access, n)
		for j := range mine {
			mine[j] = &access{}
			if sym.Choose(2) == 0 {
				mine[j] = &access{write: true, val: sym.Int()}
			}
		}
		all = append(all, mine...)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, a := range mine {
				a.run(v)
			}
		}()
	}
	wg.Wait()
	sym.Assert(explain(all), "the first write wins and is what every reader sees from then on")
	sym.Cover("done")
}

// closed checks that the channel is closed and empty.
func closed(c chan interface{}) {
	select {
	case x, ok := <-c:
		sym.Assert(x == nil && !ok, "the channel delivers nothing more")
	default:
		sym.Assert(false, "the channel is closed after its value")
	}
}

// P26_Sequential: writes with nobody receiving.
// Bounds: 2 writes of any of 8 types (with arbitrary content), nil included, then 3 receives.
func P26_Sequential() {
	c := xonce.NewChan()
	a, b := value(sym.Choose(nKinds)), value(sym.Choose(nKinds))
	select {
	case <-c.Chan():
		sym.Assert(false, "nothing is delivered before the first write")
	default:
	}
	sym.Assert(c.Write(a), "the first write succeeds without a receiver")
	if sym.Choose(2) == 0 {
		sym.Cover("write before receive")
		sym.Assert(!c.Write(b), "a later write reports failure")
	}
	x, ok := <-c.Chan()
	sym.Assert(ok && x == a, "the channel delivers the first value")
	closed(c.Chan())
	sym.Assert(!c.Write(b), "a later write reports failure")
	closed(c.Chan())
	closed(c.Chan())
}

// P26_Separate: two write-once channels do not influence each other.
// Bounds: 2 channels, 1 write of any int to each.
func P26_Separate() {
	a, b := xonce.NewChan(), xonce.NewChan()
	x, y := sym.Int(), sym.Int()
	sym.Assert(a.Write(x) && b.Write(y), "write-once channels are independent")
	sym.Assert(<-a.Chan() == x && <-b.Chan() == y, "write-once channels are independent")
	sym.Cover("done")
}

func race(writers, receivers int) {
	sym.DecideOrders()
	c := xonce.NewChan()
	call, ret := make([]int, writers), make([]int, writers)
	vals := make([]interface{}, writers)
	for i := range vals {
		vals[i] = sym.Int()
	}
	won := make([]bool, writers)
	got := make([][]interface{}, receivers)
	var wg sync.WaitGroup
	for i := 0; i < writers; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			call[i] = sym.Call()
			won[i] = c.Write(vals[i])
			ret[i] = sym.Ret()
		}()
	}
	for i := 0; i < receivers; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for x := range c.Chan() {
				got[i] = append(got[i], x)
			}
		}()
	}
	wg.Wait()
	w := -1
	for i := range won {
		if won[i] {
			sym.Assert(w < 0, "at most one write succeeds")
			w = i
		}
	}
	sym.Assert(w >= 0, "one write succeeds")
	var ops []lin.Op
	for i := range won {
		i := i
		ops = append(ops, lin.Op{Call: call[i], Ret: ret[i], F: func(st interface{}) (interface{}, bool) {
			return true, won[i] == (st == false)
		}})
	}
	sym.Assert(lin.Check(false, ops, nil), "a write fails only if another one came before it")
	var all []interface{}
	for _, g := range got {
		all = append(all, g...)
	}
	if receivers == 0 {
		all = append(all, <-c.Chan())
	}
	sym.Assert(len(all) == 1 && all[0] == vals[w], "exactly the value of the successful write is delivered, once")
	closed(c.Chan())
	sym.Cover("done")
}

// P26_Writers: concurrent writers and nobody receiving.
// Bounds: 2 to 4 writers of any ints; every interleaving.
func P26_Writers() { race(2+sym.Choose(3), 0) }

// P26_Receivers: concurrent writers and receivers.
// Bounds: 2 writers (thorough 3) of any ints, 1 or 2 receivers that receive until the channel is closed; every interleaving.
func P26_Receivers() { race(2+sym.Tier(), 1+sym.Choose(2)) }

// P25_Many: many writers and readers.
// Bounds: 70 goroutines with 3 reads and 2 writes of any ints each, after 0 or 300 writes; schedules that switch to the next goroutine after every q steps of synchronisation, q = 1..8.
func P25_Many() {
	sym.Sched("rotate", 1+sym.Choose(8))
	v := xonce.NewValue()
	var first interface{}
	done := false
	if sym.Choose(2) == 1 {
		first, done = sym.Int(), true
		sym.Assert(v.Write(first), "the first write succeeds")
		for i := 0; i < 300; i++ {
			sym.Assert(!v.Write(i), "a later write reports failure")
		}
	}
	base := sym.Int()
	won := make([]int, 70)
	seen := make([][]interface{}, 70)
	var wg sync.WaitGroup
	for g := 0; g < 70; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			seen[g] = append(seen[g], v.Value())
			for i := 0; i < 2; i++ {
				if v.Write(base + 2*g + i) {
					won[g] += i + 1
				}
				seen[g] = append(seen[g], v.Value())
			}
		}()
	}
	wg.Wait()
	for g, w := range won {
		if w > 0 {
			sym.Assert(!done, "exactly one of all writes succeeds")
			first, done = base+2*g+w-1, true
		}
	}
	sym.Assert(done, "one of all writes succeeds")
	for _, s := range seen {
		for i, x := range s {
			sym.Assert(x == first || i == 0 && x == nil, "every read after a write finds the first value")
		}
	}
	sym.Assert(v.Value() == first, "every read after a write finds the first value")
	sym.Cover("done")
}

// P26_Many: many writers and receivers.
// Bounds: 70 writers of any ints with 2 writes each, 20 receivers; schedules that switch to the next goroutine after every q steps of synchronisation, q = 1..8.
func P26_Many() {
	sym.Sched("rotate", 1+sym.Choose(8))
	c := xonce.NewChan()
	base := sym.Int()
	won := make([]int, 70)
	got := make([][]interface{}, 20)
	var wg sync.WaitGroup
	for g := range got {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for x := range c.Chan() {
				got[g] = append(got[g], x)
			}
		}()
	}
	for g := range won {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2; i++ {
				if c.Write(base + 2*g + i) {
					won[g] += i + 1
				}
			}
		}()
	}
	wg.Wait()
	var want, all []interface{}
	for g, w := range won {
		if w > 0 {
			want = append(want, base+2*g+w-1)
		}
	}
	for _, g := range got {
		all = append(all, g...)
	}
	sym.Assert(len(want) == 1, "exactly one of all writes succeeds")
	sym.Assert(len(all) == 1 && all[0] == want[0], "exactly the value of the successful write is delivered, once")
	sym.Assert(!c.Write(1), "a later write reports failure")
	closed(c.Chan())
	sym.Cover("done")
}

// P25_Odd: values of any kind.
// Bounds: 2 writes, each of any of 20 values (nil, typed nils, zero values, errors, functions, lists, values that cannot be compared).
func P25_Odd() {
	v := xonce.NewValue()
	a, b := lin.Odd(sym.Choose(lin.Odds)), lin.Odd(sym.Choose(lin.Odds))
	sym.Assert(v.Write(a), "the first write succeeds")
	sym.Assert(lin.Same(v.Value(), a), "a reader sees the first value")
	sym.Assert(!v.Write(b), "a later write reports failure")
	sym.Assert(lin.Same(v.Value(), a), "a reader sees the first value")
	sym.Cover("done")
}

// P26_Odd: values of any kind.
// Bounds: 2 writes, each of any of 20 values (nil, typed nils, zero values, errors, functions, lists, values that cannot be compared).
func P26_Odd() {
	c := xonce.NewChan()
	a, b := lin.Odd(sym.Choose(lin.Odds)), lin.Odd(sym.Choose(lin.Odds))
	sym.Assert(c.Write(a), "the first write succeeds without a receiver")
	sym.Assert(!c.Write(b), "a later write reports failure")
	x, ok := <-c.Chan()
	sym.Assert(ok && lin.Same(x, a), "the channel delivers the first value")
	closed(c.Chan())
	sym.Cover("done")
}

// P25_Long: no later write ever succeeds, however many there are.
// Bounds: 3000 (thorough 70000) writes of one goroutine.
func P25_Long() {
	v := xonce.NewValue()
	x := sym.Int()
	sym.Assert(v.Write(x), "the first write succeeds")
	for i := 0; i < 3000+67000*sym.Tier(); i++ {
		sym.Assert(!v.Write(i), "a later write reports failure")
	}
	sym.Assert(v.Value() == x, "a reader sees the first value")
	sym.Cover("done")
}

// P26_Long: no later write ever succeeds, however many there are.
// Bounds: 3000 (thorough 70000) writes of one goroutine.
func P26_Long() {
	c := xonce.NewChan()
	x := sym.Int()
	sym.Assert(c.Write(x), "the first write succeeds without a receiver")
	for i := 0; i < 3000+67000*sym.Tier(); i++ {
		sym.Assert(!c.Write(i), "a later write reports failure")
	}
	y, ok := <-c.Chan()
	sym.Assert(ok && y == x, "the channel delivers the first value")
	closed(c.Chan())
	sym.Cover("done")
}
