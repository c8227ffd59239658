// Package hring states what a ring must remember.
package hring

import (
	"sync"

	"github.com/chenquan/go-pkg/internal/zzverif/lin"
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xring"
)

// expect checks one take against all additions so far.
func expect(got []interface{}, added []int, n int, when string) {
	k := len(added)
	if k > n {
		k = n
	}
	sym.Assert(len(got) == k, "Take returns min(size, additions) items "+when)
	for i := 0; i < k; i++ {
		v, ok := got[i].(int)
		sym.Assert(ok, "Take returns the values that were added "+when)
		sym.Assert(v == added[len(added)-k+i], "Take returns the most recent items, oldest first "+when)
	}
}

// P07_Histories: additions of arbitrary values with takes in between.
// Bounds: ring sizes 1..4 (thorough 1..6); up to 2*size+3 additions; a take after any of them; the earliest take is re-examined and scribbled on at the end.
func P07_Histories() {
	n := 1 + sym.Choose(4+2*sym.Tier())
	r := xring.NewRing(n)
	total := sym.Choose(2*n + 4)
	snap := sym.Choose(total + 1)
	var added []int
	var first []interface{}
	for i := 0; i <= total; i++ {
		if i == snap {
			first = r.Take()
			expect(first, added, n, "in between")
		}
		if i < total {
			v := sym.Int()
			added = append(added, v)
			r.Add(v)
		}
	}
	expect(first, added[:snap], n, "as a snapshot after later additions")
	if len(first) > 0 {
		first[0] = "overwritten"
		first = append(first[:0], "x")
	}
	expect(r.Take(), added, n, "at the end")
	expect(r.Take(), added, n, "when taken again")
	sym.Cover("done")
}

// P07_EveryStep: a take after every addition.
// Bounds: ring sizes 1..5, 3*size+2 additions.
func P07_EveryStep() {
	n := 1 + sym.Choose(5)
	r := xring.NewRing(n)
	var added []int
	var snaps [][]interface{}
	for i := 0; i < 3*n+2; i++ {
		snaps = append(snaps, r.Take())
		expect(snaps[i], added, n, "after every addition")
		v := sym.Int()
		added = append(added, v)
		r.Add(v)
	}
	for i, s := range snaps {
		expect(s, added[:i], n, "kept as a snapshot")
	}
	sym.Cover("done")
}

// P07_AnyValue: values of every kind, nil included, are kept as they are.
// Bounds: ring of 3, 4 additions.
func P07_AnyValue() {
	r := xring.NewRing(3)
	p := &struct{ x int }{1}
	vals := []interface{}{nil, "a", p, nil}
	k := sym.Choose(5)
	for i := 0; i < k; i++ {
		r.Add(vals[i])
	}
	got := r.Take()
	m := k
	if m > 3 {
		m = 3
	}
	sym.Assert(len(got) == m, "nil items count as items")
	for i := range got {
		sym.Assert(got[i] == vals[k-m+i], "every kind of value is kept as it is")
	}
}

// P07_Refused: sizes below one are refused.
// Bounds: every int below one, and 1..3.
func P07_Refused() {
	n := sym.Int()
	sym.Assume(n <= 3)
	if n < 1 {
		sym.Cover("refused")
		_, panicked := sym.Catch(func() { xring.NewRing(n) })
		sym.Assert(panicked, "a size below one is refused with a panic")
		return
	}
	sym.Cover("accepted")
	n = sym.Concrete(n)
	sym.Assert(len(xring.NewRing(n).Take()) == 0, "a new ring is empty")
}

type add struct{ call, ret, v int }
type take struct {
	call, ret int
	got       []interface{}
}

func addOp(o add) lin.Op {
	return lin.Op{Call: o.call, Ret: o.ret, F: func(s interface{}) (interface{}, bool) {
		l := s.([]int)
		return append(l[:len(l):len(l)], o.v), true
	}}
}

func takeOp(o take, n int) lin.Op {
	return lin.Op{Call: o.call, Ret: o.ret, F: func(s interface{}) (interface{}, bool) {
		l := s.([]int)
		k := len(l)
		if k > n {
			k = n
		}
		if len(o.got) != k {
			return s, false
		}
		same := true
		for i := 0; i < k; i++ {
			same = sym.And(same, o.got[i] == l[len(l)-k+i])
		}
		return s, same
	}}
}

func concurrent(n int, adders []int, takes int) {
	sym.DecideOrders()
	r := xring.NewRing(n)
	adds := make([][]add, len(adders))
	var wg sync.WaitGroup
	for a, k := range adders {
		a, k := a, k
		vals := make([]int, k)
		for i := range vals {
			vals[i] = sym.Int()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < k; i++ {
				o := add{v: vals[i]}
				o.call = sym.Call()
				r.Add(o.v)
				o.ret = sym.Ret()
				adds[a] = append(adds[a], o)
			}
		}()
	}
	var tk []take
	for i := 0; i < takes; i++ {
		o := take{}
		o.call = sym.Call()
		o.got = r.Take()
		o.ret = sym.Ret()
		tk = append(tk, o)
	}
	wg.Wait()
	o := take{call: sym.Call()}
	o.got = r.Take()
	o.ret = sym.Ret()
	tk = append(tk, o)
	var ops []lin.Op
	for _, as := range adds {
		for _, o := range as {
			ops = append(ops, addOp(o))
		}
	}
	for _, o := range tk {
		ops = append(ops, takeOp(o, n))
	}
	sym.Assert(lin.Check([]int(nil), ops, nil), "every take is a window of one single order of all additions")
	sym.Cover("done")
}

// P07_TwoAdders: two goroutines add while the main one takes.
// Bounds: ring of size 1..3; 2 adders with 2 and 1 additions, 2 takes during them and 1 after; every interleaving.
func P07_TwoAdders() { concurrent(1+sym.Choose(3), []int{2, 1}, 2) }

// P07_ThreeAdders: three goroutines add at the same time.
// Bounds: ring of size 2; 3 adders with 1 addition each (thorough 2,1,1), 1 take during them and 1 after; every interleaving.
func P07_ThreeAdders() { concurrent(2, []int{1 + sym.Tier(), 1, 1}, 1) }

// P07_TakersConcurrent: two goroutines take while another adds.
// Bounds: ring of size 2 holding 2 items; 1 addition, 2 takers of 1 take; every interleaving.
func P07_TakersConcurrent() {
	sym.DecideOrders()
	r := xring.NewRing(2)
	u, v, x := sym.Int(), sym.Int(), sym.Int()
	r.Add(u)
	r.Add(v)
	tk := make([]take, 2)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			tk[i].call = sym.Call()
			tk[i].got = r.Take()
			tk[i].ret = sym.Ret()
		}()
	}
	a := add{v: x, call: sym.Call()}
	r.Add(x)
	a.ret = sym.Ret()
	wg.Wait()
	sym.Assert(lin.Check([]int{u, v}, []lin.Op{addOp(a), takeOp(tk[0], 2), takeOp(tk[1], 2)}, nil), "concurrent takes are windows of one order of additions")
}

// P07_Large: rings and histories far beyond any initial capacity.
// Bounds: ring sizes 17, 70 and 300 (thorough also 1100), 2*size+9 additions of arbitrary values, takes around the moment the ring is full and every 100 additions.
func P07_Large() {
	sizes := []int{17, 70, 300, 1100}
	n := sizes[sym.Choose(3+sym.Tier())]
	r := xring.NewRing(n)
	var added []int
	var kept []interface{}
	at := 0
	for i := 0; i < 2*n+9; i++ {
		if i == n-1 || i == n || i == n+1 || i == 2*n+1 || i%100 == 99 {
			got := r.Take()
			expect(got, added, n, "in a long history")
			if i <= n+1 {
				kept, at = got, i
			}
		}
		v := sym.Int()
		added = append(added, v)
		r.Add(v)
	}
	expect(r.Take(), added, n, "after a long history")
	expect(kept, added[:at], n, "as a snapshot after many later additions")
	sym.Cover("done")
}

// P07_VeryLong: so many additions that any narrow counter has wrapped.
// Bounds: rings of size 3 and 16, 65545 additions, the last 20 of arbitrary values with a take after each.
func P07_VeryLong() {
	n := 3
	if sym.Choose(2) == 1 {
		n = 16
	}
	r := xring.NewRing(n)
	var added []int
	const total = 1<<16 + 9
	for i := 0; i < total; i++ {
		v := i
		if i >= total-20 {
			v = sym.Int()
		}
		added = append(added, v)
		r.Add(v)
		if i >= total-20 {
			expect(r.Take(), added, n, "in a very long history")
		}
	}
	sym.Cover("done")
}

// P07_Odd: values that code may be tempted to treat specially, equal neighbours included.
// Bounds: rings of size 1..4, 6 additions out of 2 neighbouring values of the 20 odd ones in every arrangement; a take at the end and one in between.
func P07_Odd() {
	n := 1 + sym.Choose(4)
	at := sym.Choose(lin.Odds)
	mid := sym.Choose(7)
	r := xring.NewRing(n)
	var added []interface{}
	check := func(got []interface{}) {
		k := len(added)
		if k > n {
			k = n
		}
		sym.Assert(len(got) == k, "items of every kind count as items, equal ones too")
		for i := range got {
			sym.Assert(lin.Same(got[i], added[len(added)-k+i]), "every kind of value is kept as it is")
		}
	}
	for i := 0; i < 6; i++ {
		if i == mid {
			check(r.Take())
		}
		v := lin.Odd((at + sym.Choose(2)) % lin.Odds)
		r.Add(v)
		added = append(added, v)
	}
	check(r.Take())
	sym.Cover("done")
}
