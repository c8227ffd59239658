// Package hmap states what the concurrent map must do: behave as a dictionary,
// one operation at a time or all at once.
package hmap

import (
	"sync"

	"github.com/chenquan/go-pkg/internal/zzverif/lin"
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xsync"
)

const (
	store = iota
	load
	loadOrStore
	loadAndDelete
	remove
	computeIfAbsent
	computeIfPresent
	clear
	visit
)

const nKeys = 3

// dict is the plain dictionary.
type dict struct {
	has [nKeys]bool
	val [nKeys]int
}

func (d dict) with(k, v int) dict {
	d.has[k], d.val[k] = true, v
	return d
}

func (d dict) without(k int) dict {
	d.has[k], d.val[k] = false, 0
	return d
}

// equal compares under one formula.
func (d dict) equal(o dict) bool {
	if d.has != o.has {
		return false
	}
	ok := true
	for k := range d.val {
		ok = sym.And(ok, d.val[k] == o.val[k])
	}
	return ok
}

type step struct{ op, key int }

type rec struct {
	op, key, val int
	v            interface{}
	ok           bool
	calls        int         // of the compute function
	arg          interface{} // it was given
	argKey       interface{}
	seen         dict // values visited
	twice        bool
	call, ret    int
}

func do(m *xsync.Map, op, key, val int) rec {
	r := rec{op: op, key: key, val: val}
	r.call = sym.Call()
	switch op {
	case store:
		m.Store(key, val)
	case load:
		r.v, r.ok = m.Load(key)
	case loadOrStore:
		r.v, r.ok = m.LoadOrStore(key, val)
	case loadAndDelete:
		r.v, r.ok = m.LoadAndDelete(key)
	case remove:
		m.Delete(key)
	case computeIfAbsent:
		r.v, r.ok = m.ComputeIfAbsent(key, func(k interface{}) interface{} {
			r.calls++
			r.argKey = k
			return val
		})
	case computeIfPresent:
		r.v, r.ok = m.ComputeIfPresent(key, func(k, old interface{}) interface{} {
			r.calls++
			r.argKey, r.arg = k, old
			return old.(int) + val
		})
	case clear:
		m.Clear()
	case visit:
		m.Range(func(k, v interface{}) bool {
			i := k.(int)
			r.twice = r.twice || r.seen.has[i]
			r.seen = r.seen.with(i, v.(int))
			return true
		})
	}
	r.ret = sym.Ret()
	return r
}

func same(v interface{}, ok, has bool, want int) bool {
	if !has {
		return v == nil && !ok
	}
	return ok && v == want
}

// apply is the sequential meaning of one operation.
func apply(d dict, r rec) (dict, bool) {
	has, old := d.has[r.key], d.val[r.key]
	switch r.op {
	case store:
		return d.with(r.key, r.val), true
	case load:
		return d, same(r.v, r.ok, has, old)
	case loadOrStore, computeIfAbsent:
		if !has {
			return d.with(r.key, r.val), !r.ok && r.v == r.val
		}
		return d, r.ok && r.v == old
	case loadAndDelete:
		return d.without(r.key), same(r.v, r.ok, has, old)
	case remove:
		return d.without(r.key), true
	case computeIfPresent:
		if !has {
			return d, r.v == nil && !r.ok
		}
		return d.with(r.key, old+r.val), r.ok && r.v == old+r.val
	case clear:
		return dict{}, true
	case visit:
		if r.twice {
			return d, false
		}
		return d, r.seen.equal(d)
	}
	return d, false
}

// seq runs one operation on its own and compares with the dictionary.
func seq(m *xsync.Map, d dict, op, key, val int) dict {
	r := do(m, op, key, val)
	n, ok := apply(d, r)
	sym.Assert(ok, "an operation answers what a dictionary answers")
	if op == computeIfAbsent || op == computeIfPresent {
		want := 0
		if !d.has[key] == (op == computeIfAbsent) {
			want = 1
		}
		sym.Assert(r.calls == want, "a compute function is called exactly once when it applies, and otherwise not at all")
		if want == 1 {
			sym.Assert(r.argKey == key && (op == computeIfAbsent || r.arg == d.val[key]), "a compute function receives the key and its current value")
		}
	}
	return n
}

func all(m *xsync.Map, d dict) {
	seq(m, d, visit, 0, 0)
	for k := 0; k < nKeys; k++ {
		seq(m, d, load, k, 0)
	}
	seq(m, d, visit, 0, 0)
}

// prefixes lead to the different internal states: entries only in the dirty
// table, promoted, deleted, expunged, and combinations of these.
var prefixes = [][]step{
	{},
	{{store, 0}},
	{{store, 0}, {load, 1}},
	{{store, 0}, {visit, 0}, {remove, 0}},
	{{store, 0}, {visit, 0}, {remove, 0}, {store, 1}},
	{{store, 0}, {visit, 0}, {store, 1}},
	{{store, 0}, {store, 1}, {visit, 0}, {remove, 0}},
	{{store, 0}, {store, 1}, {visit, 0}, {remove, 0}, {store, 2}},
	{{store, 0}, {visit, 0}, {store, 1}, {loadAndDelete, 1}},
	{{store, 0}, {visit, 0}, {remove, 0}, {store, 1}, {store, 0}, {store, 2}, {load, 2}},
	{{store, 2}, {visit, 0}, {store, 0}, {store, 1}},
}

func prepare(i int) (*xsync.Map, dict) {
	m := &xsync.Map{}
	var d dict
	for _, s := range prefixes[i] {
		d = seq(m, d, s.op, s.key, value(s.op))
	}
	return m, d
}

// value is any value for an operation that takes one.
func value(op int) int {
	switch op {
	case store, loadOrStore, computeIfAbsent, computeIfPresent:
		return sym.Int()
	}
	return 0
}

// pick chooses an operation on one of n keys.
func pick(n int) (op, key int) {
	c := sym.Choose(7*n + 2)
	if c >= 7*n {
		return clear + c - 7*n, 0
	}
	return c / n, c % n
}

// P20_Histories: any operations from any prepared state.
// Bounds: 11 prepared states (up to 3 keys), then 3 (thorough 4) operations of any kind on any of 2 keys, then everything is looked up and visited; every iteration order of tables of up to 2 keys.
func P20_Histories() {
	sym.MapOrder(2)
	m, d := prepare(sym.Choose(len(prefixes)))
	for i := 0; i < 3+sym.Tier(); i++ {
		op, key := pick(2)
		d = seq(m, d, op, key, value(op))
	}
	all(m, d)
	sym.Cover("done")
}

// P20_FromEmpty: any operations on a new map.
// Bounds: 4 (thorough 5) operations of any kind on any of 2 keys, then everything is looked up and visited; every iteration order.
func P20_FromEmpty() {
	m := &xsync.Map{}
	var d dict
	for i := 0; i < 4+sym.Tier(); i++ {
		op, key := pick(2)
		d = seq(m, d, op, key, value(op))
	}
	all(m, d)
	sym.Cover("done")
}

// P20_Keys: keys that may or may not be equal, of several types.
// Bounds: 3 stores followed by 1 removal; keys any of two 64-bit integers, a one-byte text, or a struct; values any 64-bit integer or nil.
func P20_Keys() {
	type pair struct{ a, b int }
	mk := func() interface{} {
		switch sym.Choose(4) {
		case 0:
			return sym.Int()
		case 1:
			return sym.Int64()
		case 2:
			return string([]byte{sym.Uint8()})
		}
		return pair{sym.Int(), 1}
	}
	m := &xsync.Map{}
	var ks, vs []interface{}
	for i := 0; i < 3; i++ {
		k := mk()
		var v interface{}
		if sym.Choose(2) == 0 {
			v = sym.Int()
		}
		m.Store(k, v)
		ks, vs = append(ks, k), append(vs, v)
		if i == 1 {
			m.Range(func(k, v interface{}) bool { return true })
		}
	}
	find := func(k interface{}, upto int) (interface{}, bool) {
		for i := upto - 1; i >= 0; i-- {
			if ks[i] == k {
				return vs[i], true
			}
		}
		return nil, false
	}
	q := mk()
	wv, wok := find(q, 3)
	gv, gok := m.Load(q)
	sym.Assert(gok == wok && gv == wv, "a key finds the value last stored under an equal key")
	dv, dok := m.LoadAndDelete(q)
	sym.Assert(dok == wok && dv == wv, "removing returns the value last stored under an equal key")
	_, still := m.Load(q)
	sym.Assert(!still, "a removed key is gone")
	for i := range ks {
		if ks[i] == q {
			continue
		}
		w, _ := find(ks[i], 3)
		g, ok := m.Load(ks[i])
		sym.Assert(ok && g == w, "removing one key does not touch the others")
	}
	sym.Cover("done")
}

// P20_RangeStops: a range stops when told to.
// Bounds: 11 prepared states, every number of visits before stopping, every iteration order.
func P20_RangeStops() {
	m, d := prepare(sym.Choose(len(prefixes)))
	n := 0
	for _, h := range d.has {
		if h {
			n++
		}
	}
	stop := 1 + sym.Choose(nKeys)
	visits := 0
	var seen dict
	m.Range(func(k, v interface{}) bool {
		visits++
		sym.Assert(!seen.has[k.(int)], "a range visits no key twice")
		seen = seen.with(k.(int), v.(int))
		sym.Assert(d.has[k.(int)] && v == d.val[k.(int)], "a range passes the value of the key")
		return visits < stop
	})
	if stop < n {
		sym.Cover("stopped early")
		sym.Assert(visits == stop, "a range stops as soon as it is told to")
	} else {
		sym.Assert(visits == n, "a range visits every key")
	}
	all(m, d)
}

// P20_RangeMutates: operations issued from inside a range.
// Bounds: 11 prepared states; 1 operation of any kind on any of 3 keys at the first visit; every iteration order.
func P20_RangeMutates() {
	m, d := prepare(sym.Choose(len(prefixes)))
	before := d
	op, key := pick(3)
	first := true
	var seen dict
	m.Range(func(k, v interface{}) bool {
		i := k.(int)
		sym.Assert(!seen.has[i], "a range visits no key twice")
		seen = seen.with(i, v.(int))
		if first {
			first = false
			d = seq(m, d, op, key, value(op))
		}
		return true
	})
	for k := 0; k < nKeys; k++ {
		if before.has[k] && d.has[k] && d.val[k] == before.val[k] {
			sym.Assert(seen.has[k] && seen.val[k] == d.val[k], "a range visits every key that is not changed meanwhile")
		}
		if seen.has[k] {
			sym.Assert(sym.Or(before.has[k] && seen.val[k] == before.val[k], d.has[k] && seen.val[k] == d.val[k]), "a range passes only values that the key had")
		}
	}
	all(m, d)
	sym.Cover("done")
}

// ---- concurrency ---------------------------------------------------------------

func linOps(rs []rec) []lin.Op {
	var ops []lin.Op
	for _, r := range rs {
		r := r
		ops = append(ops, lin.Op{Call: r.call, Ret: r.ret, F: func(s interface{}) (interface{}, bool) {
			d, ok := apply(s.(dict), r)
			return d, ok
		}})
	}
	return ops
}

// together runs the plans at the same time and checks that one order explains everything.
func together(prefix int, plans [][]step) {
	sym.MapOrder(0)
	m, d := prepare(prefix)
	vals := make([][]int, len(plans))
	for t := range plans {
		for _, s := range plans[t] {
			vals[t] = append(vals[t], value(s.op))
		}
	}
	out := make([][]rec, len(plans))
	var wg sync.WaitGroup
	for t := 1; t < len(plans); t++ {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, s := range plans[t] {
				out[t] = append(out[t], do(m, s.op, s.key, vals[t][i]))
			}
		}()
	}
	for i, s := range plans[0] {
		out[0] = append(out[0], do(m, s.op, s.key, vals[0][i]))
	}
	wg.Wait()
	var rs []rec
	for _, o := range out {
		rs = append(rs, o...)
	}
	for k := 0; k < nKeys; k++ {
		rs = append(rs, do(m, load, k, 0))
	}
	rs = append(rs, do(m, visit, 0, 0))
	rs = append(rs, do(m, store, 0, sym.Int()))
	rs = append(rs, do(m, load, 0, 0))
	rs = append(rs, do(m, load, 1, 0))
	sym.Assert(lin.Check(d, linOps(rs), nil), "one sequential order explains the results of all operations")
	sym.Cover("done")
}

// op1 chooses a linearizable operation on one of n keys.
func op1(n int) step {
	c := sym.Choose(7*n + 1)
	if c == 7*n {
		return step{clear, 0}
	}
	return step{c / n, c % n}
}

// P21_TwoOps: two goroutines with one operation each.
// Bounds: 11 prepared states; 1 operation of any kind on any of 2 keys in each of 2 goroutines; every interleaving.
func P21_TwoOps() {
	sym.DecideOrders()
	p := sym.Choose(len(prefixes))
	together(p, [][]step{{op1(2)}, {op1(2)}})
}

// few chooses among the operations that change the map's tables.
func few() step {
	l := []step{{store, 0}, {store, 1}, {loadAndDelete, 0}, {loadOrStore, 0}, {load, 0}, {load, 1}, {clear, 0}, {computeIfPresent, 0}}
	return l[sym.Choose(len(l))]
}

// P21_TwoAndOne: one goroutine with two operations and one with one.
// Bounds: 11 prepared states; operations among 8 kinds and keys; at most 1 (thorough 2) preemptions.
func P21_TwoAndOne() {
	sym.Sched("preempt", 1+sym.Tier())
	p := sym.Choose(len(prefixes))
	together(p, [][]step{{few(), few()}, {few()}})
}

// P21_Three: three goroutines with one operation each.
// Bounds: prepared states with a deleted, expunged, dirty or promoted entry; 3 operations among 8 kinds and keys (in any assignment); at most 1 (thorough 2) preemptions.
func P21_Three() {
	sym.Sched("preempt", 1+sym.Tier())
	p := []int{0, 2, 3, 4, 5, 7}[sym.Choose(6)]
	a := sym.Choose(8)
	b := a + sym.Choose(8-a)
	c := b + sym.Choose(8-b)
	l := []step{{store, 0}, {store, 1}, {loadAndDelete, 0}, {loadOrStore, 0}, {load, 0}, {load, 1}, {clear, 0}, {computeIfPresent, 0}}
	together(p, [][]step{{l[a]}, {l[b]}, {l[c]}})
}

// P21_Range: a range at the same time as other operations.
// Bounds: 11 prepared states; 1 range in one goroutine, 1 (thorough 2) operations of any kind on any of 2 keys in another; every interleaving and iteration order.
func P21_Range() {
	m, d := prepare(sym.Choose(len(prefixes)))
	n := 1 + sym.Tier()
	had := []dict{d}
	stay := d.has
	var plan []step
	var vals []int
	for i := 0; i < n; i++ {
		plan = append(plan, op1(2))
		vals = append(vals, value(plan[i].op))
	}
	var rs []rec
	done := make(chan struct{})
	go func() {
		for i, s := range plan {
			rs = append(rs, do(m, s.op, s.key, vals[i]))
		}
		close(done)
	}()
	r := do(m, visit, 0, 0)
	<-done
	for _, x := range rs {
		var ok bool
		d, ok = apply(d, x)
		sym.Assert(ok, "a range does not change what other operations answer")
		had = append(had, d)
		for k := range stay {
			stay[k] = stay[k] && d.has[k]
		}
	}
	sym.Assert(!r.twice, "a range visits no key twice")
	for k := range stay {
		if r.seen.has[k] {
			ok := false
			for _, h := range had {
				if h.has[k] {
					ok = sym.Or(ok, r.seen.val[k] == h.val[k])
				}
			}
			sym.Assert(ok, "a range passes only values that the key had")
		}
		sym.Assert(!stay[k] || r.seen.has[k], "a range visits every key that stays")
	}
	all(m, d)
	sym.Cover("done")
}

// ---- compute ------------------------------------------------------------------

// P22_Increments: concurrent increments of one counter.
// Bounds: 11 prepared states with the counter stored last; 2 goroutines with 1 increment each (thorough 2 and 1); every interleaving.
func P22_Increments() {
	m, d := prepare(sym.Choose(len(prefixes)))
	d = seq(m, d, store, 0, sym.Int())
	inc := func(k, v interface{}) interface{} { return v.(int) + 1 }
	done := make(chan struct{})
	a := 1 + sym.Tier()
	go func() {
		for i := 0; i < a; i++ {
			_, ok := m.ComputeIfPresent(0, inc)
			sym.Assert(ok, "a present counter is incremented")
		}
		close(done)
	}()
	_, ok := m.ComputeIfPresent(0, inc)
	sym.Assert(ok, "a present counter is incremented")
	<-done
	v, _ := m.Load(0)
	sym.Assert(v == d.val[0]+a+1, "concurrent increments all count")
	d.val[0] += a + 1
	all(m, d)
	sym.Cover("done")
}

// P22_ThreeIncrements: three goroutines increment one counter.
// Bounds: 3 goroutines with 1 increment each on a counter that is in the dirty table, promoted, or both; quick: at most 3 preemptions, thorough: every interleaving.
func P22_ThreeIncrements() {
	if sym.Tier() == 0 {
		sym.Sched("preempt", 3)
	}
	m, d := prepare([]int{0, 2, 5}[sym.Choose(3)])
	d = seq(m, d, store, 0, sym.Int())
	inc := func(k, v interface{}) interface{} { return v.(int) + 1 }
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m.ComputeIfPresent(0, inc)
		}()
	}
	m.ComputeIfPresent(0, inc)
	wg.Wait()
	d.val[0] += 3
	all(m, d)
}

// P22_Absent: concurrent compute-if-absent of one key.
// Bounds: 11 prepared states with the key removed last or not; 2 (thorough 3) goroutines; every interleaving (3 goroutines: at most 3 preemptions).
func P22_Absent() {
	if sym.Tier() == 1 {
		sym.Sched("preempt", 3)
	}
	m, d := prepare(sym.Choose(len(prefixes)))
	if sym.Choose(2) == 0 {
		d = seq(m, d, remove, 0, 0)
	}
	n := 2 + sym.Tier()
	rs := make([]rec, n)
	vals := make([]int, n)
	for i := range vals {
		vals[i] = sym.Int()
	}
	var wg sync.WaitGroup
	for i := 1; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			rs[i] = do(m, computeIfAbsent, 0, vals[i])
		}()
	}
	rs[0] = do(m, computeIfAbsent, 0, vals[0])
	wg.Wait()
	won, there := 0, d.has[0]
	for i := range rs {
		if !rs[i].ok {
			won++
			sym.Assert(rs[i].calls > 0 && rs[i].v == vals[i], "a caller that stored got its own computed value")
			d = d.with(0, vals[i])
		}
	}
	sym.Assert(won == 1 && !there || won == 0 && there, "exactly one value is stored per absence")
	for i := range rs {
		sym.Assert(rs[i].v == d.val[0], "every caller gets the stored value")
	}
	all(m, d)
	sym.Cover("done")
}

// P22_Mixed: compute operations against every other operation.
// Bounds: 11 prepared states; compute-if-present or compute-if-absent of key 0 in one goroutine, 1 (thorough 2) operations of any kind on any of 2 keys in another; every interleaving.
func P22_Mixed() {
	sym.DecideOrders()
	p := sym.Choose(len(prefixes))
	a := []step{{computeIfAbsent + sym.Choose(2), 0}}
	b := []step{op1(2)}
	if sym.Tier() == 1 {
		b = append(b, op1(2))
	}
	together(p, [][]step{a, b})
}

// P22_Panics: a compute function that panics.
// Bounds: 11 prepared states, either compute operation on any of 3 keys; then any operation on any of 2 keys, by the same or another goroutine.
func P22_Panics() {
	m, d := prepare(sym.Choose(len(prefixes)))
	key := sym.Choose(nKeys)
	absent := sym.Choose(2) == 0
	called := 0
	v, panicked := sym.Catch(func() {
		if absent {
			m.ComputeIfAbsent(key, func(k interface{}) interface{} { called++; panic("boom") })
		} else {
			m.ComputeIfPresent(key, func(k, v interface{}) interface{} { called++; panic("boom") })
		}
	})
	if absent == !d.has[key] {
		sym.Cover("panicked")
		sym.Assert(panicked && v == "boom", "the panic of the compute function reaches the caller")
	} else {
		sym.Cover("not called")
		sym.Assert(!panicked && called == 0, "a compute function that does not apply is not called")
	}
	if sym.Choose(2) == 0 {
		op, k := pick(2)
		d = seq(m, d, op, k, value(op))
	} else {
		done := make(chan struct{})
		op, k := pick(2)
		go func() {
			d = seq(m, d, op, k, value(op))
			close(done)
		}()
		<-done
	}
	all(m, d)
}

// P22_PanicsConcurrent: a compute function that panics while others work on the key.
// Bounds: 11 prepared states, either compute operation panics in one goroutine, 1 operation of any kind on any of 2 keys in the other; every interleaving.
func P22_PanicsConcurrent() {
	m, d := prepare(sym.Choose(len(prefixes)))
	absent := sym.Choose(2) == 0
	s := op1(2)
	val := value(s.op)
	done := make(chan struct{})
	go func() {
		sym.Catch(func() {
			if absent {
				m.ComputeIfAbsent(0, func(k interface{}) interface{} { panic("boom") })
			} else {
				m.ComputeIfPresent(0, func(k, v interface{}) interface{} { panic("boom") })
			}
		})
		close(done)
	}()
	r := do(m, s.op, s.key, val)
	<-done
	d, ok := apply(d, r)
	sym.Assert(ok, "an operation is not disturbed by a panicking compute function")
	all(m, d)
	sym.Cover("done")
}

// rnd is a small generator of operations.
type rnd uint32

func (r *rnd) next(n int) int {
	*r = *r*1664525 + 1013904223
	return int(*r>>8) % n
}

// P20_Long: long histories over many keys.
// Bounds: 12 (thorough 60) fixed histories of 1500 operations of every kind over 6, 40 or 300 keys, in phases that grow, shrink, look up and mix, values offset by any one 64-bit integer; everything visited every 100 operations and looked up at the end; tables iterated in insertion order.
func P20_Long() {
	sym.Sched("delay", 0)
	sym.MapOrder(0)
	c := sym.Choose(12 + 48*sym.Tier())
	keys := []int{6, 40, 300}[c%3]
	r := rnd(c + 1)
	base := sym.Int()
	m := &xsync.Map{}
	has := make([]bool, keys)
	val := make([]int, keys)
	n := 0
	put := func(k, v int) {
		if !has[k] {
			n++
		}
		has[k], val[k] = true, v
	}
	del := func(k int) {
		if has[k] {
			n--
		}
		has[k], val[k] = false, 0
	}
	visitAll := func() {
		seen := make([]bool, keys)
		visits := 0
		m.Range(func(k, v interface{}) bool {
			i := k.(int)
			sym.Assert(has[i] && !seen[i] && v == val[i], "a range passes each key once with its value, however many there are")
			seen[i] = true
			visits++
			return true
		})
		sym.Assert(visits == n, "a range visits every key, however many there are")
	}
	for i := 0; i < 1500; i++ {
		k := r.next(keys)
		v := base + i
		op := r.next(7)
		switch phase := i / 150 % 5; {
		case phase == 1 && op < 4: // grow
			op = store
			k = i % keys
		case phase == 2 && op < 4: // look up
			op = load
		case phase == 3 && op < 5: // shrink
			op = remove
			k = i % keys
		}
		x := do(m, op, k, v)
		msg := "an operation answers what a dictionary answers in a long history"
		switch op {
		case store:
			put(k, v)
		case load:
			sym.Assert(same(x.v, x.ok, has[k], val[k]), msg)
		case loadOrStore, computeIfAbsent:
			if has[k] {
				sym.Assert(x.ok && x.v == val[k] && x.calls == 0, msg)
			} else {
				sym.Assert(!x.ok && x.v == v && (op == loadOrStore || x.calls == 1 && x.argKey == k), msg)
				put(k, v)
			}
		case loadAndDelete:
			sym.Assert(same(x.v, x.ok, has[k], val[k]), msg)
			del(k)
		case remove:
			del(k)
		case computeIfPresent:
			if has[k] {
				sym.Assert(x.ok && x.v == val[k]+v && x.calls == 1 && x.arg == val[k], msg)
				put(k, val[k]+v)
			} else {
				sym.Assert(x.v == nil && !x.ok && x.calls == 0, msg)
			}
		}
		if i%100 == 99 {
			visitAll()
		}
		if i == 1100 {
			m.Clear()
			for j := range has {
				del(j)
			}
			visitAll()
		}
	}
	for k := range has {
		v, ok := m.Load(k)
		sym.Assert(same(v, ok, has[k], val[k]), "a key holds the value last stored after a long history")
	}
	visitAll()
	sym.Cover("done")
}

// P21_Many: many goroutines with keys of their own.
// Bounds: 8 goroutines with 60 (thorough 300) operations each over 5 keys of their own and a shared one that is always present, while the main goroutine ranges; 12 schedules: a switch to the next goroutine after every q steps of synchronisation, q = 1..12.
func P21_Many() {
	sym.Sched("rotate", 1+sym.Choose(12))
	sym.MapOrder(0)
	base := sym.Int()
	m := &xsync.Map{}
	m.Store(0, base)
	var wg sync.WaitGroup
	last := make([]map[int]int, 8)
	for g := 0; g < 8; g++ {
		g := g
		last[g] = map[int]int{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rnd(g + 1)
			own := last[g]
			for i := 0; i < 60+240*sym.Tier(); i++ {
				k := 1 + 10*g + r.next(5)
				old, has := own[k]
				v := base + i
				op := r.next(7)
				x := do(m, op, k, v)
				msg := "a key that only one goroutine uses behaves as if it were alone"
				switch op {
				case store:
					own[k] = v
				case load:
					sym.Assert(same(x.v, x.ok, has, old), msg)
				case loadOrStore, computeIfAbsent:
					if has {
						sym.Assert(x.ok && x.v == old, msg)
					} else {
						sym.Assert(!x.ok && x.v == v, msg)
						own[k] = v
					}
				case loadAndDelete:
					sym.Assert(same(x.v, x.ok, has, old), msg)
					delete(own, k)
				case remove:
					delete(own, k)
				case computeIfPresent:
					if has {
						sym.Assert(x.ok && x.v == old+v, msg)
						own[k] = old + v
					} else {
						sym.Assert(x.v == nil && !x.ok, msg)
					}
				}
				y, ok := m.Load(0)
				sym.Assert(ok && y == base, "a key that nobody changes is always found")
			}
		}()
	}
	for i := 0; i < 20; i++ {
		found := false
		seen := map[interface{}]bool{}
		m.Range(func(k, v interface{}) bool {
			sym.Assert(!seen[k], "a range passes no key twice")
			seen[k] = true
			found = found || k == 0 && v == base
			return true
		})
		sym.Assert(found, "a range passes a key that nobody changes")
	}
	wg.Wait()
	n := 1
	for g := range last {
		n += len(last[g])
		for k, v := range last[g] {
			x, ok := m.Load(k)
			sym.Assert(ok && x == v, "every key holds the value last stored")
		}
	}
	m.Range(func(k, v interface{}) bool { n--; return true })
	sym.Assert(n == 0, "a range visits every key and no other")
	sym.Cover("done")
}

// P22_Many: many increments.
// Bounds: 8 goroutines with 40 (thorough 200) increments each of one of 2 counters with any start, 1 goroutine that stores, promotes and removes other keys, 16 goroutines that compute an absent key; 12 schedules: a switch to the next goroutine after every q steps of synchronisation, q = 1..12.
func P22_Many() {
	sym.Sched("rotate", 1+sym.Choose(12))
	sym.MapOrder(0)
	start := sym.Int()
	m := &xsync.Map{}
	m.Store(0, start)
	m.Store(1, start)
	each := 40 + 160*sym.Tier()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				_, ok := m.ComputeIfPresent(g%2, func(k, old interface{}) interface{} { return old.(int) + 1 })
				sym.Assert(ok, "a counter that is never removed is present")
			}
		}()
	}
	calls := 0
	got := make([]interface{}, 16)
	for g := range got {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			got[g], _ = m.ComputeIfAbsent(2, func(k interface{}) interface{} { calls++; return g })
		}()
	}
	for i := 0; i < each; i++ {
		m.Store(10+i%7, i)
		if i%5 == 0 {
			m.Range(func(k, v interface{}) bool { return true })
		}
		m.Delete(10 + (i+3)%7)
	}
	wg.Wait()
	for k := 0; k < 2; k++ {
		v, ok := m.Load(k)
		sym.Assert(ok && v == start+4*each, "no increment is lost")
	}
	v, _ := m.Load(2)
	sym.Assert(calls == 1, "an absent key is computed once")
	for _, x := range got {
		sym.Assert(x == v, "everyone gets the value that was computed")
	}
	sym.Cover("done")
}

// P20_Odd: keys and values of any kind.
// Bounds: an empty map or one with the key stored, promoted, removed, or removed and expunged; 2 operations of any kind on one key, which is any of 20 values that can be compared; the values any of 14 (thorough 20) odd ones, quick: 7 at a time (nil, typed nils, zero values, errors, functions, lists, values that cannot be compared); tables in insertion order.
func P20_Odd() {
	sym.MapOrder(0)
	m := &xsync.Map{}
	k := lin.OddKey(sym.Choose(lin.Odds))
	kinds := 7 + 13*sym.Tier()
	off := 0
	if sym.Tier() == 0 {
		off = 7 * sym.Choose(2)
	}
	odd := func() interface{} { return lin.Odd((off + sym.Choose(kinds)) % lin.Odds) }
	var want interface{}
	has := false
	pre := sym.Choose(5)
	if pre > 0 {
		want, has = lin.Odd(4), true
		m.Store(k, want)
	}
	if pre > 1 {
		m.Range(func(interface{}, interface{}) bool { return true })
	}
	if pre > 2 {
		m.Delete(k)
		want, has = nil, false
	}
	if pre > 3 {
		m.Store("another key", 1)
		m.Delete("another key")
	}
	for i := 0; i < 2; i++ {
		switch sym.Choose(8) {
		case 0:
			want, has = odd(), true
			m.Store(k, want)
		case 1:
			v, ok := m.Load(k)
			sym.Assert(ok == has && lin.Same(v, want), "a load returns the value stored last")
		case 2:
			x := odd()
			v, loaded := m.LoadOrStore(k, x)
			if !has {
				want = x
			}
			sym.Assert(loaded == has && lin.Same(v, want), "load-or-store returns the value that is there")
			has = true
		case 3:
			v, ok := m.LoadAndDelete(k)
			sym.Assert(ok == has && lin.Same(v, want), "load-and-delete returns the value that was there")
			want, has = nil, false
		case 4:
			m.Delete(k)
			want, has = nil, false
		case 5:
			x, calls := odd(), 0
			v, loaded := m.ComputeIfAbsent(k, func(q interface{}) interface{} {
				sym.Assert(q == k, "the function is given the key")
				calls++
				return x
			})
			if !has {
				want = x
			}
			sym.Assert(loaded == has && lin.Same(v, want), "compute-if-absent returns the value that is there")
			sym.Assert(has || calls == 1, "compute-if-absent computes once")
			has = true
		case 6:
			x := odd()
			v, ok := m.ComputeIfPresent(k, func(q, old interface{}) interface{} {
				sym.Assert(q == k && has && lin.Same(old, want), "the function is given the key and its value")
				return x
			})
			if has {
				want = x
			}
			sym.Assert(ok == has && lin.Same(v, want), "compute-if-present returns the new value")
		case 7:
			m.Clear()
			want, has = nil, false
		}
	}
	v, ok := m.Load(k)
	sym.Assert(ok == has && lin.Same(v, want), "a load returns the value stored last")
	n := 0
	m.Range(func(q, v interface{}) bool {
		sym.Assert(q == k && has && lin.Same(v, want), "a range visits what is stored")
		n++
		return true
	})
	sym.Assert((n == 1) == has, "a range visits what is stored")
	sym.Cover("done")
}
