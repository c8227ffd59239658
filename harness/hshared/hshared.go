// Package hshared states what the sharded map must do: behave as one
// dictionary whatever its number of shards.
package hshared

import (
	"github.com/chenquan/go-pkg/internal/zzverif/lin"
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xsync"
)

const (
	store = iota
	load
	loadOrStore
	remove
	has
	computeIfAbsent
	computeIfPresent
	mstore // of this key and the next
	clear
	visit
)

var keys = []string{"", "k1", "\xff\x00"}

const nKeys = 3

// dict is the plain dictionary.
type dict struct {
	has [nKeys]bool
	val [nKeys]int
}

func (d dict) with(k, v int) dict {
	d.has[k], d.val[k] = true, v
	return d
}

func (d dict) without(k int) dict {
	d.has[k], d.val[k] = false, 0
	return d
}

// equal compares under one formula.
func (d dict) equal(o dict) bool {
	if d.has != o.has {
		return false
	}
	ok := true
	for k := range d.val {
		ok = sym.And(ok, d.val[k] == o.val[k])
	}
	return ok
}

type rec struct {
	op, key, val int
	v            interface{}
	ok           bool
	calls        int
	badKey       bool
	arg          interface{}
	seen         dict
	twice        bool
	call, ret    int
}

func index(k string) int {
	for i, x := range keys {
		if x == k {
			return i
		}
	}
	sym.Assert(false, "the map contains only keys that were stored")
	return 0
}

func do(m *xsync.SharedMap, op, key, val int) rec {
	r := rec{op: op, key: key, val: val}
	k := keys[key]
	r.call = sym.Call()
	switch op {
	case store:
		m.Store(k, val)
	case load:
		r.v, r.ok = m.Load(k)
	case loadOrStore:
		r.ok = m.LoadOrStore(k, val)
	case remove:
		m.Delete(k)
	case has:
		r.ok = m.Has(k)
	case computeIfAbsent:
		r.v, r.ok = m.ComputeIfAbsent(k, func(g string) interface{} {
			r.calls++
			r.badKey = r.badKey || g != k
			return val
		})
	case computeIfPresent:
		r.v, r.ok = m.ComputeIfPresent(k, func(g string, old interface{}) interface{} {
			r.calls++
			r.badKey = r.badKey || g != k
			r.arg = old
			return old.(int) + val
		})
	case mstore:
		m.MStore(map[string]interface{}{k: val, keys[(key+1)%nKeys]: val + 1})
	case clear:
		m.Clear()
	case visit:
		m.Range(func(k, v interface{}) bool {
			i := index(k.(string))
			r.twice = r.twice || r.seen.has[i]
			r.seen = r.seen.with(i, v.(int))
			return true
		})
	}
	r.ret = sym.Ret()
	return r
}

func same(v interface{}, ok, has bool, want int) bool {
	if !has {
		return v == nil && !ok
	}
	return ok && v == want
}

// apply is the sequential meaning of one operation.
func apply(d dict, r rec) (dict, bool) {
	here, old := d.has[r.key], d.val[r.key]
	if r.badKey {
		return d, false
	}
	switch r.op {
	case store:
		return d.with(r.key, r.val), true
	case load:
		return d, same(r.v, r.ok, here, old)
	case has:
		return d, r.ok == here
	case loadOrStore:
		if !here {
			d = d.with(r.key, r.val)
		}
		return d, r.ok == !here
	case computeIfAbsent:
		if !here {
			return d.with(r.key, r.val), !r.ok && r.v == r.val
		}
		return d, r.ok && r.v == old
	case remove:
		return d.without(r.key), true
	case computeIfPresent:
		if !here {
			return d, r.v == nil && !r.ok
		}
		if !r.ok {
			return d, false
		}
		return d.with(r.key, old+r.val), sym.And(r.v == old+r.val, r.arg == old)
	case mstore:
		return d.with(r.key, r.val).with((r.key+1)%nKeys, r.val+1), true
	case clear:
		return dict{}, true
	case visit:
		if r.twice {
			return d, false
		}
		return d, r.seen.equal(d)
	}
	return d, false
}

// value is any value for an operation that takes one.
func value(op int) int {
	switch op {
	case store, loadOrStore, computeIfAbsent, computeIfPresent, mstore:
		return sym.Int()
	}
	return 0
}

func seq(m *xsync.SharedMap, d dict, op, key, val int) dict {
	r := do(m, op, key, val)
	n, ok := apply(d, r)
	sym.Assert(ok, "an operation answers what a dictionary answers")
	if op == computeIfAbsent || op == computeIfPresent {
		want := 0
		if !d.has[key] == (op == computeIfAbsent) {
			want = 1
		}
		sym.Assert(r.calls == want, "a compute function is called exactly once when it applies, and otherwise not at all")
	}
	return n
}

func all(m *xsync.SharedMap, d dict) {
	seq(m, d, visit, 0, 0)
	for k := 0; k < nKeys; k++ {
		seq(m, d, load, k, 0)
		seq(m, d, has, k, 0)
	}
}

func pick(n int) (op, key int) {
	c := sym.Choose(8*n + 2)
	if c >= 8*n {
		return clear + c - 8*n, 0
	}
	return c / n, c % n
}

func mk(n int) *xsync.SharedMap { return xsync.NewSharedMap(xsync.WithShardBlockSize(n)) }

// P23_Refused: a number of shards below one.
// Bounds: every int below 1.
func P23_Refused() {
	n := sym.Int()
	sym.Assume(n < 1)
	_, panicked := sym.Catch(func() { mk(n) })
	sym.Assert(panicked, "a shard count below one is refused at construction")
	sym.Cover("refused")
}

// P23_Counts: every number of shards works as one dictionary.
// Bounds: shard counts 1..64 (thorough 1..300) and the default; 3 fixed keys and 1 key of 0..2 arbitrary bytes; one fixed history with every operation.
func P23_Counts() {
	max := 64
	if sym.Tier() == 1 {
		max = 300
	}
	n := sym.Choose(max + 1)
	var m *xsync.SharedMap
	if n == 0 {
		sym.Cover("default")
		m = xsync.NewSharedMap()
	} else {
		m = mk(n)
	}
	d := dict{}
	for i, op := range []int{mstore, loadOrStore, computeIfPresent, store, remove, computeIfAbsent, visit, mstore, loadOrStore} {
		d = seq(m, d, op, i%nKeys, value(op))
	}
	all(m, d)
	m.Clear()
	all(m, dict{})
	d = seq(m, dict{}, store, 1, sym.Int())
	all(m, d)
	sym.Cover("done")
}

// P23_AnyKey: keys of arbitrary bytes that may or may not be equal.
// Bounds: shard counts 1, 2, 3, 6 (thorough also 4, 7, 8, 9, 32); 2 stored keys and 1 looked-up key of 0..2 arbitrary bytes; values any int or nil.
func P23_AnyKey() {
	counts := []int{1, 2, 3, 6, 4, 7, 8, 9, 32}
	n := 4
	if sym.Tier() == 1 {
		n = 9
	}
	m := mk(counts[sym.Choose(n)])
	var ks []string
	var vs []interface{}
	for i := 0; i < 2; i++ {
		ks = append(ks, sym.Str(0, 2))
		vs = append(vs, nil)
		if sym.Choose(2) == 0 {
			vs[i] = sym.Int()
		}
	}
	if sym.Choose(2) == 0 {
		m.Store(ks[0], vs[0])
		m.Store(ks[1], vs[1])
	} else {
		sym.Assume(ks[0] != ks[1])
		m.MStore(map[string]interface{}{ks[0]: vs[0], ks[1]: vs[1]})
	}
	visited := 0
	m.Range(func(k, v interface{}) bool {
		visited++
		s := k.(string)
		sym.Assert(s == ks[1] && v == vs[1] || s == ks[0] && s != ks[1] && v == vs[0], "a range passes every stored pair")
		return true
	})
	if ks[0] == ks[1] {
		sym.Cover("one key")
		sym.Assert(visited == 1, "a range passes an equal key once")
	} else {
		sym.Cover("two keys")
		sym.Assert(visited == 2, "a range passes every key once")
	}
	q := sym.Str(0, 2)
	var want interface{}
	found := false
	for i := range ks {
		if ks[i] == q {
			want, found = vs[i], true
		}
	}
	v, ok := m.Load(q)
	sym.Assert(ok == found && v == want, "a key finds the value last stored under an equal key")
	sym.Assert(m.Has(q) == found, "a key is present exactly if an equal key was stored")
	m.Delete(q)
	sym.Assert(!m.Has(q), "a removed key is gone")
	for i := range ks {
		if ks[i] != q {
			sym.Assert(m.Has(ks[i]), "removing one key does not touch the others")
		}
	}
	sym.Assert(m.LoadOrStore(q, 1) && !m.LoadOrStore(q, 2), "load-or-store stores once")
	v, ok = m.Load(q)
	sym.Assert(ok && v == 1, "load-or-store stores its first value")
}

// P23_Histories: any operations.
// Bounds: shard counts 1, 2, 4; 3 (thorough 4) operations of any kind on any of 3 keys.
func P23_Histories() {
	sym.MapOrder(2)
	m := mk([]int{1, 2, 4}[sym.Choose(3)])
	var d dict
	for i := 0; i < 3+sym.Tier(); i++ {
		op, key := pick(3)
		d = seq(m, d, op, key, value(op))
	}
	all(m, d)
	sym.Cover("done")
}

// P23_RangeStops: a range stops across shards.
// Bounds: shard counts 1, 2, 4, 32; any subset of 3 keys; every number of visits before stopping.
func P23_RangeStops() {
	m := mk([]int{1, 2, 4, 32}[sym.Choose(4)])
	var d dict
	n := 0
	for k := range keys {
		if sym.Choose(2) == 0 {
			v := sym.Int()
			d = d.with(k, v)
			m.Store(keys[k], v)
			n++
		}
	}
	stop := 1 + sym.Choose(nKeys)
	visits := 0
	var seen dict
	m.Range(func(k, v interface{}) bool {
		visits++
		i := index(k.(string))
		sym.Assert(!seen.has[i] && d.has[i] && v == d.val[i], "a range passes each key once with its value")
		seen = seen.with(i, 0)
		return visits < stop
	})
	if stop < n {
		sym.Cover("stopped early")
		n = stop
	}
	sym.Assert(visits == n, "a range visits every key, or stops as soon as it is told to")
}

// P23_TwoOps: two goroutines with one operation each.
// Bounds: shard counts 1 and 2, any of 3 prepared contents; 1 operation other than bulk store, clear and range on any of 2 keys in each of 2 goroutines; every interleaving.
func P23_TwoOps() {
	sym.DecideOrders()
	m := mk(1 + sym.Choose(2))
	var d dict
	for i := 0; i < sym.Choose(3); i++ {
		d = seq(m, d, store, i, sym.Int())
	}
	a, b := sym.Choose(14), sym.Choose(14)
	va, vb := value(a/2), value(b/2)
	var ra rec
	done := make(chan struct{})
	go func() {
		ra = do(m, a/2, a%2, va)
		close(done)
	}()
	rs := []rec{do(m, b/2, b%2, vb)}
	<-done
	rs = append(rs, ra)
	for k := 0; k < 2; k++ {
		rs = append(rs, do(m, load, k, 0))
	}
	rs = append(rs, do(m, visit, 0, 0))
	var ops []lin.Op
	for _, r := range rs {
		r := r
		ops = append(ops, lin.Op{Call: r.call, Ret: r.ret, F: func(s interface{}) (interface{}, bool) {
			n, ok := apply(s.(dict), r)
			return n, ok
		}})
	}
	sym.Assert(lin.Check(d, ops, nil), "one sequential order explains the results of all operations")
	sym.Cover("done")
}

// P23_Many: many keys.
// Bounds: shard counts 1, 3, 32, 100, 513, 3000 and the default; 500 (thorough 3000) different keys of 1..5 characters, alone, behind or before 90 others, values offset by any integer; stored one by one or in bulk, looked up, changed, every third removed, visited whole and in part, cleared; tables iterated in insertion order.
func P23_Many() {
	sym.Sched("delay", 0)
	sym.MapOrder(0)
	m := xsync.NewSharedMap()
	if c := sym.Choose(7); c < 6 {
		m = mk([]int{1, 3, 32, 100, 513, 3000}[c])
	}
	pad, front := "", sym.Choose(3)
	if front > 0 {
		pad = string(make([]byte, 90))
	}
	n := 500 + 2500*sym.Tier()
	base := sym.Int()
	ks := make([]string, n)
	pos := map[string]int{}
	for i := range ks {
		b := []byte{byte('a' + i%26)}
		for x := i / 26; x > 0; x /= 50 {
			b = append(b, byte('0'+x%50))
		}
		if front == 1 {
			ks[i] = pad + string(b)
		} else {
			ks[i] = string(b) + pad
		}
		pos[ks[i]] = i
	}
	sym.Assert(len(pos) == n, "the keys differ")
	if sym.Choose(2) == 0 {
		for i, k := range ks {
			m.Store(k, base+i)
		}
	} else {
		bulk := map[string]interface{}{}
		for i, k := range ks {
			bulk[k] = base + i
		}
		m.MStore(bulk)
	}
	for i, k := range ks {
		v, ok := m.Load(k)
		sym.Assert(ok && v == base+i && m.Has(k) && !m.Has(k+"!"), "every one of many keys is found")
	}
	for i, k := range ks {
		i := i
		switch i % 3 {
		case 0:
			m.Delete(k)
		case 1:
			v, ok := m.ComputeIfPresent(k, func(_ string, old interface{}) interface{} { return old.(int) + n })
			sym.Assert(ok && v == base+i+n, "a present key is recomputed")
		case 2:
			v, ok := m.ComputeIfAbsent(k, func(string) interface{} { return -1 })
			sym.Assert(ok && v == base+i && !m.LoadOrStore(k, -1), "a present key is kept")
		}
	}
	left := n - (n+2)/3
	seen := make([]bool, n)
	visits := 0
	m.Range(func(k, v interface{}) bool {
		i := pos[k.(string)]
		want := base + i
		if i%3 == 1 {
			want += n
		}
		sym.Assert(ks[i] == k && i%3 != 0 && !seen[i] && v == want, "a range passes each of many keys once with its value")
		seen[i] = true
		visits++
		return true
	})
	sym.Assert(visits == left, "a range visits every one of many keys")
	visits = 0
	m.Range(func(k, v interface{}) bool {
		visits++
		return visits < left/2
	})
	sym.Assert(visits == left/2, "a range stops as soon as it is told to")
	m.Clear()
	m.Range(func(k, v interface{}) bool {
		sym.Assert(false, "a cleared map is empty")
		return true
	})
	for i, k := range ks {
		sym.Assert(!m.Has(k) && m.LoadOrStore(k, i), "a cleared map is empty")
	}
	sym.Cover("done")
}

// P23_Odd: values of any kind.
// Bounds: 1 or 3 shards; 3 operations of any kind on one key; the values 20 pairs of odd ones (nil, typed nils, zero values, errors, functions, lists, values that cannot be compared); tables in insertion order.
func P23_Odd() {
	sym.MapOrder(0)
	m := mk([]int{1, 3}[sym.Choose(2)])
	k := "key"
	var want interface{}
	has := false
	i0 := sym.Choose(lin.Odds)
	v0, v1 := lin.Odd(i0), lin.Odd((3*i0+7)%lin.Odds)
	for i := 0; i < 3; i++ {
		x := v0
		if i > 0 {
			x = v1
		}
		switch sym.Choose(8) {
		case 0:
			want, has = x, true
			m.Store(k, x)
		case 1:
			want, has = x, true
			m.MStore(map[string]interface{}{k: x})
		case 2:
			sym.Assert(m.LoadOrStore(k, x) == !has, "load-or-store says whether it stored")
			if !has {
				want, has = x, true
			}
		case 3:
			sym.Assert(m.Has(k) == has, "has says whether the key is there")
		case 4:
			m.Delete(k)
			want, has = nil, false
		case 5:
			v, loaded := m.ComputeIfAbsent(k, func(q string) interface{} {
				sym.Assert(q == k && !has, "the function is given the key")
				return x
			})
			if !has {
				want = x
			}
			sym.Assert(loaded == has && lin.Same(v, want), "compute-if-absent returns the value that is there")
			has = true
		case 6:
			v, ok := m.ComputeIfPresent(k, func(q string, old interface{}) interface{} {
				sym.Assert(q == k && has && lin.Same(old, want), "the function is given the key and its value")
				return x
			})
			if has {
				want = x
			}
			sym.Assert(ok == has && lin.Same(v, want), "compute-if-present returns the new value")
		case 7:
			m.Clear()
			want, has = nil, false
		}
		v, ok := m.Load(k)
		sym.Assert(ok == has && lin.Same(v, want), "a load returns the value stored last")
	}
	n := 0
	m.Range(func(q, v interface{}) bool {
		sym.Assert(q == k && has && lin.Same(v, want), "a range visits what is stored")
		n++
		return true
	})
	sym.Assert((n == 1) == has, "a range visits what is stored")
	sym.Cover("done")
}
