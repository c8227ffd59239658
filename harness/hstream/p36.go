package hstream

import (
	"sync"

	"github.com/chenquan/go-pkg/internal/zzverif/lin"
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xstream"
)

// concatenated checks that got holds every element of every input once, those of one input in order.
func concatenated(got []interface{}, ls [][]interface{}) {
	at := make([]int, len(ls))
	n := 0
	for _, l := range ls {
		n += len(l)
	}
	sym.Assert(len(got) == n, "concatenation delivers every element of every input exactly once")
	for _, x := range got {
		i := x.(int) / 10
		sym.Assert(at[i] < len(ls[i]) && ls[i][at[i]] == x, "concatenation keeps the elements of an input in their order")
		at[i]++
	}
}

// P36_Concat: several streams made into one.
// Bounds: 1..4 inputs of 0..2 elements each (at most 5 in all) from 2 kinds of source, by the method or the function; at most 2 (thorough 3) deviations from round-robin scheduling.
func P36_Concat() {
	sym.Sched("delay", 2+sym.Tier())
	n := 1 + sym.Choose(4)
	kind := sym.Choose(2)
	var ls [][]interface{}
	var ss []*xstream.Stream
	total := 0
	for i := 0; i < n; i++ {
		k := sym.Choose(min(3, 6-total))
		total += k
		ls = append(ls, numbers(10*i, k))
		ss = append(ss, source(kind, ls[i]))
	}
	var s *xstream.Stream
	if sym.Choose(2) == 0 {
		s = ss[0].Concat(ss[1:]...)
	} else {
		s = xstream.Concat(ss[0], ss[1:]...)
	}
	concatenated(list(s), ls)
	quiet()
	sym.Cover("done")
}

// P36_ConcatEnds: a concatenation ends when its last input ends.
// Bounds: 2 or 3 inputs of which any one has not ended; at most 4 (thorough 5) deviations from round-robin scheduling.
func P36_ConcatEnds() {
	sym.Sched("delay", 4+sym.Tier())
	n := 2 + sym.Choose(2)
	open := sym.Choose(n)
	c := make(chan interface{})
	var ss []*xstream.Stream
	var ls [][]interface{}
	for i := 0; i < n; i++ {
		ls = append(ls, numbers(10*i, 1))
		if i == open {
			ss = append(ss, xstream.Range(c))
		} else {
			ss = append(ss, source(0, ls[i]))
		}
	}
	s := ss[0].Concat(ss[1:]...)
	var got []interface{}
	for i := 0; i < n-1; i++ {
		x, ok := <-s.Chan()
		sym.Assert(ok, "a concatenation does not end before its last input")
		got = append(got, x)
	}
	sym.Quiesce()
	select {
	case <-s.Chan():
		sym.Assert(false, "a concatenation does not end before its last input")
	default:
	}
	c <- 10 * open
	close(c)
	concatenated(append(got, list(s)...), ls)
	quiet()
	sym.Cover("done")
}

// P36_ConcatSelf: a stream concatenated with itself and with the empty stream.
// Bounds: 0..3 elements; at most 2 (thorough 3) deviations from round-robin scheduling.
func P36_ConcatSelf() {
	sym.Sched("delay", 2+sym.Tier())
	l := numbers(0, sym.Choose(4))
	s := source(sym.Choose(3), l)
	switch sym.Choose(3) {
	case 0:
		delivered(list(s.Concat(s)), l, 2)
	case 1:
		same(list(s.Concat(xstream.Empty())), l, "concatenation delivers every element of every input exactly once")
	case 2:
		same(list(xstream.Empty().Concat(s)), l, "concatenation delivers every element of every input exactly once")
	}
	quiet()
	sym.Cover("done")
}

// copies reads all copies of a stream at the same time.
func copies(m map[string]*xstream.Stream, l []interface{}) {
	var wg sync.WaitGroup
	for _, name := range []string{"a", "b", "c"} {
		s, ok := m[name]
		if !ok {
			continue
		}
		wg.Add(1)
		go func() {
			same(list(s), l, "every copy delivers all elements in order")
			wg.Done()
		}()
	}
	wg.Wait()
}

// P36_Copy: a stream made into several.
// Bounds: 0..3 copies with buffer sizes -1, 0, 1, 2 (every order of the table), all read at the same time; 0..2 (thorough 3) arbitrary ints; at most 2 deviations from round-robin scheduling.
func P36_Copy() {
	sym.Sched("delay", 2)
	sym.MapOrder(3)
	l := items(sym.Choose(3 + sym.Tier()))
	params := map[string]int{}
	n := sym.Choose(4)
	for i := 0; i < n; i++ {
		params[[]string{"a", "b", "c"}[i]] = sym.Choose(4-n/3) - 1
	}
	m := source(sym.Choose(2), l).Copy(params)
	sym.Assert(len(m) == n, "there is one copy per name")
	copies(m, l)
	quiet()
	sym.Cover("done")
}

// P36_CopyBuffered: copies read one after the other.
// Bounds: 2 or 3 copies of which all but the one read first have room for everything; 0..3 elements; at most 2 (thorough 3) deviations from round-robin scheduling.
func P36_CopyBuffered() {
	sym.Sched("delay", 2+sym.Tier())
	sym.MapOrder(3)
	l := items(sym.Choose(4))
	n := 2 + sym.Choose(2)
	names := []string{"a", "b", "c"}[:n]
	params := map[string]int{"a": 0}
	for _, name := range names[1:] {
		params[name] = 3 + sym.Choose(2)
	}
	m := source(sym.Choose(2), l).Copy(params)
	for _, name := range names {
		same(list(m[name]), l, "every copy delivers all elements in order")
	}
	quiet()
	sym.Cover("done")
}

// grouped checks groups against the elements and keys they come from.
func grouped(gs [][]interface{}, l []interface{}, key func(interface{}) interface{}) {
	n := 0
	var ks []interface{}
	for _, g := range gs {
		sym.Assert(len(g) > 0, "there is one group per key")
		k := key(g[0])
		for _, o := range ks {
			sym.Assert(o != k, "there is one group per key")
		}
		ks = append(ks, k)
		var want []interface{}
		for _, x := range l {
			if key(x) == k {
				want = append(want, x)
			}
		}
		same(g, want, "a group holds all elements of its key in order")
		n += len(g)
	}
	sym.Assert(n == len(l), "every element is in a group")
}

// keyOf is one of several key functions.
func keyOf() func(interface{}) interface{} {
	switch sym.Choose(3) {
	case 0:
		return func(x interface{}) interface{} { return x.(int) & 1 }
	case 1:
		return func(x interface{}) interface{} { return x }
	}
	return func(x interface{}) interface{} {
		if x.(int) < 0 {
			return "negative"
		}
		return nil
	}
}

// P36_Group: elements put together by key, as a stream.
// Bounds: 0..4 arbitrary ints from 3 kinds of source; the key being the element, its lowest bit, or its sign (as text or nil); every order of the table; at most 1 (thorough 2) deviations from round-robin scheduling.
func P36_Group() {
	l, s := input(4, 1+sym.Tier())
	key := keyOf()
	var gs [][]interface{}
	for _, g := range list(s.Group(key)) {
		gs = append(gs, g.([]interface{}))
	}
	grouped(gs, l, key)
	quiet()
	sym.Cover("done")
}

// P36_GroupBy: elements put together by key, as a table.
// Bounds: as P36_Group, the table asked for once or twice.
func P36_GroupBy() {
	l, s := input(4, 1+sym.Tier())
	key := keyOf()
	g := xstream.GroupBy(key)
	s.Collection(g)
	for i := 1 + sym.Choose(2); i > 0; i-- {
		var gs [][]interface{}
		for k, v := range g.Map() {
			sym.Assert(len(v) > 0 && key(v[0]) == k, "a group is found under its key")
			gs = append(gs, v)
		}
		grouped(gs, l, key)
	}
	quiet()
	sym.Cover("done")
}

// P36_GroupKinds: keys of any kind.
// Bounds: 3 elements whose keys are any of 16 values of mixed kinds that print alike or are zero values, as a stream or a table; round-robin scheduling.
func P36_GroupKinds() {
	sym.Sched("delay", 0)
	k := [3]int{sym.Choose(len(lookalikes)), sym.Choose(len(lookalikes)), sym.Choose(len(lookalikes))}
	key := func(x interface{}) interface{} { return lookalikes[k[x.(int)]] }
	l := numbers(0, 3)
	s := source(1, l)
	var gs [][]interface{}
	if sym.Choose(2) == 0 {
		for _, g := range list(s.Group(key)) {
			gs = append(gs, g.([]interface{}))
		}
	} else {
		g := xstream.GroupBy(key)
		s.Collection(g)
		for k, v := range g.Map() {
			sym.Assert(len(v) > 0 && key(v[0]) == k, "a group is found under its key")
			gs = append(gs, v)
		}
	}
	grouped(gs, l, key)
	quiet()
	sym.Cover("done")
}

// P36_CopyLate: copies that are read only when the source cannot go on.
// Bounds: 2 copies with buffer sizes 0, 1, 15, 64, 200 and 1000 and a third unbuffered one, 300 ints; one of them read to its end only after everything else has come to a stop; 5 schedules as in P36_Many.
func P36_CopyLate() {
	large()
	sym.MapOrder(0)
	sizes := []int{0, 1, 15, 64, 200, 1000}
	l := numbers(0, 300)
	names := []string{"a", "b", "c"}
	m := source(1, l).Copy(map[string]int{"a": sizes[sym.Choose(6)], "b": sizes[sym.Choose(6)], "c": 0})
	late := sym.Choose(3)
	var wg sync.WaitGroup
	for i, name := range names {
		s := m[name]
		if i == late {
			continue
		}
		wg.Add(1)
		go func() {
			same(list(s), l, "every copy delivers all elements in order")
			wg.Done()
		}()
	}
	sym.Quiesce()
	same(list(m[names[late]]), l, "every copy delivers all elements in order")
	wg.Wait()
	quiet()
	sym.Cover("done")
}

// P36_GroupLarge: groups of many sizes.
// Bounds: 60 and 300 ints in ascending, descending or mixed order, the key being the element divided by 1, 7, 10, 64 or 400, its remainder by these, or that as text; as a stream or a table, tables in insertion order; 5 schedules as in P36_Many.
func P36_GroupLarge() {
	large()
	sym.MapOrder(0)
	n := 60 + 240*sym.Choose(2)
	d := []int{1, 7, 10, 64, 400}[sym.Choose(5)]
	order, kind := sym.Choose(3), sym.Choose(3)
	l := make([]interface{}, n)
	for i := range l {
		switch order {
		case 0:
			l[i] = i
		case 1:
			l[i] = n - i
		case 2:
			l[i] = i * 37 % n
		}
	}
	key := func(x interface{}) interface{} {
		switch kind {
		case 0:
			return x.(int) / d
		case 1:
			return x.(int) % d
		}
		return string([]byte{byte(x.(int) / d), byte(x.(int) / d >> 8)})
	}
	want := map[interface{}][]interface{}{}
	for _, x := range l {
		want[key(x)] = append(want[key(x)], x)
	}
	seen := 0
	check := func(g []interface{}) {
		same(g, want[key(g[0])], "a group holds all elements of its key in order")
		seen++
	}
	if sym.Choose(2) == 0 {
		source(1, l).Group(key).Foreach(func(x interface{}) { check(x.([]interface{})) })
	} else {
		g := xstream.GroupBy(key)
		source(1, l).Collection(g)
		for k, v := range g.Map() {
			sym.Assert(len(v) > 0 && key(v[0]) == k, "a group is found under its key")
			check(v)
		}
	}
	sym.Assert(seen == len(want), "there is one group per key")
	quiet()
	sym.Cover("done")
}

// P36_Many: more inputs, copies, groups and elements than any buffer.
// Bounds: 300 (thorough 1100) inputs or copies, that many elements through 2 copies, that many groups, tables in insertion order; 5 schedules: without preemption, and switching to the next goroutine after every 1, 2, 3 or 7 steps of synchronisation.
func P36_Many() {
	large()
	sym.MapOrder(0)
	n := 300 + 800*sym.Tier()
	switch sym.Choose(4) {
	case 0:
		var ss []*xstream.Stream
		var cs []chan interface{}
		for i := 0; i < n; i++ {
			c := make(chan interface{})
			cs = append(cs, c)
			ss = append(ss, xstream.Range(c))
		}
		s := xstream.Concat(ss[0], ss[1:]...)
		go func() {
			for i := n - 1; i >= 0; i-- {
				cs[i] <- i
			}
			for i := range cs {
				close(cs[i])
			}
		}()
		delivered(list(s), numbers(0, n), 2)
	case 1:
		params := map[string]int{}
		for i := 0; i < n; i++ {
			params[string([]byte{byte(i), byte(i >> 8)})] = i & 1
		}
		m := source(1, numbers(0, 2)).Copy(params)
		sym.Assert(len(m) == n, "there is one copy per name")
		var wg sync.WaitGroup
		for name := range params {
			s := m[name]
			wg.Add(1)
			go func() {
				same(list(s), numbers(0, 2), "every copy delivers all elements in order")
				wg.Done()
			}()
		}
		wg.Wait()
	case 2:
		l := numbers(0, n)
		copies(source(1, l).Copy(map[string]int{"a": 0, "b": n}), l)
	case 3:
		l := numbers(0, 2*n)
		i := 0
		source(1, l).Group(func(x interface{}) interface{} { return x.(int) % n }).Foreach(func(x interface{}) {
			g := x.([]interface{})
			sym.Assert(len(g) == 2 && g[0].(int) < n && g[1] == g[0].(int)+n, "a group holds all elements of its key in order")
			i++
		})
		sym.Assert(i == n, "there is one group per key")
	}
	quiet()
	sym.Cover("done")
}

// P36_Odd: elements of any kind.
// Bounds: 2 elements, each any of 20 values (nil, typed nils, zero values, errors, functions, lists, lists of lists, values that cannot be compared); concatenation, copies, groups; round-robin scheduling.
func P36_Odd() {
	sym.Sched("delay", 0)
	sym.MapOrder(0)
	l := odds(2)
	s := source(sym.Choose(2), l)
	switch sym.Choose(4) {
	case 0:
		got := list(s.Concat(source(1, l[:1])))
		sym.Assert(len(got) == 3, "concatenation delivers every element of every input exactly once")
		used := make([]bool, 3)
	next:
		for _, x := range append(l[:2:2], l[0]) {
			for i, y := range got {
				if !used[i] && lin.Same(x, y) {
					used[i] = true
					continue next
				}
			}
			sym.Assert(false, "concatenation delivers every element of every input exactly once")
		}
	case 1:
		m := s.Copy(map[string]int{"a": 2, "b": 2})
		alike(list(m["a"]), l, "every copy delivers all elements in order")
		alike(list(m["b"]), l, "every copy delivers all elements in order")
	case 2:
		gs := list(s.Group(func(interface{}) interface{} { return nil }))
		sym.Assert(len(gs) == 1, "there is one group per key")
		alike(gs[0].([]interface{}), l, "a group holds all elements of its key in order")
	case 3:
		g := xstream.GroupBy(func(interface{}) interface{} { return nil })
		s.Collection(g)
		sym.Assert(len(g.Map()) == 1, "there is one group per key")
		alike(g.Map()[nil], l, "a group holds all elements of its key in order")
	}
	quiet()
	sym.Cover("done")
}

// P36_Several: several inputs and copies.
// Bounds: 3..9 inputs of 2 ints, or copies with buffer sizes 0 or 1 of 3 ints, tables in insertion order; at most 1 deviation from round-robin scheduling.
func P36_Several() {
	sym.Sched("delay", 1)
	sym.MapOrder(0)
	n := 3 + sym.Choose(7)
	if sym.Choose(2) == 0 {
		var ls [][]interface{}
		var ss []*xstream.Stream
		for i := 0; i < n; i++ {
			ls = append(ls, numbers(10*i, 2))
			ss = append(ss, source(i%2, ls[i]))
		}
		concatenated(list(ss[0].Concat(ss[1:]...)), ls)
	} else {
		l := items(3)
		params := map[string]int{}
		size := sym.Choose(2)
		for i := 0; i < n; i++ {
			params[string([]byte{'a' + byte(i)})] = size
		}
		var wg sync.WaitGroup
		for _, s := range source(1, l).Copy(params) {
			s := s
			wg.Add(1)
			go func() {
				same(list(s), l, "every copy delivers all elements in order")
				wg.Done()
			}()
		}
		wg.Wait()
	}
	quiet()
	sym.Cover("done")
}
