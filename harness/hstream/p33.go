package hstream

import (
	"github.com/chenquan/go-pkg/internal/zzverif/lin"
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xstream"
)

// input is a source of up to n elements under bounded scheduling.
func input(n, delay int) ([]interface{}, *xstream.Stream) {
	sym.Sched("delay", delay)
	l := items(sym.Choose(n + 1))
	return l, source(sym.Choose(3), l)
}

// size is any int that is not negative.
func size() int {
	k := sym.Int()
	sym.Assume(k >= 0)
	return k
}

// P33_Skip: leaving out elements at the front.
// Bounds: 0..4 (thorough 6) arbitrary ints from 3 kinds of source; every size of at least 0; at most 1 (thorough 2) deviations from round-robin scheduling.
func P33_Skip() {
	l, s := input(4+2*sym.Tier(), 1+sym.Tier())
	k := size()
	got := list(s.Skip(k))
	if k >= len(l) {
		sym.Cover("all")
		same(got, nil, "skip leaves out exactly the first elements")
	} else {
		sym.Cover("some")
		same(got, l[k:], "skip leaves out exactly the first elements")
	}
	quiet()
}

// P33_Limit: taking elements at the front.
// Bounds: as P33_Skip.
func P33_Limit() {
	l, s := input(4+2*sym.Tier(), 1+sym.Tier())
	k := size()
	got := list(s.Limit(k))
	if k >= len(l) {
		sym.Cover("all")
		same(got, l, "limit keeps exactly the first elements")
	} else {
		sym.Cover("some")
		same(got, l[:k], "limit keeps exactly the first elements")
	}
	quiet()
}

// P33_Tail: taking elements at the end.
// Bounds: as P33_Skip.
func P33_Tail() {
	l, s := input(4+2*sym.Tier(), 1+sym.Tier())
	k := size()
	got := list(s.Tail(k))
	if k >= len(l) {
		sym.Cover("all")
		same(got, l, "tail keeps exactly the last elements")
	} else {
		sym.Cover("some")
		same(got, l[len(l)-k:], "tail keeps exactly the last elements")
	}
	quiet()
}

// P33_Refused: sizes that mean nothing.
// Bounds: every negative int for skip, limit and tail, every int below 1 for split and split into streams; 0..2 elements.
func P33_Refused() {
	_, s := input(2, 0)
	k := sym.Int()
	op := sym.Choose(5)
	sym.Assume(k < 0 || k == 0 && op >= 3)
	_, panicked := sym.Catch(func() {
		switch op {
		case 0:
			s.Skip(k)
		case 1:
			s.Limit(k)
		case 2:
			s.Tail(k)
		case 3:
			s.Split(k)
		case 4:
			s.SplitSteam(k)
		}
	})
	sym.Assert(panicked, "a size that means nothing is refused with a panic")
	sym.Cover("refused")
}

// P33_Reverse: the elements backwards, as a stream and by traversal.
// Bounds: 0..5 (thorough 8) arbitrary ints from 3 kinds of source; at most 1 (thorough 2) deviations from round-robin scheduling.
func P33_Reverse() {
	l, s := input(5+3*sym.Tier(), 1+sym.Tier())
	var got []interface{}
	if sym.Choose(2) == 0 {
		got = list(s.Reverse())
	} else {
		s.ForeachOrdered(func(x interface{}) { got = append(got, x) })
	}
	sym.Assert(len(got) == len(l), "reverse keeps every element")
	for i := range l {
		sym.Assert(got[i] == l[len(l)-1-i], "reverse turns the order around")
	}
	quiet()
	sym.Cover("done")
}

// P33_Sort: the elements in order.
// Bounds: 0..4 (thorough 5) arbitrary ints (equal ones included) from 3 kinds of source, ascending or descending; round-robin scheduling.
func P33_Sort() {
	l, s := input(4+sym.Tier(), 0)
	down := sym.Choose(2) == 0
	got := list(s.Sort(func(a, b interface{}) bool {
		if down {
			return a.(int) > b.(int)
		}
		return a.(int) < b.(int)
	}))
	sym.Assert(len(got) == len(l), "sort keeps every element")
	for i := 1; i < len(got); i++ {
		a, b := got[i-1].(int), got[i].(int)
		sym.Assert(down && a >= b || !down && a <= b, "sort puts the elements in order")
	}
	for _, x := range l {
		n := 0
		for i := range l {
			if l[i] == x {
				n++
			}
			if got[i] == x {
				n--
			}
		}
		sym.Assert(n == 0, "sort keeps every element as often as it was there")
	}
	quiet()
	sym.Cover("done")
}

// P33_Distinct: one element per key.
// Bounds: 0..4 (thorough 5) arbitrary ints from 3 kinds of source, the key being the element or its lowest bit; round-robin scheduling (thorough: 1 deviation).
func P33_Distinct() {
	l, s := input(4+sym.Tier(), sym.Tier())
	parity := sym.Choose(2) == 0
	key := func(x interface{}) interface{} {
		if parity {
			return x.(int)&1 == 0
		}
		return x
	}
	got := list(s.Distinct(key))
	var want, ks []interface{}
next:
	for _, x := range l {
		k := key(x)
		for _, o := range ks {
			if o == k {
				continue next
			}
		}
		ks = append(ks, k)
		want = append(want, x)
	}
	same(got, want, "distinct keeps exactly the first element of every key")
	quiet()
	sym.Cover("done")
}

// chunks cuts a list into pieces of k.
func chunks(l []interface{}, k int) [][]interface{} {
	var cs [][]interface{}
	for len(l) > 0 {
		n := len(l)
		if k < n {
			n = sym.Concrete(k)
		}
		cs = append(cs, l[:n])
		l = l[n:]
	}
	return cs
}

// P33_Split: pieces of equal size.
// Bounds: 0..5 (thorough 7) arbitrary ints from 3 kinds of source; every size of at least 1; at most 1 (thorough 2) deviations from round-robin scheduling.
func P33_Split() {
	l, s := input(5+2*sym.Tier(), 1+sym.Tier())
	k := size()
	sym.Assume(k > 0)
	got := list(s.Split(k))
	want := chunks(l, k)
	sym.Assert(len(got) == len(want), "split makes as many pieces as needed")
	for i := range want {
		same(got[i].([]interface{}), want[i], "split cuts the elements into pieces of the size, in order")
	}
	quiet()
	sym.Cover("done")
}

// P33_SplitStream: pieces of equal size, as streams.
// Bounds: 0..5 (thorough 7) arbitrary ints from 3 kinds of source; every size of at least 1; the pieces read at once or after all have been received; at most 1 (thorough 2) deviations from round-robin scheduling.
func P33_SplitStream() {
	l, s := input(5+2*sym.Tier(), 1+sym.Tier())
	k := size()
	sym.Assume(k > 0)
	want := chunks(l, k)
	late := sym.Choose(2) == 0
	var subs []*xstream.Stream
	i := 0
	s.SplitSteam(k).Foreach(func(x interface{}) {
		sub := x.(*xstream.Stream)
		if late {
			subs = append(subs, sub)
			return
		}
		sym.Assert(i < len(want), "split makes as many pieces as needed")
		same(list(sub), want[i], "split cuts the elements into pieces of the size, in order")
		i++
	})
	for ; late && i < len(subs); i++ {
		sym.Assert(i < len(want), "split makes as many pieces as needed")
		same(list(subs[i]), want[i], "split cuts the elements into pieces of the size, in order")
	}
	sym.Assert(i == len(want), "split makes as many pieces as needed")
	quiet()
	sym.Cover("done")
}

// P33_Through: merge, buffer, peek, traversal, collector, channel.
// Bounds: 0..4 (thorough 6) arbitrary ints from 3 kinds of source; buffer sizes -1, 0, 1, 2, 7; at most 2 (thorough 3) deviations from round-robin scheduling.
func P33_Through() {
	l, s := input(4+2*sym.Tier(), 2+sym.Tier())
	switch sym.Choose(6) {
	case 0:
		got := list(s.Merge())
		sym.Assert(len(got) == 1, "merge makes one list")
		same(got[0].([]interface{}), l, "merge makes one list of all elements in order")
	case 1:
		same(list(s.Buffer([]int{-1, 0, 1, 2, 7}[sym.Choose(5)])), l, "buffer passes all elements in order")
	case 2:
		var seen []interface{}
		got := list(s.Peek(func(x interface{}) { seen = append(seen, x) }))
		same(got, l, "peek passes all elements in order")
		same(seen, l, "peek sees all elements in order")
	case 3:
		var seen []interface{}
		s.Foreach(func(x interface{}) { seen = append(seen, x) })
		same(seen, l, "a traversal sees all elements in order")
	case 4:
		s.Done()
		_, ok := <-s.Chan()
		sym.Assert(!ok, "done consumes the stream to its end")
	case 5:
		same(list(xstream.Range(s.Chan())), l, "a stream passes all elements in order")
	}
	quiet()
	sym.Cover("done")
}

// P33_Empty: stages on the empty stream.
// Bounds: every stage on the shared empty stream and on an empty source, twice.
func P33_Empty() {
	sym.Sched("delay", 1)
	id := func(x interface{}) interface{} { return x }
	for i := 0; i < 2; i++ {
		e := xstream.Empty()
		if sym.Choose(2) == 0 {
			e = xstream.Of()
		}
		same(list(e.Skip(1)), nil, "an empty stream stays empty")
		same(list(e.Limit(1)), nil, "an empty stream stays empty")
		same(list(e.Limit(0)), nil, "an empty stream stays empty")
		same(list(e.Tail(1)), nil, "an empty stream stays empty")
		same(list(e.Tail(0)), nil, "an empty stream stays empty")
		same(list(e.Reverse()), nil, "an empty stream stays empty")
		same(list(e.Sort(func(a, b interface{}) bool { return false })), nil, "an empty stream stays empty")
		same(list(e.Distinct(id)), nil, "an empty stream stays empty")
		same(list(e.Split(2)), nil, "an empty stream stays empty")
		same(list(e.SplitSteam(2)), nil, "an empty stream stays empty")
		same(list(e.Buffer(1)), nil, "an empty stream stays empty")
		same(list(e.Map(id)), nil, "an empty stream stays empty")
		same(list(e.Group(id)), nil, "an empty stream stays empty")
		same(list(e.Concat(e)), nil, "an empty stream stays empty")
	}
	quiet()
	sym.Cover("done")
}

// P33_Chains: two stages, one after the other.
// Bounds: 0..4 arbitrary ints from an unbuffered source; any 2 of skip, limit, tail (sizes 0..5), reverse, buffer, peek, split-and-flatten; at most 1 (thorough 2) deviations from round-robin scheduling.
func P33_Chains() {
	sym.Sched("delay", 1+sym.Tier())
	l := items(sym.Choose(5))
	s := source(1, l)
	for i := 0; i < 2; i++ {
		op := sym.Choose(7)
		k := 0
		if op < 3 {
			k = sym.Choose(6)
		}
		switch op {
		case 0:
			s, l = s.Skip(k), l[min(k, len(l)):]
		case 1:
			s, l = s.Limit(k), l[:min(k, len(l))]
		case 2:
			s, l = s.Tail(k), l[len(l)-min(k, len(l)):]
		case 3:
			s = s.Reverse()
			r := make([]interface{}, len(l))
			for j := range l {
				r[len(l)-1-j] = l[j]
			}
			l = r
		case 4:
			s = s.Buffer(2)
		case 5:
			s = s.Peek(func(interface{}) {})
		case 6:
			s = s.Split(2).FlatMap(func(x interface{}) interface{} { return x })
		}
	}
	same(list(s), l, "a chain of stages is the chain of the list operations")
	quiet()
	sym.Cover("done")
}

// lookalikes are values that differ though some of them print alike.
var lookalikes = []interface{}{1, "1", int64(1), uint8(1), 1.0, nil, "<nil>", "", true, "true", [1]int{1}, "[1]", struct{ n int }{1}, '1', 0, false}

// P33_DistinctKinds: keys of any kind.
// Bounds: 3 elements whose keys are any of 16 values of mixed kinds that print alike or are zero values; round-robin scheduling.
func P33_DistinctKinds() {
	sym.Sched("delay", 0)
	k := [3]int{sym.Choose(len(lookalikes)), sym.Choose(len(lookalikes)), sym.Choose(len(lookalikes))}
	got := list(source(1, numbers(0, 3)).Distinct(func(x interface{}) interface{} { return lookalikes[k[x.(int)]] }))
	want := []interface{}{0}
	if k[1] != k[0] {
		want = append(want, 1)
	}
	if k[2] != k[0] && k[2] != k[1] {
		want = append(want, 2)
	}
	same(got, want, "distinct keeps exactly the first element of every key")
	quiet()
	sym.Cover("done")
}

// P33_Many: more elements than any buffer.
// Bounds: 1300 (thorough 3000) elements through each list operation; sizes 1, 300 and all but 1; 5 schedules: without preemption, and switching to the next goroutine after every 1, 2, 3 or 7 steps of synchronisation.
func P33_Many() {
	large()
	n := 1300 + 1700*sym.Tier()
	k := []int{1, 300, n - 1}[sym.Choose(3)]
	l := numbers(0, n)
	s := source(sym.Choose(3), l)
	switch sym.Choose(12) {
	case 0:
		same(list(s.Skip(k)), l[k:], "skip drops exactly the first elements")
	case 1:
		same(list(s.Limit(k)), l[:k], "limit keeps exactly the first elements")
	case 2:
		same(list(s.Tail(k)), l[n-k:], "tail keeps exactly the last elements")
	case 3:
		same(list(s.Distinct(func(x interface{}) interface{} { return x.(int) % k })), l[:k], "distinct keeps exactly the first element of every key")
	case 4:
		got, want := list(s.Split(k)), chunks(l, k)
		sym.Assert(len(got) == len(want), "split makes as many pieces as needed")
		for i := range want {
			same(got[i].([]interface{}), want[i], "split cuts the elements into pieces of the size, in order")
		}
	case 5:
		want, i := chunks(l, k), 0
		s.SplitSteam(k).Foreach(func(x interface{}) {
			same(list(x.(*xstream.Stream)), want[i], "split cuts the elements into pieces of the size, in order")
			i++
		})
		sym.Assert(i == len(want), "split makes as many pieces as needed")
	case 6:
		got := list(s.Merge())
		sym.Assert(len(got) == 1, "merge makes one list of all elements")
		same(got[0].([]interface{}), l, "merge makes one list of all elements")
	case 7:
		got := list(s.Reverse())
		sym.Assert(len(got) == n, "reverse turns the order around")
		for i := range got {
			sym.Assert(got[i] == n-1-i, "reverse turns the order around")
		}
	case 8:
		same(list(s.Buffer(k)), l, "buffer keeps the elements")
	case 9:
		i := 0
		same(list(s.Peek(func(x interface{}) { sym.Assert(x == i, "peek sees every element in order"); i++ })), l, "peek keeps the elements")
		sym.Assert(i == n, "peek sees every element in order")
	case 10:
		same(list(s.Sort(func(a, b interface{}) bool { return a.(int) < b.(int) })), l, "sort puts the elements in order")
	case 11:
		sym.Assert(s.Count() == n, "count counts the elements")
	}
	quiet()
	sym.Cover("done")
}

// P33_Odd: elements of any kind.
// Bounds: 2 (thorough 3) elements, each any of 20 values (nil, typed nils, zero values, errors, functions, lists, lists of lists, values that cannot be compared), through each stage; round-robin scheduling.
func P33_Odd() {
	sym.Sched("delay", 0)
	n := 2 + sym.Tier()
	l := odds(n)
	s := source(sym.Choose(2), l)
	switch sym.Choose(12) {
	case 0:
		alike(list(s.Skip(1)), l[1:], "skip drops exactly the first elements")
	case 1:
		alike(list(s.Limit(1)), l[:1], "limit keeps exactly the first elements")
	case 2:
		alike(list(s.Tail(n-1)), l[1:], "tail keeps exactly the last elements")
	case 3:
		i := 0
		alike(list(s.Distinct(func(interface{}) interface{} { i++; return i })), l, "distinct keeps the first element of every key")
	case 4:
		i := 0
		alike(list(s.Distinct(func(interface{}) interface{} { i++; return lin.OddKey(i) })), l, "distinct keeps the first element of every key")
	case 5:
		for i, x := range list(s.Split(1)) {
			alike(x.([]interface{}), l[i:i+1], "split cuts the elements into pieces of the size, in order")
		}
	case 6:
		i := 0
		s.SplitSteam(1).Foreach(func(x interface{}) {
			alike(list(x.(*xstream.Stream)), l[i:i+1], "split cuts the elements into pieces of the size, in order")
			i++
		})
		sym.Assert(i == n, "split makes as many pieces as needed")
	case 7:
		got := list(s.Merge())
		sym.Assert(len(got) == 1, "merge makes one list")
		alike(got[0].([]interface{}), l, "merge makes one list of all elements in order")
	case 8:
		got := list(s.Reverse())
		sym.Assert(len(got) == n, "reverse turns the order around")
		for i := range got {
			sym.Assert(lin.Same(got[i], l[n-1-i]), "reverse turns the order around")
		}
	case 9:
		alike(list(s.Buffer(2)), l, "buffer passes all elements in order")
	case 10:
		var seen []interface{}
		alike(list(s.Peek(func(x interface{}) { seen = append(seen, x) })), l, "peek passes all elements in order")
		alike(seen, l, "peek sees all elements in order")
	case 11:
		var seen []interface{}
		if sym.Choose(2) == 0 {
			s.Foreach(func(x interface{}) { seen = append(seen, x) })
			alike(seen, l, "a traversal sees all elements in order")
		} else {
			s.ForeachOrdered(func(x interface{}) { seen = append([]interface{}{x}, seen...) })
			alike(seen, l, "a reverse traversal sees all elements in reverse order")
		}
	}
	quiet()
	sym.Cover("done")
}

// P33_Sizes: streams of every size.
// Bounds: 0..70 elements and 127..129, 255..257, 511..513, 1023..1025; reverse, sort, reverse traversal, merge, split (by 1, 4, 16 and the size), tail (of half and of the size), skip (of half); round-robin scheduling.
func P33_Sizes() {
	sym.Sched("delay", 0)
	n := sym.Choose(83)
	if n > 70 {
		n = 1<<(7+uint(n-71)/3) - 1 + (n-71)%3
	}
	l := numbers(0, n)
	s := source(sym.Choose(2), l)
	switch sym.Choose(7) {
	case 0:
		for i, x := range list(s.Reverse()) {
			sym.Assert(x == n-1-i, "reverse turns the order around")
		}
	case 1:
		i := n
		same(list(s.Sort(func(a, b interface{}) bool { return a.(int)*37%1031 < b.(int)*37%1031 }).Sort(func(a, b interface{}) bool { i--; return a.(int) < b.(int) })), l, "sort puts the elements in order")
	case 2:
		i := n
		s.ForeachOrdered(func(x interface{}) { i--; sym.Assert(x == i, "a reverse traversal sees all elements in reverse order") })
		sym.Assert(i == 0, "a reverse traversal sees all elements")
	case 3:
		same(list(s.Merge())[0].([]interface{}), l, "merge makes one list of all elements in order")
	case 4:
		k := []int{1, 4, 16, n + 1}[sym.Choose(4)]
		got, want := list(s.Split(k)), chunks(l, k)
		sym.Assert(len(got) == len(want), "split makes as many pieces as needed")
		for i := range want {
			same(got[i].([]interface{}), want[i], "split cuts the elements into pieces of the size, in order")
		}
	case 5:
		k := []int{n/2 + 1, n + 1}[sym.Choose(2)]
		same(list(s.Tail(k)), l[n-min(k, n):], "tail keeps exactly the last elements")
	case 6:
		same(list(s.Skip(n/2)), l[n/2:], "skip drops exactly the first elements")
	}
	quiet()
	sym.Cover("done")
}
