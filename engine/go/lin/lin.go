// Package lin decides whether a recorded concurrent history has a sequential
// explanation.
package lin

import "github.com/chenquan/go-pkg/internal/zzverif/sym"

// Op is one finished operation: its call and return stamps and what it must do
// to the (immutable) state; ok holds if the recorded result is the right one
// in that state.
type Op struct {
	Call, Ret int
	F         func(state interface{}) (next interface{}, ok bool)
}

// Check reports whether some order of ops that respects which op returned
// before which was called explains every result; last (if not nil) must accept
// the final state. Under the executor the answer is one formula over stamps
// and values.
func Check(init interface{}, ops []Op, last func(interface{}) bool) bool {
	c := &checker{ops: ops, last: last, memo: map[int][]known{}}
	return c.search(init, 0)
}

type known struct {
	state interface{}
	ok    bool
}

type checker struct {
	ops  []Op
	last func(interface{}) bool
	memo map[int][]known // by the set of operations already placed
}

func (c *checker) search(state interface{}, used int) bool {
	if used == 1<<uint(len(c.ops))-1 {
		return c.last == nil || c.last(state)
	}
	for _, k := range c.memo[used] {
		if sym.Same(k.state, state) {
			return k.ok
		}
	}
	some := false
	for i := range c.ops {
		if used&(1<<uint(i)) != 0 {
			continue
		}
		late := false
		for j := range c.ops {
			late = late || j != i && used&(1<<uint(j)) == 0 && sym.Follows(c.ops[i].Call, c.ops[j].Ret)
		}
		if late {
			continue // no ordering puts i next
		}
		ok := true
		for j := range c.ops {
			if j != i && used&(1<<uint(j)) == 0 {
				ok = sym.And(ok, !sym.Before(c.ops[j].Ret, c.ops[i].Call))
			}
		}
		next, fits := c.ops[i].F(state)
		ok = sym.And(ok, fits)
		if sym.Impossible(ok) {
			continue
		}
		some = sym.Or(some, sym.And(ok, c.search(next, used|1<<uint(i))))
		if sym.Impossible(!some) {
			break
		}
	}
	c.memo[used] = append(c.memo[used], known{state, some})
	return some
}
