package lin

import (
	"context"
	"io"
)

type oddErr struct{}

func (*oddErr) Error() string { return "odd" }

type empty struct{}

// odd are values that code may be tempted to treat specially.
var odd = []interface{}{
	nil, context.Canceled, []interface{}{}, 0,
	[]interface{}{1, nil}, (*oddErr)(nil), false, "",
	io.EOF, []interface{}{[]interface{}{2, 3}}, func() {}, empty{},
	(*int)(nil), map[string]int(nil), []byte(nil), true,
	context.DeadlineExceeded, (chan int)(nil), &oddErr{}, [0]int{},
}

// Odds says how many odd values there are.
const Odds = 20

// Odd makes an odd value.
func Odd(i int) interface{} { return odd[i] }

// OddKey is like Odd but makes only values that can be compared.
func OddKey(i int) interface{} {
	switch odd[i].(type) {
	case []interface{}, func(), map[string]int, []byte:
		return i
	}
	return odd[i]
}

// Same says whether two odd values, or values that can be compared, are the same.
func Same(a, b interface{}) bool {
	switch x := a.(type) {
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for i := range x {
			if !Same(x[i], y[i]) {
				return false
			}
		}
		return true
	case func():
		y, ok := b.(func())
		return ok && (x == nil) == (y == nil)
	case map[string]int:
		y, ok := b.(map[string]int)
		return ok && len(x) == len(y)
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	}
	switch b.(type) {
	case []interface{}, func(), map[string]int, []byte:
		return false
	}
	return a == b
}
