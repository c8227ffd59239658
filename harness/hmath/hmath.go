// Package hmath states what the max/min helpers must return.
package hmath

import (
	"math"

	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xmath"
)

// P01_Ints: all pairs of int and int64.
// Bounds: none on the values (all 2^128 pairs).
func P01_Ints() {
	a, b := sym.Int(), sym.Int()
	mx, mn := xmath.MaxInt(a, b), xmath.MinInt(a, b)
	sym.Assert(sym.Or(mx == a, mx == b), "MaxInt returns one of its arguments")
	sym.Assert(sym.And(mx >= a, mx >= b), "MaxInt is at least both arguments")
	sym.Assert(sym.Or(mn == a, mn == b), "MinInt returns one of its arguments")
	sym.Assert(sym.And(mn <= a, mn <= b), "MinInt is at most both arguments")
	sym.Obs("r", []int{mx, mn})
}

// P01_Int64s: all pairs of int64.
// Bounds: none on the values (all 2^128 pairs).
func P01_Int64s() {
	a, b := sym.Int64(), sym.Int64()
	mx, mn := xmath.MaxInt64(a, b), xmath.MinInt64(a, b)
	sym.Assert(sym.Or(mx == a, mx == b), "MaxInt64 returns one of its arguments")
	sym.Assert(sym.And(mx >= a, mx >= b), "MaxInt64 is at least both arguments")
	sym.Assert(sym.Or(mn == a, mn == b), "MinInt64 returns one of its arguments")
	sym.Assert(sym.And(mn <= a, mn <= b), "MinInt64 is at most both arguments")
	sym.Obs("r", []int64{mx, mn})
}

// P01_Float64s: all pairs of float64 bit patterns.
// Bounds: none on the values.
func P01_Float64s() {
	a, b := sym.Float64(), sym.Float64()
	mx, mn := xmath.MaxFloat64(a, b), xmath.MinFloat64(a, b)
	nan := a != a || b != b
	if nan {
		sym.Cover("nan")
		inf, ninf := math.Inf(1), math.Inf(-1)
		if a == inf || b == inf {
			sym.Assert(mx == inf, "MaxFloat64 of NaN and +Inf is +Inf")
		} else {
			sym.Assert(mx != mx, "MaxFloat64 with a NaN is NaN")
		}
		if a == ninf || b == ninf {
			sym.Assert(mn == ninf, "MinFloat64 of NaN and -Inf is -Inf")
		} else {
			sym.Assert(mn != mn, "MinFloat64 with a NaN is NaN")
		}
		return
	}
	sym.Cover("numbers")
	sym.Assert(sym.Or(mx == a, mx == b), "MaxFloat64 returns one of its arguments")
	sym.Assert(sym.And(mx >= a, mx >= b), "MaxFloat64 is at least both arguments")
	sym.Assert(sym.Or(mn == a, mn == b), "MinFloat64 returns one of its arguments")
	sym.Assert(sym.And(mn <= a, mn <= b), "MinFloat64 is at most both arguments")
}

// P01_Float32s: all pairs of float32 bit patterns.
// Bounds: none on the values.
func P01_Float32s() {
	a, b := sym.Float32(), sym.Float32()
	mx, mn := xmath.MaxFloat32(a, b), xmath.MinFloat32(a, b)
	if a != a || b != b {
		sym.Cover("nan")
		inf, ninf := float32(math.Inf(1)), float32(math.Inf(-1))
		if a == inf || b == inf {
			sym.Assert(mx == inf, "MaxFloat32 of NaN and +Inf is +Inf")
		} else {
			sym.Assert(mx != mx, "MaxFloat32 with a NaN is NaN")
		}
		if a == ninf || b == ninf {
			sym.Assert(mn == ninf, "MinFloat32 of NaN and -Inf is -Inf")
		} else {
			sym.Assert(mn != mn, "MinFloat32 with a NaN is NaN")
		}
		return
	}
	sym.Cover("numbers")
	sym.Assert(sym.Or(mx == a, mx == b), "MaxFloat32 returns one of its arguments")
	sym.Assert(sym.And(mx >= a, mx >= b), "MaxFloat32 is at least both arguments")
	sym.Assert(sym.Or(mn == a, mn == b), "MinFloat32 returns one of its arguments")
	sym.Assert(sym.And(mn <= a, mn <= b), "MinFloat32 is at most both arguments")
}
