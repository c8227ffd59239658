package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// V is a symbolic Go value. Scalars: T (symbolic) or C (concrete bits).
// Everything else hangs off R:
//
//	*Slice            slice or string (nil = nil slice / empty string)
//	Ptr, SymPtr, HdrPtr, ViewPtr   pointers (nil = nil pointer)
//	*Agg              struct/array value (immutable when in a register)
//	*Iface            interface value (nil = nil interface)
//	*Closure          func value
//	*MapObj, *Chan    reference types
//	UPtr              unsafe.Pointer / uintptr derived from a pointer
//	*Tuple            multi-value result
type V struct {
	T *Term
	C uint64
	R interface{}
}

type Tuple struct{ vs []V }

type Slice struct {
	A             *Agg
	Off, Len, Cap int
}

type Ptr struct {
	A *Agg
	I int
}

type SymPtr struct {
	A      *Agg
	Off, N int
	Idx    *Term // in [0,N)
}

// HdrPtr points at a field of a slice/string header viewed through unsafe.
type HdrPtr struct {
	P     Ptr
	Str   bool
	Field int // 0 Data, 1 Len, 2 Cap
}

type ViewPtr struct {
	P        Ptr
	From, To types.Type
}

type UPtr struct {
	P    V // pointer value
	Elem types.Type
}

type Iface struct {
	T types.Type
	V V
}

type Closure struct {
	fn   *Fn
	env  []V
	nat  func(w *W, t *Thread, args []V) V
	name string
}

type Agg struct {
	e     []V
	b     []byte
	bt    []*Term
	bytes bool
	ro    bool
	birth uint32
	id    int64
	sh    *shadow
	elem  types.Type // element type when known (arrays)
}

func (a *Agg) n() int {
	if a.bytes {
		return len(a.b)
	}
	return len(a.e)
}

func (a *Agg) get(i int) V {
	if a.bytes {
		if a.bt != nil {
			if t := a.bt[i]; t != nil {
				return V{T: t}
			}
		}
		return V{C: uint64(a.b[i])}
	}
	return a.e[i]
}

func (a *Agg) rawset(i int, v V) {
	if a.bytes {
		if v.T != nil {
			if a.bt == nil {
				a.bt = make([]*Term, len(a.b))
			}
			a.bt[i] = v.T
		} else {
			if a.bt != nil {
				a.bt[i] = nil
			}
			a.b[i] = byte(v.C)
		}
		return
	}
	a.e[i] = v
}

type undoRec struct {
	a  *Agg
	i  int
	v  V
	m  *MapObj
	es []*mapEntry
	c  *Chan
	cs Chan
}

type mapEntry struct {
	k, v V
	dead bool
}

type MapObj struct {
	es     []*mapEntry
	live   int
	birth  uint32
	logged uint32
	id     int64
	sh     *shadow
	kt     types.Type
}

// ---- W helpers on memory --------------------------------------------------

func (w *W) newAgg(n int) *Agg {
	w.nextID++
	w.allocCells(n)
	return &Agg{e: make([]V, n), birth: w.epoch, id: w.nextID}
}

func (w *W) newBytes(n int) *Agg {
	w.nextID++
	w.allocCells(n / 16)
	return &Agg{b: make([]byte, n), bytes: true, birth: w.epoch, id: w.nextID}
}

func (w *W) allocCells(n int) {
	w.cells += n + 1
	if w.cells > w.maxCells {
		w.abort("memory", "symbolic memory limit")
	}
}

func (w *W) set(a *Agg, i int, v V) {
	if a.ro {
		w.abort("unsupported", "write to read-only memory (string constant)")
	}
	if a.birth != w.epoch && !w.initMode {
		w.undo = append(w.undo, undoRec{a: a, i: i, v: a.get(i)})
	}
	a.rawset(i, v)
}

// storeAt stores v in location (a,i), copying aggregates in place.
func (w *W) storeAt(a *Agg, i int, v V) {
	if !a.bytes {
		if dst, ok := a.e[i].R.(*Agg); ok {
			src, ok := v.R.(*Agg)
			if !ok {
				panic(fmt.Sprintf("store of non-aggregate %v into aggregate", v))
			}
			w.copyInto(dst, src)
			return
		}
	}
	if _, ok := v.R.(*Agg); ok {
		v = w.copyV(v)
	}
	w.set(a, i, v)
}

func (w *W) copyInto(dst, src *Agg) {
	if dst == src {
		return
	}
	n := src.n()
	for i := 0; i < n; i++ {
		w.storeAt(dst, i, src.get(i))
	}
}

// copyV deep-copies aggregates (struct/array values).
func (w *W) copyV(v V) V {
	a, ok := v.R.(*Agg)
	if !ok {
		return v
	}
	if a.bytes {
		c := w.newBytes(len(a.b))
		copy(c.b, a.b)
		if a.bt != nil {
			c.bt = append([]*Term{}, a.bt...)
		}
		return V{R: c}
	}
	c := w.newAgg(len(a.e))
	for i, x := range a.e {
		if _, ok := x.R.(*Agg); ok {
			x = w.copyV(x)
		}
		c.e[i] = x
	}
	return V{R: c}
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

// special sync types get an opaque fixed layout
func opaqueLayout(t types.Type) int {
	n, ok := t.(*types.Named)
	if !ok {
		return 0
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return 0
	}
	switch o.Pkg().Path() {
	case "sync", "internal/sync":
		switch o.Name() {
		case "Mutex", "RWMutex", "WaitGroup":
			return 4
		}
	case "sync/atomic":
		if o.Name() == "Value" {
			return 1
		}
	}
	return 0
}

func (w *W) zero(t types.Type) V {
	if n := opaqueLayout(t); n > 0 {
		return V{R: w.newAgg(n)}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := w.newAgg(u.NumFields())
		for i := 0; i < u.NumFields(); i++ {
			a.e[i] = w.zero(u.Field(i).Type())
		}
		return V{R: a}
	case *types.Array:
		return V{R: w.newArray(u.Elem(), int(u.Len()))}
	case *types.Tuple:
		tp := &Tuple{}
		for i := 0; i < u.Len(); i++ {
			tp.vs = append(tp.vs, w.zero(u.At(i).Type()))
		}
		return V{R: tp}
	}
	return V{}
}

func (w *W) newArray(elem types.Type, n int) *Agg {
	if isByteType(elem) {
		a := w.newBytes(n)
		return a
	}
	a := w.newAgg(n)
	if !scalarLike(elem) {
		for i := 0; i < n; i++ {
			a.e[i] = w.zero(elem)
		}
	}
	return a
}

func scalarLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

// width of a scalar basic type; 0 for bool
func basicWidth(b *types.Basic) (w uint8, signed bool, float bool, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, false, true
	case types.Int8:
		return 8, true, false, true
	case types.Uint8:
		return 8, false, false, true
	case types.Int16:
		return 16, true, false, true
	case types.Uint16:
		return 16, false, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, false, true
	case types.Uint32:
		return 32, false, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, false, true
	case types.Float32:
		return 32, true, true, true
	case types.Float64, types.UntypedFloat:
		return 64, true, true, true
	}
	return 0, false, false, false
}

// term turns a scalar V of width wd into a Term.
func (w *W) term(v V, wd uint8) *Term {
	if v.T != nil {
		return v.T
	}
	if wd == 0 {
		return w.ctx.B(v.C != 0)
	}
	return w.ctx.K(wd, v.C)
}

func fromTerm(t *Term) V {
	if t.op == OConst {
		return V{C: t.val}
	}
	return V{T: t}
}

func boolV(b bool) V {
	if b {
		return V{C: 1}
	}
	return V{}
}

func intV(n int) V { return V{C: uint64(int64(n))} }

// ---- strings ----------------------------------------------------------------

func (v V) slice() *Slice {
	if v.R == nil {
		return nil
	}
	return v.R.(*Slice)
}

func (v V) slen() int {
	if s := v.slice(); s != nil {
		return s.Len
	}
	return 0
}

func roString(s string) V {
	if s == "" {
		return V{}
	}
	a := &Agg{b: []byte(s), bytes: true, ro: true}
	return V{R: &Slice{A: a, Len: len(s), Cap: len(s)}}
}

func (v V) at(i int) V { // element i of slice/string
	s := v.R.(*Slice)
	return s.A.get(s.Off + i)
}

// concStr returns the Go string if all bytes are concrete.
func concStr(v V) (string, bool) {
	s := v.slice()
	if s == nil {
		return "", true
	}
	if s.A.bt == nil {
		return string(s.A.b[s.Off : s.Off+s.Len]), true
	}
	for i := s.Off; i < s.Off+s.Len; i++ {
		if s.A.bt[i] != nil {
			return "", false
		}
	}
	return string(s.A.b[s.Off : s.Off+s.Len]), true
}

func (w *W) strFromVs(vs []V) V {
	if len(vs) == 0 {
		return V{}
	}
	a := w.newBytes(len(vs))
	for i, x := range vs {
		a.rawset(i, x)
	}
	return V{R: &Slice{A: a, Len: len(vs), Cap: len(vs)}}
}

func (w *W) str(s string) V { return roString(s) }

func (w *W) strTerms(v V) []*Term {
	s := v.slice()
	if s == nil {
		return nil
	}
	out := make([]*Term, s.Len)
	for i := range out {
		out[i] = w.term(s.A.get(s.Off+i), 8)
	}
	return out
}

// eqStr builds the equality of two strings.
func (w *W) eqStr(a, b V) *Term {
	n := a.slen()
	if n != b.slen() {
		return w.ctx.ff
	}
	if n == 0 {
		return w.ctx.tt
	}
	sa, sb := a.slice(), b.slice()
	if sa.A == sb.A && sa.Off == sb.Off {
		return w.ctx.tt
	}
	r := w.ctx.tt
	for i := 0; i < n; i++ {
		x, y := sa.A.get(sa.Off+i), sb.A.get(sb.Off+i)
		if x.T == nil && y.T == nil {
			if x.C != y.C {
				return w.ctx.ff
			}
			continue
		}
		r = w.ctx.And(r, w.ctx.Eq(w.term(x, 8), w.term(y, 8)))
	}
	return r
}

// ltStr builds a < b (lexicographic, bytes).
func (w *W) ltStr(a, b V) *Term {
	na, nb := a.slen(), b.slen()
	n := na
	if nb < n {
		n = nb
	}
	r := w.ctx.B(na < nb)
	for i := n - 1; i >= 0; i-- {
		x, y := w.term(a.at(i), 8), w.term(b.at(i), 8)
		r = w.ctx.Ite(w.ctx.Eq(x, y), r, w.ctx.Ult(x, y))
	}
	return r
}

// ---- type identity -----------------------------------------------------------

var (
	typeMu  sync.Mutex
	typeTab typeutil.Map
	typeN   int
)

func (w *W) typeID(t types.Type) int {
	if id, ok := w.typeIDs[t]; ok {
		return id
	}
	typeMu.Lock()
	x := typeTab.At(t)
	if x == nil {
		typeN++
		x = typeN
		typeTab.Set(t, x)
	}
	typeMu.Unlock()
	w.typeIDs[t] = x.(int)
	return x.(int)
}

// comparable reports whether values of dynamic type t can be compared.
func comparable_(t types.Type) bool { return types.Comparable(t) }

// eqV builds the equality of two values of static type t. It may raise a Go
// panic (uncomparable dynamic types) through w.goPanic.
func (w *W) eqV(t types.Type, a, b V) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return w.eqStr(a, b)
		}
		if u.Kind() == types.UnsafePointer {
			return w.ctx.B(ptrEq(a.R, b.R))
		}
		wd, _, fl, ok := basicWidth(u)
		if !ok {
			w.abort("unsupported", "eq of "+t.String())
		}
		if a.R != nil || b.R != nil {
			return w.ctx.B(ptrEq(a.R, b.R))
		}
		if fl {
			return w.ctx.F2(OFEq, w.term(a, wd), w.term(b, wd))
		}
		return w.ctx.Eq(w.term(a, wd), w.term(b, wd))
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature, *types.Slice:
		return w.ctx.B(ptrEq(a.R, b.R))
	case *types.Interface:
		return w.eqIface(a, b)
	case *types.Struct:
		x, y := a.R.(*Agg), b.R.(*Agg)
		r := w.ctx.tt
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = w.ctx.And(r, w.eqV(u.Field(i).Type(), x.get(i), y.get(i)))
			if r == w.ctx.ff {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.R.(*Agg), b.R.(*Agg)
		r := w.ctx.tt
		for i := 0; i < int(u.Len()); i++ {
			r = w.ctx.And(r, w.eqV(u.Elem(), x.get(i), y.get(i)))
		}
		return r
	}
	w.abort("unsupported", "eq of "+t.String())
	return nil
}

func ptrEq(a, b interface{}) bool {
	a, b = normPtr(a), normPtr(b)
	if ca, ok := a.(*Closure); ok {
		cb, ok := b.(*Closure)
		return ok && ca == cb
	}
	return a == b
}

func normPtr(a interface{}) interface{} {
	for {
		switch p := a.(type) {
		case UPtr:
			a = p.P.R
			continue
		case ViewPtr:
			a = p.P
			continue
		}
		return a
	}
}

func (w *W) eqIface(a, b V) *Term {
	if a.R == nil || b.R == nil {
		return w.ctx.B(a.R == nil && b.R == nil)
	}
	x, y := a.R.(*Iface), b.R.(*Iface)
	if x.T != y.T && w.typeID(x.T) != w.typeID(y.T) {
		return w.ctx.ff
	}
	if !comparable_(x.T) {
		w.rtPanic("comparing uncomparable type " + x.T.String())
	}
	return w.eqV(x.T, x.V, y.V)
}
