package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
)

type Intrinsic struct {
	fn  func(w *W, t *Thread, a []V, ci *CallInfo) V
	vis func(w *W, t *Thread, a []V, ci *CallInfo) *VisOp
}

const modPath = "github.com/chenquan/go-pkg"
const symPkg = modPath + "/internal/zzverif/sym"
const stubPkg = modPath + "/internal/zzverif/stubs"

var intrinsics = map[string]*Intrinsic{}

func lookupIntrinsic(name string) *Intrinsic { return intrinsics[name] }

type ifn = func(w *W, t *Thread, a []V, ci *CallInfo) V
type vfn = func(w *W, t *Thread, a []V, ci *CallInfo) *VisOp

func reg(name string, f ifn)    { intrinsics[name] = &Intrinsic{fn: f} }
func regVis(name string, f vfn) { intrinsics[name] = &Intrinsic{vis: f} }

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n uintptr) int { return roundup(int(n), true) }

func roundup(size int, noscan bool) int {
	if size <= 32768-8 {
		req := size
		if !noscan && req > 512 {
			req += 8
		}
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - size)
			}
		}
	}
	return (size + 8191) &^ 8191
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}

var gcSizes = types.SizesFor("gc", "amd64")

func growCap(newLen, oldCap int, elem types.Type) int {
	es := int(gcSizes.Sizeof(elem))
	if es == 0 {
		return newLen
	}
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	return roundup(nc*es, !hasPointers(elem)) / es
}

func (w *W) appendSlice(a, b V, elem types.Type) V {
	nb := b.slen()
	if nb == 0 {
		return a
	}
	sa, sb := a.slice(), b.slice()
	la, ca := 0, 0
	if sa != nil {
		la, ca = sa.Len, sa.Cap
	}
	n := la + nb
	// take a snapshot of source elements (may alias)
	src := make([]V, nb)
	for i := 0; i < nb; i++ {
		if w.racing {
			if ag, ok := sb.A.get(sb.Off + i).R.(*Agg); ok {
				w.raceAgg(ag, false)
			} else {
				w.access(sb.A, sb.Off+i, false)
			}
		}
		src[i] = w.copyV(sb.A.get(sb.Off + i))
	}
	if n <= ca {
		for i := 0; i < nb; i++ {
			if w.racing {
				if ag, ok := sa.A.get(sa.Off + la + i).R.(*Agg); ok {
					w.raceAgg(ag, true)
				} else {
					w.access(sa.A, sa.Off+la+i, true)
				}
			}
			w.storeAt(sa.A, sa.Off+la+i, src[i])
		}
		return V{R: &Slice{A: sa.A, Off: sa.Off, Len: n, Cap: ca}}
	}
	nc := growCap(n, ca, elem)
	r := w.newArray(elem, nc)
	for i := 0; i < la; i++ {
		if w.racing {
			if _, ok := sa.A.get(sa.Off + i).R.(*Agg); !ok {
				w.access(sa.A, sa.Off+i, false)
			}
		}
		w.storeAt(r, i, sa.A.get(sa.Off+i))
	}
	for i := 0; i < nb; i++ {
		w.storeAt(r, la+i, src[i])
	}
	return V{R: &Slice{A: r, Len: n, Cap: nc}}
}

func (w *W) copySlice(dst, src V) V {
	n := dst.slen()
	if m := src.slen(); m < n {
		n = m
	}
	if n == 0 {
		return V{}
	}
	sd, ss := dst.slice(), src.slice()
	tmp := make([]V, n)
	for i := 0; i < n; i++ {
		if w.racing {
			if ag, ok := ss.A.get(ss.Off + i).R.(*Agg); ok {
				w.raceAgg(ag, false)
			} else {
				w.access(ss.A, ss.Off+i, false)
			}
		}
		tmp[i] = w.copyV(ss.A.get(ss.Off + i))
	}
	for i := 0; i < n; i++ {
		if w.racing {
			if ag, ok := sd.A.get(sd.Off + i).R.(*Agg); ok {
				w.raceAgg(ag, true)
			} else {
				w.access(sd.A, sd.Off+i, true)
			}
		}
		w.storeAt(sd.A, sd.Off+i, tmp[i])
	}
	return intV(n)
}

func builtinIntrinsic(ci *CallInfo) *Intrinsic {
	f := func(g ifn) *Intrinsic { return &Intrinsic{fn: g} }
	switch ci.builtin {
	case "append":
		return f(func(w *W, t *Thread, a []V, _ *CallInfo) V {
			st := ci.argT[0].Underlying().(*types.Slice)
			return w.appendSlice(a[0], a[1], st.Elem())
		})
	case "copy":
		return f(func(w *W, t *Thread, a []V, _ *CallInfo) V { return w.copySlice(a[0], a[1]) })
	case "len", "cap":
		isCap := ci.builtin == "cap"
		switch u := ci.argT[0].Underlying().(type) {
		case *types.Chan:
			if isCap {
				return f(func(w *W, t *Thread, a []V, _ *CallInfo) V {
					if a[0].R == nil {
						return V{}
					}
					return intV(a[0].R.(*Chan).cap)
				})
			}
			return &Intrinsic{vis: func(w *W, t *Thread, a []V, _ *CallInfo) *VisOp {
				if a[0].R == nil {
					return nil
				}
				c := a[0].R.(*Chan)
				return &VisOp{name: "len(chan)", keys: []depKey{{c, false}}, exec: func() (V, bool) { return intV(len(c.buf)), true }}
			}}
		case *types.Map:
			return f(func(w *W, t *Thread, a []V, _ *CallInfo) V {
				if a[0].R == nil {
					return V{}
				}
				m := a[0].R.(*MapObj)
				if w.racing {
					w.accessMap(m, false)
				}
				return intV(m.live)
			})
		case *types.Pointer:
			n := int(u.Elem().Underlying().(*types.Array).Len())
			return f(func(w *W, t *Thread, a []V, _ *CallInfo) V { return intV(n) })
		case *types.Array:
			n := int(u.Len())
			return f(func(w *W, t *Thread, a []V, _ *CallInfo) V { return intV(n) })
		}
		return f(func(w *W, t *Thread, a []V, _ *CallInfo) V {
			s := a[0].slice()
			if s == nil {
				return V{}
			}
			if isCap {
				return intV(s.Cap)
			}
			return intV(s.Len)
		})
	case "delete":
		return f(func(w *W, t *Thread, a []V, _ *CallInfo) V { w.mapDelete(a[0], a[1]); return V{} })
	case "clear":
		return f(func(w *W, t *Thread, a []V, _ *CallInfo) V {
			switch u := ci.argT[0].Underlying().(type) {
			case *types.Map:
				if a[0].R != nil {
					m := a[0].R.(*MapObj)
					if w.racing {
						w.accessMap(m, true)
					}
					w.mapLog(m)
					for _, e := range m.es {
						e.dead = true
					}
					m.es = nil
					m.live = 0
				}
			case *types.Slice:
				if s := a[0].slice(); s != nil {
					for i := 0; i < s.Len; i++ {
						if w.racing {
							w.access(s.A, s.Off+i, true)
						}
						w.storeAt(s.A, s.Off+i, w.zero(u.Elem()))
					}
				}
			}
			return V{}
		})
	case "close":
		return &Intrinsic{vis: func(w *W, t *Thread, a []V, _ *CallInfo) *VisOp {
			var keys []depKey
			if a[0].R != nil {
				keys = []depKey{{a[0].R, true}}
			}
			return &VisOp{name: "close", keys: keys, exec: func() (V, bool) { w.closeChan(a[0]); return V{}, true }}
		}}
	case "panic":
		return f(func(w *W, t *Thread, a []V, _ *CallInfo) V { panic(&symPanic{val: a[0]}) })
	case "print", "println":
		return f(func(w *W, t *Thread, a []V, _ *CallInfo) V { return V{} })
	case "recover":
		return f(func(w *W, t *Thread, a []V, _ *CallInfo) V {
			fr := t.frames[len(t.frames)-1]
			if fr.dkind == 2 && fr.rec != nil && !fr.rec.recovered && !fr.rec.goexit {
				fr.rec.recovered = true
				return fr.rec.val
			}
			return V{}
		})
	case "min", "max":
		isMax := ci.builtin == "max"
		return f(func(w *W, t *Thread, a []V, _ *CallInfo) V {
			r := a[0]
			b, ok := ci.argT[0].Underlying().(*types.Basic)
			if !ok {
				w.abort("unsupported", "min/max")
			}
			if b.Info()&types.IsString != 0 {
				for _, x := range a[1:] {
					lt := w.ltStr(x, r)
					if isMax {
						lt = w.ltStr(r, x)
					}
					if w.branch(lt) {
						r = x
					}
				}
				return r
			}
			wd, sg, fl, _ := basicWidth(b)
			c := w.ctx
			x := w.term(r, wd)
			for _, yv := range a[1:] {
				y := w.term(yv, wd)
				switch {
				case fl:
					if isMax {
						x = w.fMax(x, y)
					} else {
						x = w.fMin(x, y)
					}
					continue
				case sg && isMax:
					x = c.Ite(c.Slt(x, y), y, x)
				case sg:
					x = c.Ite(c.Slt(y, x), y, x)
				case isMax:
					x = c.Ite(c.Ult(x, y), y, x)
				default:
					x = c.Ite(c.Ult(y, x), y, x)
				}
			}
			return fromTerm(x)
		})
	case "ssa:wrapnilchk":
		return f(func(w *W, t *Thread, a []V, _ *CallInfo) V {
			if a[0].R == nil {
				w.nilDeref()
			}
			return a[0]
		})
	case "ssa:deferstack":
		return f(func(w *W, t *Thread, a []V, _ *CallInfo) V { return V{} })
	case "String", "Slice":
		isStr := ci.builtin == "String"
		return f(func(w *W, t *Thread, a []V, _ *CallInfo) V {
			n := int(int64(w.conc(a[1])))
			if n < 0 {
				w.rtPanic("unsafe." + ci.builtin + ": len out of range")
			}
			p := normPtr(a[0].R)
			if p == nil {
				if n == 0 {
					return V{}
				}
				w.rtPanic("unsafe." + ci.builtin + ": ptr is nil and len is not zero")
			}
			q, ok := p.(Ptr)
			if !ok {
				w.abort("unsupported", "unsafe."+ci.builtin)
			}
			if n == 0 && isStr {
				return V{}
			}
			if q.I+n > q.A.n() {
				w.fail("unsafe", "unsafe."+ci.builtin+" extends past its memory", nil)
			}
			return V{R: &Slice{A: q.A, Off: q.I, Len: n, Cap: n}}
		})
	case "StringData", "SliceData":
		return f(func(w *W, t *Thread, a []V, _ *CallInfo) V {
			s := a[0].slice()
			if s == nil {
				return V{}
			}
			return V{R: Ptr{s.A, s.Off}}
		})
	case "Add":
		return f(func(w *W, t *Thread, a []V, _ *CallInfo) V {
			n := int(int64(w.conc(a[1])))
			if n == 0 {
				return a[0]
			}
			up, ok := a[0].R.(UPtr)
			if ok {
				if q, ok := up.P.R.(Ptr); ok && q.A.bytes {
					return V{R: UPtr{P: V{R: Ptr{q.A, q.I + n}}, Elem: up.Elem}}
				}
			}
			w.abort("unsupported", "unsafe.Add")
			return V{}
		})
	}
	name := ci.builtin
	return f(func(w *W, t *Thread, a []V, _ *CallInfo) V {
		w.abort("unsupported", "builtin "+name)
		return V{}
	})
}

// ---- float helpers ---------------------------------------------------------------

func (w *W) fMax(x, y *Term) *Term {
	c := w.ctx
	wd := x.sort
	sgn := func(t *Term) *Term { return c.Eq(c.Extract(t, wd-1, 1), c.K(1, 1)) }
	nan := c.Or(c.F1(OFNaN, 0, x), c.F1(OFNaN, 0, y))
	inf := c.K(wd, fbits(wd, math.Inf(1)))
	anyInf := c.Or(c.Eq(x, inf), c.Eq(y, inf))
	r := c.Ite(c.F2(OFLt, y, x), x, y)
	zero := c.K(wd, 0)
	bothZero := c.And(c.F2(OFEq, x, zero), c.F2(OFEq, y, zero))
	r = c.Ite(bothZero, c.Ite(sgn(x), y, x), r)
	r = c.Ite(nan, c.K(wd, fbits(wd, math.NaN())), r)
	return c.Ite(anyInf, inf, r)
}

func (w *W) fMin(x, y *Term) *Term {
	c := w.ctx
	wd := x.sort
	sgn := func(t *Term) *Term { return c.Eq(c.Extract(t, wd-1, 1), c.K(1, 1)) }
	nan := c.Or(c.F1(OFNaN, 0, x), c.F1(OFNaN, 0, y))
	inf := c.K(wd, fbits(wd, math.Inf(-1)))
	anyInf := c.Or(c.Eq(x, inf), c.Eq(y, inf))
	r := c.Ite(c.F2(OFLt, x, y), x, y)
	zero := c.K(wd, 0)
	bothZero := c.And(c.F2(OFEq, x, zero), c.F2(OFEq, y, zero))
	r = c.Ite(bothZero, c.Ite(sgn(x), x, y), r)
	r = c.Ite(nan, c.K(wd, fbits(wd, math.NaN())), r)
	return c.Ite(anyInf, inf, r)
}

// ---- tuple helper -----------------------------------------------------------------

func tup(vs ...V) V { return V{R: &Tuple{vs: vs}} }

func (w *W) fmtV(v V, t types.Type, model []uint64) string {
	sc := func(wd uint8) uint64 {
		if v.T != nil {
			return w.ctx.Eval(v.T, model)
		}
		return v.C
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return fmt.Sprintf("%x", w.evalBytes(v, model))
		}
		wd, sg, fl, ok := basicWidth(u)
		if !ok {
			return "?"
		}
		x := sc(wd)
		if wd == 0 {
			return fmt.Sprint(x == 1)
		}
		if fl {
			f := fval(wd, x)
			if f != f {
				return "NaN"
			}
			return fmt.Sprintf("%x", x)
		}
		if sg {
			return fmt.Sprint(sext(x, wd))
		}
		return fmt.Sprint(x)
	case *types.Slice:
		if isByteType(u.Elem()) {
			return fmt.Sprintf("%x", w.evalBytes(v, model))
		}
		var sb strings.Builder
		sb.WriteString("[")
		for i := 0; i < v.slen(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(w.fmtV(v.at(i), u.Elem(), model))
		}
		return sb.String() + "]"
	case *types.Interface:
		if v.R == nil {
			return "nil"
		}
		i := v.R.(*Iface)
		return w.fmtV(i.V, i.T, model)
	}
	if v.R == nil {
		return "nil"
	}
	return "ref"
}

func (w *W) evalBytes(v V, model []uint64) []byte {
	s := v.slice()
	if s == nil {
		return nil
	}
	out := make([]byte, s.Len)
	for i := range out {
		x := s.A.get(s.Off + i)
		if x.T != nil {
			out[i] = byte(w.ctx.Eval(x.T, model))
		} else {
			out[i] = byte(x.C)
		}
	}
	return out
}
