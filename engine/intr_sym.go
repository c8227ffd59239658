package main

import (
	"fmt"
	"go/types"
)

type spanRec struct {
	group     uint64
	item      V
	call, ret int
}

func (w *W) addInput(kind string, v V, wd uint8) {
	w.inputs = append(w.inputs, input{kind, v, wd})
}

func init() {
	S := func(n string, f ifn) { reg(symPkg+"."+n, f) }
	scal := func(n string, wd uint8) {
		S(n, func(w *W, t *Thread, a []V, ci *CallInfo) V {
			v := fromTerm(w.fresh(wd, 0))
			w.addInput(n, v, wd)
			return v
		})
	}
	scal("Int", 64)
	scal("Int64", 64)
	scal("Int32", 32)
	scal("Int16", 16)
	scal("Int8", 8)
	scal("Uint", 64)
	scal("Uint64", 64)
	scal("Uint32", 32)
	scal("Uint16", 16)
	scal("Uint8", 8)
	scal("Float64", 64)
	scal("Float32", 32)
	scal("Bool", 0)
	S("IntRange", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		lo, hi := int64(w.conc(a[0])), int64(w.conc(a[1]))
		if lo > hi {
			w.abort("infeasible", "")
		}
		c := w.ctx
		if lo >= 0 {
			// narrow variable: cheap bounds
			n := uint8(1)
			for n < 63 && hi>>n != 0 {
				n++
			}
			x := w.fresh(n, uint64(lo))
			w.assumeFresh(c.And(c.Ule(c.K(n, uint64(lo)), x), c.Ule(x, c.K(n, uint64(hi)))))
			v := fromTerm(c.Zext(x, 64))
			w.addInput("IntRange", v, 64)
			return v
		}
		x := w.fresh(64, uint64(lo))
		w.assumeFresh(c.And(c.Sle(c.K(64, uint64(lo)), x), c.Sle(x, c.K(64, uint64(hi)))))
		v := fromTerm(x)
		w.addInput("IntRange", v, 64)
		return v
	})
	S("Choose", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		n := int(w.conc(a[0]))
		v := intV(w.chooseN(n, "choose"))
		w.addInput("Choose", v, 64)
		return v
	})
	bytesFn := func(str bool) ifn {
		return func(w *W, t *Thread, a []V, ci *CallInfo) V {
			lo, hi := int(w.conc(a[0])), int(w.conc(a[1]))
			n := lo + w.chooseN(hi-lo+1, "len")
			w.addInput("len", intV(n), 64)
			ag := w.newBytes(n)
			for i := 0; i < n; i++ {
				v := fromTerm(w.fresh(8, 'a'))
				w.addInput("byte", v, 8)
				ag.rawset(i, v)
			}
			if n == 0 && str {
				return V{}
			}
			return V{R: &Slice{A: ag, Len: n, Cap: n}}
		}
	}
	S("Bytes", bytesFn(false))
	S("Str", bytesFn(true))
	ustr := func(w *W, lo, hi, maxw int) V {
		n := lo + w.chooseN(hi-lo+1, "len")
		w.addInput("len", intV(n), 64)
		var out []V
		for i := 0; i < n; i++ {
			r := w.freshRune(maxw)
			w.addInput("rune", fromTerm(r), 32)
			out = append(out, w.encodeRune(r)...)
		}
		return w.strFromVs(out)
	}
	S("UStr", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		return ustr(w, int(w.conc(a[0])), int(w.conc(a[1])), 4)
	})
	S("UStrW", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		return ustr(w, int(w.conc(a[0])), int(w.conc(a[1])), int(w.conc(a[2])))
	})
	S("Rune", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		r := w.freshRune(4)
		w.addInput("rune", fromTerm(r), 32)
		return fromTerm(r)
	})
	S("Assume", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		w.assume(w.term(a[0], 0))
		return V{}
	})
	S("Assert", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		msg, _ := concStr(a[1])
		w.check(w.term(a[0], 0), msg)
		return V{}
	})
	S("Cover", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		s, _ := concStr(a[0])
		w.covers[s] = true
		return V{}
	})
	S("Tier", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		if w.eng.tier == "thorough" {
			return intV(1)
		}
		return intV(0)
	})
	S("And", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		return fromTerm(w.ctx.And(w.term(a[0], 0), w.term(a[1], 0)))
	})
	S("Or", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		return fromTerm(w.ctx.Or(w.term(a[0], 0), w.term(a[1], 0)))
	})
	S("Implies", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		return fromTerm(w.ctx.Or(w.ctx.Not(w.term(a[0], 0)), w.term(a[1], 0)))
	})
	S("IteInt", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		return fromTerm(w.ctx.Ite(w.term(a[0], 0), w.term(a[1], 64), w.term(a[2], 64)))
	})
	S("EqBytes", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		return fromTerm(w.eqStr(a[0], a[1]))
	})
	S("Concrete", func(w *W, t *Thread, a []V, ci *CallInfo) V { return V{C: w.conc(a[0])} })
	S("Obs", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		s, _ := concStr(a[0])
		v := a[1]
		// snapshot
		if i, ok := v.R.(*Iface); ok {
			if sl, ok := i.V.R.(*Slice); ok && sl.A.bytes {
				r := w.newBytes(sl.Len)
				w.copyBytes(r, 0, sl)
				v = V{R: &Iface{T: i.T, V: V{R: &Slice{A: r, Len: sl.Len, Cap: sl.Len}}}}
			}
		}
		w.obsV = append(w.obsV, obsRec{s, v, types.NewInterfaceType(nil, nil)})
		return V{}
	})
	S("Sched", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		s, _ := concStr(a[0])
		w.sched = s
		w.budget = int(w.conc(a[1]))
		if s == "rotate" {
			w.quantum, w.budget, w.ran = w.budget, 0, 0
		}
		if w.budget == 0 && s != "full" {
			// one schedule and one pool behaviour (last in, first out): room for large histories
			w.single = true
			w.maxSteps, w.maxThreads = 40_000_000, 16384
		}
		return V{}
	})
	S("NoRace", func(w *W, t *Thread, a []V, ci *CallInfo) V { w.noRace = true; return V{} })
	S("Rand", func(w *W, t *Thread, a []V, ci *CallInfo) V { w.randState = uint64(w.conc(a[0]))*2 + 1; return V{} })
	S("MapOrder", func(w *W, t *Thread, a []V, ci *CallInfo) V { w.mapOrder = int(w.conc(a[0])); return V{} })
	S("Call", func(w *W, t *Thread, a []V, ci *CallInfo) V { return w.stamp(t) })
	S("Ret", func(w *W, t *Thread, a []V, ci *CallInfo) V { return w.stamp(t) })
	S("Before", func(w *W, t *Thread, a []V, ci *CallInfo) V { return fromTerm(w.before(a[0], a[1])) })
	S("Begin", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		w.spans = append(w.spans, spanRec{group: w.conc(a[0]), item: a[1], call: int(w.stamp(t).C)})
		return intV(len(w.spans))
	})
	S("End", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		w.spans[w.conc(a[0])-1].ret = int(w.stamp(t).C)
		return V{}
	})
	S("Spans", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		n := 0
		for i := range w.spans {
			if w.spans[i].group == w.conc(a[0]) {
				n++
			}
		}
		return intV(n)
	})
	span := func(w *W, a []V) *spanRec {
		k := int(w.conc(a[1]))
		for i := range w.spans {
			if w.spans[i].group == w.conc(a[0]) {
				if k == 0 {
					return &w.spans[i]
				}
				k--
			}
		}
		panic("no such span")
	}
	S("SpanItem", func(w *W, t *Thread, a []V, ci *CallInfo) V { return span(w, a).item })
	S("SpanCall", func(w *W, t *Thread, a []V, ci *CallInfo) V { return intV(span(w, a).call) })
	S("SpanRet", func(w *W, t *Thread, a []V, ci *CallInfo) V { return intV(span(w, a).ret) })
	S("DecideOrders", func(w *W, t *Thread, a []V, ci *CallInfo) V { w.orderAll = true; return V{} })
	S("Follows", func(w *W, t *Thread, a []V, ci *CallInfo) V { return boolV(w.follows(a[0], a[1])) })
	S("Same", func(w *W, t *Thread, a []V, ci *CallInfo) V { return boolV(identical(a[0], a[1], 6)) })
	S("Impossible", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		c := w.term(a[0], 0)
		if c.isC() {
			return boolV(c.val == 0)
		}
		v, ok := w.known[c]
		return boolV(ok && !v)
	})
	regVis(symPkg+".Quiesce", func(w *W, t *Thread, a []V, ci *CallInfo) *VisOp {
		return &VisOp{name: "quiesce", low: true, global: true, exec: func() (V, bool) {
			// everything the others did so far is ordered before what follows
			for _, o := range w.threads {
				if o != t && (o.done || o.parked || o.op != nil) {
					t.vc.join(o.vc)
				}
			}
			for _, o := range w.threads {
				if o != t {
					o.vc.join(t.vc)
					w.tick(o)
				}
			}
			w.tick(t)
			return V{}, true
		}}
	})
	S("Live", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		n := 0
		for _, o := range w.threads {
			if o != t && !o.done && !o.timer {
				n++
			}
		}
		return intV(n)
	})
	S("LiveDesc", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		s := ""
		for _, o := range w.threads {
			if o != t && !o.done && !o.timer {
				why := o.parkWhy
				if o.op != nil {
					why = o.op.name
				}
				s += fmt.Sprintf(" g%d:%s@%s", o.id, why, w.where(o))
			}
		}
		return roString(s)
	})
	regVis(symPkg+".TimerWait", func(w *W, t *Thread, a []V, ci *CallInfo) *VisOp {
		t.timer = true
		var keys []depKey
		en := func() bool { return true }
		if a[0].R != nil {
			c := a[0].R.(*Chan)
			keys = []depKey{{c, true}}
			en = func() bool { return !c.closed }
		}
		return &VisOp{name: "timer", timer: true, keys: keys, enabled: en, exec: func() (V, bool) { t.timer = false; w.envND = true; return V{}, true }}
	})
	regVis(symPkg+".Yield", yieldOp("yield"))
	regVis("runtime.Gosched", yieldOp("gosched"))
	regVis("time.Sleep", yieldOp("sleep"))
	S("SideGet", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		v, _ := w.sideGet(a[0], a[1])
		return v
	})
	S("SideSet", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		w.sideSet(a[0], a[1], a[2])
		return V{}
	})
	S("RandIntn", func(w *W, t *Thread, a []V, ci *CallInfo) V { return w.randN(a[0], 64) })
	S("Symbolic", func(w *W, t *Thread, a []V, ci *CallInfo) V { return boolV(true) })
	S("Sprintf", func(w *W, t *Thread, a []V, ci *CallInfo) V { return w.hostSprintf(a[0], a[1]) })
}

func (w *W) sideKeyOf(p, n V) sideKey {
	ifc, ok := p.R.(*Iface)
	if !ok {
		w.nilDeref()
	}
	q, ok := normPtr(ifc.V.R).(Ptr)
	if !ok {
		if ifc.V.R == nil {
			w.nilDeref()
		}
		w.abort("unsupported", "side state on non-pointer")
	}
	s, _ := concStr(n)
	return sideKey{q, s}
}

func (w *W) sideGet(p, n V) (V, bool) {
	k := w.sideKeyOf(p, n)
	if v, ok := w.side[k]; ok {
		return v, true
	}
	v, ok := w.sidePerm[k]
	return v, ok
}

func (w *W) sideSet(p, n, v V) {
	k := w.sideKeyOf(p, n)
	if w.initMode {
		w.sidePerm[k] = v
		return
	}
	w.side[k] = v
}

func yieldOp(name string) vfn {
	return func(w *W, t *Thread, a []V, ci *CallInfo) *VisOp {
		if w.live == 1 {
			return nil
		}
		// consecutive yields without a visible step in between collapse
		if t.lastStep == w.visSteps && t.idle {
			return nil
		}
		return &VisOp{name: name, global: true, yield: true, exec: func() (V, bool) {
			t.lastStep = w.visSteps
			w.pure = true
			t.idle = true
			return V{}, true
		}}
	}
}

func (w *W) randN(n V, wd uint8) V {
	c := w.ctx
	nt := w.term(n, wd)
	if w.branch(c.Sle(nt, c.K(wd, 0))) {
		w.goPanicStr("invalid argument to Intn")
	}
	if w.randState != 0 && nt.isC() {
		w.randState = w.randState*6364136223846793005 + 1442695040888963407
		w.envND = true
		return fromTerm(c.K(wd, (w.randState>>33)%nt.val))
	}
	x := w.fresh(wd, 0)
	w.envND = true
	w.assume(c.Ult(x, nt))
	return fromTerm(x)
}

// identical is syntactic equality of values (slices by content).
func identical(a, b V, depth int) bool {
	if depth < 0 || a.T != b.T || a.T == nil && a.C != b.C {
		return false
	}
	switch x := a.R.(type) {
	case nil:
		return b.R == nil
	case *Iface:
		y, ok := b.R.(*Iface)
		return ok && types.Identical(x.T, y.T) && identical(x.V, y.V, depth-1)
	case *Agg:
		y, ok := b.R.(*Agg)
		if !ok || x.n() != y.n() {
			return false
		}
		for i := 0; i < x.n(); i++ {
			if !identical(x.get(i), y.get(i), depth-1) {
				return false
			}
		}
		return true
	case *Slice:
		y, ok := b.R.(*Slice)
		if !ok || x.Len != y.Len {
			return false
		}
		for i := 0; i < x.Len; i++ {
			if !identical(x.A.get(x.Off+i), y.A.get(y.Off+i), depth-1) {
				return false
			}
		}
		return true
	case Ptr:
		y, ok := b.R.(Ptr)
		return ok && x == y
	}
	return false
}
