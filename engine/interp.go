package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn        *Fn
	regs      []V
	blk       int
	prev      int
	pc        int
	dst       int // register in the caller receiving the result
	defers    []deferRec
	dkind     uint8 // 0 plain, 1 run by RunDefers, 2 run while panicking, 3 run after recovery
	rec       *panicRec
	recovered bool // this frame recovered; its remaining defers run, then it returns
	onRet     func(v V)
	args      []V // arguments (pseudo frames)
	line      token.Pos
}

type deferRec struct {
	fn   *Fn
	env  []V
	args []V
	nat  *Closure
}

type panicRec struct {
	val       V // interface value
	goexit    bool
	recovered bool
	where     string
}

type symPanic struct {
	val    V
	goexit bool
}

type pathAbort struct {
	kind string // violation, infeasible, unsupported, steps, memory, done, redundant
	msg  string
}

func (w *W) abort(kind, msg string) { panic(&pathAbort{kind, msg}) }

func (w *W) rtPanic(msg string) {
	panic(&symPanic{val: V{R: &Iface{T: w.eng.rtErrType, V: roString(msg)}}})
}

func (w *W) goPanicStr(msg string) {
	panic(&symPanic{val: V{R: &Iface{T: types.Typ[types.String], V: roString(msg)}}})
}

func (w *W) nilDeref() { w.rtPanic("invalid memory address or nil pointer dereference") }

func (w *W) opv(fr *Frame, o *Opnd) V {
	switch o.k {
	case kReg:
		return fr.regs[o.i]
	case kConst:
		return o.v
	case kZero:
		return w.zero(o.typ)
	case kGlobal:
		return V{R: w.globalPtr(o.g)}
	case kFunc:
		return w.funcV(o.fn)
	}
	return V{}
}

func (w *W) funcV(f *ssa.Function) V {
	if c, ok := w.funcVs[f]; ok {
		return V{R: c}
	}
	c := &Closure{fn: w.getFn(f)}
	w.funcVs[f] = c
	return V{R: c}
}

// curInstr returns the instruction the frame is at.
func (fr *Frame) cur() *Instr { return fr.fn.blocks[fr.blk].ins[fr.pc] }

func (w *W) pushFrame(t *Thread, fn *Fn, args, env []V, dst int) *Frame {
	if fn.bad != "" {
		w.abort("unsupported", fn.bad)
	}
	if len(t.frames) > 2000 {
		w.abort("steps", "call depth limit in "+fn.name)
	}
	fr := &Frame{fn: fn, dst: dst, prev: -1}
	fr.regs = make([]V, fn.nreg)
	copy(fr.regs, args)
	copy(fr.regs[fn.np:], env)
	if fn.intr == nil && !w.initMode {
		w.noteFn(fn)
	}
	t.frames = append(t.frames, fr)
	return fr
}

func (w *W) noteFn(fn *Fn) {
	w.fnHits[fn]++
}

// run executes thread t until it must stop: a visible operation is pending,
// it is parked, or it has finished.
func (w *W) run(t *Thread) {
	w.cur = t
	for !t.done && t.op == nil && !t.parked {
		w.runGuard(t)
	}
}

func (w *W) runGuard(t *Thread) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(*symPanic); ok {
				t.panics = append(t.panics, &panicRec{val: p.val, goexit: p.goexit, where: w.where(t)})
				t.unwinding = true
				return
			}
			panic(r)
		}
	}()
	if t.unwinding {
		w.unwind(t)
		if t.done {
			return
		}
	}
	for !t.done && t.op == nil && !t.parked && !t.unwinding {
		w.step(t)
	}
}

func (w *W) where(t *Thread) string {
	for i := len(t.frames) - 1; i >= 0; i-- {
		fr := t.frames[i]
		if fr.fn.f != nil && fr.fn.blocks != nil {
			b := fr.fn.blocks[fr.blk]
			if fr.pc < len(b.ins) && b.ins[fr.pc].x != nil {
				for j := fr.pc; j >= 0; j-- {
					if b.ins[j].x == nil {
						continue
					}
					if p := b.ins[j].x.Pos(); p.IsValid() {
						return w.eng.prog.Fset.Position(p).String() + " in " + fr.fn.name
					}
				}
			}
			return fr.fn.name
		}
	}
	return "?"
}

func (w *W) unwind(t *Thread) {
	rec := t.panics[len(t.panics)-1]
	for {
		if len(t.frames) == 0 {
			t.unwinding = false
			if rec.goexit {
				w.threadExit(t)
				return
			}
			w.uncaught(t, rec)
			return
		}
		fr := t.frames[len(t.frames)-1]
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			nf := w.pushDeferred(t, d)
			nf.dkind = 2
			nf.rec = rec
			t.unwinding = false
			return
		}
		t.frames = t.frames[:len(t.frames)-1]
		if fr.dkind == 2 && fr.rec != nil && fr.rec != rec {
			// the older panic was superseded by this one
			for i, p := range t.panics {
				if p == fr.rec {
					t.panics = append(t.panics[:i:i], t.panics[i+1:]...)
					break
				}
			}
		}
	}
}

func (w *W) pushDeferred(t *Thread, d deferRec) *Frame {
	if d.nat != nil {
		fn := &Fn{name: "native", np: len(d.args), nreg: len(d.args), recover: -1}
		nat := d.nat
		fn.intr = &Intrinsic{fn: func(w *W, t *Thread, a []V, ci *CallInfo) V { return nat.nat(w, t, a) }}
		makePseudo(fn)
		return w.pushFrame(t, fn, d.args, nil, -1)
	}
	return w.pushFrame(t, d.fn, d.args, d.env, -1)
}

// ret returns from the top frame with value v.
func (w *W) ret(t *Thread, v V) {
	fr := t.frames[len(t.frames)-1]
	t.frames = t.frames[:len(t.frames)-1]
	switch fr.dkind {
	case 1:
		return // parent re-executes RunDefers
	case 2:
		rec := fr.rec
		if rec.recovered {
			// drop the panic; the parent frame finishes its defers and returns
			for i, p := range t.panics {
				if p == rec {
					t.panics = append(t.panics[:i:i], t.panics[i+1:]...)
					break
				}
			}
			w.continueRecovered(t)
			return
		}
		t.unwinding = true
		return
	case 3:
		w.continueRecovered(t)
		return
	}
	if fr.onRet != nil {
		fr.onRet(v)
		return
	}
	if len(t.frames) == 0 {
		t.result = v
		w.threadExit(t)
		return
	}
	p := t.frames[len(t.frames)-1]
	if fr.dst >= 0 {
		p.regs[fr.dst] = v
	}
	p.pc++
}

func (w *W) continueRecovered(t *Thread) {
	p := t.frames[len(t.frames)-1]
	if len(p.defers) > 0 {
		d := p.defers[len(p.defers)-1]
		p.defers = p.defers[:len(p.defers)-1]
		nf := w.pushDeferred(t, d)
		nf.dkind = 3
		return
	}
	if p.fn.recover >= 0 {
		p.prev = p.blk
		p.blk = p.fn.recover
		p.pc = 0
		return
	}
	// no named results: zero values
	res := p.fn.f.Signature.Results()
	var v V
	if res.Len() == 1 {
		v = w.zero(res.At(0).Type())
	} else if res.Len() > 1 {
		v = w.zero(res)
	}
	w.ret(t, v)
}

func (w *W) jump(fr *Frame, to int) {
	from := fr.blk
	fr.prev = from
	fr.blk = to
	fr.pc = 0
	b := fr.fn.blocks[to]
	if len(b.phis) > 0 {
		e := b.predIx[from]
		if len(b.phis) == 1 {
			in := b.phis[0]
			fr.regs[in.dst] = w.opv(fr, &in.ops[e])
		} else {
			var tmp [8]V
			vals := tmp[:0]
			for _, in := range b.phis {
				vals = append(vals, w.opv(fr, &in.ops[e]))
			}
			for i, in := range b.phis {
				fr.regs[in.dst] = vals[i]
			}
		}
	}
}

func (w *W) step(t *Thread) {
	w.steps++
	if w.steps > w.maxSteps {
		w.abort("steps", "instruction limit at "+w.where(t))
	}
	fr := t.frames[len(t.frames)-1]
	in := fr.fn.blocks[fr.blk].ins[fr.pc]
	if in.intr != nil {
		// pseudo frame: run the intrinsic on the registers, then return
		w.callIntr(t, in.ifn, fr.regs, nil, -2)
		return
	}
	switch x := in.x.(type) {
	case *ssa.If:
		c := w.opv(fr, &in.a)
		var b bool
		if c.T == nil {
			b = c.C != 0
		} else {
			b = w.branch(c.T)
		}
		s := fr.fn.blocks[fr.blk].succs
		if b {
			w.jump(fr, s[0])
		} else {
			w.jump(fr, s[1])
		}
		return
	case *ssa.Jump:
		w.jump(fr, fr.fn.blocks[fr.blk].succs[0])
		return
	case *ssa.Return:
		var v V
		if len(in.ops) == 1 {
			v = w.opv(fr, &in.ops[0])
		} else if len(in.ops) > 1 {
			tp := &Tuple{vs: make([]V, len(in.ops))}
			for i := range in.ops {
				tp.vs[i] = w.opv(fr, &in.ops[i])
			}
			v = V{R: tp}
		}
		w.ret(t, v)
		return
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			nf := w.pushDeferred(t, d)
			nf.dkind = 1
			return
		}
	case *ssa.Panic:
		v := w.opv(fr, &in.a)
		panic(&symPanic{val: v})
	case *ssa.Call:
		w.doCall(t, fr, in)
		return
	case *ssa.Defer:
		d := w.prepCall(t, fr, in.call)
		fr.defers = append(fr.defers, d)
	case *ssa.Go:
		d := w.prepCall(t, fr, in.call)
		fr.pc++
		w.spawn(t, d)
		return
	case *ssa.Send:
		ch := w.opv(fr, &in.a)
		v := w.opv(fr, &in.b)
		w.visible(t, w.sendOp(t, ch, v, func(V) {}), in.dst)
		return
	case *ssa.Select:
		w.visible(t, w.selectOp(t, fr, x, in), in.dst)
		return
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			ch := w.opv(fr, &in.a)
			w.visible(t, w.recvOp(t, ch, x.CommaOk, in.t), in.dst)
			return
		}
		fr.regs[in.dst] = w.unop(fr, x, in)
	case *ssa.BinOp:
		a, b := w.opv(fr, &in.a), w.opv(fr, &in.b)
		fr.regs[in.dst] = w.binop(x.Op, in, a, b)
	case *ssa.Store:
		w.store(w.opv(fr, &in.a), w.opv(fr, &in.b))
	case *ssa.Alloc:
		fr.regs[in.dst] = V{R: w.alloc(in.t)}
	case *ssa.FieldAddr:
		fr.regs[in.dst] = w.fieldAddr(w.opv(fr, &in.a), in.i)
	case *ssa.Field:
		a := w.opv(fr, &in.a).R.(*Agg)
		fr.regs[in.dst] = a.get(in.i)
	case *ssa.IndexAddr:
		fr.regs[in.dst] = w.indexAddr(w.opv(fr, &in.a), w.opv(fr, &in.b), in)
	case *ssa.Index:
		fr.regs[in.dst] = w.index(w.opv(fr, &in.a), w.opv(fr, &in.b), in)
	case *ssa.Lookup:
		fr.regs[in.dst] = w.lookup(w.opv(fr, &in.a), w.opv(fr, &in.b), x, in)
	case *ssa.MapUpdate:
		m := w.opv(fr, &in.a)
		k := w.opv(fr, &in.b)
		v := w.opv(fr, &in.c)
		w.mapUpdate(m, k, v)
	case *ssa.Extract:
		fr.regs[in.dst] = w.opv(fr, &in.a).R.(*Tuple).vs[in.i]
	case *ssa.MakeInterface:
		v := w.opv(fr, &in.a)
		fr.regs[in.dst] = V{R: &Iface{T: in.t, V: v}}
	case *ssa.ChangeInterface:
		fr.regs[in.dst] = w.opv(fr, &in.a)
	case *ssa.ChangeType:
		fr.regs[in.dst] = w.opv(fr, &in.a)
	case *ssa.Convert:
		fr.regs[in.dst] = w.convert(x.X.Type(), x.Type(), w.opv(fr, &in.a))
	case *ssa.MultiConvert:
		fr.regs[in.dst] = w.convert(x.X.Type(), x.Type(), w.opv(fr, &in.a))
	case *ssa.SliceToArrayPointer:
		v := w.opv(fr, &in.a)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if v.slen() < int(at.Len()) {
			w.rtPanic("cannot convert slice to array pointer: length too short")
		}
		s := v.slice()
		if s == nil {
			if at.Len() == 0 {
				fr.regs[in.dst] = V{}
				break
			}
		}
		if s.Off == 0 && s.A.n() == int(at.Len()) {
			box := w.newAgg(1)
			box.e[0] = V{R: s.A}
			fr.regs[in.dst] = V{R: Ptr{box, 0}}
			break
		}
		w.abort("unsupported", "slice to array pointer with offset")
	case *ssa.MakeClosure:
		env := make([]V, len(in.ops))
		for i := range in.ops {
			env[i] = w.opv(fr, &in.ops[i])
		}
		fn := w.getFn(in.x.(*ssa.MakeClosure).Fn.(*ssa.Function))
		fr.regs[in.dst] = V{R: &Closure{fn: fn, env: env}}
	case *ssa.MakeMap:
		w.nextID++
		fr.regs[in.dst] = V{R: &MapObj{birth: w.epoch, id: w.nextID, kt: in.t.Underlying().(*types.Map).Key()}}
	case *ssa.MakeChan:
		n := w.opv(fr, &in.a)
		fr.regs[in.dst] = V{R: w.makeChan(n)}
	case *ssa.MakeSlice:
		fr.regs[in.dst] = w.makeSlice(in.t, w.opv(fr, &in.a), w.opv(fr, &in.b))
	case *ssa.Slice:
		fr.regs[in.dst] = w.sliceOp(fr, in, x)
	case *ssa.Range:
		fr.regs[in.dst] = w.rangeIter(w.opv(fr, &in.a), in.t)
	case *ssa.Next:
		fr.regs[in.dst] = w.nextIter(w.opv(fr, &in.a), x)
	case *ssa.TypeAssert:
		fr.regs[in.dst] = w.typeAssert(w.opv(fr, &in.a), x)
	default:
		w.abort("unsupported", fmt.Sprintf("instruction %T", in.x))
	}
	fr.pc++
}

// ---- calls -------------------------------------------------------------------

func (w *W) prepCall(t *Thread, fr *Frame, ci *CallInfo) deferRec {
	args := make([]V, 0, len(ci.args)+1)
	if ci.method != nil {
		recv := w.opv(fr, &ci.fnOp)
		if recv.R == nil {
			w.nilDeref()
		}
		ifc := recv.R.(*Iface)
		fn := w.lookupMethod(ifc.T, ci.method)
		args = append(args, ifc.V)
		for i := range ci.args {
			args = append(args, w.opv(fr, &ci.args[i]))
		}
		return deferRec{fn: fn, args: args}
	}
	for i := range ci.args {
		args = append(args, w.opv(fr, &ci.args[i]))
	}
	if ci.pseudo != nil {
		return deferRec{fn: ci.pseudo, args: args}
	}
	if ci.static != nil {
		return deferRec{fn: w.getFn(ci.static), args: args}
	}
	f := w.opv(fr, &ci.fnOp)
	if f.R == nil {
		// nil func: panics when called
		return deferRec{nat: &Closure{nat: func(w *W, t *Thread, a []V) V { w.nilDeref(); return V{} }}, args: args}
	}
	c := f.R.(*Closure)
	if c.nat != nil {
		return deferRec{nat: c, args: args}
	}
	return deferRec{fn: c.fn, env: c.env, args: args}
}

func (w *W) doCall(t *Thread, fr *Frame, in *Instr) {
	ci := in.call
	d := w.prepCall(t, fr, ci)
	if d.nat != nil {
		v := d.nat.nat(w, t, d.args)
		if in.dst >= 0 {
			fr.regs[in.dst] = v
		}
		fr.pc++
		return
	}
	if d.fn.intr != nil {
		w.callIntr(t, d.fn, d.args, ci, in.dst)
		return
	}
	w.invoke(t, d.fn, d.args, d.env, in.dst)
}

func (w *W) invoke(t *Thread, fn *Fn, args, env []V, dst int) {
	if fn.f != nil && fn.f.Package() != nil {
		w.ensureInit(fn.f.Package())
	}
	if fn.f != nil && fn.f.Synthetic == "package initializer" {
		// initialisation of imported packages is driven on demand
		if dst >= 0 {
			t.frames[len(t.frames)-1].regs[dst] = V{}
		}
		t.frames[len(t.frames)-1].pc++
		return
	}
	w.pushFrame(t, fn, args, env, dst)
}

// callIntr runs an intrinsic; dst == -2 means "pseudo frame: return v".
func (w *W) callIntr(t *Thread, fn *Fn, args []V, ci *CallInfo, dst int) {
	it := fn.intr
	if it.vis != nil {
		op := it.vis(w, t, args, ci)
		if op != nil {
			w.visible(t, op, dst)
			return
		}
		w.complete(t, V{}, dst)
		return
	}
	depth := len(t.frames)
	v := it.fn(w, t, args, ci)
	if t.done {
		return
	}
	if len(t.frames) != depth {
		// the intrinsic pushed a frame (callback); its return resumes here
		top := t.frames[len(t.frames)-1]
		if top.onRet == nil {
			if dst == -2 {
				top.onRet = func(v V) { w.ret(t, v) }
			} else {
				top.dst = dst
			}
		}
		return
	}
	w.complete(t, v, dst)
}

// complete finishes the current instruction of the top frame with v.
func (w *W) complete(t *Thread, v V, dst int) {
	if dst == -2 {
		w.ret(t, v)
		return
	}
	fr := t.frames[len(t.frames)-1]
	if dst >= 0 {
		fr.regs[dst] = v
	}
	fr.pc++
}

type methKey struct {
	t int
	m *types.Func
}

func (w *W) lookupMethod(t types.Type, m *types.Func) *Fn {
	k := methKey{w.typeID(t), m}
	if fn, ok := w.meths[k]; ok {
		return fn
	}
	fnMu.Lock()
	f := w.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	fnMu.Unlock()
	if f == nil {
		w.abort("unsupported", "method "+m.Name()+" of "+t.String())
	}
	fn := w.getFn(f)
	w.meths[k] = fn
	return fn
}

// findMethod finds a method by name on a dynamic type (nil if absent).
func (w *W) findMethod(t types.Type, name string) *Fn {
	fnMu.Lock()
	sel := w.eng.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	var f *ssa.Function
	if sel != nil {
		f = w.eng.prog.MethodValue(sel)
	}
	fnMu.Unlock()
	if f == nil {
		return nil
	}
	return w.getFn(f)
}

// ---- memory ------------------------------------------------------------------

func (w *W) alloc(t types.Type) Ptr {
	box := w.newAgg(1)
	box.e[0] = w.zero(t)
	return Ptr{box, 0}
}

func (w *W) loadAt(a *Agg, i int) V {
	v := a.get(i)
	if ag, ok := v.R.(*Agg); ok {
		if w.racing {
			w.raceAgg(ag, false)
		}
		return w.copyV(v)
	}
	if w.racing {
		w.access(a, i, false)
	}
	return v
}

func (w *W) load(p V) V {
	switch q := p.R.(type) {
	case Ptr:
		return w.loadAt(q.A, q.I)
	case SymPtr:
		return w.loadSym(q)
	case nil:
		w.nilDeref()
	case HdrPtr:
		return w.loadHdr(q)
	case ViewPtr:
		return w.loadView(q)
	}
	w.abort("unsupported", fmt.Sprintf("load through %T", p.R))
	return V{}
}

func (w *W) store(p V, v V) {
	switch q := p.R.(type) {
	case Ptr:
		if w.racing {
			if ag, ok := q.A.get(q.I).R.(*Agg); ok {
				w.raceAgg(ag, true)
			} else {
				w.access(q.A, q.I, true)
			}
		}
		w.storeAt(q.A, q.I, v)
		return
	case SymPtr:
		w.storeSym(q, v)
		return
	case nil:
		w.nilDeref()
	case HdrPtr:
		w.storeHdr(q, v)
		return
	case ViewPtr:
		w.storeView(q, v)
		return
	}
	w.abort("unsupported", fmt.Sprintf("store through %T", p.R))
}

func (w *W) loadSym(q SymPtr) V {
	// constant-run compression for tables
	var r *Term
	var scalarW int = -1
	wd := uint8(64)
	_ = scalarW
	if q.A.bytes {
		wd = 8
	} else if q.A.elem != nil {
		if b, ok := q.A.elem.Underlying().(*types.Basic); ok {
			wd, _, _, _ = basicWidth(b)
		}
	}
	for i := q.N - 1; i >= 0; i-- {
		v := q.A.get(q.Off + i)
		if v.R != nil {
			panic("symbolic load of reference")
		}
		x := w.term(v, wd)
		if w.racing {
			w.access(q.A, q.Off+i, false)
		}
		if r == nil {
			r = x
			continue
		}
		if r == x {
			continue
		}
		// choose x when idx <= i ; entries above already encoded in r
		if x.isC() || true {
			r = w.ctx.Ite(w.ctx.Ule(q.Idx, w.ctx.K(64, uint64(i))), x, r)
		}
	}
	return fromTerm(r)
}

func (w *W) storeSym(q SymPtr, v V) {
	wd := uint8(64)
	if q.A.bytes {
		wd = 8
	} else if q.A.elem != nil {
		if b, ok := q.A.elem.Underlying().(*types.Basic); ok {
			wd, _, _, _ = basicWidth(b)
		}
	}
	nv := w.term(v, wd)
	for i := 0; i < q.N; i++ {
		old := w.term(q.A.get(q.Off+i), wd)
		if w.racing {
			w.access(q.A, q.Off+i, true)
		}
		w.set(q.A, q.Off+i, fromTerm(w.ctx.Ite(w.ctx.Eq(q.Idx, w.ctx.K(64, uint64(i))), nv, old)))
	}
}

func (w *W) fieldAddr(p V, f int) V {
	switch q := p.R.(type) {
	case Ptr:
		inner, ok := q.A.get(q.I).R.(*Agg)
		if !ok {
			w.abort("unsupported", "FieldAddr on non-struct cell")
		}
		return V{R: Ptr{inner, f}}
	case nil:
		w.nilDeref()
	case ViewPtr:
		if hdr, str := isHeader(q.To); hdr {
			return V{R: HdrPtr{P: q.P, Str: str, Field: f}}
		}
	case SymPtr:
		i := w.concretize(q.Idx)
		return w.fieldAddr(V{R: Ptr{q.A, q.Off + int(i)}}, f)
	}
	w.abort("unsupported", fmt.Sprintf("FieldAddr through %T", p.R))
	return V{}
}

// inBounds checks 0 <= idx < n; panics in Go terms if violated.
func (w *W) checkIndex(idx V, wd uint8, sg bool, n int) (conc int, sym *Term) {
	if idx.T == nil {
		i := int64(idx.C)
		if sg {
			i = sext(idx.C, wd)
		}
		if i < 0 || i >= int64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t := idx.T
	if sg {
		t = w.ctx.Sext(t, 64)
	} else {
		t = w.ctx.Zext(t, 64)
	}
	if !w.branch(w.ctx.Ult(t, w.ctx.K(64, uint64(n)))) {
		w.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	if k, ok := w.constOf(t); ok {
		return int(k), nil
	}
	return 0, t
}

func (w *W) indexAddr(x, idx V, in *Instr) V {
	var a *Agg
	off, n := 0, 0
	var elem types.Type
	switch u := in.t.Underlying().(type) {
	case *types.Slice:
		elem = u.Elem()
		if s := x.slice(); s != nil {
			a, off, n = s.A, s.Off, s.Len
		}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		elem = at.Elem()
		n = int(at.Len())
		switch q := x.R.(type) {
		case nil:
			w.nilDeref()
		case Ptr:
			a = q.A.get(q.I).R.(*Agg)
		case ViewPtr:
			ar := w.viewArray(q, n)
			a, off = ar.A, ar.Off
		default:
			w.abort("unsupported", fmt.Sprintf("IndexAddr through %T", x.R))
		}
	}
	i, t := w.checkIndex(idx, in.w, in.sg, n)
	if t == nil {
		return V{R: Ptr{a, off + i}}
	}
	return w.symElem(a, off, n, t, elem)
}

func (w *W) symElem(a *Agg, off, n int, t *Term, elem types.Type) V {
	if b, ok := elem.Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsFloat) != 0 && n <= 1024 {
		if !a.bytes && a.elem == nil {
			a.elem = elem
		}
		return V{R: SymPtr{A: a, Off: off, N: n, Idx: t}}
	}
	i := int(w.concretize(t))
	return V{R: Ptr{a, off + i}}
}

func (w *W) index(x, idx V, in *Instr) V {
	switch u := in.t.Underlying().(type) {
	case *types.Array:
		a := x.R.(*Agg)
		i, t := w.checkIndex(idx, in.w, in.sg, int(u.Len()))
		if t == nil {
			return a.get(i)
		}
		p := w.symElem(a, 0, int(u.Len()), t, u.Elem())
		if q, ok := p.R.(Ptr); ok {
			return q.A.get(q.I)
		}
		return w.load(p)
	case *types.Basic: // string
		n := x.slen()
		i, t := w.checkIndex(idx, in.w, in.sg, n)
		s := x.slice()
		if t == nil {
			return s.A.get(s.Off + i)
		}
		return w.loadSym(SymPtr{A: s.A, Off: s.Off, N: n, Idx: t})
	}
	w.abort("unsupported", "Index of "+in.t.String())
	return V{}
}

func (w *W) makeSlice(elem types.Type, ln, cp V) V {
	// A size that no memory can hold panics whatever it is exactly.
	most := uint64(1) << 48
	if sz := types.SizesFor("gc", "amd64").Sizeof(elem); sz > 1 {
		most /= uint64(sz)
	}
	for i, v := range []V{ln, cp} {
		if v.T != nil && v.T.sort == 64 && w.branch(w.ctx.Ult(w.ctx.K(64, most), v.T)) {
			w.rtPanic([]string{"makeslice: len out of range", "makeslice: cap out of range"}[i])
		}
	}
	if !isByteType(elem) && cp.T != nil && cp.T.sort == 64 && w.branch(w.ctx.Ult(w.ctx.K(64, 256), cp.T)) {
		w.abort("steps", "a slice of any large size is not modelled")
	}
	n := int(int64(w.conc(ln)))
	c := int(int64(w.conc(cp)))
	if !isByteType(elem) && c > 1<<22 && c <= int(most) {
		w.abort("steps", "a slice too large to be modelled")
	}
	if n < 0 || n > 1<<28 {
		w.rtPanic("makeslice: len out of range")
	}
	if c < n || c > 1<<28 {
		w.rtPanic("makeslice: cap out of range")
	}
	return V{R: &Slice{A: w.newArray(elem, c), Len: n, Cap: c}}
}

func (w *W) sliceOp(fr *Frame, in *Instr, x *ssa.Slice) V {
	v := w.opv(fr, &in.a)
	var a *Agg
	off, ln, cp := 0, 0, 0
	isStr := false
	switch u := in.t.Underlying().(type) {
	case *types.Slice:
		if s := v.slice(); s != nil {
			a, off, ln, cp = s.A, s.Off, s.Len, s.Cap
		}
	case *types.Basic:
		isStr = true
		if s := v.slice(); s != nil {
			a, off, ln = s.A, s.Off, s.Len
		}
		cp = ln
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		ln, cp = int(at.Len()), int(at.Len())
		switch q := v.R.(type) {
		case nil:
			w.nilDeref()
		case Ptr:
			a = q.A.get(q.I).R.(*Agg)
		case ViewPtr:
			ar := w.viewArray(q, ln)
			a, off = ar.A, ar.Off
		default:
			w.abort("unsupported", fmt.Sprintf("slice of %T", v.R))
		}
	}
	x64 := func(o *Opnd, sv ssa.Value, def int) (V, bool) {
		if o.k == kNone {
			return intV(def), true
		}
		y := w.opv(fr, o)
		wd, sg, _, _ := basicWidth(sv.Type().Underlying().(*types.Basic))
		if y.T == nil {
			if sg {
				return V{C: uint64(sext(y.C, wd))}, false
			}
			return y, false
		}
		if sg {
			return fromTerm(w.ctx.Sext(y.T, 64)), false
		}
		return fromTerm(w.ctx.Zext(y.T, 64)), false
	}
	lo, _ := x64(&in.b, x.Low, 0)
	hi, _ := x64(&in.c, x.High, ln)
	mx, defmx := x64(&in.d, x.Max, cp)
	limit := cp
	if lo.T == nil && hi.T == nil && mx.T == nil {
		l, h, m := int64(lo.C), int64(hi.C), int64(mx.C)
		if m < 0 || m > int64(limit) || h < 0 || h > m || l < 0 || l > h {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, limit))
		}
	} else {
		c := w.ctx
		lt, ht, mt := w.term(lo, 64), w.term(hi, 64), w.term(mx, 64)
		ok := c.And(c.Ule(mt, c.K(64, uint64(limit))), c.And(c.Ule(ht, mt), c.Ule(lt, ht)))
		if !w.branch(ok) {
			w.rtPanic("slice bounds out of range")
		}
	}
	l, h, m := int(w.conc(lo)), int(w.conc(hi)), int(w.conc(mx))
	_ = defmx
	if a == nil {
		return V{R: v.R}
	}
	if isStr {
		if l == h {
			return V{}
		}
		return V{R: &Slice{A: a, Off: off + l, Len: h - l, Cap: h - l}}
	}
	return V{R: &Slice{A: a, Off: off + l, Len: h - l, Cap: m - l}}
}

// ---- operators ---------------------------------------------------------------

var binOps = map[token.Token]Op{}

func (w *W) unop(fr *Frame, x *ssa.UnOp, in *Instr) V {
	v := w.opv(fr, &in.a)
	switch x.Op {
	case token.MUL:
		r := w.load(v)
		if x.CommaOk {
			panic("commaok deref")
		}
		return r
	case token.NOT:
		if v.T == nil {
			return V{C: 1 - v.C}
		}
		return fromTerm(w.ctx.Not(v.T))
	case token.SUB:
		if in.fl {
			sgn := uint64(1) << (in.w - 1)
			if v.T == nil {
				return V{C: v.C ^ sgn}
			}
			return fromTerm(w.ctx.Bin(OBXor, v.T, w.ctx.K(in.w, sgn)))
		}
		if v.T == nil {
			return V{C: -v.C & mask(in.w)}
		}
		return fromTerm(w.ctx.Neg(v.T))
	case token.XOR:
		if v.T == nil {
			return V{C: ^v.C & mask(in.w)}
		}
		return fromTerm(w.ctx.BNot(v.T))
	}
	w.abort("unsupported", "unop "+x.Op.String())
	return V{}
}

func (w *W) binop(op token.Token, in *Instr, a, b V) V {
	switch in.kind {
	case 1:
		return w.strBin(op, a, b)
	case 2:
		r := w.eqV(in.t, a, b)
		if op == token.NEQ {
			r = w.ctx.Not(r)
		}
		return fromTerm(r)
	case 9:
		w.abort("unsupported", "complex arithmetic")
	}
	if a.R != nil || b.R != nil {
		// uintptr/pointer mixture
		if op == token.EQL || op == token.NEQ {
			r := ptrEq(a.R, b.R)
			if op == token.NEQ {
				r = !r
			}
			return boolV(r)
		}
		// strings.noescape-style x ^ 0
		if (op == token.XOR || op == token.ADD) && b.R == nil && b.T == nil && b.C == 0 {
			return a
		}
		w.abort("unsupported", "arithmetic on pointer value")
	}
	if in.fl {
		return w.floatBin(op, in.w, a, b)
	}
	wd := in.w
	if wd == 0 { // bool
		if a.T == nil && b.T == nil {
			switch op {
			case token.EQL:
				return boolV(a.C == b.C)
			case token.NEQ:
				return boolV(a.C != b.C)
			case token.AND:
				return boolV(a.C&b.C != 0)
			case token.OR:
				return boolV(a.C|b.C != 0)
			case token.XOR:
				return boolV(a.C != b.C)
			}
		}
		x, y := w.term(a, 0), w.term(b, 0)
		switch op {
		case token.EQL:
			return fromTerm(w.ctx.Eq(x, y))
		case token.NEQ:
			return fromTerm(w.ctx.Not(w.ctx.Eq(x, y)))
		case token.AND:
			return fromTerm(w.ctx.And(x, y))
		case token.OR:
			return fromTerm(w.ctx.Or(x, y))
		case token.XOR:
			return fromTerm(w.ctx.Not(w.ctx.Eq(x, y)))
		}
		w.abort("unsupported", "bool op "+op.String())
	}
	if op == token.SHL || op == token.SHR {
		return w.shift(op, in, a, b)
	}
	if a.T == nil && b.T == nil {
		x, y := a.C, b.C
		m := mask(wd)
		switch op {
		case token.ADD:
			return V{C: (x + y) & m}
		case token.SUB:
			return V{C: (x - y) & m}
		case token.MUL:
			return V{C: (x * y) & m}
		case token.QUO:
			if y == 0 {
				w.rtPanic("integer divide by zero")
			}
			if in.sg {
				return V{C: evalBin(OSDiv, wd, x, y)}
			}
			return V{C: x / y}
		case token.REM:
			if y == 0 {
				w.rtPanic("integer divide by zero")
			}
			if in.sg {
				return V{C: evalBin(OSRem, wd, x, y)}
			}
			return V{C: x % y}
		case token.AND:
			return V{C: x & y}
		case token.OR:
			return V{C: x | y}
		case token.XOR:
			return V{C: x ^ y}
		case token.AND_NOT:
			return V{C: x &^ y}
		case token.EQL:
			return boolV(x == y)
		case token.NEQ:
			return boolV(x != y)
		}
		if in.sg {
			p, q := sext(x, wd), sext(y, wd)
			switch op {
			case token.LSS:
				return boolV(p < q)
			case token.LEQ:
				return boolV(p <= q)
			case token.GTR:
				return boolV(p > q)
			case token.GEQ:
				return boolV(p >= q)
			}
		} else {
			switch op {
			case token.LSS:
				return boolV(x < y)
			case token.LEQ:
				return boolV(x <= y)
			case token.GTR:
				return boolV(x > y)
			case token.GEQ:
				return boolV(x >= y)
			}
		}
		panic("binop " + op.String())
	}
	c := w.ctx
	x, y := w.term(a, wd), w.term(b, wd)
	switch op {
	case token.ADD:
		return fromTerm(c.Bin(OAdd, x, y))
	case token.SUB:
		return fromTerm(c.Bin(OSub, x, y))
	case token.MUL:
		return fromTerm(c.Bin(OMul, x, y))
	case token.QUO, token.REM:
		if w.branch(c.Eq(y, c.K(wd, 0))) {
			w.rtPanic("integer divide by zero")
		}
		o := OUDiv
		if op == token.REM {
			o = OURem
		}
		if in.sg {
			o = OSDiv
			if op == token.REM {
				o = OSRem
			}
		}
		return fromTerm(c.Bin(o, x, y))
	case token.AND:
		return fromTerm(c.Bin(OBAnd, x, y))
	case token.OR:
		return fromTerm(c.Bin(OBOr, x, y))
	case token.XOR:
		return fromTerm(c.Bin(OBXor, x, y))
	case token.AND_NOT:
		return fromTerm(c.Bin(OBAnd, x, c.BNot(y)))
	case token.EQL:
		return fromTerm(c.Eq(x, y))
	case token.NEQ:
		return fromTerm(c.Not(c.Eq(x, y)))
	case token.LSS:
		if in.sg {
			return fromTerm(c.Slt(x, y))
		}
		return fromTerm(c.Ult(x, y))
	case token.LEQ:
		if in.sg {
			return fromTerm(c.Sle(x, y))
		}
		return fromTerm(c.Ule(x, y))
	case token.GTR:
		if in.sg {
			return fromTerm(c.Slt(y, x))
		}
		return fromTerm(c.Ult(y, x))
	case token.GEQ:
		if in.sg {
			return fromTerm(c.Sle(y, x))
		}
		return fromTerm(c.Ule(y, x))
	}
	w.abort("unsupported", "binop "+op.String())
	return V{}
}

func (w *W) shift(op token.Token, in *Instr, a, b V) V {
	wd := in.w
	yw := uint8(in.i & 0xff)
	ysg := in.i>>8 != 0
	o := OShl
	if op == token.SHR {
		o = OLshr
		if in.sg {
			o = OAshr
		}
	}
	if b.T == nil {
		if ysg && sext(b.C, yw) < 0 {
			w.rtPanic("negative shift amount")
		}
		n := b.C
		if n > uint64(wd) {
			n = uint64(wd)
		}
		if a.T == nil {
			return V{C: evalBin(o, wd, a.C, n)}
		}
		return fromTerm(w.ctx.Bin(o, a.T, w.ctx.K(wd, n)))
	}
	c := w.ctx
	y := b.T
	if ysg {
		if w.branch(c.Slt(y, c.K(yw, 0))) {
			w.rtPanic("negative shift amount")
		}
	}
	if yw <= wd {
		y = c.Zext(y, wd)
	} else {
		y = c.Ite(c.Ult(y, c.K(yw, uint64(wd))), c.Extract(y, 0, wd), c.K(wd, uint64(wd)))
	}
	return fromTerm(c.Bin(o, w.term(a, wd), y))
}

func (w *W) floatBin(op token.Token, wd uint8, a, b V) V {
	c := w.ctx
	x, y := w.term(a, wd), w.term(b, wd)
	switch op {
	case token.ADD:
		return fromTerm(c.F2(OFAdd, x, y))
	case token.SUB:
		return fromTerm(c.F2(OFSub, x, y))
	case token.MUL:
		return fromTerm(c.F2(OFMul, x, y))
	case token.QUO:
		return fromTerm(c.F2(OFDiv, x, y))
	case token.EQL:
		return fromTerm(c.F2(OFEq, x, y))
	case token.NEQ:
		return fromTerm(c.Not(c.F2(OFEq, x, y)))
	case token.LSS:
		return fromTerm(c.F2(OFLt, x, y))
	case token.LEQ:
		return fromTerm(c.F2(OFLe, x, y))
	case token.GTR:
		return fromTerm(c.F2(OFLt, y, x))
	case token.GEQ:
		return fromTerm(c.F2(OFLe, y, x))
	}
	w.abort("unsupported", "float op "+op.String())
	return V{}
}

func (w *W) strBin(op token.Token, a, b V) V {
	c := w.ctx
	switch op {
	case token.ADD:
		na, nb := a.slen(), b.slen()
		if na == 0 {
			return b
		}
		if nb == 0 {
			return a
		}
		r := w.newBytes(na + nb)
		w.copyBytes(r, 0, a.slice())
		w.copyBytes(r, na, b.slice())
		return V{R: &Slice{A: r, Len: na + nb, Cap: na + nb}}
	case token.EQL:
		return fromTerm(w.eqStr(a, b))
	case token.NEQ:
		return fromTerm(c.Not(w.eqStr(a, b)))
	case token.LSS:
		return fromTerm(w.ltStr(a, b))
	case token.GTR:
		return fromTerm(w.ltStr(b, a))
	case token.LEQ:
		return fromTerm(c.Not(w.ltStr(b, a)))
	case token.GEQ:
		return fromTerm(c.Not(w.ltStr(a, b)))
	}
	w.abort("unsupported", "string op "+op.String())
	return V{}
}

// copyBytes copies s into fresh byte aggregate r at position p.
func (w *W) copyBytes(r *Agg, p int, s *Slice) {
	if s == nil {
		return
	}
	if w.racing {
		for i := 0; i < s.Len; i++ {
			w.access(s.A, s.Off+i, false)
		}
	}
	copy(r.b[p:], s.A.b[s.Off:s.Off+s.Len])
	if s.A.bt != nil {
		for i := 0; i < s.Len; i++ {
			if t := s.A.bt[s.Off+i]; t != nil {
				if r.bt == nil {
					r.bt = make([]*Term, len(r.b))
				}
				r.bt[p+i] = t
			}
		}
	}
}

// ---- conversions ---------------------------------------------------------------

func (w *W) convert(from, to types.Type, v V) V {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if fb, ok := fu.(*types.Basic); ok {
			if tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer {
				return v // uintptr <-> unsafe.Pointer
			}
			if tb.Info()&types.IsString != 0 {
				if fb.Info()&types.IsString != 0 {
					return v
				}
				wd, sg, _, _ := basicWidth(fb)
				t := w.term(v, wd)
				if sg {
					t = w.ctx.Sext(t, 64)
				} else {
					t = w.ctx.Zext(t, 64)
				}
				// out of int32 range -> RuneError
				in := w.ctx.Ule(t, w.ctx.K(64, 0x10FFFF))
				var r *Term
				if w.branch(in) {
					r = w.ctx.Extract(t, 0, 32)
				} else {
					r = w.ctx.K(32, 0xFFFD)
				}
				return w.strFromVs(w.encodeRune(r))
			}
			return w.convNum(fb, tb, v)
		}
		if tb.Info()&types.IsString != 0 {
			if sl, ok := fu.(*types.Slice); ok {
				if isByteType(sl.Elem()) {
					n := v.slen()
					if n == 0 {
						return V{}
					}
					r := w.newBytes(n)
					w.copyBytes(r, 0, v.slice())
					return V{R: &Slice{A: r, Len: n, Cap: n}}
				}
				// []rune
				var out []V
				for i := 0; i < v.slen(); i++ {
					out = append(out, w.encodeRune(w.term(v.at(i), 32))...)
				}
				return w.strFromVs(out)
			}
		}
		if tb.Kind() == types.UnsafePointer {
			if v.R == nil {
				return V{}
			}
			if p, ok := fu.(*types.Pointer); ok {
				if vp, ok := v.R.(ViewPtr); ok {
					return V{R: UPtr{P: V{R: vp.P}, Elem: vp.From}}
				}
				return V{R: UPtr{P: v, Elem: p.Elem()}}
			}
			return v
		}
		if tb.Kind() == types.Uintptr {
			return v
		}
	}
	if fb, ok := fu.(*types.Basic); ok {
		if fb.Info()&types.IsString != 0 {
			sl := tu.(*types.Slice)
			if isByteType(sl.Elem()) {
				n := v.slen()
				cp := roundupsize(uintptr(n))
				r := w.newBytes(cp)
				w.copyBytes(r, 0, v.slice())
				return V{R: &Slice{A: r, Len: n, Cap: cp}}
			}
			rs := w.decodeAll(v)
			cp := roundupsize(uintptr(len(rs))*4) / 4
			r := w.newAgg(cp)
			r.elem = sl.Elem()
			for i, t := range rs {
				r.e[i] = fromTerm(t)
			}
			return V{R: &Slice{A: r, Len: len(rs), Cap: cp}}
		}
		if fb.Kind() == types.UnsafePointer {
			p, ok := tu.(*types.Pointer)
			if !ok {
				return v
			}
			if v.R == nil {
				return V{}
			}
			up, ok := v.R.(UPtr)
			if !ok {
				return v
			}
			return w.castPtr(up, p.Elem())
		}
	}
	w.abort("unsupported", "convert "+from.String()+" to "+to.String())
	return V{}
}

func (w *W) convNum(fb, tb *types.Basic, v V) V {
	fw, fs, ff, ok1 := basicWidth(fb)
	tw, ts, tf, ok2 := basicWidth(tb)
	if !ok1 || !ok2 {
		w.abort("unsupported", "convert "+fb.String()+" to "+tb.String())
	}
	if v.R != nil {
		return v
	}
	c := w.ctx
	switch {
	case !ff && !tf:
		if v.T == nil {
			x := v.C
			if fs {
				x = uint64(sext(x, fw))
			}
			return V{C: x & mask(tw)}
		}
		if tw == fw {
			return v
		}
		if tw < fw {
			return fromTerm(c.Extract(v.T, 0, tw))
		}
		if fs {
			return fromTerm(c.Sext(v.T, tw))
		}
		return fromTerm(c.Zext(v.T, tw))
	case ff && tf:
		if fw == tw {
			return v
		}
		return fromTerm(c.F1(OFToF, tw, w.term(v, fw)))
	case ff:
		if ts || tw < 64 {
			t := c.F1(OFToS, 64, w.term(v, fw))
			return fromTerm(c.Extract(t, 0, tw))
		}
		return fromTerm(c.F1(OFToU, tw, w.term(v, fw)))
	default:
		t := w.term(v, fw)
		if fs {
			return fromTerm(c.F1(OSToF, tw, t))
		}
		return fromTerm(c.F1(OUToF, tw, t))
	}
}

// ---- interfaces ----------------------------------------------------------------

type implKey struct{ t, i int }

func (w *W) implements(t types.Type, it types.Type) bool {
	k := implKey{w.typeID(t), w.typeID(it)}
	if r, ok := w.impls[k]; ok {
		return r
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	w.impls[k] = r
	return r
}

func (w *W) typeAssert(v V, x *ssa.TypeAssert) V {
	var ok bool
	var r V
	at := x.AssertedType
	_, isI := at.Underlying().(*types.Interface)
	if v.R != nil {
		ifc := v.R.(*Iface)
		if isI {
			ok = w.implements(ifc.T, at)
			r = v
		} else {
			ok = ifc.T == at || w.typeID(ifc.T) == w.typeID(at)
			r = ifc.V
		}
	}
	if !ok {
		if !x.CommaOk {
			w.rtPanic("interface conversion: wrong dynamic type for " + at.String())
		}
		return V{R: &Tuple{vs: []V{w.zero(at), V{}}}}
	}
	if x.CommaOk {
		return V{R: &Tuple{vs: []V{r, {C: 1}}}}
	}
	return r
}

// ---- maps ------------------------------------------------------------------------

func (w *W) mapLog(m *MapObj) {
	if m.birth == w.epoch || w.initMode || m.logged == w.epoch {
		return
	}
	m.logged = w.epoch
	cp := make([]*mapEntry, len(m.es))
	for i, e := range m.es {
		x := *e
		cp[i] = &x
	}
	w.undo = append(w.undo, undoRec{m: m, es: cp})
}

// mapFind locates the entry for key k, forking on symbolic equality.
func (w *W) mapFind(m *MapObj, k V) *mapEntry {
	if ifc, ok := k.R.(*Iface); ok && !comparable_(ifc.T) {
		w.rtPanic("hash of unhashable type " + ifc.T.String())
	}
	for _, e := range m.es {
		if e.dead {
			continue
		}
		c := w.eqV(m.kt, e.k, k)
		if w.branch(c) {
			return e
		}
	}
	return nil
}

func (w *W) lookup(m, k V, x *ssa.Lookup, in *Instr) V {
	if _, ok := in.t.Underlying().(*types.Map); !ok {
		return w.index(m, k, in)
	}
	mt := in.t.Underlying().(*types.Map)
	var e *mapEntry
	if m.R != nil {
		mo := m.R.(*MapObj)
		if w.racing {
			w.accessMap(mo, false)
		}
		e = w.mapFind(mo, k)
	} else if ifc, ok := k.R.(*Iface); ok && !comparable_(ifc.T) {
		w.rtPanic("hash of unhashable type " + ifc.T.String())
	}
	var v V
	if e != nil {
		v = e.v
	} else {
		v = w.zero(mt.Elem())
	}
	if x.CommaOk {
		return V{R: &Tuple{vs: []V{v, boolV(e != nil)}}}
	}
	return v
}

func (w *W) mapUpdate(m, k, v V) {
	if m.R == nil {
		w.goPanicErr("assignment to entry in nil map")
	}
	mo := m.R.(*MapObj)
	if w.racing {
		w.accessMap(mo, true)
	}
	w.mapLog(mo)
	v = w.copyV(v)
	if e := w.mapFind(mo, k); e != nil {
		e.v = v
		return
	}
	w.allocCells(2)
	mo.es = append(mo.es, &mapEntry{k: w.copyV(k), v: v})
	mo.live++
}

func (w *W) goPanicErr(msg string) {
	panic(&symPanic{val: V{R: &Iface{T: w.eng.rtErrType, V: roString(msg)}}})
}

func (w *W) mapDelete(m, k V) {
	if m.R == nil {
		return
	}
	mo := m.R.(*MapObj)
	if w.racing {
		w.accessMap(mo, true)
	}
	w.mapLog(mo)
	if e := w.mapFind(mo, k); e != nil {
		e.dead = true
		mo.live--
		// compact
		out := mo.es[:0:0]
		for _, x := range mo.es {
			if !x.dead {
				out = append(out, x)
			}
		}
		mo.es = out
	}
}

// ---- iteration -------------------------------------------------------------------

type Iter struct {
	m      *MapObj
	todo   []*mapEntry
	s      V
	pos    int
	str    bool
	kt, vt types.Type
}

func (w *W) rangeIter(v V, t types.Type) V {
	if mt, ok := t.Underlying().(*types.Map); ok {
		it := &Iter{kt: mt.Key(), vt: mt.Elem()}
		if v.R != nil {
			it.m = v.R.(*MapObj)
			if w.racing {
				w.accessMap(it.m, false)
			}
			it.todo = append(it.todo, it.m.es...)
		}
		return V{R: it}
	}
	return V{R: &Iter{s: v, str: true}}
}

func (w *W) nextIter(v V, x *ssa.Next) V {
	it := v.R.(*Iter)
	if it.str {
		n := it.s.slen()
		if it.pos >= n {
			return V{R: &Tuple{vs: []V{{}, {}, {}}}}
		}
		p := it.pos
		r, sz := w.decodeAt(it.s, p)
		it.pos += sz
		return V{R: &Tuple{vs: []V{{C: 1}, intV(p), fromTerm(r)}}}
	}
	if it.m != nil && w.racing {
		w.accessMap(it.m, false)
	}
	for {
		live := it.todo[:0:0]
		for _, e := range it.todo {
			if !e.dead {
				live = append(live, e)
			}
		}
		it.todo = live
		if len(live) == 0 {
			return V{R: &Tuple{vs: []V{{}, w.zero(it.kt), w.zero(it.vt)}}}
		}
		i := 0
		if len(live) > 1 && len(live) <= w.mapOrder && !w.initMode {
			i = w.chooseN(len(live), "maporder")
		}
		e := live[i]
		it.todo = append(append([]*mapEntry{}, live[:i]...), live[i+1:]...)
		return V{R: &Tuple{vs: []V{{C: 1}, e.k, e.v}}}
	}
}

// ---- unsafe views ----------------------------------------------------------------

func isHeader(t types.Type) (hdr, str bool) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return
	}
	if p := n.Obj().Pkg().Path(); p != "reflect" && p != "internal/unsafeheader" {
		return
	}
	switch n.Obj().Name() {
	case "StringHeader", "String":
		return true, true
	case "SliceHeader", "Slice":
		return true, false
	}
	return
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteType(s.Elem())
}

// sameShape reports whether a and b are structs whose fields have the same types.
func sameShape(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Struct)
	y, ok2 := b.Underlying().(*types.Struct)
	if !ok1 || !ok2 || x.NumFields() != y.NumFields() {
		return false
	}
	for i := 0; i < x.NumFields(); i++ {
		if !types.Identical(x.Field(i).Type(), y.Field(i).Type()) {
			return false
		}
	}
	return true
}

func (w *W) castPtr(up UPtr, to types.Type) V {
	if up.Elem == nil || types.Identical(up.Elem.Underlying(), to.Underlying()) || sameShape(up.Elem, to) {
		return up.P
	}
	p, ok := up.P.R.(Ptr)
	if !ok {
		w.abort("unsupported", fmt.Sprintf("unsafe cast of %T from %s to %s", up.P.R, up.Elem, to))
	}
	return V{R: ViewPtr{P: p, From: up.Elem, To: to}}
}

// viewArray: *[N]T view over a byte pointer.
func (w *W) viewArray(q ViewPtr, n int) *Slice {
	if at, ok := q.To.Underlying().(*types.Array); ok && isByteType(at.Elem()) && isByteType(q.From) {
		if q.P.A.bytes && q.P.I+n <= q.P.A.n() {
			return &Slice{A: q.P.A, Off: q.P.I, Len: n, Cap: n}
		}
	}
	w.abort("unsupported", "array view "+q.From.String()+" as "+q.To.String())
	return nil
}

func (w *W) loadView(q ViewPtr) V {
	v := q.P.A.get(q.P.I)
	if w.racing {
		if ag, ok := v.R.(*Agg); ok {
			w.raceAgg(ag, false)
		} else {
			w.access(q.P.A, q.P.I, false)
		}
	}
	toS, toB := isString(q.To), isBytes(q.To)
	if toS || toB {
		if isString(q.From) || isBytes(q.From) {
			s := v.slice()
			if s == nil {
				return V{}
			}
			if toB && isString(q.From) {
				w.abort("unsupported", "string header read as slice header (capacity is whatever follows in memory)")
			}
			return V{R: &Slice{A: s.A, Off: s.Off, Len: s.Len, Cap: s.Cap}}
		}
		if ag, ok := v.R.(*Agg); ok {
			// struct{Data,Len[,Cap]} or struct{string; Cap int}
			var s *Slice
			var base *Slice
			ln, cp := 0, 0
			f0 := ag.get(0)
			if sl, ok := f0.R.(*Slice); ok || (ag.n() == 2 && f0.R == nil && f0.C == 0) {
				base = sl
				if sl != nil {
					ln = sl.Len
				}
				cp = ln
				if ag.n() > 1 {
					cp = int(w.conc(ag.get(1)))
				}
				if base == nil {
					return V{}
				}
				s = &Slice{A: base.A, Off: base.Off, Len: ln, Cap: cp}
			} else {
				ln = int(w.conc(ag.get(1)))
				cp = ln
				if ag.n() > 2 {
					cp = int(w.conc(ag.get(2)))
				}
				p, ok := normPtr(f0.R).(Ptr)
				if !ok {
					if f0.R == nil {
						return V{}
					}
					w.abort("unsupported", "header data pointer")
				}
				s = &Slice{A: p.A, Off: p.I, Len: ln, Cap: cp}
			}
			if s.Cap < s.Len && toB {
				w.fail("unsafe", "slice header with cap < len", nil)
			}
			if s.Off+s.Len > s.A.n() {
				w.fail("unsafe", "string/slice header extends past its memory", nil)
			}
			return V{R: s}
		}
	}
	if fb, ok := q.From.Underlying().(*types.Basic); ok {
		if tb, ok := q.To.Underlying().(*types.Basic); ok {
			fw, _, _, o1 := basicWidth(fb)
			tw, _, _, o2 := basicWidth(tb)
			if o1 && o2 && fw == tw {
				return v
			}
		}
	}
	w.abort("unsupported", "unsafe load "+q.From.String()+" as "+q.To.String())
	return V{}
}

func (w *W) storeView(q ViewPtr, v V) {
	if (isString(q.To) || isBytes(q.To)) && (isString(q.From) || isBytes(q.From)) {
		w.set(q.P.A, q.P.I, v)
		return
	}
	if fb, ok := q.From.Underlying().(*types.Basic); ok {
		if tb, ok := q.To.Underlying().(*types.Basic); ok {
			fw, _, _, o1 := basicWidth(fb)
			tw, _, _, o2 := basicWidth(tb)
			if o1 && o2 && fw == tw {
				w.set(q.P.A, q.P.I, v)
				return
			}
		}
	}
	w.abort("unsupported", "unsafe store "+q.From.String()+" as "+q.To.String())
}

func (w *W) loadHdr(q HdrPtr) V {
	s := q.P.A.get(q.P.I).slice()
	switch q.Field {
	case 0:
		if s == nil {
			return V{}
		}
		return V{R: Ptr{s.A, s.Off}}
	case 1:
		if s == nil {
			return V{}
		}
		return intV(s.Len)
	default:
		if s == nil {
			return V{}
		}
		return intV(s.Cap)
	}
}

func (w *W) storeHdr(q HdrPtr, v V) {
	var s Slice
	if o := q.P.A.get(q.P.I).slice(); o != nil {
		s = *o
	}
	switch q.Field {
	case 0:
		p, ok := normPtr(v.R).(Ptr)
		if !ok {
			if v.R == nil && s.Len == 0 {
				return
			}
			w.abort("unsupported", "header data store")
		}
		s.A, s.Off = p.A, p.I
	case 1:
		s.Len = int(w.conc(v))
	default:
		s.Cap = int(w.conc(v))
	}
	if s.A == nil && s.Len == 0 && s.Cap == 0 {
		return
	}
	w.set(q.P.A, q.P.I, V{R: &s})
}
