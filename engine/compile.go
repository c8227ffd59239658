package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const (
	kNone uint8 = iota
	kReg
	kConst
	kZero
	kGlobal
	kFunc
)

type Opnd struct {
	k   uint8
	i   int
	v   V
	typ types.Type
	g   *ssa.Global
	fn  *ssa.Function
}

type CallInfo struct {
	static  *ssa.Function
	builtin string
	method  *types.Func
	fnOp    Opnd
	args    []Opnd
	common  *ssa.CallCommon
	pos     token.Pos
	resT    types.Type
	argT    []types.Type
	pseudo  *Fn // for builtins used with go/defer
}

type Instr struct {
	x    ssa.Instruction
	dst  int
	a    Opnd
	b    Opnd
	c    Opnd
	d    Opnd
	ops  []Opnd
	call *CallInfo
	t    types.Type // operand type of interest
	w    uint8
	sg   bool
	fl   bool
	kind uint8
	i    int
	intr *Intrinsic // pseudo instruction: run intrinsic over the frame's registers, then return
	ifn  *Fn
}

type Block struct {
	phis   []*Instr
	ins    []*Instr
	succs  []int
	predIx map[int]int // pred block index -> phi edge
}

type Fn struct {
	f       *ssa.Function
	name    string
	blocks  []*Block
	nreg    int
	np      int
	recover int
	intr    *Intrinsic
	once    sync.Once
	module  bool
	redir   *ssa.Function
	bad     string
	nresult int
}

var (
	fnMu  sync.Mutex
	fnTab = map[*ssa.Function]*Fn{}
)

func (w *W) getFn(f *ssa.Function) *Fn {
	if fn, ok := w.fns[f]; ok {
		return fn
	}
	fnMu.Lock()
	fn := fnTab[f]
	if fn == nil {
		fn = &Fn{f: f, name: fnName(f), recover: -1}
		fnTab[f] = fn
	}
	fnMu.Unlock()
	fn.once.Do(func() { w.eng.compile(fn) })
	if fn.redir != nil && !w.noRedir {
		fn = w.getFn(fn.redir)
	}
	w.fns[f] = fn
	return fn
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func (e *Engine) compile(fn *Fn) {
	f := fn.f
	fn.nresult = f.Signature.Results().Len()
	pkg := f.Package()
	if pkg == nil && f.Origin() != nil {
		pkg = f.Origin().Package()
	}
	if pkg != nil {
		fn.module = e.isModule(pkg.Pkg.Path())
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		fn.module = e.isModule(f.Object().Pkg().Path())
	}
	if in := lookupIntrinsic(fn.name); in != nil {
		fn.intr = in
		fn.np = len(f.Params)
		makePseudo(fn)
		return
	}
	if s, ok := e.redirects[fn.name]; ok && s != f {
		fn.redir = s
		return
	}
	if f.Blocks == nil {
		fn.bad = "no body: " + fn.name
		return
	}
	regs := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) int {
		regs[v] = n
		n++
		return n - 1
	}
	for _, p := range f.Params {
		add(p)
	}
	fn.np = n
	for _, p := range f.FreeVars {
		add(p)
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fn.nreg = n
	op := func(v ssa.Value) Opnd {
		if v == nil {
			return Opnd{}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return constOp(x)
		case *ssa.Global:
			return Opnd{k: kGlobal, g: x, typ: x.Type()}
		case *ssa.Function:
			return Opnd{k: kFunc, fn: x, typ: x.Type()}
		case *ssa.Builtin:
			return Opnd{}
		}
		i, ok := regs[v]
		if !ok {
			panic("no reg for " + v.String())
		}
		return Opnd{k: kReg, i: i, typ: v.Type()}
	}
	for _, b := range f.Blocks {
		nb := &Block{predIx: map[int]int{}}
		for _, s := range b.Succs {
			nb.succs = append(nb.succs, s.Index)
		}
		for i, p := range b.Preds {
			nb.predIx[p.Index] = i
		}
		for _, i := range b.Instrs {
			in := &Instr{x: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				in.dst = regs[v]
			}
			switch x := i.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					in.ops = append(in.ops, op(e))
				}
				nb.phis = append(nb.phis, in)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.BinOp:
				in.a, in.b = op(x.X), op(x.Y)
				in.t = x.X.Type()
				if b, ok := x.X.Type().Underlying().(*types.Basic); ok {
					in.w, in.sg, in.fl, _ = basicWidth(b)
					if b.Info()&types.IsString != 0 {
						in.kind = 1
					} else if b.Info()&types.IsComplex != 0 {
						in.kind = 9
					} else if b.Kind() == types.UnsafePointer || b.Kind() == types.UntypedNil {
						in.kind = 2
					}
				} else {
					in.kind = 2
				}
				if in.kind == 0 && (x.Op == token.SHL || x.Op == token.SHR) {
					yb := x.Y.Type().Underlying().(*types.Basic)
					yw, ys, _, _ := basicWidth(yb)
					in.i = int(yw)
					if ys {
						in.i |= 1 << 8
					}
				}
				if in.kind == 2 {
					// comparing interface with concrete or nil
					if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
						in.t = x.Y.Type()
					}
				}
			case *ssa.UnOp:
				in.a = op(x.X)
				in.t = x.X.Type()
				if b, ok := x.X.Type().Underlying().(*types.Basic); ok {
					in.w, in.sg, in.fl, _ = basicWidth(b)
				}
			case *ssa.Alloc:
				in.t = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.Call:
				in.call = e.callInfo(&x.Call, op)
				in.call.resT = x.Type()
			case *ssa.Go:
				in.call = e.callInfo(&x.Call, op)
			case *ssa.Defer:
				in.call = e.callInfo(&x.Call, op)
			case *ssa.ChangeType:
				in.a = op(x.X)
			case *ssa.ChangeInterface:
				in.a = op(x.X)
			case *ssa.Convert:
				in.a = op(x.X)
			case *ssa.MultiConvert:
				in.a = op(x.X)
			case *ssa.SliceToArrayPointer:
				in.a = op(x.X)
			case *ssa.MakeInterface:
				in.a = op(x.X)
				in.t = x.X.Type()
			case *ssa.MakeClosure:
				in.a = op(x.Fn)
				for _, b := range x.Bindings {
					in.ops = append(in.ops, op(b))
				}
			case *ssa.MakeMap:
				in.t = x.Type()
			case *ssa.MakeChan:
				in.a = op(x.Size)
				in.t = x.Type().Underlying().(*types.Chan).Elem()
			case *ssa.MakeSlice:
				in.a, in.b = op(x.Len), op(x.Cap)
				in.t = x.Type().Underlying().(*types.Slice).Elem()
			case *ssa.Slice:
				in.a, in.b, in.c, in.d = op(x.X), op(x.Low), op(x.High), op(x.Max)
				in.t = x.X.Type()
			case *ssa.FieldAddr:
				in.a = op(x.X)
				in.i = x.Field
			case *ssa.Field:
				in.a = op(x.X)
				in.i = x.Field
			case *ssa.IndexAddr:
				in.a, in.b = op(x.X), op(x.Index)
				in.t = x.X.Type()
				in.w, in.sg, _, _ = basicWidth(x.Index.Type().Underlying().(*types.Basic))
			case *ssa.Index:
				in.a, in.b = op(x.X), op(x.Index)
				in.t = x.X.Type()
				in.w, in.sg, _, _ = basicWidth(x.Index.Type().Underlying().(*types.Basic))
			case *ssa.Lookup:
				in.a, in.b = op(x.X), op(x.Index)
				in.t = x.X.Type()
				if b, ok := x.Index.Type().Underlying().(*types.Basic); ok {
					in.w, in.sg, _, _ = basicWidth(b)
				}
			case *ssa.Select:
				for _, s := range x.States {
					in.ops = append(in.ops, op(s.Chan), op(s.Send))
				}
			case *ssa.Range:
				in.a = op(x.X)
				in.t = x.X.Type()
			case *ssa.Next:
				in.a = op(x.Iter)
			case *ssa.TypeAssert:
				in.a = op(x.X)
			case *ssa.Extract:
				in.a = op(x.Tuple)
				in.i = x.Index
			case *ssa.Jump:
			case *ssa.If:
				in.a = op(x.Cond)
			case *ssa.Return:
				for _, r := range x.Results {
					in.ops = append(in.ops, op(r))
				}
			case *ssa.RunDefers:
			case *ssa.Panic:
				in.a = op(x.X)
			case *ssa.Send:
				in.a, in.b = op(x.Chan), op(x.X)
			case *ssa.Store:
				in.a, in.b = op(x.Addr), op(x.Val)
			case *ssa.MapUpdate:
				in.a, in.b, in.c = op(x.Map), op(x.Key), op(x.Value)
				in.t = x.Map.Type()
			default:
				panic("unknown instruction " + i.String())
			}
			nb.ins = append(nb.ins, in)
		}
		fn.blocks = append(fn.blocks, nb)
	}
	if f.Recover != nil {
		fn.recover = f.Recover.Index
	}
}

func makePseudo(fn *Fn) {
	fn.nreg = fn.np
	fn.blocks = []*Block{{ins: []*Instr{{dst: -1, intr: fn.intr, ifn: fn}}}}
}

func (e *Engine) callInfo(c *ssa.CallCommon, op func(ssa.Value) Opnd) *CallInfo {
	ci := &CallInfo{common: c, pos: c.Pos()}
	if c.IsInvoke() {
		ci.method = c.Method
		ci.fnOp = op(c.Value)
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.builtin = b.Name()
	} else if f, ok := c.Value.(*ssa.Function); ok {
		ci.static = f
	} else {
		ci.fnOp = op(c.Value)
	}
	for _, a := range c.Args {
		ci.args = append(ci.args, op(a))
		ci.argT = append(ci.argT, a.Type())
	}
	if ci.builtin != "" {
		ci.resT = c.Signature().Results()
		np := len(ci.args)
		bi := ci
		in := builtinIntrinsic(bi)
		fn := &Fn{name: "builtin." + ci.builtin, np: np, intr: in, recover: -1}
		makePseudo(fn)
		ci.pseudo = fn
	}
	return ci
}

func constOp(c *ssa.Const) Opnd {
	o := Opnd{k: kConst, typ: c.Type()}
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Tuple:
			o.k = kZero
		}
		return o
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			o.v = roString(constant.StringVal(c.Value))
		case u.Info()&types.IsBoolean != 0:
			o.v = boolV(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			wd, sg, _, _ := basicWidth(u)
			if sg {
				o.v = V{C: uint64(c.Int64()) & mask(wd)}
			} else {
				o.v = V{C: c.Uint64() & mask(wd)}
			}
		case u.Info()&types.IsFloat != 0:
			wd, _, _, _ := basicWidth(u)
			o.v = V{C: fbits(wd, c.Float64())}
		}
	}
	return o
}
