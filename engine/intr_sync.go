package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
)

// inner returns the aggregate a pointer to a struct points at.
func (w *W) inner(p V) *Agg {
	switch q := p.R.(type) {
	case nil:
		w.nilDeref()
	case Ptr:
		if a, ok := q.A.get(q.I).R.(*Agg); ok {
			return a
		}
	}
	w.abort("unsupported", fmt.Sprintf("sync object behind %T", p.R))
	return nil
}

func (w *W) rawCell(p V) (Ptr, bool) {
	if p.R == nil {
		w.nilDeref()
	}
	q, ok := normPtr(p.R).(Ptr)
	return q, ok
}

// atomicRace checks an atomic access against plain accesses and records it.
func (w *W) atomicRace(a *Agg, i int, write bool) {
	if !w.racing || w.noRace || w.initMode {
		return
	}
	c := w.shCellOf(&a.sh, i)
	t := w.cur
	if c.wt >= 0 && c.wt != t.id && c.wc > t.vc.get(c.wt) {
		w.fail("race", fmt.Sprintf("data race: atomic access at %s conflicts with plain write by g%d", w.where(t), c.wt), nil)
	}
	if write {
		for j, x := range c.r {
			if j != t.id && x > t.vc.get(j) {
				w.fail("race", fmt.Sprintf("data race: atomic write at %s conflicts with plain read by g%d", w.where(t), j), nil)
			}
		}
	}
	set := func(v *VC) {
		for len(*v) <= t.id {
			*v = append(*v, 0)
		}
		(*v)[t.id] = t.vc.get(t.id)
	}
	if write {
		set(&c.aw)
	} else {
		set(&c.ar)
	}
}

func (w *W) atomicOp(name string, p V, write bool, f func(c Ptr) V) *VisOp {
	c, ok := w.rawCell(p)
	if !ok {
		w.abort("unsupported", fmt.Sprintf("atomic operation through %T", p.R))
	}
	return &VisOp{name: name, keys: []depKey{{c, write}}, exec: func() (V, bool) {
		w.acquire(c)
		w.atomicRace(c.A, c.I, write)
		v := f(c)
		if write {
			w.releaseSet(c)
		}
		return v, true
	}}
}

func (w *W) eqCell(a, b V, wd uint8) bool {
	if a.R != nil || b.R != nil {
		return ptrEq(a.R, b.R)
	}
	return w.branch(w.ctx.Eq(w.term(a, wd), w.term(b, wd)))
}

func init() {
	for _, ty := range []struct {
		n  string
		wd uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 64}} {
		wd := ty.wd
		for _, pk := range []string{"sync/atomic."} {
			n := pk
			regVis(n+"Load"+ty.n, func(w *W, t *Thread, a []V, ci *CallInfo) *VisOp {
				return w.atomicOp("atomic.Load", a[0], false, func(c Ptr) V { w.pure = true; return c.A.get(c.I) })
			})
			regVis(n+"Store"+ty.n, func(w *W, t *Thread, a []V, ci *CallInfo) *VisOp {
				return w.atomicOp("atomic.Store", a[0], true, func(c Ptr) V { w.set(c.A, c.I, a[1]); return V{} })
			})
			regVis(n+"Swap"+ty.n, func(w *W, t *Thread, a []V, ci *CallInfo) *VisOp {
				return w.atomicOp("atomic.Swap", a[0], true, func(c Ptr) V { o := c.A.get(c.I); w.set(c.A, c.I, a[1]); return o })
			})
			regVis(n+"CompareAndSwap"+ty.n, func(w *W, t *Thread, a []V, ci *CallInfo) *VisOp {
				return w.atomicOp("atomic.CAS", a[0], true, func(c Ptr) V {
					if w.eqCell(c.A.get(c.I), a[1], wd) {
						w.set(c.A, c.I, a[2])
						return boolV(true)
					}
					w.pure = true
					return boolV(false)
				})
			})
			bin := func(name string, op Op, old bool) {
				regVis(n+name+ty.n, func(w *W, t *Thread, a []V, ci *CallInfo) *VisOp {
					return w.atomicOp("atomic."+name, a[0], true, func(c Ptr) V {
						o := c.A.get(c.I)
						x := fromTerm(w.ctx.Bin(op, w.term(o, wd), w.term(a[1], wd)))
						w.set(c.A, c.I, x)
						if old {
							return o
						}
						return x
					})
				})
			}
			if ty.n != "Pointer" {
				bin("Add", OAdd, false)
				bin("And", OBAnd, true)
				bin("Or", OBOr, true)
			}
		}
	}
	av := func(name string, write bool, f func(w *W, a *Agg, args []V) V) {
		regVis("(*sync/atomic.Value)."+name, func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
			a := w.inner(args[0])
			k := Ptr{a, 0}
			return &VisOp{name: "Value." + name, keys: []depKey{{k, write}}, exec: func() (V, bool) {
				w.acquire(k)
				w.atomicRace(a, 0, write)
				v := f(w, a, args)
				if write {
					w.releaseSet(k)
				}
				return v, true
			}}
		})
	}
	chk := func(w *W, a *Agg, v V, what string) {
		if v.R == nil {
			w.goPanicStr("sync/atomic: " + what + " of nil value into Value")
		}
		if o, ok := a.get(0).R.(*Iface); ok && w.typeID(o.T) != w.typeID(v.R.(*Iface).T) {
			w.goPanicStr("sync/atomic: " + what + " of inconsistently typed value into Value")
		}
	}
	av("Load", false, func(w *W, a *Agg, args []V) V { return a.get(0) })
	av("Store", true, func(w *W, a *Agg, args []V) V { chk(w, a, args[1], "store"); w.set(a, 0, args[1]); return V{} })
	av("Swap", true, func(w *W, a *Agg, args []V) V {
		chk(w, a, args[1], "swap")
		o := a.get(0)
		w.set(a, 0, args[1])
		return o
	})
	av("CompareAndSwap", true, func(w *W, a *Agg, args []V) V {
		if args[2].R == nil {
			w.goPanicStr("sync/atomic: compare and swap of nil value into Value")
		}
		if args[1].R != nil && w.typeID(args[1].R.(*Iface).T) != w.typeID(args[2].R.(*Iface).T) {
			w.goPanicStr("sync/atomic: compare and swap of inconsistently typed values")
		}
		o := a.get(0)
		if o.R != nil {
			chk(w, a, args[2], "compare and swap")
		}
		if w.branch(w.eqIface(o, args[1])) {
			w.set(a, 0, args[2])
			return boolV(true)
		}
		return boolV(false)
	})

	// ---- Mutex
	locked := func(a *Agg) bool { return a.get(0).C != 0 }
	for _, p := range []string{"(*sync.Mutex).", "(*internal/sync.Mutex)."} {
		regVis(p+"Lock", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
			a := w.inner(args[0])
			return &VisOp{name: "Lock", keys: []depKey{{a, true}}, enabled: func() bool { return !locked(a) }, exec: func() (V, bool) {
				w.acquire(a)
				w.set(a, 0, V{C: 1})
				return V{}, true
			}}
		})
		regVis(p+"TryLock", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
			a := w.inner(args[0])
			return &VisOp{name: "TryLock", keys: []depKey{{a, true}}, exec: func() (V, bool) {
				if locked(a) {
					return boolV(false), true
				}
				w.acquire(a)
				w.set(a, 0, V{C: 1})
				return boolV(true), true
			}}
		})
		regVis(p+"Unlock", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
			a := w.inner(args[0])
			return &VisOp{name: "Unlock", keys: []depKey{{a, true}}, exec: func() (V, bool) {
				if !locked(a) {
					w.fail("fatal", "fatal error: sync: unlock of unlocked mutex", nil)
				}
				w.releaseSet(a)
				w.set(a, 0, V{})
				return V{}, true
			}}
		})
	}
	// ---- RWMutex: cell 0 writer, 1 readers, 2 pending writers
	cell := func(a *Agg, i int) int { return int(int64(a.get(i).C)) }
	type rk struct {
		a *Agg
		r bool
	}
	P := "(*sync.RWMutex)."
	regVis(P+"Lock", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
		a := w.inner(args[0])
		free := func() bool { return cell(a, 0) == 0 && cell(a, 1) == 0 }
		get := func() {
			w.acquire(rk{a, false})
			w.acquire(rk{a, true})
			w.set(a, 0, V{C: 1})
		}
		return &VisOp{name: "RW.Lock", keys: []depKey{{a, true}}, exec: func() (V, bool) {
			if free() {
				get()
				return V{}, true
			}
			w.set(a, 2, intV(cell(a, 2)+1))
			t.op = &VisOp{name: "RW.Lock(wait)", keys: []depKey{{a, true}}, enabled: free, exec: func() (V, bool) {
				w.set(a, 2, intV(cell(a, 2)-1))
				get()
				return V{}, true
			}}
			return V{}, false
		}}
	})
	regVis(P+"Unlock", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
		a := w.inner(args[0])
		return &VisOp{name: "RW.Unlock", keys: []depKey{{a, true}}, exec: func() (V, bool) {
			if cell(a, 0) == 0 {
				w.fail("fatal", "fatal error: sync: Unlock of unlocked RWMutex", nil)
			}
			w.releaseSet(rk{a, false})
			w.set(a, 0, V{})
			return V{}, true
		}}
	})
	regVis(P+"RLock", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
		a := w.inner(args[0])
		// a reader arriving while a writer waits is held back; readers that were
		// held back by a writer are let in when that writer unlocks
		return &VisOp{name: "RW.RLock", keys: []depKey{{a, true}}, enabled: func() bool { return cell(a, 0) == 0 && cell(a, 2) == 0 }, exec: func() (V, bool) {
			w.acquire(rk{a, false})
			w.set(a, 1, intV(cell(a, 1)+1))
			return V{}, true
		}}
	})
	regVis(P+"RUnlock", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
		a := w.inner(args[0])
		return &VisOp{name: "RW.RUnlock", keys: []depKey{{a, true}}, exec: func() (V, bool) {
			if cell(a, 1) == 0 {
				w.fail("fatal", "fatal error: sync: RUnlock of unlocked RWMutex", nil)
			}
			w.releaseJoin(rk{a, true})
			w.set(a, 1, intV(cell(a, 1)-1))
			return V{}, true
		}}
	})
	regVis(P+"TryLock", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
		a := w.inner(args[0])
		return &VisOp{name: "RW.TryLock", keys: []depKey{{a, true}}, exec: func() (V, bool) {
			if cell(a, 0) != 0 || cell(a, 1) != 0 {
				return boolV(false), true
			}
			w.acquire(rk{a, false})
			w.acquire(rk{a, true})
			w.set(a, 0, V{C: 1})
			return boolV(true), true
		}}
	})
	regVis(P+"TryRLock", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
		a := w.inner(args[0])
		return &VisOp{name: "RW.TryRLock", keys: []depKey{{a, true}}, exec: func() (V, bool) {
			if cell(a, 0) != 0 || cell(a, 2) != 0 {
				return boolV(false), true
			}
			w.acquire(rk{a, false})
			w.set(a, 1, intV(cell(a, 1)+1))
			return boolV(true), true
		}}
	})
	// ---- WaitGroup: cell 0 counter, 1 waiters, 2 race cell
	G := "(*sync.WaitGroup)."
	wgAdd := func(w *W, a *Agg, d int) *VisOp {
		return &VisOp{name: "wg.Add", keys: []depKey{{a, true}}, exec: func() (V, bool) {
			c := cell(a, 0)
			if d < 0 {
				w.releaseJoin(a)
			}
			if d > 0 && c == 0 && w.racing {
				w.access(a, 2, false)
			}
			c += d
			if c < 0 {
				w.goPanicStr("sync: negative WaitGroup counter")
			}
			if cell(a, 1) != 0 && d > 0 && c == d {
				w.goPanicStr("sync: WaitGroup misuse: Add called concurrently with Wait")
			}
			w.set(a, 0, intV(c))
			return V{}, true
		}}
	}
	regVis(G+"Add", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
		return wgAdd(w, w.inner(args[0]), int(int64(w.conc(args[1]))))
	})
	regVis(G+"Done", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp { return wgAdd(w, w.inner(args[0]), -1) })
	regVis(G+"Wait", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
		a := w.inner(args[0])
		return &VisOp{name: "wg.Wait", keys: []depKey{{a, true}}, exec: func() (V, bool) {
			if cell(a, 0) == 0 {
				w.acquire(a)
				return V{}, true
			}
			if cell(a, 1) == 0 && w.racing {
				w.access(a, 2, true)
			}
			w.set(a, 1, intV(cell(a, 1)+1))
			t.op = &VisOp{name: "wg.Wait(blocked)", keys: []depKey{{a, true}}, enabled: func() bool { return cell(a, 0) == 0 }, exec: func() (V, bool) {
				w.set(a, 1, intV(cell(a, 1)-1))
				w.acquire(a)
				return V{}, true
			}}
			return V{}, false
		}}
	})
	// ---- Cond (notifyList)
	type nlKey struct{ a *Agg }
	regVis("sync.runtime_notifyListAdd", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
		a := w.inner(args[0])
		return &VisOp{name: "cond.add", keys: []depKey{{a, true}}, exec: func() (V, bool) {
			n := cell(a, 0)
			w.set(a, 0, intV(n+1))
			return V{C: uint64(uint32(n))}, true
		}}
	})
	regVis("sync.runtime_notifyListWait", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
		a := w.inner(args[0])
		k := cell(&Agg{e: []V{args[1]}}, 0)
		return &VisOp{name: "cond.wait", keys: []depKey{{a, true}}, enabled: func() bool { return k < cell(a, 1) }, exec: func() (V, bool) {
			w.acquire(nlKey{a})
			return V{}, true
		}}
	})
	notify := func(all bool) vfn {
		return func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
			a := w.inner(args[0])
			return &VisOp{name: "cond.notify", keys: []depKey{{a, true}}, exec: func() (V, bool) {
				w.releaseJoin(nlKey{a})
				if all {
					w.set(a, 1, intV(cell(a, 0)))
				} else if cell(a, 1) < cell(a, 0) {
					w.set(a, 1, intV(cell(a, 1)+1))
				}
				return V{}, true
			}}
		}
	}
	regVis("sync.runtime_notifyListNotifyAll", notify(true))
	regVis("sync.runtime_notifyListNotifyOne", notify(false))
	reg("(*sync.copyChecker).check", func(w *W, t *Thread, a []V, ci *CallInfo) V { return V{} })

	// ---- Pool
	regVis(symPkg+".PoolTake", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
		a := w.inner(args[0])
		return &VisOp{name: "Pool.Get", keys: []depKey{{a, true}}, exec: func() (V, bool) {
			items := w.pools[a]
			n := len(items)
			i := n
			if n > 0 {
				// last put first, then older ones, then "the pool dropped everything"
				k := 0
				if !w.single {
					k = w.chooseN(n+1, "pool")
				}
				i = n - 1 - k
				if i < 0 {
					i = n
				}
			}
			if i == n {
				return tup(V{}, boolV(false)), true
			}
			it := items[i]
			w.pools[a] = append(append([]chElem{}, items[:i]...), items[i+1:]...)
			w.cur.vc.join(it.vc)
			return tup(it.v, boolV(true)), true
		}}
	})
	regVis("(*sync.Pool).Put", func(w *W, t *Thread, args []V, ci *CallInfo) *VisOp {
		a := w.inner(args[0])
		return &VisOp{name: "Pool.Put", keys: []depKey{{a, true}}, exec: func() (V, bool) {
			if args[1].R == nil {
				return V{}, true
			}
			if w.initMode {
				return V{}, true // an item put during package init may be dropped
			}
			w.pools[a] = append(append([]chElem{}, w.pools[a]...), chElem{args[1], w.cur.vc.clone()})
			w.tick(w.cur)
			return V{}, true
		}}
	})
}

// ---- misc runtime, math, errors --------------------------------------------------

func (w *W) mkError(msg string) V {
	pt := types.NewPointer(w.eng.errStrType)
	box := w.newAgg(1)
	st := w.newAgg(1)
	st.e[0] = roString(msg)
	box.e[0] = V{R: st}
	return V{R: &Iface{T: pt, V: V{R: Ptr{box, 0}}}}
}

func init() {
	R := reg
	nop := func(w *W, t *Thread, a []V, ci *CallInfo) V { return V{} }
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread", "runtime.UnlockOSThread", "runtime/debug.SetGCPercent", "runtime/debug.FreeOSMemory", "runtime/debug.PrintStack", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "math/rand.Seed"} {
		R(n, nop)
	}
	R("runtime.NumGoroutine", func(w *W, t *Thread, a []V, ci *CallInfo) V { return intV(w.live) })
	R("runtime.GOMAXPROCS", func(w *W, t *Thread, a []V, ci *CallInfo) V { return intV(8) })
	R("runtime.NumCPU", func(w *W, t *Thread, a []V, ci *CallInfo) V { return intV(8) })
	R("runtime/debug.Stack", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		return w.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), roString("goroutine 1 [running]:\n"))
	})
	R("runtime.Goexit", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		panic(&symPanic{goexit: true})
	})
	for _, n := range []string{"internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape"} {
		R(n, func(w *W, t *Thread, a []V, ci *CallInfo) V { return a[0] })
	}
	R("os.Exit", func(w *W, t *Thread, a []V, ci *CallInfo) V { w.fail("exit", "os.Exit called", nil); return V{} })
	for _, x := range []struct {
		n  string
		wd uint8
	}{{"math.Float64bits", 64}, {"math.Float64frombits", 64}, {"math.Float32bits", 32}, {"math.Float32frombits", 32}} {
		R(x.n, func(w *W, t *Thread, a []V, ci *CallInfo) V { return a[0] })
	}
	for _, n := range []string{"math.Max", "math.archMax", "math.max"} {
		R(n, func(w *W, t *Thread, a []V, ci *CallInfo) V {
			return fromTerm(w.fMax(w.term(a[0], 64), w.term(a[1], 64)))
		})
	}
	for _, n := range []string{"math.Min", "math.archMin", "math.min"} {
		R(n, func(w *W, t *Thread, a []V, ci *CallInfo) V {
			return fromTerm(w.fMin(w.term(a[0], 64), w.term(a[1], 64)))
		})
	}
	R("math.Abs", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		return fromTerm(w.ctx.Bin(OBAnd, w.term(a[0], 64), w.ctx.K(64, math.MaxInt64)))
	})
	R("math.IsNaN", func(w *W, t *Thread, a []V, ci *CallInfo) V { return fromTerm(w.ctx.F1(OFNaN, 0, w.term(a[0], 64))) })
	R("math.IsInf", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		c := w.ctx
		x := w.term(a[0], 64)
		s := w.term(a[1], 64)
		pi := c.And(c.Eq(x, c.K(64, fbits(64, math.Inf(1)))), c.Sle(c.K(64, 0), s))
		ni := c.And(c.Eq(x, c.K(64, fbits(64, math.Inf(-1)))), c.Sle(s, c.K(64, 0)))
		return fromTerm(c.Or(pi, ni))
	})
	for _, x := range []struct {
		n  string
		wd uint8
	}{{"Intn", 64}, {"Int63n", 64}, {"Int31n", 32}, {"IntN", 64}, {"Int64N", 64}, {"Int32N", 32}} {
		wd := x.wd
		for _, p := range []string{"math/rand.", "math/rand/v2."} {
			R(p+x.n, func(w *W, t *Thread, a []V, ci *CallInfo) V { return w.randN(a[0], wd) })
		}
		R("(*math/rand.Rand)."+x.n, func(w *W, t *Thread, a []V, ci *CallInfo) V { return w.randN(a[1], wd) })
	}
	for _, x := range []struct {
		n  string
		wd uint8
		hi uint64
	}{{"Int", 64, 1 << 63}, {"Int63", 64, 1 << 63}, {"Int31", 32, 1 << 31}, {"Uint32", 32, 0}, {"Uint64", 64, 0}} {
		wd, hi := x.wd, x.hi
		R("math/rand."+x.n, func(w *W, t *Thread, a []V, ci *CallInfo) V {
			v := w.fresh(wd, 0)
			w.envND = true
			if hi != 0 {
				w.assumeFresh(w.ctx.Ult(v, w.ctx.K(wd, hi)))
			}
			return fromTerm(v)
		})
	}
	R("math/rand.NewSource", func(w *W, t *Thread, a []V, ci *CallInfo) V { return V{} })
	R("math/rand.New", func(w *W, t *Thread, a []V, ci *CallInfo) V { return V{R: Ptr{w.newAgg(1), 0}} })
	R("time.runtimeNano", func(w *W, t *Thread, a []V, ci *CallInfo) V { return V{} })
	R("internal/godebug.New", func(w *W, t *Thread, a []V, ci *CallInfo) V { return V{R: Ptr{w.newAgg(1), 0}} })
	R(symPkg+".SliceLen", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		i, ok := a[0].R.(*Iface)
		if !ok {
			w.goPanicStr("reflect: call of Swapper on zero Value")
		}
		if _, ok := i.T.Underlying().(*types.Slice); !ok {
			w.goPanicStr("reflect: call of Swapper on " + i.T.String())
		}
		return intV(i.V.slen())
	})
	R(symPkg+".SliceSwap", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		s := a[0].R.(*Iface).V.slice()
		i, j := int(w.conc(a[1])), int(w.conc(a[2]))
		x, y := w.loadAt(s.A, s.Off+i), w.loadAt(s.A, s.Off+j)
		w.store(V{R: Ptr{s.A, s.Off + i}}, y)
		w.store(V{R: Ptr{s.A, s.Off + j}}, x)
		return V{}
	})
	R(symPkg+".TypeName", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		i, ok := a[0].R.(*Iface)
		if !ok {
			return roString("nil")
		}
		return roString(typeStr(i.T))
	})
	R("internal/reflectlite.TypeOf", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		w.abort("unsupported", "reflection")
		return V{}
	})
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// hostSprintf formats with concrete or partially symbolic operands: literal
// text and %s/%v/%d/%q/%t/%T verbs of strings and concrete scalars.
func (w *W) hostSprintf(format, args V) V {
	f, ok := concStr(format)
	if !ok {
		w.abort("unsupported", "symbolic format string")
	}
	var vs []*Iface
	for i := 0; i < args.slen(); i++ {
		x, _ := args.at(i).R.(*Iface)
		vs = append(vs, x)
	}
	var out []V
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, V{C: uint64(s[i])})
		}
	}
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit(f[i : i+1])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		verb := f[i : j+1]
		i = j
		if f[j] == '%' {
			lit("%")
			continue
		}
		if k >= len(vs) {
			lit("%!" + string(f[j]) + "(MISSING)")
			continue
		}
		x := vs[k]
		k++
		if x == nil {
			lit(fmt.Sprintf(verb, nil))
			continue
		}
		if f[j] == 'T' {
			lit(typeStr(x.T))
			continue
		}
		if isString(x.T) || isBytes(x.T) {
			if s, ok := concStr(x.V); ok {
				lit(fmt.Sprintf(verb, s))
				continue
			}
			if verb == "%s" || verb == "%v" && isString(x.T) {
				for q := 0; q < x.V.slen(); q++ {
					out = append(out, x.V.at(q))
				}
				continue
			}
			lit("<symbolic>")
			continue
		}
		if b, ok := x.T.Underlying().(*types.Basic); ok {
			wd, sg, fl, ok := basicWidth(b)
			if ok {
				if x.V.T != nil && (verb == "%d" || verb == "%v") && !fl && wd > 0 {
					// symbolic integers: value left abstract
				}
				c := w.conc(x.V)
				switch {
				case wd == 0:
					lit(fmt.Sprintf(verb, c == 1))
				case fl:
					lit(fmt.Sprintf(verb, fval(wd, c)))
				case sg:
					lit(fmt.Sprintf(verb, sext(c, wd)))
				default:
					lit(fmt.Sprintf(verb, c))
				}
				continue
			}
		}
		lit("<" + typeStr(x.T) + ">")
	}
	if k < len(vs) {
		lit("%!(EXTRA)")
	}
	return w.strFromVs(out)
}
