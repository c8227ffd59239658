package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v VC) clone() VC { return append(VC(nil), v...) }

type Thread struct {
	id        int
	frames    []*Frame
	op        *VisOp
	opDst     int
	parked    bool
	parkDst   int
	parkWhy   string
	done      bool
	panics    []*panicRec
	unwinding bool
	vc        VC
	result    V
	yielded   bool // waits for somebody else to change something
	lastStep  int  // global step count when last executed
	idle      bool
	timer     bool
	name      string
	dep       VC // how many stamps of each goroutine precede what this one does next
}

type depKey struct {
	k     interface{}
	write bool
}

type VisOp struct {
	name    string
	keys    []depKey
	global  bool
	enabled func() bool
	exec    func() (V, bool)
	low     bool // only when nothing else can run
	timer   bool
	yield   bool
}

func dependent(a, b *VisOp) bool {
	if a.global || b.global {
		return true
	}
	for _, x := range a.keys {
		for _, y := range b.keys {
			if (x.write || y.write) && x.k == y.k {
				return true
			}
		}
	}
	return false
}

func (w *W) newThread(name string) *Thread {
	t := &Thread{id: len(w.threads), name: name}
	w.threads = append(w.threads, t)
	w.live++
	return t
}

func (w *W) spawn(t *Thread, d deferRec) *Thread {
	if w.initMode {
		w.abort("unsupported", "goroutine started during package initialisation")
	}
	name := "go"
	if d.fn != nil {
		name = d.fn.name
	}
	if len(w.threads) >= w.maxThreads {
		w.abort("steps", "goroutine limit")
	}
	n := w.newThread(name)
	w.tick(t)
	n.vc = t.vc.clone()
	n.dep = t.dep
	w.tick(n)
	w.racing = w.eng.race
	w.pushDeferred(n, d)
	return n
}

func (w *W) tick(t *Thread) {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

func (w *W) threadExit(t *Thread) {
	t.done = true
	t.frames = nil
	w.live--
}

// visible registers op as the pending operation of t, or runs it at once if
// no other goroutine exists.
func (w *W) visible(t *Thread, op *VisOp, dst int) {
	if w.live == 1 && !op.low && (op.enabled == nil || op.enabled()) {
		w.exec1(t, op, dst)
		return
	}
	if w.initMode {
		w.abort("unsupported", "blocking operation during package initialisation: "+op.name)
	}
	t.op, t.opDst = op, dst
}

// ---- order variables -------------------------------------------------------------
//
// A path of the exploration stands for every ordering of its steps that keeps
// the order of dependent ones. Stamps (sym.Call, sym.Ret) become solver
// variables constrained by just that partial order, so assertions over them
// are decided for all these orderings at once.

type stampRec struct {
	t    *Thread
	ix   uint32
	dep  VC
	term *Term
}

type depRec struct{ wr, rd VC }

// vcMax is the join of immutable clocks.
func vcMax(a, b VC) VC {
	grow := false
	for i, x := range b {
		if x > a.get(i) {
			grow = true
			break
		}
	}
	if !grow {
		return a
	}
	a = a.clone()
	a.join(b)
	return a
}

// depend records that op of t follows every step it depends on.
func (w *W) depend(t *Thread, op *VisOp) {
	if w.nstamps == 0 || op.yield {
		return
	}
	if op.global || op.low {
		t.dep = vcMax(t.dep, w.depAll)
		w.depGlobal = t.dep
	}
	t.dep = vcMax(t.dep, w.depGlobal)
	for _, k := range op.keys {
		r := w.depKeys[k.k]
		if r == nil {
			continue
		}
		t.dep = vcMax(t.dep, r.wr)
		if k.write {
			t.dep = vcMax(t.dep, r.rd)
		}
	}
	for _, k := range op.keys {
		r := w.depKeys[k.k]
		if r == nil {
			r = &depRec{}
			w.depKeys[k.k] = r
		}
		if k.write {
			r.wr, r.rd = t.dep, nil
		} else {
			r.rd = vcMax(r.rd, t.dep)
		}
	}
	w.depAll = vcMax(w.depAll, t.dep)
}

const stampBits = 8

// stamp returns a handle of the current point in time of t.
func (w *W) stamp(t *Thread) V {
	w.nstamps++
	if w.nstamps == 1 {
		for _, o := range w.threads {
			o.dep = nil
		}
		w.depKeys = map[interface{}]*depRec{}
	}
	mine := t.dep.clone()
	for len(mine) <= t.id {
		mine = append(mine, 0)
	}
	mine[t.id]++
	t.dep = mine
	w.depAll = vcMax(w.depAll, mine)
	w.stamps = append(w.stamps, &stampRec{t: t, ix: mine[t.id], dep: mine})
	return intV(w.nstamps)
}

func (x *stampRec) precedes(y *stampRec) bool {
	return x != y && y.dep.get(x.t.id) >= x.ix
}

// orderVar gives a stamp its solver variable, placed in the partial order of
// the stamps that have one.
func (w *W) orderVar(x *stampRec) *Term {
	if x.term != nil {
		return x.term
	}
	if len(w.ordered) >= 1<<stampBits-1 {
		w.abort("unsupported", "more points in time than order variables can tell apart")
	}
	lo, hi := uint64(0), uint64(1)<<stampBits-1
	for _, y := range w.ordered {
		v := w.ctx.Eval(y.term, w.model)
		if y.precedes(x) && v >= lo {
			lo = v + 1
		} else if x.precedes(y) && v <= hi {
			hi = v - 1
		}
	}
	x.term = w.fresh(stampBits, (lo+hi)/2&(1<<stampBits-1))
	// the neighbours in the order are enough: it is transitive
next:
	for _, y := range w.ordered {
		before := y.precedes(x)
		if !before && !x.precedes(y) {
			continue
		}
		for _, z := range w.ordered {
			if before && y.precedes(z) && z.precedes(x) || !before && x.precedes(z) && z.precedes(y) {
				continue next
			}
		}
		if before {
			w.assume(w.ctx.Ult(y.term, x.term))
		} else {
			w.assume(w.ctx.Ult(x.term, y.term))
		}
	}
	w.ordered = append(w.ordered, x)
	return x.term
}

// follows reports whether the partial order puts a after b.
func (w *W) follows(a, b V) bool {
	i, j := w.conc(a), w.conc(b)
	if i == 0 || j == 0 || i > uint64(w.nstamps) || j > uint64(w.nstamps) {
		return false
	}
	return w.stamps[j-1].precedes(w.stamps[i-1])
}

// before decides a < b for stamps, by the partial order where it is fixed.
func (w *W) before(a, b V) *Term {
	i, j := w.conc(a), w.conc(b)
	if i == 0 || j == 0 || i > uint64(w.nstamps) || j > uint64(w.nstamps) {
		return w.ctx.B(int64(i) < int64(j))
	}
	x, y := w.stamps[i-1], w.stamps[j-1]
	switch {
	case w.orderAll && x.t != y.t:
	case x.precedes(y):
		return w.ctx.B(true)
	case x == y || y.precedes(x):
		return w.ctx.B(false)
	}
	return w.ctx.Ult(w.orderVar(x), w.orderVar(y))
}

func (w *W) exec1(t *Thread, op *VisOp, dst int) {
	w.depend(t, op)
	v, done := op.exec()
	if done {
		w.complete(t, v, dst)
	} else if t.op != nil {
		t.opDst = dst // second phase of a two-step operation
	} else {
		t.parked = true
		t.parkDst = dst
		t.parkWhy = op.name
	}
}

func (w *W) wake(t *Thread, v V) {
	t.parked = false
	t.dep = vcMax(t.dep, w.cur.dep)
	w.complete(t, v, t.parkDst)
}

func (w *W) execOp(t *Thread) {
	op := t.op
	dst := t.opDst
	t.op = nil
	w.cur = t
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(*symPanic); ok {
				t.panics = append(t.panics, &panicRec{val: p.val, goexit: p.goexit, where: w.where(t)})
				t.unwinding = true
				return
			}
			panic(r)
		}
	}()
	w.visSteps++
	w.exec1(t, op, dst)
}

// schedule runs all threads until main is done.
func (w *W) schedule(main *Thread) {
	last := main
	spins := 0
	for {
		for i := 0; i < len(w.threads); i++ {
			t := w.threads[i]
			if !t.done && !t.parked && t.op == nil {
				w.run(t)
				if main.done {
					return
				}
			}
		}
		if main.done {
			return
		}
		var cands, low []*Thread
		nreal := 0
		for {
			cands, low = cands[:0], low[:0]
			anyY := false
			nreal = 0
			for _, t := range w.threads {
				if t.done || t.op == nil {
					continue
				}
				if t.op.low {
					low = append(low, t)
					continue
				}
				if t.op.enabled != nil && !t.op.enabled() {
					continue
				}
				if t.yielded {
					anyY = true
					continue
				}
				cands = append(cands, t)
				if !t.op.timer {
					nreal++
				}
			}
			if len(cands) == 0 && anyY {
				// nobody has changed anything since they all gave way
				if spins++; spins > 300 {
					w.deadlock()
				}
				for _, t := range w.threads {
					t.yielded = false
				}
				continue
			}
			break
		}
		if nreal == 0 {
			cands = append(cands, low...)
		}
		if len(cands) == 0 {
			w.deadlock()
		}
		t := w.pick(cands, last)
		op := t.op
		w.trace = append(w.trace, traceEv{t.id, op.name, w.eng.verboseTrace(w, t)})
		w.pure = false
		w.execOp(t)
		if w.sched == "full" && len(w.sleep) > 0 {
			for s := range w.sleep {
				if s.op == nil || dependent(s.op, op) {
					delete(w.sleep, s)
				}
			}
		}
		if !w.pure {
			spins = 0
			for _, o := range w.threads {
				if o != t {
					o.yielded = false
				}
			}
		}
		if op.yield && !t.done {
			t.yielded = true
		}
		last = t
	}
}

type traceEv struct {
	tid int
	op  string
	pos string
}

func (w *W) deadlock() {
	msg := "all goroutines blocked:"
	for _, t := range w.threads {
		if t.done {
			continue
		}
		why := t.parkWhy
		if t.op != nil {
			why = t.op.name
		}
		msg += fmt.Sprintf(" [g%d %s at %s]", t.id, why, w.where(t))
	}
	w.fail("deadlock", msg, nil)
}

func (w *W) pick(cands []*Thread, last *Thread) *Thread {
	switch w.sched {
	case "full":
		var awake []*Thread
		for _, t := range cands {
			if !w.sleep[t] {
				awake = append(awake, t)
			}
		}
		if len(awake) == 0 {
			w.abort("redundant", "")
		}
		// run the current goroutine first when possible
		for i, t := range awake {
			if t == last && i > 0 {
				copy(awake[1:i+1], awake[:i])
				awake[0] = t
				break
			}
		}
		i := 0
		if len(awake) > 1 {
			i = w.chooseN(len(awake), "sched")
		}
		for j := 0; j < i; j++ {
			w.sleep[awake[j]] = true
		}
		return awake[i]
	case "preempt":
		cur := -1
		for i, t := range cands {
			if t == last {
				cur = i
			}
		}
		if cur >= 0 {
			cands[0], cands[cur] = cands[cur], cands[0]
			if w.budget <= 0 || len(cands) == 1 {
				return cands[0]
			}
			i := w.chooseN(len(cands), "sched")
			if i > 0 {
				w.budget--
			}
			return cands[i]
		}
		if len(cands) == 1 {
			return cands[0]
		}
		return cands[w.chooseN(len(cands), "sched")]
	default: // delay-bounded round robin, or rotation
		// order: last first, then increasing id cyclically; timers and quiesce last
		var ord, tail []*Thread
		n := len(w.threads)
		in := map[*Thread]bool{}
		for _, t := range cands {
			in[t] = true
		}
		from := last.id
		if w.sched == "rotate" {
			// the next goroutine's turn after so many steps
			if w.ran++; w.ran > w.quantum || !in[last] {
				w.ran = 1
				from++
			}
		}
		for k := 0; k < n; k++ {
			t := w.threads[(from+k)%n]
			if !in[t] {
				continue
			}
			if t.op.low || t.op.timer {
				tail = append(tail, t)
			} else {
				ord = append(ord, t)
			}
		}
		ord = append(ord, tail...)
		m := w.budget + 1
		if m > len(ord) {
			m = len(ord)
		}
		if m <= 1 {
			return ord[0]
		}
		i := w.chooseN(m, "sched")
		w.budget -= i
		return ord[i]
	}
}

// ---- vector clocks and data races ----------------------------------------------

type shCell struct {
	wt int
	wc uint32
	wp string
	r  VC
	rp string
	aw VC // last atomic write / read per goroutine
	ar VC
}

type shadow struct {
	gen   uint32
	cells map[int]*shCell
}

func (w *W) shCellOf(psh **shadow, i int) *shCell {
	sh := *psh
	if sh == nil || sh.gen != w.pathNo {
		sh = &shadow{gen: w.pathNo, cells: map[int]*shCell{}}
		*psh = sh
	}
	c := sh.cells[i]
	if c == nil {
		c = &shCell{wt: -1}
		sh.cells[i] = c
	}
	return c
}

func (w *W) access(a *Agg, i int, write bool) {
	if a.ro || w.initMode || w.noRace {
		return
	}
	w.raceCheck(w.shCellOf(&a.sh, i), write)
}

func (w *W) accessMap(m *MapObj, write bool) {
	if w.initMode || w.noRace {
		return
	}
	w.raceCheck(w.shCellOf(&m.sh, 0), write)
}

func (w *W) raceAgg(a *Agg, write bool) {
	for i := 0; i < a.n(); i++ {
		if x, ok := a.get(i).R.(*Agg); ok {
			w.raceAgg(x, write)
		} else {
			w.access(a, i, write)
		}
	}
}

func (w *W) raceCheck(c *shCell, write bool) {
	t := w.cur
	if c.wt >= 0 && c.wt != t.id && c.wc > t.vc.get(c.wt) {
		w.fail("race", fmt.Sprintf("data race: %s at %s conflicts with write at %s by g%d", rw(write), w.where(t), c.wp, c.wt), nil)
	}
	for j, x := range c.aw {
		if j != t.id && x > t.vc.get(j) {
			w.fail("race", fmt.Sprintf("data race: plain %s at %s conflicts with atomic write by g%d", rw(write), w.where(t), j), nil)
		}
	}
	if write {
		for j, x := range c.ar {
			if j != t.id && x > t.vc.get(j) {
				w.fail("race", fmt.Sprintf("data race: plain write at %s conflicts with atomic read by g%d", w.where(t), j), nil)
			}
		}
		for j, x := range c.r {
			if j != t.id && x > t.vc.get(j) {
				w.fail("race", fmt.Sprintf("data race: write at %s conflicts with read by g%d at %s", w.where(t), j, c.rp), nil)
			}
		}
		c.wt, c.wc = t.id, t.vc.get(t.id)
		if w.eng.tracing {
			c.wp = w.where(t)
		}
		c.r = nil
	} else {
		for len(c.r) <= t.id {
			c.r = append(c.r, 0)
		}
		c.r[t.id] = t.vc.get(t.id)
		if w.eng.tracing {
			c.rp = w.where(t)
		}
	}
}

func rw(b bool) string {
	if b {
		return "write"
	}
	return "read"
}

func (w *W) acquire(k interface{}) {
	if w.initMode {
		return
	}
	if v, ok := w.syncVC[k]; ok {
		w.cur.vc.join(v)
	}
}

func (w *W) releaseSet(k interface{}) {
	if w.initMode {
		return
	}
	w.syncVC[k] = w.cur.vc.clone()
	w.tick(w.cur)
}

func (w *W) releaseJoin(k interface{}) {
	if w.initMode {
		return
	}
	v := w.syncVC[k]
	v = v.clone()
	v.join(w.cur.vc)
	w.syncVC[k] = v
	w.tick(w.cur)
}

// ---- channels --------------------------------------------------------------------

type chElem struct {
	v  V
	vc VC
}

type waiter struct {
	t    *Thread
	v    V
	vc   VC
	sel  *selState
	idx  int
	done func(v V, ok bool, vc VC)
}

type selState struct{ fired bool }

type Chan struct {
	buf    []chElem
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	slot   []VC
	si, ri int
	cvc    VC
	birth  uint32
	logged uint32
	id     int64
}

func (w *W) makeChan(n V) *Chan {
	c := int64(w.conc(n))
	if c < 0 || c > 1<<20 {
		w.rtPanic("makechan: size out of range")
	}
	w.nextID++
	return &Chan{cap: int(c), birth: w.epoch, id: w.nextID, slot: make([]VC, c)}
}

func (w *W) chLog(c *Chan) {
	if c.birth == w.epoch || w.initMode || c.logged == w.pathNo {
		return
	}
	c.logged = w.pathNo
	w.undo = append(w.undo, undoRec{c: c, cs: *c})
	c.slot = make([]VC, c.cap)
}

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.sel != nil {
			if x.sel.fired {
				continue
			}
			x.sel.fired = true
		}
		return x
	}
	return nil
}

func live(q []*waiter) bool {
	for _, x := range q {
		if x.sel == nil || !x.sel.fired {
			return true
		}
	}
	return false
}

func (c *Chan) sendReady() bool { return c.closed || len(c.buf) < c.cap || live(c.recvq) }
func (c *Chan) recvReady() bool { return c.closed || len(c.buf) > 0 || live(c.sendq) }

// trySend assumes sendReady.
func (w *W) doSend(c *Chan, v V) {
	w.chLog(c)
	if c.closed {
		w.goPanicErr("send on closed channel")
	}
	t := w.cur
	if x := deq(&c.recvq); x != nil {
		w.tick(t)
		vc := t.vc.clone()
		t.vc.join(x.vc)
		w.tick(t)
		x.done(v, true, vc)
		return
	}
	s := c.si % c.cap
	c.si++
	t.vc.join(c.slot[s])
	c.buf = append(append([]chElem{}, c.buf...), chElem{v, t.vc.clone()})
	w.tick(t)
}

// doRecv assumes recvReady.
func (w *W) doRecv(c *Chan) (V, bool) {
	w.chLog(c)
	t := w.cur
	if len(c.buf) > 0 {
		e := c.buf[0]
		c.buf = append([]chElem{}, c.buf[1:]...)
		t.vc.join(e.vc)
		s := c.ri % c.cap
		c.ri++
		c.slot[s] = t.vc.clone()
		w.tick(t)
		if x := deq(&c.sendq); x != nil {
			s2 := c.si % c.cap
			c.si++
			vc := x.vc.clone()
			vc.join(c.slot[s2])
			c.buf = append(c.buf, chElem{x.v, vc})
			x.done(V{}, true, c.slot[s2])
		}
		return e.v, true
	}
	if x := deq(&c.sendq); x != nil {
		mine := t.vc.clone()
		w.tick(t)
		t.vc.join(x.vc)
		x.done(V{}, true, mine)
		return x.v, true
	}
	// closed
	t.vc.join(c.cvc)
	return V{}, false
}

func (w *W) sendOp(t *Thread, chv, v V, _ func(V)) *VisOp {
	if chv.R == nil {
		return &VisOp{name: "send nil chan", enabled: func() bool { return false }}
	}
	c := chv.R.(*Chan)
	v = w.copyV(v)
	return &VisOp{name: "send", keys: []depKey{{c, true}}, exec: func() (V, bool) {
		if c.sendReady() {
			w.doSend(c, v)
			return V{}, true
		}
		w.chLog(c)
		w.tick(t)
		x := &waiter{t: t, v: v, vc: t.vc.clone()}
		x.done = func(_ V, ok bool, vc VC) {
			t.vc.join(vc)
			w.tick(t)
			if !ok {
				w.wakePanic(t, "send on closed channel")
				return
			}
			w.wake(t, V{})
		}
		c.sendq = append(c.sendq[:len(c.sendq):len(c.sendq)], x)
		return V{}, false
	}}
}

func (w *W) wakePanic(t *Thread, msg string) {
	t.parked = false
	t.dep = vcMax(t.dep, w.cur.dep)
	t.panics = append(t.panics, &panicRec{val: V{R: &Iface{T: w.eng.rtErrType, V: roString(msg)}}, where: w.where(t)})
	t.unwinding = true
}

func (w *W) recvOp(t *Thread, chv V, commaOk bool, ct types.Type) *VisOp {
	if chv.R == nil {
		return &VisOp{name: "recv nil chan", enabled: func() bool { return false }}
	}
	c := chv.R.(*Chan)
	elem := ct.Underlying().(*types.Chan).Elem()
	mk := func(v V, ok bool) V {
		if !ok {
			v = w.zero(elem)
		}
		if commaOk {
			return V{R: &Tuple{vs: []V{v, boolV(ok)}}}
		}
		return v
	}
	return &VisOp{name: "recv", keys: []depKey{{c, true}}, exec: func() (V, bool) {
		if c.recvReady() {
			return mk(w.doRecv(c)), true
		}
		w.chLog(c)
		w.tick(t)
		x := &waiter{t: t, vc: t.vc.clone()}
		x.done = func(v V, ok bool, vc VC) {
			t.vc.join(vc)
			w.tick(t)
			w.wake(t, mk(v, ok))
		}
		c.recvq = append(c.recvq[:len(c.recvq):len(c.recvq)], x)
		return V{}, false
	}}
}

func (w *W) closeChan(chv V) {
	if chv.R == nil {
		w.goPanicErr("close of nil channel")
	}
	c := chv.R.(*Chan)
	w.chLog(c)
	if c.closed {
		w.goPanicErr("close of closed channel")
	}
	c.closed = true
	t := w.cur
	c.cvc = t.vc.clone()
	w.tick(t)
	for {
		x := deq(&c.recvq)
		if x == nil {
			break
		}
		x.done(V{}, false, c.cvc)
	}
	for {
		x := deq(&c.sendq)
		if x == nil {
			break
		}
		x.done(V{}, false, c.cvc)
	}
}

func (w *W) selectOp(t *Thread, fr *Frame, x *ssa.Select, in *Instr) *VisOp {
	type cs struct {
		c    *Chan
		send bool
		v    V
		elem types.Type
	}
	var cases []cs
	op := &VisOp{name: "select"}
	for i, s := range x.States {
		chv := w.opv(fr, &in.ops[2*i])
		c := cs{send: s.Dir == types.SendOnly, elem: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if chv.R != nil {
			c.c = chv.R.(*Chan)
			op.keys = append(op.keys, depKey{c.c, true})
		}
		if c.send {
			c.v = w.copyV(w.opv(fr, &in.ops[2*i+1]))
		}
		cases = append(cases, c)
	}
	mk := func(idx int, v V, ok bool) V {
		tp := &Tuple{vs: []V{intV(idx), boolV(ok)}}
		for i, c := range cases {
			if c.send {
				continue
			}
			if i == idx && ok {
				tp.vs = append(tp.vs, v)
			} else {
				tp.vs = append(tp.vs, w.zero(c.elem))
			}
		}
		return V{R: tp}
	}
	op.exec = func() (V, bool) {
		var ready []int
		for i, c := range cases {
			if c.c == nil {
				continue
			}
			if c.send && c.c.sendReady() || !c.send && c.c.recvReady() {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			k := 0
			if len(ready) > 1 {
				k = w.chooseN(len(ready), "select")
			}
			i := ready[k]
			c := cases[i]
			if c.send {
				w.doSend(c.c, c.v)
				return mk(i, V{}, false), true
			}
			v, ok := w.doRecv(c.c)
			return mk(i, v, ok), true
		}
		if !x.Blocking {
			return mk(-1, V{}, false), true
		}
		st := &selState{}
		w.tick(t)
		for i, c := range cases {
			if c.c == nil {
				continue
			}
			i, c := i, c
			w.chLog(c.c)
			wt := &waiter{t: t, v: c.v, vc: t.vc.clone(), sel: st, idx: i}
			wt.done = func(v V, ok bool, vc VC) {
				t.vc.join(vc)
				w.tick(t)
				if c.send && !ok {
					w.wakePanic(t, "send on closed channel")
					return
				}
				if c.send {
					ok = false
				}
				w.wake(t, mk(i, v, ok))
			}
			if c.send {
				c.c.sendq = append(c.c.sendq[:len(c.c.sendq):len(c.c.sendq)], wt)
			} else {
				c.c.recvq = append(c.c.recvq[:len(c.c.recvq):len(c.c.recvq)], wt)
			}
		}
		return V{}, false
	}
	return op
}
