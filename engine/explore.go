package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp/syntax"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- decisions ------------------------------------------------------------------

// node is one decision on a path; paths share prefixes.
type node struct {
	parent *node
	kind   byte // 'b' branch, 'f' forced branch, 'c' choice
	val    int32
	depth  int32
}

type item struct {
	n     *node
	model []uint64
	size  int // outstanding budget hints
}

type input struct {
	Kind string
	V    V
	w    uint8
}

// W is one worker: an interpreter with its own terms and solver process.
type W struct {
	id      int
	eng     *Engine
	ctx     *TermCtx
	sol     *Solver
	h       *Harness
	noRedir bool

	typeIDs map[types.Type]int
	fns     map[*ssa.Function]*Fn
	funcVs  map[*ssa.Function]*Closure
	meths   map[methKey]*Fn
	impls   map[implKey]bool
	fnHits  map[*Fn]int
	globals map[*ssa.Global]Ptr
	inited  map[*ssa.Package]int

	epoch    uint32
	pathNo   uint32
	undo     []undoRec
	initMode bool
	nextID   int64
	cells    int
	maxCells int

	// per path
	prefix      []*node
	depth       int
	tail        *node
	model       []uint64
	vars        []uint8
	pc          []*Term
	known       map[*Term]bool
	eqc         map[*Term]uint64
	eqMemo      map[*Term]int64
	inputs      []input
	covers      map[string]bool
	obs         []string
	steps       int
	maxSteps    int
	maxThreads  int
	single      bool   // one pool behaviour only
	quantum     int    // of the rotating schedule
	randState   uint64 // if not zero, math/rand gives this fixed sequence
	ran         int    // steps since it last switched
	mapOrderMax int
	mapOrder    int
	envUsed     bool // any environment choice
	envND       bool // environment nondeterminism consumed (pool, rand, map order, schedule)
	obsV        []obsRec

	threads   []*Thread
	live      int
	cur       *Thread
	racing    bool
	noRace    bool
	sched     string
	budget    int
	sleep     map[*Thread]bool
	syncVC    map[interface{}]VC
	visSteps  int
	pure      bool // the last visible step changed nothing
	trace     []traceEv
	nstamps   int
	orderAll  bool
	spans     []spanRec
	stamps    []*stampRec
	ordered   []*stampRec // those with a solver variable
	depKeys   map[interface{}]*depRec
	depAll    VC
	depGlobal VC
	side      map[sideKey]V
	sidePerm  map[sideKey]V
	hints     map[*Term][]*Term // first UTF-8 byte -> runes encoded that way
	encs      map[*Term][]V
	rwidth    map[*Term]int
	pools     map[*Agg][]chElem
	regexps   map[*Agg]*syntax.Prog
	randSeq   int
	sizeHint  int

	st Stats
}

type sideKey struct {
	p Ptr
	n string
}

type obsRec struct {
	name string
	v    V
	t    types.Type
}

type Stats struct {
	Paths, Completed, Infeasible, Redundant, Unsupported, StepLimit int
	Branches, Forced, Choices                                       int
	Asserts, AssertTrivial, AssertProved                            int
	Steps                                                           int64
	VisSteps                                                        int64
	UnknownBranches                                                 int
}

func (s *Stats) add(o Stats) {
	s.Paths += o.Paths
	s.Completed += o.Completed
	s.Infeasible += o.Infeasible
	s.Redundant += o.Redundant
	s.Unsupported += o.Unsupported
	s.StepLimit += o.StepLimit
	s.Branches += o.Branches
	s.Forced += o.Forced
	s.Choices += o.Choices
	s.Asserts += o.Asserts
	s.AssertTrivial += o.AssertTrivial
	s.AssertProved += o.AssertProved
	s.Steps += o.Steps
	s.VisSteps += o.VisSteps
	s.UnknownBranches += o.UnknownBranches
}

// ---- symbolic path operations ------------------------------------------------------

func (w *W) replaying() bool { return w.depth < len(w.prefix) }

func (w *W) setKnown(c *Term, v bool) {
	w.known[c] = v
	w.known[w.ctx.Not(c)] = !v
	w.learn(c, v)
}

func (w *W) learn(c *Term, v bool) {
	if v && c.op == OAnd {
		w.known[c.a] = true
		w.known[c.b] = true
		w.learn(c.a, true)
		w.learn(c.b, true)
		return
	}
	if !v && c.op == OOr {
		w.known[c.a] = false
		w.known[c.b] = false
		w.learn(c.a, false)
		w.learn(c.b, false)
		return
	}
	if c.op == ONot {
		w.learn(c.a, !v)
		return
	}
	if v && c.op == OEq && c.b.isC() {
		if _, ok := w.eqc[c.a]; !ok {
			w.eqc[c.a] = c.b.val
			w.eqMemo = map[*Term]int64{}
		}
	}
}

// constOf returns the value of t if it is fixed by equalities on the path.
func (w *W) constOf(t *Term) (uint64, bool) {
	if t.isC() {
		return t.val, true
	}
	if len(w.eqc) == 0 {
		return 0, false
	}
	n := 300
	return w.partial(t, &n)
}

func (w *W) partial(t *Term, budget *int) (uint64, bool) {
	if t.isC() {
		return t.val, true
	}
	if v, ok := w.eqc[t]; ok {
		return v, true
	}
	if t.sort == 0 {
		if v, ok := w.known[t]; ok {
			if v {
				return 1, true
			}
			return 0, true
		}
	}
	if t.op == OVar {
		return 0, false
	}
	if t.op >= OFAdd {
		return 0, false
	}
	if m, ok := w.eqMemo[t]; ok {
		if m < 0 {
			return 0, false
		}
		if t.sort != 64 || m != 0 {
			return uint64(m) - 1, true
		}
	}
	*budget--
	if *budget < 0 {
		return 0, false
	}
	r, ok := w.partial1(t, budget)
	if !ok {
		if *budget >= 0 {
			w.eqMemo[t] = -1
		}
	} else if r < 1<<62 {
		w.eqMemo[t] = int64(r) + 1
	}
	return r, ok
}

func (w *W) partial1(t *Term, budget *int) (uint64, bool) {
	switch t.op {
	case OAnd, OOr:
		a, ok1 := w.partial(t.a, budget)
		absorb := uint64(0)
		if t.op == OOr {
			absorb = 1
		}
		if ok1 && a == absorb {
			return a, true
		}
		b, ok2 := w.partial(t.b, budget)
		if ok2 && b == absorb {
			return b, true
		}
		if ok1 && ok2 {
			return 1 - absorb, true
		}
		return 0, false
	case OIte:
		c, ok := w.partial(t.a, budget)
		if !ok {
			return 0, false
		}
		if c == 1 {
			return w.partial(t.b, budget)
		}
		return w.partial(t.c, budget)
	}
	a, ok := w.partial(t.a, budget)
	if !ok {
		return 0, false
	}
	var b uint64
	if t.b != nil {
		b, ok = w.partial(t.b, budget)
		if !ok {
			return 0, false
		}
	}
	bo := func(c bool) (uint64, bool) {
		if c {
			return 1, true
		}
		return 0, true
	}
	switch t.op {
	case ONot:
		return 1 - a, true
	case OEq:
		return bo(a == b)
	case OUlt:
		return bo(a < b)
	case OUle:
		return bo(a <= b)
	case OSlt:
		return bo(sext(a, t.a.sort) < sext(b, t.a.sort))
	case OSle:
		return bo(sext(a, t.a.sort) <= sext(b, t.a.sort))
	case OBNot:
		return ^a & mask(t.sort), true
	case ONeg:
		return -a & mask(t.sort), true
	case OConcat:
		return a<<t.b.sort | b, true
	case OExtract:
		return a >> t.val & mask(t.sort), true
	case OZext:
		return a, true
	case OSext:
		return uint64(sext(a, t.a.sort)) & mask(t.sort), true
	}
	return evalBin(t.op, t.sort, a, b), true
}

// branch decides a symbolic condition, forking if both outcomes are feasible.
func (w *W) branch(c *Term) bool {
	if c.isC() {
		return c.val == 1
	}
	if v, ok := w.known[c]; ok {
		return v
	}
	if len(w.eqc) > 0 || c.op == OAnd || c.op == OOr {
		n := 300
		if v, ok := w.partial(c, &n); ok {
			w.known[c] = v == 1
			return v == 1
		}
	}
	if w.replaying() {
		d := w.prefix[w.depth]
		w.depth++
		w.tail = d
		v := d.val == 1
		if d.kind == 'b' {
			w.assertPC(c, v)
		} else if d.kind != 'f' {
			panic(fmt.Sprintf("replay divergence: branch at decision %d recorded %c", w.depth-1, d.kind))
		}
		w.setKnown(c, v)
		return v
	}
	if w.initMode {
		w.abort("unsupported", "symbolic branch during package initialisation")
	}
	mv := w.ctx.Eval(c, w.model) == 1
	opp := c
	if mv {
		opp = w.ctx.Not(c)
	}
	r, m := w.sol.Check(w.pc, opp, w.vars, w.model)
	w.st.Branches++
	switch r {
	case Unsat:
		w.st.Forced++
		w.record('f', mv)
	case Sat:
		alt := &node{parent: w.tail, kind: 'b', val: b2i(!mv), depth: int32(w.depth) + 1}
		w.eng.push(w, item{n: alt, model: m})
		w.record('b', mv)
		w.assertPC(c, mv)
	default:
		w.st.UnknownBranches++
		w.record('b', mv)
		w.assertPC(c, mv)
	}
	w.setKnown(c, mv)
	return mv
}

func b2i(b bool) int32 {
	if b {
		return 1
	}
	return 0
}

func (w *W) assertPC(c *Term, v bool) {
	if !v {
		c = w.ctx.Not(c)
	}
	w.pc = append(w.pc, c)
}

func (w *W) record(kind byte, v bool) {
	w.tail = &node{parent: w.tail, kind: kind, val: b2i(v), depth: int32(w.depth) + 1}
	w.depth++
	if w.depth > 20000 {
		w.abort("steps", "decision limit")
	}
}

// chooseN makes an n-way nondeterministic choice (all alternatives explored).
func (w *W) chooseN(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if w.initMode {
		return 0
	}
	if what != "choose" && what != "len" {
		w.envUsed = true
		w.envND = w.envND || what != "pool"
	}
	if w.replaying() {
		d := w.prefix[w.depth]
		w.depth++
		w.tail = d
		if what == "pool" && d.val != 0 {
			w.envND = true // not what a single-threaded sync.Pool does
		}
		if d.kind != 'c' {
			panic(fmt.Sprintf("replay divergence: choice at decision %d recorded %c", w.depth-1, d.kind))
		}
		return int(d.val)
	}
	w.st.Choices++
	base := w.tail
	for i := n - 1; i >= 1; i-- {
		alt := &node{parent: base, kind: 'c', val: int32(i), depth: int32(w.depth) + 1}
		w.eng.push(w, item{n: alt, model: w.model[:len(w.model):len(w.model)]})
	}
	w.tail = &node{parent: base, kind: 'c', val: 0, depth: int32(w.depth) + 1}
	w.depth++
	if w.depth > 20000 {
		w.abort("steps", "decision limit")
	}
	return 0
}

// concretize forks over all feasible values of t and returns this path's value.
func (w *W) concretize(t *Term) uint64 {
	for i := 0; ; i++ {
		if v, ok := w.constOf(t); ok {
			return v
		}
		if i > 4096 {
			w.abort("steps", "too many values to concretise")
		}
		var v uint64
		if w.replaying() {
			// the value guessed is recorded with the decision
			d := w.prefix[w.depth]
			if d.kind != 'v' {
				panic("replay divergence: concretize")
			}
			w.depth++
			w.tail = d
			v = w.eng.concVals(d)
		} else {
			v = w.ctx.Eval(t, w.model)
			w.tail = &node{parent: w.tail, kind: 'v', val: w.eng.internVal(v), depth: int32(w.depth) + 1}
			w.depth++
		}
		if w.branch(w.ctx.Eq(t, w.ctx.K0(t.sort, v))) {
			return v
		}
	}
}

func (w *W) conc(v V) uint64 {
	if v.T == nil {
		return v.C
	}
	return w.concretize(v.T)
}

// fresh makes a new symbolic variable; init is its value in the current model.
func (w *W) fresh(wd uint8, init uint64) *Term {
	i := len(w.vars)
	w.vars = append(w.vars, wd)
	if len(w.model) <= i {
		m := make([]uint64, i+1, i+8)
		copy(m, w.model)
		m[i] = init
		w.model = m
	}
	return w.ctx.Var(i, wd)
}

// assumeFresh adds a constraint on fresh variables known to hold in the model.
func (w *W) assumeFresh(c *Term) {
	if c.isC() {
		return
	}
	w.pc = append(w.pc, c)
	w.setKnown(c, true)
}

func (w *W) assume(c *Term) {
	if c.isC() {
		if c.val == 0 {
			w.abort("infeasible", "")
		}
		return
	}
	if v, ok := w.known[c]; ok && v {
		return
	}
	if w.ctx.Eval(c, w.model) != 1 {
		r, m := w.sol.Check(w.pc, c, w.vars, w.model)
		if r == Unknown {
			w.st.UnknownBranches++
		}
		if r != Sat {
			w.abort("infeasible", "")
		}
		w.model = m
	}
	w.pc = append(w.pc, c)
	w.setKnown(c, true)
}

// check is an assertion: the solver decides it for every value on this path.
func (w *W) check(c *Term, msg string) {
	w.st.Asserts++
	if c.isC() {
		if c.val == 1 {
			w.st.AssertTrivial++
			return
		}
		w.fail("assert", msg, nil)
	}
	if v, ok := w.known[c]; ok && v {
		w.st.AssertTrivial++
		return
	}
	if w.replaying() {
		// already decided on the path this one forked from (same path condition)
		w.setKnown(c, true)
		return
	}
	r, m := w.sol.Check(w.pc, w.ctx.Not(c), w.vars, w.model)
	switch r {
	case Unsat:
		w.st.AssertProved++
		w.setKnown(c, true)
	case Sat:
		w.fail("assert", msg, m)
	default:
		w.abort("unsupported", "solver could not decide assertion: "+msg)
	}
}

func (w *W) fail(kind, msg string, model []uint64) {
	if model == nil {
		model = w.model
	}
	w.eng.violation(w, kind, msg, model)
	panic(&pathAbort{"violation", msg})
}

func (w *W) uncaught(t *Thread, rec *panicRec) {
	w.fail("panic", fmt.Sprintf("uncaught panic in g%d: %s (raised at %s)", t.id, w.panicText(rec.val), rec.where), nil)
}

func (w *W) panicText(v V) string {
	if v.R == nil {
		return "nil"
	}
	ifc, ok := v.R.(*Iface)
	if !ok {
		return "?"
	}
	s := ifc.T.String()
	if isString(ifc.T) {
		if x, ok := concStr(ifc.V); ok {
			s += "(" + x + ")"
		}
	}
	return s
}

// ---- package initialisation ------------------------------------------------------------

var skipInit = []string{"runtime", "internal/", "syscall", "os", "reflect", "time", "testing", "net", "sync", "unsafe", "log", "golang.org/x/sys", "github.com/panjf2000", "regexp", "flag", "io/fs", "path", "crypto", "hash/maphash", "math/rand", "iter", "unique", "fmt", "errors", "runtime/debug", "encoding/json", "text/", "html/"}

func skipPkg(p string) bool {
	for _, s := range skipInit {
		if p == s || strings.HasPrefix(p, s+"/") || (strings.HasSuffix(s, "/") && strings.HasPrefix(p, s)) {
			return true
		}
	}
	return false
}

func (w *W) globalPtr(g *ssa.Global) Ptr {
	if p, ok := w.globals[g]; ok {
		return p
	}
	if g.Pkg != nil {
		w.ensureInit(g.Pkg)
		if p, ok := w.globals[g]; ok {
			return p
		}
	}
	return w.newGlobal(g)
}

func (w *W) newGlobal(g *ssa.Global) Ptr {
	if p, ok := w.globals[g]; ok {
		return p
	}
	old := w.epoch
	w.epoch = 0
	p := w.alloc(g.Type().Underlying().(*types.Pointer).Elem())
	w.epoch = old
	w.globals[g] = p
	return p
}

func (w *W) ensureInit(p *ssa.Package) {
	if w.inited[p] != 0 {
		return
	}
	w.inited[p] = 1
	path := p.Pkg.Path()
	if skipPkg(path) {
		w.inited[p] = 3
		return
	}
	f := p.Func("init")
	if f == nil {
		w.inited[p] = 2
		return
	}
	// run init concretely in permanent memory
	sv := struct {
		epoch           uint32
		im              bool
		threads         []*Thread
		live            int
		cur             *Thread
		racing          bool
		steps, maxSteps int
		cells           int
	}{w.epoch, w.initMode, w.threads, w.live, w.cur, w.racing, w.steps, w.maxSteps, w.cells}
	w.epoch, w.initMode, w.racing = 0, true, false
	w.threads, w.live = nil, 0
	w.maxSteps = 1 << 30
	w.cells = -1 << 40
	t := w.newThread("init " + path)
	fn := w.getFn(f)
	w.pushFrame(t, fn, nil, nil, -1)
	func() {
		defer func() {
			w.epoch, w.initMode, w.threads, w.live, w.cur, w.racing = sv.epoch, sv.im, sv.threads, sv.live, sv.cur, sv.racing
			w.steps, w.maxSteps, w.cells = sv.steps, sv.maxSteps, sv.cells
			if r := recover(); r != nil {
				if a, ok := r.(*pathAbort); ok {
					panic(&pathAbort{a.kind, "initialising " + path + ": " + a.msg})
				}
				panic(r)
			}
		}()
		w.run(t)
		if !t.done {
			w.abort("unsupported", "package initialisation blocked: "+path)
		}
	}()
	w.inited[p] = 2
}

// ---- running one path ------------------------------------------------------------------

func (w *W) resetPath(it item) {
	// undo writes to permanent memory
	for i := len(w.undo) - 1; i >= 0; i-- {
		u := w.undo[i]
		switch {
		case u.a != nil:
			u.a.rawset(u.i, u.v)
		case u.m != nil:
			u.m.es = u.es
			u.m.live = len(u.es)
			u.m.logged = 0
		case u.c != nil:
			*u.c = u.cs
			u.c.logged = 0
		}
	}
	w.undo = w.undo[:0]
	w.pathNo++
	w.epoch = w.pathNo
	w.cells = 0
	w.prefix = w.prefix[:0]
	if it.n != nil {
		n := int(it.n.depth)
		if cap(w.prefix) < n {
			w.prefix = make([]*node, n)
		}
		w.prefix = w.prefix[:n]
		for x := it.n; x != nil; x = x.parent {
			w.prefix[x.depth-1] = x
		}
	}
	w.depth = 0
	w.tail = nil
	w.model = it.model[:len(it.model):len(it.model)]
	w.vars = w.vars[:0:0]
	w.pc = w.pc[:0:0]
	w.known = map[*Term]bool{}
	w.eqc = map[*Term]uint64{}
	w.eqMemo = map[*Term]int64{}
	w.inputs = nil
	w.obsV = nil
	w.covers = map[string]bool{}
	w.steps = 0
	w.maxSteps, w.maxThreads = 3_000_000, 64
	w.single = false
	w.envND, w.envUsed = false, false
	w.threads = nil
	w.live = 0
	w.racing = false
	w.noRace = false
	w.mapOrder = w.mapOrderMax
	w.randState = 0
	w.sched = "full"
	w.budget = 0
	w.sleep = map[*Thread]bool{}
	w.syncVC = map[interface{}]VC{}
	w.visSteps = 0
	w.trace = nil
	w.orderAll = false
	w.nstamps, w.stamps, w.ordered, w.spans = 0, nil, nil, nil
	w.depKeys, w.depAll, w.depGlobal = nil, nil, nil
	w.side = map[sideKey]V{}
	w.hints = map[*Term][]*Term{}
	w.encs = map[*Term][]V{}
	w.rwidth = map[*Term]int{}
	w.pools = map[*Agg][]chElem{}
	w.randSeq = 0
}

func (w *W) runPath(it item) (res string) {
	w.resetPath(it)
	w.st.Paths++
	var ab *pathAbort
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(*pathAbort); ok {
					ab = a
					return
				}
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "engine panic:", r, "\n", string(debug.Stack()))
				}
				ab = &pathAbort{"unsupported", fmt.Sprintf("engine: %v at %s", r, w.whereSafe())}
			}
		}()
		t := w.newThread("main")
		w.tick(t)
		w.cur = t
		w.invoke(t, w.getFn(w.h.fn), nil, nil, -1)
		w.schedule(t)
	}()
	w.st.Steps += int64(w.steps)
	w.st.VisSteps += int64(w.visSteps)
	if ab == nil {
		w.st.Completed++
		w.eng.completed(w)
		return "ok"
	}
	switch ab.kind {
	case "infeasible":
		w.st.Infeasible++
	case "redundant":
		w.st.Redundant++
	case "violation":
	case "steps", "memory":
		w.st.StepLimit++
		w.eng.incomplete(w, ab.kind+": "+ab.msg)
		if ab.kind == "steps" && !w.envND && len(w.threads) == 1 {
			w.eng.mu.Lock()
			if len(w.eng.stuck) < 2 {
				w.eng.stuck = append(w.eng.stuck, &Violation{Harness: w.h.name, Kind: "nonterm", Msg: "does not terminate (" + ab.msg + ")", Inputs: w.eng.evalInputs(w, w.model), Where: w.whereSafe()})
			}
			w.eng.mu.Unlock()
		}
	default:
		w.st.Unsupported++
		w.eng.incomplete(w, ab.kind+": "+ab.msg)
	}
	return ab.kind
}

func (w *W) whereSafe() (s string) {
	defer func() { recover() }()
	if w.cur != nil {
		return w.where(w.cur)
	}
	return "?"
}

// ---- engine: work distribution -----------------------------------------------------------

type Engine struct {
	prog       *ssa.Program
	modPath    string
	rtErrType  types.Type
	errStrType types.Type
	redirects  map[string]*ssa.Function
	race       bool
	tracing    bool
	tier       string
	seed       int
	nworkers   int

	mu       sync.Mutex
	cond     *sync.Cond
	queues   [][]item
	busy     int
	stop     bool
	h        *Harness
	deadline time.Time

	viol        []*Violation
	maxViol     int
	incompl     map[string]int
	covers      map[string]int
	samples     []*Sample
	sampleEvery int
	ncompleted  int
	concMu      sync.Mutex
	concTab     []uint64
	concIx      map[uint64]int32
	timedOut    bool
	fnHits      map[string]*FnHit
	workers     []*W
	stuck       []*Violation // paths that hit the step limit (candidates for non-termination)
}

type FnHit struct {
	Name   string
	Calls  int
	Module bool
}

type Violation struct {
	Harness string
	Kind    string
	Msg     string
	Inputs  []InVal
	Trace   []string
	EnvND   bool
	Where   string
	Sched   string
	Prefix  []string
	Native  bool
}

type InVal struct {
	K string `json:"k"`
	V uint64 `json:"v"`
}

type Sample struct {
	Harness string
	Inputs  []InVal
	Obs     []string
	Covers  []string
	EnvND   bool
	Threads int
}

func (e *Engine) internVal(v uint64) int32 {
	e.concMu.Lock()
	defer e.concMu.Unlock()
	if i, ok := e.concIx[v]; ok {
		return i
	}
	i := int32(len(e.concTab))
	e.concTab = append(e.concTab, v)
	e.concIx[v] = i
	return i
}

func (e *Engine) concVals(n *node) uint64 {
	e.concMu.Lock()
	defer e.concMu.Unlock()
	return e.concTab[n.val]
}

func (e *Engine) isModule(p string) bool {
	return (p == e.modPath || strings.HasPrefix(p, e.modPath+"/")) && !strings.Contains(p, "/internal/zzverif")
}

func (e *Engine) push(w *W, it item) {
	e.mu.Lock()
	e.queues[w.id] = append(e.queues[w.id], it)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Engine) take(w *W) (item, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || (!e.deadline.IsZero() && time.Now().After(e.deadline)) {
			if !e.stop {
				for _, q := range e.queues {
					if len(q) > 0 {
						e.timedOut = true
					}
				}
				if e.busy > 0 {
					e.timedOut = true
				}
			}
			e.stop = true
			e.cond.Broadcast()
			return item{}, false
		}
		if q := e.queues[w.id]; len(q) > 0 {
			it := q[len(q)-1]
			e.queues[w.id] = q[:len(q)-1]
			e.busy++
			return it, true
		}
		best, bl := -1, 0
		for i, q := range e.queues {
			if len(q) > bl {
				best, bl = i, len(q)
			}
		}
		if best >= 0 {
			it := e.queues[best][0]
			e.queues[best] = e.queues[best][1:]
			e.busy++
			return it, true
		}
		if e.busy == 0 {
			e.cond.Broadcast()
			return item{}, false
		}
		e.cond.Wait()
	}
}

func (e *Engine) release() {
	e.mu.Lock()
	e.busy--
	if e.busy == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Engine) evalInputs(w *W, model []uint64) []InVal {
	var out []InVal
	for _, in := range w.inputs {
		v := in.V.C
		if in.V.T != nil {
			v = w.ctx.Eval(in.V.T, model)
		}
		out = append(out, InVal{in.Kind, v})
	}
	return out
}

func (e *Engine) violation(w *W, kind, msg string, model []uint64) {
	v := &Violation{Harness: w.h.name, Kind: kind, Msg: msg, Inputs: e.evalInputs(w, model), EnvND: w.envND || w.envUsed, Sched: w.sched, Where: w.whereSafe()}
	for _, t := range w.trace {
		v.Trace = append(v.Trace, fmt.Sprintf("g%d %s %s", t.tid, t.op, t.pos))
	}
	if len(w.threads) > 1 {
		v.EnvND = true
	}
	e.mu.Lock()
	e.viol = append(e.viol, v)
	if len(e.viol) >= e.maxViol {
		e.stop = true
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Engine) incomplete(w *W, msg string) {
	e.mu.Lock()
	if len(msg) > 300 {
		msg = msg[:300]
	}
	e.incompl[msg]++
	e.mu.Unlock()
}

func (e *Engine) completed(w *W) {
	var s *Sample
	e.mu.Lock()
	for c := range w.covers {
		e.covers[c]++
	}
	e.ncompleted++
	n := e.ncompleted
	newCover := false
	for c := range w.covers {
		if e.covers[c] == 1 {
			newCover = true
		}
	}
	take := newCover || n <= 8 || (n&(n-1)) == 0 || (n%997 == 0 && len(e.samples) < 60)
	e.mu.Unlock()
	if take {
		s = &Sample{Harness: w.h.name, EnvND: w.envND, Threads: len(w.threads)}
		s.Inputs = e.evalInputs(w, w.model)
		for _, o := range w.obsV {
			s.Obs = append(s.Obs, o.name+"="+w.fmtV(o.v, o.t, w.model))
		}
		for c := range w.covers {
			s.Covers = append(s.Covers, c)
		}
		sort.Strings(s.Covers)
		e.mu.Lock()
		e.samples = append(e.samples, s)
		e.mu.Unlock()
	}
}

func (e *Engine) verboseTrace(w *W, t *Thread) string {
	if !e.tracing {
		return ""
	}
	return w.where(t)
}

func (e *Engine) newWorker(id int) *W {
	w := &W{id: id, eng: e, typeIDs: map[types.Type]int{}, meths: map[methKey]*Fn{}, impls: map[implKey]bool{}, fnHits: map[*Fn]int{}, fns: map[*ssa.Function]*Fn{}}
	w.maxCells = 60_000_000
	w.mapOrderMax = 4
	w.reset()
	return w
}

// reset drops terms, solver and permanent memory (bounds memory growth).
func (w *W) reset() {
	if w.sol != nil {
		old := w.sol
		old.Close()
		n := NewSolver(nil, w.eng.seed, 20000)
		n.Queries, n.SatN, n.UnsatN, n.UnknownN, n.Time, n.MaxQ, n.Fallback, n.CacheN = old.Queries, old.SatN, old.UnsatN, old.UnknownN, old.Time, old.MaxQ, old.Fallback, old.CacheN
		w.sol = n
	} else {
		w.sol = NewSolver(nil, w.eng.seed, 20000)
	}
	w.ctx = NewTermCtx()
	w.sol.ctx = w.ctx
	w.sol.deadline = w.eng.deadline
	w.globals = map[*ssa.Global]Ptr{}
	w.inited = map[*ssa.Package]int{}
	w.funcVs = map[*ssa.Function]*Closure{}
	w.undo = nil
	w.sidePerm = map[sideKey]V{}
	w.regexps = map[*Agg]*syntax.Prog{}
}

func (e *Engine) explore(h *Harness, deadline time.Time) Stats {
	e.h = h
	e.deadline = deadline
	e.cond = sync.NewCond(&e.mu)
	e.queues = make([][]item, e.nworkers)
	e.busy = 0
	e.stop = false
	e.queues[0] = []item{{}}
	e.ncompleted = 0
	e.concIx = map[uint64]int32{}
	e.concTab = nil
	var wg sync.WaitGroup
	for len(e.workers) < e.nworkers {
		e.workers = append(e.workers, e.newWorker(len(e.workers)))
	}
	tick := time.AfterFunc(time.Until(deadline)+time.Second, func() { e.mu.Lock(); e.cond.Broadcast(); e.mu.Unlock() })
	defer tick.Stop()
	for _, w := range e.workers {
		w := w
		w.h = h
		w.st = Stats{}
		w.sol.deadline = deadline
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				it, ok := e.take(w)
				if !ok {
					return
				}
				w.runPath(it)
				if w.ctx.n > 1_500_000 || w.pathNo > 4_000_000_000 {
					w.reset()
				}
				e.release()
			}
		}()
	}
	wg.Wait()
	var st Stats
	for _, w := range e.workers {
		st.add(w.st)
		for fn, n := range w.fnHits {
			x := e.fnHits[fn.name]
			if x == nil {
				x = &FnHit{Name: fn.name, Module: fn.module}
				e.fnHits[fn.name] = x
			}
			x.Calls += n
		}
		w.fnHits = map[*Fn]int{}
	}
	runtime.GC()
	return st
}
