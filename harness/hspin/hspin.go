// Package hspin states what the spin lock must do.
package hspin

import (
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/chenquan/go-pkg/internal/zzverif/lin"
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xsync"
)

// guarded is a critical section over ordinary (unsynchronised) memory; it
// records when what happened.
type guarded struct {
	lock  xsync.Spinlock
	cell  int
	plans [][]section
}

// section is one lock, section, unlock; or one failed try-lock.
type section struct {
	try            bool
	got            bool
	call, ret      int // of Lock or TryLock
	in, out        int // of the section
	old, val       int // what the section found and left in the cell
	ucall, unlockd int // of Unlock
}

const inside lin.Calls = 1

func (g *guarded) sections(plan []section) {
	for i := range plan {
		s := &plan[i]
		s.call = sym.Call()
		if !s.try {
			g.lock.Lock()
			s.got = true
		} else {
			s.got = g.lock.TryLock()
		}
		s.ret = sym.Ret()
		if !s.got {
			continue
		}
		h := inside.Enter(0)
		s.in = sym.Call()
		s.old = g.cell
		g.cell = s.val
		s.out = sym.Ret()
		inside.Leave(h)
		s.ucall = sym.Call()
		g.lock.Unlock()
		s.unlockd = sym.Ret()
	}
}

// decide checks the recorded history against a lock and the cell it guards.
func (g *guarded) decide(first int) {
	sym.Assert(inside.AtMost(1), "at most one goroutine holds the lock")
	var locks, cells []lin.Op
	for _, plan := range g.plans {
		for _, s := range plan {
			s := s
			sym.Assert(s.got || s.try, "every lock call acquires")
			locks = append(locks, lin.Op{Call: s.call, Ret: s.ret, F: func(st interface{}) (interface{}, bool) {
				if s.got {
					return true, st == false
				}
				return st, st == true
			}})
			if s.got {
				locks = append(locks, lin.Op{Call: s.ucall, Ret: s.unlockd, F: func(st interface{}) (interface{}, bool) {
					return false, st == true
				}})
				cells = append(cells, lin.Op{Call: s.in, Ret: s.out, F: func(st interface{}) (interface{}, bool) {
					return s.val, st.(int) == s.old
				}})
			}
		}
	}
	sym.Assert(lin.Check(false, locks, func(st interface{}) bool { return st == false }),
		"try-lock succeeds exactly when the lock is free, and a lock call when it has become free")
	sym.Assert(lin.Check(first, cells, func(st interface{}) bool { return st.(int) == g.cell }),
		"writes made in one critical section are visible in the next")
	sym.Assert(g.lock.TryLock(), "the lock is free after the last unlock")
	g.lock.Unlock()
	sym.Cover("done")
}

// compete runs one goroutine per plan (0 = lock, 1 = try-lock).
func compete(kinds [][]int) {
	first := sym.Int()
	g := &guarded{cell: first}
	for _, k := range kinds {
		plan := make([]section, len(k))
		for i := range plan {
			plan[i] = section{try: k[i] == 1, val: sym.Int()}
		}
		g.plans = append(g.plans, plan)
	}
	var wg sync.WaitGroup
	for i := 1; i < len(g.plans); i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			g.sections(g.plans[i])
		}()
	}
	g.sections(g.plans[0])
	wg.Wait()
	g.decide(first)
}

// P24_Sequential: try-lock succeeds exactly when the lock is free.
// Bounds: 6 (thorough 8) operations lock, try-lock or unlock issued by one goroutine, lock and unlock only where they are legal.
func P24_Sequential() {
	var l xsync.Spinlock
	held := false
	for i := 0; i < 6+2*sym.Tier(); i++ {
		if sym.Choose(2) == 0 {
			ok := l.TryLock()
			sym.Assert(ok == !held, "try-lock succeeds exactly when the lock is free")
			held = true
		} else if held {
			l.Unlock()
			held = false
		} else {
			l.Lock()
			held = true
		}
	}
	sym.Cover("done")
}

// P24_Two: two goroutines with locked sections.
// Bounds: 2 goroutines, 2 sections each, any mix of lock and try-lock, any values written; every interleaving; waiting goroutines get the processor back after the others have moved.
func P24_Two() {
	sym.DecideOrders()
	compete([][]int{{sym.Choose(2), sym.Choose(2)}, {sym.Choose(2), sym.Choose(2)}})
}

// P24_Three: three goroutines.
// Bounds: 3 goroutines with 1 section each, any mix of lock and try-lock, any values written; every interleaving.
func P24_Three() {
	sym.DecideOrders()
	compete([][]int{{sym.Choose(2)}, {sym.Choose(2)}, {sym.Choose(2)}})
}

// P24_ThreeLonger: three goroutines, one with two sections.
// Bounds: 3 goroutines with 2, 1 and 1 sections, any mix of lock and try-lock, any values written; at most 2 (thorough 4) preemptions.
func P24_ThreeLonger() {
	sym.Sched("preempt", 2+2*sym.Tier())
	compete([][]int{{sym.Choose(2), sym.Choose(2)}, {sym.Choose(2)}, {sym.Choose(2)}})
}

// P24_Four: four goroutines.
// Bounds: 4 goroutines with 1 section each, any mix of lock and try-lock, any values written; at most 2 (thorough 3) preemptions.
func P24_Four() {
	sym.Sched("preempt", 2+sym.Tier())
	compete([][]int{{sym.Choose(2)}, {sym.Choose(2)}, {sym.Choose(2)}, {sym.Choose(2)}})
}

// P24_Handover: an unlock by another goroutine than the one that locked.
// Bounds: 1 waiting lock call or try-lock call, the lock released by the other goroutine at any point, any value written before; every interleaving.
func P24_Handover() {
	var l xsync.Spinlock
	l.Lock()
	data, v := 0, sym.Int()
	done := make(chan struct{})
	go func() {
		data = v
		l.Unlock()
		close(done)
	}()
	if sym.Choose(2) == 0 {
		sym.Cover("lock")
		l.Lock()
		sym.Assert(data == v, "writes made before the unlock are visible after the lock")
	} else if l.TryLock() {
		sym.Cover("try-lock got it")
		sym.Assert(data == v, "writes made before the unlock are visible after the lock")
	} else {
		sym.Cover("try-lock refused")
		<-done
		sym.Assert(l.TryLock(), "the lock is free after the unlock")
	}
	<-done
	sym.Assert(!l.TryLock(), "the lock is held")
}

// P24_TryDoesNotBlock: try-lock on a held lock returns.
// Bounds: 1 holder that never releases, 2 try-locks in each of 2 goroutines; every interleaving.
func P24_TryDoesNotBlock() {
	var l xsync.Spinlock
	l.Lock()
	done := make(chan struct{})
	go func() {
		sym.Assert(!l.TryLock() && !l.TryLock(), "try-lock fails while the lock is held")
		close(done)
	}()
	sym.Assert(!l.TryLock() && !l.TryLock(), "try-lock fails while the lock is held")
	<-done
	sym.Cover("done")
}

// P24_LongWait: a lock that is held for long.
// Bounds: 1 waiting lock call while the holder gives way 3000 (thorough 20000) times and then unlocks, or never does; round-robin scheduling.
func P24_LongWait() {
	sym.Sched("delay", 0)
	var l xsync.Spinlock
	var steps, in int32
	release := sym.Choose(2) == 0
	l.Lock()
	done := make(chan struct{})
	go func() {
		l.Lock()
		atomic.StoreInt32(&in, 1)
		close(done)
	}()
	n := 3000 + 17000*sym.Tier()
	for i := 0; i < n; i++ {
		atomic.AddInt32(&steps, 1)
		runtime.Gosched()
		sym.Assert(atomic.LoadInt32(&in) == 0, "at most one goroutine holds the lock")
	}
	if release {
		l.Unlock()
		<-done
		sym.Cover("handed over")
	}
	sym.Assert(!l.TryLock(), "the lock is held")
	sym.Cover("done")
}

// P24_Many: many goroutines and many sections.
// Bounds: 70 goroutines with 10 sections each over one counter with any start, any third of the attempts by try-lock; schedules that switch to the next goroutine after every q steps of synchronisation, q = 1..8.
func P24_Many() {
	sym.Sched("rotate", 1+sym.Choose(8))
	var l xsync.Spinlock
	start := sym.Int()
	counter, got := start, 0
	inside := int32(0)
	var wg sync.WaitGroup
	for g := 0; g < 70; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 10; i++ {
				if (g+i)%3 == 0 {
					if !l.TryLock() {
						continue
					}
				} else {
					l.Lock()
				}
				sym.Assert(atomic.AddInt32(&inside, 1) == 1, "at most one goroutine holds the lock")
				c := counter
				got++
				sym.Yield()
				counter = c + 1
				atomic.AddInt32(&inside, -1)
				l.Unlock()
			}
		}()
	}
	wg.Wait()
	sym.Assert(counter == start+got, "a section sees what the section before it wrote")
	sym.Assert(l.TryLock() && !l.TryLock(), "the lock is free when everyone has released it")
	sym.Cover("done")
}
