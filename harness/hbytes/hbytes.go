// Package hbytes states what the pooled byte buffers must guarantee.
package hbytes

import (
	"sync"

	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xbytes"
)

// buf is a buffer in use and what its owner last wrote over its whole capacity.
type buf struct {
	b   []byte
	tag byte
}

func shape(b []byte, size, capacity int) {
	c := size
	if capacity > c {
		c = capacity
	}
	sym.Assert(b != nil || size == 0, "a buffer is returned")
	sym.Assert(len(b) == size, "the buffer has the requested length")
	sym.Assert(cap(b) == c, "the capacity is the larger of size and capacity")
}

// own fills the whole capacity with the owner's tag.
func own(b []byte, tag byte) *buf {
	f := b[:cap(b)]
	for i := range f {
		f[i] = tag
	}
	return &buf{b, tag}
}

func (o *buf) check(when string) {
	f := o.b[:cap(o.b)]
	for i := range f {
		sym.Assert(f[i] == o.tag, "a buffer in use changes only through its owner, "+when)
	}
}

// P05_Shape: sizes and capacities of every kind.
// Bounds: sizes and capacities from 0..9, 15..17, 31..33, 63..65, 255..257, 1000, 1024, 1025, 4096, 65535..65537, 1<<20, 1<<20+1, 1<<24+1 (all pairs with a negative or smaller capacity included), allocated twice with a free in between.
func P05_Shape() {
	vals := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 1000, 1024, 1025, 4096, 65535, 65536, 65537, 1 << 20, 1<<20 + 1, 1<<24 + 1}
	size := vals[sym.Choose(len(vals))]
	k := sym.Choose(len(vals) + 2)
	capacity := -1
	if k == len(vals)+1 {
		b := xbytes.MallocSize(size)
		shape(b, size, size)
		xbytes.Free(b)
		shape(xbytes.MallocSize(size), size, size)
		sym.Cover("size only")
		return
	}
	if k < len(vals) {
		capacity = vals[k]
	}
	b := xbytes.Malloc(size, capacity)
	shape(b, size, capacity)
	xbytes.Free(b)
	shape(xbytes.Malloc(size, capacity), size, capacity)
	sym.Cover("size and capacity")
}

// P05_SymbolicShape: the size is any small number.
// Bounds: size 0..6 and capacity -3..8 as solver variables, concretised where the code allocates.
func P05_SymbolicShape() {
	size, capacity := sym.IntRange(0, 6), sym.IntRange(-3, 8)
	shape(xbytes.Malloc(size, capacity), size, capacity)
}

// P05_Histories: every short history of allocations and frees.
// Bounds: 5 steps (thorough 6), sizes 0..2 and capacities 0..3, any live buffer freed (whole, or resliced to length 0 or full capacity, or grown by append), foreign buffers donated; every pool behaviour.
func P05_Histories() {
	var live []*buf
	tag := byte(0)
	steps := 5 + sym.Tier()
	for i := 0; i < steps; i++ {
		k := sym.Choose(1 + len(live))
		if k == 0 {
			size := sym.Choose(3)
			capacity := 0
			var b []byte
			switch sym.Choose(3) {
			case 0:
				b = xbytes.MallocSize(size)
			case 1:
				capacity = 2
				b = xbytes.Malloc(size, capacity)
			case 2:
				capacity = 3
				b = xbytes.Malloc(size, capacity)
			}
			shape(b, size, capacity)
			tag++
			live = append(live, own(b, tag))
		} else {
			o := live[k-1]
			live = append(live[:k-1:k-1], live[k:]...)
			b := o.b
			if i%2 == 1 {
				b = b[:0]
			}
			xbytes.Free(b)
		}
		for _, o := range live {
			o.check("whatever is allocated and freed")
		}
	}
	sym.Cover("done")
}

// P05_Donated: freeing buffers of foreign origin or changed shape.
// Bounds: buffers of capacity 1..3 made by the caller, grown by append or sliced in length, freed, then two allocations of every size 0..3.
func P05_Donated() {
	n := 1 + sym.Choose(3)
	var b []byte
	switch sym.Choose(3) {
	case 0:
		b = make([]byte, n, 3)
	case 1:
		b = append(xbytes.MallocSize(n), 9, 9, 9)
	case 2:
		b = xbytes.Malloc(n, 3)[:1]
	}
	xbytes.Free(b)
	s1, s2 := sym.Choose(4), sym.Choose(4)
	x := xbytes.Malloc(s1, 3)
	shape(x, s1, 3)
	ox := own(x, 1)
	y := xbytes.MallocSize(s2)
	shape(y, s2, s2)
	oy := own(y, 2)
	z := xbytes.Malloc(s2, 3)
	shape(z, s2, 3)
	oz := own(z, 3)
	ox.check("after donations")
	oy.check("after donations")
	oz.check("after donations")
}

func worker(sizes []int, tag byte, out *[]*buf) {
	for i, s := range sizes {
		b := xbytes.MallocSize(s)
		shape(b, s, s)
		o := own(b, tag+byte(i))
		sym.Yield()
		o.check("used by several goroutines")
		if i+1 < len(sizes) {
			xbytes.Free(b)
		} else {
			*out = append(*out, o)
		}
	}
}

func together(sched string, n int, work [][]int) {
	sym.Sched(sched, n)
	outs := make([][]*buf, len(work))
	var wg sync.WaitGroup
	for i := range work {
		i := i
		if i == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			worker(work[i], byte(16*i), &outs[i])
		}()
	}
	worker(work[0], 0, &outs[0])
	wg.Wait()
	for _, os := range outs {
		for _, o := range os {
			o.check("after all goroutines allocated")
		}
	}
	sym.Cover("done")
}

// mode explores every interleaving in the thorough tier and those with at most
// n preemptions in the quick one.
func mode(n int) (string, int) {
	if sym.Tier() == 1 {
		return "full", 0
	}
	return "preempt", n
}

// P05_ConcurrentFirst: two goroutines allocate the same new size at once.
// Bounds: 2 goroutines, 1 allocation each; every interleaving.
func P05_ConcurrentFirst() { together("full", 0, [][]int{{2}, {2}}) }

// P05_ConcurrentMixed: goroutines allocate, free and allocate again, equal and different sizes.
// Bounds: 2 goroutines, 2 allocations and a free each; at most 3 preemptions (thorough: every interleaving, as far as the time allows).
func P05_ConcurrentMixed() {
	m, n := mode(3)
	together(m, n, [][]int{{1, 2}, {2, 2}})
}

// P05_ConcurrentThree: three goroutines allocate the same new size.
// Bounds: 3 goroutines, 1 allocation each; at most 2 preemptions (thorough: every interleaving).
func P05_ConcurrentThree() {
	m, n := mode(2)
	together(m, n, [][]int{{3}, {3}, {3}})
}

// P05_Handover: buffers pass through the pool between goroutines while others allocate.
// Bounds: a freed buffer in the pool, 2 goroutines allocating the same size; every interleaving.
func P05_Handover() {
	xbytes.Free(own(xbytes.MallocSize(2), 99).b)
	together("full", 0, [][]int{{2}, {2}})
}

// P05_Many: many buffers in use at once, many sizes, long histories.
// Bounds: 4 goroutines that each hold up to 40 buffers of 30 sizes (0..29, or around 1000, 4096 and 65536) through 300 allocations and frees, with buffers grown, resliced or foreign freed as well; schedules that switch to the next goroutine after every q steps of synchronisation, q = 1..8; pools that hand out what was put last.
func P05_Many() {
	sym.Sched("rotate", 1+sym.Choose(8))
	sym.MapOrder(0)
	base := []int{0, 1000, 4090, 65530}[sym.Choose(4)]
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			type held struct {
				b   []byte
				tag byte
			}
			var live []held
			mark := func(b []byte, tag byte) {
				f := b[:cap(b)]
				if len(f) > 0 {
					f[0], f[len(f)-1], f[len(f)/2] = tag, tag, tag
				}
			}
			check := func(h held) {
				f := h.b[:cap(h.b)]
				if len(f) > 0 {
					sym.Assert(f[0] == h.tag && f[len(f)-1] == h.tag && f[len(f)/2] == h.tag, "a buffer in use changes only through its owner, however many there are")
				}
			}
			r := uint32(g + 1)
			next := func(n int) int {
				r = r*1664525 + 1013904223
				return int(r>>8) % n
			}
			for i := 0; i < 300; i++ {
				if len(live) < 40 && next(5) < 3 || len(live) == 0 {
					size, capacity := base+next(30), base+next(30)
					if base > 60000 && next(4) > 0 {
						size, capacity = next(10), next(10)
					}
					var b []byte
					if next(2) == 0 {
						b = xbytes.MallocSize(size)
						capacity = size
					} else {
						b = xbytes.Malloc(size, capacity)
					}
					shape(b, size, capacity)
					h := held{b, byte(1 + (i*4+g)%251)}
					mark(b, h.tag)
					live = append(live, h)
					continue
				}
				k := next(len(live))
				h := live[k]
				live = append(live[:k], live[k+1:]...)
				check(h)
				switch next(4) {
				case 0:
					h.b = h.b[:0]
				case 1:
					h.b = h.b[:cap(h.b)]
				case 2:
					if next(3) == 0 {
						h.b = make([]byte, next(8), 8+next(8))
					}
				}
				xbytes.Free(h.b)
			}
			for _, h := range live {
				check(h)
			}
		}()
	}
	wg.Wait()
	sym.Cover("done")
}
