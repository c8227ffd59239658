// Package hio states what pooled buffered readers and writers must guarantee.
package hio

import (
	"bufio"
	"errors"
	"io"
	"sync"

	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xio"
)

var errSrc = errors.New("source failed")

// source delivers data in chunks of at most step bytes, then end.
type source struct {
	data []byte
	pos  int
	step int
	end  error
}

func (s *source) Read(p []byte) (int, error) {
	if s.pos == len(s.data) {
		return 0, s.end
	}
	n := len(p)
	if n > s.step {
		n = s.step
	}
	if n > len(s.data)-s.pos {
		n = len(s.data) - s.pos
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	return n, nil
}

type sink struct {
	data []byte
	fail bool
}

func (s *sink) Write(p []byte) (int, error) {
	if s.fail {
		return 0, errSrc
	}
	s.data = append(s.data, p...)
	return len(p), nil
}

const defaultSize = 4096

func getR(r io.Reader, kind, size int) *bufio.Reader {
	if kind == 0 {
		b := xio.GetBufferReader(r)
		sym.Assert(b.Size() >= defaultSize, "a reader without a size has at least the default buffer")
		return b
	}
	b := xio.GetBufferReaderSize(r, size)
	sym.Assert(b.Size() >= size, "a reader's buffer is at least as large as requested")
	return b
}

func getW(w io.Writer, kind, size int) *bufio.Writer {
	if kind == 0 {
		b := xio.GetBufferWriter(w)
		sym.Assert(b.Size() >= defaultSize, "a writer without a size has at least the default buffer")
		return b
	}
	b := xio.GetBufferWriterSize(w, size)
	sym.Assert(b.Size() >= size, "a writer's buffer is at least as large as requested")
	return b
}

var sizes = []int{0, 3, 16, 20, 40}

// readAll consumes the reader byte by byte and checks content and end.
func readAll(b *bufio.Reader, want []byte, end error) {
	sym.Assert(b.Buffered() == 0, "a pooled reader starts with nothing buffered")
	for i := range want {
		c, err := b.ReadByte()
		sym.Assert(err == nil, "the reader delivers every byte of its stream")
		sym.Assert(c == want[i], "the reader delivers exactly the bytes of its stream")
	}
	_, err := b.ReadByte()
	sym.Assert(err == end, "the reader ends exactly as its stream does")
}

// P06_ReaderReuse: a reader used (partly, wholly, or to an error), returned and requested again for another stream.
// Bounds: streams of 0..3 arbitrary bytes, chunk sizes 1..3, sizes 0,3,16,20,40 or default; 2 uses in a row; every pool behaviour.
func P06_ReaderReuse() {
	a := &source{data: sym.Bytes(0, 3), step: 1 + sym.Choose(3), end: io.EOF}
	if sym.Choose(2) == 1 {
		a.end = errSrc
	}
	b := getR(a, sym.Choose(2), sizes[sym.Choose(len(sizes))])
	switch sym.Choose(4) {
	case 0:
		readAll(b, a.data, a.end)
	case 1:
		b.ReadByte()
		b.UnreadByte()
	case 2:
		b.Peek(1)
	case 3:
	}
	xio.PutBufferReader(b)
	c := &source{data: sym.Bytes(0, 3), step: 2, end: io.EOF}
	d := getR(c, sym.Choose(2), sizes[sym.Choose(len(sizes))])
	err := d.UnreadByte()
	sym.Assert(err != nil, "no byte of an earlier use can be unread")
	readAll(d, c.data, io.EOF)
	sym.Cover("done")
}

// P06_WriterReuse: a writer left with pending output or an error, returned and requested again.
// Bounds: pieces of 0..2 and 0..3 arbitrary bytes, flushed, pending or failed; sizes 0,3,16,20,40 or default; every pool behaviour.
func P06_WriterReuse() {
	a := &sink{}
	p := sym.Bytes(0, 2)
	b := getW(a, sym.Choose(2), sizes[sym.Choose(len(sizes))])
	mode := sym.Choose(3)
	b.Write(p)
	switch mode {
	case 0:
		sym.Assert(b.Flush() == nil, "flushing to a good destination succeeds")
		sym.Assert(sym.EqBytes(a.data, p), "the destination receives exactly what was written")
	case 1:
	case 2:
		a.fail = true
		b.Flush()
		a.fail = false
	}
	xio.PutBufferWriter(b)
	had := len(a.data)
	c := &sink{}
	q := sym.Bytes(0, 3)
	d := getW(c, sym.Choose(2), sizes[sym.Choose(len(sizes))])
	sym.Assert(d.Buffered() == 0, "a pooled writer starts with nothing pending")
	n, err := d.Write(q)
	sym.Assert(err == nil && n == len(q), "no error of an earlier use appears")
	sym.Assert(d.Flush() == nil, "flushing succeeds after an earlier failure elsewhere")
	sym.Assert(len(c.data) == len(q), "the destination receives exactly what was written")
	sym.Assert(sym.EqBytes(c.data, q), "the destination receives exactly what was written")
	sym.Assert(len(a.data) == had, "nothing reaches a destination after its writer was returned")
	sym.Cover("done")
}

// P06_Sizes: the size asked for is honoured whatever was pooled before.
// Bounds: up to 3 gets and puts with sizes from 0,3,16,20,40,5000 and the default, in any order; every pool behaviour.
func P06_Sizes() {
	all := []int{0, 16, 40, 5000}
	reader := sym.Choose(2) == 0
	for i := 0; i < 3; i++ {
		k := sym.Choose(2)
		size := 0
		if k == 1 {
			size = all[sym.Choose(len(all))]
		}
		if reader {
			b := getR(&source{}, k, size)
			xio.PutBufferReader(b)
		} else {
			b := getW(&sink{}, k, size)
			xio.PutBufferWriter(b)
		}
	}
	sym.Cover("done")
}

// P06_TwoBorrowers: two readers (writers) in use at once are different objects.
// Bounds: 2 objects in use at once after up to 2 returned ones; every pool behaviour.
func P06_TwoBorrowers() {
	if sym.Choose(2) == 0 {
		var old []*bufio.Reader
		for i := sym.Choose(3); i > 0; i-- {
			old = append(old, getR(&source{}, 1, 16))
		}
		for _, b := range old {
			xio.PutBufferReader(b)
		}
		x := &source{data: []byte{1, 2}, step: 9, end: io.EOF}
		y := &source{data: []byte{3, 4}, step: 9, end: io.EOF}
		a := getR(x, sym.Choose(2), 16)
		b := getR(y, sym.Choose(2), 16)
		sym.Assert(a != b, "two borrowers never hold the same reader")
		readAll(b, y.data, io.EOF)
		readAll(a, x.data, io.EOF)
		return
	}
	var old []*bufio.Writer
	for i := sym.Choose(3); i > 0; i-- {
		old = append(old, getW(&sink{}, 1, 16))
	}
	for _, b := range old {
		xio.PutBufferWriter(b)
	}
	x, y := &sink{}, &sink{}
	a := getW(x, sym.Choose(2), 16)
	b := getW(y, sym.Choose(2), 16)
	sym.Assert(a != b, "two borrowers never hold the same writer")
	a.WriteByte(1)
	b.WriteByte(2)
	a.Flush()
	b.Flush()
	sym.Assert(len(x.data) == 1 && x.data[0] == 1 && len(y.data) == 1 && y.data[0] == 2, "every writer writes to its own destination")
}

// P06_OwnStream: the caller passes a buffered stream of its own.
// Bounds: own readers and writers of buffer size 16 or 64, requested with or without size; used, returned, and requested again by another borrower.
func P06_OwnStream() {
	size := []int{16, 64}[sym.Choose(2)]
	k := sym.Choose(2)
	warm := sym.Choose(2) == 1
	if sym.Choose(2) == 0 {
		if warm {
			xio.PutBufferReader(getR(&source{}, 1, 16))
		}
		src := &source{data: []byte{1, 2, 3}, step: 9, end: io.EOF}
		own := bufio.NewReaderSize(src, size)
		b := getR(own, k, 16)
		sym.Assert(b != own, "the caller's own reader is not handed out as a pooled one")
		c, _ := b.ReadByte()
		sym.Assert(c == 1, "a pooled reader over the caller's reader delivers its bytes")
		xio.PutBufferReader(b)
		d := getR(&source{end: io.EOF}, 1, 16)
		sym.Assert(d != own, "the caller's own reader never enters the pool")
		return
	}
	if warm {
		xio.PutBufferWriter(getW(&sink{}, 1, 16))
	}
	dst := &sink{}
	own := bufio.NewWriterSize(dst, size)
	own.WriteByte(7)
	b := getW(own, k, 16)
	sym.Assert(b != own, "the caller's own writer is not handed out as a pooled one")
	b.WriteByte(8)
	b.Flush()
	xio.PutBufferWriter(b)
	d := getW(&sink{}, 1, 16)
	sym.Assert(d != own, "the caller's own writer never enters the pool")
	own.Flush()
	sym.Assert(len(dst.data) == 2 && dst.data[0] == 7 && dst.data[1] == 8, "the caller's own writer keeps working")
}

// P06_Concurrent: two goroutines borrow, use and return at the same time.
// Bounds: 2 goroutines, 2 readers (or writers) each in turn; every interleaving of pool operations, every pool behaviour.
func P06_Concurrent() {
	reader := sym.Choose(2) == 0
	var wg sync.WaitGroup
	use := func(tag byte) {
		for i := byte(0); i < 2; i++ {
			if reader {
				s := &source{data: []byte{tag, i}, step: 9, end: io.EOF}
				b := xio.GetBufferReaderSize(s, 16)
				x, _ := b.ReadByte()
				sym.Yield()
				y, _ := b.ReadByte()
				_, err := b.ReadByte()
				sym.Assert(x == tag && y == i && err == io.EOF, "concurrent borrowers read only their own stream")
				xio.PutBufferReader(b)
			} else {
				s := &sink{}
				b := xio.GetBufferWriterSize(s, 16)
				b.WriteByte(tag)
				sym.Yield()
				b.WriteByte(i)
				b.Flush()
				sym.Assert(len(s.data) == 2 && s.data[0] == tag && s.data[1] == i, "concurrent borrowers write only to their own destination")
				xio.PutBufferWriter(b)
			}
		}
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		use(1)
	}()
	use(2)
	wg.Wait()
	sym.Cover("done")
}

// P06_Many: many readers and writers in use at once and in long histories.
// Bounds: 4 goroutines with 60 uses each, up to 5 readers and 5 writers of sizes 16, 20, 300, 5000 and the default held at a time, streams of 300 bytes with an arbitrary one, left whole, partly used or failed; schedules that switch to the next goroutine after every q steps of synchronisation, q = 1..4; pools that hand out what was put last.
func P06_Many() {
	sym.Sched("rotate", 1+sym.Choose(4))
	x := sym.Uint8()
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			many := []int{16, 20, 300, 5000}
			type use struct {
				r   *bufio.Reader
				src *source
				w   *bufio.Writer
				dst *sink
				put []byte
			}
			var live []use
			for i := 0; i < 60; i++ {
				if len(live) == 10 {
					for j := len(live) - 1; j >= 0; j-- {
						u := live[j]
						if u.r != nil {
							xio.PutBufferReader(u.r)
						} else {
							u.w.Flush()
							sym.Assert(sym.EqBytes(u.dst.data, u.put), "the destination receives exactly what was written")
							xio.PutBufferWriter(u.w)
						}
					}
					live = nil
				}
				data := make([]byte, 300)
				for k := range data {
					data[k] = byte(k + i + 7*g)
				}
				data[(i*37)%300] = x
				kind, size := 1, many[(i+g)%4]
				if i%7 == 6 {
					kind = 0
				}
				if i%2 == 0 {
					s := &source{data: data, step: 1 + i*5, end: io.EOF}
					if i%3 == 0 {
						s.end = errSrc
					}
					b := getR(s, kind, size)
					if i%4 == 0 {
						readAll(b, data, s.end)
					} else {
						sym.Assert(b.Buffered() == 0, "a pooled reader starts with nothing buffered")
						c, err := b.ReadByte()
						sym.Assert(err == nil && c == data[0], "the reader delivers exactly the bytes of its stream")
					}
					live = append(live, use{r: b, src: s})
				} else {
					d := &sink{}
					b := getW(d, kind, size)
					sym.Assert(b.Buffered() == 0, "a pooled writer starts with nothing pending")
					n, err := b.Write(data)
					sym.Assert(n == len(data) && err == nil, "no error of an earlier use appears")
					if i%3 == 0 {
						sym.Assert(b.Flush() == nil, "flushing to a good destination succeeds")
						d2 := append([]byte(nil), d.data...)
						sym.Assert(sym.EqBytes(d2, data), "the destination receives exactly what was written")
						d.fail = true
						b.WriteByte(1)
						b.Flush()
						d.fail = false
						xio.PutBufferWriter(b)
					} else {
						live = append(live, use{w: b, dst: d, put: data})
					}
				}
			}
		}()
	}
	wg.Wait()
	sym.Cover("done")
}
