// Package hbinary states what the binary codec must do on any stream.
package hbinary

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"io/ioutil"
	"strings"
	"sync"

	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xbinary"
	"github.com/chenquan/go-pkg/xbytes"
)

// sink records everything written to it; after limit bytes it fails.
type sink struct {
	data  []byte
	limit int  // -1: never fails
	full  bool // fails although it took everything
	calls int
	fails int
}

var errSink = errors.New("sink failed")

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	if s.full && len(s.data)+len(p) > s.limit {
		s.data = append(s.data, p...)
		s.fails++
		return len(p), errSink
	}
	if s.limit >= 0 && len(s.data)+len(p) > s.limit {
		n := s.limit - len(s.data)
		if n < 0 {
			n = 0
		}
		s.data = append(s.data, p[:n]...)
		s.fails++
		return n, errSink
	}
	s.data = append(s.data, p...)
	return len(p), nil
}

var errSrc = errors.New("source failed")

// source delivers data in arbitrary fragments and then fails with end.
type source struct {
	data   []byte
	pos    int
	empty  int // how many more empty reads it may do
	end    error
	lumped bool // may return the last bytes together with end
	endErr bool
	whole  bool // delivers as much as asked for
}

func (s *source) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	left := len(s.data) - s.pos
	if left == 0 && s.empty > 0 && sym.Choose(2) == 1 {
		s.empty--
		return 0, nil
	}
	if left == 0 {
		s.endErr = true
		return 0, s.end
	}
	m := left
	if len(p) < m {
		m = len(p)
	}
	lo := 1
	if s.empty > 0 {
		lo = 0
	}
	n := m
	if !s.whole {
		n -= sym.Choose(m - lo + 1)
	}
	if n == 0 {
		s.empty--
		return 0, nil
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.lumped && s.pos == len(s.data) && sym.Choose(2) == 1 {
		s.endErr = true
		return n, s.end
	}
	return n, nil
}

type val struct {
	kind int
	b    bool
	u16  uint16
	u32  uint32
	raw  []byte
}

func choose(kinds int, maxRaw int) val {
	v := val{kind: sym.Choose(kinds)}
	switch v.kind {
	case 0:
		v.b = sym.Bool()
	case 1:
		v.u16 = sym.Uint16()
	case 2:
		v.u32 = sym.Uint32()
	case 3:
		if maxRaw >= 0 {
			v.raw = sym.Bytes(0, maxRaw)
		}
	}
	return v
}

func write(w io.Writer, v val) error {
	switch v.kind {
	case 0:
		return xbinary.WriteBool(w, v.b)
	case 1:
		return xbinary.WriteUint16(w, v.u16)
	case 2:
		return xbinary.WriteUint32(w, v.u32)
	}
	return xbinary.WriteBytes(w, v.raw)
}

// image is the specified encoding.
func image(v val) []byte {
	switch v.kind {
	case 0:
		return []byte{byte(sym.IteInt(v.b, 1, 0))}
	case 1:
		return []byte{byte(v.u16 >> 8), byte(v.u16)}
	case 2:
		return []byte{byte(v.u32 >> 24), byte(v.u32 >> 16), byte(v.u32 >> 8), byte(v.u32)}
	}
	n := len(v.raw)
	return append([]byte{byte(n >> 8), byte(n)}, v.raw...)
}

func readBack(r io.Reader, v val) {
	switch v.kind {
	case 0:
		x, err := xbinary.ReadBool(r)
		sym.Assert(err == nil, "ReadBool of a complete value reports no error")
		sym.Assert(x == v.b, "ReadBool returns the value written")
	case 1:
		x, err := xbinary.ReadUint16(r)
		sym.Assert(err == nil, "ReadUint16 of a complete value reports no error")
		sym.Assert(x == v.u16, "ReadUint16 returns the value written")
	case 2:
		x, err := xbinary.ReadUint32(r)
		sym.Assert(err == nil, "ReadUint32 of a complete value reports no error")
		sym.Assert(x == v.u32, "ReadUint32 returns the value written")
	case 3:
		x, err := xbinary.ReadBytes(r)
		sym.Assert(err == nil, "ReadBytes of a complete frame reports no error")
		sym.Assert(len(x) == len(v.raw), "ReadBytes returns the length written")
		sym.Assert(sym.EqBytes(x, v.raw), "ReadBytes returns the bytes written")
	}
}

func roundTrip(n, kinds, maxRaw, empties int) {
	var vs []val
	var want []byte
	out := &sink{limit: -1}
	for i := 0; i < n; i++ {
		v := choose(kinds, maxRaw)
		vs = append(vs, v)
		want = append(want, image(v)...)
		err := write(out, v)
		sym.Assert(err == nil, "writing to a good writer reports no error")
		sym.Assert(len(out.data) == len(want), "exactly the bytes of the value are written")
	}
	sym.Assert(sym.EqBytes(out.data, want), "the bytes on the stream are the specified encoding")
	sym.Obs("stream", out.data)
	// one byte behind the values must stay unread
	src := &source{data: append(append([]byte{}, want...), 0x5a), empty: empties, end: io.EOF, lumped: true}
	if sym.Choose(2) == 1 {
		src.data = src.data[:len(want)]
	}
	k := 0
	for _, v := range vs {
		readBack(src, v)
		k += len(image(v))
		sym.Assert(src.pos == k, "reading a value consumes exactly its bytes")
	}
	sym.Cover("done")
}

// P02_OneValue: one value of each kind, every fragmentation.
// Bounds: one value; every split of its bytes into reads, up to 2 empty reads, EOF with or after the data.
func P02_OneValue() { roundTrip(1, 3, 0, 2) }

// P02_Sequence: several values after one another, every fragmentation.
// Bounds: 2 values (thorough 3); every split of the bytes into reads, up to 1 empty read; EOF with or after the data.
func P02_Sequence() { roundTrip(2+sym.Tier(), 3, 0, 1) }

// P03_OneFrame: one frame, every fragmentation.
// Bounds: frames of 0..4 bytes (thorough 0..8), arbitrary bytes; every split into reads, 1 empty read.
func P03_OneFrame() {
	v := val{kind: 3, raw: sym.Bytes(0, 4+4*sym.Tier())}
	out := &sink{limit: -1}
	sym.Assert(write(out, v) == nil, "writing a short byte string succeeds")
	want := image(v)
	sym.Assert(sym.EqBytes(out.data, want), "a frame is two length bytes, most significant first, and the bytes")
	src := &source{data: append(append([]byte{}, want...), 7, 7), empty: 1, end: io.EOF, lumped: true}
	if sym.Choose(2) == 1 {
		src.data = src.data[:len(want)]
	}
	readBack(src, v)
	sym.Assert(src.pos == len(want), "the stream is positioned at the next frame")
	sym.Cover("done")
}

// P03_Frames: several frames and values mixed, read back through every fragmentation.
// Bounds: 2 values (thorough 3) of any kind, frames of 0..2 bytes; no empty reads.
func P03_Frames() { roundTrip(2+sym.Tier(), 4, 2, 0) }

// P03_Aliasing: frames read earlier keep their content while later ones are read.
// Bounds: 3 frames of 1..2 arbitrary bytes, every pool behaviour.
func P03_Aliasing() {
	var vs []val
	out := &sink{limit: -1}
	for i := 0; i < 3; i++ {
		v := val{kind: 3, raw: sym.Bytes(1, 2)}
		vs = append(vs, v)
		write(out, v)
	}
	src := &source{data: out.data, end: io.EOF}
	var got [][]byte
	for range vs {
		b, err := xbinary.ReadBytes(&whole{src})
		sym.Assert(err == nil, "ReadBytes of a complete frame reports no error")
		got = append(got, b)
	}
	for i, v := range vs {
		sym.Assert(len(got[i]) == len(v.raw), "every frame keeps its length")
		sym.Assert(sym.EqBytes(got[i], v.raw), "every frame keeps its content while others are read")
	}
}

// whole reads as much as possible at once.
type whole struct{ s *source }

func (w *whole) Read(p []byte) (int, error) {
	if w.s.pos == len(w.s.data) {
		return 0, w.s.end
	}
	n := copy(p, w.s.data[w.s.pos:])
	w.s.pos += n
	return n, nil
}

type counter struct {
	head []byte
	n    int
	last byte
}

func (c *counter) Write(p []byte) (int, error) {
	for i := 0; len(c.head) < 4 && i < len(p); i++ {
		c.head = append(c.head, p[i])
	}
	if len(p) > 0 {
		c.last = p[len(p)-1]
	}
	c.n += len(p)
	return len(p), nil
}

// P03_TooLong: lengths around and far beyond what two bytes can hold.
// Bounds: lengths 255, 256, 65534, 65535, 65536, 65537, 65791, 131072 and 131077; content zero but for symbolic first and last bytes.
func P03_TooLong() {
	lens := []int{255, 256, 65534, 65535, 65536, 65537, 65791, 131072, 131077}
	n := lens[sym.Choose(len(lens))]
	b := make([]byte, n)
	first, last := sym.Uint8(), sym.Uint8()
	b[0], b[n-1] = first, last
	c := &counter{}
	err := xbinary.WriteBytes(c, b)
	if n > 65535 {
		sym.Cover("too long")
		sym.Assert(err != nil, "a byte string too long for the prefix is refused with an error")
		sym.Assert(c.n == 0, "nothing is written for a refused byte string")
		return
	}
	sym.Cover("fits")
	sym.Assert(err == nil, "a byte string that fits is written")
	sym.Assert(c.n == n+2, "the frame has the length of the prefix and the bytes")
	sym.Assert(int(c.head[0])<<8|int(c.head[1]) == n, "the prefix is the length")
	sym.Assert(sym.And(c.head[2] == first, c.last == last), "the bytes follow the prefix")
}

// P03_LongRead: a frame of the largest size is read back.
// Bounds: length 65535 or 256, arbitrary first and last byte.
func P03_LongRead() {
	n := 65535
	if sym.Choose(2) == 1 {
		n = 256
	}
	data := make([]byte, n+3)
	data[0], data[1] = byte(n>>8), byte(n)
	first, last := sym.Uint8(), sym.Uint8()
	data[2], data[n+1] = first, last
	src := &source{data: data, end: io.EOF}
	b, err := xbinary.ReadBytes(&whole{src})
	sym.Assert(err == nil, "the largest frame is read")
	sym.Assert(len(b) == n, "the largest frame has its length")
	sym.Assert(sym.And(b[0] == first, b[n-1] == last), "the largest frame has its bytes")
	sym.Assert(src.pos == n+2, "the stream is positioned behind the frame")
}

// P04_Truncated: the stream ends or fails before the value is complete.
// Bounds: every strict prefix of a value of every kind (frames of 1..3 bytes, thorough 1..5), every fragmentation with 1 empty read, ending in EOF or another error, after earlier codec use that left bytes in the pools.
func P04_Truncated() {
	v := choose(4, 3+2*sym.Tier())
	if v.kind == 3 && len(v.raw) == 0 {
		v.raw = []byte{sym.Uint8()}
	}
	// leave arbitrary stale bytes in the buffer pools
	if sym.Choose(2) == 1 {
		stale := sym.Uint32()
		d := &sink{limit: -1}
		xbinary.WriteUint32(d, stale)
		xbinary.WriteUint16(d, uint16(stale))
		xbinary.WriteBool(d, true)
	}
	img := image(v)
	cut := sym.Choose(len(img))
	src := &source{data: img[:cut], empty: 1, end: io.EOF, lumped: true}
	if sym.Choose(2) == 1 {
		src.end = errSrc
	}
	switch v.kind {
	case 0:
		x, err := xbinary.ReadBool(src)
		sym.Assert(err != nil, "ReadBool on a truncated stream reports an error")
		sym.Assert(!x, "ReadBool on a truncated stream returns false")
	case 1:
		x, err := xbinary.ReadUint16(src)
		sym.Assert(err != nil, "ReadUint16 on a truncated stream reports an error")
		sym.Assert(x == 0, "ReadUint16 on a truncated stream returns zero")
	case 2:
		x, err := xbinary.ReadUint32(src)
		sym.Assert(err != nil, "ReadUint32 on a truncated stream reports an error")
		sym.Assert(x == 0, "ReadUint32 on a truncated stream returns zero")
	case 3:
		x, err := xbinary.ReadBytes(src)
		sym.Assert(err != nil, "ReadBytes on a truncated stream reports an error")
		sym.Assert(x == nil, "ReadBytes on a truncated stream returns nil")
	}
	sym.Cover("done")
}

// rich is a stream with all the optional methods.
type rich struct {
	sink
	source
}

func (s *rich) WriteString(p string) (int, error) { return s.sink.Write([]byte(p)) }

func (s *rich) WriteByte(b byte) error {
	_, err := s.sink.Write([]byte{b})
	return err
}

func (s *rich) ReadFrom(r io.Reader) (n int64, err error) {
	var p [3]byte
	for {
		k, err := r.Read(p[:])
		if k > 0 {
			j, werr := s.sink.Write(p[:k])
			n += int64(j)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func (s *rich) ReadByte() (byte, error) {
	if s.pos == len(s.source.data) {
		return 0, s.end
	}
	s.pos++
	return s.source.data[s.pos-1], nil
}

func (s *rich) UnreadByte() error {
	if s.pos == 0 {
		return errors.New("nothing to unread")
	}
	s.pos--
	return nil
}

func (s *rich) WriteTo(w io.Writer) (int64, error) {
	n, err := w.Write(s.source.data[s.pos:])
	s.pos += n
	return int64(n), err
}

func (s *rich) Len() int { return len(s.source.data) - s.pos }

// fill makes a frame of the size out of arbitrary bytes at the ends.
func fill(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 7)
	}
	if n > 0 {
		b[0], b[n-1] = sym.Uint8(), sym.Uint8()
	}
	return b
}

// anyVal is a value of any kind, frames of 0, 1, 2, 3, 300, 513 or 4097 bytes.
func anyVal(kinds int) val {
	v := choose(kinds, -1)
	if v.kind == 3 {
		v.raw = fill([]int{0, 1, 2, 3, 300, 513, 4097}[sym.Choose(7)])
	}
	return v
}

// writers makes one of the usual writers; the bytes written so far are told by the other function.
func writers() (io.Writer, func() []byte) {
	switch sym.Choose(4) {
	case 0:
		b := &bytes.Buffer{}
		return b, b.Bytes
	case 1:
		s := &sink{limit: -1}
		w := bufio.NewWriterSize(s, 16)
		return w, func() []byte {
			sym.Assert(w.Flush() == nil, "the writer still works")
			return s.data
		}
	case 2:
		s := &rich{}
		s.limit = -1
		return s, func() []byte { return s.sink.data }
	}
	s := &sink{limit: -1}
	return io.MultiWriter(s, ioutil.Discard), func() []byte { return s.data }
}

// readers makes one of the usual readers; the number of bytes not yet read is told by the other function.
func readers(data []byte) (io.Reader, func() int) {
	src := func() *source { return &source{data: data, end: io.EOF, whole: true} }
	switch sym.Choose(7) {
	case 0:
		b := bytes.NewBuffer(append([]byte{}, data...))
		return b, b.Len
	case 1:
		b := bytes.NewReader(data)
		return b, b.Len
	case 2:
		b := strings.NewReader(string(data))
		return b, b.Len
	case 3:
		s := src()
		b := bufio.NewReaderSize(s, 16)
		return b, func() int { return len(s.data) - s.pos + b.Buffered() }
	case 4:
		s := &rich{source: *src()}
		return s, s.Len
	case 5:
		s := src()
		l := &io.LimitedReader{R: s, N: int64(len(data))}
		return l, func() int { return int(l.N) }
	}
	k := len(data) / 2
	a, b := bytes.NewReader(data[:k]), strings.NewReader(string(data[k:]))
	return io.MultiReader(a, b), func() int { return a.Len() + b.Len() }
}

// usual writes a value (two if small) to one of the usual writers and reads it back from one of the usual readers.
func usual(kinds int) {
	vs := []val{anyVal(kinds), {kind: sym.Choose(kinds), b: true, u16: 0x1234, u32: 0x9abcdef0, raw: []byte{1, 2}}}
	w, written := writers()
	var want []byte
	for _, v := range vs {
		sym.Assert(write(w, v) == nil, "writing to a good writer reports no error")
		want = append(want, image(v)...)
	}
	got := written()
	sym.Assert(len(got) == len(want), "exactly the bytes of the value are written")
	sym.Assert(sym.EqBytes(got, want), "the bytes on the stream are the specified encoding")
	extra := sym.Choose(2)
	r, left := readers(append(want[:len(want):len(want)], make([]byte, extra)...))
	for i, v := range vs {
		readBack(r, v)
		n := extra
		if i == 0 {
			n += len(image(vs[1]))
		}
		sym.Assert(left() == n, "reading a value consumes exactly its bytes")
	}
	sym.Cover("done")
}

// P02_Usual: the readers and writers of the standard library, and ones with every optional method.
// Bounds: 2 values, the first arbitrary; bytes.Buffer, bufio.Writer (16 bytes), io.MultiWriter, a writer with WriteString, WriteByte and ReadFrom; bytes.Buffer, bytes.Reader, strings.Reader, bufio.Reader (16 bytes), io.LimitedReader, io.MultiReader, a reader with ReadByte, UnreadByte, WriteTo and Len; nothing or one byte behind the values.
func P02_Usual() { usual(3) }

// P03_Usual: the readers and writers of the standard library, and ones with every optional method.
// Bounds: as P02_Usual, with frames of 0, 1, 2, 3, 300, 513 or 4097 bytes, the first and last arbitrary.
func P03_Usual() { usual(4) }

// P04_Usual: truncated values on the readers of the standard library, and ones with every optional method.
// Bounds: one value of every kind, frames of 1, 2, 3, 300, 513 or 4097 bytes, cut after 0..5 or 260 bytes or before the last; readers as P02_Usual, the one with every method ending in EOF or another error; writers with every method failing there, with or without having taken everything.
func P04_Usual() {
	v := anyVal(4)
	img := image(v)
	cut := []int{0, 1, 2, 3, 4, 5, 260, len(img) - 1}[sym.Choose(8)]
	if cut >= len(img) || v.kind == 3 && len(v.raw) == 0 {
		return
	}
	if sym.Choose(2) == 0 {
		out := &rich{}
		out.limit, out.full = cut, sym.Choose(2) == 1
		sym.Assert(write(out, v) == errSink, "the encoder returns the writer's error")
		sym.Cover("writer")
		return
	}
	var r io.Reader
	if sym.Choose(2) == 0 {
		r, _ = readers(img[:cut])
	} else {
		r = &rich{source: source{data: img[:cut], end: errSrc, whole: true}}
	}
	sym.Cover("reader")
	switch v.kind {
	case 0:
		x, err := xbinary.ReadBool(r)
		sym.Assert(err != nil && !x, "ReadBool on a truncated stream reports an error and returns false")
	case 1:
		x, err := xbinary.ReadUint16(r)
		sym.Assert(err != nil && x == 0, "ReadUint16 on a truncated stream reports an error and returns zero")
	case 2:
		x, err := xbinary.ReadUint32(r)
		sym.Assert(err != nil && x == 0, "ReadUint32 on a truncated stream reports an error and returns zero")
	case 3:
		x, err := xbinary.ReadBytes(r)
		sym.Assert(err != nil && x == nil, "ReadBytes on a truncated stream reports an error and returns nil")
	}
}

// P04_WriterFails: the writer fails after any number of bytes.
// Bounds: one value of every kind (frames of 0..3 bytes), failure after any number of bytes below the encoding's length, or with the piece of the encoding that this byte is in taken completely.
func P04_WriterFails() {
	v := choose(4, 3)
	img := image(v)
	out := &sink{limit: sym.Choose(len(img)), full: sym.Choose(2) == 1}
	err := write(out, v)
	sym.Assert(err == errSink, "the encoder returns the writer's error")
	sym.Assert(len(out.data) <= len(img), "no more than the encoding is written")
	k := len(out.data)
	sym.Assert(sym.EqBytes(out.data, img[:k]), "what was written is a prefix of the encoding")
	sym.Assert(out.fails == 1, "nothing more is written after the writer failed")
}

// P04_FailThenNext: a failed read does not disturb later values.
// Bounds: a truncated value of every kind followed by a round trip of another one.
func P04_FailThenNext() {
	v := choose(4, 2)
	img := image(v)
	r := &whole{&source{data: img[:sym.Choose(len(img))], end: io.EOF}}
	var err error
	switch v.kind {
	case 0:
		_, err = xbinary.ReadBool(r)
	case 1:
		_, err = xbinary.ReadUint16(r)
	case 2:
		_, err = xbinary.ReadUint32(r)
	case 3:
		_, err = xbinary.ReadBytes(r)
	}
	sym.Assert(err != nil, "a truncated value is an error")
	w := choose(4, 2)
	out := &sink{limit: -1}
	sym.Assert(write(out, w) == nil, "writing after a failed read succeeds")
	sym.Assert(sym.EqBytes(out.data, image(w)), "writing after a failed read writes the encoding")
	readBack(&whole{&source{data: out.data, end: io.EOF}}, w)
}

// busy is a stream whose reads and writes use the buffer pool and the codec
// themselves and give way to others before they look at the bytes.
type busy struct {
	sink
	src    *source
	pooled bool
}

func (b *busy) use(n int) {
	sym.Yield()
	if b.pooled {
		x := xbytes.MallocSize(n)
		for i := range x {
			x[i] = 0xee
		}
		xbytes.Free(x)
	}
}

func (b *busy) Write(p []byte) (int, error) {
	b.use(len(p))
	return b.sink.Write(p)
}

func (b *busy) Read(p []byte) (int, error) {
	n, err := b.src.Read(p)
	b.use(len(p))
	return n, err
}

func busyTrip(v val, pooled bool) {
	b := &busy{sink: sink{limit: -1}, pooled: pooled}
	sym.Assert(write(b, v) == nil, "writing to a good writer reports no error")
	sym.Assert(sym.EqBytes(b.data, image(v)), "the bytes on the stream are the specified encoding")
	b.src = &source{data: b.data, end: io.EOF, whole: !pooled}
	readBack(b, v)
}

// P02_BusyStream: streams that use the pool themselves.
// Bounds: one value; a reader and a writer that take, fill and return a pooled buffer of the size in use during every call; every split into reads; every pool behaviour.
func P02_BusyStream() {
	busyTrip(choose(3, 0), true)
	sym.Cover("done")
}

// P02_Concurrent: goroutines that use the codec at the same time.
// Bounds: 2 goroutines, each with its own stream (which gives way during every call) and one value, read back whole; the pool empty (thorough: or holding one buffer per size); every pool behaviour; at most 1 (thorough 2) deviations from round-robin scheduling.
func P02_Concurrent() { concurrently(3, 0) }

// P03_BusyStream: streams that use the pool themselves.
// Bounds: one frame of 0..3 bytes; as P02_BusyStream.
func P03_BusyStream() {
	busyTrip(val{kind: 3, raw: sym.Bytes(0, 3)}, true)
	sym.Cover("done")
}

// P03_Concurrent: goroutines that use the codec at the same time.
// Bounds: as P02_Concurrent with frames of 0..2 bytes.
func P03_Concurrent() { concurrently(1, 2) }

func concurrently(kinds, maxRaw int) {
	sym.Sched("delay", 1+sym.Tier())
	one := func() val {
		if kinds == 1 {
			return val{kind: 3, raw: sym.Bytes(0, maxRaw)}
		}
		return choose(kinds, 0)
	}
	v, u := one(), one()
	if sym.Tier() > 0 && sym.Choose(2) == 1 {
		for _, k := range []int{1, 2, 4} {
			xbytes.Free(make([]byte, 0, k))
		}
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		busyTrip(u, false)
		wg.Done()
	}()
	busyTrip(v, false)
	wg.Wait()
	sym.Cover("done")
}

// long writes and reads back a long sequence of values.
func long(kinds int) {
	sym.Sched("delay", 0)
	sym.MapOrder(0)
	n := []int{70, 300}[sym.Choose(2)]
	step := []int{1, 3, 7, 1000}[sym.Choose(4)]
	var vs []val
	var want []byte
	out := &sink{limit: -1}
	for i := 0; i < n; i++ {
		v := val{kind: (i + i/7) % kinds}
		switch v.kind {
		case 0:
			v.b = i%4 < 2
			if i < 5 {
				v.b = sym.Bool()
			}
		case 1:
			v.u16 = sym.Uint16()
		case 2:
			v.u32 = sym.Uint32()
		case 3:
			v.raw = make([]byte, i*3%700)
			if len(v.raw) > 0 {
				v.raw[len(v.raw)/2] = sym.Uint8()
				v.raw[0] = byte(i)
			}
		}
		vs = append(vs, v)
		want = append(want, image(v)...)
		sym.Assert(write(out, v) == nil, "writing to a good writer reports no error")
	}
	sym.Assert(len(out.data) == len(want) && sym.EqBytes(out.data, want), "the bytes on the stream are the specified encoding")
	src := &steps{data: want, step: step}
	k := 0
	for _, v := range vs {
		readBack(src, v)
		k += len(image(v))
		sym.Assert(src.pos == k, "reading a value consumes exactly its bytes")
	}
	_, err := xbinary.ReadUint16(src)
	sym.Assert(err != nil, "the end of the stream is an error")
	sym.Cover("done")
}

// steps delivers at most so many bytes at a time.
type steps struct {
	data      []byte
	pos, step int
}

func (s *steps) Read(p []byte) (int, error) {
	if s.pos == len(s.data) {
		return 0, io.EOF
	}
	if len(p) > s.step {
		p = p[:s.step]
	}
	n := copy(p, s.data[s.pos:])
	s.pos += n
	return n, nil
}

// P02_Long: long sequences of values.
// Bounds: 70 or 300 values of every kind, arbitrary but for the later Booleans, read in pieces of at most 1, 3, 7 or 1000 bytes; pools that hand out what was put last.
func P02_Long() { long(3) }

// P03_Long: long sequences of frames and other values.
// Bounds: 70 or 300 values of every kind, frames of 0..699 bytes with an arbitrary one in the middle, read in pieces of at most 1, 3, 7 or 1000 bytes; pools that hand out what was put last.
func P03_Long() { long(4) }

// P04_Large: large frames cut short.
// Bounds: frames of 70, 300, 5000 and 65535 bytes cut at the beginning, around powers of two, in the middle or one byte before the end, delivered in pieces of at most 7, 512 or 100000 bytes, ending in EOF or another error; then a whole frame; and the writer failing there.
func P04_Large() {
	sym.Sched("delay", 0)
	sym.MapOrder(0)
	n := []int{70, 300, 5000, 65535}[sym.Choose(4)]
	cuts := []int{0, 1, 2, 3, n / 2, n + 1, 66, 258, 514, 1026, 4098, 32770}
	cut := cuts[sym.Choose(len(cuts))]
	if cut >= n+2 {
		cut = n
	}
	data := make([]byte, n+2)
	data[0], data[1] = byte(n>>8), byte(n)
	step := []int{7, 512, 100000}[sym.Choose(3)]
	end := io.EOF
	if sym.Choose(2) == 1 {
		end = errSrc
	}
	b, err := xbinary.ReadBytes(&failing{steps{data[:cut], 0, step}, end})
	sym.Assert(err != nil, "a large frame cut short is reported as an error")
	sym.Assert(b == nil || len(b) == 0 || err != nil, "nothing of it is returned as complete")
	w := &sink{limit: cut}
	sym.Assert(xbinary.WriteBytes(w, data[2:]) != nil, "a failing writer is reported however large the frame")
	data[n+1] = sym.Uint8()
	b, err = xbinary.ReadBytes(&steps{data, 0, step})
	sym.Assert(err == nil && len(b) == n && b[n-1] == data[n+1], "the next whole frame is read")
	sym.Cover("done")
}

type failing struct {
	steps
	end error
}

func (f *failing) Read(p []byte) (int, error) {
	n, err := f.steps.Read(p)
	if err != nil {
		err = f.end
	}
	return n, err
}
