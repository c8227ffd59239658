From 985c02b3917e5e822caca391f4c659a75f9c98d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 01/28] fix: xmath integer max/min lose precision above 2^53 by
 going through float64

---
 xmath/xmath.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/xmath/xmath.go b/xmath/xmath.go
index 2174ab1..52b6086 100644
--- a/xmath/xmath.go
+++ b/xmath/xmath.go
@@ -20,22 +20,34 @@ import "math"
 
 // MaxInt returns the maximum value.
 func MaxInt(a, b int) int {
-	return int(math.Max(float64(a), float64(b)))
+	if a > b {
+		return a
+	}
+	return b
 }
 
 // MinInt returns minimum value.
 func MinInt(a, b int) int {
-	return int(math.Min(float64(a), float64(b)))
+	if a < b {
+		return a
+	}
+	return b
 }
 
 // MaxInt64 returns the maximum value.
 func MaxInt64(a, b int64) int64 {
-	return int64(math.Max(float64(a), float64(b)))
+	if a > b {
+		return a
+	}
+	return b
 }
 
 // MinInt64 returns minimum value.
 func MinInt64(a, b int64) int64 {
-	return int64(math.Min(float64(a), float64(b)))
+	if a < b {
+		return a
+	}
+	return b
 }
 
 // MaxFloat64 returns the maximum value.
-- 
2.43.0


From d7573a934c611b204eb10b45323b8ccd05e93fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 02/28] fix: xbinary fixed-width reads fail or return stale
 data on fragmented streams

---
 xbinary/xbinary.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index 4d6b273..4242845 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -28,6 +28,15 @@ var (
 	ErrInvalidLength = errors.New("invalid length error")
 )
 
+// readFull fills data from r, however r fragments its bytes.
+func readFull(r io.Reader, data []byte) error {
+	_, err := io.ReadFull(r, data)
+	if err == io.ErrUnexpectedEOF {
+		return ErrInvalidLength
+	}
+	return err
+}
+
 // WriteUint16 writes unit16.
 func WriteUint16(w io.Writer, i uint16) error {
 	data := xbytes.MallocSize(2)
@@ -45,13 +54,9 @@ func ReadUint16(r io.Reader) (uint16, error) {
 	data := xbytes.MallocSize(2)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
-	if err != nil {
+	if err := readFull(r, data); err != nil {
 		return 0, err
 	}
-	if n < 2 {
-		return 0, ErrInvalidLength
-	}
 	return binary.BigEndian.Uint16(data), nil
 }
 
@@ -76,8 +81,7 @@ func ReadBool(r io.Reader) (bool, error) {
 	b := xbytes.MallocSize(1)
 	defer xbytes.Free(b)
 
-	_, err := r.Read(b)
-	if err != nil {
+	if err := readFull(r, b); err != nil {
 		return false, err
 	}
 	return b[0] == 1, nil
@@ -90,13 +94,9 @@ func ReadUint32(r io.Reader) (uint32, error) {
 	data := xbytes.MallocSize(4)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
-	if err != nil {
+	if err := readFull(r, data); err != nil {
 		return 0, err
 	}
-	if n < 4 {
-		return 0, ErrInvalidLength
-	}
 	return binary.BigEndian.Uint32(data), nil
 }
 
-- 
2.43.0


From 8c71f87858cec55fb3a0f3837b43e7e36499a06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 03/28] fix: xbinary.WriteBytes truncates the length of byte
 strings above 65535 bytes

---
 xbinary/xbinary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index 4242845..715a982 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"github.com/chenquan/go-pkg/xbytes"
 	"io"
+	"math"
 )
 
 var (
@@ -119,6 +120,9 @@ func WriteUint32(w io.Writer, i uint32) error {
 
 // WriteBytes writes bytes.
 func WriteBytes(w io.Writer, s []byte) (err error) {
+	if len(s) > math.MaxUint16 {
+		return ErrInvalidLength
+	}
 	// length
 	err = WriteUint16(w, uint16(len(s)))
 	if err == nil {
-- 
2.43.0


From 36764dcc218b3f49431446137fd9e1fa5238c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 04/28] fix: xio hands out pooled streams smaller than
 requested and recycles the caller's own bufio streams

---
 xio/buffer.go | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/xio/buffer.go b/xio/buffer.go
index 13a6b34..ad74af7 100644
--- a/xio/buffer.go
+++ b/xio/buffer.go
@@ -22,6 +22,9 @@ import (
 	"sync"
 )
 
+// defaultBufSize is the buffer size of bufio.NewReader and bufio.NewWriter.
+const defaultBufSize = 4096
+
 var (
 	bufReaderPool = &sync.Pool{}
 	bufWriterPool = &sync.Pool{}
@@ -31,20 +34,29 @@ var (
 func GetBufferReaderSize(r io.Reader, size int) *bufio.Reader {
 	if v := bufReaderPool.Get(); v != nil {
 		br := v.(*bufio.Reader)
-		br.Reset(r)
-		return br
+		if br.Size() >= size {
+			br.Reset(r)
+			return br
+		}
 	}
-	return bufio.NewReaderSize(r, size)
+	// bufio.NewReaderSize may return its argument, which is not ours to recycle.
+	br := bufio.NewReaderSize(nil, size)
+	br.Reset(r)
+	return br
 }
 
 // GetBufferReader returns a bufio.Reader.
 func GetBufferReader(r io.Reader) *bufio.Reader {
 	if v := bufReaderPool.Get(); v != nil {
 		br := v.(*bufio.Reader)
-		br.Reset(r)
-		return br
+		if br.Size() >= defaultBufSize {
+			br.Reset(r)
+			return br
+		}
 	}
-	return bufio.NewReader(r)
+	br := bufio.NewReader(nil)
+	br.Reset(r)
+	return br
 }
 
 // PutBufferReader recycles a bufio.Reader.
@@ -59,20 +71,29 @@ func PutBufferReader(r *bufio.Reader) {
 func GetBufferWriterSize(w io.Writer, size int) *bufio.Writer {
 	if v := bufWriterPool.Get(); v != nil {
 		bw := v.(*bufio.Writer)
-		bw.Reset(w)
-		return bw
+		if bw.Size() >= size {
+			bw.Reset(w)
+			return bw
+		}
 	}
-	return bufio.NewWriterSize(w, size)
+	// bufio.NewWriterSize may return its argument, which is not ours to recycle.
+	bw := bufio.NewWriterSize(nil, size)
+	bw.Reset(w)
+	return bw
 }
 
 // GetBufferWriter returns a bufio.Writer.
 func GetBufferWriter(w io.Writer) *bufio.Writer {
 	if v := bufWriterPool.Get(); v != nil {
 		bw := v.(*bufio.Writer)
-		bw.Reset(w)
-		return bw
+		if bw.Size() >= defaultBufSize {
+			bw.Reset(w)
+			return bw
+		}
 	}
-	return bufio.NewWriter(w)
+	bw := bufio.NewWriter(nil)
+	bw.Reset(w)
+	return bw
 }
 
 // PutBufferWriter recycles a bufio.Writer.
-- 
2.43.0


From ff07ac01f8ba8874a12eeba958ff2fb2dc3e7b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 05/28] fix: Joiner writes a leading separator after Grow or
 Reset

---
 xstring/stringjoiner.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xstring/stringjoiner.go b/xstring/stringjoiner.go
index 3b8edb0..2fe9dfe 100644
--- a/xstring/stringjoiner.go
+++ b/xstring/stringjoiner.go
@@ -24,6 +24,8 @@ type (
 		b    *strings.Builder
 		opts *joinerOptions
 		n    int // n is length of prefix and suffix for
+
+		written bool // written reports whether a piece was written since the last reset
 	}
 	// joinerOptions a option.
 	joinerOptions struct {
@@ -132,9 +134,11 @@ func (j *Joiner) String() string {
 func (j *Joiner) tryWriteStep() {
 	if j.b == nil {
 		j.b = &strings.Builder{}
-	} else {
+	}
+	if j.written {
 		j.b.WriteString(j.opts.step)
 	}
+	j.written = true
 }
 
 // Grow grows b's capacity, if necessary, to guarantee space for
@@ -161,6 +165,7 @@ func (j *Joiner) Cap() int {
 
 // Reset resets the Builder to be empty.
 func (j *Joiner) Reset() {
+	j.written = false
 	if j.b != nil {
 		j.b.Reset()
 	}
-- 
2.43.0


From 5ac86ae5d9864353d60645b290fb2b070f68654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 06/28] fix: Rotate takes the shift modulo the number of bytes
 instead of characters

---
 xstring/xstring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 8ead1e3..1f3f6ec 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -177,7 +177,7 @@ func Rotate(s string, shift int) string {
 		return s
 	}
 
-	sLen := len(s)
+	sLen := Len(s)
 	if sLen == 0 {
 		return s
 	}
@@ -189,7 +189,7 @@ func Rotate(s string, shift int) string {
 
 	offset := -(shiftMod)
 	sb := strings.Builder{}
-	sb.Grow(sLen)
+	sb.Grow(len(s))
 	_, _ = sb.WriteString(Right(s, offset))
 	_, _ = sb.WriteString(Left(s, offset))
 
-- 
2.43.0


From 1991e0251ee7d41134588a28f8c59682455533bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 07/28] fix: Reverse refuses the valid character U+FFFD

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 1f3f6ec..5c489ce 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -286,7 +286,7 @@ func Reverse(s string) (string, error) {
 	for srcIndex > 0 {
 		r, n := utf8.DecodeLastRune(src[:srcIndex])
 
-		if r == utf8.RuneError {
+		if r == utf8.RuneError && n <= 1 {
 			return hack.BytesToString(dst), ErrDecodeChar
 		}
 
-- 
2.43.0


From 17e96c07e0dfe1806bc64d281a689f4dc0b18c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 08/28] fix: DeleteWhitespace returns the text unchanged when
 its remaining bytes equal its character count

---
 xstring/xstring.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 5c489ce..0c701d5 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -695,13 +695,16 @@ func DeleteWhitespace(str string) string {
 	builder := strings.Builder{}
 	builder.Grow(strLen)
 
+	deleted := false
 	for _, r := range str {
 		if !unicode.IsSpace(r) {
 			builder.WriteRune(r)
+		} else {
+			deleted = true
 		}
 	}
 
-	if builder.Len() == strLen {
+	if !deleted {
 		return str
 	}
 
-- 
2.43.0


From b018d2ea3a4064fb3efb11023def8acf053c04c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:11 +0000
Subject: [PATCH 09/28] fix: EqualsIgnoreCase compares texts of different
 length as different

---
 xstring/xstring.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 0c701d5..3e2e49a 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -762,7 +762,12 @@ func EqualsIgnoreCase(str1, str2 string) bool {
 		return true
 	}
 
-	return RegionMatches(str1, true, 0, str2, 0, Len(str1))
+	strLen := Len(str1)
+	if strLen != Len(str2) {
+		return false
+	}
+
+	return RegionMatches(str1, true, 0, str2, 0, strLen)
 }
 
 // EqualsAny returns ture if str exists in strings.
-- 
2.43.0


From 7cf760ad80919d9680e4cd7d7ba97ebca2029af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 10/28] fix: Abbreviate keeps the part of the text at the
 requested offset

---
 xstring/xstring.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 3e2e49a..190fa94 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -802,6 +802,9 @@ func Abbreviate(str, abbrevMarker string, offset, maxWidth int) (string, error)
 	if strLen <= maxWidth {
 		return str, nil
 	}
+	if offset < 0 {
+		offset = 0
+	}
 	if offset > strLen {
 		offset = strLen
 	}
@@ -815,12 +818,12 @@ func Abbreviate(str, abbrevMarker string, offset, maxWidth int) (string, error)
 		return empty, fmt.Errorf("minimum abbreviation width with offset is %d", minAbbrevWidthOffset)
 	}
 	if offset+maxWidth-abbrevMarkerLen < strLen {
-		substr, err := Abbreviate(Sub(str, 0, offset), abbrevMarker, 0, maxWidth-abbrevMarkerLen)
+		substr, err := Abbreviate(Right(str, offset), abbrevMarker, 0, maxWidth-abbrevMarkerLen)
 		if err == nil {
 			return abbrevMarker + substr, nil
 		}
 		return empty, err
 	}
 
-	return abbrevMarker + Sub(str, 0, strLen-(maxWidth-abbrevMarkerLen)), nil
+	return abbrevMarker + Right(str, strLen-(maxWidth-abbrevMarkerLen)), nil
 }
-- 
2.43.0


From e6bc42b47fcdb8526909c7fed2596c9487c0e6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 11/28] fix: IsNumerical accepts only a decimal point between
 the digits

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 190fa94..ddfa563 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -493,7 +493,7 @@ func Contains(s string, searchChar string) bool {
 
 // IsNumerical returns ture if a numerical.
 func IsNumerical(s string) bool {
-	reg, _ := regexp.Compile(`^\d+.?\d*$`)
+	reg, _ := regexp.Compile(`^\d+\.?\d*$`)
 	return reg.MatchString(s)
 }
 
-- 
2.43.0


From ba0330c034a7d000cb0745869fc62be93425045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 12/28] fix: Map.Clear replaces the read table without
 synchronisation

---
 xsync/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsync/map.go b/xsync/map.go
index eedd84f..08431af 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -417,7 +417,7 @@ func (m *Map) Delete(key interface{}) {
 // Clear clears all elements.
 func (m *Map) Clear() {
 	m.mu.Lock()
-	m.read = atomic.Value{}
+	m.read.Store(readOnly{})
 	m.dirty = nil
 	m.misses = 0
 	m.mu.Unlock()
-- 
2.43.0


From 1b7b10eaec662d77357a9dbe7da87373b6bf8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 13/28] fix: Map.ComputeIfPresent loses concurrent updates

---
 xsync/map.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/xsync/map.go b/xsync/map.go
index 08431af..59256be 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -357,29 +357,22 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 }
 
 func (e *entry) tryComputeIfPresent(key interface{}, computeFunc func(key, value interface{}) interface{}) (actual interface{}, exist, ok bool) {
-	p := atomic.LoadPointer(&e.p)
-	if p == expunged {
-		return nil, false, false
-	}
-	if p == nil {
-		return nil, false, true
-	}
-	i := computeFunc(key, *(*interface{})(p))
-	ic := i
-
 	for {
-		if atomic.CompareAndSwapPointer(&e.p, p, unsafe.Pointer(&ic)) {
-			return i, true, true
-		}
-		p = atomic.LoadPointer(&e.p)
+		p := atomic.LoadPointer(&e.p)
 		if p == expunged {
 			return nil, false, false
 		}
 		if p == nil {
-			return nil, false, false
+			return nil, false, true
+		}
+		// The computed value is only stored if the value it was computed from is
+		// still the current one, otherwise it must be computed again.
+		i := computeFunc(key, *(*interface{})(p))
+		ic := i
+		if atomic.CompareAndSwapPointer(&e.p, p, unsafe.Pointer(&ic)) {
+			return i, true, true
 		}
 	}
-
 }
 
 // ---------------------------
-- 
2.43.0


From f4345770e718ec3304db0e47d4e2ecf330ab7199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 14/28] fix: a panicking compute function leaves the Map locked

---
 xsync/map.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xsync/map.go b/xsync/map.go
index 59256be..95aa6d7 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -275,6 +275,8 @@ func (m *Map) ComputeIfAbsent(key interface{}, computeFunc func(key interface{})
 		}
 	}
 	m.mu.Lock()
+	// computeFunc may panic
+	defer m.mu.Unlock()
 	read, _ = m.read.Load().(readOnly)
 	if e, ok := read.m[key]; ok {
 		if e.unexpungeLocked() {
@@ -295,7 +297,6 @@ func (m *Map) ComputeIfAbsent(key interface{}, computeFunc func(key interface{})
 		m.dirty[key] = newEntry(value)
 		actual, loaded = value, false
 	}
-	m.mu.Unlock()
 	return actual, loaded
 }
 
@@ -340,6 +341,8 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 		}
 	}
 	m.mu.Lock()
+	// computeFunc may panic
+	defer m.mu.Unlock()
 	read, _ = m.read.Load().(readOnly)
 	if e, ok := read.m[key]; ok {
 		if e.unexpungeLocked() {
@@ -352,7 +355,6 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 	} else {
 		actual, exist = nil, false
 	}
-	m.mu.Unlock()
 	return actual, exist
 }
 
-- 
2.43.0


From 7e633b7cbf41b86019912ae572c37b9df5570f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 15/28] fix: NewSharedMap accepts negative shard counts by
 truncating them to 32 bits

---
 xsync/shared_map.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsync/shared_map.go b/xsync/shared_map.go
index 631df56..691dce4 100644
--- a/xsync/shared_map.go
+++ b/xsync/shared_map.go
@@ -27,7 +27,7 @@ type (
 	}
 	// sharedMapOptions configuration of SharedMap.
 	sharedMapOptions struct {
-		shardBlockSize uint32
+		shardBlockSize int
 	}
 	// SharedMapOption configuration function of SharedMap.
 	SharedMapOption func(*sharedMapOptions)
@@ -36,7 +36,7 @@ type (
 // WithShardBlockSize returns a configuration that sets the size of the number of segments.
 func WithShardBlockSize(shardBlockSize int) SharedMapOption {
 	return func(sharedMapOptions *sharedMapOptions) {
-		sharedMapOptions.shardBlockSize = uint32(shardBlockSize)
+		sharedMapOptions.shardBlockSize = shardBlockSize
 	}
 }
 
@@ -48,10 +48,10 @@ func NewSharedMap(opts ...SharedMapOption) *SharedMap {
 		opt(options)
 	}
 
-	if options.shardBlockSize <= 0 {
+	if options.shardBlockSize <= 0 || uint64(options.shardBlockSize) > 1<<31 {
 		panic("error")
 	}
-	blockSize := getShardBlockSize(options.shardBlockSize)
+	blockSize := getShardBlockSize(uint32(options.shardBlockSize))
 	b := make([]*SharedBlockMap, blockSize)
 	for i := uint32(0); i < blockSize; i++ {
 		b[i] = &Map{}
-- 
2.43.0


From 3f173c887b0f9e3cf29865a26bb65bb965b7a729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 16/28] fix: xonce.Value.Write panics for nil and for values of
 different types

---
 xonce/value.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xonce/value.go b/xonce/value.go
index d7357f1..4b24b9b 100644
--- a/xonce/value.go
+++ b/xonce/value.go
@@ -25,6 +25,11 @@ type Value struct {
 	v atomic.Value
 }
 
+// box gives all values the same type, as atomic.Value requires, and allows nil.
+type box struct {
+	v interface{}
+}
+
 // NewValue returns a Value.
 func NewValue() *Value {
 	return &Value{}
@@ -32,10 +37,11 @@ func NewValue() *Value {
 
 // Write writes a v.
 func (val *Value) Write(v interface{}) (success bool) {
-	return val.v.CompareAndSwap(nil, v)
+	return val.v.CompareAndSwap(nil, box{v})
 }
 
 // Value return a v.
 func (val *Value) Value() interface{} {
-	return val.v.Load()
+	b, _ := val.v.Load().(box)
+	return b.v
 }
-- 
2.43.0


From aca37e402d14ee901ac842fcbd29e039205a5151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 17/28] fix: ResourceManager.Get crashes and leaks the resource
 when the manager is closed meanwhile

---
 xsync/resourcemanager.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/xsync/resourcemanager.go b/xsync/resourcemanager.go
index fecea48..0647f93 100644
--- a/xsync/resourcemanager.go
+++ b/xsync/resourcemanager.go
@@ -17,12 +17,16 @@
 package xsync
 
 import (
+	"errors"
 	"github.com/chenquan/go-pkg/xerror"
 	"golang.org/x/sync/singleflight"
 	"io"
 	"sync"
 )
 
+// errResourceManagerClosed is returned when a resource is created for a closed manager.
+var errResourceManagerClosed = errors.New("resource manager is closed")
+
 // ResourceManager is a resource manager.
 type ResourceManager struct {
 	rw           sync.RWMutex
@@ -69,9 +73,19 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 		}
 
 		m.rw.Lock()
-		m.resources[key] = resource
+		closed := m.resources == nil
+		if !closed {
+			m.resources[key] = resource
+		}
 		m.rw.Unlock()
 
+		if closed {
+			var be xerror.BatchError
+			be.Add(errResourceManagerClosed)
+			be.Add(resource.Close())
+			return nil, be.Err()
+		}
+
 		return resource, nil
 	})
 	if err != nil {
-- 
2.43.0


From 13b9ba9d12af66e5a54201891d9102cd7cb2946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 18/28] fix: DoWithRetry reports success without calling the
 function when the retry count is negative

---
 xtask/retry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xtask/retry.go b/xtask/retry.go
index c0f9430..62e95f2 100644
--- a/xtask/retry.go
+++ b/xtask/retry.go
@@ -43,6 +43,10 @@ func DoWithRetry(fn func() error, opts ...RetryOption) error {
 		opt(options)
 	}
 
+	if options.times < 0 {
+		options.times = 0
+	}
+
 	var batchError xerror.BatchError
 	for i := 0; i <= options.times; i++ {
 		if err := fn(); err != nil {
-- 
2.43.0


From 5f3849d6148869da62feccb3b796547b82133657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 19/28] fix: barrier reads and writes ignore the end of the
 context once blocked, and reads of a closed channel report success

---
 xbarrier/readbarrier.go  | 8 +++++++-
 xbarrier/writebarrier.go | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/xbarrier/readbarrier.go b/xbarrier/readbarrier.go
index 3cbaa7c..7e16eca 100644
--- a/xbarrier/readbarrier.go
+++ b/xbarrier/readbarrier.go
@@ -41,6 +41,12 @@ func (r *ReadBarrier) Read() (val interface{}, success bool) {
 	case <-r.ctx.Done():
 		return nil, false
 	default:
-		return <-r.readChannel, true
+	}
+
+	select {
+	case <-r.ctx.Done():
+		return nil, false
+	case val, success = <-r.readChannel:
+		return
 	}
 }
diff --git a/xbarrier/writebarrier.go b/xbarrier/writebarrier.go
index d5f7d0d..911d9e7 100644
--- a/xbarrier/writebarrier.go
+++ b/xbarrier/writebarrier.go
@@ -46,7 +46,12 @@ func (w *WriteBarrier) Write(v interface{}) (success bool) {
 	case <-w.ctx.Done():
 		return
 	default:
-		w.writeChannel <- v
+	}
+
+	select {
+	case <-w.ctx.Done():
+		return
+	case w.writeChannel <- v:
 		return true
 	}
 }
-- 
2.43.0


From 725b8bdc5de3cfc9933361642a7be3d767bd0c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 20/28] fix: xmapreduce blocks forever or panics with a worker
 size below one

---
 xmapreduce/xmapreduce.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmapreduce/xmapreduce.go b/xmapreduce/xmapreduce.go
index 7cf6d5d..fb46db9 100644
--- a/xmapreduce/xmapreduce.go
+++ b/xmapreduce/xmapreduce.go
@@ -56,6 +56,9 @@ func loadOption(opts ...Option) *options {
 	for _, option := range opts {
 		option(opt)
 	}
+	if opt.workerSize < 1 {
+		opt.workerSize = 1
+	}
 
 	return opt
 }
-- 
2.43.0


From eb73e7a319078131971e478c758ebb272cb4e590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 21/28] fix: a cancelled map-reduce crashes late writers and
 leaves the generator blocked

---
 xmapreduce/xmapreduce.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/xmapreduce/xmapreduce.go b/xmapreduce/xmapreduce.go
index fb46db9..7a7b4b1 100644
--- a/xmapreduce/xmapreduce.go
+++ b/xmapreduce/xmapreduce.go
@@ -103,17 +103,28 @@ func doMap(ctx context.Context, mapFunc MapFunc, source <-chan interface{}, coll
 	for {
 		select {
 		case <-ctx.Done():
+			// do not leave the generator blocked.
+			go drain(source)
 			return
 		case item, ok := <-source:
 			if !ok {
 				return
 			}
 			waitGroup.Add(1)
-			worker.Run(ctx, func() {
-				mapFunc(item, writer)
+			// the collector must stay open until every running mapFunc has returned,
+			// so the end of ctx only keeps further items from being started.
+			worker.Run(context.Background(), func() {
+				if ctx.Err() == nil {
+					mapFunc(item, writer)
+				}
 			}, func() {
 				waitGroup.Done()
 			})
 		}
 	}
 }
+
+func drain(source <-chan interface{}) {
+	for range source {
+	}
+}
-- 
2.43.0


From ed66f8f531b2f678fe93e9a7f5c18f73116d516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 22/28] fix: Stream.Tail loses everything when the number of
 elements asked for cannot be allocated

---
 xstream/ring.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xstream/ring.go b/xstream/ring.go
index 9359931..aa3d3f1 100644
--- a/xstream/ring.go
+++ b/xstream/ring.go
@@ -18,18 +18,22 @@ package xstream
 
 type ring struct {
 	elements []interface{}
+	size     uint
 	index    int
 }
 
 // newRing returns a ring object with the given size n.
 func newRing(n uint) *ring {
-	return &ring{elements: make([]interface{}, n)}
+	return &ring{size: n}
 }
 
 // add adds v into r.
 func (r *ring) add(v interface{}) {
-
-	r.elements[r.index%len(r.elements)] = v
+	if uint(len(r.elements)) < r.size {
+		r.elements = append(r.elements, v)
+	} else {
+		r.elements[r.index%len(r.elements)] = v
+	}
 	r.index++
 }
 
-- 
2.43.0


From edf0315994dc53d849772de81329d868c3bce802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 23/28] fix: Stream.SplitSteam blocks its consumer when the
 chunk size cannot be allocated

---
 xstream/xstream.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index dbcda1a..5a3b3f1 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -217,20 +217,24 @@ func (s *Stream) SplitSteam(n int) *Stream {
 	}
 	source := make(chan interface{})
 	startGoroutine(func() {
-		var chunkSource = make(chan interface{}, n)
+		var chunk []interface{}
+		send := func() {
+			chunkSource := make(chan interface{}, len(chunk))
+			for _, item := range chunk {
+				chunkSource <- item
+			}
+			close(chunkSource)
+			source <- Range(chunkSource)
+			chunk = nil
+		}
 		for item := range s.source {
-			chunkSource <- item
-			if len(chunkSource) == n {
-
-				source <- Range(chunkSource)
-				close(chunkSource)
-
-				chunkSource = make(chan interface{}, n)
+			chunk = append(chunk, item)
+			if len(chunk) == n {
+				send()
 			}
 		}
-		if len(chunkSource) != 0 {
-			source <- Range(chunkSource)
-			close(chunkSource)
+		if len(chunk) != 0 {
+			send()
 		}
 		close(source)
 	})
-- 
2.43.0


From 1fdabe70e109518fba46c81a796c66f5448f5ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 24/28] fix: Split and Limit leave the source blocked when they
 refuse their argument

---
 xstream/xstream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index 5a3b3f1..22347ca 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -187,6 +187,9 @@ func (s *Stream) Chan() <-chan interface{} {
 // Split Returns a split Stream that contains multiple slices of chunk size n.
 func (s *Stream) Split(n int) *Stream {
 	if n < 1 {
+		startGoroutine(func() {
+			drain(s.source)
+		})
 		panic("n should be greater than 0")
 	}
 	source := make(chan interface{})
@@ -321,6 +324,9 @@ func (s *Stream) Limit(size int) *Stream {
 		return Empty()
 	}
 	if size < 0 {
+		startGoroutine(func() {
+			drain(s.source)
+		})
 		panic("size must be greater than -1")
 	}
 	source := make(chan interface{})
-- 
2.43.0


From 69d145f3d6438a8d4ada6842435df6742fec1871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 25/28] fix: a panicking function blocks the consumer of Peek
 and the source of Distinct

---
 xstream/xstream.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index 22347ca..04b0503 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -136,6 +136,7 @@ func (s *Stream) Distinct(f KeyFunc) *Stream {
 	source := make(chan interface{})
 
 	startGoroutine(func() {
+		defer drain(s.source)
 		defer close(source)
 
 		unique := make(map[interface{}]struct{})
@@ -599,11 +600,12 @@ func (s *Stream) FindLast() (result interface{}, err error) {
 func (s *Stream) Peek(f ForEachFunc) *Stream {
 	source := make(chan interface{})
 	startGoroutine(func() {
+		defer drain(s.source)
+		defer close(source)
 		for item := range s.source {
 			source <- item
 			f(item)
 		}
-		close(source)
 	})
 
 	return Range(source)
-- 
2.43.0


From 104c1c98cfb510861fa375558ab57c690bad7c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 26/28] fix: Stream.Copy crashes on a negative buffer size and
 leaves the source blocked

---
 xstream/xstream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index 04b0503..0f8b178 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -617,6 +617,9 @@ func (s *Stream) Copy(streamParam map[string]int) (streamMap map[string]*Stream)
 	streamMap = map[string]*Stream{}
 	channels := make([]chan interface{}, 0, len(streamParam))
 	for name, bufferSize := range streamParam {
+		if bufferSize < 0 {
+			bufferSize = 0
+		}
 		c := make(chan interface{}, bufferSize)
 		streamMap[name] = Range(c)
 		channels = append(channels, c)
-- 
2.43.0


From a3557cd0847afc8883e873b910a2c09319595c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:14 +0000
Subject: [PATCH 27/28] fix: ResourceManager.Get returns a removed resource or
 an old failure to a later caller

A get that joined the flight of an earlier one after its result had been
determined, but before singleflight forgot it, shared an outdated result: a
resource removed (or closed) in between, or an error without a new attempt.
---
 xsync/resourcemanager.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xsync/resourcemanager.go b/xsync/resourcemanager.go
index 0647f93..574acf3 100644
--- a/xsync/resourcemanager.go
+++ b/xsync/resourcemanager.go
@@ -62,6 +62,10 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 
 		m.rw.RLock()
 		resource, ok := m.resources[key]
+		if ok {
+			// Callers from now on must not share this result, the resource may have been removed by then.
+			m.singleFlight.Forget(key)
+		}
 		m.rw.RUnlock()
 		if ok {
 			return resource, nil
@@ -69,10 +73,12 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 
 		resource, err := create()
 		if err != nil {
+			m.singleFlight.Forget(key)
 			return nil, err
 		}
 
 		m.rw.Lock()
+		m.singleFlight.Forget(key)
 		closed := m.resources == nil
 		if !closed {
 			m.resources[key] = resource
-- 
2.43.0


From 81f6c1928794bb483676be50914214b8574485de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:19 +0000
Subject: [PATCH 28/28] fix: Do blocks forever when the function panics with
 nil or ends its goroutine

---
 xtask/do.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/xtask/do.go b/xtask/do.go
index 82a0c00..99196b6 100644
--- a/xtask/do.go
+++ b/xtask/do.go
@@ -19,6 +19,7 @@ package xtask
 import (
 	"context"
 	"fmt"
+	"runtime"
 	"runtime/debug"
 	"strings"
 	"time"
@@ -38,20 +39,42 @@ func Do(ctx context.Context, do func() error, deferFunc func()) (err error) {
 
 	doneChan := make(chan error, 1)
 	panicChan := make(chan interface{}, 1)
+	exitChan := make(chan struct{})
 
 	go func() {
+		var p interface{}
+		returned, exited := false, true
 		defer func() {
-			if r := recover(); r != nil {
-				panicChan <- fmt.Sprintf("%+v\n\n%s", r, strings.TrimSpace(string(debug.Stack())))
+			if exited {
+				// do called runtime.Goexit.
+				close(exitChan)
 			}
 		}()
 
-		doneChan <- do()
+		func() {
+			defer func() {
+				if !returned {
+					// the value is nil for panic(nil).
+					p = fmt.Sprintf("%+v\n\n%s", recover(), strings.TrimSpace(string(debug.Stack())))
+				}
+			}()
+
+			err := do()
+			returned = true
+			doneChan <- err
+		}()
+
+		exited = false
+		if !returned {
+			panicChan <- p
+		}
 	}()
 
 	select {
 	case p := <-panicChan:
 		panic(p)
+	case <-exitChan:
+		runtime.Goexit()
 	case err = <-doneChan:
 		return
 	case <-ctx.Done():
-- 
2.43.0

