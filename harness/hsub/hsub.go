// Package hsub states what selecting, padding, moving and deleting characters must do.
package hsub

import (
	"unicode"
	"unicode/utf8"

	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xstring"
)

func same(got, want string, msg string) {
	sym.Assert(len(got) == len(want), msg)
	sym.Assert(got == want, msg)
}

// clamp turns an index argument into a position in 0..n.
func clamp(i, n int) int {
	if i < 0 {
		i += n
		if i < 0 {
			return 0
		}
		return i
	}
	if i > n {
		return n
	}
	return i
}

func part(r []rune, start, end int) string {
	s, e := clamp(start, len(r)), clamp(end, len(r))
	if s >= e {
		return ""
	}
	return string(r[s:e])
}

// P10_Sub: every pair of indices.
// Bounds: texts of 0..3 arbitrary characters (thorough 0..4); both indices any 64-bit integer.
func P10_Sub() {
	s := sym.UStr(0, 3+sym.Tier())
	a, b := sym.Int(), sym.Int()
	got := xstring.Sub(s, a, b)
	same(got, part([]rune(s), a, b), "Sub returns the characters from start up to end")
	sym.Obs("sub", got)
}

// P10_LeftRight: every index.
// Bounds: texts of 0..3 arbitrary characters (thorough 0..5); the index any 64-bit integer.
func P10_LeftRight() {
	s := sym.UStr(0, 3+2*sym.Tier())
	r := []rune(s)
	k := sym.Int()
	l, rt := xstring.Left(s, k), xstring.Right(s, k)
	c := clamp(k, len(r))
	same(l, string(r[:c]), "Left returns the characters before the index")
	same(rt, string(r[c:]), "Right returns the characters from the index on")
	same(l+rt, s, "left part and right part are the whole text")
}

// P10_Long: longer texts of characters of equal width.
// Bounds: texts of 6..8 characters of 1 byte or 2 bytes each; indices -10..10.
func P10_Long() {
	n := 6 + sym.Choose(3)
	var s string
	if sym.Choose(2) == 0 {
		s = sym.UStrW(n, n, 1)
	} else {
		for i := 0; i < n; i++ {
			c := sym.Rune()
			sym.Assume(c >= 0x80)
			sym.Assume(c < 0x800)
			s += string(c)
		}
	}
	a, b := sym.IntRange(-10, 10), sym.IntRange(-10, 10)
	same(xstring.Sub(s, a, b), part([]rune(s), a, b), "Sub returns the characters from start up to end")
}

// P10_NoPanic: texts that are not valid UTF-8 never make them panic.
// Bounds: 0..2 arbitrary bytes; indices any 64-bit integer.
func P10_NoPanic() {
	s := sym.Str(0, 2)
	a, b := sym.Int(), sym.Int()
	xstring.Sub(s, a, b)
	xstring.Left(s, a)
	xstring.Right(s, b)
	sym.Cover("done")
}

func repeat(ch rune, n int) string {
	var r []rune
	for i := 0; i < n; i++ {
		r = append(r, ch)
	}
	return string(r)
}

// P11_Pad: every kind of padding to any width.
// Bounds: texts of 0..2 arbitrary characters (thorough 0..3), any pad character, widths from the smallest integer to 5 (thorough 7).
func P11_Pad() {
	s := sym.UStr(0, 2+sym.Tier())
	n := len([]rune(s))
	size := sym.Int()
	sym.Assume(size <= 5+2*sym.Tier())
	ch := sym.Rune()
	k := sym.Choose(6)
	var got string
	switch k {
	case 0:
		got = xstring.PadLeftChar(s, size, ch)
	case 1:
		got = xstring.PadRightChar(s, size, ch)
	case 2:
		got = xstring.PadCenterChar(s, size, ch)
	case 3:
		sym.Assume(ch == ' ')
		got = xstring.PadLeftSpace(s, size)
	case 4:
		sym.Assume(ch == ' ')
		got = xstring.PadRightSpace(s, size)
	case 5:
		sym.Assume(ch == ' ')
		got = xstring.PadCenterSpace(s, size)
	}
	if size <= n {
		sym.Cover("wide enough")
		same(got, s, "a text already wide enough is returned unchanged")
		return
	}
	sym.Cover("padded")
	pads := sym.Concrete(size - n)
	sym.Assert(utf8.RuneCountInString(got) == n+pads, "the padded text has exactly the requested width")
	left := 0
	switch k % 3 {
	case 0:
		left = pads
	case 2:
		left = pads / 2
	}
	same(got, repeat(ch, left)+s+repeat(ch, pads-left), "only the pad character is added, on the right side(s)")
}

// P11_Repeat: any character, any count.
// Bounds: counts from the smallest integer to 6, any character.
func P11_Repeat() {
	ch := sym.Rune()
	n := sym.Int()
	sym.Assume(n <= 6)
	got := xstring.RepeatChar(ch, n)
	if n < 1 {
		sym.Assert(got == "", "repeating less than once gives the empty text")
		return
	}
	sym.Cover("copies")
	same(got, repeat(ch, sym.Concrete(n)), "repeating gives exactly that many copies")
}

// P11_Wide: wide padding of short texts.
// Bounds: texts of 0..1 characters, widths 30..33, any pad character.
func P11_Wide() {
	s := sym.UStr(0, 1)
	n := len([]rune(s))
	size := 30 + sym.Choose(4)
	ch := sym.Rune()
	same(xstring.PadLeftChar(s, size, ch), repeat(ch, size-n)+s, "left padding")
	same(xstring.PadRightChar(s, size, ch), s+repeat(ch, size-n), "right padding")
	l := (size - n) / 2
	same(xstring.PadCenterChar(s, size, ch), repeat(ch, l)+s+repeat(ch, size-n-l), "centre padding")
}

func rotated(r []rune, k int) string {
	n := len(r)
	if n == 0 {
		return ""
	}
	out := make([]rune, n)
	for i := range r {
		out[((i+k)%n+n)%n] = r[i]
	}
	return string(out)
}

// P12_Rotate: any shift.
// Bounds: texts of 0..3 arbitrary characters (thorough 0..4), shifts -9..9.
func P12_Rotate() {
	s := sym.UStr(0, 3+sym.Tier())
	k := sym.IntRange(-9, 9)
	got := xstring.Rotate(s, k)
	k = sym.Concrete(k)
	same(got, rotated([]rune(s), k), "rotating moves the characters circularly")
	sym.Obs("rot", got)
}

// P12_RotateFar: shifts far beyond the length.
// Bounds: texts of 1..3 one- or two-byte characters, shifts at and near the ends of the 64-bit range and near 2^31 and 2^32.
func P12_RotateFar() {
	s := sym.UStrW(1, 3, 2)
	far := []int{-1 << 63, -1<<63 + 1, 1<<63 - 1, 1<<63 - 2, 1 << 31, 1<<32 + 1, -1 << 32, -1<<31 - 1, 1000003, -1000003}
	k := far[sym.Choose(len(far))]
	r := []rune(s)
	same(xstring.Rotate(s, k), rotated(r, k%len(r)), "rotating moves the characters circularly by any count")
}

// P12_Reverse: valid texts.
// Bounds: texts of 0..4 arbitrary characters (thorough 0..6).
func P12_Reverse() {
	s := sym.UStr(0, 4+sym.Tier())
	r := []rune(s)
	var want []rune
	for i := len(r) - 1; i >= 0; i-- {
		want = append(want, r[i])
	}
	got, err := xstring.Reverse(s)
	sym.Assert(err == nil, "reversing a valid text reports no error")
	same(got, string(want), "reversing returns the characters in opposite order")
	same(xstring.MustReverse(got), s, "reversing twice gives the original text")
}

// P12_ReverseInvalid: any byte string.
// Bounds: 0..4 arbitrary bytes (thorough 0..5).
func P12_ReverseInvalid() {
	s := sym.Str(0, 3+sym.Tier())
	_, err := xstring.Reverse(s)
	if utf8.ValidString(s) {
		sym.Cover("valid")
		sym.Assert(err == nil, "reversing a valid text reports no error")
		return
	}
	sym.Cover("invalid")
	sym.Assert(err != nil, "reversing text that is not valid UTF-8 reports an error")
	_, panicked := sym.Catch(func() { xstring.MustReverse(s) })
	sym.Assert(panicked, "MustReverse panics on text that is not valid UTF-8")
}

// P12_Shuffle: every outcome of the random numbers.
// Bounds: texts of 0..2 arbitrary characters (thorough 0..3), or of 3 (thorough 4) characters of 1 byte; random numbers arbitrary within their range.
func P12_Shuffle() {
	var s string
	if sym.Choose(2) == 0 {
		s = sym.UStr(0, 2+sym.Tier())
	} else {
		s = sym.UStrW(3, 3+sym.Tier(), 1)
	}
	in := []rune(s)
	out := []rune(xstring.Shuffle(s))
	sym.Assert(len(out) == len(in), "shuffling keeps the number of characters")
	for _, c := range in {
		a, b := 0, 0
		for i := range in {
			a += sym.IteInt(in[i] == c, 1, 0)
			b += sym.IteInt(out[i] == c, 1, 0)
		}
		sym.Assert(a == b, "shuffling keeps every character as often as it was there")
	}
	sym.Cover("done")
}

// P12_ShuffleLarge: long texts.
// Bounds: 5, 9, 20, 64, 70 or 300 different characters of 1 to 4 bytes, 8 fixed sequences of random numbers.
func P12_ShuffleLarge() {
	n := []int{5, 9, 20, 64, 70, 300}[sym.Choose(6)]
	sym.Rand(sym.Choose(8))
	in := make([]rune, n)
	for i := range in {
		in[i] = []rune{'0', 0x400, 0x4e00, 0x20000}[i%4] + rune(i)
	}
	out := []rune(xstring.Shuffle(string(in)))
	sym.Assert(len(out) == n, "shuffling keeps the number of characters")
	seen := map[rune]int{}
	for _, c := range out {
		seen[c]++
	}
	for _, c := range in {
		sym.Assert(seen[c] == 1, "shuffling keeps every character as often as it was there")
	}
	sym.Cover("done")
}

// P13_RemoveChar: any character from any text.
// Bounds: texts of 0..3 arbitrary characters (thorough 0..4), any character.
func P13_RemoveChar() {
	s := sym.UStr(0, 3+sym.Tier())
	c := sym.Rune()
	var want []rune
	for _, x := range []rune(s) {
		if x != c {
			want = append(want, x)
		}
	}
	got := xstring.RemoveChar(s, c)
	same(got, string(want), "removing a character keeps exactly the others in order")
	sym.Obs("rm", got)
}

// P13_Whitespace: any text.
// Bounds: texts of 0..3 arbitrary characters (thorough 0..4).
func P13_Whitespace() {
	s := sym.UStr(0, 3+sym.Tier())
	var want []rune
	for _, x := range []rune(s) {
		if !unicode.IsSpace(x) {
			want = append(want, x)
		}
	}
	got := xstring.DeleteWhitespace(s)
	same(got, string(want), "deleting whitespace keeps exactly the other characters in order")
	sym.Obs("ws", got)
}

// without removes successive non-overlapping occurrences from left to right.
func without(s, sub string) string {
	var out []byte
	for i := 0; i < len(s); {
		if sub != "" && i+len(sub) <= len(s) && s[i:i+len(sub)] == sub {
			i += len(sub)
		} else {
			out = append(out, s[i])
			i++
		}
	}
	return string(out)
}

// P13_RemoveString: any substring from any text.
// Bounds: texts of 0..5 one-byte characters with substrings of 0..2, texts of 0..3 and substrings of 0..1 arbitrary characters.
func P13_RemoveString() {
	var s, sub string
	if sym.Choose(2) == 0 {
		s, sub = sym.UStrW(0, 5, 1), sym.UStrW(0, 2, 1)
	} else {
		s, sub = sym.UStr(0, 2+sym.Tier()), sym.UStr(0, 1)
	}
	same(xstring.RemoveString(s, sub), without(s, sub), "removing a substring removes its occurrences from left to right")
}

// long makes a text of n characters: of one byte each, or of all widths mixed,
// with one arbitrary character at position at.
func long(n, at int, wide bool, c rune) []rune {
	pat := []rune("abcdefghij ABC.0xyz\t")
	if wide {
		pat = []rune("aé世b😀 ö\u00a0界z")
	}
	r := make([]rune, n)
	for i := range r {
		r[i] = pat[i%len(pat)]
	}
	r[at] = c
	return r
}

// longText chooses a long text and a position in it.
func longText() ([]rune, rune) {
	sizes := []int{70, 300, 1100, 5000}
	n := sizes[sym.Choose(3+sym.Tier())]
	wide := sym.Choose(2) == 1
	c := sym.Rune()
	if !wide {
		sym.Assume(c < 0x80)
	}
	return long(n, []int{0, n / 2, n - 1}[sym.Choose(3)], wide, c), c
}

// P10_Large: selections from long texts.
// Bounds: texts of 70, 300 and 1100 characters (thorough also 5000) of one or of mixed widths, one of them arbitrary at the beginning, the middle or the end; 14 indices around the ends, the middle and the powers of two in between.
func P10_Large() {
	r, _ := longText()
	n := len(r)
	s := string(r)
	idx := []int{0, 1, 31, 63, 64, n / 2, n - 1, n, n + 1, -1, -32, -n / 2, -n, -n - 1}
	k := sym.Choose(len(idx))
	a := idx[k]
	for i := 0; i < len(idx); i += 3 {
		b := idx[(k+i)%len(idx)]
		same(xstring.Sub(s, a, b), part(r, a, b), "Sub returns the characters from start up to end of a long text")
	}
	c := clamp(a, n)
	same(xstring.Left(s, a), string(r[:c]), "Left returns the characters before the index of a long text")
	same(xstring.Right(s, a), string(r[c:]), "Right returns the characters from the index on of a long text")
	sym.Cover("done")
}

// P11_Large: padding to large widths.
// Bounds: texts of 0, 1, 70 or 300 characters, widths 64, 257, 1025 (thorough also 5000), one arbitrary pad character, all kinds of padding; as many copies.
func P11_Large() {
	sizes := []int{64, 257, 1025, 5000}
	size := sizes[sym.Choose(3+sym.Tier())]
	ch := sym.Rune()
	n := []int{0, 1, 70, 300}[sym.Choose(4)]
	var r []rune
	if n > 0 {
		r = long(n, n/2, true, 'q')
	}
	s := string(r)
	p := size - n
	if p < 0 {
		p = 0
	}
	same(xstring.PadLeftChar(s, size, ch), repeat(ch, p)+s, "left padding to a large width")
	same(xstring.PadRightChar(s, size, ch), s+repeat(ch, p), "right padding to a large width")
	same(xstring.PadCenterChar(s, size, ch), repeat(ch, p/2)+s+repeat(ch, p-p/2), "centre padding to a large width")
	same(xstring.PadLeftSpace(s, size), repeat(' ', p)+s, "left padding to a large width")
	same(xstring.PadRightSpace(s, size), s+repeat(' ', p), "right padding to a large width")
	same(xstring.PadCenterSpace(s, size), repeat(' ', p/2)+s+repeat(' ', p-p/2), "centre padding to a large width")
	same(xstring.RepeatChar(ch, size), repeat(ch, size), "repeating gives exactly that many copies")
	sym.Cover("done")
}

// P12_Large: moving the characters of long texts.
// Bounds: texts of 70, 300 and 1100 characters (thorough also 5000) of one or of mixed widths, one of them arbitrary at the beginning, the middle or the end; 8 shifts.
func P12_Large() {
	r, _ := longText()
	n := len(r)
	s := string(r)
	shifts := []int{1, -1, 33, n / 2, n - 1, n, n + 1, -3*n - 7}
	k := shifts[sym.Choose(len(shifts))]
	same(xstring.Rotate(s, k), rotated(r, k), "rotating moves the characters of a long text circularly")
	want := make([]rune, n)
	for i, c := range r {
		want[n-1-i] = c
	}
	got, err := xstring.Reverse(s)
	sym.Assert(err == nil, "reversing a valid text reports no error")
	same(got, string(want), "reversing a long text returns the characters in opposite order")
	bad := s[:len(s)-1] + "\xff"
	_, err = xstring.Reverse(bad)
	sym.Assert(err != nil, "reversing text that is not valid UTF-8 reports an error")
	sym.Cover("done")
}

// P13_Large: deleting from long texts.
// Bounds: texts of 70, 300 and 1100 characters (thorough also 5000) of one or of mixed widths, one of them arbitrary at the beginning, the middle or the end; that character, a common one or an arbitrary one deleted, whitespace deleted, substrings of 1..3 characters deleted (in the longest texts, and where it is the substring, the arbitrary character is one of two).
func P13_Large() {
	r, c := longText()
	s := string(r)
	switch sym.Choose(3) {
	case 0:
		d := []rune{c, 'b', '世', ' '}[sym.Choose(4)]
		var want []rune
		for _, x := range r {
			if x != d {
				want = append(want, x)
			}
		}
		same(xstring.RemoveChar(s, d), string(want), "removing a character from a long text keeps exactly the others in order")
	case 1:
		var want []rune
		for _, x := range r {
			if !unicode.IsSpace(x) {
				want = append(want, x)
			}
		}
		same(xstring.DeleteWhitespace(s), string(want), "deleting whitespace from a long text keeps exactly the other characters in order")
	case 2:
		k := sym.Choose(4)
		sub := []string{"b", "éa", "世b😀", string(c)}[k]
		if k == 3 || len(r) > 300 {
			sym.Assume(c == '世' || c == 'q')
			c = rune(sym.Concrete(int(c)))
			r[0], r[len(r)/2], r[len(r)-1] = c, c, c
			s, sub = string(r), []string{"b", "éa", "世b😀", string(c)}[k]
		}
		same(xstring.RemoveString(s, sub), without(s, sub), "removing a substring from a long text removes its occurrences from left to right")
	}
	sym.Cover("done")
}
